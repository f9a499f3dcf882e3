F = 'tpl/cmd/tplgen/main.go'
HEAD = '''#!/bin/bash
# run with cwd = the tree of qiniu/text; exit 0 if it behaves
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go build -o "$d/tplgen" ./tpl/cmd/tplgen || exit 2
mkdir "$d/p" && cd "$d/p" || exit 2
'''


def demo(decl, rest):
    return HEAD + "cat > decl.go <<'EOF'\npackage p\n\n%s\nEOF\n" % decl + rest


TAKES = '''"$d/tplgen" %s || exit 1
grep -q '"%s"' static_compiler.go || { echo other grammar; exit 1; }
'''
FAILS = '''"$d/tplgen" %s 2> err; [ $? = 1 ] || { echo no failure; exit 1; }
[ ! -e static_compiler.go ] || { echo output left; exit 1; }
'''
SEEDS = [
    dict(id='c31-name-at-zero', property='C31', needs='a literal for the second name of a declaration with several',
         breaks='the value taken is always the first of the declaration',
         edits=[(F, 'valueSpec.Values[index].(*ast.BasicLit)', 'valueSpec.Values[index%len(valueSpec.Values)/len(valueSpec.Names)].(*ast.BasicLit)')],
         demo_sh=demo('const a, grammar = `doc = INT/first`, `doc = INT/second`', TAKES % ('', 'second'))),
    dict(id='c31-last-wins', property='C31', needs='two declarations of the name in different functions',
         breaks='the search goes on after the first literal: the last one of a file is taken',
         edits=[(F, '''			for _, decl := range f.Decls {
				grammarContent = findInDecl(decl, *grammarName)
				if grammarContent != "" {
					packageName = name
					goto OUT
				}
			}
''', '''			for _, decl := range f.Decls {
				if g := findInDecl(decl, *grammarName); g != "" {
					grammarContent = g
					packageName = name
				}
			}
			if grammarContent != "" {
				goto OUT
			}
''')],
         demo_sh=demo('''func f() string {
	grammar := `doc = INT/first`
	return grammar
}

func g() string {
	grammar := `doc = INT/second`
	return grammar
}''', TAKES % ('', 'first'))),
    dict(id='c31-old-output-read', property='C31', needs='an output of an earlier run that declares the name, with a name sorted before the source',
         breaks='the old output is removed only when the new one is written, so it is searched as part of the package',
         edits=[(F, '''	flag.Parse()
	os.Remove(*outputFileName)
''', '''	flag.Parse()
'''), (F, '''	fd, err := os.OpenFile(''', '''	os.Remove(*outputFileName)
	fd, err := os.OpenFile(''')],
         demo_sh=demo('const other = `doc = INT/first`', '''printf 'package p\\n\\nconst grammar = `doc = INT/stale`\\n' > static_compiler.go
''' + FAILS % '')),
    dict(id='c31-first-statement', property='C31', needs='an assignment to the name after a statement of the same function that gives it no literal',
         breaks='a definition of the name that gives it no literal ends the search of the function',
         edits=[(F, '''				g := findInAssignment(assignStmt, grammarName)
				if g != "" {
					return g
				}
''', '''				g := findInAssignment(assignStmt, grammarName)
				if g != "" || assigns(assignStmt, grammarName) {
					return g
				}
'''), (F, '''func findInDecl(''', '''func assigns(stmt *ast.AssignStmt, name string) bool {
	for _, expr := range stmt.Lhs {
		if id, ok := expr.(*ast.Ident); ok && id.Name == name {
			return true
		}
	}
	return false
}

func findInDecl(''')],
         demo_sh=demo('''func mk() string { return "" }

func f() string {
	grammar := mk()
	grammar = `doc = INT/first`
	return grammar
}''', TAKES % ('', 'first'))),
    dict(id='c31-output-before-code', property='C31', needs='a literal that is no grammar',
         breaks='the output is created before the code is generated: a failing run leaves an empty file',
         edits=[(F, '''	code, err := generator.GenStaticCode(grammarContent)
	exitIfNotNil(err)
	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
	exitIfNotNil(err)
	defer fd.Close()
''', '''	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
	exitIfNotNil(err)
	defer fd.Close()
	code, err := generator.GenStaticCode(grammarContent)
	exitIfNotNil(err)
''')],
         demo_sh=demo('const grammar = `doc = (`', FAILS % '')),
    dict(id='c31-fold-case', property='C31', needs='an earlier name that differs in case only',
         breaks='names are compared without regard to case',
         edits=[(F, 'if ident.Name == grammarName {\n					index = i\n				}', 'if strings.EqualFold(ident.Name, grammarName) {\n					index = i\n				}'),
                (F, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
         demo_sh=demo('const Grammar = `doc = INT/first`\n\nconst grammar = `doc = INT/second`', TAKES % ('', 'second'))),
]
