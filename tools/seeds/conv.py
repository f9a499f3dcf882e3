F = 'tpl/cmd/tplconv/tplconv.go'
HEAD = '''#!/bin/bash
# run with cwd = the tree of qiniu/text; exit 0 if it behaves
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go build -o "$d/tplconv" ./tpl/cmd/tplconv || exit 2
export HOME=$d/home
mkdir -p "$d/home/.tplconv/input" "$d/home/.tplconv/output" "$d/work" && cd "$d/work" || exit 2
echo 'doc = *(INT/x_Ints | STRING/z_String);' > "$HOME/.tplconv/input/w.tpl"
echo 'doc = *INT/y_Ints;' > "$HOME/.tplconv/input/v.tpl"
printf '<p title="{{json .}}">doc</p>' > "$HOME/.tplconv/output/page.html"
printf '<b>{{json .x}}</b>' > "$HOME/.tplconv/output/other.htm"
echo 1 2 > a.w; echo 3 > b.w; echo '(' > bad.w; echo 5 > c.v.w; echo 6 > e.v; echo '"<q>"' > s.w
flat() { tr -d ' \\n'; }
is() { if [ "$1" != "$2" ]; then echo "got $1, want $2"; exit 1; fi; }
'''


def demo(s):
    return HEAD + s


OPEN = '''		f, err2 := os.Create(outFile)
'''
SINK = '''	w := os.Stdout
	if *outputExt != "" {
		outFile := inputFile + "." + *outputExt
		f, err2 := os.Create(outFile)
		if err2 != nil {
			return err2
		}
		defer f.Close()
		w = f
	}

'''
PARSE = '''	doc, err := e.SafeParse(input, inputFile)
	if err != nil {
		return
	}

'''
SEEDS = [
    dict(id='c30-old-tail', property='C30', needs='an output file that already exists and is longer than the new document',
         breaks='outputs are opened without emptying them: the tail of the old content stays',
         edits=[(F, OPEN, '''		f, err2 := os.OpenFile(outFile, os.O_WRONLY|os.O_CREATE, 0666)
''')],
         demo_sh=demo('''seq 1000 > a.w.out
"$d/tplconv" -ext out a.w || exit 1
is "$(flat < a.w.out)" '{"x":[1,2]}'
''')),
    dict(id='c30-output-first', property='C30', needs='a text that does not match, and an output file from before',
         breaks='the output is created before the text is parsed: a refused text destroys the old output',
         edits=[(F, PARSE + SINK, SINK + PARSE)],
         demo_sh=demo('''echo old > bad.w.out
"$d/tplconv" -ext out bad.w 2>/dev/null; is $? 2
is "$(cat bad.w.out)" old
''')),
    dict(id='c30-goes-on', property='C30', needs='a file that cannot be converted, with files after it',
         breaks='the run goes on with the files after the one that failed',
         edits=[(F, '''	for i := 0; i < n; i++ {
		err := processFile(root, flag.Arg(i))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
''', '''	code := 0
	for i := 0; i < n; i++ {
		err := processFile(root, flag.Arg(i))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			code = 2
		}
	}
	os.Exit(code)
''')],
         demo_sh=demo('''"$d/tplconv" -ext out a.w bad.w b.w 2>/dev/null; is $? 2
is "$(ls)" "$(printf 'a.w\\na.w.out\\nb.w\\nbad.w\\nc.v.w\\ne.v\\ns.w')"
''')),
    dict(id='c30-one-sink', property='C30', needs='two files converted with -ext',
         breaks='the output opened for the first file is kept for all: later documents are appended to it',
         edits=[(F, SINK, '''	w := os.Stdout
	if *outputExt != "" {
		if sink == nil {
			outFile := inputFile + "." + *outputExt
			f, err2 := os.Create(outFile)
			if err2 != nil {
				return err2
			}
			sink = f
		}
		w = sink
	}

'''), (F, '''// tplconv -o output-format -ext output-ext input-file1 [... input-fileN]
//
func main''', '''var sink *os.File

// tplconv -o output-format -ext output-ext input-file1 [... input-fileN]
//
func main''')],
         demo_sh=demo('''"$d/tplconv" -ext out a.w b.w || exit 1
is "$(flat < a.w.out)" '{"x":[1,2]}'
is "$(flat < b.w.out)" '{"x":[3]}'
''')),
    dict(id='c30-first-dot', property='C30', needs='a name with two dots',
         breaks='the extension is what follows the first dot of the name',
         edits=[(F, '''	ext := filepath.Ext(inputFile)
	if ext == "" {
		return fmt.Errorf("unknown file format: %s", inputFile)
	}
''', '''	base := filepath.Base(inputFile)
	ext := filepath.Ext(base)
	if ext == "" {
		return fmt.Errorf("unknown file format: %s", inputFile)
	}
	for e := filepath.Ext(base[:len(base)-len(ext)]); e != ""; e = filepath.Ext(base[:len(base)-len(ext)]) {
		base = base[:len(base)-len(ext)]
		ext = e
	}
''')],
         demo_sh=demo('''is "$("$d/tplconv" c.v.w | flat)" '{"x":[5]}'
''')),
    dict(id='c30-grammar-kept', property='C30', needs='files of two extensions in one run',
         breaks='the extractor made for the first file is kept for all files',
         edits=[(F, '''	e, err := extractor.New(tpl, nil)
	if err != nil {
		err = fmt.Errorf("invalid tpl file %s:\\n ==> %v", inputTempFile, err)
		return
	}
''', '''	if cached == nil {
		cached, err = extractor.New(tpl, nil)
		if err != nil {
			err = fmt.Errorf("invalid tpl file %s:\\n ==> %v", inputTempFile, err)
			return
		}
	}
	e := cached
'''), (F, '''var outInternals =''', '''var cached *extractor.Engine

var outInternals =''')],
         demo_sh=demo('''is "$("$d/tplconv" a.w e.v | flat)" '{"x":[1,2]}{"y":[6]}'
''')),
    dict(id='c30-not-escaped', property='C30', needs='a page that shows a document inside an attribute',
         breaks='pages are made by text/template: the quotes of the document end the attribute',
         edits=[(F, '	"html/template"\n', ''), (F, '	"path/filepath"\n', '	"path/filepath"\n	"text/template"\n')],
         demo_sh=demo('''is "$("$d/tplconv" -o page.html b.w | flat | grep -c '<ptitle="{[^"]*}">doc</p>')" 1
''')),
    dict(id='c30-match-only', property='C30', needs='a text that matches at its beginning only',
         breaks='what the grammar leaves unmatched is ignored',
         edits=[(F, '''	doc, err := e.SafeParse(input, inputFile)
''', '''	_, err = e.Match(input, inputFile)
	doc := e.Result()
''')],
         demo_sh=demo('''echo '1 (' > t.w
"$d/tplconv" t.w > out 2>/dev/null; is $? 2
is "$(cat out)" ''
''')),
]
