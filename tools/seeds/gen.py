G = 'tpl/generator/static_parser_gen.go'
OT = 'tpl/cmd/tplgen/output.tpl'
TM = 'tpl/cmd/tplgen/main.go'
PRE = '''#!/bin/bash
# run with cwd = the tree of qiniu/text; exit 0 if generated code behaves as the compiled grammar
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/gen"
cp "$here/main.go" "$d/main.go"
cat > "$d/go.mod" <<EOF
module demo

go 1.21

require github.com/qiniu/text v0.0.0

replace github.com/qiniu/text => $root
EOF
cd "$d" || exit 2
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
'''
# the generator as a library
LIB = PRE + '''
cp "$here/gen.go" "$d/gen/main.go"
cp "$here/grammar.txt" "$d/"
go run ./gen < grammar.txt > code.go
case $? in
0) ;;
*) echo 'package main

import "github.com/qiniu/text/tpl"

type StaticCompiler struct { Marker func(g tpl.Grammar, mark string) tpl.Grammar; ScanMode tpl.ScanMode }

func (*StaticCompiler) Cl() tpl.CompileRet { panic("refused") }' > code.go ;;
esac
go build -o demo . || { echo generated code does not build; exit 1; }
timeout 60 ./demo
'''
GEN = '''package main

import (
	"fmt"
	"io"
	"os"

	"github.com/qiniu/text/tpl/generator"
)

func main() {
	b, _ := io.ReadAll(os.Stdin)
	code, err := generator.GenStaticCode(string(b))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println("package main\\n\\nimport \\"github.com/qiniu/text/tpl\\"\\n" + code)
}
'''
CMP = '''package main

import (
	"fmt"
	"os"

	"github.com/qiniu/text/tpl"
)

var inputs = []string{%s}

func run(cl func(marker func(g tpl.Grammar, mark string) tpl.Grammar) (tpl.CompileRet, error)) (out []string) {
	defer func() {
		if e := recover(); e != nil {
			out = []string{"refused"}
		}
	}()
	line := ""
	ret, err := cl(func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
			line += fmt.Sprintf(" %%s(%%d tokens, len %%d)", mark, len(tokens), g.Len())
		})
	})
	if err != nil {
		return []string{"refused"}
	}
	for _, in := range inputs {
		line = in + ":"
		func() {
			defer func() {
				if e := recover(); e != nil {
					line += " panic"
				}
			}()
			next, err := ret.Match([]byte(in), "")
			line += fmt.Sprintf(" %%v %%d left", err == nil, len(next))
		}()
		out = append(out, line)
	}
	return
}

func main() {
	text, _ := os.ReadFile("grammar.txt")
	a := run(func(m func(g tpl.Grammar, mark string) tpl.Grammar) (tpl.CompileRet, error) {
		return (&tpl.Compiler{Grammar: text, Marker: m}).Cl()
	})
	b := run(func(m func(g tpl.Grammar, mark string) tpl.Grammar) (tpl.CompileRet, error) {
		return (&StaticCompiler{Marker: m}).Cl(), nil
	})
	if fmt.Sprint(a) != fmt.Sprint(b) {
		fmt.Printf("compiled:  %%q\\ngenerated: %%q\\n", a, b)
		os.Exit(1)
	}
}
'''


def lib(grammar, *inputs):
    return dict(demo_sh=LIB, demo=CMP % ', '.join('"%s"' % i for i in inputs), files={'gen.go': GEN, 'grammar.txt': grammar})


# the tplgen command with -i
CMD = PRE + '''
cp "$here/lang.go" "$d/lang.go"
go build -o tplgen github.com/qiniu/text/tpl/cmd/tplgen || exit 2
./tplgen -i FLAGS || exit 1
go build -o demo . || { echo generated code does not build; exit 1; }
timeout 60 ./demo
'''
IPT = '''package main

import (
	"fmt"
	"os"
	"reflect"

	"github.com/qiniu/text/tpl/interpreter.util"
)

var _ interpreter.Engine

type stk struct{ v []interface{} }

func (p *stk) PopArgs(n int) (args []reflect.Value, ok bool) {
	m := len(p.v) - n
	if m < 0 {
		return nil, false
	}
	for _, v := range p.v[m:] {
		args = append(args, reflect.ValueOf(v))
	}
	p.v = p.v[:m]
	return args, true
}

func (p *stk) PushRet(ret []reflect.Value) error {
	for _, v := range ret {
		p.v = append(p.v, v.Interface())
	}
	return nil
}

type ipt struct{ t map[string]interface{} }

func (p *ipt) Grammar() string                 { return "" }
func (p *ipt) Stack() interpreter.Stack        { return S }
func (p *ipt) Fntable() map[string]interface{} { return p.t }

var S = new(stk)
var log string

func eval(e *Engine, src string) (s string) {
	defer func() {
		if v := recover(); v != nil {
			s = fmt.Sprint("panic ", v)
		}
	}()
	if err := e.Eval(src); err != nil {
		return "error"
	}
	return "ok"
}

func want(got, want string) {
	if got != want {
		fmt.Printf("got %%q, want %%q\\n", got, want)
		os.Exit(1)
	}
}

func main() {
	p := new(ipt)
	_ = p
%s
}
'''


def cmd(lang, body, flags=''):
    return dict(demo_sh=CMD.replace('FLAGS', flags), demo=IPT % body, files={'lang.go': 'package main\n\n' + lang})


SEEDS = [
    dict(id='c26-twice', property='C26', needs='a grammar text with a rule that is defined twice and not used before its first definition',
         breaks='the generator accepts a text the compiler refuses; the last definition wins',
         edits=[(G, '''		} else if _, ok := grammars[name]; ok {
			panic("grammar already exists: " + name)
		} else {
''', '''		} else {
''')], **lib('doc = a;\nb = INT;\nb = IDENT;\na = b;\n', '1', 'x')),
    dict(id='c26-int', property='C26', needs='a number other than 1 in a grammar text', breaks='the generator accepts a text the compiler refuses',
         edits=[(G, 'if tokens[0].Literal != "1" {', 'if tokens[0].Literal == "0" {')], **lib('doc = INT 2 IDENT;\n', '1 x')),
    dict(id='c26-opt-rep', property='C26', needs='?(+x) with a mark that asks for the number of items',
         breaks='an optional repetition is generated as a repetition: the mark sees the number of items in place of 1',
         edits=[(G, '''		stk[n-1] = fmt.Sprintf("tpl.Repeat01(%s)", a)''', '''		if strings.HasPrefix(a, "tpl.Repeat1(") { // one or more, or nothing
			stk[n-1] = "tpl.Repeat0" + a[len("tpl.Repeat1"):]
			return
		}
		stk[n-1] = fmt.Sprintf("tpl.Repeat01(%s)", a)''')],
         **lib('doc = ?(+INT)/N;\n', '1 2 3', '', '7')),
    dict(id='c26-not-not', property='C26', needs='~~x, or ~(~x | ...) at its start', breaks='a doubled negation is dropped, and the text it looked at is consumed',
         edits=[(G, '''		stk[n-1] = fmt.Sprintf("tpl.Not(%s)", a)''', '''		if inner := strings.TrimPrefix(a, "tpl.Not("); inner != a {
			stk[n-1] = inner[:len(inner)-1]
			return
		}
		stk[n-1] = fmt.Sprintf("tpl.Not(%s)", a)''')],
         **lib("doc = ~~INT INT;\n", '1', '1 2', 'x')),
    dict(id='c26-mark-again', property='C26', needs='a mark on an already marked part (x/a/b)', breaks='the inner mark is lost in the generated code',
         edits=[(G, '''		stk[n-1] = fmt.Sprintf("cmplr.Marker(%s,\\"%s\\")", a, tokens[0].Literal)''', '''		if i := strings.LastIndex(a, ",\\""); i > 0 && strings.HasPrefix(a, "cmplr.Marker(") {
			a = a[len("cmplr.Marker("):i]
		}
		stk[n-1] = fmt.Sprintf("cmplr.Marker(%s,\\"%s\\")", a, tokens[0].Literal)''')],
         **lib("doc = INT/a/b % ',';\n", '1', '1,2')),
    dict(id='c26-and-flat', property='C26', needs='a sequence that begins with a bracketed sequence and contains a cut or is marked for its length',
         breaks='a bracketed sequence at the start of a sequence is spliced into it: the length a mark sees changes',
         edits=[(G, '''		stk[n-m] = fmt.Sprintf("tpl.And(%s)", strings.Join(stk[n-m:], ","))''', '''		if a := stk[n-m]; strings.HasPrefix(a, "tpl.And(") {
			stk[n-m] = a[len("tpl.And(") : len(a)-1]
		}
		stk[n-m] = fmt.Sprintf("tpl.And(%s)", strings.Join(stk[n-m:], ","))''')],
         **lib("doc = ((INT INT) IDENT)/N | (INT IDENT)/N;\n", '1 2 x', '1 x')),
    dict(id='c26-scan-first', property='C26', needs='a grammar text whose keyword occurs as a rule name or mark in a later rule',
         breaks='ILLEGAL and other names of kinds that no text has are taken for tokens instead of being refused',
         edits=[(G, '''			tok := scanner.Ltot(name)
			if tok == tpl.ILLEGAL {
				panic("illegal token: " + name)
			}
			if tok == tpl.EOF {''', '''			tok := scanner.Ltot(name)
			if tok == tpl.EOF || tok == tpl.ILLEGAL && name[len(name)-1] == 'F' {''')],
         **lib('doc = INT IF;\n', '1', '1 x')),
    dict(id='c26-nodoc', property='C26', needs='a text whose rule doc is missing', breaks='the generator takes the text; the code does not build',
         edits=[(G, '''	return "", tpl.ErrNoDoc
}''', '''	return strings.Replace(rules, "\\"", "// ", -1), nil
}''')], **lib('a = INT;\nb = a;\n', '1')),
    dict(id='c26-mute-depth', property='C26', needs='a generated interpreter and an early mark (_x) inside two levels of muting',
         breaks='early marks run at every depth of muting in generated interpreters',
         edits=[(OT, '''if mark[0] != '_' || p.mute > 1 {''', '''if mark[0] != '_' {''')],
         **cmd('const grammar = `\ndoc = *item\nitem = INT/_a | \'(\'/_mute | \')\'/_unmute\n`\n', '''	p.t = map[string]interface{}{"$_a": func(_ *stk, v int) { log += fmt.Sprint(v, " ") }}
	e, err := NewStaticInterpreter(p, nil)
	if err != nil {
		os.Exit(1)
	}
	want(eval(e, "1 ( 2 ( 3 ) 4 ) 5"), "ok")
	want(log, "1 2 4 5 ")
''')),
    dict(id='c26-mute-stays', property='C26', needs='a generated interpreter: code that leaves the engine muted is evaluated from within an action',
         breaks='generated interpreters keep the muting of captured code after it has been evaluated',
         edits=[(OT, '''		p.Interpreter = old
		p.mute = mute
''', '''		p.Interpreter = old
		if p.mute < mute {
			p.mute = mute
		}
''')],
         **cmd('const grammar = `\ndoc = *item\nitem = INT/a | \'[\'/_mute | IDENT/_cap | \'!\'/run\nblock = IDENT 1/_mute\n`\n', '''	var code interface{}
	p.t = map[string]interface{}{
		"$a":    func(_ *stk, v int) { log += fmt.Sprint(v, " ") },
		"$_cap": func(_ *stk, c interface{}) { code = c },
		"$run":  func(_ *stk, e interpreter.Engine) error { return e.EvalCode(p, "block", code) },
	}
	e, err := NewStaticInterpreter(p, nil)
	if err != nil {
		os.Exit(1)
	}
	want(eval(e, "1 x ! 2 3"), "ok")
	want(log, "1 2 3 ")
''')),
    dict(id='c26-empty-source', property='C26', needs='a generated interpreter and a mark on an empty match with an interface{} parameter',
         breaks='generated interpreters pass an empty token slice where the engine passes nil',
         edits=[(OT, '''							if len(tokens) == 0 { // use nil as empty source''', '''							if tokens == nil { // use nil as empty source''')],
         **cmd('const grammar = `\ndoc = INT ?IDENT/a\n`\n', '''	p.t = map[string]interface{}{"$a": func(_ *stk, v interface{}) { log += fmt.Sprint(v == nil, " ") }}
	e, err := NewStaticInterpreter(p, nil)
	if err != nil {
		os.Exit(1)
	}
	want(eval(e, "1"), "ok")
	want(eval(e, "1 x"), "ok")
	want(log, "true false ")
''')),
    dict(id='c26-second-name', property='C26', needs='tplgen -g with the grammar in a declaration of several names', breaks='the first value of the declaration is taken for the grammar',
         edits=[(TM, '''				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)''', '''				basicLit, ok := valueSpec.Values[index%len(valueSpec.Names[:1])].(*ast.BasicLit)''')],
         **cmd('const first, lang = `\ndoc = IDENT/a\n`, `\ndoc = INT/a\n`\n', '''	p.t = map[string]interface{}{"$a": func(_ *stk, v string) { log += v }}
	e, err := NewStaticInterpreter(p, nil)
	if err != nil {
		os.Exit(1)
	}
	want(eval(e, "12"), "ok")
	want(log, "12")
''', '-g lang')),
]
