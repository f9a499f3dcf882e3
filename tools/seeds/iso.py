"""C27: engines that are not independent of one another."""


def main(body, imports='', decls=''):
    return '''package main

import (
	"fmt"
	"os"
	"reflect"
	"sync"
	"time"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	engine "github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

var _ = tpl.InsertSemis
var _ = extractor.New
var _ = number.New
var _ = qlang.New
var _ sync.WaitGroup
var _ interpreter.Stack

func bad(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		bad("%v", err)
	}
}

func want(got, exp interface{}) {
	if !reflect.DeepEqual(got, exp) {
		bad("got %#v, not %#v", got, exp)
	}
}

// host is an interpreter with a function table of its own
type host struct {
	grammar string
	fns     map[string]interface{}
	stk     *stack
	log     []string
}

type stack struct{}

func (p *stack) PopArgs(arity int) ([]reflect.Value, bool) { return nil, false }
func (p *stack) PushRet([]reflect.Value) error             { return nil }
func (p *host) Grammar() string                            { return p.grammar }
func (p *host) Fntable() map[string]interface{}            { return p.fns }
func (p *host) Stack() interpreter.Stack                   { return p.stk }

func made(grammar string, opt *engine.Options, fns map[string]interface{}) (*host, *engine.Engine) {
	h := &host{grammar: grammar, fns: fns, stk: &stack{}}
	e, err := engine.New(h, opt)
	must(err)
	return h, e
}

func together(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f(i)
		}(i)
	}
	wg.Wait()
}
@DECLS
func main() {
	time.AfterFunc(100*time.Second, func() { bad("stuck") })
@BODY
}
'''.replace('@DECLS', decls).replace('@BODY', body)


Q = '''	l, err := qlang.New(qlang.InsertSemis)
	must(err)
'''

SEEDS = [
    dict(id='c27-keyword-table', property='C27', needs='two grammars compiled in one process, one with a keyword that the other uses as an identifier',
         breaks='the keyword of one grammar is a keyword in the texts of another',
         edits=[('tpl/compiler.go', '''	p.Scanner.Init(file, src, err, mode)
	if p.keywords == nil {
		p.keywords = make(map[string]uint)
	}
''', '''	p.Scanner.Init(file, src, err, mode)
	if p.keywords == nil {
		p.keywords = allKeywords
	}
'''), ('tpl/compiler.go', '''// Init initializes this scanner.
''', '''// allKeywords has the keywords found so far.
var allKeywords = make(map[string]uint)

// Init initializes this scanner.
''')],
         demo=main('''
	_, err := extractor.New(`doc = "let" IDENT/name_Text`, nil)
	must(err)
	e, err := extractor.New(`doc = IDENT/name_Text`, nil)
	must(err)
	doc, err := e.Extract("let")
	must(err)
	want(doc, map[string]interface{}{"name": "let"})''')),
    dict(id='c27-token-buffer', property='C27', needs='a function of one interpreter (a code block kept as tokens) called after another engine has read a text',
         breaks='the tokens of one text are overwritten by those of the next text of any engine',
         edits=[('tpl/match.go', '''	s.Init(file, src, onError, p.ScanMode)
	for {
''', '''	s.Init(file, src, onError, p.ScanMode)
	tokens = tokenBuf[:0]
	for {
'''), ('tpl/match.go', '''			tokens = tokens[:len(tokens)-1]
			break
''', '''			tokenBuf = tokens
			tokens = tokens[:len(tokens)-1]
			break
'''), ('tpl/match.go', '''// Tokenize tokenizes src.
''', '''var tokenBuf []Token // saves allocations

// Tokenize tokenizes src.
''')],
         demo=main(Q + '''	must(l.SafeExec([]byte("f = fn(x) { return x + 1 }"), ""))
	m, err := qlang.New(qlang.InsertSemis)
	must(err)
	must(m.SafeExec([]byte("y = 7 * 6; z = y - 2; u = [y, z]"), ""))
	f, _ := l.Var("f")
	want(f.(interface{ Call(...interface{}) interface{} }).Call(3), 4)''')),
    dict(id='c27-default-scanner', property='C27', needs='two interpreters made with the same options (or without), one of them used in a call back of the other that then asks for the source text or a line',
         breaks='the engines share a scanner, and one sees the text of the other',
         edits=[('tpl/interpreter/interpreter.go', '''	grammar := ipt.Grammar()
	compiler.Grammar = []byte(grammar)
	compiler.Scanner = options.Scanner
''', '''	grammar := ipt.Grammar()
	compiler.Grammar = []byte(grammar)
	if options.Scanner == nil {
		options.Scanner = new(tpl.AutoKwScanner)
	}
	compiler.Scanner = options.Scanner
''')],
         demo=main('''
	var e1, e2 *engine.Engine
	var h1 *host
	_, e2 = made(`doc = *IDENT/word`, nil, map[string]interface{}{"$word": func(h *host, s string) {}})
	h1, e1 = made(`doc = *(IDENT/word)`, nil, map[string]interface{}{"$word": func(h *host, src interface{}) {
		must(e2.Eval("other words of another text"))
		h.log = append(h.log, string(e1.Source(src)))
	}})
	must(e1.Eval("alpha beta gamma"))
	want(h1.log, []string{"alpha ", "beta ", "gamma"})''')),
    dict(id='c27-extractor-scanner', property='C27', needs='a GetValue function that extracts a part with another extractor, before a text mark of the outer text',
         breaks='extractors without a scanner of their own share one, with the keywords of all of them',
         edits=[('tpl/extractor/extractor.go', '''	ret, err := compiler.Cl()
	if err != nil {
		return
	}
''', '''	ret, err := compiler.Cl()
	if err != nil {
		return
	}
	options.Scanner = compiler.Scanner
''')],
         demo=main('''
	_, err := extractor.New(`doc = "let" IDENT/name_Text`, nil)
	must(err)
	e, err := extractor.New(`doc = IDENT/name_Text`, nil)
	must(err)
	doc, err := e.Extract("let")
	must(err)
	want(doc, map[string]interface{}{"name": "let"})''')),
    dict(id='c27-mute-shared', property='C27', needs='a call back that uses another interpreter while the marks of the first are muted',
         breaks='the muting of one interpreter is ended by the next use of any other',
         edits=[('tpl/interpreter/interpreter.go', '''	fntable := ipt.Fntable()
	initer := func() {
		p.mute = 0 //''', '''	fntable := ipt.Fntable()
	initer := func() {
		lastMute = &p.mute
		p.mute = 0 //'''), ('tpl/interpreter/interpreter.go', '''					p.mute++
''', '''					*lastMute++
'''), ('tpl/interpreter/interpreter.go', '''					p.mute--
''', '''					*lastMute--
'''), ('tpl/interpreter/interpreter.go', '''// Options is options of an interpreter.
''', '''var lastMute *int // of the interpreter at work

// Options is options of an interpreter.
''')],
         demo=main('''
	_, e2 := made(`doc = *IDENT/word`, nil, map[string]interface{}{"$word": func(h *host, s string) {}})
	h1, e1 := made(`doc = *( IDENT/word | INT/sub | '('/_mute | ')'/_unmute )`, nil, map[string]interface{}{
		"$word": func(h *host, s string) { h.log = append(h.log, s) },
		"$sub":  func(h *host, s string) { must(e2.Eval("x y")) },
	})
	must(e1.Eval("a 1 ( b ) c"))
	want(h1.log, []string{"a", "c"})''')),
    dict(id='c27-number-stack', property='C27', needs='two calculators of which one is used while the other is in the middle of an evaluation',
         breaks='the operands of all calculators are in the same memory',
         edits=[('tpl/number/number.go', '''	stk := make(Stack, 0, 16)
	return &stk
''', '''	stk := emptyStack
	return &stk
'''), ('tpl/number/number.go', '''func NewStack() *Stack {
''', '''var emptyStack = make(Stack, 0, 16)

func NewStack() *Stack {
''')],
         demo=main('''
	c1, c2 := number.New(), number.New()
	e2, err := engine.New(c2, nil)
	must(err)
	number.Fntable["nested"] = func(x float64) float64 {
		must(e2.Eval("100+11*(12+13)"))
		c2.Ret()
		return x
	}
	e1, err := engine.New(c1, nil)
	must(err)
	must(e1.Eval("1+2*nested(3)"))
	v, _ := c1.Ret()
	want(v, 7.0)''')),
    dict(id='c27-script-stack', property='C27', needs='two script interpreters of which one is used while the other has operands on its stack',
         breaks='the operands of all script interpreters are in the same memory',
         edits=[('tpl/qlang/cl/qlang.go', '''	stk := make(Stack, 0, 16)
	return &stk
''', '''	stk := newStack
	return &stk
'''), ('tpl/qlang/cl/qlang.go', '''func NewStack() *Stack {
''', '''var newStack = make(Stack, 0, 16)

func NewStack() *Stack {
''')],
         demo=main(Q + '''	m, err := qlang.New(qlang.InsertSemis)
	must(err)
	l.SetVar("other", func(x int) int {
		must(m.SafeExec([]byte("y = [7, 6, 5, 4]"), ""))
		return x
	})
	must(l.SafeExec([]byte("a = [1, 2, other(3)]"), ""))
	a, _ := l.Var("a")
	want(fmt.Sprint(a), "[1 2 3]")''')),
    dict(id='c27-recover-shared', property='C27', needs='functions of two interpreters that end or fail at the same time',
         breaks='the failure that one interpreter recovers from is taken from another',
         edits=[('tpl/qlang/cl/function.go', '''			if e := recover(); e != ErrReturn { // 正常 return 导致，见 (*Interpreter).Return 函数
				calc.Recov = e
			}
			calc.ExecDefers(p.engine)
''', '''			if e := recover(); e != ErrReturn { // 正常 return 导致，见 (*Interpreter).Return 函数
				failed = e
			}
			if failed != nil {
				calc.Recov, failed = failed, nil
			}
			calc.ExecDefers(p.engine)
'''), ('tpl/qlang/cl/function.go', '''type Function struct {
''', '''var failed interface{} // what has stopped the last function

type Function struct {
'''), ('tpl/qlang/cl/function.go', '''	if p.parent != nil {
		panic(ErrReturn) // 利用 panic 来实现 return (正常退出)
	}
''', '''	if p.parent != nil {
		failed = nil
		panic(ErrReturn) // 利用 panic 来实现 return (正常退出)
	}
''')],
         race=True,
         demo=main('''
	together(8, func(i int) {
		l, err := qlang.New(qlang.InsertSemis)
		must(err)
		for k := 0; k < 300; k++ {
			if i%2 == 0 {
				must(l.SafeExec([]byte("f = fn() { defer fn() { recover() }(); panic(\\"no\\") }; f()"), ""))
			} else {
				must(l.SafeExec([]byte("f = fn(x) { x + 1 }; f(1); f(2); f(3)"), ""))
			}
		}
	})''')),
    dict(id='c27-signature-cache', property='C27', needs='two calculators or interpreters at work at the same time on goroutines of their own',
         breaks='a table of function signatures is filled by all of them without a lock',
         edits=[('tpl/interpreter.util/call.go', '''	tfn := reflect.TypeOf(fn)
	n := tfn.NumIn()

	isVariadic := tfn.IsVariadic() // 可变参数函数
	if isVariadic {
		if arity < n-1 {
			return ErrArgumentsNotEnough
		}
	} else if arity != n {
		return fmt.Errorf("invalid argument count: require %d, but we got %d", n, arity)
	}

	return DoCall''', '''	tfn := reflect.TypeOf(fn)
	n, ok := arities[tfn]
	if !ok {
		n = tfn.NumIn()
		arities[tfn] = n
	}

	isVariadic := tfn.IsVariadic() // 可变参数函数
	if isVariadic {
		if arity < n-1 {
			return ErrArgumentsNotEnough
		}
	} else if arity != n {
		return fmt.Errorf("invalid argument count: require %d, but we got %d", n, arity)
	}

	return DoCall'''), ('tpl/interpreter.util/call.go', '''// Call calls a fn.
func Call(''', '''var arities = make(map[reflect.Type]int)

// Call calls a fn.
func Call(''')],
         race=True,
         demo=main('''
	together(8, func(i int) {
		c := number.New()
		e, err := engine.New(c, nil)
		must(err)
		must(e.Eval("abs(2)+max(1, 2)+pow(2, 3)+ldexp(1, 2)"))
		v, _ := c.Ret()
		want(v, 16.0)
	})''')),
    dict(id='c27-file-names', property='C27', needs='texts with //line comments read by two engines at the same time',
         breaks='a table of cleaned file names is filled by all of them without a lock',
         edits=[('tpl/scanner.go', '''					filename = filepath.Clean(filename)
''', '''					clean, ok := cleaned[filename]
					if !ok {
						clean = filepath.Clean(filename)
						cleaned[filename] = clean
					}
					filename = clean
'''), ('tpl/scanner.go', '''var prefix = []byte("//line ")
''', '''var prefix = []byte("//line ")

var cleaned = make(map[string]string) // file names of line comments
''')],
         race=True,
         demo=main('''
	together(8, func(i int) {
		e, err := extractor.New(`doc = *(IDENT/words_Texts)`, nil)
		must(err)
		for k := 0; k < 50; k++ {
			_, err = e.Extract(fmt.Sprintf("//line f%d.x:%d\\na\\n//line g/%d:3\\nb", k, k+1, i))
			must(err)
		}
	})''')),
    dict(id='c27-method-arguments', property='C27', needs='two interpreters that call methods of objects at the same time',
         breaks='the arguments of a method call are gathered in memory that all interpreters share',
         edits=[('tpl/qlang/cl/class.go', '''	args := make([]interface{}, len(a)+1)
	args[0] = p.this
	for i, v := range a {
		args[i+1] = v
	}
	return p.fn.Call(args...)
''', '''	args := append(methodArgs[:0], p.this)
	return p.fn.Call(append(args, a...)...)
'''), ('tpl/qlang/cl/class.go', '''type thisDeref struct {
''', '''var methodArgs = make([]interface{}, 0, 16)

type thisDeref struct {
''')],
         race=True,
         demo=main('''
	together(8, func(i int) {
		l, err := qlang.New(qlang.InsertSemis)
		must(err)
		for k := 0; k < 100; k++ {
			must(l.SafeExec([]byte(fmt.Sprintf("A = class { fn get(x) { return x } }; a = new A; v = a.get(%d)", i)), ""))
			v, _ := l.Var("v")
			want(v, i)
		}
	})''')),
    dict(id='c27-scripted-scanner', property='C27', needs='two interpreters made by scripts, one of them used in a function of the other which then asks for the source text or a line',
         breaks='interpreters made by scripts share a scanner, with the keywords of all of them',
         edits=[('tpl/qlang/cl/interpreter/interpret.go', '''	if options == nil {
		options = &optionsDef
	}

	ip, ok := ip1''', '''	if options == nil {
		options = &optionsDef
	}
	if options.Scanner == nil {
		options.Scanner = new(tpl.AutoKwScanner)
	}

	ip, ok := ip1''')],
         demo=main('''
	l, err := qlang.New(qlang.InsertSemis)
	must(err)
	must(l.SafeExec([]byte(`
Stack = class { fn push(x) {}; fn popArgs(n) { return slice("var") } }
A = class {
	fn grammar() { return "doc = \\"let\\" IDENT" }
	fn stack() { return new Stack }
	fn fntable() { return {"x": 1, "y": "z"} }
}
B = class {
	fn grammar() { return "doc = IDENT" }
	fn stack() { return new Stack }
	fn fntable() { return {"x": 1, "y": "z"} }
}
a = new A
b = new B
`), ""))
	a, _ := l.Var("a")
	b, _ := l.Var("b")
	_, err = scripted.New(a, nil)
	must(err)
	e, err := scripted.New(b, nil)
	must(err)
	must(e.Eval("let"))''').replace('"github.com/qiniu/text/tpl/qlang"\n', '"github.com/qiniu/text/tpl/qlang"\n	scripted "github.com/qiniu/text/tpl/qlang/cl/interpreter"\n')),
]
