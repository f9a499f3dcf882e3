I = 'tpl/qlang/cl/interpreter/interpret.go'
HEAD = '''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/qlang"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	engine "github.com/qiniu/text/tpl/qlang/cl/interpreter"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

var _ = tpl.InsertSemis
var log string
var lang qlang.Qlang
var code interface{}

func bad(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func want(s string) {
	if log != s {
		bad("the functions saw %q, not %q", log, s)
	}
	log = ""
}

const stack = `
Stack = class {
	fn _init() { set(this, "v", slice("var")) }
	fn push(x) { set(this, "v", append(this.v, x)) }
	fn popArgs(n) {
		m = len(this.v) - n
		args = this.v[m:]
		set(this, "v", this.v[:m])
		return args
	}
STACKFNS}
FUNCS
Calc = class {
	fn grammar() { return hgrammar }
	fn stack() { return stk }
	fn fntable() { return {TABLE} }
CALCFNS}
stk = new Stack
ip = new Calc
ip2 = new Calc
`

// script is a class Calc with a grammar, a table, methods of the stack and of Calc, and functions
func script(grammar, table, stackfns, calcfns, funcs string, opt *engine.Options) (*engine.Engine, error) {
	time.AfterFunc(20*time.Second, func() { bad("stuck") })
	var err error
	if lang, err = qlang.New(qlang.InsertSemis); err != nil {
		bad("%v", err)
	}
	lang.SetVar("hgrammar", grammar)
	lang.SetVar("note", func(v ...interface{}) {
		for _, x := range v {
			switch t := x.(type) {
			case []tpl.Token:
				log += fmt.Sprintf("<%d>", len(t))
			case *engine.Engine:
				log += "E"
			case *qcl.Object:
				log += "O"
				if ip2, _ := lang.Var("ip2"); ip2 == x {
					log += "2"
				}
			default:
				log += fmt.Sprintf("%T:%v", x, x)
			}
			log += ";"
		}
	})
	lang.SetVar("twice", func(s string) string { return s + s })
	lang.SetVar("keep", func(v interface{}) { code = v })
	lang.SetVar("code", func() interface{} { return code })
	lang.SetVar("typed", func(v []interface{}) []int {
		r := []int{}
		for _, x := range v {
			r = append(r, x.(int))
		}
		return r
	})
	s := stack
	for _, r := range [][2]string{{"TABLE", table}, {"STACKFNS", stackfns}, {"CALCFNS", calcfns}, {"FUNCS", funcs}} {
		for i := 0; i+len(r[0]) <= len(s); i++ {
			if s[i:i+len(r[0])] == r[0] {
				s = s[:i] + r[1] + s[i+len(r[0]):]
				break
			}
		}
	}
	if err := lang.SafeExec([]byte(s), ""); err != nil {
		bad("%v in %s", err, s)
	}
	ip, _ := lang.Var("ip")
	return engine.New(ip, opt)
}

func must(grammar, table, stackfns, calcfns, funcs string) *engine.Engine {
	e, err := script(grammar, table, stackfns, calcfns, funcs, nil)
	if err != nil {
		bad("%v", err)
	}
	return e
}

func ok(e *engine.Engine, src string) {
	if err := e.Eval(src); err != nil {
		bad("%q: %v", src, err)
	}
}

func fails(e *engine.Engine, src string) {
	if err := e.Eval(src); err == nil {
		bad("%q is accepted", src)
	}
}
'''
SEEDS = [
 dict(id='c28-first-word', property='C28', needs='a mark with two words, the last Int',
  breaks='the argument is chosen by all words of the mark behind its first upper-case letter: a string instead of a number',
  edits=[(I, 'strings.LastIndexFunc(s, func', 'strings.IndexFunc(s, func')],
  demo=HEAD + '''
func main() {
	e := must("doc = INT/aInt INT/addOneInt", "\\"$aInt\\": Stack.f, \\"$addOneInt\\": Stack.f", "	fn f(v) { note(v) }\\n", "", "")
	ok(e, "1 2")
	want("int:1;int:2;")
}
'''),
 dict(id='c28-early-in-two', property='C28', needs='a mark beginning with _ on a method while muted twice',
  breaks='such marks run however deep the muting is',
  edits=[(I, '''				if mark[0] != '_' || p.mute > 1 {
					return
				}
			}
			if kindRecvr > 0 {''', '''				if mark[0] != '_' {
					return
				}
			}
			if kindRecvr > 0 {''')],
  demo=HEAD + '''
func main() {
	e := must("doc = *('('/_mute | ')'/_unmute | INT/_a)", "\\"$_a\\": Stack.f", "	fn f(v) { note(v) }\\n", "", "")
	ok(e, "1 (2 (3) 4)")
	want("string:1;string:2;string:4;")
}
'''),
 dict(id='c28-host-muted', property='C28', needs='a mark beginning with _ bound to a function of the host, met while muted once',
  breaks='functions of the host never run while muted',
  edits=[(I, '''					if mark[0] != '_' || p.mute > 1 {
						return
					}
				}
				callFn(stk, fn, n)''', '''					return
				}
				callFn(stk, fn, n)''')],
  demo=HEAD + '''
func main() {
	e := must("doc = INT/x 1/_mute INT/_neg", "\\"$x\\": Stack.f, \\"$_neg\\": twice", "	fn f(v) { this.push(v) }\\n", "", "")
	ok(e, "4 5")
	stk, _ := lang.Var("stk")
	o := stk.(*qcl.Object)
	v := o.Cls.Fns["popArgs"].Call(o, 1)
	if s := fmt.Sprintf("%#v", v); s != `[]interface {}{"44"}` {
		bad("%s", s)
	}
}
'''),
 dict(id='c28-mute-stays', property='C28', needs='an evaluation that fails while muted, then another on the same engine',
  breaks='muting survives a failed evaluation',
  edits=[(I, '''		p.mute = 0 // bugfix''', '''		if p.mute < 0 {
			p.mute = 0
		} // bugfix''')],
  demo=HEAD + '''
func main() {
	e := must("doc = *('('/_mute | ')'/_unmute | INT/a)", "\\"$a\\": Stack.f", "	fn f(v) { note(v) }\\n", "", "")
	ok(e, "1 (2) 3")
	want("string:1;string:3;")
	fails(e, "( 2 =")
	ok(e, "5")
	want("string:5;")
}
'''),
 dict(id='c28-owner', property='C28', needs='captured code evaluated by another interpreter object, with a method of its class in it',
  breaks='methods run on the object the engine was made with',
  edits=[(I, 'args[0] = p.Interpreter', 'args[0] = ip')],
  demo=HEAD + '''
func main() {
	e := must("doc = (1/_mute item 1/_unmute)/_keepSrc 1/runEngine; item = INT/a", "\\"$a\\": Calc.f, \\"$_keepSrc\\": Stack.k, \\"$runEngine\\": Stack.r",
		"	fn k(v) { keep(v) }\\n	fn r(e) { e.evalCode(ip2, \\"item\\", code()) }\\n", "	fn f(v) { note(this, v) }\\n", "")
	ok(e, "7")
	want("O2;string:7;")
}
'''),
 dict(id='c28-no-restore', property='C28', needs='captured code whose evaluation raises an error in another object\'s name, then a mark bound to a method of the interpreter',
  breaks='an error in captured code leaves the engine with the other object',
  edits=[(I, '''	defer func() { // 正常的 return 使用了 panic，所以需要保护
		p.Interpreter = old
		p.mute = mute
	}()
	return p.EvalSub(name, src)''', '''	err := p.EvalSub(name, src)
	p.Interpreter = old
	p.mute = mute
	return err''')],
  demo=HEAD + '''
func main() {
	e := must("doc = STRING/b | (1/_mute item 1/_unmute)/_keepSrc 1/runEngine; item = INT/a", "\\"$a\\": Calc.f, \\"$b\\": Calc.g, \\"$_keepSrc\\": Stack.k, \\"$runEngine\\": Stack.r",
		"	fn k(v) { keep(v) }\\n	fn r(e) { e.evalCode(ip2, \\"item\\", code()) }\\n", "	fn f(v) { panic(\\"no\\") }\\n	fn g() { note(this) }\\n", "")
	fails(e, "7")
	ok(e, "\\"x\\"")
	want("O;")
}
'''),
 dict(id='c28-unmutes', property='C28', needs='captured code with a mute mark of its own',
  breaks='muting in captured code leaks into the evaluation around it',
  edits=[(I, '		p.Interpreter = old\n		p.mute = mute\n', '		p.Interpreter = old\n		if mute > 0 {\n			p.mute = mute\n		}\n')],
  demo=HEAD + '''
func main() {
	e := must("doc = STRING/_keepSrc STRING/runEngine INT/a; item = STRING/_mute", "\\"$a\\": Stack.f, \\"$_keepSrc\\": Stack.k, \\"$runEngine\\": Stack.r",
		"	fn f(v) { note(v) }\\n	fn k(v) { keep(v) }\\n	fn r(e) { e.evalCode(ip2, \\"item\\", code()) }\\n", "", "")
	ok(e, "\\"a\\" \\"b\\" 8")
	want("string:8;")
}
'''),
 dict(id='c28-late-upper', property='C28', needs='a mark that begins with an underscore followed by an upper-case letter',
  breaks='the first letter decides alone: such marks get a literal instead of the length',
  edits=[(I, '''		if mark[0] == '_' {
			idxLen++
		}
''', '''		if mark[0] == '_' && len(mark) > 2 {
			idxLen++
		}
''')],
  demo=HEAD + '''
func main() {
	e := must("doc = *INT/_Num IDENT *INT/_N", "\\"$_Num\\": Stack.f, \\"$_N\\": Stack.f", "	fn f(v) { note(v) }\\n", "", "")
	ok(e, "1 2 a 3 4")
	want("int:2;int:2;")
}
'''),
 dict(id='c28-empty-src', property='C28', needs='a Src mark on a rule that matches no tokens',
  breaks='the function gets an empty slice instead of nil',
  edits=[(I, 'if len(tokens) != 0 {', 'if tokens != nil {')],
  demo=HEAD + '''
func main() {
	e := must("doc = INT ?STRING/oSrc", "\\"$oSrc\\": Stack.f", "	fn f(v) { note(v == nil) }\\n", "", "")
	ok(e, "1")
	ok(e, "1 \\"s\\"")
	e = must("doc = INT (?STRING)/oSrc", "\\"$oSrc\\": Stack.f", "	fn f(v) { note(v == nil) }\\n", "", "")
	log = ""
	ok(e, "1")
	ok(e, "1 \\"s\\"")
	want("bool:true;bool:false;")
}
'''),
 dict(id='c28-typed-operands', property='C28', needs='a scripted stack that returns operands as a typed slice, and a function of two operands',
  breaks='the operands come in reverse',
  edits=[(I, 'in[i] = ret.Index(i).Interface()', 'in[i] = ret.Index(n - 1 - i).Interface()')],
  demo=HEAD + '''
func main() {
	e := must("doc = INT/xInt INT/xInt INT/two", "\\"$xInt\\": Stack.f, \\"$two\\": two", "	fn f(v) { set(this, \\"v\\", append(this.v, v)) }\\n	fn popArgs(n) { r = typed(this.v); set(this, \\"v\\", slice(\\"var\\")); return r }\\n", "",
		"two = fn(a, b) { note(a, b) }\\n")
	ok(e, "4 5 6")
	want("int:4;int:5;")
}
'''),
 dict(id='c28-wide-method', property='C28', needs='a method of the interpreter\'s class with three parameters in the table',
  breaks='such a table is accepted, the method gets nil',
  edits=[(I, 'if kindRecvr > 0 && n > 2 {', 'if kindRecvr == 1 && n > 2 {')],
  demo=HEAD + '''
func main() {
	for _, t := range []string{"Stack.f", "Calc.f"} {
		if _, err := script("doc = INT/a", "\\"$a\\": "+t, "	fn f(u, v) { note(v) }\\n", "	fn f(u, v) { note(v) }\\n", "", nil); err == nil {
			bad("%s is accepted", t)
		}
	}
}
'''),
 dict(id='c28-literal-last', property='C28', needs='a mark for a literal on a rule of several tokens',
  breaks='the literal is that of the last token instead of the first',
  edits=[(I, 'args[1] = tokens[0].Literal', 'args[1] = tokens[len(tokens)-1].Literal')],
  demo=HEAD + '''
func main() {
	e := must("doc = (FLOAT *INT)/a", "\\"$a\\": Stack.f", "	fn f(v) { note(v) }\\n", "", "")
	ok(e, "1.5")
	ok(e, "1.5 3")
	want("string:1.5;string:1.5;")
}
'''),
 dict(id='c28-below-zero', property='C28', needs='an unmute mark without a mute before it',
  breaks='unmuting stops at zero, so that a following mute silences',
  edits=[(I, '					p.mute--\n', '					if p.mute > 0 {\n						p.mute--\n					}\n')],
  demo=HEAD + '''
func main() {
	e := must("doc = *('('/_mute | ')'/_unmute | INT/a)", "\\"$a\\": Stack.f", "	fn f(v) { note(v) }\\n", "", "")
	ok(e, "1 (2) 3")
	ok(e, "1 ) 2 ( 3")
	want("string:1;string:3;string:1;string:2;string:3;")
}
'''),
]
