HEAD = '''package main

import (
	"errors"
	"fmt"
	"os"
	"reflect"

	"github.com/qiniu/text/tpl"
	engine "github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/interpreter.util"
)

var _ = errors.New
var _ = tpl.Source

type stk struct{ v []interface{} }

func (p *stk) PopArgs(n int) (args []reflect.Value, ok bool) {
	m := len(p.v) - n
	if m < 0 {
		return nil, false
	}
	for _, v := range p.v[m:] {
		args = append(args, reflect.ValueOf(v))
	}
	p.v = p.v[:m]
	return args, true
}

func (p *stk) PushRet(ret []reflect.Value) error {
	for _, v := range ret {
		p.v = append(p.v, v.Interface())
	}
	return nil
}

type ipt struct {
	g string
	t map[string]interface{}
	s *stk
}

func (p *ipt) Grammar() string                 { return p.g }
func (p *ipt) Stack() interpreter.Stack        { return p.s }
func (p *ipt) Fntable() map[string]interface{} { return p.t }

var S = &stk{}
var got string
var code interface{}

func note(a ...interface{}) { got += fmt.Sprint(a...) + ";" }

func bad(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func make_(g string, t map[string]interface{}) (e *engine.Engine, err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("%v", v)
		}
	}()
	return engine.New(&ipt{g, t, S}, nil)
}

func must(g string, t map[string]interface{}) *engine.Engine {
	e, err := make_(g, t)
	if err != nil {
		bad("%v", err)
	}
	return e
}

func eval(e *engine.Engine, src string) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err, _ = v.(error)
			if err == nil {
				err = fmt.Errorf("panic %v", v)
			}
		}
	}()
	return e.Eval(src)
}

func want(s string) {
	if got != s {
		bad("got %q, want %q", got, s)
	}
	got = ""
}

type T = map[string]interface{}

'''
I, U, C = 'tpl/interpreter/interpreter.go', 'tpl/interpreter.util/call.go', 'tpl/compiler.go'
SEEDS = [
 dict(id='c13-upper-hex', property='C13', needs='an integer literal spelled 0X.. bound to an int parameter',
  breaks='upper-case hexadecimal literals are read as octal ones',
  edits=[(I, "		case 'x', 'X':\n			return strconv.ParseInt(lit[2:], 16, 64)\n", "		case 'x':\n			return strconv.ParseInt(lit[2:], 16, 64)\n")],
  demo=HEAD + '''
func main() {
	e := must("doc = INT/m", T{"$m": func(s *stk, v int) { note(v) }})
	if err := eval(e, "0X1f"); err != nil {
		bad("%v", err)
	}
	want("31;")
}
'''),
 dict(id='c13-float-hex', property='C13', needs='an integer literal spelled 0X.. bound to a float parameter',
  breaks='upper-case hexadecimal literals cannot be converted to floats',
  edits=[(I, "		case 'x', 'X':\n			v1, err1", "		case 'x':\n			v1, err1")],
  demo=HEAD + '''
func main() {
	e := must("doc = INT/m", T{"$m": func(s *stk, v float64) { note(v) }})
	if err := eval(e, "0X1f"); err != nil {
		bad("%v", err)
	}
	want("31;")
}
'''),
 dict(id='c13-len-z', property='C13', needs='a mark that starts with Z, on a rule bound to a function taking the repetition count',
  breaks='such marks get the literal instead of the count',
  edits=[(I, "mark[idxLen] <= 'Z')", "mark[idxLen] < 'Z')")],
  demo=HEAD + '''
func main() {
	e := must("doc = *INT/Zs", T{"$Zs": func(s *stk, v int) { note(v) }})
	if err := eval(e, "7 8 9"); err != nil {
		bad("%v", err)
	}
	want("3;")
}
'''),
 dict(id='c13-int64-operand', property='C13', needs='a function without receiver with a float64 parameter and an int64 operand on the stack',
  breaks='only int operands are promoted to float',
  edits=[(U, 'case kind >= reflect.Int && kind <= reflect.Int64:', 'case kind >= reflect.Int && kind < reflect.Int64:')],
  demo=HEAD + '''
func main() {
	e := must("doc = INT/m '+'/f", T{"$m": func(s *stk, v int64) { s.v = append(s.v, v) }, "$f": func(v float64) { note(v) }})
	if err := eval(e, "7 +"); err != nil {
		bad("%v", err)
	}
	want("7;")
}
'''),
 dict(id='c13-result-type', property='C13', needs='a receiver function with one result that is not an error',
  breaks='a function returning something else than an error is accepted',
  edits=[(I, 'if tfn.Out(0) != typeError {', 'if tfn.Out(0) != typeError && tfn.Out(0).Kind() != reflect.Interface {')],
  demo=HEAD + '''
func main() {
	if _, err := make_("doc = INT/m", T{"$m": func(s *stk) interface{} { return nil }}); err == nil {
		bad("accepted")
	}
}
'''),
 dict(id='c13-context-end', property='C13', needs='a context parameter on a match of several tokens whose last one is longer than one byte',
  breaks='the context ends at the beginning of the last token',
  edits=[(I, 'ctx.End = tokens[len(tokens)-1].End()', 'ctx.End = tokens[len(tokens)-1].Pos + 1')],
  demo=HEAD + '''
func main() {
	e := must("doc = (INT INT)/m", T{"$m": func(s *stk, c *interpreter.Context) { note(int(c.End - c.Pos)) }})
	if err := eval(e, "7 123"); err != nil {
		bad("%v", err)
	}
	want("5;")
}
'''),
 dict(id='c14-operand-calls', property='C14', needs='a function without receiver with three operands bound to a muted mark',
  breaks='functions that take three operands from the stack run although they are muted',
  edits=[(I, '			if p.mute > 0 { // ', '			if p.mute > 0 && (kindRecvr > 0 || n < 3) { // ')],
  demo=HEAD + '''
func main() {
	S.v = []interface{}{1, 2, 3}
	e := must("doc = 1/_mute INT/m 1/_unmute INT/m", T{"$m": func(a, b, v int) { note(v) }})
	if err := eval(e, "1 2"); err != nil {
		bad("%v", err)
	}
	want("3;")
}
'''),
 dict(id='c14-left-muted', property='C14', needs='a match that fails inside a mute, then another evaluation on the same engine',
  breaks='only negative mute depths are reset before a match',
  edits=[(I, '		p.mute = 0 // bugfix', '		if p.mute > 1 {\n			p.mute = 1\n		}\n		if p.mute == 1 && p.Interpreter != ipt {\n			p.mute = 0\n		}\n		// bugfix')],
  demo=HEAD + '''
func main() {
	e := must("doc = 1/_mute INT 1/_unmute INT/m", T{"$m": func(s *stk, v int) { note(v) }})
	eval(e, "1")
	e = must("doc = INT 1/_mute INT 1/_unmute | FLOAT/m", T{"$m": func(s *stk, v float64) { note(v) }})
	eval(e, "1 x")
	e = must("doc = '+' ! 1/_mute INT 1/_unmute | FLOAT/m", T{"$m": func(s *stk, v float64) { note(v) }})
	eval(e, "+ x")
	if err := eval(e, "2.5"); err != nil {
		bad("%v", err)
	}
	want("2.5;")
}
'''),
 dict(id='c15-interpreter-after-cut', property='C15', needs='captured code ended by a failed cut, recovered by the function that asked for it',
  breaks='the interpreter is not restored when the code is cut',
  edits=[(I, '		p.Interpreter = old\n		p.mute = mute\n', '''		p.mute = mute
		if e := recover(); e != nil {
			if _, ok := e.(*tpl.MatchError); !ok {
				p.Interpreter = old
			}
			panic(e)
		}
		p.Interpreter = old
''')],
  demo=HEAD + '''
func main() {
	other := &ipt{}
	var e *engine.Engine
	e = must("doc = (IDENT INT)/cap 1/run INT; item = IDENT ! IDENT", T{
		"$cap": func(s *stk, src interface{}) { code = src },
		"$run": func(s *stk) {
			defer func() { recover() }()
			e.EvalCode(other, "item", code)
		}})
	own := e.Interpreter
	if err := eval(e, "a 1 2"); err != nil {
		bad("%v", err)
	}
	if e.Interpreter != own {
		bad("interpreter lost")
	}
}
'''),
 dict(id='c15-mute-after-code', property='C15', needs='code evaluated from an early mark inside a mute, followed by ordinary marks before the unmute',
  breaks='the mute depth is not restored after the evaluation of code',
  edits=[(I, '		p.mute = mute\n', '		if mute > 1 {\n			p.mute = mute\n		}\n')],
  demo=HEAD + '''
func main() {
	var e *engine.Engine
	e = must("doc = 1/_mute item/_cap 1/_run INT/m 1/_unmute INT/m; item = IDENT/m", T{
		"$m":    func(s *stk, v string) { note(v) },
		"$_cap": func(s *stk, src interface{}) { code = src },
		"$_run": func(s *stk) error { return e.EvalCode(e.Interpreter, "item", code) }})
	if err := eval(e, "a 1 2"); err != nil {
		bad("%v", err)
	}
	want("a;2;")
}
'''),
 dict(id='c15-place-of-end', property='C15', needs='an error in a marked rule that spans several lines',
  breaks='the error is reported at the last line of the rule',
  edits=[('tpl/grammar.go', 'return f.Name(), f.Line(doc[0].Pos)', 'return f.Name(), f.Line(doc[n-1].Pos)')],
  demo=HEAD + '''
func main() {
	e := must("doc = (INT INT)/m", T{"$m": func(s *stk) error { return errors.New("no") }})
	err := eval(e, "\\n1\\n2")
	if err == nil || err.Error() != "line 2: runtime error: no" {
		bad("%v", err)
	}
}
'''),
 dict(id='c15-rest-of-code', property='C15', needs='captured code whose first part matches the rule while the rest does not',
  breaks='evaluating captured code accepts a match of its beginning',
  edits=[(C, 'if len(doc) != matched {', 'if matched < len(doc) && matched == 0 {')],
  demo=HEAD + '''
func main() {
	var e *engine.Engine
	e = must("doc = (*INT)/cap 1/run; item = INT", T{
		"$cap": func(s *stk, src interface{}) { code = src },
		"$run": func(s *stk) error { return e.EvalCode(e.Interpreter, "item", code) }})
	if err := eval(e, "1"); err != nil {
		bad("%v", err)
	}
	if err := eval(e, "1 2"); err == nil {
		bad("accepted")
	}
}
'''),
 dict(id='c15-wrapped-twice', property='C15', needs='an error raised inside code evaluated by another marked function',
  breaks='the outer function wraps the runtime error again, hiding place and original error',
  edits=[(I, 'if err, ok := e.(*RuntimeError); ok {', 'if err, ok := e.(*RuntimeError); ok && len(err.Src) <= len(tokens) {')],
  demo=HEAD + '''
func main() {
	var e *engine.Engine
	e = must("doc = item/cap 1/run; item = (IDENT IDENT)/f", T{
		"$f":   func(s *stk) error { if code != nil { return errors.New("no") }; return nil },
		"$cap": func(s *stk, src interface{}) { code = src },
		"$run": func(s *stk) error { return e.EvalCode(e.Interpreter, "item", code) }})
	err := eval(e, "a\\nb")
	if err == nil || err.Error() != "line 1: runtime error: no" {
		bad("%v", err)
	}
}
'''),
]
