def demo(steps, each='', imports=''):
    """steps: histories on an engine each: [(code, printed result or "fail", printed marks)]"""
    return '''package main

import (
	"fmt"
	"os"%s

	qlang "github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

func main() {
	var log []interface{}
	qlang.Import("", map[string]interface{}{"h": func(a ...interface{}) interface{} {
		log = append(log, a...)
		if len(a) == 0 {
			return nil
		}
		return a[len(a)-1]
	}})
	for _, hist := range [][][3]string{%s} {
		l, err := qlang.New(nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, s := range hist {
			log = nil
			got := "fail"
			if err := l.SafeEval(s[0]); err == nil {
				v, ok := l.Ret()
				got = fmt.Sprint(v)
				if !ok {
					got = "nothing"
				}
			}%s
			if marks := fmt.Sprint(log); got != s[1] || marks != s[2] {
				fmt.Printf("%%s gives %%s and %%s, not %%s and %%s\\n", s[0], got, marks, s[1], s[2])
				os.Exit(1)
			}
		}
	}
}
''' % (imports, ', '.join('{%s}' % ', '.join('{`%s`, `%s`, `%s`}' % t for t in h) for h in steps), each)


CT, FN, QL, CL, EN = ['tpl/qlang/' + f for f in ('cl/ctrl.go', 'cl/function.go', 'cl/qlang.go', 'cl/class.go', 'engine.go')]
BI, NU, BO = ['tpl/qlang/lib/builtin/' + f for f in ('builtin.go', 'number.go', 'boolean.go')]
SEEDS = [
    # --- C19
    dict(id='c19-or-and', property='C19', needs='&& to the right of ||, with the left side of || false',
         breaks='the right side of || ends at &&', edits=[(CT, 'evalCode(e, p, "term4", bCode)', 'evalCode(e, p, "term3", bCode)')],
         demo=demo([[('true || false', 'true', '[]'), ('false || true', 'true', '[]'), ('false || true && false', 'false', '[]')]])),
    dict(id='c19-le-truncates', property='C19', needs='an integer compared by <= with a negative float that has a fraction',
         breaks='the float is truncated before it is compared', edits=[(BO, 'return float64(a1) <= b1', 'return a1 <= int(b1)')],
         demo=demo([[('2 <= 2.5', 'true', '[]'), ('-2 <= -2.5', 'false', '[]')]])),
    dict(id='c19-or-truth', property='C19', needs='a left operand of || that is no boolean', breaks='|| takes nil for false instead of failing',
         edits=[(CT, 'a1, ok := a.(bool)\n\tif !ok {\n\t\tpanic("left operand of || operator', 'a1, ok := a.(bool)\n\tif !ok && a != nil {\n\t\tpanic("left operand of || operator')],
         demo=demo([[('true || false', 'true', '[]'), ('1 || true', 'fail', '[]'), ('nil || true', 'fail', '[]')]])),
    dict(id='c19-ge-not-lt', property='C19', needs='a comparison with a number that is no number',
         breaks='a >= b is decided as not a < b', edits=[(BO, '''		case float64:
			return float64(a1) >= b1
		}
	case float64:
		switch b1 := b.(type) {
		case int:
			return a1 >= float64(b1)
		case float64:
			return a1 >= b1''', '''		case float64:
			return float64(a1) >= b1
		}
	case float64:
		switch b1 := b.(type) {
		case int:
			return a1 >= float64(b1)
		case float64:
			return !(a1 < b1)''')],
         demo=demo([[('1.5 >= 1.5', 'true', '[]'), ('1.5 >= 2.5', 'false', '[]'), ('(0.0/0.0) >= 1.5', 'false', '[]')]])),
    # --- C20
    dict(id='c20-empty-case', property='C20', needs='a chosen case without code, and a later case that is equal as well, or a default',
         breaks='the next case is tried', edits=[(CT, '''		if cond, ok := vCond.(bool); ok && cond {
			bodyCode := casebr[(i<<1)+1]
			if bodyCode == nil {''', '''		if cond, ok := vCond.(bool); ok && cond {
			bodyCode := casebr[(i<<1)+1]
			if bodyCode == nil && defaultArity == 1 {
				continue
			}
			if bodyCode == nil {''')],
         demo=demo([[('switch 1 { case 1: 5 default: 6 }', '5', '[]'), ('switch 2 { case 1: 5 default: 6 }', '6', '[]'), ('switch 1 { case 1: default: h(6) }', '<nil>', '[]')]])),
    dict(id='c20-step-left', property='C20', needs='a loop with a step that runs, as an operand or argument',
         breaks='the values of the steps are left on the stack', edits=[(CT, '''			evalCode(e, p, "s", stepCode)
			stk.Pop()''', '''			evalCode(e, p, "s", stepCode)''')],
         demo=demo([[('for i = 0; i < 2; i++ { h(i) }', '<nil>', '[0 1]'), ('h(7, for i = 0; i < 2; i++ {})', '<nil>', '[7 <nil>]')]])),
    dict(id='c20-elif-truth', property='C20', needs='a condition of elif that is no boolean', breaks='it counts as false instead of failing',
         edits=[(CT, '''		cond, ok := v.(bool)
		if !ok {''', '''		cond, ok := v.(bool)
		if !ok && i < 1 {''')],
         demo=demo([[('if 1 { 2 }', 'fail', '[]'), ('if false { 2 } elif true { 3 }', '3', '[]'), ('if false { 2 } elif 1 { 3 }', 'fail', '[]')]])),
    dict(id='c20-nil-subject', property='C20', needs='a switch on an expression whose value is nil', breaks='it is taken for a switch without subject',
         edits=[(CT, '''	if switchCode == nil {
		switchCond = true
	} else {
		evalCode(e, p, "expr", switchCode)
		switchCond, _ = stk.Pop()
	}''', '''	if switchCode != nil {
		evalCode(e, p, "expr", switchCode)
		switchCond, _ = stk.Pop()
	}
	if switchCond == nil {
		switchCond = true
	}''')],
         demo=demo([[('switch { case true: 1 }', '1', '[]'), ('switch false { case true: 1 case false: 2 }', '2', '[]'), ('switch nil { case true: 1 case nil: 2 }', '2', '[]')]])),
    # --- C21
    dict(id='c21-dunder', property='C21', needs='a name that starts with two underscores, used in a function within the one that owns it',
         breaks='such names are inherited', edits=[(FN, '''		if name[0] != '_' { // NOTE: '_' 开头的变量是私有的，不可继承
			for t := p.parent; t != nil; t = t.parent {
				t.forget(name)
				if val, ok''', '''		if name[0] != '_' || len(name) > 1 && name[1] == '_' { // NOTE: '_' 开头的变量是私有的，不可继承
			for t := p.parent; t != nil; t = t.parent {
				t.forget(name)
				if val, ok''')],
         demo=demo([[('_a = 1; fn() { _a }()', 'fail', '[]'), ('a = 1; fn() { return a }()', '1', '[]'), ('__a = 1; fn() { h(__a) }()', 'fail', '[]')]])),
    dict(id='c21-wrong-owner', property='C21', needs='a variable used in a function two levels below its owner, then changed there',
         breaks='the change goes to the function in between', edits=[(FN, 'e = externVar{t.vars}', 'e = externVar{p.parent.vars}\n\t\t\t\t\t\tp.parent.vars[name] = val')],
         demo=demo([[('x = 1; fn() { x; x = 2 }(); x', '2', '[]'), ('x = 1; fn() { fn() { x; x = 5 }() }(); x', '5', '[]')]])),
    dict(id='c21-multi-local', property='C21', needs='a multiple assignment to a variable of an enclosing function that has been used before',
         breaks='it is assigned in the inner function only', edits=[(FN, '''		vars := p.getVars(name)
		vars[name] = v.Index(i).Interface()''', '''		p.getVars(name)
		p.vars[name] = v.Index(i).Interface()''')],
         demo=demo([[('a, b = [1, 2]; a', '1', '[]'), ('x = 1; y = 1; fn() { x; x, z = [5, 6] }(); x', '5', '[]')]])),
    dict(id='c21-near-only', property='C21', needs='an assignment to an unused variable that is owned two levels above',
         breaks='a local variable is created instead of failing', edits=[(FN, '''		for t := p.parent; t != nil; t = t.parent {
			t.forget(name)
			if _, ok''', '''		if t := p.parent; t != nil {
			t.forget(name)
			if _, ok''')],
         demo=demo([[('x = 1; fn() { x = 2 }()', 'fail', '[]'), ('x = 1; fn() { fn() { x = 2 }() }()', 'fail', '[]')]])),
    dict(id='c22-rest-shared', property='C22', needs='a function with ... parameters that changes what it collected, called with a spread slice',
         breaks='the function shares the elements with the caller', edits=[(QL, '''	stk := p.stk
	variadic := stk.popArity()
	arity := stk.popArity()
	if variadic != 0 {
		if arity == 0 {''', '''	stk := p.stk
	variadic := stk.popArity()
	arity := stk.popArity()
	if n := len(*stk); variadic != 0 && arity == 1 {
		if fn, ok := (*stk)[n-2].(*Function); ok && fn.Variadic && len(fn.Args) == 1 {
			if args, ok := (*stk)[n-1].([]interface{}); ok {
				stk.SetFrame(n - 2)
				stk.Push(fn.Call(args...))
				return nil
			}
		}
	}
	if variadic != 0 {
		if arity == 0 {''')],
         demo=demo([[('f = fn(a...) { set(a, 0, 9) }; s = [1, "x"]; f(s...); s', '[1 x]', '[]')]])),
    # --- C22
    dict(id='c22-return-nothing', property='C22', needs='return without value in deferred code of a function that returned a value',
         breaks='the earlier value remains', edits=[(FN, '''	if arity == 0 {
		p.ret = nil
	} else {''', '''	if arity != 0 {''')],
         demo=demo([[('f = fn() { return 5 }; f()', '5', '[]'), ('f = fn() { return }; f()', '<nil>', '[]'), ('f = fn() { defer if true { return }; return 5 }; f()', '<nil>', '[]')]])),
    dict(id='c22-spread-nothing', property='C22', needs='a call that spreads an empty slice', breaks='nil is passed for it',
         edits=[(QL, '''			n := v.Len()
			for i''', '''			n := v.Len()
			if n == 0 {
				stk.Push(nil)
				n = 1
			}
			for i''')],
         demo=demo([[('h(1, [2, 3]...)', '3', '[1 2 3]'), ('h(1, []...)', '1', '[1]')]])),
    dict(id='c22-no-rest', property='C22', needs='a function with a ... parameter called without arguments for it',
         breaks='the parameter is not bound, and what it names is somebody else\'s', edits=[(FN, '		vars[p.Args[n-1]] = args[n-1:]', '''		if len(args) >= n {
			vars[p.Args[n-1]] = args[n-1:]
		}''')],
         demo=demo([[('f = fn(a, b...) { return len(b) }; f(1, 2, 3)', '2', '[]'), ('f = fn(a, b...) { return len(b) }; f(1)', '0', '[]')]])),
    dict(id='c22-defer-again', property='C22', needs='deferred code that defers more code of its function',
         breaks='code deferred while deferred code runs is forgotten', edits=[(FN, '	p.defers = &Defer{next: p.defers, src: src}\n', '''	p.defers = &Defer{next: p.defers, src: src}
	if p.running {
		p.defers = p.defers.next
	}
'''), (FN, '			calc.ExecDefers(p.engine)\n', '			calc.running = true\n			calc.ExecDefers(p.engine)\n'), (QL, '	defers *Defer\n', '	defers *Defer\n	running bool\n')],
         demo=demo([[('f = fn() { defer h(1); defer h(2) }; f()', '<nil>', '[2 1]'), ('f = fn() { defer if true { defer h(2); h(1) } }; f()', '<nil>', '[1 2]')]])),
    dict(id='c22-panic-in-class', property='C22', needs='a panic in a constructor that deferred code of its caller recovers',
         breaks='the argument stack keeps what the failed call left and results shift', edits=[(FN, '''			calc.ExecDefers(p.engine)
			stk.SetFrame(base)''', '''			calc.ExecDefers(p.engine)
			if calc.Recov != nil {
				stk.SetFrame(base)
			}''')],
         demo=demo([[('f = fn() { defer recover(); 1 }; f()', '<nil>', '[]'), ('f = fn() { defer fn() { recover() }(); h(1, [2, 3 + panic("x")]) }; h(5, f())', '<nil>', '[5 <nil>]')]])),
    # --- C23
    dict(id='c23-kept-value', property='C23', needs='undefined stored behind another element by the same set',
         breaks='the value of the element before is stored instead of removing the key', edits=[(BI, '''			case qlang.Undefined:
				val = zeroVal
			case nil:''', '''			case qlang.Undefined:
			case nil:''')],
         demo=demo([[('m = {"a": 1}; set(m, "a", undefined); len(m)', '0', '[]'), ('m = {"a": 1}; set(m, "b", 2, "a", undefined); m', 'map[b:2]', '[]')]])),
    dict(id='c23-int-key-undefined', property='C23', needs='a map literal with integer keys and mixed values, one of them undefined',
         breaks='undefined is stored', edits=[(BI, '''				if t := args[i+1]; t != qlang.Undefined {
					ret[asInt(args[i])] = t
				}''', '				ret[asInt(args[i])] = args[i+1]')],
         demo=demo([[('len({"a": 1, "b": undefined})', '1', '[]'), ('len({1: 1, 2: undefined})', '1', '[]')]])),
    dict(id='c23-to-capacity', property='C23', needs='a slice cut without end, with room behind its end', breaks='it is cut up to its capacity',
         edits=[(BI, '		j1 = va.Len()\n', '''		j1 = va.Len()
		if va.Kind() == reflect.Slice && i != nil {
			j1 = va.Cap()
		}
''')],
         demo=demo([[('s = [1, 2, 3]; s[1:]', '[2 3]', '[]'), ('s = slice("int", 1, 3); len(s[0:])', '1', '[]')]])),
    dict(id='c23-float-first', property='C23', needs='a slice literal of numbers whose last element is an integer behind a float',
         breaks='the kind of elements is that of the last', edits=[(NU, '''	kind := kindOf(args[0])
	for i := 1; i < len(args); i++ {
		if t := kindOf(args[i]); t != kind {
			if kind == reflect.Float64 || kind == reflect.Int {
				if t == reflect.Int {
					continue
				}''', '''	kind := kindOf(args[0])
	for i := 1; i < len(args); i++ {
		if t := kindOf(args[i]); t != kind {
			if kind == reflect.Float64 || kind == reflect.Int {
				if t == reflect.Int && i < 3 {
					continue
				}''')],
         demo=demo([[('[1, 2.5, 3]', '[1 2.5 3]', '[]'), ('max(1.5, 2, 1, 2.5)', '2.5', '[]'), ('max(1, 2.5, 1, 4)', '4', '[]')]])),
    dict(id='c23-float-apart', property='C23', needs='floats appended where there is room, and a change of what both slices hold',
         breaks='append of floats makes a copy in any case', edits=[(BI, """	for _, v := range vals {
		switch val := v.(type) {
		case float64:""", """	a = append([]float64(nil), a...)
	for _, v := range vals {
		switch val := v.(type) {
		case float64:""")],
         demo=demo([[('append([1.5], 2)', '[1.5 2]', '[]'), ('s = slice("float", 1, 4); t = append(s, 2.5); set(t, 0, 7.5); s', '[7.5]', '[]')]])),
    # --- C24
    dict(id='c24-init-shadowed', property='C24', needs='a variable of an object named _init', breaks='the constructor can be replaced',
         edits=[(CL, 'if _, ok := p.Cls.Fns[name]; ok {', 'if _, ok := p.Cls.Fns[name]; ok && name != "_init" {')],
         demo=demo([[('C = class { fn _init() { set(this, "x", 1) } fn m() { this.x } }; o = new C; set(o, "m", 1)', 'fail', '[]'), ('set(o, "_init", 1)', 'fail', '[]')]])),
    dict(id='c24-root-parent', property='C24', needs='a class declared in a function that uses variables of that function',
         breaks='methods see the outermost variables only', edits=[(CL, '			parent:   p,\n			Cls: ', '			parent:   root,\n			Cls: '),
                                                                  (CL, '	fns := make(map[string]*Function)\n', '	root := p\n	for root.parent != nil {\n		root = root.parent\n	}\n	fns := make(map[string]*Function)\n')],
         demo=demo([[('x = 1; C = class { fn m() { return x } }; (new C()).m()', '1', '[]'), ('f = fn(y) { return class { fn m() { return y } } }; D = f(2); (new D()).m()', '2', '[]')]])),
    dict(id='c24-equal-content', property='C24', needs='two objects of the same class with the same variables', breaks='they are one and the same',
         edits=[(BO, '	return a == b\n', '''	if ta := reflect.TypeOf(a); ta != nil && ta.Kind() == reflect.Ptr && ta.Elem().Kind() == reflect.Struct {
		return reflect.DeepEqual(a, b)
	}
	return a == b
'''), (BO, 'package builtin\n', 'package builtin\n\nimport "reflect"\n')],
         demo=demo([[('C = class { fn _init(x) { set(this, "x", x) } }; o = new C(1); p = new C(2); o == p', 'false', '[]'), ('p = o; o == p', 'true', '[]'), ('p = new C(1); o == p', 'false', '[]')]])),
    dict(id='c24-bound-late', property='C24', needs='two methods of one object bound before either is called',
         breaks='a method bound to an object becomes another one', edits=[(CL, '''				t := &thisDeref{
					this: o,
					fn:   fn,
				}
				val = t''', '''				if o.bound == nil {
					o.bound = &thisDeref{this: o}
				}
				o.bound.fn = fn
				val = o.bound'''), (CL, '	Cls  *Class\n}\n\nfunc (p *Object)', '	Cls  *Class\n	bound *thisDeref\n}\n\nfunc (p *Object)')],
         demo=demo([[('C = class { fn a() { return 1 } fn b() { return 2 } }; o = new C; o.a() + o.b()', '3', '[]'), ('f = o.a; g = o.b; f()', '1', '[]')]])),
    dict(id='c24-new-value', property='C24', needs='a constructor that returns something', breaks='new gives what the constructor returns',
         edits=[(CL, '				closure.Call(args...)\n', '''				if v, ok := closure.Call(args...).(*Object); ok {
					obj = v
				}
''')],
         demo=demo([[('C = class { fn _init(x) { set(this, "x", x); return x } }; (new C(1)).x', '1', '[]'), ('o = new C(1); p = new C(o); p == o', 'false', '[]')]])),
    # --- C25
    dict(id='c25-deferred-later', property='C25', needs='deferred code of an evaluation that panics with a value that is neither an error nor a string',
         breaks='the deferred code runs in the next evaluation', edits=[(EN, '''		p.Recov = recover()
		p.ExecDefers(p.Engine)
''', '''		p.Recov = recover()
		if _, ok := p.Recov.(int); ok {
			panic(p.Recov)
		}
		p.ExecDefers(p.Engine)
''')],
         demo=demo([[('defer h(1); 5', '5', '[1]'), ('defer h(2); panic("x")', 'fail', '[2]')]], ).replace('''			if err := l.SafeEval(s[0]); err == nil {''', '''			func() {
				defer func() { recover() }()
				l.SafeEval("defer h(3); panic(1)")
			}()
			log = nil
			if err := l.SafeEval(s[0]); err == nil {''')),
    dict(id='c25-half-result', property='C25', needs='an evaluation after one that failed within nested calls with values waiting, as part of an expression',
         breaks='Ret leaves the values of a failed evaluation for the host to read', edits=[(QL, '''	v, ok = p.stk.Pop()
	p.Clear()
''', '''	v, ok = p.stk.Pop()
''')],
         demo=demo([[('1', '1', '[]'), ('[1, 2, 3 + nil]', 'fail', '[]'), ('4', '4', '[]')]], '''
			if v, ok := l.Ret(); ok {
				got += fmt.Sprint(" and ", v)
			}''').replace('got := "fail"', 'got := "fail"; failed := true').replace('v, ok := l.Ret()\n				got', 'v, ok := l.Ret()\n				failed = false\n				got').replace('if v, ok := l.Ret(); ok {', 'if failed {\n			} else if v, ok := l.Ret(); ok {')),
    dict(id='c25-shared-vars', property='C25', needs='two engines', breaks='variables of one engine are visible in another',
         edits=[(QL, '''	stk := NewStack()
	vars := make(map[string]interface{})
	return''', '''	stk := NewStack()
	vars := globals
	return'''), (QL, 'func New() *Interpreter {', 'var globals = make(map[string]interface{})\n\nfunc New() *Interpreter {')],
         demo=demo([[('x = 1', '1', '[]')], [('x', 'fail', '[]')]])),
    dict(id='c25-panic-kept', property='C25', needs='recover in a function of an evaluation behind one that failed',
         breaks='a panic of an earlier evaluation is recovered', edits=[(EN, '''		p.Recov = recover()
		p.ExecDefers(p.Engine)
		if e := p.Recov; e != nil {
			p.Recov = nil
''', '''		p.Recov = recover()
		p.ExecDefers(p.Engine)
		if e := p.Recov; e != nil {
''')],
         demo=demo([[('panic("x")', 'fail', '[]'), ('fn() { return recover() }()', '<nil>', '[]')]])),
]
