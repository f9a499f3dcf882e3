U = 'tpl/interpreter.util/call.go'
Q = 'tpl/qlang/cl/qlang.go'
C = 'tpl/qlang/cl/class.go'
S = 'tpl/qlang/spec/spec.go'
HEAD = '''package main

import (
	"fmt"
	"os"
	"reflect"
	"time"

	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	"github.com/qiniu/text/tpl/qlang/spec"
)

var _ = reflect.TypeOf
var _ = spec.SafeMode
var lang qlang.Qlang

func bad(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func want(src, v string) {
	if err := lang.SafeEval(src); err != nil {
		bad("%s: %v", src, err)
	}
	r, _ := lang.Ret()
	if s := fmt.Sprintf("%T %v", r, r); s != v {
		bad("%s is %s, not %s", src, s, v)
	}
}

func refused(src string) {
	if err := lang.SafeEval(src); err == nil {
		r, _ := lang.Ret()
		bad("%s works: %v", src, r)
	}
}

func start() {
	time.AfterFunc(20*time.Second, func() { bad("stuck") })
	var err error
	if lang, err = qlang.New(nil); err != nil {
		bad("%v", err)
	}
}
'''

def demo(types, body):
    return HEAD + types + '\nfunc main() {\n\tstart()\n' + body + '}\n'

SEEDS = [
 dict(id='c29-several-floats', property='C29', needs='a function with several results, one of them a float32',
  breaks='the slice of several results keeps float32 as it is', edits=[(Q, 'slice[i] = castVal(v)', '''slice[i] = v.Interface()
			if v.Kind() < reflect.Float32 {
				slice[i] = castVal(v)
			}''')],
  demo=demo('', '''	lang.SetVar("f", func() (float32, int8, string) { return 2.5, 7, "s" })
	want("r = f()[1]", "int 7")
	want("r = f()[0]", "float64 2.5")
''')),
 dict(id='c29-last-variadic', property='C29', needs='a variadic float64 function whose last argument is an integer',
  breaks='the last of several variadic arguments is not converted', edits=[
   (U, '''	in = in[1:]
	if isVariadic {
		n--
		t := tfn.In(n).Elem()
		for i := n; i < arity; i++ {''', '''	in = in[1:]
	if isVariadic {
		n--
		t := tfn.In(n).Elem()
		for i := n; i < arity && (i == n || i+1 < len(in)); i++ {''')],
  demo=demo('', '''	lang.SetVar("f", func(xs ...float64) float64 { return xs[len(xs)-1] })
	want("r = f(1, 2.5)", "float64 2.5")
	want("r = f(1.5, 2)", "float64 2")
''')),
 dict(id='c29-empty-spread', property='C29', needs='the spread of an empty slice after another argument',
  breaks='an empty slice spread counts as an argument', edits=[(Q, '			arity += (n - 1)', '''			if n > 0 {
				arity += (n - 1)
			}''')],
  demo=demo('', '''	lang.SetVar("f", func(k int, xs ...int) int { return k*10 + len(xs) })
	lang.SetVar("e", []int{})
	lang.SetVar("one", []int{5})
	want("r = f(3, one...)", "int 31")
	want("r = 7 + f(3, e...)", "int 37")
''')),
 dict(id='c29-ascii-title', property='C29', needs='a member whose name starts with a letter beyond ASCII',
  breaks='only ASCII letters are capitalised', edits=[(C, '		name = strings.Title(name)', '''		if c := name[0]; c >= 'a' && c <= 'z' {
			name = strings.ToUpper(name[:1]) + name[1:]
		}''')],
  demo=demo('''type T struct{}

func (T) Été() int { return 5 }
func (T) Get() int { return 6 }
''', '''	lang.SetVar("t", T{})
	want("r = t.get()", "int 6")
	want("r = t.été()", "int 5")
''')),
 dict(id='c29-auto-variadic', property='C29', needs='a variadic method of a type whose methods are called automatically',
  breaks='a method with a variadic parameter counts as one without parameters', edits=[(C, 'qlang.AutoCall[t] && m.Type().NumIn() == 0', 'qlang.AutoCall[t] && (m.Type().NumIn() == 0 || m.Type().IsVariadic() && m.Type().NumIn() == 1)')],
  demo=demo('''type T struct{}

func (*T) Sum(xs ...int) int { return len(xs) }
func (*T) Get() int { return 6 }
''', '''	qlang.SetAutoCall(reflect.TypeOf((*T)(nil)))
	lang.SetVar("t", &T{})
	want("r = t.get", "int 6")
	want("r = t.sum(1, 2)", "int 2")
''')),
 dict(id='c29-safe-half', property='C29', needs='safe mode, an import that is refused because of its _initSafe, and a second import of that name',
  breaks='a refused module stays registered', edits=[(S, '''	if SafeMode {
		if v, ok''', '''	if SafeMode && mod != "" {
		if _, ok := Fntable[mod]; ok {
			panic("module to import exists already: " + mod)
		}
		Fntable[mod] = table
		if v, ok := table["_initSafe"]; ok {
			v.(func(map[string]interface{}, func(...interface{}) interface{}))(table, dummyN)
		}
		return
	}
	if SafeMode {
		if v, ok''')],
  demo=demo('''func try(f func()) (ok bool) {
	defer func() { ok = recover() == nil }()
	f()
	return
}
''', '''	spec.SafeMode = true
	if try(func() { qlang.Import("demomod", map[string]interface{}{"_initSafe": 1, "a": 2}) }) {
		bad("an _initSafe that is no function is accepted")
	}
	if !try(func() { qlang.Import("demomod", map[string]interface{}{"a": 3}) }) {
		bad("the name is taken by a module that was refused")
	}
	want("r = demomod.a", "int 3")
''')),
 dict(id='c29-interface-results', property='C29', needs='a function that returns a small integer as an interface',
  breaks='results declared as interfaces are converted like those declared as numbers', edits=[(Q, '''	switch kind := v.Kind(); {
	case kind == reflect.Float64 ||''', '''	if v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	switch kind := v.Kind(); {
	case kind == reflect.Float64 ||''')],
  demo=demo('', '''	lang.SetVar("f", func(x interface{}) interface{} { return x })
	lang.SetVar("x", uint16(5))
	lang.SetVar("s", "s")
	want("r = f(s)", "string s")
	want("r = f(x)", "uint16 5")
''')),
 dict(id='c29-nil-anything', property='C29', needs='nil passed for a parameter that is neither interface nor pointer',
  breaks='nil is taken as the zero value of any type', edits=[(U, '''	switch t.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !in.IsValid() {''', '''	if !in.IsValid() {
		*in = reflect.Zero(t)
	}
	switch t.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !in.IsValid() {''')],
  demo=demo('', '''	lang.SetVar("f", func(p *int, s string) string { return fmt.Sprint(p == nil) + s })
	want("r = f(nil, \\"x\\")", "string truex")
	refused("r = f(nil, nil)")
''')),
 dict(id='c29-uintptr', property='C29', needs='a float64 parameter given a uint64 or uintptr',
  breaks='the conversion to float64 stops at uint32', edits=[(U, 'kind <= reflect.Uintptr:\n\t\t\tval', 'kind < reflect.Uint64:\n\t\t\tval')],
  demo=demo('', '''	lang.SetVar("f", func(x float64) float64 { return x / 2 })
	lang.SetVar("a", uint8(5))
	lang.SetVar("b", uint64(5))
	want("r = f(a)", "float64 2.5")
	want("r = f(b)", "float64 2.5")
''')),
 dict(id='c29-empty-slice-argument', property='C29', needs='an empty slice as the only variadic argument',
  breaks='the empty slice is spread', edits=[(U, '''	out := vfn.Call(in)
	return stk.PushRet(out)
}

func validateType''', '''	if isVariadic && arity == n+1 && in[n].IsValid() && in[n].Kind() == reflect.Slice && in[n].Type().Elem() == tfn.In(n).Elem() && in[n].Len() == 0 {
		return stk.PushRet(vfn.CallSlice(in))
	}
	out := vfn.Call(in)
	return stk.PushRet(out)
}

func validateType''')],
  demo=demo('', '''	lang.SetVar("f", func(xs ...interface{}) int { return len(xs) })
	lang.SetVar("e", []interface{}{})
	lang.SetVar("one", []interface{}{5})
	want("r = f(one)", "int 1")
	want("r = f(e)", "int 1")
''')),
]
