package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	qspec "github.com/qiniu/text/tpl/qlang/spec"
)

// HostVal is a Go value: its type, its text, the object it refers to, its parts.
type HostVal struct {
	T string    `json:"t"`
	V string    `json:"v"`
	O int       `json:"o"`
	E []HostVal `json:"e"`
}

// HostFn is a Go function given to the script.
type HostFn struct {
	P    []string  `json:"p"`
	Va   bool      `json:"va"`
	D    []string  `json:"d"`
	Out  []HostVal `json:"out"` // type arg: the o-th argument received
	Boom string    `json:"boom"`
}

// HostStmt is dst = base.mem(args).
type HostStmt struct {
	Dst    string   `json:"dst"`
	Base   string   `json:"base"`
	Mem    []string `json:"mem"`
	Call   bool     `json:"call"`
	Args   []string `json:"args"`
	Spread bool     `json:"spread"`
	Wrap   bool     `json:"wrap"`
}

// HostVar is a variable the host sets.
type HostVar struct {
	N string  `json:"n"`
	V HostVal `json:"v"`
}

// HostRec is an object of the host.
type HostRec struct {
	Name  string `json:"name"`
	Count string `json:"count"`
	Inner int    `json:"inner"`
}

// HostImp is an import of a module, or of a function, before the engine is made.
type HostImp struct {
	Mod  string  `json:"mod"`
	K    string  `json:"k"`
	V    HostVal `json:"v"`
	Safe bool    `json:"safe"`
	Ini  string  `json:"ini"`
}

// HostCase is a history of statements on one engine.
type HostCase struct {
	Fns  []HostFn   `json:"fns"`
	Heap []HostRec  `json:"heap"`
	Env  []HostVar  `json:"env"`
	Imp  []HostImp  `json:"imp"`
	Sts  []HostStmt `json:"sts"`
}

// --- types of the host ----------------------------------------------------------------------

type hostBase struct{ Id uint16 }

func (p hostBase) Ident() uint16 { hostLog("Ident"); return p.Id }

type hostObj struct {
	hostBase
	Name   string
	Count  int32
	Inner  *hostObj
	M      map[string]interface{}
	hidden int
}

func (p hostObj) Get() int32                    { hostLog("Get"); return p.Count }
func (p hostObj) Both() (int8, string)          { hostLog("Both"); return int8(p.Count), p.Name }
func (p hostObj) Self() hostObj                 { hostLog("Self"); return p }
func (p *hostObj) Me() *hostObj                 { hostLog("Me"); return p }
func (p *hostObj) String() string               { hostLog("String"); return p.Name }
func (p *hostObj) SetName(s string)             { hostLog("SetName", s); p.Name = s }
func (p hostObj) Été(v interface{}) interface{} { hostLog("Ete", v); return v }
func (p hostObj) Sum(k float64, xs ...int) float32 {
	a := []interface{}{k}
	for _, x := range xs {
		a = append(a, x)
	}
	hostLog("Sum", a...)
	return 2.5
}

type hostAuto struct {
	N    int16
	Nx   *hostAuto
	name string
}

func (p hostAuto) Val() int16          { hostLog("Val"); return p.N }
func (p hostAuto) Pair() (int, string) { hostLog("Pair"); return int(p.N), p.name }
func (p hostAuto) Nop()                { hostLog("Nop") }
func (p hostAuto) Add(x int) int       { hostLog("Add", x); return 9 }
func (p *hostAuto) Next() *hostAuto    { hostLog("Next"); return p.Nx }
func (p hostAuto) All(xs ...int) int {
	a := []interface{}{}
	for _, x := range xs {
		a = append(a, x)
	}
	hostLog("All", a...)
	return 8
}

type hostCaller struct{ n int }

func (p *hostCaller) Call(a int, b ...string) uint8 {
	l := []interface{}{a}
	for _, x := range b {
		l = append(l, x)
	}
	hostLog("Call", l...)
	return 200
}

type hostStr string

func (p hostStr) String() string { hostLog("String"); return string(p) }

type hostErr struct{ s string }

func (p hostErr) Error() string { hostLog("Error"); return p.s }

var hostTypes = map[string]reflect.Type{
	"any": reflect.TypeOf((*interface{})(nil)).Elem(), "error": reflect.TypeOf((*error)(nil)).Elem(),
	"stringer": reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	"int":      reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
	"[]int": reflect.TypeOf([]int{}), "[]string": reflect.TypeOf([]string{}), "[]any": reflect.TypeOf([]interface{}{}), "[]float64": reflect.TypeOf([]float64{}), "[]int32": reflect.TypeOf([]int32{}),
	"map[string]any": reflect.TypeOf(map[string]interface{}{}), "map[int]any": reflect.TypeOf(map[int]interface{}{}),
	"*obj": reflect.TypeOf((*hostObj)(nil)), "obj": reflect.TypeOf(hostObj{}), "*auto": reflect.TypeOf((*hostAuto)(nil)), "auto": reflect.TypeOf(hostAuto{}),
	"*caller": reflect.TypeOf((*hostCaller)(nil)), "str": reflect.TypeOf(hostStr("")), "err": reflect.TypeOf(hostErr{}),
}
var hostNames = map[reflect.Type]string{}

// --- the run: one at a time, functions of modules record into it -----------------------------

type hostRun struct {
	log  []M
	objs []*hostObj
	auto []*hostAuto
	fns  []interface{}
}

var hostNow *hostRun

func hostLog(f string, args ...interface{}) {
	a := []HostVal{}
	for _, x := range args {
		a = append(a, seen(x))
	}
	hostNow.log = append(hostNow.log, M{"f": f, "a": a})
	yield()
}

// seen is what the host sees of a value.
func seen(x interface{}) HostVal {
	v := HostVal{E: []HostVal{}}
	if x == nil {
		v.T = "nil"
		return v
	}
	rv := reflect.ValueOf(x)
	if rv.Kind() == reflect.Ptr && rv.IsNil() {
		v.T = "nil"
		return v
	}
	v.T = hostNames[rv.Type()]
	switch o := x.(type) {
	case *hostObj:
		v.V = o.Name
		return v
	case hostObj:
		v.V = o.Name
		return v
	case *hostAuto:
		v.V = fmt.Sprint(o.N)
		return v
	case hostAuto:
		v.V = fmt.Sprint(o.N)
		return v
	case *hostCaller:
		return v
	case hostErr:
		v.V = o.s
		return v
	case hostStr:
		v.V = string(o)
		return v
	}
	switch rv.Kind() {
	case reflect.Func:
		v.T = "func"
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			v.E = append(v.E, seen(rv.Index(i).Interface()))
		}
	case reflect.Map:
		ks := rv.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			v.E = append(v.E, seen(k.Interface()), seen(rv.MapIndex(k).Interface()))
		}
	default:
		v.V = fmt.Sprint(x)
	}
	if v.T == "" {
		v.T = "?" + rv.Type().String()
	}
	return v
}

func (p *hostRun) value(v HostVal) interface{} {
	switch v.T {
	case "nil":
		return nil
	case "func":
		return p.fns[v.O-1]
	case "*obj":
		return p.objs[v.O-1]
	case "obj":
		return *p.objs[v.O-1]
	case "*auto":
		return p.auto[v.O-1]
	case "auto":
		return *p.auto[v.O-1]
	case "*caller":
		return &hostCaller{}
	case "err":
		return hostErr{v.V}
	case "str":
		return hostStr(v.V)
	}
	t := hostTypes[v.T]
	rv := reflect.New(t).Elem()
	switch k := t.Kind(); {
	case k == reflect.String:
		rv.SetString(v.V)
	case k == reflect.Bool:
		rv.SetBool(v.V == "true")
	case k == reflect.Float32 || k == reflect.Float64:
		f, _ := strconv.ParseFloat(v.V, 64)
		rv.SetFloat(f)
	case k >= reflect.Int && k <= reflect.Int64:
		i, _ := strconv.ParseInt(v.V, 10, 64)
		rv.SetInt(i)
	case k >= reflect.Uint && k <= reflect.Uintptr:
		i, _ := strconv.ParseUint(v.V, 10, 64)
		rv.SetUint(i)
	case k == reflect.Slice:
		rv.Set(reflect.MakeSlice(t, 0, len(v.E)))
		for _, x := range v.E {
			rv.Set(reflect.Append(rv, p.as(t.Elem(), x)))
		}
	case k == reflect.Map:
		rv.Set(reflect.MakeMap(t))
		for i := 0; i+1 < len(v.E); i += 2 {
			rv.SetMapIndex(p.as(t.Key(), v.E[i]), p.as(t.Elem(), v.E[i+1]))
		}
	}
	return rv.Interface()
}

func (p *hostRun) as(t reflect.Type, v HostVal) reflect.Value {
	if x := p.value(v); x != nil {
		return reflect.ValueOf(x)
	}
	return reflect.Zero(t)
}

func hostFunc(name string, f HostFn, run func() *hostRun) interface{} {
	var in, out []reflect.Type
	for i, t := range f.P {
		ty := hostTypes[t]
		if f.Va && i+1 == len(f.P) {
			ty = reflect.SliceOf(ty)
		}
		in = append(in, ty)
	}
	for _, t := range f.D {
		out = append(out, hostTypes[t])
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, f.Va), func(args []reflect.Value) (res []reflect.Value) {
		var all []interface{}
		for i, a := range args {
			if f.Va && i+1 == len(args) {
				for j := 0; j < a.Len(); j++ {
					all = append(all, a.Index(j).Interface())
				}
			} else {
				all = append(all, a.Interface())
			}
		}
		hostLog(name, all...)
		switch f.Boom {
		case "s":
			panic("boom")
		case "e":
			panic(errors.New("boom"))
		}
		for i, v := range f.Out {
			r := reflect.New(out[i]).Elem()
			if v.T == "arg" {
				if v.O <= len(all) && all[v.O-1] != nil {
					r.Set(reflect.ValueOf(all[v.O-1]))
				}
			} else if x := run().value(v); x != nil {
				r.Set(reflect.ValueOf(x))
			}
			res = append(res, r)
		}
		return
	}).Interface()
}

// names of imports are used once in a process
var hostImports int

func hostName(n string) string {
	if strings.HasPrefix(n, "vm") {
		return fmt.Sprintf("%s_%d", n, hostImports)
	}
	return n
}

func (p *hostRun) doImport(m HostImp) (r string) {
	defer func() {
		qspec.SafeMode = false
		if e := recover(); e != nil {
			r = "panic"
		}
	}()
	qspec.SafeMode = m.Safe
	t := map[string]interface{}{hostName(m.K): p.value(m.V)}
	switch m.Ini {
	case "ok":
		t["_initSafe"] = func(t map[string]interface{}, dummy func(...interface{}) interface{}) {
			delete(t, m.K)
			t["kb"] = 77
		}
	case "bad":
		t["_initSafe"] = func(t map[string]interface{}) { delete(t, m.K) }
	}
	qlang.Import(hostName(m.Mod), t)
	return "ok"
}

func (s HostStmt) text() string {
	e := hostName(s.Base)
	for _, m := range s.Mem {
		if m == "ete" { // letters beyond ASCII have capitals too
			m = "été"
		}
		e += "." + m
	}
	if s.Call {
		var args []string
		for _, a := range s.Args {
			args = append(args, hostName(a))
		}
		e += "(" + strings.Join(args, ", ")
		if s.Spread {
			e += "..."
		}
		e += ")"
	}
	if s.Wrap {
		e = `verifid("a", ` + e + `, "b")`
	}
	return s.Dst + " = " + e
}

func runHost(raw []byte) (interface{}, bool) {
	var c HostCase
	jget(raw, &c)
	run := &hostRun{log: []M{}}
	hostNow = run
	for _, h := range c.Heap {
		n, _ := strconv.Atoi(h.Count)
		run.objs = append(run.objs, &hostObj{hostBase: hostBase{uint16(n)}, Name: h.Name, Count: int32(n), M: map[string]interface{}{"k": "entry"}})
		run.auto = append(run.auto, &hostAuto{N: int16(n), name: h.Name})
	}
	for i, h := range c.Heap {
		run.objs[i].Inner, run.auto[i].Nx = run.objs[h.Inner-1], run.auto[h.Inner-1]
	}
	for i, f := range c.Fns {
		run.fns = append(run.fns, hostFunc(fmt.Sprintf("f%d", i+1), f, func() *hostRun { return run }))
	}
	hostImports++
	imp := []string{}
	for _, m := range c.Imp {
		imp = append(imp, run.doImport(m))
	}
	lang, err := qlang.New(nil)
	if err != nil {
		return M{"r": "rej"}, true
	}
	for _, v := range c.Env {
		lang.SetVar(hostName(v.N), run.value(v.V))
	}
	sts := []M{}
	for _, s := range c.Sts {
		run.log = []M{}
		o := M{"r": "ok", "ret": seen(nil), "dst": seen(nil), "msg": ""}
		func() {
			defer func() {
				if e := recover(); e != nil {
					o["r"], o["msg"] = "panic", fmt.Sprint(e)
				}
			}()
			if err := lang.SafeEval(s.text()); err != nil {
				o["r"], o["msg"] = "err", err.Error()
				return
			}
			v, _ := lang.Ret()
			o["ret"] = seen(v)
			v, _ = lang.Var(s.Dst)
			o["dst"] = seen(v)
		}()
		o["log"] = run.log
		sts = append(sts, o)
	}
	return M{"r": "ok", "imp": imp, "sts": sts}, true
}

// --- generation ------------------------------------------------------------------------------

var hostInts = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr"}
var hostParams = append([]string{"any", "any", "any", "float64", "float64", "int", "string", "bool", "float32", "error", "stringer", "*obj", "*auto", "[]int", "[]any", "map[string]any", "str", "obj"}, hostInts...)

func genHostVal(r *rand.Rand, depth, nfn int) HostVal {
	v := HostVal{E: []HostVal{}}
	switch k := r.Intn(24); {
	case k < 7:
		v.T = hostInts[r.Intn(len(hostInts))]
		v.V = fmt.Sprint(r.Intn(100))
		if v.T[0] == 'i' && r.Intn(4) == 0 {
			v.V = "-" + fmt.Sprint(1+r.Intn(100))
		}
		if r.Intn(8) == 0 {
			v.V = map[string]string{"int8": "-128", "uint8": "255", "int16": "32767", "uint16": "65535", "int32": "-2147483648", "uint32": "4294967295", "int64": "1099511627776", "int": "1073741824", "uint": "4294967296", "uint64": "1125899906842624", "uintptr": "4294967295"}[v.T]
			if len(v.V) > 6 && r.Intn(2) == 0 { // printed with an exponent as float
				v.V = "7"
			}
			if len(v.V) > 6 {
				v.V = "123456"
				if v.T == "int8" || v.T == "uint8" || v.T == "int16" || v.T == "uint16" {
					v.V = "99"
				}
			}
		}
	case k < 10:
		v.T, v.V = []string{"float32", "float64"}[r.Intn(2)], []string{"1.5", "-0.25", "2", "1024.5"}[r.Intn(4)]
	case k < 13:
		v.T, v.V = "string", []string{"", "x", "of", "1"}[r.Intn(4)]
	case k == 13:
		v.T, v.V = "bool", []string{"true", "false"}[r.Intn(2)]
	case k == 14:
		v.T = "nil"
	case k == 15:
		v.T, v.V = "err", "wrong"
	case k == 16:
		v.T, v.V = "str", "named"
	case k < 20 && depth > 0:
		v.T = []string{"[]int", "[]string", "[]any", "[]any", "[]float64", "[]int32"}[r.Intn(6)]
		for i := r.Intn(4); i > 0; i-- {
			switch v.T {
			case "[]any":
				v.E = append(v.E, genHostVal(r, depth-1, nfn))
			case "[]string":
				v.E = append(v.E, HostVal{T: "string", V: "s", E: []HostVal{}})
			default:
				v.E = append(v.E, HostVal{T: v.T[2:], V: fmt.Sprint(r.Intn(50)), E: []HostVal{}})
			}
		}
	case k == 20 && depth > 0:
		v.T = "map[string]any"
		for _, n := range []string{"fun", "get", "k"} {
			if r.Intn(2) == 0 {
				x := genHostVal(r, depth-1, nfn)
				if n == "fun" && nfn > 0 {
					o := 1 + r.Intn(nfn)
					x = HostVal{T: "func", V: fmt.Sprintf("f%d", o), O: o, E: []HostVal{}}
				}
				v.E = append(v.E, HostVal{T: "string", V: n, E: []HostVal{}}, x)
			}
		}
	case k == 21:
		v.T, v.O = []string{"*obj", "*auto", "*obj", "auto"}[r.Intn(4)], 1+r.Intn(3)
	case k == 22:
		v.T, v.O = "obj", 4
	case k == 23 && r.Intn(2) == 0:
		v.T = "*caller"
	default:
		v.T, v.V = "int", fmt.Sprint(r.Intn(9))
	}
	return v
}

var hostObjMembers = []string{"get", "both", "self", "sum", "ident", "ete", "setName", "me", "string", "name", "count", "inner", "inner", "inner", "m", "id", "missing", "error", "hidden", "Name", "Get", "call", "n"}
var hostAutoMembers = []string{"val", "pair", "nop", "add", "all", "next", "next", "n", "name", "missing", "Val"}

func genHost(r *rand.Rand, n int, profile string, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := HostCase{Fns: []HostFn{}, Imp: []HostImp{}, Env: []HostVar{}, Sts: []HostStmt{}}
		for j := 0; j < 4; j++ {
			c.Heap = append(c.Heap, HostRec{[]string{"ann", "bob", "", "eve"}[r.Intn(4)], fmt.Sprint(r.Intn(120)), 1 + r.Intn(3)})
		}
		nfn := 1 + r.Intn(4)
		for j := 0; j < nfn; j++ {
			f := HostFn{P: []string{}, D: []string{}, Out: []HostVal{}}
			for k := r.Intn(4); k > 0; k-- {
				f.P = append(f.P, hostParams[r.Intn(len(hostParams))])
			}
			f.Va = len(f.P) > 0 && r.Intn(3) == 0
			for k := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]; k > 0; k-- {
				v := genHostVal(r, 1, 0)
				d := v.T
				if d == "func" || d == "nil" || r.Intn(4) == 0 {
					d = "any"
				}
				if v.T == "err" && r.Intn(2) == 0 {
					d = "error"
				}
				if d == "any" && len(f.P) > 0 && r.Intn(2) == 0 {
					v = HostVal{T: "arg", O: 1 + r.Intn(len(f.P)), E: []HostVal{}}
				}
				f.D, f.Out = append(f.D, d), append(f.Out, v)
			}
			if r.Intn(12) == 0 {
				f.Boom = []string{"s", "e"}[r.Intn(2)]
			}
			c.Fns = append(c.Fns, f)
		}
		kind := map[string]string{"verifmod": "mod", "verifsecond": "func"}
		names := []string{"verifmod", "verifsecond"}
		set := func(nm string, v HostVal) {
			c.Env = append(c.Env, HostVar{nm, v})
			kind[nm] = v.T
			names = append(names, nm)
		}
		for j := range c.Fns {
			set(fmt.Sprintf("f%d", j+1), HostVal{T: "func", V: fmt.Sprintf("f%d", j+1), O: j + 1, E: []HostVal{}})
		}
		for j := 0; j < 8; j++ {
			set(fmt.Sprintf("v%d", j), genHostVal(r, 2, nfn))
		}
		set("x", HostVal{T: "*obj", O: 1 + r.Intn(3), E: []HostVal{}})
		set("y", HostVal{T: []string{"*auto", "*auto", "auto"}[r.Intn(3)], O: 1 + r.Intn(3), E: []HostVal{}})
		for j := r.Intn(8) - 3; j > 0; j-- {
			m := HostImp{Mod: []string{"vmA", "vmB", "vmC", ""}[r.Intn(4)], K: "ka", V: genHostVal(r, 1, nfn)}
			if r.Intn(3) == 0 {
				m.V = HostVal{T: "func", V: "f1", O: 1, E: []HostVal{}}
			}
			if m.Mod == "" {
				m.K = []string{"vmA", "vmF", "vmG"}[r.Intn(3)]
				names = append(names, m.K)
			} else {
				m.Safe = r.Intn(3) == 0
				m.Ini = []string{"", "", "ok", "bad"}[r.Intn(4)]
				names = append(names, m.Mod)
			}
			kind[names[len(names)-1]] = "imp"
			c.Imp = append(c.Imp, m)
		}
		if len(c.Imp) > 0 && r.Intn(4) == 0 {
			set("vmA", genHostVal(r, 2, nfn))
		}
		if r.Intn(6) == 0 { // hides a module
			set("verifmod", genHostVal(r, 2, nfn))
		}
		// a value of a type, when there is one
		find := func(t string) string {
			var ok []string
			for _, v := range c.Env {
				if t == "any" || v.V.T == t || t == "float64" && (strings.HasPrefix(v.V.T, "int") || strings.HasPrefix(v.V.T, "uint") || v.V.T == "float32") ||
					v.V.T == "nil" && (t[0] == '*' || t == "error" || t == "stringer") || t == "error" && v.V.T == "err" || t == "stringer" && (v.V.T == "str" || v.V.T == "*obj") {
					ok = append(ok, v.N)
				}
			}
			if len(ok) == 0 || r.Intn(12) == 0 {
				return names[r.Intn(len(names))]
			}
			return ok[r.Intn(len(ok))]
		}
		argsFor := func(p []string, va bool) (args []string) {
			args = []string{}
			k := len(p)
			if va {
				k += r.Intn(4) - 1
			}
			if r.Intn(10) == 0 {
				k += r.Intn(3) - 1
			}
			for j := 0; j < k; j++ {
				t := "any"
				if j < len(p) {
					t = p[j]
				} else if len(p) > 0 {
					t = p[len(p)-1]
				}
				args = append(args, find(t))
			}
			return
		}
		methods := map[string][]string{"sum": {"float64", "int"}, "ete": {"any"}, "setName": {"string"}, "add": {"int"}, "all": {"int"}, "call": {"int", "string"}}
		for j := 2 + r.Intn(9); j > 0; j-- {
			s := HostStmt{Dst: fmt.Sprintf("r%d", r.Intn(4)), Mem: []string{}, Args: []string{}, Wrap: r.Intn(4) == 0}
			switch k := r.Intn(10); {
			case k < 4:
				f := r.Intn(len(c.Fns))
				s.Base, s.Call = fmt.Sprintf("f%d", f+1), true
				s.Args = argsFor(c.Fns[f].P, c.Fns[f].Va)
			case k < 6:
				s.Base = "x"
				for l := 1 + r.Intn(3); l > 0; l-- {
					s.Mem = append(s.Mem, hostObjMembers[r.Intn(len(hostObjMembers))])
				}
				s.Call = r.Intn(3) > 0
				s.Args = argsFor(methods[s.Mem[len(s.Mem)-1]], s.Mem[len(s.Mem)-1] == "sum")
			case k == 6:
				s.Base = "y"
				for l := 1 + r.Intn(3); l > 0; l-- {
					s.Mem = append(s.Mem, hostAutoMembers[r.Intn(len(hostAutoMembers))])
				}
				s.Call = r.Intn(2) > 0
				s.Args = argsFor(methods[s.Mem[len(s.Mem)-1]], s.Mem[len(s.Mem)-1] == "all")
			case k == 7:
				s.Base, s.Mem = "verifmod", []string{[]string{"sum", "second", "nop", "ten", "missing"}[r.Intn(5)]}
				s.Call = r.Intn(4) > 0
				s.Args = argsFor(map[string][]string{"sum": {"float64", "int"}, "second": {"any", "any"}}[s.Mem[0]], s.Mem[0] == "sum")
			default:
				s.Base = names[r.Intn(len(names))]
				if l := len(c.Imp); l > 0 && r.Intn(2) == 0 {
					if s.Base = c.Imp[r.Intn(l)].Mod; s.Base == "" {
						s.Base = "vmF"
					}
				}
				if r.Intn(3) == 0 {
					s.Base = fmt.Sprintf("r%d", r.Intn(4))
				}
				if kind[s.Base] == "str" || kind[s.Base] == "err" {
					s.Mem = append(s.Mem, []string{"string", "error", "String", "name"}[r.Intn(4)])
				} else if kind[s.Base] == "imp" && r.Intn(4) > 0 {
					s.Mem = append(s.Mem, []string{"ka", "ka", "kb", "kc"}[r.Intn(4)])
				} else if r.Intn(2) == 0 {
					s.Mem = append(s.Mem, append(append([]string{"fun", "k", "get"}, hostObjMembers...), hostAutoMembers...)[r.Intn(3+len(hostObjMembers)+len(hostAutoMembers))])
				}
				s.Call = r.Intn(3) == 0
				for l := r.Intn(3); l > 0 && s.Call; l-- {
					s.Args = append(s.Args, names[r.Intn(len(names))])
				}
			}
			if !s.Call {
				s.Args = []string{}
			}
			for l := range s.Args { // results of earlier statements
				if r.Intn(6) == 0 {
					s.Args[l] = fmt.Sprintf("r%d", r.Intn(4))
				}
			}
			if s.Call && len(s.Args) > 0 && r.Intn(6) == 0 {
				s.Spread = true
				if r.Intn(4) > 0 {
					s.Args[len(s.Args)-1] = find([]string{"[]int", "[]any", "[]string", "[]float64", "[]int32"}[r.Intn(5)])
				}
			}
			if s.Call && r.Intn(40) == 0 {
				s.Spread, s.Args = true, []string{}
			}
			c.Sts = append(c.Sts, s)
		}
		emit(c)
	}
}

func init() {
	for n, t := range hostTypes {
		hostNames[t] = n
	}
	now := func() *hostRun { return hostNow }
	e := []HostVal{}
	sum := hostFunc("mod1", HostFn{P: []string{"float64", "int"}, Va: true, D: []string{"int64", "string"}, Out: []HostVal{{T: "int64", V: "64", E: e}, {T: "string", V: "mod", E: e}}}, now)
	second := hostFunc("mod2", HostFn{P: []string{"any", "any"}, D: []string{"any"}, Out: []HostVal{{T: "arg", O: 2, E: e}}}, now)
	nop := hostFunc("mod3", HostFn{}, now)
	id := hostFunc("verifid", HostFn{P: []string{"any"}, Va: true, D: []string{"any"}, Out: []HostVal{{T: "arg", O: 2, E: e}}}, now)
	qlang.Import("verifmod", map[string]interface{}{"sum": sum, "second": second, "nop": nop, "ten": int8(10)})
	qlang.Import("", map[string]interface{}{"verifsecond": second, "verifid": id})
	qlang.SetAutoCall(reflect.TypeOf((*hostAuto)(nil)))
	suites["host"] = suite{gen: genHost, run: runHost}
}
