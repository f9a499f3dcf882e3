package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/qlang"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	scripted "github.com/qiniu/text/tpl/qlang/cl/interpreter"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
)

// ScrCase is an interpreter written in the script language: a grammar and a table of functions as in
// IntCase; functions are methods of the stack's or the interpreter's class, or free ones (of the script,
// or of the host when Go is set).
type ScrCase struct {
	G     string  `json:"g"`
	Mode  int     `json:"mode"`
	Fns   []ScrFn `json:"fns"`
	Bad   string  `json:"bad"`   // what is wrong with the class; ""
	Stk   string  `json:"stk"`   // the stack's methods are written in the script, or call the host: "script", "host", "ints"
	Made  string  `json:"made"`  // the engine is created by the "script" or the "host"
	Names bool    `json:"names"` // a table literal with the functions' names, or filled by the host
	Ops   []ScrOp `json:"ops"`
}

// ScrFn is an IntFn that may be a host function.
type ScrFn struct {
	IntFn
	Go bool `json:"go"`
}

// ScrOp is a call of Exec or Eval, by the host or by the script.
type ScrOp struct {
	Op   string `json:"op"` // exec, eval
	By   string `json:"by"` // host, script
	Src  string `json:"src"`
	File string `json:"file"`
}

type scrRun struct {
	c    ScrCase
	lang qlang.Qlang
	eng  *scripted.Engine
	stk  *qcl.Object
	ips  []*qcl.Object
	vals []interface{} // the stack of the host
	log  []M
	caps []interface{}
	cnt  map[string]int
	fuel int
	op   int
	old  map[*tpl.Token]int
	res  error // of an evaluation by the script
	got  bool
}

func (p *scrRun) note(e, f, r string, a ...string) {
	if a == nil {
		a = []string{}
	}
	if len(p.log) > intLogMax {
		panic(tooLong{})
	}
	p.log = append(p.log, M{"e": e, "f": f, "r": r, "a": a})
	yield()
}

func (p *scrRun) isOld(toks []tpl.Token) bool {
	g, ok := p.old[&toks[0]]
	return ok && g != p.op
}

func (p *scrRun) tokens(toks []tpl.Token) string {
	if p.isOld(toks) {
		return fmt.Sprintf("?+%d", len(toks))
	}
	s := p.eng.Tokener()
	file, line := tpl.FileLine(toks, s)
	at := fmt.Sprintf("line %d", line)
	if file != "" {
		at = fmt.Sprintf("%s:%d", file, line)
	}
	return fmt.Sprintf("%d+%d@%s|%s", s.Source().File.Offset(toks[0].Pos), len(toks), latin1(at), latin1(string(tpl.Source(toks, s))))
}

func (p *scrRun) show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case int:
		return "i" + strconv.Itoa(x)
	case int64:
		return "l" + strconv.FormatInt(x, 10)
	case float64:
		return "f" + thousandth(x)
	case string:
		return "s" + latin1(x)
	case []tpl.Token:
		if len(x) == 0 {
			return "T0"
		}
		return "T" + p.tokens(x)
	case *scripted.Engine:
		if x != p.eng {
			return "E!"
		}
		return "E"
	case *qcl.Object:
		if x == p.stk {
			return "stk"
		}
		for i, o := range p.ips {
			if o == x {
				return "ip" + strconv.Itoa(i+1)
			}
		}
		return "object?"
	}
	return fmt.Sprintf("%T", v)
}

func (p *scrRun) find(mark string) *ScrFn {
	for i := range p.c.Fns {
		if unlatin1(p.c.Fns[i].Mark) == mark {
			return &p.c.Fns[i]
		}
	}
	panic("no function " + mark)
}

// called is the body of every function: the host is told the mark and the arguments.
func (p *scrRun) called(mark string, args ...interface{}) interface{} {
	f := p.find(mark)
	recv, shown := "none", []string{}
	if f.Recv != "none" && len(args) > 0 {
		recv = p.show(args[0])
		args = args[1:]
	}
	for _, a := range args {
		shown = append(shown, p.show(a))
	}
	p.note("call", f.Mark, recv, shown...)
	p.cnt[mark]++
	switch f.Do {
	case "push":
		p.push(f.On)
	case "pusharg":
		var v interface{}
		if len(args) > 0 {
			v = args[0]
			switch v.(type) {
			case int, int64, float64, string:
			default:
				v = nil
			}
		}
		p.push(v)
	case "cap":
		var toks []tpl.Token
		if len(args) > 0 {
			toks, _ = args[0].([]tpl.Token)
		}
		if toks == nil {
			toks = []tpl.Token{}
		}
		for i := range toks {
			if _, ok := p.old[&toks[i]]; !ok {
				p.old[&toks[i]] = p.op
			}
		}
		p.caps = append(p.caps, toks)
	case "fail":
		if f.On != 0 && f.On != p.cnt[mark] {
			break
		}
		switch f.How {
		case "other":
			panic(rawFn{f.Mark})
		case "str":
			panic("E" + mark)
		default:
			panic(&errFn{mark})
		}
	}
	if len(f.Out) > 0 {
		switch f.Out[0] {
		case "int":
			return 7
		case "float64":
			return 1.5
		case "string":
			return "r1"
		}
	}
	return nil
}

func (p *scrRun) push(v interface{}) {
	if p.c.Stk == "host" {
		p.vals = append(p.vals, v)
		return
	}
	p.stk.Cls.Fns["push"].Call(p.stk, v)
}

func (p *scrRun) stack() []string {
	out := []string{}
	vals := p.vals
	if p.c.Stk != "host" {
		v := reflect.ValueOf(p.stk.Cls.Fns["all"].Call(p.stk))
		vals = nil
		for i := 0; i < v.Len(); i++ {
			vals = append(vals, v.Index(i).Interface())
		}
	}
	for _, v := range vals {
		out = append(out, p.show(v))
	}
	return out
}

// nested evaluations: may the function run code, which, and what came of it
func (p *scrRun) mayRun(mark string) bool {
	if p.fuel > 0 && len(p.caps) > 0 {
		p.fuel--
		return true
	}
	return false
}

func (p *scrRun) code(mark string) interface{} {
	f := p.find(mark)
	if f.How == "nocode" {
		return nil
	}
	return p.caps[len(p.caps)-1-f.Cap%len(p.caps)]
}

func (p *scrRun) back(mark string, err error) {
	f := p.find(mark)
	r := "ok"
	if err != nil {
		r = "other"
		if err == tpl.ErrNoGrammar {
			r = "nogrammar"
		} else if _, ok := err.(*tpl.MatchError); ok {
			r = "fail"
		}
		if f.Mode == "ret" {
			panic(err)
		}
	}
	p.note("back", f.Mark, "", r)
}

func (p *scrRun) recovered(mark string, v interface{}) {
	if v == nil {
		return
	}
	if _, ok := v.(tooLong); ok {
		panic(v)
	}
	p.note("back", latin1(mark), "", "panic")
}

// name of the i-th function in the script
func scrName(i int) string { return fmt.Sprintf("f%d", i) }

func (p *scrRun) script() string {
	var b strings.Builder
	body := func(i int, f *ScrFn, params string) string {
		mark := strconv.Quote(unlatin1(f.Mark))
		call := "hcall(" + mark
		if params != "" {
			call += ", " + params
		}
		call += ")"
		if f.Do == "run" {
			eng := "eng()"
			if a := strings.Split(params, ", "); strings.HasSuffix(unlatin1(f.Mark), "Engine") && len(a) > 1 {
				eng = a[1]
			}
			s := "\t\t" + call + "\n"
			if f.Mode == "recover" {
				s += "\t\tdefer fn() { hrec(" + mark + ", recover()) }()\n"
			}
			s += fmt.Sprintf("\t\tif hmay(%s) {\n\t\t\thback(%s, %s.evalCode(ip%d, %s, hcode(%s)))\n\t\t}\n", mark, mark, eng, f.IP, strconv.Quote(unlatin1(f.Rule)), mark)
			return s
		}
		return "\t\treturn " + call + "\n"
	}
	decl := func(i int, f *ScrFn, recv bool) string {
		ps := []string{}
		for j := range f.P {
			ps = append(ps, string(rune('a'+j)))
		}
		decl := strings.Join(ps, ", ")
		if f.Shape == "variadic" {
			if decl == "" {
				decl = "z"
			}
			decl += "..."
		}
		params := strings.TrimSuffix(decl, "...")
		if recv {
			params = strings.TrimSuffix("this, "+params, ", ")
		}
		return "(" + decl + ") {\n" + body(i, f, params) + "\t}\n"
	}
	methods := func(recv string) {
		for i := range p.c.Fns {
			f := &p.c.Fns[i]
			if f.Recv == recv && f.Shape != "value" {
				b.WriteString("\tfn " + scrName(i) + decl(i, f, true))
			}
		}
	}
	b.WriteString("Stack = class {\n")
	switch p.c.Stk {
	case "host":
		b.WriteString("\tfn push(x) { hpush(x) }\n\tfn popArgs(n) { return hpop(n) }\n")
	case "ints": // operands as a typed slice when they are all numbers
		b.WriteString("\tfn _init() { set(this, \"v\", slice(\"var\")) }\n\tfn push(x) { set(this, \"v\", append(this.v, x)) }\n\tfn popArgs(n) {\n\t\tm = len(this.v) - n\n\t\targs = hsame(this.v[m:])\n\t\tset(this, \"v\", this.v[:m])\n\t\treturn args\n\t}\n\tfn all() { return this.v }\n")
	default:
		b.WriteString("\tfn _init() { set(this, \"v\", slice(\"var\")) }\n\tfn push(x) { set(this, \"v\", append(this.v, x)) }\n\tfn popArgs(n) {\n\t\tm = len(this.v) - n\n\t\targs = this.v[m:]\n\t\tset(this, \"v\", this.v[:m])\n\t\treturn args\n\t}\n\tfn all() { return this.v }\n")
	}
	methods("stk")
	b.WriteString("}\n")
	for i := range p.c.Fns {
		f := &p.c.Fns[i]
		if f.Recv == "none" && f.Shape != "value" && !f.Go {
			b.WriteString(scrName(i) + " = fn" + decl(i, f, false))
		}
	}
	grammar, stack, table := "return hgrammar", "return stk", ""
	var items []string
	for i := range p.c.Fns {
		f := &p.c.Fns[i]
		key := strconv.Quote("$" + unlatin1(f.Mark))
		switch {
		case f.Shape == "unbound":
		case f.Shape == "value":
			items = append(items, key+": "+[]string{"17", "\"f\"", "nil", "[1, 2]", "stk"}[i%5])
		case f.Recv == "stk":
			items = append(items, key+": Stack."+scrName(i))
		case f.Recv == "ipt":
			items = append(items, key+": Calc."+scrName(i))
		case f.Go:
			items = append(items, key+": hfn("+strconv.Quote(unlatin1(f.Mark))+")")
		default:
			items = append(items, key+": "+scrName(i))
		}
	}
	if p.c.Names {
		for j := range items {
			items[j] = strings.Replace(items[j], "\": ", "\", ", 1)
		}
		table = "return htable(" + strings.Join(items, ", ") + ")"
	} else {
		table = "return {" + strings.Join(append(items, "\"unused\": nil"), ", ") + "}"
	}
	switch p.c.Bad {
	case "grammar5":
		grammar = "return 5"
	case "stack5":
		stack = "return 5"
	case "table5":
		table = "return {\"a\": 5}"
	case "boom":
		table = "panic(\"no table\")"
	}
	b.WriteString("Calc = class {\n")
	if p.c.Bad != "nogrammar" {
		b.WriteString("\tfn grammar() { " + grammar + " }\n")
	}
	if p.c.Bad != "nostack" {
		b.WriteString("\tfn stack() { " + stack + " }\n")
	}
	if p.c.Bad != "nofntable" {
		b.WriteString("\tfn fntable() { " + table + " }\n")
	}
	methods("ipt")
	b.WriteString("}\nstk = new Stack\nip1 = new Calc\nip2 = new Calc\nip3 = new Calc\n")
	return b.String()
}

// hostFn is a function of the host with the parameter and result types of the binding.
func (p *scrRun) hostFn(mark string) interface{} {
	f := p.find(mark)
	var in, out []reflect.Type
	for _, t := range f.P {
		in = append(in, intTypes[t])
	}
	for _, t := range f.Out {
		out = append(out, intTypes[t])
	}
	if f.Shape == "variadic" {
		in = append(in, reflect.SliceOf(intTypes["int"]))
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, f.Shape == "variadic"), func(args []reflect.Value) (ret []reflect.Value) {
		var a []interface{}
		for _, x := range args {
			a = append(a, x.Interface())
		}
		p.called(mark, a...)
		for i, t := range f.Out {
			v := reflect.Zero(out[i])
			switch t {
			case "int":
				v = reflect.ValueOf(7 + i)
			case "float64":
				v = reflect.ValueOf(float64(i) + 1.5)
			case "string":
				v = reflect.ValueOf(fmt.Sprintf("r%d", i+1))
			}
			ret = append(ret, v)
		}
		return
	}).Interface()
}

// same makes a slice of ints of one that holds only ints
func same(v []interface{}) interface{} {
	out := []int{}
	for _, x := range v {
		i, ok := x.(int)
		if !ok {
			return v
		}
		out = append(out, i)
	}
	return out
}

func init() { qlang.Import("interpreter", scripted.Exports) }

func (p *scrRun) host() error {
	set := p.lang.SetVar
	set("hcall", p.called)
	set("hpush", func(v interface{}) { p.vals = append(p.vals, v) })
	set("hpop", func(n int) []interface{} {
		m := len(p.vals) - n
		if m < 0 {
			panic("stack is empty")
		}
		v := append([]interface{}{}, p.vals[m:]...)
		p.vals = p.vals[:m]
		return v
	})
	set("hsame", same)
	set("hmay", p.mayRun)
	set("hcode", p.code)
	set("hback", p.back)
	set("hrec", p.recovered)
	set("hfn", p.hostFn)
	set("htable", func(a ...interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for i := 0; i < len(a); i += 2 {
			m[a[i].(string)] = a[i+1]
		}
		return m
	})
	set("hgrammar", unlatin1(p.c.G))
	set("eng", func() interface{} { return p.eng })
	set("hbytes", func(s string) []byte { return []byte(s) })
	set("hres", func(err interface{}) {
		p.got = true
		if err != nil {
			p.res = err.(error)
		}
	})
	set("hnew", func(v []interface{}) {
		if e, ok := v[0].(*scripted.Engine); ok {
			p.eng = e
		}
		if v[1] != nil {
			p.res = v[1].(error)
		}
	})
	return p.lang.SafeExec([]byte(p.script()), "")
}

func (p *scrRun) object(name string) *qcl.Object {
	v, _ := p.lang.Var(name)
	o, _ := v.(*qcl.Object)
	return o
}

func runScript(raw []byte) (interface{}, bool) {
	var c ScrCase
	jget(raw, &c)
	o := preScript(raw)
	p := &scrRun{c: c, cnt: map[string]int{}, old: map[*tpl.Token]int{}, log: []M{}}
	yield()
	lang, err := qlang.New(qlang.InsertSemis)
	if err != nil {
		o["r"] = "nolang"
		return o, true
	}
	p.lang = lang
	if err := p.host(); err != nil {
		o["r"], o["msg"] = "noscript", err.Error()
		return o, true
	}
	p.stk = p.object("stk")
	p.ips = []*qcl.Object{p.object("ip1"), p.object("ip2"), p.object("ip3")}
	o["r"] = func() (r string) {
		defer func() {
			if e := recover(); e != nil {
				r, o["msg"] = "panic", fmt.Sprint(e)
			}
		}()
		var x interface{} = p.ips[0]
		if c.Bad == "notobject" {
			x = 5
		}
		yield()
		if c.Made == "host" {
			e, err := scripted.New(x, &scripted.Options{ScanMode: tpl.ScanMode(c.Mode)})
			if err != nil {
				return "rej"
			}
			p.eng = e
			return "ok"
		}
		opt, arg := "nil", "ip1"
		if c.Mode == int(tpl.InsertSemis) {
			opt = "interpreter.insertSemis"
		}
		if c.Bad == "notobject" {
			arg = "5"
		}
		p.res = nil
		if err := p.lang.SafeEval("hnew(interpreter.interpreter(" + arg + ", " + opt + "))"); err != nil {
			o["msg"] = err.Error()
			return "failed"
		}
		if p.res != nil {
			return "rej"
		}
		return "ok"
	}()
	if o["r"] != "ok" {
		return o, true
	}
	for i, op := range c.Ops {
		ob := o["ops"].([]M)[i]
		p.op, p.log, p.fuel = i+1, []M{}, intFuel
		yield()
		p.eval(op, ob)
		ob["log"] = p.log
		ob["ip"] = 0
		for j, ip := range p.ips {
			if p.eng.Interpreter == ip {
				ob["ip"] = j + 1
			}
		}
		if ob["r"] == "long" {
			break
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					ob["stk"] = []string{fmt.Sprint(e)}
				}
			}()
			ob["stk"] = p.stack()
		}()
	}
	return o, true
}

func (p *scrRun) eval(op ScrOp, ob M) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case rawFn:
				ob["r"], ob["msg"] = "raw", v.mark
			case tooLong:
				ob["r"] = "long"
			default:
				ob["r"], ob["msg"] = "panic", fmt.Sprint(e)
			}
		}
	}()
	src, file := unlatin1(op.Src), unlatin1(op.File)
	var err error
	if op.By == "host" {
		if op.Op == "exec" {
			err = p.eng.Exec([]byte(src), file)
		} else {
			err = p.eng.Eval(src)
		}
	} else {
		p.res, p.got = nil, false
		p.lang.SetVar("src", src)
		p.lang.SetVar("file", file)
		code := "hres(eng().eval(src))"
		if op.Op == "exec" {
			code = "hres(eng().exec(hbytes(src), file))"
		}
		if err := p.lang.Eval(code); err != nil {
			ob["r"], ob["msg"] = "script", err.Error()
			return
		}
		if !p.got {
			ob["r"] = "script"
			return
		}
		err = p.res
	}
	switch v := err.(type) {
	case nil:
		ob["r"] = "ok"
	case *tpl.TokenizeError:
		ob["r"] = "bad"
	case *tpl.MatchError:
		ob["r"] = "fail"
	default:
		ob["r"] = "rt"
		msg := v.Error()
		var root error = v
		for { // the error of the function, below what the script engine says of its own place
			if _, e, _, ok := runtimeError(root); ok {
				root = e
				continue
			}
			break
		}
		if u, ok := root.(*errFn); ok {
			msg = u.Error()
		} else {
			msg = root.Error()
		}
		ob["msg"] = latin1(msg)
		if root == tpl.ErrNoGrammar {
			ob["msg"] = "nogrammar"
		}
	}
}

func preScript(raw []byte) M {
	var c ScrCase
	jget(raw, &c)
	ops := []M{}
	for _, op := range c.Ops {
		ops = append(ops, M{"x": textInfo(unlatin1(op.Src)), "r": "", "n": 0, "msg": "", "log": []M{}, "stk": []string{}, "ip": 1})
	}
	return M{"x": textInfo(unlatin1(c.G)), "r": "", "ops": ops}
}

// ---------------------------------------------------------------------------
// generation

var scrMarks = []string{"m", "mk", "Mk", "_x", "_Y", "été", "M", "pushInt", "pInt", "_aInt", "aFloat", "_bFloat", "getSrc", "_sSrc", "withEngine", "_wEngine",
	"xInt1", "aIntB", "FloatInt", "_Int", "Src", "éInt", "aSRC", "fLOAT", "oneTwoInt", "strA", "Zz", "_z", "aSrcInt", "intFloat", "int", "src", "anEngineFloat",
	"Aa", "_A", "_Zx", "nIntA", "aIntZ", "Zed", "ArgInt", "_Az"}

func randScr(r *rand.Rand, mark, profile string) ScrFn {
	f := ScrFn{IntFn: IntFn{Mark: latin1(mark), Shape: "func", Recv: []string{"stk", "ipt", "none"}[r.Intn(3)], P: []string{}, Out: []string{}, Do: "nop", IP: 1, Mode: "ret"}}
	if profile == "mute" && f.Recv == "none" && r.Intn(3) > 0 {
		f.Recv = "stk"
	}
	if f.Recv != "none" {
		if r.Intn(4) > 0 {
			f.P = []string{"intf"}
		}
		switch r.Intn(5) {
		case 0, 1:
			f.Do = "pusharg"
		case 2:
			f.Do, f.On = "push", r.Intn(9)
		}
		if f.Do == "pusharg" && len(f.P) == 0 {
			f.Do, f.On = "push", r.Intn(9)
		}
	} else {
		ts := []string{"intf", "intf"}
		if r.Intn(2) == 0 {
			f.Go = true
			ts = []string{"int", "float64", "intf", "string", "int64", "intf"}
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			f.P = append(f.P, ts[r.Intn(len(ts))])
		}
		for k := r.Intn(3); k > 0; k-- {
			f.Out = append(f.Out, []string{"int", "float64", "string", "intf"}[r.Intn(4)])
		}
		if !f.Go && len(f.Out) > 1 {
			f.Out = f.Out[:1]
		}
	}
	if profile == "nest" && r.Intn(3) == 0 || profile != "sig" && r.Intn(12) == 0 {
		f.Do, f.How = "fail", []string{"err", "err", "str", "other"}[r.Intn(4)]
		f.On = []int{0, 1, 2, 3, 4}[r.Intn(5)]
	}
	return f
}

func badScr(r *rand.Rand, f *ScrFn) {
	switch r.Intn(6) {
	case 0:
		f.Shape = "unbound"
	case 1:
		f.Shape = "value"
	case 2:
		f.Shape = "variadic"
	case 3:
		f.Recv, f.P = "none", []string{}
	case 4:
		f.Recv, f.P, f.Go = []string{"stk", "ipt"}[r.Intn(2)], []string{"intf", "intf"}, false
	case 5:
		f.Recv, f.P, f.Go = []string{"stk", "ipt"}[r.Intn(2)], []string{"intf", "intf", "intf"}, false
	}
	f.Do = "nop"
}

func (c *ScrCase) dress(r *rand.Rand) {
	c.Stk = []string{"script", "host", "ints"}[r.Intn(3)]
	c.Made = []string{"script", "host"}[r.Intn(2)]
	c.Names = r.Intn(3) == 0
	if c.Mode != 0 && c.Mode != int(tpl.InsertSemis) {
		c.Made = "host"
	}
	for i := range c.Ops {
		if r.Intn(3) == 0 {
			c.Ops[i].By = "script"
		} else {
			c.Ops[i].By = "host"
		}
	}
}

func scrOf(op, src, file string) ScrOp {
	if op != "eval" {
		op = "exec"
	} else {
		file = ""
	}
	return ScrOp{Op: op, Src: src, File: file}
}

func genScript(r *rand.Rand, n int, profile string, emit func(interface{})) {
	switch profile {
	case "words":
		for i := 0; i < n; i++ {
			emit(wordsScript(r))
		}
		return
	case "enum":
		enumScript(r, n, emit)
		return
	}
	bads := []string{"nogrammar", "nostack", "nofntable", "grammar5", "stack5", "table5", "notobject", "boom"}
	for i := 0; i < n; {
		p := newTplGen(r, "hist")
		p.marks = nil
		for _, j := range r.Perm(len(scrMarks))[:5+r.Intn(6)] {
			p.marks = append(p.marks, scrMarks[j])
		}
		switch profile {
		case "mute":
			p.pmute, p.pmark = 5, 4
		case "sig":
			p.pmark = 4
		}
		c := ScrCase{G: latin1(layout(r, p.rules())), Ops: []ScrOp{}}
		if r.Intn(4) == 0 {
			c.Mode = r.Intn(4)
		}
		for _, m := range p.marks {
			c.Fns = append(c.Fns, randScr(r, m, profile))
		}
		if r.Intn(25) == 0 {
			c.Fns = append(c.Fns, randScr(r, []string{"_mute", "_unmute", "_tr"}[r.Intn(3)], profile))
		}
		if profile == "sig" && r.Intn(4) == 0 {
			badScr(r, &c.Fns[r.Intn(len(p.marks))])
		}
		if r.Intn(40) == 0 {
			c.G = latin1(p.broken())
		}
		if r.Intn(30) == 0 {
			c.Bad = bads[r.Intn(len(bads))]
		}
		hist := 1 + r.Intn(3)
		if profile == "mute" {
			hist = 2 + r.Intn(4)
		}
		p.lits = profile == "sig"
		for _, o := range p.ops("sem", hist) {
			if o.Op == "sub" || o.Op == "subtok" {
				continue
			}
			src := o.Src
			if r.Intn(25) == 0 {
				src += "\x00"
			}
			c.Ops = append(c.Ops, scrOf(o.Op, src, []string{"", "", "a.q", latin1("d/é.x")}[r.Intn(4)]))
		}
		if len(c.Ops) == 0 {
			continue
		}
		c.dress(r)
		i++
		emit(c)
	}
}

// wordsScript: the block language of wordsInterp with scripted functions
func wordsScript(r *rand.Rand) ScrCase {
	b := blockGrammar(r)
	c := ScrCase{G: b.G, Ops: []ScrOp{}}
	ren := map[string]string{}
	for _, f := range b.Fns {
		s := ScrFn{IntFn: f}
		s.Out = []string{}
		mark := f.Mark
		takes := len(f.P) > 0
		switch {
		case f.Do == "cap":
			mark += "Src"
		case f.Do == "run":
			mark += "Engine"
			if takes = r.Intn(2) == 0; !takes {
				s.P = []string{}
			}
		case f.Mark == "a":
			mark = []string{"a", "aInt", "aSrc", "aFloat"}[r.Intn(4)]
		case f.Mark == "f":
			mark = []string{"f", "fSrc", "fEngine"}[r.Intn(3)]
		}
		if takes {
			s.P = []string{"intf"}
		}
		ren[f.Mark] = mark
		s.Mark = mark
		c.Fns = append(c.Fns, s)
	}
	// marks stand behind a slash
	var out strings.Builder
	for i := 0; i < len(c.G); {
		j := i + 1
		if c.G[i] == '/' {
			for j < len(c.G) && (c.G[j] == '_' || c.G[j] >= 'a' && c.G[j] <= 'z' || c.G[j] >= '0' && c.G[j] <= '9') {
				j++
			}
			if m, ok := ren[c.G[i+1:j]]; ok {
				out.WriteString("/" + m)
				i = j
				continue
			}
		}
		out.WriteString(c.G[i:j])
		i = j
	}
	c.G = out.String()
	all := allBlockWords()
	for k := 1 + r.Intn(3); k > 0; k-- {
		w := all[r.Intn(len(all))]
		if r.Intn(2) == 0 {
			w = blockWord(r, 0)
		}
		c.Ops = append(c.Ops, scrOf([]string{"exec", "eval"}[r.Intn(2)], blockText(r, w), []string{"", "a.q"}[r.Intn(2)]))
	}
	c.dress(r)
	return c
}

// every kind of function under every spelling of a mark on every literal
func enumScript(r *rand.Rand, n int, emit func(interface{})) {
	lits := []string{"0", "7", "42", "0x1f", "0Xff", "017", "00", "9223372036854775807", "9223372036854775808", "1.5", ".25", "2e3", "08.5", "1e400", "12.", `"s"`, "'c'", "2i", "a", "été", "+", "0x7", "0777", "010.5", "0e0", "0x0", "100000000000"}
	bodies := []string{"*t/%s", "t/%s", "?t/%s", "t t/%s", "1/%s *t", "t%%','/%s", "*t 1/%s", "(t|1)/%s"}
	var all []ScrCase
	for _, m := range scrMarks {
		for _, rc := range []string{"stk", "ipt"} {
			for _, p := range [][]string{{}, {"intf"}} {
				for _, l := range lits {
					f := ScrFn{IntFn: IntFn{Mark: latin1(m), Shape: "func", Recv: rc, P: p, Out: []string{}, Do: "pusharg", IP: 1, Mode: "ret"}}
					k := 1
					if r.Intn(3) == 0 {
						k = 2 + r.Intn(2)
					}
					if len(p) == 0 {
						f.Do, f.On = "push", 3
					}
					b := bodies[r.Intn(len(bodies))]
					if r.Intn(2) == 0 {
						b = bodies[1]
					}
					c := ScrCase{G: latin1("doc = " + fmt.Sprintf(b, m) + "; t = INT | FLOAT | STRING | CHAR | IMAG | IDENT | '+';"), Fns: []ScrFn{f}}
					src := strings.Repeat(l+" ", k)
					c.Ops = []ScrOp{{Op: "exec", Src: latin1(src), File: []string{"", "f"}[r.Intn(2)]}, {Op: "eval", Src: latin1("\n" + src)}}
					all = append(all, c)
				}
			}
		}
	}
	vals := []ScrFn{}
	for _, t := range []string{"vInt", "vFloat", "v", "vNil"} {
		f := ScrFn{IntFn: IntFn{Mark: t, Shape: "func", Recv: "stk", P: []string{"intf"}, Out: []string{}, Do: "pusharg", IP: 1, Mode: "ret"}}
		if t == "vNil" {
			f.Mark = "vSrc"
		}
		vals = append(vals, f)
	}
	ts := []string{"int", "int64", "float64", "string", "intf", "uint8"}
	for _, a := range ts {
		for _, b := range append([]string{""}, ts...) {
			for _, v := range vals {
				for _, w := range vals {
					for _, host := range []bool{true, false} {
						f := ScrFn{IntFn: IntFn{Mark: "fn", Shape: "func", Recv: "none", P: []string{a}, Out: []string{}, Do: "nop", IP: 1, Mode: "ret"}, Go: host}
						if b != "" {
							f.P = append(f.P, b)
						}
						if !host {
							for j := range f.P {
								f.P[j] = "intf"
							}
						}
						for k := r.Intn(4); k > 0 && (host || len(f.Out) == 0); k-- {
							f.Out = append(f.Out, []string{"int", "float64", "string", "intf"}[r.Intn(4)])
						}
						c := ScrCase{G: "doc = INT/" + v.Mark + " INT/" + w.Mark + " INT/fn ?(INT/fn);", Fns: []ScrFn{v, w, f}}
						if v.Mark == w.Mark {
							c.Fns = []ScrFn{v, f}
						}
						c.Ops = []ScrOp{{Op: "eval", Src: "5 6 7" + []string{"", " 8"}[r.Intn(2)]}}
						all = append(all, c)
					}
				}
			}
		}
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for i := 0; i < n && i < len(all); i++ {
		all[i].dress(r)
		emit(all[i])
	}
}

func init() {
	suites["script"] = suite{gen: genScript, run: runScript, pre: preScript}
}
