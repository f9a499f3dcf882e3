package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	engine "github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/interpreter.util"
)

// IntFn binds a mark to a function; see spec/Interp.tla.
type IntFn struct {
	Mark  string   `json:"mark"`
	Shape string   `json:"shape"` // func, unbound, value, variadic
	Recv  string   `json:"recv"`  // stk, ipt, none
	P     []string `json:"p"`
	Out   []string `json:"out"`
	Do    string   `json:"do"`  // nop, push, pusharg, cap, run, fail
	How   string   `json:"how"` // fail: err, str, other; run: "", nocode
	On    int      `json:"on"`  // fail: at which call (0: any); push: the value
	Rule  string   `json:"rule"`
	Cap   int      `json:"cap"`
	IP    int      `json:"ip"`
	Mode  string   `json:"mode"` // ret, drop, recover
}

// IntOp is an evaluation.
type IntOp struct {
	Op   string `json:"op"` // match, exact, eval, sub
	Name string `json:"name"`
	Src  string `json:"src"`
	File string `json:"file"`
}

// IntCase is a grammar, a function table and a history on one engine.
type IntCase struct {
	G      string  `json:"g"`
	Mode   int     `json:"mode"`
	Fns    []IntFn `json:"fns"`
	CallFn bool    `json:"callfn"`
	Perr   bool    `json:"perr"` // the stack refuses more than one result
	Ops    []IntOp `json:"ops"`
}

const intFuel, intLogMax = 5, 120

// ---------------------------------------------------------------------------
// execution

type intStk struct {
	v    []interface{}
	perr bool
}

func (p *intStk) PopArgs(n int) (args []reflect.Value, ok bool) {
	m := len(p.v) - n
	if m < 0 {
		return nil, false
	}
	for _, v := range p.v[m:] {
		args = append(args, reflect.ValueOf(v))
	}
	p.v = p.v[:m]
	return args, true
}

func (p *intStk) PushRet(ret []reflect.Value) error {
	if p.perr && len(ret) > 1 {
		return errors.New("one result")
	}
	for _, v := range ret {
		p.v = append(p.v, v.Interface())
	}
	return nil
}

type intIpt struct {
	id  int
	run *intRun
}

func (p *intIpt) Grammar() string                 { return p.run.grammar }
func (p *intIpt) Stack() interpreter.Stack        { return p.run.stk }
func (p *intIpt) Fntable() map[string]interface{} { return p.run.table }

type intIptFn struct{ intIpt }

func (p *intIptFn) CallFn(fn interface{}) {
	p.run.note("callfn", "", "")
	if err := interpreter.Call(p.run.stk, fn, reflect.TypeOf(fn).NumIn()); err != nil {
		panic("call: " + err.Error())
	}
}

// anyEngine is an engine of tpl/interpreter or a generated one.
type anyEngine interface {
	interpreter.Engine
	Match(src []byte, fname string) ([]tpl.Token, error)
	MatchExactly(src []byte, fname string) error
	Eval(expr string) error
	EvalSub(name string, src interface{}) error
	Tokener() tpl.Tokener
}

// ownInterpreter is the field Interpreter of an engine.
func ownInterpreter(e anyEngine) interface{} {
	return reflect.ValueOf(e).Elem().FieldByName("Interpreter").Interface()
}

// runtimeError takes a RuntimeError of tpl/interpreter or of a generated interpreter apart.
func runtimeError(e interface{}) (self, err error, src []tpl.Token, ok bool) {
	if self, ok = e.(error); !ok {
		return
	}
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Ptr || v.Type().Elem().Name() != "RuntimeError" {
		return nil, nil, nil, false
	}
	err = v.Elem().FieldByName("Err").Interface().(error)
	src = v.Elem().FieldByName("Src").Interface().([]tpl.Token)
	return
}

type intRun struct {
	grammar string
	stk     *intStk
	table   map[string]interface{}
	eng     anyEngine
	ips     []interpreter.Interface
	log     []M
	caps    []interface{}
	cnt     map[string]int
	fuel    int
	op      int
	old     map[*tpl.Token]int // captured tokens: the evaluation they come from
}

func (p *intRun) note(e, f, r string, a ...string) {
	if a == nil {
		a = []string{}
	}
	if len(p.log) > intLogMax {
		panic(tooLong{})
	}
	p.log = append(p.log, M{"e": e, "f": f, "r": r, "a": a})
	yield()
}

var intTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(0), "int64": reflect.TypeOf(int64(0)), "float64": reflect.TypeOf(0.0), "string": reflect.TypeOf(""),
	"uint8": reflect.TypeOf(uint8(0)), "bool": reflect.TypeOf(false), "ctx": reflect.TypeOf((*interpreter.Context)(nil)),
	"intf": reflect.TypeOf((*interface{})(nil)).Elem(), "eng": reflect.TypeOf((*interpreter.Engine)(nil)).Elem(),
	"error": reflect.TypeOf((*error)(nil)).Elem(), "stk": reflect.TypeOf((*intStk)(nil)),
}

func (p *intRun) isOld(toks []tpl.Token) bool {
	g, ok := p.old[&toks[0]]
	return ok && g != p.op
}

func place(f interpreter.FileLine) string {
	if f.File == "" {
		return fmt.Sprintf("line %d", f.Line)
	}
	return fmt.Sprintf("%s:%d", f.File, f.Line)
}

func (p *intRun) tokens(e interpreter.Engine, toks []tpl.Token) string {
	if p.isOld(toks) {
		return fmt.Sprintf("?+%d", len(toks))
	}
	off := p.eng.Tokener().Source().File.Offset(toks[0].Pos)
	return fmt.Sprintf("%d+%d@%s|%s", off, len(toks), latin1(place(e.FileLine(toks))), latin1(string(e.Source(toks))))
}

func (p *intRun) ctx(c *interpreter.Context) string {
	bad := ""
	if c.Engine != interpreter.Engine(p.eng) {
		bad = "!engine"
	}
	toks := c.Src.([]tpl.Token)
	if len(toks) == 0 {
		if f := c.Engine.FileLine(c.Src); f.File != "" || f.Line != 0 || len(c.Engine.Source(c.Src)) != 0 || c.Pos != 0 || c.End != 0 {
			bad += "!empty"
		}
		return "C0" + bad
	}
	if c.Pos != toks[0].Pos {
		bad += "!pos"
	}
	if p.isOld(toks) {
		return "C" + p.tokens(c.Engine, toks) + bad
	}
	end := p.eng.Tokener().Source().File.Offset(toks[0].Pos) + int(c.End-c.Pos)
	return fmt.Sprintf("C-%d:%s%s", end, p.tokens(c.Engine, toks), bad)
}

func thousandth(v float64) string {
	s := strconv.FormatFloat(v*1000, 'f', 0, 64)
	if len(s) > 12 {
		return "big"
	}
	return s
}

func (p *intRun) show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case int:
		return "i" + strconv.Itoa(x)
	case int64:
		return "l" + strconv.FormatInt(x, 10)
	case float64:
		return "f" + thousandth(x)
	case string:
		return "s" + latin1(x)
	case []tpl.Token:
		if len(x) == 0 {
			return "T0"
		}
		return "T" + p.tokens(p.eng, x)
	case *interpreter.Context:
		return p.ctx(x)
	case anyEngine:
		if x != p.eng {
			return "E!"
		}
		return "E"
	case *intStk:
		if x != p.stk {
			return "stk!"
		}
		return "stk"
	case *intIpt:
		return "ip" + strconv.Itoa(x.id)
	case *intIptFn:
		return "ip" + strconv.Itoa(x.id)
	}
	return fmt.Sprintf("%T", v)
}

func (p *intRun) capture(toks []tpl.Token, v interface{}) {
	for i := range toks {
		if _, ok := p.old[&toks[i]]; !ok {
			p.old[&toks[i]] = p.op
		}
	}
	p.caps = append(p.caps, v)
}

type errFn struct{ mark string }

func (e *errFn) Error() string { return "E" + e.mark }

type rawFn struct{ mark string }

func (p *intRun) fn(f *IntFn, iptType reflect.Type) interface{} {
	if f.Shape == "value" {
		return 17
	}
	var in, out []reflect.Type
	off := 0
	switch f.Recv {
	case "stk":
		in, off = append(in, intTypes["stk"]), 1
	case "ipt":
		in, off = append(in, iptType), 1
	}
	for _, t := range f.P {
		if t == "ipt" {
			in = append(in, iptType)
		} else {
			in = append(in, intTypes[t])
		}
	}
	for _, t := range f.Out {
		out = append(out, intTypes[t])
	}
	if f.Shape == "variadic" {
		in = append(in, reflect.SliceOf(intTypes["int"]))
	}
	ft := reflect.FuncOf(in, out, f.Shape == "variadic")
	mark := unlatin1(f.Mark)
	return reflect.MakeFunc(ft, func(args []reflect.Value) (ret []reflect.Value) {
		recv, shown := "none", []string{}
		for i, a := range args {
			if i < off {
				recv = p.show(a.Interface())
			} else {
				shown = append(shown, p.show(a.Interface()))
			}
		}
		p.note("call", f.Mark, recv, shown...)
		p.cnt[mark]++
		for i, t := range f.Out {
			v := reflect.Zero(out[i])
			switch t {
			case "int":
				v = reflect.ValueOf(7 + i)
			case "float64":
				v = reflect.ValueOf(float64(i) + 1.5)
			case "string":
				v = reflect.ValueOf(fmt.Sprintf("r%d", i+1))
			}
			ret = append(ret, v)
		}
		var res error
		switch f.Do {
		case "push":
			p.stk.v = append(p.stk.v, f.On)
		case "pusharg":
			var v interface{}
			if len(args) > off {
				v = args[off].Interface()
				switch v.(type) {
				case int, int64, float64, string:
				default:
					v = nil
				}
			}
			p.stk.v = append(p.stk.v, v)
		case "cap":
			var v interface{}
			if len(args) > off {
				v = args[off].Interface()
			}
			if c, ok := v.(*interpreter.Context); ok {
				v = c.Src
			}
			toks, _ := v.([]tpl.Token)
			if toks == nil {
				toks = []tpl.Token{}
			}
			p.capture(toks, toks)
		case "fail":
			if f.On != 0 && f.On != p.cnt[mark] {
				break
			}
			switch f.How {
			case "other":
				panic(rawFn{f.Mark})
			case "str":
				panic("E" + mark)
			default:
				res = &errFn{mark}
			}
		case "run":
			if p.fuel > 0 && len(p.caps) > 0 {
				p.fuel--
				res = p.evalCode(f, args[off:])
			}
		}
		if res != nil {
			if len(f.Out) == 1 && f.Out[0] == "error" {
				return []reflect.Value{reflect.ValueOf(&res).Elem()}
			}
			panic(res)
		}
		return
	}).Interface()
}

func (p *intRun) evalCode(f *IntFn, args []reflect.Value) (err error) {
	var e interpreter.Engine = p.eng
	for _, a := range args {
		switch v := a.Interface().(type) {
		case *interpreter.Context:
			e = v.Engine
		case interpreter.Engine:
			e = v
		}
	}
	c := p.caps[len(p.caps)-1-f.Cap%len(p.caps)]
	if f.How == "nocode" {
		c = nil
	}
	if f.Mode == "recover" {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(tooLong); ok {
					panic(v)
				}
				p.note("back", f.Mark, "", "panic")
				err = nil
			}
		}()
	}
	err = e.EvalCode(p.ips[f.IP-1], unlatin1(f.Rule), c)
	r := "ok"
	if err != nil {
		r = "other"
		if err == tpl.ErrNoGrammar {
			r = "nogrammar"
		} else if _, ok := err.(*tpl.MatchError); ok {
			r = "fail"
		}
		if f.Mode == "ret" {
			return err
		}
	}
	p.note("back", f.Mark, "", r)
	return nil
}

func preInterp(raw []byte) M {
	var c IntCase
	jget(raw, &c)
	ops := []M{}
	for _, op := range c.Ops {
		ops = append(ops, M{"x": textInfo(unlatin1(op.Src)), "r": "", "n": 0, "msg": "", "place": "", "log": []M{}, "stk": []string{}, "ip": 1})
	}
	return M{"x": textInfo(unlatin1(c.G)), "r": "", "ops": ops}
}

func runInterp(raw []byte) (interface{}, bool) {
	var c IntCase
	jget(raw, &c)
	return runInterpWith(raw, c, func(ipt interpreter.Interface) (anyEngine, error) {
		return engine.New(ipt, &engine.Options{ScanMode: tpl.ScanMode(c.Mode)})
	})
}

func runInterpWith(raw []byte, c IntCase, create func(ipt interpreter.Interface) (anyEngine, error)) (interface{}, bool) {
	o := preInterp(raw)
	p := &intRun{grammar: unlatin1(c.G), stk: &intStk{perr: c.Perr}, table: map[string]interface{}{}, cnt: map[string]int{},
		old: map[*tpl.Token]int{}, log: []M{}}
	for k := 1; k <= 3; k++ {
		if c.CallFn {
			p.ips = append(p.ips, &intIptFn{intIpt{k, p}})
		} else {
			p.ips = append(p.ips, &intIpt{k, p})
		}
	}
	for i := range c.Fns {
		if f := &c.Fns[i]; f.Shape != "unbound" {
			p.table["$"+unlatin1(f.Mark)] = p.fn(f, reflect.TypeOf(p.ips[0]))
		}
	}
	o["r"] = func() (r string) {
		defer func() {
			if e := recover(); e != nil {
				r = "rej"
			}
		}()
		yield()
		e, err := create(p.ips[0])
		if err == errNotBuilt {
			return "nobuild"
		}
		if err != nil {
			return "rej"
		}
		p.eng = e
		return "ok"
	}()
	if o["r"] != "ok" {
		return o, true
	}
	for i, op := range c.Ops {
		ob := o["ops"].([]M)[i]
		p.op, p.log, p.fuel = i+1, []M{}, intFuel
		yield()
		p.eval(op, ob)
		ob["log"] = p.log
		stk := []string{}
		for _, v := range p.stk.v {
			stk = append(stk, p.show(v))
		}
		ob["stk"] = stk
		ob["ip"] = 0
		for j, ip := range p.ips {
			if ownInterpreter(p.eng) == interface{}(ip) {
				ob["ip"] = j + 1
			}
		}
		if ob["r"] == "long" {
			break
		}
	}
	return o, true
}

func (p *intRun) eval(op IntOp, ob M) {
	src := unlatin1(op.Src)
	defer func() {
		if e := recover(); e != nil {
			if self, cause, src, ok := runtimeError(e); ok {
				ob["r"] = "rt"
				msg := cause.Error()
				ob["msg"] = latin1(msg)
				if u, ok := cause.(*errFn); ok && u.Error() != msg {
					ob["msg"] = "not the error"
				}
				if len(src) > 0 && p.isOld(src) {
					ob["place"] = "?"
					ob["oldplace"] = func() (s string) {
						defer func() {
							if recover() != nil {
								s = "panic"
							}
						}()
						return latin1(strings.TrimSuffix(self.Error(), ": runtime error: "+msg))
					}()
				} else {
					full := self.Error()
					if !strings.HasSuffix(full, ": runtime error: "+msg) {
						full = "malformed"
					}
					ob["place"] = latin1(strings.TrimSuffix(full, ": runtime error: "+msg))
				}
				return
			}
			switch v := e.(type) {
			case *tpl.MatchError:
				ob["r"] = "abort"
			case rawFn:
				ob["r"], ob["msg"] = "raw", v.mark
			case tooLong:
				ob["r"] = "long"
			default:
				ob["r"], ob["msg"] = "panic", fmt.Sprint(e)
			}
		}
	}()
	var err error
	switch op.Op {
	case "match":
		var next []tpl.Token
		next, err = p.eng.Match([]byte(src), unlatin1(op.File))
		if err == nil {
			ob["n"] = len(next)
		}
	case "exact":
		err = p.eng.MatchExactly([]byte(src), unlatin1(op.File))
	case "eval":
		err = p.eng.Eval(src)
	case "sub":
		var in interface{} = src
		if len(src)%2 == 0 {
			in = []byte(src)
		}
		err = p.eng.EvalSub(unlatin1(op.Name), in)
	}
	switch err.(type) {
	case nil:
		ob["r"] = "ok"
	case *tpl.TokenizeError:
		ob["r"] = "bad"
	case *tpl.MatchError:
		ob["r"] = "fail"
	default:
		ob["r"] = "error"
		if err == tpl.ErrNoGrammar {
			ob["r"] = "nogrammar"
		}
	}
}

// ---------------------------------------------------------------------------
// generation

var intMarks = []string{"m", "mk", "Mk", "_x", "_Y", "été", "Été", "M", "z_", "_z", "Zz", "Aa", "_Z", "_A1", "a", "__", "_é", "N_", "_B_"}
var p2Types = []string{"int", "int", "int64", "float64", "string", "ctx", "intf", "intf", "eng", "uint8"}

// a binding that goes with its mark most of the time
func randFn(r *rand.Rand, mark, profile string) IntFn {
	f := IntFn{Mark: latin1(mark), Shape: "func", Recv: []string{"stk", "ipt", "none"}[r.Intn(3)], P: []string{}, Out: []string{}, Do: "nop", IP: 1, Mode: "ret"}
	if profile == "mute" && f.Recv == "none" && r.Intn(3) > 0 {
		f.Recv = "stk"
	}
	long := strings.ContainsAny(strings.TrimPrefix(mark, "_")[:1], "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	if f.Recv != "none" {
		if r.Intn(4) > 0 {
			t := p2Types[r.Intn(len(p2Types))]
			if profile != "sig" && t == "uint8" {
				t = "intf"
			}
			if profile == "mute" || profile == "nest" {
				t = []string{"intf", "ctx", "eng"}[r.Intn(3)]
			}
			if long && r.Intn(8) > 0 {
				t = "int"
			}
			f.P = append(f.P, t)
			if r.Intn(3) == 0 {
				f.P = append(f.P, "ctx")
			}
		}
		if r.Intn(3) == 0 {
			f.Out = []string{"error"}
		}
		switch r.Intn(5) {
		case 0, 1:
			f.Do = "pusharg"
		case 2:
			f.Do, f.On = "push", r.Intn(9)
		}
		if f.Do == "pusharg" && (len(f.P) == 0 || f.P[0] == "ctx" || f.P[0] == "intf" || f.P[0] == "eng") {
			f.Do, f.On = "push", r.Intn(9)
		}
	} else {
		ts := []string{"int", "float64", "intf", "string", "int64", "intf"}
		for k := 1 + r.Intn(3); k > 0; k-- {
			f.P = append(f.P, ts[r.Intn(len(ts))])
		}
		for k := r.Intn(3); k > 0; k-- {
			f.Out = append(f.Out, []string{"int", "float64", "string", "intf"}[r.Intn(4)])
		}
	}
	if profile == "nest" && r.Intn(3) == 0 || profile != "sig" && r.Intn(12) == 0 {
		f.Do, f.How = "fail", []string{"err", "err", "str", "other"}[r.Intn(4)]
		f.On = []int{0, 1, 2, 3, 4}[r.Intn(5)]
	}
	return f
}

func badShape(r *rand.Rand, f *IntFn) {
	switch r.Intn(8) {
	case 0:
		f.Shape = "unbound"
	case 1:
		f.Shape = "value"
	case 2:
		f.Shape = "variadic"
	case 3:
		f.Recv, f.P = "none", []string{}
	case 4:
		f.Recv, f.P = []string{"stk", "ipt"}[r.Intn(2)], []string{"ctx", "ctx", "ctx"}
	case 5:
		f.Recv, f.Out = []string{"stk", "ipt"}[r.Intn(2)], []string{"error", "error"}
		f.P = []string{}
	case 6:
		f.Recv, f.Out = []string{"stk", "ipt"}[r.Intn(2)], []string{[]string{"int", "intf", "string"}[r.Intn(3)]}
		f.P = []string{}
	case 7: // refused only when called
		f.Recv, f.P = []string{"stk", "ipt"}[r.Intn(2)], []string{"ctx", []string{"intf", "int", "eng"}[r.Intn(3)]}
	}
	f.Do = "nop"
}

func genInterp(r *rand.Rand, n int, profile string, emit func(interface{})) {
	if profile == "enum" {
		enumInterp(r, n, emit)
		return
	}
	if profile == "words" {
		wordsInterp(r, n, emit)
		return
	}
	for i := 0; i < n; {
		p := newTplGen(r, "hist")
		p.marks = nil
		for _, j := range r.Perm(len(intMarks))[:5+r.Intn(5)] {
			p.marks = append(p.marks, intMarks[j])
		}
		switch profile {
		case "mute":
			p.pmute, p.pmark = 5, 4
		case "nest":
			p.pcap, p.pmark = 2, 3
			if r.Intn(2) == 0 {
				p.pmute = 9
			}
		}
		c := IntCase{G: latin1(layout(r, p.rules())), Ops: []IntOp{}, CallFn: r.Intn(6) == 0, Perr: r.Intn(12) == 0}
		if r.Intn(4) == 0 {
			c.Mode = r.Intn(4)
		}
		for _, m := range p.marks {
			c.Fns = append(c.Fns, randFn(r, m, profile))
		}
		for j, nm := range p.capped {
			early := strings.Contains(c.G, fmt.Sprintf("_run%d", j))
			cap := IntFn{Mark: fmt.Sprintf("cap%d", j), Shape: "func", Recv: []string{"stk", "ipt"}[r.Intn(2)], P: []string{[]string{"intf", "ctx"}[r.Intn(2)]}, Out: []string{}, Do: "cap", IP: 1, Mode: "ret"}
			run := IntFn{Mark: fmt.Sprintf("run%d", j), Shape: "func", Recv: []string{"stk", "ipt"}[r.Intn(2)], P: []string{[]string{"eng", "ctx"}[r.Intn(2)]}, Out: []string{}, Do: "run", IP: 1 + r.Intn(3), Rule: latin1(nm), Mode: []string{"ret", "ret", "drop", "recover", "recover"}[r.Intn(5)]}
			if early {
				run.Mark = "_" + run.Mark
			}
			if r.Intn(6) == 0 {
				run.Cap = r.Intn(4)
			}
			if r.Intn(25) == 0 {
				run.Rule = "nosuch"
			} else if r.Intn(25) == 0 {
				run.How = "nocode"
			}
			if r.Intn(2) == 0 {
				run.Out = []string{"error"}
			}
			c.Fns = append(c.Fns, cap, run)
		}
		if r.Intn(25) == 0 {
			f := randFn(r, []string{"_mute", "_unmute", "_tr"}[r.Intn(3)], profile)
			c.Fns = append(c.Fns, f)
		}
		if profile == "sig" && r.Intn(4) == 0 {
			badShape(r, &c.Fns[r.Intn(len(p.marks))])
		}
		if r.Intn(60) == 0 {
			c.G = latin1(p.broken())
		}
		hist := 1 + r.Intn(3)
		if profile == "mute" {
			hist = 2 + r.Intn(4)
		}
		p.lits = profile == "sig"
		for _, o := range p.ops("sem", hist) {
			op := IntOp{Op: o.Op, Name: o.Name, Src: o.Src, File: []string{"", "", "a.q", latin1("d/é.x")}[r.Intn(4)]}
			if op.Op == "subtok" {
				op.Op = "sub"
			}
			if op.Op == "sub" && r.Intn(15) == 0 {
				op.Name = "nosuch"
			}
			if r.Intn(25) == 0 {
				op.Src += "\x00"
			}
			c.Ops = append(c.Ops, op)
		}
		if len(c.Ops) == 0 {
			continue
		}
		i++
		emit(c)
	}
}

// every signature with every spelling of the mark on every kind of match
func enumInterp(r *rand.Rand, n int, emit func(interface{})) {
	marks := []string{"m", "Mm", "_m", "_Mm", "Zm", "_Am"}
	recvs := []string{"stk", "ipt"}
	p2 := []string{"", "int", "int64", "float64", "string", "uint8", "ctx", "intf", "eng"}
	lits := []string{"0", "7", "42", "0x1f", "0Xff", "017", "00", "9223372036854775807", "9223372036854775808", "1.5", ".25", "2e3", "08.5", "1e400", "12.", `"s"`, "'c'", "2i", "a", "été", "+", "0x7", "0777", "010.5", "0e0", "0x0", "100000000000"}
	bodies := []string{"*t/%s", "t/%s", "?t/%s", "t t/%s", "1/%s *t", "t%%','/%s", "*t 1/%s", "(t|1)/%s"}
	var all []IntCase
	for _, m := range marks {
		for _, rc := range recvs {
			for _, p := range p2 {
				for p3 := 0; p3 < 3; p3++ {
					for _, out := range [][]string{{}, {"error"}} {
						f := IntFn{Mark: m, Shape: "func", Recv: rc, P: []string{}, Out: out, Do: "pusharg", IP: 1, Mode: "ret"}
						if p != "" {
							f.P = append(f.P, p)
						} else {
							f.Do, f.On = "push", 3
							if p3 > 0 {
								continue
							}
						}
						if p3 == 1 {
							f.P = append(f.P, "ctx")
						} else if p3 == 2 {
							if len(out) > 0 {
								continue
							}
							f.P = append(f.P, []string{"intf", "int", "eng", "string"}[r.Intn(4)])
						}
						for _, l := range lits {
							k := 1
							if r.Intn(3) == 0 {
								k = 2 + r.Intn(2)
							}
							src := strings.Repeat(l+" ", k)
							b := bodies[r.Intn(len(bodies))]
							if r.Intn(2) == 0 {
								b = bodies[1]
							}
							c := IntCase{G: "doc = " + fmt.Sprintf(b, m) + "; t = INT | FLOAT | STRING | CHAR | IMAG | IDENT | '+';", Fns: []IntFn{f}, CallFn: r.Intn(8) == 0}
							c.Ops = []IntOp{{Op: "match", Src: latin1(src), File: []string{"", "f"}[r.Intn(2)]}, {Op: "match", Src: latin1("\n" + src)}}
							all = append(all, c)
						}
					}
				}
			}
		}
	}
	// operands: every pair of values for every pair of parameter types
	vals := []IntFn{}
	for _, t := range []string{"int", "int64", "float64", "string"} {
		vals = append(vals, IntFn{Mark: "v" + t, Shape: "func", Recv: "stk", P: []string{t}, Out: []string{}, Do: "pusharg", IP: 1, Mode: "ret"})
	}
	vals = append(vals, IntFn{Mark: "vnil", Shape: "func", Recv: "stk", P: []string{}, Out: []string{}, Do: "pusharg", IP: 1, Mode: "ret"})
	ts := []string{"int", "int64", "float64", "string", "intf", "uint8"}
	for _, a := range ts {
		for _, b := range append([]string{""}, ts...) {
			for _, v := range vals {
				for _, w := range vals {
					f := IntFn{Mark: "fn", Shape: "func", Recv: "none", P: []string{a}, Out: []string{}, Do: "nop", IP: 1, Mode: "ret"}
					if b != "" {
						f.P = append(f.P, b)
					}
					for k := r.Intn(4); k > 0; k-- {
						f.Out = append(f.Out, []string{"int", "float64", "string", "intf"}[r.Intn(4)])
					}
					c := IntCase{G: "doc = INT/" + v.Mark + " INT/" + w.Mark + " INT/fn ?(INT/fn);", Fns: []IntFn{v, w, f}, CallFn: r.Intn(3) == 0, Perr: r.Intn(5) == 0}
					if v.Mark == w.Mark {
						c.Fns = []IntFn{v, f}
					}
					c.Ops = []IntOp{{Op: "eval", Src: "5 6 7" + []string{"", " 8"}[r.Intn(2)]}}
					all = append(all, c)
				}
			}
		}
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for i := 0; i < n && i < len(all); i++ {
		emit(all[i])
	}
}

var brackets = []string{"()", "[]", "{}", "<>"}

// blockGrammar: a language of items and bracketed code that is captured and evaluated at its end
func blockGrammar(r *rand.Rand) IntCase {
	c := IntCase{Ops: []IntOp{}, Perr: false, CallFn: r.Intn(8) == 0}
	recv := func() string { return []string{"stk", "ipt"}[r.Intn(2)] }
	c.Fns = append(c.Fns,
		IntFn{Mark: "a", Shape: "func", Recv: "ipt", P: []string{[]string{"intf", "int", "ctx"}[r.Intn(3)]}, Out: []string{}, Do: "nop", IP: 1, Mode: "ret"},
		IntFn{Mark: "f", Shape: "func", Recv: recv(), P: []string{[]string{"intf", "ctx"}[r.Intn(2)]}, Out: [][]string{{}, {"error"}}[r.Intn(2)], Do: "fail", How: []string{"err", "err", "str", "other"}[r.Intn(4)], On: r.Intn(4), IP: 1, Mode: "ret"},
		IntFn{Mark: "_s", Shape: "func", Recv: recv(), P: []string{"string"}, Out: []string{}, Do: "nop", IP: 1, Mode: "ret"},
		IntFn{Mark: "h", Shape: "func", Recv: "ipt", P: []string{"intf"}, Out: []string{}, Do: "nop", IP: 1, Mode: "ret"})
	g := "doc = +item;\nitems = *item;\nleave = *item 1/_mute;\nlower = 1/_unmute *item;\nitem = INT/a | (IDENT/f % '.')/h | STRING/_s | '+'! '+'/a | ('=' IDENT INT)/f"
	for j := 0; j < 3; j++ {
		m := []string{"ret", "ret", "drop", "recover", "recover"}[r.Intn(5)]
		rule := []string{"items", "items", "items", "leave", "leave", "lower", "item", "doc", "nosuch"}[r.Intn(9)]
		body := fmt.Sprintf("items/cap%d", j)
		switch r.Intn(5) {
		case 0, 1, 2:
			body = fmt.Sprintf("1/_mute items/_cap%d 1/_unmute", j)
		case 3:
			body = fmt.Sprintf("(1/_mute items 1/_unmute)/cap%d", j)
		}
		mark := fmt.Sprintf("cap%d", j)
		if strings.Contains(body, "_cap") {
			mark = "_" + mark
		}
		end := []string{"", "/h"}[r.Intn(2)]
		rmark := fmt.Sprintf("run%d", j)
		switch r.Intn(5) {
		case 0:
			g += fmt.Sprintf(" | ('%c' %s 1/%s '%c')%s", brackets[j][0], body, rmark, brackets[j][1], end)
		case 1: // run while muted
			rmark = "_" + rmark
			g += fmt.Sprintf(" | ('%c' %s 1/_mute 1/%s '%c'/h 1/_unmute)%s", brackets[j][0], body, rmark, brackets[j][1], end)
		default:
			g += fmt.Sprintf(" | ('%c' %s '%c'/%s)%s", brackets[j][0], body, brackets[j][1], rmark, end)
		}
		run := IntFn{Mark: rmark, Shape: "func", Recv: recv(), P: []string{[]string{"eng", "ctx"}[r.Intn(2)]}, Out: [][]string{{}, {"error"}}[r.Intn(2)], Do: "run", IP: 1 + r.Intn(3), Rule: rule, Mode: m}
		if r.Intn(8) == 0 {
			run.Cap = 1 + r.Intn(2)
		}
		c.Fns = append(c.Fns, IntFn{Mark: mark, Shape: "func", Recv: recv(), P: []string{[]string{"intf", "ctx"}[r.Intn(2)]}, Out: []string{}, Do: "cap", IP: 1, Mode: "ret"}, run)
	}
	c.G = g + ";\n"
	return c
}

var blockWords [][]string

// all words of up to six items and brackets
func allBlockWords() [][]string {
	if blockWords != nil {
		return blockWords
	}
	var walk func(w []string, open string)
	walk = func(w []string, open string) {
		if open == "" && len(w) > 0 {
			blockWords = append(blockWords, append([]string{}, w...))
		}
		if len(w)+len(open) >= 6 {
			return
		}
		for _, t := range []string{"1", "f", "s"} {
			walk(append(w, t), open)
		}
		for _, b := range brackets[:2] {
			if len(w)+len(open) < 5 {
				walk(append(w, b[:1]), b[1:]+open)
			}
		}
		if open != "" {
			walk(append(w, open[:1]), open[1:])
		}
	}
	walk(nil, "")
	return blockWords
}

func blockText(r *rand.Rand, w []string) string {
	out := ""
	for i, t := range w {
		switch t {
		case "1":
			t = strconv.Itoa(i + 1)
		case "f":
			t = fmt.Sprintf("f%d", i)
		case "s":
			t = fmt.Sprintf("\"s%d\"", i)
		}
		out += t + []string{" ", "\n", "", " /* */ "}[r.Intn(4)]
		if !strings.ContainsAny(out[len(out)-1:], " \n") && i+1 < len(w) {
			out += " "
		}
	}
	return latin1(out)
}

func blockWord(r *rand.Rand, depth int) (w []string) {
	for k := r.Intn(4); k > 0 || depth == 0 && len(w) == 0; k-- {
		switch x := r.Intn(9); {
		case x < 2:
			w = append(w, "1")
		case x < 4:
			w = append(w, "f")
		case x == 4:
			w = append(w, "s")
		case x == 4+r.Intn(9):
			w = append(w, "=", "f", "1")
		case x == 5 && r.Intn(3) == 0:
			w = append(w, "+", []string{"+", "1"}[r.Intn(2)])
		case depth < 4:
			b := brackets[r.Intn(3)]
			w = append(append(append(w, b[:1]), blockWord(r, depth+1)...), b[1:])
		}
		if len(w) > 14 {
			return
		}
	}
	return
}

func wordsInterp(r *rand.Rand, n int, emit func(interface{})) {
	all := allBlockWords()
	for i := 0; i < n; i++ {
		c := blockGrammar(r)
		for k := 1 + r.Intn(3); k > 0; k-- {
			w := all[r.Intn(len(all))]
			if r.Intn(2) == 0 {
				w = blockWord(r, 0)
			}
			op := IntOp{Op: []string{"match", "exact", "eval", "sub"}[r.Intn(4)], Name: []string{"items", "doc"}[r.Intn(2)], Src: blockText(r, w), File: []string{"", "a.q"}[r.Intn(2)]}
			c.Ops = append(c.Ops, op)
		}
		emit(c)
	}
}

func init() {
	suites["interp"] = suite{gen: genInterp, run: runInterp, pre: preInterp}
}
