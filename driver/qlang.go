package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	qspec "github.com/qiniu/text/tpl/qlang/spec"
)

// QOp is a step of the host: an evaluation or a variable it sets, on one of two engines.
type QOp struct {
	Op   string   `json:"op"` // eval, set
	G    int      `json:"g"`
	Doc  int      `json:"doc"`
	W    []string `json:"w"`   // the words of the program
	Src  string   `json:"src"` // its text
	Name []int    `json:"name"`
	V    M        `json:"v"`
	Lex  bool     `json:"lex"` // the text cannot be tokenized
}

// QCase is a history on one or two script engines. The programs are given as a table of nodes.
type QCase struct {
	Semis bool  `json:"semis"`
	Exit  bool  `json:"exit"` // a program may end the process
	Ast   []M   `json:"ast"`
	Ops   []QOp `json:"ops"`
}

func preQlang(raw []byte) M { return M{"r": "", "ops": []M{}} }

// --- what the host sees ---------------------------------------------------------------------

const qLogMax = 40

// qHost is what a program's host sees of it
type qHost struct {
	log  []interface{}
	seen int
}

var qone qHost
var qchild = os.Getenv("QCHILD") != ""

func (p *qHost) h(args ...interface{}) interface{} {
	if p.seen >= qLogMax {
		panic(99)
	}
	p.seen++
	e := []M{}
	for _, a := range args {
		e = append(e, qShow(a, 4))
	}
	p.log = append(p.log, e)
	yield()
	if qchild {
		qline(M{"qlog": e})
	}
	if len(args) == 0 {
		return nil
	}
	return args[len(args)-1]
}

func qline(v interface{}) {
	b, _ := json.Marshal(v)
	os.Stdout.Write(append(b, '\n'))
}

func init() {
	qlang.Import("", map[string]interface{}{
		"h":  qone.h,
		"hi": func(n int) int { return n + 1 },
		"hf": func(x float64) float64 { return x / 2 },
		"hs": func(s string) string { return "<" + s + ">" },
		"h2": func() (int, string) { return 1, "b" },
	})
	suites["qlang"] = suite{gen: genQlang, run: runQlang, pre: preQlang}
}

func qBytes(s string) []int {
	b := []int{}
	for i := 0; i < len(s); i++ {
		b = append(b, int(s[i]))
	}
	return b
}

var reMsg = regexp.MustCompile(`^m[0-9]+$`)

func qErr(err error) M {
	if o := reflect.ValueOf(err); o.Kind() == reflect.Ptr && o.IsNil() { // the zero value of its type
		return M{"t": "err", "s": []int{}}
	}
	if e, ok := err.(*interpreter.RuntimeError); ok {
		err = e.Err
	}
	if s := err.Error(); reMsg.MatchString(s) {
		return M{"t": "err", "s": qBytes(s)}
	}
	return M{"t": "err", "s": []int{}}
}

func qFloat(x float64) M {
	switch {
	case math.IsNaN(x):
		return M{"t": "float", "n": 0, "d": 0}
	case math.IsInf(x, 1):
		return M{"t": "float", "n": 1, "d": 0}
	case math.IsInf(x, -1):
		return M{"t": "float", "n": -1, "d": 0}
	case x == 0 && math.Signbit(x):
		return M{"t": "float", "n": 0, "d": -1}
	}
	d := 1
	for x != math.Trunc(x) && d < 1<<12 {
		x *= 2
		d *= 2
	}
	if x != math.Trunc(x) || math.Abs(x) > 1<<30 {
		return M{"t": "float", "n": 0, "d": -2}
	}
	return M{"t": "float", "n": int(x), "d": d}
}

func qKind(t reflect.Type) string {
	switch t.String() {
	case "int", "string", "bool":
		return t.String()
	case "float64":
		return "float"
	case "uint8":
		return "byte"
	case "interface {}":
		return "var"
	case "*qlang.Function":
		return "fn"
	case "*qlang.Class":
		return "class"
	case "*qlang.Object":
		return "obj"
	case "*qlang.thisDeref":
		return "bound"
	}
	switch t.Kind() {
	case reflect.Slice:
		return "[]" + qKind(t.Elem())
	case reflect.Map:
		return qKind(t.Key()) + ":" + qKind(t.Elem())
	}
	return "?" + t.String()
}

func qShow(v interface{}, deep int) M {
	switch v := v.(type) {
	case nil:
		return M{"t": "nil"}
	case int:
		return M{"t": "int", "i": v}
	case float64:
		return qFloat(v)
	case byte:
		return M{"t": "byte", "y": int(v)}
	case bool:
		return M{"t": "bool", "b": v}
	case string:
		return M{"t": "str", "s": qBytes(v)}
	case reflect.Type:
		return M{"t": "type", "k": qKind(v)}
	case error:
		if v == qspec.Undefined {
			return M{"t": "undef"}
		}
		return qErr(v)
	}
	o := reflect.ValueOf(v)
	switch o.Kind() {
	case reflect.Func:
		return M{"t": "go"}
	case reflect.Slice:
		if deep == 0 {
			return M{"t": "deep"}
		}
		e := []M{}
		for i := 0; i < o.Len(); i++ {
			e = append(e, qShow(o.Index(i).Interface(), deep-1))
		}
		return M{"t": "slice", "k": qKind(o.Type().Elem()), "e": e}
	case reflect.Map:
		if deep == 0 {
			return M{"t": "deep"}
		}
		e := []M{}
		keys := o.MapKeys()
		sort.Slice(keys, func(i, j int) bool {
			if keys[i].Kind() == reflect.String {
				return keys[i].String() < keys[j].String()
			}
			return keys[i].Int() < keys[j].Int()
		})
		for _, k := range keys {
			var key interface{}
			if k.Kind() == reflect.String {
				key = qBytes(k.String())
			} else {
				key = k.Int()
			}
			e = append(e, M{"key": key, "val": qShow(o.MapIndex(k).Interface(), deep-1)})
		}
		return M{"t": "map", "k": qKind(o.Type()), "e": e}
	}
	switch k := qKind(o.Type()); k {
	case "fn", "class", "obj", "bound":
		return M{"t": k}
	default:
		return M{"t": k}
	}
}

// qValue makes a value the host sets.
func qValue(v M) interface{} {
	num := func(k string) float64 { return v[k].(float64) }
	switch v["t"] {
	case "int":
		return int(num("i"))
	case "float":
		return num("n") / num("d")
	case "bool":
		return v["b"]
	case "byte":
		return byte(num("y"))
	case "str":
		s := []byte{}
		for _, c := range v["s"].([]interface{}) {
			s = append(s, byte(c.(float64)))
		}
		return string(s)
	}
	return nil
}

func qText(b []int) string {
	s := []byte{}
	for _, c := range b {
		s = append(s, byte(c))
	}
	return string(s)
}

func qEval(l qlang.Qlang, src string) (r string, v M, two bool) {
	defer func() {
		if e := recover(); e != nil {
			r, v = "raw", qShow(e, 4)
		}
	}()
	if err := l.SafeEval(src); err != nil {
		return "err", qErr(err), false
	}
	ret, ok := l.Ret()
	v = qShow(ret, 4)
	if !ok {
		v = M{"t": "none"}
	}
	_, two = l.Ret()
	return "ok", v, two
}

func qVars(l qlang.Qlang) []M {
	names := []string{}
	for n := range l.Vars() {
		if n == "h" && isoYield != nil {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	out := []M{}
	for _, n := range names {
		v, _ := l.Var(n)
		out = append(out, M{"name": qBytes(n), "val": qShow(v, 4)})
	}
	return out
}

func runQlang(raw []byte) (interface{}, bool) {
	var c QCase
	jget(raw, &c)
	if c.Exit && !qchild {
		return qInChild(raw, len(c.Ops)), true
	}
	var opt *qlang.Options
	if c.Semis {
		opt = qlang.InsertSemis
	}
	var ls [3]qlang.Qlang
	host := &qone
	if isoYield != nil {
		host = new(qHost)
	}
	for g := 1; g <= 2; g++ {
		yield()
		l, err := qlang.New(opt)
		if err != nil {
			return M{"r": "new", "ops": []M{}}, true
		}
		if host != &qone {
			l.SetVar("h", host.h)
		}
		ls[g] = l
	}
	ops := []M{}
	for _, op := range c.Ops {
		l := ls[op.G]
		if op.Op == "set" {
			l.SetVar(qText(op.Name), qValue(op.V))
			ops = append(ops, M{"r": "ok"})
			continue
		}
		host.log, host.seen = []interface{}{}, 0
		yield()
		if qchild {
			qline(M{"qstart": 1})
		}
		r, v, two := qEval(l, unlatin1(op.Src))
		ops = append(ops, M{"r": r, "v": v, "two": two, "log": host.log, "vars": qVars(l)})
		if qchild {
			qline(M{"qop": ops[len(ops)-1]})
		}
	}
	return M{"r": "ok", "ops": ops}, true
}

// qInChild runs programs that may end the process.
func qInChild(raw []byte, n int) M {
	cmd := exec.Command(os.Args[0], "run", "qlang")
	cmd.Env = append(os.Environ(), "QCHILD=1")
	cmd.Stdin = bytes.NewReader(raw)
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = io.Discard
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ops := []M{}
	log := []interface{}{}
	in := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		var m M
		if json.Unmarshal(line, &m) == nil {
			if x, ok := m["qop"]; ok {
				ops = append(ops, x.(M))
			} else if x, ok := m["qlog"]; ok {
				log = append(log, x)
			} else if _, ok := m["qstart"]; ok {
				log = []interface{}{}
			}
		}
		if err != nil {
			break
		}
	}
	err := cmd.Wait()
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	}
	if len(ops) < n {
		ops = append(ops, M{"r": "exit", "v": M{"t": "int", "i": code}, "two": false, "log": log, "vars": []M{}})
		for len(ops) < n {
			ops = append(ops, M{"r": "none", "v": M{}, "two": false, "log": []M{}, "vars": []M{}})
		}
	}
	return M{"r": "ok", "ops": ops}
}

// --- programs -------------------------------------------------------------------------------

type qGen struct {
	r     *rand.Rand
	n     []M
	w     [][]string
	st    []int // binding strength
	k     int   // marks given to the host
	loops int
	semis bool
	wild  int // percent of operands of any type
	fun   int
	held  []string // names that can be assigned to here
}

func (g *qGen) chance(p int) bool       { return g.r.Intn(100) < p }
func (g *qGen) pick(s ...string) string { return s[g.r.Intn(len(s))] }
func (g *qGen) add(k string, st int, w []string, f M) int {
	nd := M{"k": k, "p": 0, "tc": false}
	for a, b := range f {
		nd[a] = b
	}
	g.n = append(g.n, nd)
	g.w = append(g.w, w)
	g.st = append(g.st, st)
	return len(g.n)
}
func (g *qGen) words(i int) []string {
	if i <= 0 {
		return nil
	}
	return g.w[i-1]
}
func (g *qGen) paren(i int) int {
	g.n[i-1]["p"] = g.n[i-1]["p"].(int) + 1
	g.w[i-1] = append(append([]string{"("}, g.w[i-1]...), ")")
	g.st[i-1] = 7
	return i
}

// need puts parentheses around an operand that binds weaker than s (and now and then around others)
func (g *qGen) need(i, s int) int {
	if g.st[i-1] < s || (g.st[i-1] > 0 && g.chance(3)) {
		g.paren(i)
	}
	return i
}
func cat(ws ...[]string) []string {
	out := []string{}
	for _, w := range ws {
		out = append(out, w...)
	}
	return out
}
func (g *qGen) list(is []int, sep string) []string {
	out := []string{}
	for j, i := range is {
		if j > 0 {
			out = append(out, sep)
		}
		out = append(out, g.words(i)...)
	}
	return out
}
func w1(s ...string) []string { return s }

func (g *qGen) lit(v M, x string) int { return g.add("lit", 6, w1(x), M{"v": v, "x": x}) }
func (g *qGen) integer(n int) int {
	x := strconv.Itoa(n)
	if g.chance(6) && n > 0 {
		x = g.pick(fmt.Sprintf("0x%x", n), fmt.Sprintf("0%o", n), fmt.Sprintf("0X%X", n))
	}
	return g.lit(M{"t": "int", "i": n}, x)
}
func (g *qGen) float() int {
	n := g.r.Intn(40)
	d := []int{1, 2, 4, 8}[g.r.Intn(4)]
	f := float64(n) / float64(d)
	x := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(x, ".") {
		x += g.pick(".0", ".", "e0")
	} else if g.chance(20) {
		x += "0"
	}
	return g.lit(qFloat(f), x)
}
func (g *qGen) str(s string) int {
	x := strconv.Quote(s)
	if g.chance(15) && !strings.ContainsAny(s, "`\r") {
		x = "`" + s + "`"
	} else if g.chance(15) {
		x = `"`
		for i := 0; i < len(s); i++ {
			x += fmt.Sprintf(`\x%02x`, s[i])
		}
		x += `"`
	}
	return g.lit(M{"t": "str", "s": qBytes(s)}, x)
}
func (g *qGen) anyStr() int {
	return g.str(g.pick("", "a", "b", "ab", "abc", "B", "a b", "é", "x\ty", "\"q\"", "z;", "{", "m1", "10", "9"))
}
func (g *qGen) pickInt(x ...int) int { return x[g.r.Intn(len(x))] }
func (g *qGen) char() int {
	if g.chance(6) {
		return g.lit(M{"t": "!"}, g.pick("'é'", `'\u00e9'`, `'世'`))
	}
	c := g.pick("a", "b", "0", "z", " ", "Z", "{")
	x := "'" + c + "'"
	y := int(c[0])
	if g.chance(20) {
		y = g.r.Intn(256)
		x = fmt.Sprintf(`'\x%02x'`, y)
	} else if g.chance(20) {
		x, y = `'\n'`, 10
	}
	return g.lit(M{"t": "byte", "y": y}, x)
}
func (g *qGen) variable(s string) int { return g.add("var", 7, w1(s), M{"s": s, "b": qBytes(s)}) }
func (g *qGen) call(f int, args []int, spread bool) int {
	g.need(f, 7)
	nd := M{"c": append([]int{f}, args...), "va": spread}
	w := cat(g.words(f), w1("("), g.list(args, ","))
	if spread {
		w = append(w, "...")
	}
	if g.chance(5) {
		nd["tc"] = true
		w = append(w, ",")
	}
	return g.add("call", 7, append(w, ")"), nd)
}
func (g *qGen) fcall(f string, args ...int) int { return g.call(g.variable(f), args, false) }

// mark is a call of the host that gives its last argument back
func (g *qGen) mark(args ...int) int {
	g.k++
	return g.fcall("h", append([]int{g.lit(M{"t": "int", "i": g.k}, strconv.Itoa(g.k))}, args...)...)
}
func (g *qGen) strength(op string) int {
	switch op {
	case "+", "-":
		return 4
	case "*", "/", "%":
		return 5
	}
	return 3
}
func (g *qGen) bin(op string, a, b int) int {
	s := g.strength(op)
	g.need(a, s)
	g.need(b, s+1)
	return g.add("bin", s, cat(g.words(a), w1(op), g.words(b)), M{"o": op, "c": []int{a, b}})
}
func (g *qGen) un(op string, a int) int {
	g.need(a, 6)
	return g.add("un", 6, cat(w1(op), g.words(a)), M{"o": op, "c": []int{a}})
}
func (g *qGen) logic(and bool, a, b int) int {
	if and {
		g.need(a, 2)
		g.need(b, 3)
		return g.add("and", 2, cat(g.words(a), w1("&&"), g.words(b)), M{"c": []int{a}, "r": b})
	}
	g.need(a, 1)
	g.need(b, 2)
	return g.add("or", 1, cat(g.words(a), w1("||"), g.words(b)), M{"c": []int{a}, "r": b})
}
func (g *qGen) slice(es ...int) int {
	nd := M{"c": append([]int{}, es...)}
	w := cat(w1("["), g.list(es, ","))
	if g.chance(5) {
		nd["tc"] = true
		w = append(w, ",")
	}
	return g.add("slice", 7, append(w, "]"), nd)
}
func (g *qGen) dict(kv ...int) int {
	w := w1("{")
	for i := 0; i < len(kv); i += 2 {
		if i > 0 {
			w = append(w, ",")
		}
		w = cat(w, g.words(kv[i]), w1(":"), g.words(kv[i+1]))
	}
	nd := M{"c": append([]int{}, kv...)}
	if g.chance(5) {
		nd["tc"] = true
		w = append(w, ",")
	}
	return g.add("map", 6, append(w, "}"), nd)
}
func (g *qGen) index(x, i int) int {
	g.need(x, 7)
	return g.add("idx", 7, cat(g.words(x), w1("["), g.words(i), w1("]")), M{"c": []int{x, i}})
}
func (g *qGen) subslice(x, lo, hi int) int {
	g.need(x, 7)
	c := []int{x}
	if lo > 0 {
		c = append(c, lo)
	}
	if hi > 0 {
		c = append(c, hi)
	}
	return g.add("sub", 7, cat(g.words(x), w1("["), g.words(lo), w1(":"), g.words(hi), w1("]")), M{"c": c, "lo": lo > 0, "hi": hi > 0})
}
func (g *qGen) member(x int, s string) int {
	g.need(x, 7)
	return g.add("mref", 7, cat(g.words(x), w1(".", s)), M{"c": []int{x}, "s": s, "b": qBytes(s)})
}
func body(w []string) []string { return cat(w1("{"), w, w1("}")) }
func params(ps []string, va bool) []string {
	w := w1("(")
	for i, p := range ps {
		if i > 0 {
			w = append(w, ",")
		}
		w = append(w, p)
	}
	if va {
		w = append(w, "...")
	}
	return append(w, ")")
}
func qNames(ps []string) [][]int {
	out := [][]int{}
	for _, p := range ps {
		out = append(out, qBytes(p))
	}
	return out
}
func (g *qGen) fn(ps []string, va bool, b int) int {
	if ps == nil {
		ps = []string{}
	}
	return g.add("fn", 7, cat(w1("fn"), params(ps, va), body(g.words(b))), M{"ps": ps, "bs": qNames(ps), "va": va, "b": b})
}

// cond: conditions, bodies (0: empty), els: -1 none, 0 empty
func (g *qGen) ifx(cond, bodies []int, els int) int {
	w := []string{}
	for i, c := range cond {
		w = cat(w, w1([]string{"if", "elif"}[min(i, 1)]), g.words(c), body(g.words(bodies[i])))
	}
	if els >= 0 {
		w = cat(w, w1("else"), body(g.words(els)))
	}
	return g.add("if", 6, w, M{"cond": cond, "body": bodies, "els": els})
}
func (g *qGen) switchx(subj int, cond, bodies []int, els int) int {
	if subj > 0 && g.w[subj-1][0] == "{" {
		g.paren(subj)
	}
	w := cat(w1("switch"), g.words(subj), w1("{"))
	for i, c := range cond {
		w = cat(w, w1("case"), g.words(c), w1(":"), g.words(bodies[i]))
	}
	if els >= 0 {
		w = cat(w, w1("default", ":"), g.words(els))
	}
	return g.add("switch", 6, append(w, "}"), M{"subj": subj, "cond": cond, "body": bodies, "els": els})
}
func (g *qGen) forx(parts []int, b int) int {
	for _, p := range parts {
		if g.w[p-1][0] == "{" {
			g.paren(p)
		}
	}
	return g.add("for", 6, cat(w1("for"), g.list(parts, ";"), body(g.words(b))), M{"parts": parts, "b": b})
}
func (g *qGen) newx(cls string, args []int, has bool) int {
	c := g.variable(cls)
	if g.chance(30) {
		g.paren(c)
	}
	w := cat(w1("new"), g.words(c))
	if has {
		w = cat(w, w1("("), g.list(args, ","), w1(")"))
	}
	return g.add("new", 6, w, M{"c": append([]int{c}, args...), "va": has})
}

type qMethod struct {
	name string
	ps   []string
	va   bool
	b    int
}

func (g *qGen) class(ms []qMethod) int {
	w := w1("class", "{")
	l := []M{}
	for _, m := range ms {
		w = cat(w, w1("fn", m.name), params(m.ps, m.va), body(g.words(m.b)))
		semi := g.semis || g.chance(50)
		if semi {
			w = append(w, ";")
		}
		ps := m.ps
		if ps == nil {
			ps = []string{}
		}
		l = append(l, M{"s": m.name, "nb": qBytes(m.name), "ps": ps, "bs": qNames(ps), "va": m.va, "b": m.b, "semi": semi})
	}
	return g.add("class", 6, append(w, "}"), M{"ms": l})
}
func (g *qGen) recover() int { return g.add("recover", 6, w1("recover", "(", ")"), nil) }
func (g *qGen) mainx(b int) int {
	return g.add("main", 6, cat(w1("main"), body(g.words(b))), M{"b": b})
}
func (g *qGen) assign(s string, e int) int {
	return g.add("assign", 0, cat(w1(s, "="), g.words(e)), M{"s": s, "b": qBytes(s), "c": []int{e}})
}
func (g *qGen) massign(ps []string, e int) int {
	w := params(ps, false)
	return g.add("massign", 0, cat(w[1:len(w)-1], w1("="), g.words(e)), M{"ps": ps, "bs": qNames(ps), "c": []int{e}})
}
func (g *qGen) inc(s string, up bool) int {
	if up {
		return g.add("inc", 0, w1(s, "++"), M{"s": s, "b": qBytes(s), "c": []int{}})
	}
	return g.add("dec", 0, w1(s, "--"), M{"s": s, "b": qBytes(s), "c": []int{}})
}
func (g *qGen) opas(s, op string, e int) int {
	return g.add("opas", 0, cat(w1(s, op+"="), g.words(e)), M{"s": s, "b": qBytes(s), "o": op, "c": []int{e}})
}
func (g *qGen) ret(e int) int {
	if e == 0 {
		return g.add("return", 0, w1("return"), M{"c": []int{}})
	}
	return g.add("return", 0, cat(w1("return"), g.words(e)), M{"c": []int{e}})
}
func (g *qGen) deferx(e int) int {
	return g.add("defer", 0, cat(w1("defer"), g.words(e)), M{"r": e})
}
func (g *qGen) bad() int {
	x := g.pick(")", "]", "}", "= 1", "else", ", 2", "case")
	return g.add("bad", 0, w1(x), M{"x": x})
}

// doc makes a document of statements; empty ones come from repeated separators
func (g *qGen) doc(items []int, top bool) int {
	out := []int{}
	for i, it := range items {
		out = append(out, it)
		if i+1 < len(items) && g.chance(3) {
			out = append(out, 0)
		}
	}
	if top && g.semis || !top && g.chance(20) || g.chance(4) {
		out = append(out, 0)
	}
	w := []string{}
	for j, i := range out {
		if j > 0 {
			w = append(w, ";")
		}
		w = append(w, g.words(i)...)
	}
	return g.add("doc", 0, w, M{"items": out})
}

var reWord = regexp.MustCompile("^[A-Za-z0-9_\"'`.]")

// endsStatement: a line ending after this word gets a semicolon
func endsStatement(w string) bool {
	return w != "..." && (w != "." && reWord.MatchString(w)) || w == ")" || w == "]" || w == "}" || w == "++" || w == "--"
}

// print writes the words of a program.
func (g *qGen) print(w []string) string {
	var b strings.Builder
	style := g.r.Intn(3)
	for i, t := range w {
		if t == ";" && g.semis && i > 0 && endsStatement(w[i-1]) && (i+1 == len(w) || g.chance(60)) {
			if i+1 == len(w) && g.chance(50) {
				break
			}
			b.WriteString(g.pick("\n", "\n\n", " // c\n", "\n\t"))
			continue
		}
		b.WriteString(t)
		if i+1 == len(w) {
			break
		}
		nx := w[i+1]
		tight := strings.Contains("()[]{},;", t) || strings.Contains("()[]{},;", nx)
		switch {
		case style == 0 && tight && g.chance(70) && t != "..." && nx != "...":
		case g.chance(4):
			b.WriteString(g.pick(" /* c */ ", "\t", "  "))
		case g.chance(5) && (!g.semis || !endsStatement(t)):
			b.WriteString(g.pick("\n", " // c\n", "\n\n ", " /* a\nb */ "))
		default:
			b.WriteString(" ")
		}
	}
	return b.String()
}
func (g *qGen) eval(items []int) QOp {
	d := g.doc(items, true)
	return QOp{Op: "eval", G: 1, Doc: d, W: g.words(d), Src: latin1(g.print(g.words(d))), Name: []int{}, V: M{}}
}
func (g *qGen) set(e int, name string, v M) QOp {
	return QOp{Op: "set", G: e, W: []string{}, Name: qBytes(name), V: v}
}

// --- expressions ----------------------------------------------------------------------------

var qTypes = []string{"int", "float", "str", "bool", "byte", "nil", "slice", "map", "undef", "fn"}

// expr: an expression that usually has the given type; variables are named after their types
func (g *qGen) expr(t string, d int) int {
	if g.chance(g.wild) {
		t = qTypes[g.r.Intn(len(qTypes))]
	}
	if t == "any" {
		t = qTypes[g.r.Intn(4)]
	}
	if t == "num" {
		t = g.pick("int", "int", "float")
	}
	if d <= 0 {
		return g.leaf(t)
	}
	if g.chance(12) {
		return g.mark(g.expr(t, d-1))
	}
	if g.chance(4) {
		return g.ifx([]int{g.expr("bool", d-1)}, []int{g.doc([]int{g.expr(t, d-1)}, false)}, g.doc([]int{g.expr(t, d-1)}, false))
	}
	switch t {
	case "int":
		switch g.r.Intn(12) {
		case 0:
			f := g.pick("int", "len", "hi")
			return g.fcall(f, g.expr(map[string]string{"int": g.pick("int", "float", "byte"), "len": g.pick("str", "slice"), "hi": "int"}[f], d-1))
		case 1:
			return g.un(g.pick("-", "+"), g.expr("int", d-1))
		case 2:
			return g.fcall(g.pick("max", "min"), g.expr("int", d-1), g.expr("int", d-1), g.expr(g.pick("int", "int", "float"), 0), g.expr("int", 0))
		case 3:
			return g.index(g.slice(g.expr("int", d-1), g.expr("int", 0)), g.integer(g.r.Intn(2)))
		}
		return g.bin(g.pick("+", "-", "*", "/", "%", "+", "-", "*"), g.expr("int", d-1), g.expr("int", d-1))
	case "float":
		if g.chance(15) {
			return g.fcall(g.pick("float", "hf", "max", "min"), g.expr("num", d-1))
		}
		if g.chance(10) {
			return g.un("-", g.expr("float", d-1))
		}
		a, b := g.pick("int", "float"), "float"
		if g.chance(50) {
			a, b = b, a
		}
		return g.bin(g.pick("+", "-", "*", "/"), g.expr(a, d-1), g.expr(b, d-1))
	case "str":
		switch g.r.Intn(5) {
		case 0:
			return g.subslice(g.expr("str", d-1), g.r.Intn(2)*g.integer(g.r.Intn(3)), g.r.Intn(2)*g.integer(g.r.Intn(3)))
		case 1:
			if g.chance(50) {
				return g.fcall("hs", g.expr("str", d-1))
			}
			return g.fcall("string", g.expr(g.pick("byte", "int"), d-1))
		}
		return g.bin("+", g.expr("str", d-1), g.expr("str", d-1))
	case "bool":
		switch g.r.Intn(6) {
		case 0:
			return g.un("!", g.expr("bool", d-1))
		case 1, 2:
			return g.logic(g.chance(50), g.expr("bool", d-1), g.expr("bool", d-1))
		case 3:
			return g.bin(g.pick("==", "!="), g.expr("any", d-1), g.expr("any", d-1))
		case 4:
			return g.bin(g.pick("<", ">", "<=", ">="), g.expr("str", d-1), g.expr("str", d-1))
		}
		ts := []string{"int", "float", "byte", "int"}
		return g.bin(g.pick("<", ">", "<=", ">=", "==", "!="), g.expr(ts[g.r.Intn(4)], d-1), g.expr(ts[g.r.Intn(4)], d-1))
	case "byte":
		if g.chance(40) {
			return g.fcall("byte", g.expr("int", d-1))
		}
		return g.index(g.str(g.pick("abc", "xyz")), g.integer(g.r.Intn(3)))
	case "slice":
		es := []int{}
		for i := g.r.Intn(4); i > 0; i-- {
			es = append(es, g.expr("num", d-1))
		}
		return g.slice(es...)
	case "map":
		kv := []int{}
		for i := g.r.Intn(3); i > 0; i-- {
			kv = append(kv, g.expr("str", 0), g.expr("num", d-1))
		}
		return g.dict(kv...)
	}
	return g.leaf(t)
}
func (g *qGen) leaf(t string) int {
	v := g.chance(30)
	switch t {
	case "int":
		if v {
			return g.variable(g.pick("i0", "i1"))
		}
		return g.integer(g.r.Intn([]int{3, 10, 100}[g.r.Intn(3)]))
	case "float":
		if v {
			return g.variable("f0")
		}
		return g.float()
	case "str":
		if v {
			return g.variable("s0")
		}
		return g.anyStr()
	case "bool":
		if v {
			return g.variable("b0")
		}
		return g.variable(g.pick("true", "false"))
	case "byte":
		return g.char()
	case "nil":
		return g.variable("nil")
	case "undef":
		return g.variable("undefined")
	case "slice":
		return g.slice(g.integer(1), g.integer(2))
	case "map":
		return g.dict(g.str("a"), g.integer(1))
	}
	if g.chance(10) {
		return g.variable("nowhere")
	}
	return g.variable(g.pick("len", "g0"))
}
func (g *qGen) setup(r1 []QOp) []QOp {
	b := qBytes(g.pick("s", "ab", ""))
	return append(r1, g.set(1, "i0", M{"t": "int", "i": g.r.Intn(20) - 5}), g.set(1, "i1", M{"t": "int", "i": g.r.Intn(4)}), g.set(1, "f0", qFloat(float64(g.r.Intn(32)-8)/4)),
		g.set(1, "s0", M{"t": "str", "s": b}), g.set(1, "b0", M{"t": "bool", "b": g.chance(50)}))
}

// --- control --------------------------------------------------------------------------------

// scopeGen says which names a piece of code may use
func (g *qGen) cond(d int) int {
	if g.chance(2) {
		return g.mark(g.expr(g.pick("int", "nil", "str", "undef"), 0))
	}
	var e int
	switch g.r.Intn(4) {
	case 0:
		e = g.variable(g.pick("true", "false", "b0"))
	case 1:
		e = g.logic(g.chance(50), g.mark(g.expr("bool", 0)), g.mark(g.expr("bool", 0)))
	default:
		e = g.bin(g.pick("<", ">", "==", "!=", "<=", ">="), g.expr("int", 1), g.expr("int", 0))
	}
	if g.chance(50) {
		e = g.mark(e)
	}
	return e
}
func (g *qGen) block(d int) int {
	if g.chance(8) {
		return 0
	}
	items := []int{}
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		items = append(items, g.stmt(d))
	}
	return g.doc(items, false)
}

// stmt is a statement of the control profile
func (g *qGen) stmt(d int) int {
	e := 0
	if d <= 0 {
		switch g.r.Intn(4) {
		case 0:
			return g.mark(g.expr("any", 1))
		case 1:
			return g.assign(g.pick("v", "i0"), g.expr("int", 1))
		case 2:
			if g.fun > 0 {
				return g.ret(g.r.Intn(2) * g.mark(g.expr("int", 0)))
			}
		}
		return g.mark()
	}
	switch g.r.Intn(9) {
	case 0, 1, 2:
		cond, bodies := []int{}, []int{}
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			cond = append(cond, g.cond(1))
			bodies = append(bodies, g.block(d-1))
		}
		els := -1
		if g.chance(60) {
			els = g.block(d - 1)
		}
		e = g.ifx(cond, bodies, els)
	case 3, 4:
		subj, t := 0, "bool"
		if g.chance(70) {
			t = g.pick("int", "int", "str", "bool", "any")
			subj = g.expr(t, 1)
			if g.chance(50) {
				subj = g.mark(subj)
			}
			if g.chance(3) {
				subj = g.slice(g.integer(1))
				t = "slice"
			}
		}
		cond, bodies := []int{}, []int{}
		for i := g.r.Intn(4); i > 0; i-- {
			c := g.expr(t, g.r.Intn(2))
			if t == "int" && g.chance(60) {
				c = g.integer(g.r.Intn(4))
			}
			if g.chance(50) {
				c = g.mark(c)
			}
			cond = append(cond, c)
			bodies = append(bodies, g.block(d-1))
		}
		els := -1
		if g.chance(60) {
			els = g.block(d - 1)
		}
		e = g.switchx(subj, cond, bodies, els)
	case 5, 6, 7:
		g.loops++
		v := fmt.Sprintf("n%d", g.loops)
		lim := g.bin("<", g.variable(v), g.integer(g.r.Intn(4)))
		if g.chance(40) {
			lim = g.mark(lim)
		}
		if g.chance(4) { // not a condition, at once or after some rounds
			lim = g.expr(g.pick("int", "nil", "str", "undef", "float"), 0)
			if g.chance(60) {
				lim = g.logic(false, g.bin("<", g.variable(v), g.integer(g.r.Intn(3))), lim)
			}
		}
		switch k := g.r.Intn(12); {
		case k < 8:
			parts := []int{g.assign(v, g.integer(0)), lim, g.inc(v, true)}
			if g.chance(15) {
				parts = []int{g.assign(v, g.integer(3)), g.bin(">", g.variable(v), g.integer(0)), g.inc(v, false)}
			} else if g.chance(15) {
				parts[2] = g.opas(v, "+", g.integer(1+g.r.Intn(2)))
			}
			e = g.forx(parts, g.block(d-1))
		case k < 10:
			b := g.doc([]int{g.inc(v, true), g.stmt(d - 1)}, false)
			l := g.forx([]int{lim}, b)
			return g.grp(g.assign(v, g.integer(0)), l)
		case k < 11 && g.fun > 0:
			stop := g.ifx([]int{lim}, []int{g.block(0)}, g.doc([]int{g.ret(g.mark(g.variable(v)))}, false))
			e = g.forx([]int{}, g.doc([]int{g.inc(v, true), stop}, false))
			return g.grp(g.assign(v, g.integer(0)), e)
		default:
			if g.chance(30) {
				return g.forx([]int{g.assign(v, g.integer(0)), lim}, g.block(0))
			}
			e = g.forx([]int{g.mark(g.variable("false"))}, g.block(0))
		}
	case 8:
		g.fun++
		b := g.doc([]int{g.stmt(d - 1), g.stmt(d - 1)}, false)
		g.fun--
		e = g.call(g.fn(nil, false, b), nil, false)
	}
	if g.chance(25) {
		e = g.assign("v", e)
	} else if g.chance(15) {
		e = g.mark(e)
	}
	return e
}

// grp makes one statement of several: they are called (a scope of its own would do as well)
func (g *qGen) grp(items ...int) int {
	return g.ifx([]int{g.variable("true")}, []int{g.doc(items, false)}, -1)
}

// try runs a statement that may fail in a function that recovers
func (g *qGen) try(e int) int {
	rec := g.deferx(g.call(g.fn(nil, false, g.doc([]int{g.mark(g.recover())}, false)), nil, false))
	return g.call(g.fn(nil, false, g.doc([]int{rec, e}, false)), nil, false)
}

// --- scopes ---------------------------------------------------------------------------------

var qNames4 = []string{"a", "b", "c", "_p", "__q"}

func (g *qGen) name() string {
	if len(g.held) > 0 && g.chance(50) {
		return g.held[g.r.Intn(len(g.held))]
	}
	return qNames4[g.r.Intn(len(qNames4))]
}

// target is a name that can be assigned to, mostly
func (g *qGen) target() string {
	if g.chance(7) {
		return qNames4[g.r.Intn(len(qNames4))]
	}
	if g.fun > 0 && g.chance(15) {
		return g.pick("_p", "d", "e", "_", "__q")
	}
	if len(g.held) > 0 {
		return g.held[g.r.Intn(len(g.held))]
	}
	return "_p"
}
func (g *qGen) scopeStmt(d int) int {
	n := g.name()
	m := g.target()
	switch g.r.Intn(15) {
	case 0, 1:
		return g.mark(g.variable(n))
	case 14:
		switch g.r.Intn(4) {
		case 0:
			return g.assign("u", g.variable("unset"))
		case 1, 2:
			return g.call(g.variable("u"), []int{g.str(n)}, false)
		}
		return g.assign(g.pick("f", "g"), g.call(g.middle(d), nil, false))
	case 2:
		return g.assign(m, g.bin("+", g.variable(g.name()), g.integer(g.r.Intn(9))))
	case 3, 4:
		return g.assign(m, g.integer(g.r.Intn(90)))
	case 5:
		return g.inc(m, g.chance(70))
	case 6:
		return g.opas(m, g.pick("+", "-", "*"), g.integer(1+g.r.Intn(3)))
	case 7:
		if g.chance(60) {
			return g.fcall("unset", g.str(n))
		}
		e := g.slice(g.integer(g.r.Intn(9)), g.variable(g.name()))
		if g.chance(15) { // too few, too many, or no slice
			switch g.r.Intn(4) {
			case 0:
				e = g.slice(g.integer(g.r.Intn(9)))
			case 1:
				e = g.slice(g.integer(1), g.variable(g.name()), g.integer(3))
			case 2:
				e = g.variable(g.name())
			case 3:
				e = g.pickInt(g.slice(), g.str("ab"), g.variable("nil"), g.dict(g.str("a"), g.integer(1)))
			}
			if g.chance(60) {
				return g.try(g.massign([]string{m, g.target()}, e))
			}
		}
		return g.massign([]string{m, g.target()}, e)
	case 8, 9, 10:
		if d > 0 {
			f := g.scopeFn(d - 1)
			switch g.r.Intn(4) {
			case 0:
				return g.call(f, g.fargs(f), false)
			case 1:
				return g.mark(g.call(f, g.fargs(f), false))
			case 2:
				return g.assign("f", f)
			}
			return g.assign("g", f)
		}
		return g.mark(g.variable(n))
	case 11, 12:
		f := g.variable(g.pick("f", "g"))
		args := []int{}
		if g.chance(20) {
			args = append(args, g.integer(5))
		}
		c := g.mark(g.call(f, args, false))
		if g.fun == 0 && g.chance(70) {
			return g.try(c)
		}
		return c
	}
	return g.mark(g.bin("+", g.variable(n), g.variable(g.name())))
}
func (g *qGen) fargs(f int) []int {
	args := []int{}
	for range g.n[f-1]["ps"].([]string) {
		args = append(args, g.expr("int", 0))
	}
	return args
}

// middle is a function that uses an outer variable and returns another one
func (g *qGen) middle(d int) int {
	outer := g.held
	n := qNames4[g.r.Intn(3)]
	g.held = []string{n}
	g.fun++
	items := []int{g.mark(g.variable(n))}
	if d > 0 {
		items = append(items, g.ret(g.scopeFn(d-1)))
	}
	g.held = outer
	g.fun--
	return g.fn([]string{}, false, g.doc(items, false))
}

// unsetStory: functions in functions that read and write variables while these are unset
func (g *qGen) unsetStory(level int) []int {
	items := []int{g.assign(fmt.Sprintf("u%d", level), g.variable("unset"))}
	name := func() string { return g.pick("a", "a", "b") }
	if level == 0 || g.chance(40) {
		n := "a"
		if level > 0 {
			n = g.pick("_p", "c", "a")
		}
		items = append(items, g.assign(n, g.integer(10*level+g.r.Intn(9))))
	}
	if g.chance(40) {
		g.fun++
		items = append(items, g.assign(fmt.Sprintf("r%d", level), g.fn(nil, false, g.doc([]int{g.mark(g.variable(name())), g.mark(g.variable(name()))}, false))))
		g.fun--
	}
	body := level >= 2 || level == 1 && g.chance(60)
	for i := 3 + g.r.Intn(5); i > 0 && (level > 0 || i < 4); i-- {
		n := name()
		e := 0
		if g.chance(20) {
			items = append(items, g.mark(g.variable(n)), g.call(g.variable("u0"), []int{g.str(n)}, false))
			if g.chance(60) {
				items = append(items, g.assign(n, g.integer(g.r.Intn(90))))
			}
		}
		switch g.r.Intn(9) {
		case 0, 1, 2:
			e = g.mark(g.variable(n))
		case 3:
			e = g.assign(n, g.integer(g.r.Intn(90)))
		case 4:
			e = g.inc(n, true)
		case 5, 6, 7:
			e = g.call(g.variable(fmt.Sprintf("u%d", g.r.Intn(level+1))), []int{g.str(n)}, false)
		case 8:
			e = g.call(g.variable(fmt.Sprintf("r%d", g.r.Intn(level+1))), nil, false)
		}
		if g.chance(30) {
			e = g.try(e)
		}
		items = append(items, e)
	}
	if !body {
		g.fun++
		in := g.doc(g.unsetStory(level+1), false)
		g.fun--
		items = append(items, g.assign(fmt.Sprintf("f%d", level), g.fn(nil, false, in)), g.call(g.variable(fmt.Sprintf("f%d", level)), nil, false))
		if g.chance(40) {
			items = append(items, g.call(g.variable(fmt.Sprintf("f%d", level)), nil, false))
		}
	}
	return append(items, g.mark(g.variable(name())))
}
func (g *qGen) scopeFn(d int) int {
	ps := []string{}
	if g.chance(30) {
		ps = append(ps, g.name())
	}
	outer := g.held
	g.held = append([]string{}, ps...)
	g.fun++
	items := []int{g.mark()}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		if g.chance(45) { // get hold of an outer variable first
			n := qNames4[g.r.Intn(3)]
			g.held = append(g.held, n)
			items = append(items, g.mark(g.variable(n)))
		}
		items = append(items, g.scopeStmt(d))
	}
	if g.chance(40) {
		if d > 0 && g.chance(50) {
			items = append(items, g.ret(g.scopeFn(d-1)))
		} else {
			items = append(items, g.ret(g.variable(g.name())))
		}
	}
	g.held = outer
	g.fun--
	return g.fn(ps, false, g.doc(items, false))
}

// --- calls ----------------------------------------------------------------------------------

// callFn is a function that uses its parameters, puts off code, panics and recovers
func (g *qGen) callFn(d int) int {
	ps := []string{}
	for i := g.r.Intn(4); i > 0; i-- {
		ps = append(ps, fmt.Sprintf("p%d", len(ps)))
	}
	va := len(ps) > 0 && g.chance(30)
	g.fun++
	items := []int{}
	args := []int{}
	for _, p := range ps {
		args = append(args, g.variable(p))
	}
	items = append(items, g.mark(args...))
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		items = append(items, g.callStmt(d, ps))
	}
	if va && g.chance(60) { // what it has collected is its own
		rest := ps[len(ps)-1]
		items = append(items, g.ifx([]int{g.bin(">", g.fcall("len", g.variable(rest)), g.integer(0))}, []int{g.doc([]int{g.fcall("set", g.variable(rest), g.integer(0), g.integer(90)), g.mark(g.variable(rest))}, false)}, -1))
	}
	g.fun--
	return g.fn(ps, va, g.doc(items, false))
}
func (g *qGen) panics() int {
	switch g.r.Intn(8) {
	case 0:
		return g.fcall("panic", g.integer(g.r.Intn(9)))
	case 1:
		return g.fcall("panicf", g.str(fmt.Sprintf("m%d", g.r.Intn(90))))
	case 2:
		return g.bin("+", g.integer(1), g.variable("nil"))
	case 3:
		return g.variable("nowhere")
	}
	return g.fcall("panic", g.str(fmt.Sprintf("m%d", g.r.Intn(90))))
}
func (g *qGen) value(ps []string) int {
	if len(ps) > 0 && g.chance(50) {
		return g.variable(ps[g.r.Intn(len(ps))])
	}
	return g.expr(g.pick("int", "int", "str", "bool"), g.r.Intn(2))
}
func (g *qGen) callStmt(d int, ps []string) int {
	k := g.r.Intn(16)
	switch {
	case k < 3 && d > 0: // call of a function, now and then with the wrong number of arguments
		f := g.callFn(d - 1)
		nd := g.n[f-1]
		n := len(nd["ps"].([]string))
		args := []int{}
		if nd["va"].(bool) {
			if n += g.r.Intn(5) - 2; n < 0 {
				n = 0
			}
		} else if g.chance(6) {
			n += g.r.Intn(3) - 1
		}
		spread := n >= 0 && g.chance(25)
		for i := 0; i < n; i++ {
			args = append(args, g.value(ps))
		}
		if spread {
			m := g.r.Intn(n + 1)
			if g.chance(30) {
				m = n
			}
			es := g.slice(args[n-m:]...)
			args = append(args[:n-m], es)
			if g.chance(50) {
				args[n-m] = g.variable("l")
				return g.grp(g.assign("l", es), g.assign("f", f), g.mark(g.call(g.variable("f"), args, true)), g.mark(g.variable("l")))
			}
		}
		if g.chance(4) { // not a slice, or nothing at all
			args = args[:g.r.Intn(len(args)+1)]
			if len(args) > 0 {
				args[len(args)-1] = g.pickInt(g.integer(1), g.str("ab"), g.variable("nil"), g.dict(g.str("a"), g.integer(1)))
			}
			return g.try(g.call(f, args, true))
		}
		if g.chance(50) {
			v := g.pick("f", "g")
			a := g.assign(v, f)
			c := g.mark(g.call(g.variable(v), args, spread))
			return g.grp(a, c)
		}
		c := g.call(f, args, spread)
		if g.chance(70) {
			c = g.mark(c)
		}
		return c
	case k < 7: // put off
		switch g.r.Intn(8) {
		case 6: // deferred code puts off more, or returns
			b := []int{g.mark(g.value(ps))}
			if g.fun > 0 && g.chance(50) {
				b = append(b, g.ret(g.r.Intn(2)*g.mark(g.value(ps))))
			} else {
				b = append(b, g.deferx(g.mark(g.value(ps))))
			}
			if g.chance(30) {
				b = append(b, g.deferx(g.mark(g.recover())), g.mark(g.integer(3)))
			}
			return g.deferx(g.grp(b...))
		case 0, 1:
			return g.deferx(g.mark(g.value(ps)))
		case 2:
			b := []int{g.mark(g.recover())}
			if g.chance(30) {
				b = append(b, g.panics())
			}
			if g.chance(20) {
				b = append(b, g.mark(g.recover()))
			}
			return g.deferx(g.call(g.fn(nil, false, g.doc(b, false)), nil, false))
		case 3:
			return g.deferx(g.panics())
		case 4:
			if d > 0 {
				f := g.callFn(d - 1)
				args := []int{}
				for range g.n[f-1]["ps"].([]string) {
					args = append(args, g.value(ps))
				}
				return g.deferx(g.call(f, args, false))
			}
		}
		// what is put off sees variables as they are then
		return g.deferx(g.mark(g.variable(g.pick("x", "y"))))
	case k < 8 && g.chance(35): // a slice handed over as the rest of the arguments
		es := []int{}
		for i := g.r.Intn(4); i > 0; i-- {
			es = append(es, g.value(ps))
		}
		if len(es) == 0 || g.chance(40) {
			es = append(es, g.integer(1), g.str("x"))
		}
		rs := w1("r")
		args := []int{g.variable("l")}
		if g.chance(30) {
			rs = w1("p0", "r")
			args = []int{g.value(ps), g.variable("l")}
		}
		b := []int{g.fcall("set", g.variable("r"), g.integer(0), g.integer(91)), g.mark(g.variable("r"), g.fcall("len", g.variable("r")))}
		if g.chance(50) {
			b = append(b, g.ret(g.variable("r")))
		}
		return g.grp(g.assign("l", g.slice(es...)), g.mark(g.call(g.fn(rs, true, g.doc(b, false)), args, true)), g.mark(g.variable("l")))
	case k < 9:
		return g.assign(g.pick("x", "y"), g.value(ps))
	case k < 11:
		if g.fun > 0 {
			r := g.ret(g.r.Intn(2) * g.mark(g.value(ps)))
			if g.chance(70) {
				return g.ifx([]int{g.cond(0)}, []int{g.doc([]int{r}, false)}, -1)
			}
			return r
		}
	case k < 12:
		p := g.panics()
		if g.chance(60) {
			return g.ifx([]int{g.cond(0)}, []int{g.doc([]int{p}, false)}, -1)
		}
		return p
	case k < 13:
		return g.mark(g.recover())
	case k < 14 && d > 0:
		g.loops++
		v := fmt.Sprintf("n%d", g.loops)
		return g.forx([]int{g.assign(v, g.integer(0)), g.bin("<", g.variable(v), g.integer(2)), g.inc(v, true)}, g.doc([]int{g.callStmt(d-1, ps)}, false))
	}
	return g.mark(g.value(ps))
}

// --- containers -----------------------------------------------------------------------------

// elemOf: an expression for an element
func (g *qGen) elem(t string) int {
	switch t {
	case "int":
		return g.expr("int", g.r.Intn(2))
	case "float":
		return g.expr(g.pick("float", "float", "int"), 0)
	case "string":
		return g.expr("str", 0)
	case "bool":
		return g.variable(g.pick("true", "false"))
	case "byte":
		return g.fcall("byte", g.integer(g.r.Intn(300)))
	}
	return g.expr(g.pick("int", "str", "bool", "nil", "float", "slice", "map", "undef"), 0)
}

type qVar struct{ name, kind, key, el string }

// contStmt: something is done with containers held by variables
func (g *qGen) contStmt(vs []qVar) (int, []qVar) {
	types := []string{"int", "int", "float", "string", "var", "bool", "byte"}
	if len(vs) == 0 || g.chance(18) {
		v := qVar{name: fmt.Sprintf("%s%d", g.pick("s", "t"), len(vs)), el: types[g.r.Intn(len(types))]}
		e := 0
		n := g.r.Intn(4)
		if g.chance(20) {
			n += 3
		}
		if g.chance(55) {
			v.kind = "slice"
			if g.chance(40) || v.el == "byte" || v.el == "bool" {
				args := []int{g.str(v.el)}
				if g.chance(30) {
					args[0] = g.variable(v.el)
					if v.el == "bool" || v.el == "var" {
						args[0] = g.str(v.el)
					} else if v.el == "string" || v.el == "byte" || v.el == "int" || v.el == "float" {
						args[0] = g.fcall("type", g.elem(v.el))
					}
				}
				if g.chance(80) {
					args = append(args, g.integer(n))
					if g.chance(50) {
						args = append(args, g.integer(n+g.r.Intn(5)-g.r.Intn(2)))
					}
				}
				e = g.fcall("slice", args...)
			} else {
				es := []int{}
				for i := 0; i < n; i++ {
					es = append(es, g.elem(v.el))
				}
				if g.chance(25) {
					e = g.fcall("sliceFrom", es...)
				} else {
					e = g.slice(es...)
				}
			}
		} else {
			v.kind = "map"
			v.key = g.pick("string", "string", "int")
			if g.chance(40) {
				ty := g.str(v.key + ":" + v.el)
				if v.key == "int" || v.el == "bool" || v.el == "byte" {
					ty = g.fcall("mapOf", g.str(v.key), g.str(v.el))
				}
				e = g.fcall("mkmap", ty)
			} else {
				kv := []int{}
				for i := 0; i < n; i++ {
					kv = append(kv, g.key(v), g.elem(v.el))
				}
				if g.chance(25) {
					e = g.fcall("mapFrom", kv...)
				} else {
					e = g.dict(kv...)
				}
			}
		}
		return g.assign(v.name, e), append(vs, v)
	}
	v := vs[g.r.Intn(len(vs))]
	x := func() int { return g.variable(v.name) }
	if g.chance(3) && v.el == "var" { // contains itself
		e := g.fcall("set", x(), g.key(v), x())
		if v.kind == "slice" {
			e = g.grp(g.assign(v.name, g.fcall("append", x(), x())), g.fcall("set", x(), g.integer(0), x()))
		}
		if g.chance(70) {
			f := g.pick("sliceOf", "mkmap", "slice", "mapOf", "sub", "string", "int", "hs", "len", "type", "max")
			args := []int{x()}
			switch f {
			case "mapOf":
				args = append(args, x())
			case "sub":
				args = append(args, x(), g.integer(1))
			}
			e = g.grp(e, g.try(g.mark(g.fcall(f, args...))))
		}
		return e, vs
	}
	if g.chance(4) { // calls that are not as they should be
		val := func() int {
			return g.pickInt(g.integer(g.r.Intn(4)), g.str("a"), g.lit(qFloat(1.5), "1.5"), g.variable("nil"), x(), g.lit(M{"t": "byte", "y": 97}, "'a'"))
		}
		args := []int{}
		for i := g.r.Intn(4); i > 0; i-- {
			args = append(args, val())
		}
		if len(args) > 0 && g.chance(60) {
			args[0] = x()
		}
		if g.chance(20) { // lengths that are none
			args = append([]int{g.str(g.pick("int", "float", "string", "var", "bool"))}, args[:min(len(args), 2)]...)
			c := g.mark(g.fcall("slice", args...))
			if g.chance(80) {
				c = g.try(c)
			}
			return c, vs
		}
		c := g.mark(g.fcall(g.pick("max", "min", "mapFrom", "sliceFrom", "slice", "mkmap", "append", "set", "get", "delete", "len", "cap", "sub", "copy", "string", "type", "sliceOf", "mapOf"), args...))
		if g.chance(70) {
			c = g.try(c)
		}
		return c, vs
	}
	if g.chance(12) { // another name for it, or a part of it
		w := qVar{fmt.Sprintf("u%d", len(vs)), v.kind, v.key, v.el}
		e := x()
		if v.kind == "slice" && g.chance(60) {
			e = g.part(e)
		}
		return g.assign(w.name, e), append(vs, w)
	}
	if g.chance(5) {
		return g.mark(g.fcall(g.pick("type", "sliceOf", "len"), x())), vs
	}
	if v.kind == "slice" {
		if v.el == "byte" && g.chance(25) {
			return g.mark(g.fcall("string", g.pickInt(x(), g.part(x())))), vs
		}
		switch g.r.Intn(10) {
		case 0, 1, 2:
			args := []int{x()}
			for i := g.r.Intn(3); i >= 0; i-- {
				args = append(args, g.elem(v.el))
			}
			e := g.fcall("append", args...)
			if g.chance(20) {
				e = g.call(g.variable("append"), []int{x(), g.slice(args[1:]...)}, true)
			}
			if g.chance(60) {
				return g.assign(v.name, e), vs
			}
			return g.mark(e), vs
		case 3, 4:
			args := []int{x()}
			for i := g.r.Intn(2); i >= 0; i-- {
				args = append(args, g.integer(g.r.Intn(4)), g.elem(v.el))
			}
			if g.chance(3) {
				args = args[:len(args)-1]
			}
			return g.fcall("set", args...), vs
		case 5, 6:
			if g.chance(50) {
				return g.mark(g.fcall("get", x(), g.integer(g.r.Intn(4)))), vs
			}
			return g.mark(g.index(x(), g.integer(g.r.Intn(4)))), vs
		case 7:
			return g.mark(g.part(x())), vs
		case 8:
			return g.mark(g.fcall(g.pick("len", "cap"), x())), vs
		}
		return g.mark(x()), vs
	}
	switch g.r.Intn(9) {
	case 0, 1, 2:
		args := []int{x()}
		for i := g.r.Intn(2); i >= 0; i-- {
			args = append(args, g.key(v), g.elem(v.el))
		}
		return g.fcall("set", args...), vs
	case 3:
		return g.fcall("delete", x(), g.key(v)), vs
	case 4:
		return g.mark(g.fcall("get", x(), g.key(v))), vs
	case 5:
		return g.mark(g.index(x(), g.key(v))), vs
	case 6:
		if v.key == "string" {
			return g.mark(g.member(x(), g.pick("a", "b", "k"))), vs
		}
	case 7:
		return g.mark(g.fcall("len", x())), vs
	}
	return g.mark(x()), vs
}
func (g *qGen) key(v qVar) int {
	if g.chance(3) {
		return g.leaf(g.pick("int", "str", "float", "nil"))
	}
	if v.key == "int" {
		return g.integer(g.r.Intn(4))
	}
	return g.str(g.pick("a", "b", "k", "", "zz"))
}
func (g *qGen) part(x int) int {
	lo := g.r.Intn(2) * g.integer(g.r.Intn(3))
	hi := g.r.Intn(2) * g.integer(g.r.Intn(5))
	if g.chance(30) {
		nilOr := func(i int) int {
			if i == 0 {
				return g.variable("nil")
			}
			return i
		}
		return g.fcall("sub", x, nilOr(lo), nilOr(hi))
	}
	return g.subslice(x, lo, hi)
}

// --- classes --------------------------------------------------------------------------------

func (g *qGen) classProgram() []int {
	fields := []string{"x", "y", "m", "n"}
	methods := []string{"m", "n", "k"}
	items := []int{}
	this := func() int { return g.variable("this") }
	marity := map[string]int{"m": g.r.Intn(3), "n": g.r.Intn(2), "k": g.r.Intn(2)}
	getset := func(o func() int, ps []string) int {
		if g.chance(4) { // a member that the class may lack
			return g.mark(g.member(o(), g.pick("m", "n", "k", "zz", "x")))
		}
		switch g.r.Intn(9) {
		case 0, 1:
			return g.fcall("set", o(), g.str(fields[g.r.Intn(2)]), g.value(ps))
		case 2:
			return g.mark(g.member(o(), fields[g.r.Intn(2)]))
		case 3:
			if g.chance(20) {
				return g.fcall("set", o(), g.str(g.pick("m", "zz", "_init", "k")), g.value(ps))
			}
			return g.fcall("set", o(), g.str("x"), g.value(ps), g.str("y"), g.value(ps))
		case 4:
			return g.mark(g.member(o(), g.pick(fields...)))
		case 5, 6:
			m := g.pick(methods...)
			args := []int{}
			for i := 0; i < marity[m] || i < 3 && g.chance(4); i++ {
				args = append(args, g.value(ps))
			}
			return g.mark(g.call(g.member(o(), m), args, false))
		}
		return g.mark(g.member(o(), "x"))
	}
	nc := 1 + g.r.Intn(2)
	arity := map[string]int{}
	for c := 0; c < nc; c++ {
		ms := []qMethod{}
		cls := fmt.Sprintf("C%d", c)
		names := append([]string{}, methods[:1+g.r.Intn(3)]...)
		if g.chance(70) {
			names = append(names, "_init")
		}
		arity[cls] = 0
		in := g.chance(30) // declared in a function, whose variables its methods use
		for _, n := range names {
			ps := []string{}
			k := g.r.Intn(3)
			if n != "_init" && g.chance(94) {
				k = marity[n]
			}
			for i := k; i > 0; i-- {
				ps = append(ps, fmt.Sprintf("p%d", len(ps)))
			}
			va := len(ps) > 0 && g.chance(15)
			if n == "_init" {
				arity[cls] = len(ps)
			}
			b := []int{}
			args := []int{}
			for _, p := range ps {
				args = append(args, g.variable(p))
			}
			b = append(b, g.mark(args...))
			if in && g.chance(70) || g.chance(2) {
				b = append(b, g.mark(g.variable("cv"), g.variable("lv")))
				if g.chance(40) {
					b = append(b, g.inc("lv", true))
				}
			}
			if n == "_init" {
				b = append(b, g.fcall("set", this(), g.str("x"), g.value(ps), g.str("y"), g.value(ps)))
			}
			for i := g.r.Intn(3); i > 0; i-- {
				if g.chance(12) {
					b = append(b, g.assign("z", g.value(ps)), g.mark(g.variable("z")))
				} else if g.chance(15) { // recursion into another object, or the same
					b = append(b, g.mark(g.bin("==", this(), g.variable("o0"))))
				} else {
					b = append(b, getset(this, ps))
				}
			}
			if n == "_init" && len(ps) > 0 && g.chance(35) {
				b = append(b, g.ret(g.variable(ps[0])))
			} else if g.chance(60) {
				switch g.r.Intn(4) {
				case 0:
					b = append(b, g.ret(this()))
				case 1:
					b = append(b, g.ret(g.fn(nil, false, g.doc([]int{g.mark(g.member(this(), "x"))}, false))))
				default:
					b = append(b, g.ret(g.value(ps)))
				}
			}
			d := g.doc(b, false)
			if g.chance(6) {
				d = 0
			}
			ms = append(ms, qMethod{n, ps, va, d})
		}
		decl := g.class(ms)
		if in {
			decl = g.call(g.fn(w1("cv"), false, g.doc([]int{g.assign("lv", g.integer(60+c)), g.ret(decl)}, false)), []int{g.integer(50 + c)}, false)
		}
		items = append(items, g.assign(cls, decl))
	}
	objs := []string{}
	obj := func() int { return g.variable(objs[g.r.Intn(len(objs))]) }
	mk := func() {
		cls := fmt.Sprintf("C%d", g.r.Intn(nc))
		n := arity[cls]
		if g.chance(5) {
			n++
		}
		args := []int{}
		for i := 0; i < n; i++ {
			if len(objs) > 0 && g.chance(25) {
				args = append(args, obj())
			} else {
				args = append(args, g.expr("int", 0))
			}
		}
		o := fmt.Sprintf("o%d", len(objs))
		objs = append(objs, o)
		if g.chance(4) {
			cls = "h"
		}
		items = append(items, g.assign(o, g.newx(cls, args, n > 0 || g.chance(50))))
		if g.chance(70) {
			items = append(items, g.fcall("set", g.variable(o), g.str("x"), g.value(nil), g.str("y"), g.value(nil)))
		}
	}
	mk()
	bm := "m"
	for i := 2 + g.r.Intn(6); i > 0; i-- {
		switch k := g.r.Intn(14); {
		case k < 2:
			mk()
		case k < 3:
			bm = g.pick(methods...)
			items = append(items, g.assign("bm", g.member(obj(), bm)))
		case k < 4:
			args := []int{g.integer(3), g.integer(4)}[:marity[bm]]
			items = append(items, g.mark(g.call(g.variable("bm"), args, false)))
		case k < 5:
			items = append(items, g.mark(g.bin(g.pick("==", "!="), obj(), obj())))
		case k < 6: // a method called on an object named
			m := g.pick(methods...)
			args := []int{obj()}
			for i := 0; i < marity[m]; i++ {
				args = append(args, g.integer(i))
			}
			items = append(items, g.mark(g.call(g.member(g.variable("C0"), m), args, false)))
		case k < 7:
			items = append(items, g.mark(g.bin("==", g.variable("C0"), g.variable(fmt.Sprintf("C%d", g.r.Intn(nc))))))
		case k < 8:
			items = append(items, g.mark(g.call(g.call(g.member(obj(), g.pick(methods...)), []int{g.integer(1)}, false), nil, false)))
		default:
			items = append(items, getset(obj, nil))
		}
		if l := len(items) - 1; g.n[items[l]-1]["k"] != "assign" && g.chance(70) {
			items[l] = g.try(items[l])
		}
	}
	return items
}

func genQlang(r *rand.Rand, n int, profile string, emit func(interface{})) {
	for ; n > 0; n-- {
		g := &qGen{r: r, n: []M{}, wild: 2, semis: r.Intn(4) == 0}
		c := QCase{Semis: g.semis}
		c.Ops = g.setup(nil)
		switch profile {
		case "pairs":
			g.pairs(&c)
		case "expr":
			for i := 2 + r.Intn(3); i > 0; i-- {
				items := []int{}
				for j := 1 + r.Intn(2); j > 0; j-- {
					e := g.expr(g.pick("int", "float", "str", "bool", "num", "any"), 1+r.Intn(4))
					switch r.Intn(3) {
					case 0:
						e = g.mark(e)
					case 1:
						e = g.assign(g.pick("i0", "v"), e)
					}
					items = append(items, e)
				}
				c.Ops = append(c.Ops, g.eval(items))
			}
		case "control":
			items := []int{}
			g.wild = 1
			for i := 1 + r.Intn(3); i > 0; i-- {
				items = append(items, g.stmt(1+r.Intn(3)))
			}
			c.Ops = append(c.Ops, g.eval(items))
		case "scope":
			c.Ops = nil
			if g.chance(20) {
				c.Ops = append(c.Ops, g.eval(g.unsetStory(0)), g.eval([]int{g.mark(g.variable("a"))}))
				break
			}
			items := []int{}
			for i, v := range qNames4 {
				if !g.chance(10) {
					items = append(items, g.assign(v, g.integer(10*(i+1))))
				}
			}
			g.held = qNames4
			if g.chance(90) {
				items = append(items, g.assign("f", g.scopeFn(2)), g.assign("g", g.scopeFn(1)))
			}
			for i := 2 + r.Intn(5); i > 0; i-- {
				items = append(items, g.scopeStmt(2))
				if g.chance(35) {
					c.Ops = append(c.Ops, g.eval(items))
					items = nil
				}
			}
			items = append(items, g.mark())
			c.Ops = append(c.Ops, g.eval(items))
		case "calls", "exit":
			c.Ops = c.Ops[:0]
			g.wild = 0
			items := []int{g.assign("b0", g.variable("true")), g.assign("i0", g.integer(1)), g.assign("i1", g.integer(2)), g.assign("f0", g.float()),
				g.assign("s0", g.anyStr()), g.assign("x", g.integer(7)), g.assign("y", g.integer(8))}
			if profile == "exit" {
				c.Exit = true
				if g.chance(50) {
					g.fun++
				}
			}
			for i := 1 + r.Intn(3); i > 0; i-- {
				items = append(items, g.callStmt(2, nil))
				if profile == "calls" && g.chance(20) {
					c.Ops = append(c.Ops, g.eval(items))
					items = []int{g.mark()}
				}
			}
			if profile == "exit" {
				g.fun = 1
				switch r.Intn(3) {
				case 0:
					items = append(items, g.mainx(g.doc([]int{g.callStmt(2, nil), g.callStmt(1, nil)}, false)))
				case 1:
					items = append(items, g.ret(min(1, g.r.Intn(3))*g.integer(g.r.Intn(100))))
				}
				g.fun = 0
			}
			c.Ops = append(c.Ops, g.eval(items))
			if profile == "calls" && g.chance(30) { // nothing is left of it
				c.Ops = append(c.Ops, g.eval([]int{g.mark(g.variable("x")), g.callStmt(1, nil)}))
			}
		case "containers":
			g.wild = 1
			items := []int{}
			var vs []qVar
			for i := 4 + r.Intn(8); i > 0; i-- {
				var e int
				k := len(vs)
				e, vs = g.contStmt(vs)
				if nd := g.n[e-1]; nd["k"] != "assign" && len(vs) == k && g.chance(70) {
					e = g.try(e)
				}
				items = append(items, e)
				if g.chance(15) {
					c.Ops = append(c.Ops, g.eval(items))
					items = nil
				}
			}
			if len(items) > 0 {
				c.Ops = append(c.Ops, g.eval(items))
			}
		case "classes":
			g.wild = 0
			items := g.classProgram()
			if g.chance(30) {
				k := 1 + r.Intn(len(items)-1)
				c.Ops = append(c.Ops, g.eval(items[:k]), g.eval(items[k:]))
			} else {
				c.Ops = append(c.Ops, g.eval(items))
			}
		case "history":
			g.history(&c)
		}
		c.Ast = g.n
		emit(c)
	}
}

// operand: values that matter to operators
func (g *qGen) operand() int {
	neg := func(x int) int { return g.un("-", x) }
	flt := func(f float64, x string) int { return g.lit(qFloat(f), x) }
	over0 := func(n int) int { return g.paren(g.bin("/", flt(float64(n), fmt.Sprintf("%d.0", n)), flt(0, "0.0"))) }
	switch k := g.r.Intn(44); {
	case k < 8:
		return g.integer([]int{0, 1, 2, 3, 97, 98, 255, 256}[k])
	case k < 12:
		return neg(g.integer([]int{1, 2, 3, 7}[k-8]))
	case k < 17:
		f := []float64{0, 0.5, 1, 2.5, 97}[k-12]
		return flt(f, strconv.FormatFloat(f, 'f', 1, 64))
	case k < 22:
		f := []float64{0, 0.5, 1, 2.5, 3.75}[k-17]
		return neg(flt(f, strconv.FormatFloat(f, 'f', -1, 64)+map[bool]string{true: ".0"}[f == math.Trunc(f)]))
	case k < 24:
		return over0(1)
	case k < 25:
		return neg(over0(1))
	case k < 27:
		return over0(0)
	case k < 31:
		return g.str([]string{"", "a", "b", "aa"}[k-27])
	case k < 34:
		c := []string{"a", "b", "é"}[k-31]
		if c == "é" {
			return g.lit(M{"t": "byte", "y": 255}, `'\xff'`)
		}
		return g.lit(M{"t": "byte", "y": int(c[0])}, "'"+c+"'")
	case k < 38:
		return g.variable([]string{"true", "false", "nil", "undefined"}[k-34])
	case k < 39:
		return g.slice()
	case k < 40:
		return g.slice(g.integer(1))
	case k < 41:
		return g.slice(flt(1, "1.0"), g.integer(2))
	case k < 42:
		return g.dict(g.str("a"), g.integer(1))
	case k < 43:
		return g.fn(nil, false, g.doc([]int{g.integer(1)}, false))
	}
	return g.expr(qTypes[g.r.Intn(len(qTypes))], 1)
}

// pairs: every operator on operands of all kinds
// near is a number of any type that is k, or nearly so
func (g *qGen) near(k int) int {
	if g.chance(40) {
		k += g.r.Intn(3) - 1
	}
	e := 0
	n := k
	if n < 0 {
		n = -n
	}
	switch g.r.Intn(5) {
	case 0, 1:
		e = g.integer(n)
	case 2, 3:
		f, x := float64(n), fmt.Sprintf("%d.0", n)
		if g.chance(20) {
			f, x = f+0.5, fmt.Sprintf("%d.5", n)
		}
		e = g.lit(qFloat(f), x)
	case 4:
		return g.lit(M{"t": "byte", "y": n}, fmt.Sprintf(`'\x%02x'`, n))
	}
	if k < 0 {
		e = g.un("-", e)
	}
	return e
}
func (g *qGen) pairs(c *QCase) {
	ops := []string{"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!="}
	for i := 25; i > 0; i-- {
		a := g.operand()
		var e int
		switch g.r.Intn(16) {
		case 0:
			e = g.un(g.pick("-", "!", "+"), a)
		case 1:
			e = g.fcall(g.pick("int", "float", "byte", "string", "len", "cap", "type"), a)
		case 2:
			e = g.fcall(g.pick("max", "min"), a, g.operand())
		case 3:
			e = g.fcall(g.pick("max", "min"), a, g.operand(), g.operand(), g.operand())
		case 4:
			e = g.slice(a, g.operand(), g.operand(), g.operand())
		case 5:
			e = g.logic(g.chance(50), a, g.mark(g.operand()))
		case 6:
			c.Ops = append(c.Ops, g.eval([]int{g.assign("v", a), g.opas("v", g.pick("+", "-", "*", "/", "%"), g.operand())}))
			continue
		case 7:
			c.Ops = append(c.Ops, g.eval([]int{g.assign("v", a), g.inc("v", g.chance(50))}))
			continue
		case 8, 9, 10: // numbers that are equal, or nearly so, of all types
			k := g.r.Intn(3)
			n := 2 + g.r.Intn(2)*g.r.Intn(2)
			xs := []int{}
			for j := 0; j < n; j++ {
				xs = append(xs, g.near(k))
			}
			e = g.bin(ops[g.r.Intn(len(ops))], xs[0], xs[1])
			if n > 2 || g.chance(6) {
				e = g.fcall(g.pick("max", "min"), xs...)
			}
		default:
			e = g.bin(ops[g.r.Intn(len(ops))], a, g.operand())
			if g.chance(12) {
				e = g.bin(ops[g.r.Intn(len(ops))], e, g.operand())
			}
		}
		c.Ops = append(c.Ops, g.eval([]int{e}))
	}
}

// history: several evaluations on two engines, good and bad ones
func (g *qGen) history(c *QCase) {
	ops := c.Ops
	for _, o := range append([]QOp{}, ops...) {
		if g.chance(50) {
			o.G = 2
			ops = append(ops, o)
		}
	}
	var known [3]bool
	for i := 3 + g.r.Intn(5); i > 0; i-- {
		e := 1 + g.r.Intn(2)*g.r.Intn(2)
		if g.chance(15) {
			o := g.set(e, g.pick("i0", "x", "y"), M{"t": "int", "i": g.r.Intn(50)})
			ops = append(ops, o)
			continue
		}
		items := []int{}
		if !known[e] {
			known[e] = true
			items = append(items, g.assign("x", g.integer(7)), g.assign("y", g.integer(8)), g.assign("i0", g.integer(1)), g.assign("i1", g.integer(2)),
				g.assign("b0", g.variable("true")), g.assign("f0", g.float()), g.assign("s0", g.anyStr()),
				g.assign("f", g.fn(nil, false, g.doc([]int{g.mark(g.variable("x")), g.inc("x", true), g.ret(g.variable("x"))}, false))),
				g.assign("g", g.fn(w1("p0"), false, g.doc([]int{g.mark(g.variable("p0")), g.ifx([]int{g.bin(">", g.variable("p0"), g.integer(2))}, []int{g.doc([]int{g.panics()}, false)}, -1), g.ret(g.variable("p0"))}, false))))
		}
		for j := 1 + g.r.Intn(3); j > 0; j-- {
			switch g.r.Intn(8) {
			case 0:
				items = append(items, g.mark(g.fcall("f")))
			case 1:
				items = append(items, g.mark(g.fcall("g", g.integer(g.r.Intn(5)))))
			case 2:
				items = append(items, g.callStmt(2, nil))
			case 3:
				items = append(items, g.stmt(1))
			case 4:
				items = append(items, g.deferx(g.mark(g.variable("x"))))
			case 5:
				items = append(items, g.assign(g.pick("x", "y"), g.expr("int", 2)))
			case 6:
				items = append(items, g.expr("any", 2))
			case 7:
				items = append(items, g.mark(g.bin("+", g.variable("x"), g.variable("y"))))
			}
		}
		if g.chance(12) { // the failure comes with values waiting
			items = append(items, g.mark(g.integer(1), g.slice(g.integer(2), g.bin("+", g.integer(3), g.panics()))))
		}
		if g.chance(10) {
			items = append(items, g.bad())
		}
		o := g.eval(items)
		o.G = e
		if g.chance(8) {
			o.Lex = true
			o.Src += g.pick(` "ab`, " /* c", " 'ab", " \x01\x00", " `abc", " '\\q'")
		}
		ops = append(ops, o)
	}
	c.Ops = ops
}
