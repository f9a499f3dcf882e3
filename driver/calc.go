package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"math/rand"
	"strconv"
	"strings"

	ccalc "github.com/qiniu/text/tpl/cmplx"
	engine "github.com/qiniu/text/tpl/interpreter"
	ncalc "github.com/qiniu/text/tpl/number"
	rcalc "github.com/qiniu/text/tpl/rat"
)

// CalcIns is an instruction of the program the specification gives to an expression.
type CalcIns struct {
	O string `json:"o"` // lit, sym, neg, bin, call
	S string `json:"s"`
	N int    `json:"n"`
}

// CalcOp evaluates an expression; Ret asks for the result.
type CalcOp struct {
	Src string    `json:"src"`
	Ret bool      `json:"ret"`
	T   []CalcIns `json:"t"`
}

// CalcCase is a history on one calculator.
type CalcCase struct {
	Q   string   `json:"q"` // number, cmplx, rat
	Ops []CalcOp `json:"ops"`
}

var errCalc = errors.New("failure")

// ---------------------------------------------------------------------------
// the primitives: IEEE arithmetic and the functions of Go's library, applied in program order

var calcFn1 = map[string]func(float64) float64{
	"abs": math.Abs, "acos": math.Acos, "acosh": math.Acosh, "asin": math.Asin, "asinh": math.Asinh, "atan": math.Atan,
	"atanh": math.Atanh, "cbrt": math.Cbrt, "ceil": math.Ceil, "cos": math.Cos, "cosh": math.Cosh, "erf": math.Erf,
	"erfc": math.Erfc, "exp": math.Exp, "exp2": math.Exp2, "expm1": math.Expm1, "floor": math.Floor, "gamma": math.Gamma,
	"j0": math.J0, "j1": math.J1, "ln": math.Log, "log": math.Log, "log10": math.Log10, "log1p": math.Log1p, "log2": math.Log2,
	"logb": math.Logb, "sin": math.Sin, "sinh": math.Sinh, "sqrt": math.Sqrt, "tan": math.Tan, "tanh": math.Tanh,
	"trunc": math.Trunc, "y0": math.Y0, "y1": math.Y1,
	"pow10": func(a float64) float64 { return math.Pow10(int(a)) },
	"inf": func(a float64) float64 {
		if a < 0 {
			return math.Inf(-1)
		}
		return math.Inf(1)
	},
}

var calcFn2 = map[string]func(a, b float64) float64{
	"atan2": math.Atan2, "copysign": math.Copysign, "dim": math.Dim, "hypot": math.Hypot, "mod": math.Mod,
	"nextafter": math.Nextafter, "pow": math.Pow, "remainder": math.Remainder,
	"jn":    func(a, b float64) float64 { return math.Jn(int(a), b) },
	"yn":    func(a, b float64) float64 { return math.Yn(int(a), b) },
	"ldexp": func(a, b float64) float64 { return math.Ldexp(a, int(b)) },
}

var calcSym = map[string]float64{"e": math.E, "pi": math.Pi, "phi": math.Phi, "Inf": math.Inf(1), "NaN": math.NaN()}

func calcLit(s string) (float64, error) {
	if len(s) > 1 && s[0] == '0' {
		if s[1] == 'x' || s[1] == 'X' {
			v, err := strconv.ParseInt(s[2:], 16, 64)
			return float64(v), err
		}
		if v, err := strconv.ParseInt(s[1:], 8, 64); err == nil {
			return float64(v), nil
		}
	}
	return strconv.ParseFloat(s, 64)
}

func calcFloat(i CalcIns, a []float64) (float64, error) {
	switch i.O {
	case "lit":
		return calcLit(i.S)
	case "sym":
		if v, ok := calcSym[i.S]; ok {
			return v, nil
		}
	case "neg":
		return -a[0], nil
	case "bin":
		switch i.S {
		case "+":
			return a[0] + a[1], nil
		case "-":
			return a[0] - a[1], nil
		case "*":
			return a[0] * a[1], nil
		case "/":
			return a[0] / a[1], nil
		case "%":
			return math.Mod(a[0], a[1]), nil
		}
	case "call":
		if f, ok := calcFn1[i.S]; ok && len(a) == 1 {
			return f(a[0]), nil
		}
		if f, ok := calcFn2[i.S]; ok && len(a) == 2 {
			return f(a[0], a[1]), nil
		}
		switch i.S {
		case "NaN":
			return math.NaN(), nil
		case "max", "min":
			if len(a) == 0 {
				return 0, nil
			}
			m := a[0]
			for _, v := range a[1:] {
				if i.S == "max" && v > m || i.S == "min" && v < m {
					m = v
				}
			}
			return m, nil
		}
	}
	return 0, errCalc
}

var calcCFn1 = map[string]func(complex128) complex128{
	"acos": cmplx.Acos, "acosh": cmplx.Acosh, "asin": cmplx.Asin, "asinh": cmplx.Asinh, "atan": cmplx.Atan, "atanh": cmplx.Atanh,
	"conj": cmplx.Conj, "cos": cmplx.Cos, "cosh": cmplx.Cosh, "cot": cmplx.Cot, "exp": cmplx.Exp, "log": cmplx.Log,
	"log10": cmplx.Log10, "sin": cmplx.Sin, "sinh": cmplx.Sinh, "sqrt": cmplx.Sqrt, "tan": cmplx.Tan, "tanh": cmplx.Tanh,
	"abs":   func(a complex128) complex128 { return complex(cmplx.Abs(a), 0) },
	"phase": func(a complex128) complex128 { return complex(cmplx.Phase(a), 0) },
	"real":  func(a complex128) complex128 { return complex(real(a), 0) },
	"imag":  func(a complex128) complex128 { return complex(imag(a), 0) },
}

func calcComplex(i CalcIns, a []complex128) (complex128, error) {
	switch i.O {
	case "lit":
		if strings.HasSuffix(i.S, "i") {
			v, _ := strconv.ParseFloat(i.S[:len(i.S)-1], 64)
			return complex(0, v), nil
		}
		v, err := calcLit(i.S)
		return complex(v, 0), err
	case "neg":
		return -a[0], nil
	case "bin":
		switch i.S {
		case "+":
			return a[0] + a[1], nil
		case "-":
			return a[0] - a[1], nil
		case "*":
			return a[0] * a[1], nil
		case "/":
			return a[0] / a[1], nil
		}
	case "call":
		if f, ok := calcCFn1[i.S]; ok && len(a) == 1 {
			return f(a[0]), nil
		}
		reals := func() bool { return imag(a[0]) == 0 && imag(a[1]) == 0 }
		switch {
		case i.S == "inf" && len(a) == 0:
			return cmplx.Inf(), nil
		case i.S == "NaN" && len(a) == 0:
			return cmplx.NaN(), nil
		case i.S == "pow" && len(a) == 2:
			return cmplx.Pow(a[0], a[1]), nil
		case i.S == "rect" && len(a) == 2 && reals():
			return cmplx.Rect(real(a[0]), real(a[1])), nil
		case i.S == "complex" && len(a) == 2 && reals():
			return complex(real(a[0]), real(a[1])), nil
		}
	}
	return 0, errCalc
}

func calcRat(i CalcIns, a []*big.Rat) (*big.Rat, error) {
	z := new(big.Rat)
	switch i.O {
	case "lit":
		if len(i.S) > 1 && i.S[0] == '0' && (i.S[1] == 'x' || i.S[1] == 'X') {
			if v, ok := new(big.Int).SetString(i.S[2:], 16); ok {
				return z.SetInt(v), nil
			}
			return nil, errCalc
		}
		if v, ok := new(big.Int).SetString(i.S, 10); ok {
			return z.SetInt(v), nil
		}
	case "neg":
		return z.Neg(a[0]), nil
	case "bin":
		switch i.S {
		case "+":
			return z.Add(a[0], a[1]), nil
		case "-":
			return z.Sub(a[0], a[1]), nil
		case "*":
			return z.Mul(a[0], a[1]), nil
		case "/":
			if a[1].Sign() != 0 {
				return z.Quo(a[0], a[1]), nil
			}
		}
	case "call":
		switch {
		case i.S == "abs" && len(a) == 1:
			return z.Abs(a[0]), nil
		case i.S == "inv" && len(a) == 1:
			if a[0].Sign() != 0 {
				return z.Inv(a[0]), nil
			}
		case i.S == "num" && len(a) == 1:
			return z.SetInt(a[0].Num()), nil
		case i.S == "denom" && len(a) == 1:
			return z.SetInt(a[0].Denom()), nil
		case i.S == "max" || i.S == "min":
			if len(a) == 0 {
				return z, nil
			}
			m := a[0]
			for _, v := range a[1:] {
				if c := v.Cmp(m); i.S == "max" && c > 0 || i.S == "min" && c < 0 {
					m = v
				}
			}
			return z.Set(m), nil
		}
	}
	return nil, errCalc
}

func calcRun[V any](t []CalcIns, prim func(CalcIns, []V) (V, error), show func(V) string) string {
	var stk []V
	for _, i := range t {
		h := len(stk) - i.N
		v, err := prim(i, append([]V(nil), stk[h:]...))
		if err != nil {
			return "fail"
		}
		stk = append(stk[:h], v)
	}
	if len(stk) != 1 {
		return "?"
	}
	return show(stk[0])
}

func showFloat(v float64) string {
	if v != v {
		return "NaN"
	}
	return strconv.FormatFloat(v, 'x', -1, 64)
}
func showComplex(v complex128) string { return showFloat(real(v)) + " " + showFloat(imag(v)) }
func showRat(v *big.Rat) string {
	if v == nil {
		return "nil"
	}
	return v.String()
}

// ---------------------------------------------------------------------------
// execution

func runCalc(raw []byte) (interface{}, bool) {
	var c CalcCase
	jget(raw, &c)
	var eng *engine.Engine
	var err error
	var ret func() (string, bool)
	prim := func(t []CalcIns) string { return "" }
	yield()
	switch c.Q {
	case "number":
		calc := ncalc.New()
		eng, err = engine.New(calc, nil)
		ret = func() (string, bool) { v, ok := calc.Ret(); return showFloat(v), ok }
		prim = func(t []CalcIns) string { return calcRun(t, calcFloat, showFloat) }
	case "cmplx":
		calc := ccalc.New()
		eng, err = engine.New(calc, nil)
		ret = func() (string, bool) { v, ok := calc.Ret(); return showComplex(v), ok }
		prim = func(t []CalcIns) string { return calcRun(t, calcComplex, showComplex) }
	case "rat":
		calc := rcalc.New()
		eng, err = engine.New(calc, nil)
		ret = func() (string, bool) { v, ok := calc.Ret(); return showRat(v), ok }
		prim = func(t []CalcIns) string { return calcRun(t, calcRat, showRat) }
	}
	if err != nil {
		return M{"r": "err", "msg": err.Error()}, true
	}
	obs := []interface{}{}
	for _, op := range c.Ops {
		ob := M{"r": "", "msg": "", "v": "", "w": ""}
		if op.T != nil {
			ob["w"] = prim(op.T)
		}
		yield()
		func() {
			defer func() {
				if e := recover(); e != nil {
					ob["r"], ob["msg"] = "panic", latin1(fmt.Sprint(e))
					if _, ok := e.(error); ok {
						ob["r"] = "fail"
					}
				}
			}()
			if err := eng.Eval(unlatin1(op.Src)); err != nil {
				ob["r"], ob["msg"] = "fail", latin1(err.Error())
				return
			}
			yield()
			ob["r"] = "ok"
			if op.Ret {
				v, ok := ret()
				ob["v"] = v
				if !ok {
					ob["r"] = "none"
				}
			}
		}()
		obs = append(obs, ob)
	}
	return M{"r": "ok", "ops": obs}, true
}

// ---------------------------------------------------------------------------
// generation

type calcGen struct {
	r *rand.Rand
	q string
}

func (p *calcGen) pick(s ...string) string { return s[p.r.Intn(len(s))] }

func (p *calcGen) lit() string {
	r := p.r
	switch p.q {
	case "rat":
		switch r.Intn(8) {
		case 0:
			s := strconv.Itoa(1 + r.Intn(9))
			for k := r.Intn(60); k > 0; k-- {
				s += strconv.Itoa(r.Intn(10))
			}
			return s
		case 1:
			return p.pick("0", "0", "9223372036854775807", "9223372036854775808", "0x1f", "18446744073709551616")
		}
		return strconv.Itoa(r.Intn(30))
	}
	switch r.Intn(10) {
	case 0:
		return p.pick("0", "0.5", ".25", "1.", "1e3", "2.5e-1", "0x1F", "0x10", "010", "017", "1e308", "9223372036854775807", "9223372036854775808", "123456789012345678901234567890", "1e999", "0.1", "08.5", "4.9e-324")
	case 1:
		if p.q == "cmplx" {
			return p.pick("0i", "1i", "2.5i", "1e2i", "3i", "10i", ".5i")
		}
		return fmt.Sprintf("%d.%d", r.Intn(9), r.Intn(1000))
	case 2:
		if p.q == "cmplx" {
			return strconv.Itoa(r.Intn(9)) + "i"
		}
	}
	return strconv.Itoa(r.Intn(12))
}

var calcNames = map[string][]string{
	"number": {"abs", "acos", "acosh", "asin", "asinh", "atan", "atan2", "atanh", "cbrt", "ceil", "copysign", "cos", "cosh", "dim",
		"erf", "erfc", "exp", "exp2", "expm1", "floor", "gamma", "hypot", "inf", "j0", "j1", "jn", "ldexp", "ln", "log", "log10",
		"log1p", "log2", "logb", "max", "min", "mod", "NaN", "nextafter", "pow", "pow10", "remainder", "sin", "sinh", "sqrt", "tan",
		"tanh", "trunc", "y0", "y1", "yn"},
	"cmplx": {"abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "conj", "cos", "cosh", "cot", "exp", "inf", "log", "log10",
		"NaN", "phase", "pow", "rect", "sin", "sinh", "sqrt", "tan", "tanh", "real", "imag", "complex"},
	"rat": {"abs", "inv", "max", "min", "denom", "num"},
}

func (p *calcGen) arity(f string) int {
	switch f {
	case "max", "min":
		return []int{1, 2, 2, 3, 3, 4, 0, 6}[p.r.Intn(8)]
	case "NaN":
		return 0
	case "inf":
		if p.q == "cmplx" {
			return 0
		}
	}
	if calcFn2[f] != nil || f == "rect" || f == "complex" {
		return 2
	}
	return 1
}

// expr returns the tokens of an expression.
func (p *calcGen) expr(d int) []string {
	r := p.r
	if d <= 0 {
		if p.q == "number" && r.Intn(8) == 0 {
			return []string{p.pick("e", "pi", "phi", "Inf", "NaN")}
		}
		return []string{p.lit()}
	}
	switch r.Intn(12) {
	case 0:
		return append([]string{"-"}, p.expr(d-1)...)
	case 1:
		return append([]string{p.pick("+", "-")}, p.factor(d-1)...)
	case 2, 3:
		return p.factor(d)
	case 4, 5, 6:
		return p.call(d)
	default:
		out := p.expr(d - 1 - r.Intn(2))
		for k := 1 + r.Intn(3)*r.Intn(2); k >= 0; k-- {
			out = append(out, p.op())
			out = append(out, p.expr(d-1-r.Intn(2))...)
		}
		return out
	}
}

func (p *calcGen) op() string {
	if p.q == "number" {
		return p.pick("+", "-", "*", "/", "%", "-", "/")
	}
	return p.pick("+", "-", "*", "/", "-", "/")
}

func (p *calcGen) factor(d int) []string {
	if p.r.Intn(3) == 0 {
		return p.call(d)
	}
	return append(append([]string{"("}, p.expr(d-1)...), ")")
}

func (p *calcGen) call(d int) []string {
	ns := calcNames[p.q]
	f := ns[p.r.Intn(len(ns))]
	if p.r.Intn(3) == 0 && p.q != "cmplx" {
		f = p.pick("max", "min")
	}
	if p.r.Intn(40) == 0 {
		f = p.pick("foo", "max2", "ABS", "e", "push", "neg", "mul", "ARITY", "call", "Inf", "pi")
	}
	n := p.arity(f)
	if p.r.Intn(40) == 0 {
		n = p.r.Intn(4)
	}
	out := []string{f, "("}
	for k := 0; k < n; k++ {
		if k > 0 {
			out = append(out, ",")
		}
		out = append(out, p.expr(d-1-p.r.Intn(2))...)
	}
	return append(out, ")")
}

func (p *calcGen) text() string {
	r := p.r
	ts := p.expr(r.Intn(5))
	if r.Intn(40) == 0 { // long chains and deep nests
		ts = ts[:0]
		o := p.pick("-", "/", "-(", "- -")
		for k := 20 + r.Intn(60); k > 0; k-- {
			ts = append(ts, p.lit(), o)
		}
		ts = append(ts, p.lit())
		if o == "-(" {
			ts = append(ts, strings.Repeat(")", len(ts)/2))
		}
		if len(ts) > 90 && o == "/" {
			ts = ts[:81]
		}
	}
	if r.Intn(6) == 0 && len(ts) > 0 { // broken
		k := r.Intn(len(ts))
		switch r.Intn(4) {
		case 0:
			ts = append(ts[:k:k], ts[k+1:]...)
		case 1:
			ts = append(ts[:k:k], append([]string{p.pick("+", "*", ")", "(", ",", "1", "x", "e", "%", "!", "2i", "'c'", "1.5", "\"s\"", "^")}, ts[k:]...)...)
		case 2:
			ts[k] = p.pick("+", "*", ")", "(", ",", "1", "x", "pi", "%", "1e999", "2i", "1.5", "-")
		case 3:
			ts = ts[:k]
		}
	}
	s := ""
	for j, t := range ts {
		if j > 0 && (wordy(ts[j-1]) && wordy(t) || r.Intn(4) == 0 || r.Intn(10) > 0 && strings.Contains("+-*/%&", t[:1])) {
			s += p.pick(" ", " ", " ", "\t", "\n", "  ", " /* c */ ")
		}
		s += t
	}
	return s
}

func genCalc(r *rand.Rand, n int, profile string, emit func(interface{})) {
	for i := 0; i < n; i++ {
		p := &calcGen{r, []string{"number", "cmplx", "rat"}[r.Intn(3)]}
		ops := []interface{}{}
		for k := 1 + r.Intn(6); k > 0; k-- {
			s := p.text()
			ops = append(ops, M{"src": latin1(s), "ret": r.Intn(6) > 0, "x": textInfo(s)})
		}
		emit(M{"q": p.q, "ops": ops})
	}
}

func init() {
	suites["calc"] = suite{gen: genCalc, run: runCalc}
}
