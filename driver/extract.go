package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
)

// ExtOp is an extraction.
type ExtOp struct {
	Op   string `json:"op"` // extract, safe, safeparse, parse, exact, match, sub
	Name string `json:"name"`
	Src  string `json:"src"`
}

// ExtCase is a history of extractions on one extractor.
type ExtCase struct {
	G    string  `json:"g"`
	Mode int     `json:"mode"`
	Conv bool    `json:"conv"` // the host brings its own conversion
	Ops  []ExtOp `json:"ops"`
}

var allBytes = func() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return latin1(string(b))
}()

func preExtract(raw []byte) M {
	var c ExtCase
	jget(raw, &c)
	ops := []M{}
	for _, op := range c.Ops {
		ops = append(ops, M{"x": textInfo(unlatin1(op.Src)), "r": "", "n": 0, "got": false, "doc": extValue(nil)})
	}
	return M{"x": textInfo(unlatin1(c.G)), "r": "", "tbl": allBytes, "kept": true, "ops": ops}
}

// extValue shows a value of a document.
func extValue(v interface{}) M {
	o := func(k, s string) M { return M{"k": k, "s": s, "m": M{}, "a": []M{}} }
	switch v := v.(type) {
	case nil:
		return o("nil", "")
	case int64:
		return o("int", strconv.FormatInt(v, 10))
	case float64:
		s := strconv.FormatFloat(v, 'e', -1, 64)
		if i := strings.Index(s, "e"); i >= 0 {
			exp, _ := strconv.Atoi(s[i+1:])
			s = s[:i] + "e" + strconv.Itoa(exp)
		}
		if v == 0 {
			s = "0"
		}
		return o("float", s)
	case string:
		return o("str", latin1(v))
	case byte:
		return o("byte", strconv.Itoa(int(v)))
	case map[string]interface{}:
		r := o("map", "")
		for t, x := range v {
			r["m"].(M)[latin1(t)] = extValue(x)
		}
		return r
	case []interface{}:
		r := o("arr", "")
		for _, x := range v {
			r["a"] = append(r["a"].([]M), extValue(x))
		}
		return r
	case []map[string]interface{}:
		r := o("narr", "")
		for _, x := range v {
			r["a"] = append(r["a"].([]M), extValue(x))
		}
		return r
	}
	return o(fmt.Sprintf("%T", v), fmt.Sprint(v))
}

func extConv(typ, lit string) interface{} {
	yield()
	switch typ {
	case "Nil":
		return nil
	case "Int":
		panic(errors.New("no int: " + lit))
	case "Raw":
		panic(7)
	}
	return typ + ":" + lit
}

func newExtractor(c ExtCase) (p *extractor.Engine, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	text := unlatin1(c.G)
	var g interface{} = text
	if len(text)%2 == 0 {
		g = []byte(text)
	}
	o := &extractor.Options{ScanMode: tpl.ScanMode(c.Mode)}
	if c.Conv {
		o.GetValue = extConv
	} else if c.Mode == 0 && len(text)%3 == 0 {
		o = nil
	} else if c.Mode == int(tpl.InsertSemis) && len(text)%3 == 0 {
		o = extractor.InsertSemis
	}
	return extractor.New(g, o)
}

// docKept is a document handed out and what it showed then
type docKept struct {
	doc map[string]interface{}
	was string
}

func runExtract(raw []byte) (interface{}, bool) {
	var c ExtCase
	jget(raw, &c)
	o := preExtract(raw)
	yield()
	p, err := newExtractor(c)
	if err != nil {
		o["r"] = "rej"
		return o, true
	}
	o["r"] = "ok"
	var keep []docKept
	for i, op := range c.Ops {
		ob := o["ops"].([]M)[i]
		yield()
		if doc := runExtOp(p, op, ob); doc != nil {
			keep = append(keep, docKept{doc, fmt.Sprint(doc)})
		}
	}
	for _, k := range keep { // a document is the caller's
		if fmt.Sprint(k.doc) != k.was {
			o["kept"] = false
		}
	}
	return o, true
}

func runExtOp(p *extractor.Engine, op ExtOp, ob M) (doc map[string]interface{}) {
	defer func() {
		if e := recover(); e != nil {
			ob["r"] = "fail"
			if e == interface{}(7) {
				ob["r"] = "raw"
			}
		}
	}()
	src := unlatin1(op.Src)
	var err error
	switch op.Op {
	case "extract":
		doc, err = p.Extract(src)
	case "safe":
		doc, err = p.SafeExtract(src)
	case "parse":
		doc, err = p.Parse([]byte(src), "f")
	case "safeparse":
		doc, err = p.SafeParse([]byte(src), "f")
	case "exact":
		err = p.MatchExactly([]byte(src), "f")
	case "match":
		var next []tpl.Token
		next, err = p.Match([]byte(src), "f")
		if err == nil {
			ob["n"] = len(next)
		}
	case "sub":
		err = p.EvalSub(unlatin1(op.Name), src)
	}
	ob["got"] = len(doc) > 0
	if err != nil {
		ob["r"] = "fail"
		return
	}
	ob["r"] = "ok"
	if op.Op == "exact" || op.Op == "match" || op.Op == "sub" {
		doc = p.Result()
	}
	yield()
	if again := p.Result(); fmt.Sprint(again) != fmt.Sprint(doc) {
		ob["doc"] = extValue(again)
		return
	}
	ob["doc"] = extValue(doc)
	if doc == nil {
		ob["doc"] = extValue(map[string]interface{}{})
	}
	return
}

// ---------------------------------------------------------------------------
// generation

var extLits = map[string][]string{
	"INT":    {"0", "7", "12", "007", "123456789", "9223372036854775807", "9223372036854775808", "99999999999999999999", "0x1f", "00", "1234567", "0x"},
	"FLOAT":  {"1.5", "0.25", ".5", "3.", "1e3", "2.50e-2", "1e400", "1e-400", "0.000", "12.125E+2", "1e", "100.0", "0x1.", "6.02e23"},
	"STRING": {`"a"`, `""`, `"a b"`, `"\n\t\\"`, `"\x41\x80"`, `"\101\377"`, `"\u00e9"`, `"\U0001F600"`, `"é世"`, `"\""`, "`raw\\n`", "``", "`a\r\nb`", `"'"`, `"x y\r\n"`, `"\u0416"`, `"\a\b\f\v"`},
	"CHAR":   {`'a'`, `'\n'`, `'\''`, `'\x41'`, `'\377'`, `'\u0041'`, `'é'`, `'"'`, `'\\'`, `' '`, `'\101'`, `'\U0001F600'`, `'0'`},
	"IDENT":  {"x", "ab", "été", "_0", "Name", "e3"},
	"IMAG":   {"1i", "2.5i"},
	"'+'":    {"+"},
	`"++"`:   {"++"},
	`"kw"`:   {"kw"},
}
var extKinds = []string{"INT", "FLOAT", "STRING", "CHAR", "IDENT", "IMAG", "'+'", `"++"`, `"kw"`}
var extNatural = map[string][]string{"INT": {"Int", "Float", "Text"}, "FLOAT": {"Float", "Text"}, "STRING": {"String", "Text"}, "CHAR": {"Char", "String", "Text"}, "IDENT": {"Text"}, "IMAG": {"Text"}, "'+'": {"Text"}, `"++"`: {"Text"}, `"kw"`: {"Text"}}
var extTypes = []string{"String", "Int", "Float", "Char", "Text", "Bool", "Node", "", "Raw", "Nil", "text", "Ints"}

func extSpace(r *rand.Rand) string {
	return []string{" ", " ", " ", "\n", "  ", "\t", "\n\n", " # x\n", " /* c */ "}[r.Intn(9)]
}

func extMarkName(r *rand.Rand, typ string) string {
	n := []string{"a", "b", "c", "a_b", "_", "été", "name_Int", "x1", ""}[r.Intn(9)]
	return n + "_" + typ + []string{"", "", "s", "Array"}[r.Intn(4)]
}

// typesExt: one or two marks for every kind of token, texts of literals of these kinds.
func typesExt(r *rand.Rand) ExtCase {
	var alts []string
	kinds := append([]string{}, extKinds...)
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	kinds = kinds[:2+r.Intn(4)]
	natural := map[string]bool{}
	for _, k := range kinds {
		typ := extNatural[k][r.Intn(len(extNatural[k]))]
		natural[k] = true
		if r.Intn(7) == 0 {
			typ = extTypes[r.Intn(len(extTypes))]
			natural[k] = false
		}
		m := extMarkName(r, typ)
		if r.Intn(60) == 0 {
			m = []string{"x", "Ints", "Array", "s", "xs"}[r.Intn(5)]
		}
		alt := k + "/" + m
		switch r.Intn(12) {
		case 0:
			alt = "(" + k + " ? ';')/" + m
		case 1:
			alt = "(?';' " + k + ")/" + m
		case 2:
			alt = k + "/" + m + "/" + extMarkName(r, extNatural[k][0])
		case 3:
			alt = "(" + k + "/" + m + ")/" + extMarkName(r, "Node")
		}
		alts = append(alts, alt)
	}
	rule := "doc = *item; item = " + strings.Join(alts, " | ")
	if r.Intn(12) == 0 {
		rule += " | (?'!')/" + extMarkName(r, "Text")
		rule = strings.Replace(rule, "*item", "item", 1)
	}
	c := ExtCase{G: latin1(rule + ";"), Mode: r.Intn(4), Ops: []ExtOp{}, Conv: r.Intn(6) == 0}
	for k := 1 + r.Intn(5); k > 0; k-- {
		var b strings.Builder
		for n := r.Intn(5); n >= 0; n-- {
			k := kinds[r.Intn(len(kinds))]
			ls := extLits[k]
			b.WriteString(ls[r.Intn(len(ls))] + extSpace(r))
		}
		c.Ops = append(c.Ops, ExtOp{Op: extOpName(r), Name: "item", Src: latin1(b.String())})
	}
	return c
}

func extOpName(r *rand.Rand) string {
	return []string{"extract", "extract", "safe", "safeparse", "parse", "exact", "match", "sub"}[r.Intn(8)]
}

// nestExt: nodes in brackets, abandoned when closed by '}'.
func nestExt(r *rand.Rand) ExtCase {
	tags := []string{"a", "b", "c", "n", "k"}
	tag := func() string { return tags[r.Intn(len(tags))] }
	arr := func() string { return []string{"", "s", "Array"}[r.Intn(3)] }
	leaf := func(k, t string) string { return k + "/" + tag() + "_" + t + arr() }
	node := func(o, c string) string { return "('" + o + "' *item '" + c + "')/" + tag() + "_Node" + arr() }
	alts := []string{leaf("INT", "Int"), leaf("STRING", "String"), leaf("IDENT", "Text"), node("(", ")"), node("[", "]"),
		"'(' *raw ('}' | ']')", "'[' *raw ('}' | ')')", leaf("'-' INT", "Text"), "'!' ! '='", leaf("FLOAT", "Int")}
	if r.Intn(2) == 0 { // a node that ends where another begins
		alts = append(alts, "('{' head '}')/"+tag()+"_Node"+arr(), "('{' head '=' *item '}')/"+tag()+"_Node"+arr())
	}
	if r.Intn(3) == 0 { // a node around one token, inside an action or another node
		alts = append([]string{"('.' (INT/" + tag() + "_Ints)/" + tag() + "_Node" + arr() + ")/" + tag() + "_Text" + arr(), "(('.' STRING/" + tag() + "_Strings)/" + tag() + "_Node" + arr() + ")/" + tag() + "_Node" + arr()}, alts...)
	}
	head, tail := alts[:len(alts)-2], alts[len(alts)-2:]
	r.Shuffle(len(head), func(i, j int) { head[i], head[j] = head[j], head[i] })
	alts = append(head, tail...)
	g := "doc = *item; item = " + strings.Join(alts, " | ") + "; head = IDENT/" + tag() + "_Text" + arr() + " % ','; raw = INT | STRING | IDENT | '-' | ',' | '=' | '.' | '(' *raw (')' | '}' | ']') | '[' *raw (']' | '}' | ')') | '{' *raw '}';"
	c := ExtCase{G: g, Ops: []ExtOp{}, Mode: []int{0, 0, 0, 2}[r.Intn(4)], Conv: r.Intn(10) == 0}
	for k := 1 + r.Intn(4); k > 0; k-- {
		var b strings.Builder
		n := 0
		var word func(d int)
		word = func(d int) {
			j := r.Intn(5)
			if d == 4 {
				j += 2
			}
			for ; j > 0; j-- {
				if n++; n > 22 {
					return
				}
				switch r.Intn(12) {
				case 0, 1, 11:
					b.WriteString(strconv.Itoa(r.Intn(30)) + " ")
				case 2:
					b.WriteString([]string{`"s"`, `"t\n"`, `"u"`}[r.Intn(3)] + " ")
				case 3:
					b.WriteString([]string{"x", "y", "z1"}[r.Intn(3)] + " ")
				case 4, 5, 6, 7:
					if d == 0 {
						continue
					}
					o, cl := "(", ")"
					if r.Intn(2) == 0 {
						o, cl = "[", "]"
					}
					if r.Intn(4) == 0 {
						cl = []string{"}", "]", ")", ""}[r.Intn(4)]
					}
					b.WriteString(o + " ")
					word(d - 1)
					b.WriteString(cl + " ")
				case 8:
					b.WriteString([]string{"- 5 ", "{x} ", "{x, y} ", "{x = ", "{x, y = 3 } ", ". 4 ", `. "q" `, "{x , } "}[r.Intn(8)])
				case 9:
					if r.Intn(5) == 0 {
						b.WriteString([]string{"! ", "! = ", "? ", "1.5 ", "99999999999999999999 ", "$ ", "'ab ", "} "}[r.Intn(8)])
					}
				}
			}
		}
		word(4)
		c.Ops = append(c.Ops, ExtOp{Op: extOpName(r), Name: []string{"item", "head", "raw", "nosuch", "doc"}[r.Intn(5)], Src: latin1(b.String())})
	}
	return c
}

// gramExt: any grammar, any marks
func gramExt(r *rand.Rand) (c ExtCase, ok bool) {
	p := newTplGen(r, "plain")
	p.marks = []string{"a_Text", "a_Texts", "b_Text", "b_TextArray", "n_Node", "n_Nodes", "k_NodeArray", "k_Node", "a_Node", "n_Text", "ns_Nodes", "n_Node", "k_NodeArray"}
	if r.Intn(8) == 0 {
		p.marks = append(p.marks, "i_Int", "s_String", "x_Bool")
	}
	p.pmark = 2 + r.Intn(3)
	c = ExtCase{G: latin1(layout(r, p.rules())), Mode: []int{0, 0, 1, 2, 3}[r.Intn(5)], Ops: []ExtOp{}, Conv: r.Intn(12) == 0}
	names, nodes := p.ruleNames()
	for tries := 0; len(c.Ops) < 3 && tries < 15; tries++ {
		op := ExtOp{Op: extOpName(r)}
		root := p.root
		if op.Op == "sub" {
			i := r.Intn(len(names))
			op.Name, root = latin1(names[i]), nodes[i]
		}
		src, _, ok := p.input(root)
		if !ok {
			continue
		}
		if r.Intn(12) == 0 {
			src += []string{"$", "\"x", "'ab'", "/* "}[r.Intn(4)]
		}
		op.Src = latin1(src)
		c.Ops = append(c.Ops, op)
	}
	return c, len(c.Ops) > 0
}

func genExtract(r *rand.Rand, n int, profile string, emit func(interface{})) {
	for i := 0; i < n; i++ {
		switch profile {
		case "types":
			emit(typesExt(r))
		case "nest":
			emit(nestExt(r))
		case "gram":
			c, ok := gramExt(r)
			for !ok {
				c, ok = gramExt(r)
			}
			emit(c)
		}
	}
}

func init() {
	suites["extract"] = suite{gen: genExtract, run: runExtract, pre: preExtract}
}
