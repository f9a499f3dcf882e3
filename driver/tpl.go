package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/qiniu/text/tpl"
)

// TplAst is a grammar given as objects; kind USER_TOKEN_BEGIN+i is keyword i.
type TplAst struct {
	G    []Node   `json:"g"`
	Root int      `json:"root"`
	KW   []string `json:"kw"`
}

// TplOp is a call of an entry point of a compiled grammar.
type TplOp struct {
	Op   string `json:"op"` // match, exact, eval, sub, subtok
	Name string `json:"name"`
	Src  string `json:"src"`
	A    int    `json:"a"` // subtok: the slice of the tokens
	B    int    `json:"b"`
	Boom int    `json:"boom"` // the action call that panics; 0: none
}

// TplUnit is a grammar text (or objects) with the calls made on it.
type TplUnit struct {
	G    string  `json:"g"`
	Ast  TplAst  `json:"ast"`
	Re   bool    `json:"re"` // print and compile again before the calls
	Mode int     `json:"mode"`
	Ops  []TplOp `json:"ops"`
}

// TplCase is a history of compilations and calls.
type TplCase struct {
	Units []TplUnit `json:"units"`
}

// ---------------------------------------------------------------------------
// generation

var goodNames = []string{"term", "expr", "a", "b", "x_1", "été", "if", "list", "mark", "z9", "_", "eof"}
var uniqueMarks bool

var tplKW = []string{"if", "for", "a", "été", "foo", "x1", "end", "של", "世"}

type tplGen struct {
	r     *rand.Rand
	g     []Node
	root  int
	kw    []string
	kinds []int
	marks []string
	nmark int
	one   string
	// of the interpreter suite
	pmark  int      // one in so many atoms is marked
	pmute  int      // one in so many terms is muted
	pcap   int      // one in so many rules is captured and run
	capped []string // rules that are captured and run
	lits   bool     // more spellings of numbers
}

func newTplGen(r *rand.Rand, profile string) *tplGen {
	p := &tplGen{r: r}
	sub := []string{"plain", "act", "act", "cut"}[r.Intn(4)]
	if profile == "hist" && r.Intn(2) == 0 {
		sub = "cut"
	}
	for {
		p.g, p.root, p.kinds = genPegGrammar(r, sub)
		ok := true
		for i := range p.g { // no transactions and no unassigned rules in texts
			n := &p.g[i]
			if n.Op == "trans" {
				n.Op = "act"
			}
			if n.Op == "var" && n.Ch[0] == 0 || len(n.Ch) == 0 && (n.Op == "and" || n.Op == "or") {
				ok = false
			}
		}
		if ok {
			break
		}
	}
	// some kinds become others, some become keywords
	ren := map[int]int{}
	for _, k := range p.kinds {
		if r.Intn(5) == 0 && k != int(tpl.INT) && k != int(tpl.FLOAT) {
			ren[k] = moreToks[r.Intn(len(moreToks))].kind
		}
	}
	for _, k := range p.kinds {
		if r.Intn(4) == 0 {
			if _, ok := ren[k]; !ok && k != int(tpl.INT) && k != int(tpl.FLOAT) {
				w := tplKW[r.Intn(len(tplKW))]
				idx := -1
				for i, x := range p.kw {
					if x == w {
						idx = i
					}
				}
				if idx < 0 {
					idx = len(p.kw)
					p.kw = append(p.kw, w)
				}
				ren[k] = int(tpl.USER_TOKEN_BEGIN) + idx
			}
		}
	}
	for i := range p.g {
		if v, ok := ren[p.g[i].K]; ok && p.g[i].Op == "tok" {
			p.g[i].K = v
		}
	}
	for i, k := range p.kinds {
		if v, ok := ren[k]; ok {
			p.kinds[i] = v
		}
	}
	if len(p.kw) > 0 && r.Intn(2) == 0 {
		p.kinds = append(p.kinds, int(tpl.IDENT))
	}
	p.one = []string{"1", "1", "true"}[r.Intn(3)]
	if p.kw == nil {
		p.kw = []string{}
	}
	// rules get names; parts of the grammar are moved into rules
	for i := range p.g {
		if r.Intn(12) == 0 && p.g[i].Op != "var" && len(p.g) < 40 && i+1 != p.root {
			n := p.g[i]
			p.g = append(p.g, n)
			p.g[i] = Node{Op: "named", Ch: []int{len(p.g)}, Nm: fmt.Sprintf("s%d", i)}
		}
	}
	names := goodNames
	perm := r.Perm(len(names))
	j := 0
	for i := range p.g {
		if (p.g[i].Op == "var" || p.g[i].Op == "named") && j < len(names) && r.Intn(3) == 0 {
			p.g[i].Nm = names[perm[j]]
			j++
		}
	}
	return p
}

// toks writes node n as tokens of the grammar language; lvl 0 choice, 1 sequence, 2 term, 3 factor.
func (p *tplGen) toks(n, lvl int) []string {
	if n == 0 {
		return []string{"!"}
	}
	nd := p.g[n-1]
	own := 3
	var out []string
	switch nd.Op {
	case "tok":
		if nd.K >= int(tpl.USER_TOKEN_BEGIN) {
			out = []string{`"` + p.kw[nd.K-int(tpl.USER_TOKEN_BEGIN)] + `"`}
		} else {
			out = []string{kindLit(nd.K)}
		}
	case "true":
		out = []string{p.one}
	case "eof":
		out = []string{"EOF"}
	case "and":
		own = 1
		for _, c := range nd.Ch {
			if c == 0 {
				out = append(out, "!")
			} else {
				out = append(out, p.toks(c, 2)...)
			}
		}
	case "or":
		own = 0
		for i, c := range nd.Ch {
			if i > 0 {
				out = append(out, "|")
			}
			out = append(out, p.toks(c, 1)...)
		}
	case "rep0", "rep1", "rep01", "not", "peek":
		op := map[string]string{"rep0": "*", "rep1": "+", "rep01": "?", "not": "~", "peek": "@"}[nd.Op]
		out = append([]string{op}, p.toks(nd.Ch[0], 3)...)
	case "list", "list0":
		own = 2
		op := map[string]string{"list": "%", "list0": "%="}[nd.Op]
		out = append(append(p.toks(nd.Ch[0], 2), op), p.toks(nd.Ch[1], 3)...)
	case "act":
		own = 2
		m := []string{"m", "mk", "Mk", "_x", "été", "של"}[p.r.Intn(6)]
		if p.marks != nil {
			m = p.marks[p.r.Intn(len(p.marks))]
		}
		if uniqueMarks && p.r.Intn(4) > 0 {
			p.nmark++
			m += fmt.Sprint(p.nmark)
		}
		out = append(p.toks(nd.Ch[0], 2), "/", m)
	case "named", "var":
		out = []string{nd.Nm}
		if p.pcap > 0 && p.r.Intn(p.pcap) == 0 {
			j := len(p.capped)
			p.capped = append(p.capped, nd.Nm)
			out = []string{"(", nd.Nm, "/", fmt.Sprintf("cap%d", j), "1", "/", []string{"run", "_run"}[p.r.Intn(2)] + fmt.Sprint(j), ")"}
			own = 3
		}
	}
	if p.pmark > 0 && own == 3 && p.r.Intn(p.pmark) == 0 {
		out = append(append([]string{}, out...), "/", p.marks[p.r.Intn(len(p.marks))])
		own = 2
	}
	if p.pmute > 0 && p.r.Intn(p.pmute) == 0 {
		in := append([]string{}, out...)
		if own < 2 {
			in = append(append([]string{"("}, in...), ")")
		}
		out = []string{"(", "1", "/", "_mute"}
		if p.r.Intn(4) == 0 && p.pmute < 9 {
			out = append(out, "1", "/", "_mute")
		}
		out = append(out, in...)
		switch p.r.Intn(6) {
		case 0:
		case 1:
			out = append(out, "1", "/", "_unmute", "1", "/", "_unmute")
		default:
			out = append(out, "1", "/", "_unmute")
		}
		out = append(out, ")")
		own = 3
	}
	if own < lvl || p.r.Intn(15) == 0 {
		out = append(append([]string{"("}, out...), ")")
	}
	return out
}

// rules: the token lists of all rules, the start rule first.
func (p *tplGen) rules() [][]string {
	root := p.root
	if p.g[root-1].Op == "var" {
		for i := range p.g {
			if p.g[i].Nm == "doc" {
				p.g[i].Nm = "docx"
			}
		}
		p.g[root-1].Nm = "doc"
	}
	var out [][]string
	if p.g[root-1].Op != "var" {
		out = append(out, append([]string{"doc", "="}, p.toks(root, 0)...))
	}
	for _, n := range p.g {
		if n.Op == "var" || n.Op == "named" {
			out = append(out, append([]string{n.Nm, "="}, p.toks(n.Ch[0], 0)...))
		}
	}
	p.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// kindLit is how a grammar text names a kind.
func kindLit(k int) string {
	switch k {
	case int(tpl.IDENT):
		return "IDENT"
	case int(tpl.INT):
		return "INT"
	case int(tpl.FLOAT):
		return "FLOAT"
	case int(tpl.IMAG):
		return "IMAG"
	case int(tpl.CHAR):
		return "CHAR"
	case int(tpl.STRING):
		return "STRING"
	case int(tpl.EOF):
		return "EOF"
	case int(tpl.COMMENT):
		return "COMMENT"
	}
	for _, l := range [][]tokSpec{pegToks, moreToks} {
		for _, t := range l {
			if t.kind == k {
				if len(t.text[0]) == 1 {
					return "'" + t.text[0] + "'"
				}
				return `"` + t.text[0] + `"`
			}
		}
	}
	panic(k)
}

func wordy(s string) bool {
	return s == "_" || s[0] >= 0x80 || s[0] == '_' || s[0] >= '0' && s[0] <= '9' || s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z'
}

// layout joins tokens with random blanks, newlines where the text goes on, and comments.
func layout(r *rand.Rand, rules [][]string) string {
	var b strings.Builder
	style := r.Intn(3)
	for _, rule := range rules {
		for i, t := range rule {
			b.WriteString(t)
			if i+1 == len(rule) {
				break
			}
			next := rule[i+1]
			open := !wordy(t) && t != ")" && t[0] != '"' && t[0] != '\'' && t[0] != '`'
			sep := ""
			if wordy(t) && wordy(next) || !wordy(t) && !wordy(next) && open {
				sep = " "
			}
			switch {
			case style == 0:
				sep = " "
			case open && r.Intn(8) == 0:
				sep = []string{"\n", "\n\t", " // c\n", " # c\n", " /* a\nb */ "}[r.Intn(5)]
			case r.Intn(10) == 0:
				sep = []string{"  ", "\t", " /* c */ "}[r.Intn(3)]
			case r.Intn(3) == 0:
				sep = " "
			}
			b.WriteString(sep)
		}
		b.WriteString([]string{";", "\n", ";\n", " // end\n", "\n\n", " ;\n# next\n", " /* c */\n"}[r.Intn(7)])
	}
	return b.String()
}

func (p *tplGen) spell(k int) string {
	if p.lits && k == int(tpl.INT) {
		return []string{"0", "7", "123", "0x1f", "0X7", "017", "00", "089", "9223372036854775807", "99999999999999999999"}[p.r.Intn(10)]
	}
	if p.lits && k == int(tpl.FLOAT) {
		return []string{"1.5", ".25", "0.5", "2e3", "08.5", "12.75", "1e400", "3.", "017.25"}[p.r.Intn(9)]
	}
	return textOf(p.r, k)
}

func (p *tplGen) text(kinds []int) string {
	var b strings.Builder
	for _, k := range kinds {
		if k >= int(tpl.USER_TOKEN_BEGIN) {
			b.WriteString(p.kw[k-int(tpl.USER_TOKEN_BEGIN)])
		} else {
			b.WriteString(p.spell(k))
		}
		b.WriteString([]string{" ", " ", " ", "\n", "  ", "\t", "\n\n", " # x\n", " /* c */ "}[p.r.Intn(9)])
	}
	s := b.String()
	if p.r.Intn(2) == 0 {
		s = strings.TrimRight(s, " \t")
	}
	return s
}

func (p *tplGen) input(root int) (src string, n int, ok bool) {
	r := p.r
	var in []int
	if r.Intn(6) == 0 {
		for j := r.Intn(6); j > 0; j-- {
			in = append(in, p.kinds[r.Intn(len(p.kinds))])
		}
	} else {
		derive(r, p.g, root, &in, 0, 10)
		if r.Intn(5) < 2 {
			in = mutate(r, in, p.kinds)
		}
	}
	if len(in) > 12 {
		in = in[:12]
	}
	if pegSteps(p.g, root, in, 700) > 700 {
		return "", 0, false
	}
	return p.text(in), len(in), true
}

func (p *tplGen) ruleNames() (names []string, nodes []int) {
	names, nodes = append(names, "doc"), append(nodes, p.root)
	for _, n := range p.g {
		if n.Op == "var" || n.Op == "named" {
			names, nodes = append(names, n.Nm), append(nodes, n.Ch[0])
		}
	}
	return
}

func (p *tplGen) ops(profile string, k int) []TplOp {
	ops := []TplOp{}
	r := p.r
	names, nodes := p.ruleNames()
	for tries := 0; len(ops) < k && tries < 5*k; tries++ {
		op := TplOp{Op: []string{"match", "exact", "eval"}[r.Intn(3)]}
		root := p.root
		if profile != "print" && r.Intn(3) == 0 {
			op.Op = []string{"sub", "sub", "subtok"}[r.Intn(3)]
			i := r.Intn(len(names))
			op.Name, root = names[i], nodes[i]
			if profile == "hist" && r.Intn(12) == 0 {
				op.Name = "nosuch"
			}
		}
		src, n, ok := p.input(root)
		if !ok {
			continue
		}
		op.B = n
		if op.Op == "subtok" && r.Intn(2) == 0 {
			op.A = r.Intn(n + 1)
			op.B = op.A + r.Intn(n-op.A+1)
		}
		if profile == "hist" {
			if r.Intn(7) == 0 {
				src += []string{"$", "\"x", "'ab'", "\x00", "/* "}[r.Intn(5)]
			}
			if r.Intn(5) == 0 {
				op.Boom = 1 + r.Intn(3)
			}
		}
		op.Src = latin1(src)
		op.Name = latin1(op.Name)
		ops = append(ops, op)
	}
	return ops
}

var tplVocab = []string{"doc", "=", ";", "a", "IDENT", "INT", "'+'", "'('", "\"if\"", "\"++\"", "1", "0", "2", "1.0", "true", "*", "+", "?", "~", "@", "%", "%=", "/", "|", "(", ")", "!", "FOO", "EOF", "Zed", "ZED", "Az", "A", "[",
	"STRING", "COMMENT", "ILLEGAL", "'a'", "'ab'", "`raw`", "\"\"", "\"two words\"", "m", "{", ",", "!=", "++", "\n", "\"unterminated", "$", "&", "Doc", "nodef", ":=", "\"+\"", "'", "/m", "()"}

func (p *tplGen) broken() string {
	r := p.r
	rules := p.rules()
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(rules))
		t := rules[i]
		switch r.Intn(9) {
		case 0, 1: // leave a token out
			j := r.Intn(len(t))
			rules[i] = append(append([]string{}, t[:j]...), t[j+1:]...)
		case 2, 3: // one more
			j := r.Intn(len(t) + 1)
			rules[i] = append(append(append([]string{}, t[:j]...), tplVocab[r.Intn(len(tplVocab))]), t[j:]...)
		case 4, 5: // another one
			c := append([]string{}, t...)
			c[r.Intn(len(c))] = tplVocab[r.Intn(len(tplVocab))]
			rules[i] = c
		case 6: // a rule is missing
			rules = append(append([][]string{}, rules[:i]...), rules[i+1:]...)
		case 7: // a rule twice
			rules = append(rules, append([]string{}, t...))
		case 8: // another name
			c := append([]string{}, t...)
			if len(c) > 0 {
				c[0] = []string{"doc", "a", "zz", "Foo", "true", "1"}[r.Intn(6)]
			}
			rules[i] = c
		}
		if len(rules) == 0 || len(rules[0]) == 0 {
			break
		}
		for i := 0; i < len(rules); i++ {
			if len(rules[i]) == 0 {
				rules = append(rules[:i], rules[i+1:]...)
				i--
			}
		}
		if len(rules) == 0 {
			return ""
		}
	}
	s := layout(r, rules)
	switch r.Intn(12) {
	case 0:
		i := r.Intn(len(s) + 1)
		s = s[:i]
	case 1:
		i := r.Intn(len(s) + 1)
		s = s[:i] + []string{"\x00", "\"", "'", "`", "/*", "\n", ";", "(", ")", "\xff", "é"}[r.Intn(11)] + s[i:]
	}
	return s
}

// soup: random tokens
func soup(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString("doc = ")
	}
	for k := r.Intn(10); k > 0; k-- {
		b.WriteString(tplVocab[r.Intn(len(tplVocab)-16)] + " ")
	}
	if r.Intn(2) == 0 {
		b.WriteString(";")
	}
	return b.String()
}

func (p *tplGen) ast() TplAst {
	// sequences and choices of one part cannot be written
	res := func(n int) int {
		for n != 0 && (p.g[n-1].Op == "and" || p.g[n-1].Op == "or") && len(p.g[n-1].Ch) == 1 && p.g[n-1].Ch[0] != 0 {
			n = p.g[n-1].Ch[0]
		}
		return n
	}
	g := make([]Node, len(p.g))
	for i, n := range p.g {
		n.Ch = append([]int{}, n.Ch...)
		for j, c := range n.Ch {
			n.Ch[j] = res(c)
		}
		n.Nm = latin1(n.Nm)
		g[i] = n
	}
	// only the keywords that will be printed
	seen := make([]bool, len(g)+1)
	var walk func(n int)
	walk = func(n int) {
		if n != 0 && !seen[n] {
			seen[n] = true
			for _, c := range g[n-1].Ch {
				walk(c)
			}
		}
	}
	walk(res(p.root))
	for i, n := range g {
		if n.Op == "var" || n.Op == "named" {
			walk(i + 1)
		}
	}
	kw := []string{}
	to := map[int]int{}
	for i, n := range g {
		if first := int(tpl.USER_TOKEN_BEGIN); n.Op == "tok" && n.K >= first {
			k, ok := to[n.K]
			if !ok && !seen[i+1] {
				continue
			}
			if !ok {
				k = first + len(kw)
				to[n.K] = k
				kw = append(kw, latin1(p.kw[n.K-first]))
			}
			g[i].K = k
		}
	}
	return TplAst{G: g, Root: res(p.root), KW: kw}
}

var noAst = TplAst{G: []Node{}, KW: []string{}}

func genTpl(r *rand.Rand, n int, profile string, emit func(interface{})) {
	for i := 0; i < n; i++ {
		var c TplCase
		p := newTplGen(r, profile)
		mode := 0
		if r.Intn(3) == 0 {
			mode = r.Intn(4)
		}
		good := func(k int) TplUnit {
			return TplUnit{G: latin1(layout(r, p.rules())), Ast: noAst, Mode: mode, Ops: p.ops(profile, k)}
		}
		switch profile {
		case "bad":
			for k := 1 + r.Intn(3); k > 0; k-- {
				t := ""
				if r.Intn(5) == 0 {
					t = soup(r)
				} else {
					t = p.broken()
				}
				c.Units = append(c.Units, TplUnit{G: latin1(t), Ast: noAst, Ops: []TplOp{}})
			}
			p = newTplGen(r, "sem")
			c.Units = append(c.Units, good(1))
		case "print":
			u := good(4)
			u.Re = true
			if r.Intn(2) == 0 {
				u.G = ""
				u.Ast = p.ast()
			}
			c.Units = []TplUnit{u}
		case "hist":
			c.Units = []TplUnit{good(3 + r.Intn(6))}
		default:
			c.Units = []TplUnit{good(3)}
		}
		emit(c)
	}
}

// ---------------------------------------------------------------------------
// execution

func textInfo(s string) M {
	cs, os, qs := runesOf(s)
	return M{"src": latin1(s), "c": cs, "o": os, "q": qs, "size": len(s)}
}

func preTpl(raw []byte) M {
	var c TplCase
	jget(raw, &c)
	us := []M{}
	for _, u := range c.Units {
		us = append(us, tplPreUnit(u))
	}
	return M{"u": us}
}

func tplPreUnit(u TplUnit) M {
	ops := []M{}
	for _, op := range u.Ops {
		ops = append(ops, M{"x": textInfo(unlatin1(op.Src)), "r": "", "n": 0, "at": -1, "log": []M{}, "err": noErrOf(), "msg": ""})
	}
	return M{"x": textInfo(unlatin1(u.G)), "r": "", "re": "", "static": false, "noinit": false, "fixed": true, "kept": true, "marks": []string{}, "ops": ops}
}

var errBoom = errors.New("boom")

// kept is a result of an earlier call and a copy of what it was
type kept struct{ got, was []tpl.Token }

type tplRun struct {
	keep  []kept
	log   []M
	nact  int
	boom  int
	marks []string
	ret   tpl.CompileRet

	noinit bool
}

func (p *tplRun) marker(g tpl.Grammar, mark string) tpl.Grammar {
	p.marks = append(p.marks, latin1(mark))
	yield()
	id := len(p.marks)
	return tpl.Action(g, func(tokens []tpl.Token, g tpl.Grammar) {
		o := -1
		if len(tokens) > 0 {
			o = p.ret.Tokener().Source().File.Offset(tokens[0].Pos)
		}
		p.log = append(p.log, M{"e": "act", "i": id, "o": o, "n": len(tokens), "l": g.Len()})
		yield()
		p.nact++
		if p.nact == p.boom {
			panic(errBoom)
		}
		if len(p.log) > 2000 {
			panic(tooLong{})
		}
	})
}

func compileTpl(text string, run *tplRun, mode int, marks bool) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = "rej"
		}
	}()
	c := &tpl.Compiler{Grammar: []byte(text), ScanMode: tpl.ScanMode(mode)}
	if run != nil {
		if marks {
			c.Marker = run.marker
		}
		run.noinit = len(text)%6 == 1 // some compilers have no initializer
		if !run.noinit {
			c.Init = func() {
				run.log = append(run.log, M{"e": "init"})
				yield()
			}
		}
	}
	yield()
	ret, err := c.Cl()
	if err != nil {
		return "rej"
	}
	if run != nil {
		run.ret = ret
	}
	return "ok"
}

// a rule may end with its line, except behind a '!'
func lineEnd(code string) string {
	if strings.HasSuffix(code, "!") {
		return ";\n"
	}
	return "\n"
}

// printed writes all rules of a compiled grammar.
func printed(ret tpl.CompileRet) string {
	var names []string
	for name := range ret.Grammars {
		names = append(names, name)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, name := range names {
		g := ret.Grammars[name]
		if name == "doc" {
			b.WriteString("doc = " + ret.Code() + lineEnd(ret.Code()))
		} else {
			b.WriteString(name + " = " + tpl.Code(g, ret.Tokener()) + ";\n")
		}
	}
	return b.String()
}

func printedAst(a TplAst) string {
	sc := new(tpl.AutoKwScanner)
	for _, w := range a.KW {
		sc.Ltot(`"` + unlatin1(w) + `"`)
	}
	g := append([]Node{}, a.G...)
	for i := range g {
		g[i].Nm = unlatin1(g[i].Nm)
	}
	b := &builder{g: g, built: make([]tpl.Grammar, len(g)+1)}
	b.act = func(id int, tokens []tpl.Token, g tpl.Grammar) {}
	root := b.build(a.Root)
	code := (&tpl.Matcher{Grammar: root, Scanner: sc}).Code()
	lines := map[string]string{"doc": "doc = " + code + lineEnd(code)}
	for i, n := range g {
		b.build(i + 1)
		if n.Op == "var" || n.Op == "named" {
			if n.Nm != "doc" {
				lines[n.Nm] = n.Nm + " = " + tpl.Code(b.build(n.Ch[0]), sc) + ";\n"
			} else {
				code := tpl.Code(b.build(n.Ch[0]), sc)
				lines["doc"] = "doc = " + code + lineEnd(code)
			}
		}
	}
	var names []string
	for k := range lines {
		names = append(names, k)
	}
	sort.Strings(names)
	out := ""
	for _, k := range names {
		out += lines[k]
	}
	return out
}

func runTpl(raw []byte) (interface{}, bool) {
	var c TplCase
	jget(raw, &c)
	us := []M{}
	for _, u := range c.Units {
		us = append(us, runTplUnit(u))
	}
	return M{"r": "", "u": us}, true
}

func runTplUnit(u TplUnit) M { return runTplUnitWith(u, compileTpl) }

func runTplUnitWith(u TplUnit, compile func(text string, run *tplRun, mode int, marks bool) string) (o M) {
	o = tplPreUnit(u)
	run := &tplRun{marks: []string{}}
	text := unlatin1(u.G)
	if len(u.Ast.G) > 0 {
		o["r"] = "ok"
		text = printedAst(u.Ast)
	} else {
		o["r"] = compile(text, run, u.Mode, !u.Re)
		o["marks"] = run.marks
		o["noinit"] = run.noinit
		if o["r"] != "ok" {
			return
		}
		if u.Re {
			text = printed(run.ret)
		}
	}
	if u.Re {
		o["text"] = latin1(text)
		run = &tplRun{marks: []string{}}
		o["re"] = compileTpl(text, run, u.Mode, false)
		o["noinit"] = run.noinit
		if o["re"] != "ok" {
			return
		}
		o["fixed"] = printed(run.ret) == text
	}
	for i, op := range u.Ops {
		ob := o["ops"].([]M)[i]
		run.log, run.nact, run.boom = []M{}, 0, op.Boom
		yield()
		runTplOp(run, op, ob)
		ob["log"] = run.log
	}
	for _, k := range run.keep {
		for i := range k.was {
			if k.got[i] != k.was[i] {
				o["kept"] = false
			}
		}
	}
	return
}

func noErrOf() M { return M{"g": "", "o": -1, "n": 0, "x": 0, "inner": []M{}} }

// blame is describe with offsets instead of indexes of tokens.
func blame(err error, t tpl.Tokener) M {
	e, ok := err.(*tpl.MatchError)
	if !ok {
		o := noErrOf()
		if err != tpl.ErrVarNotAssigned {
			o["g"] = latin1("?" + err.Error())
		}
		return o
	}
	o := -1
	if cap(e.Src) > 0 {
		o = t.Source().File.Offset(e.Src[:1][0].Pos)
	}
	inner := []M{}
	if e.Err != nil {
		inner = append(inner, blame(e.Err, t))
	}
	return M{"g": latin1(tpl.Code(e.Grammar, t)), "o": o, "n": len(e.Src), "x": e.IdxErr, "inner": inner}
}

func runTplOp(run *tplRun, op TplOp, ob M) {
	src := unlatin1(op.Src)
	m := run.ret.Matcher
	offset := func(t tpl.Token) int { return m.Tokener().Source().File.Offset(t.Pos) }
	fail := func(r string, err error) {
		ob["r"] = r
		if err == tpl.ErrNoGrammar {
			ob["r"] = "nogrammar"
			return
		}
		if _, ok := err.(*tpl.TokenizeError); ok {
			ob["r"] = "bad"
			return
		}
		ob["err"] = blame(err, m.Tokener())
		ob["msg"] = latin1(safeMsg(err))
		if e, ok := err.(*tpl.MatchError); ok && e.IdxErr < len(e.Src) {
			ob["at"] = offset(e.Src[e.IdxErr])
		}
	}
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case *tpl.MatchError:
				fail("abort", v)
			case tooLong:
				ob["r"] = "long"
			default:
				if e == errBoom {
					ob["r"] = "boom"
				} else {
					ob["r"] = "panic"
					ob["msg"] = fmt.Sprint(e)
				}
			}
		}
	}()
	var err error
	switch op.Op {
	case "match":
		var next []tpl.Token
		if next, err = m.Match([]byte(src), "x"); err == nil {
			ob["r"], ob["n"] = "ok", len(next)
			run.keep = append(run.keep, kept{next, append([]tpl.Token{}, next...)})
			if len(next) > 0 {
				ob["at"] = offset(next[0])
			}
			return
		}
	case "exact":
		err = m.MatchExactly([]byte(src), "x")
	case "eval":
		err = m.Eval(src)
	case "sub":
		var in interface{} = src
		if len(src)%2 == 0 {
			in = []byte(src)
		}
		err = run.ret.EvalSub(unlatin1(op.Name), in)
	case "subtok":
		var all []tpl.Token
		if all, err = m.Tokenize([]byte(src), "x"); err != nil {
			break
		}
		b := op.B
		if b > len(all) {
			b = len(all)
		}
		a := op.A
		if a > b {
			a = b
		}
		err = run.ret.EvalSub(unlatin1(op.Name), all[a:b])
	}
	if err != nil {
		fail("fail", err)
		return
	}
	ob["r"] = "ok"
}

func init() {
	suites["tpl"] = suite{gen: genTpl, run: runTpl, pre: preTpl}
}
