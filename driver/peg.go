package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/qiniu/text/tpl"
)

// Node is a node of a grammar table; see spec/Peg.tla.
type Node struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	Ch []int  `json:"ch"`
	Nm string `json:"nm"`
}

// Tok is a token: kind and byte offset.
type Tok struct {
	K int `json:"k"`
	O int `json:"o"`
}

// PegCase is a grammar with an input.
type PegCase struct {
	G    []Node `json:"g"`
	Root int    `json:"root"`
	Src  string `json:"src"`
	Toks []Tok  `json:"toks"`
	Nls  []int  `json:"nls"` // offsets of newlines
}

// ---------------------------------------------------------------------------
// generation

type tokSpec struct {
	kind int
	text []string
}

var pegToks = []tokSpec{
	{int(tpl.IDENT), []string{"a", "foo", "x1", "été", "של"}},
	{int(tpl.INT), []string{"1", "42", "0x1f"}},
	{int(tpl.FLOAT), []string{"1.5", ".5", "2e3"}},
	{'+', []string{"+"}},
	{',', []string{","}},
	{'(', []string{"("}},
	{')', []string{")"}},
	{int(tpl.STRING), []string{`"s"`, "`r\nw`", `"世é"`}},
	{int(tpl.EQ), []string{"=="}},
}

// the other kinds of tokens; grammars of the matcher suite use the few above
var moreToks = []tokSpec{
	{int(tpl.IMAG), []string{"1i", "2.5i"}}, {int(tpl.CHAR), []string{"'c'", `'\n'`}},
	{'-', []string{"-"}}, {'*', []string{"*"}}, {'/', []string{"/"}}, {'%', []string{"%"}}, {'&', []string{"&"}},
	{'|', []string{"|"}}, {'^', []string{"^"}}, {'<', []string{"<"}}, {'>', []string{">"}}, {'=', []string{"="}},
	{'!', []string{"!"}}, {'[', []string{"["}}, {']', []string{"]"}}, {'{', []string{"{"}}, {'}', []string{"}"}},
	{'.', []string{"."}}, {':', []string{":"}}, {'?', []string{"?"}}, {'~', []string{"~"}}, {'@', []string{"@"}},
	{';', []string{";"}}, {int(tpl.SHL), []string{"<<"}}, {int(tpl.SHR), []string{">>"}}, {int(tpl.AND_NOT), []string{"&^"}},
	{int(tpl.ADD_ASSIGN), []string{"+="}}, {int(tpl.SUB_ASSIGN), []string{"-="}}, {int(tpl.MUL_ASSIGN), []string{"*="}},
	{int(tpl.QUO_ASSIGN), []string{"/="}}, {int(tpl.REM_ASSIGN), []string{"%="}}, {int(tpl.AND_ASSIGN), []string{"&="}},
	{int(tpl.OR_ASSIGN), []string{"|="}}, {int(tpl.XOR_ASSIGN), []string{"^="}}, {int(tpl.SHL_ASSIGN), []string{"<<="}},
	{int(tpl.SHR_ASSIGN), []string{">>="}}, {int(tpl.AND_NOT_ASSIGN), []string{"&^="}}, {int(tpl.LAND), []string{"&&"}},
	{int(tpl.LOR), []string{"||"}}, {int(tpl.ARROW), []string{"<-"}}, {int(tpl.INC), []string{"++"}}, {int(tpl.DEC), []string{"--"}},
	{int(tpl.NE), []string{"!="}}, {int(tpl.LE), []string{"<="}}, {int(tpl.GE), []string{">="}}, {int(tpl.DEFINE), []string{":="}},
	{int(tpl.ELLIPSIS), []string{"..."}},
}

func textOf(r *rand.Rand, kind int) string {
	for _, t := range moreToks {
		if t.kind == kind {
			return t.text[r.Intn(len(t.text))]
		}
	}
	for _, t := range pegToks {
		if t.kind == kind {
			return t.text[r.Intn(len(t.text))]
		}
	}
	panic("no text")
}

type pegGen struct {
	r      *rand.Rand
	g      []Node
	kinds  []int
	rules  []int // var nodes
	nact   int
	ntr    int
	pAct   float64
	pTr    float64
	pCut   float64
	ops    []string
	budget int
	nrec   int // of 20: how often a leaf is a rule
}

func (p *pegGen) add(n Node) int {
	if n.Ch == nil {
		n.Ch = []int{}
	}
	p.g = append(p.g, n)
	return len(p.g)
}

func (p *pegGen) wrap(n int) int {
	for {
		if p.r.Float64() < p.pAct {
			p.nact++
			n = p.add(Node{Op: "act", K: p.nact, Ch: []int{n}})
		} else if p.r.Float64() < p.pTr {
			p.ntr++
			n = p.add(Node{Op: "trans", K: p.ntr, Ch: []int{n}})
		} else {
			return n
		}
	}
}

func (p *pegGen) leaf() int {
	x := p.r.Intn(22)
	switch {
	case x == 20 || x == 0:
		return p.add(Node{Op: "true"})
	case x == 1:
		return p.add(Node{Op: "eof"})
	case x < 2+p.nrec && len(p.rules) > 0:
		return p.rules[p.r.Intn(len(p.rules))]
	default:
		k := p.kinds[p.r.Intn(len(p.kinds))]
		return p.add(Node{Op: "tok", K: k})
	}
}

func (p *pegGen) tree(depth int) int {
	p.budget--
	if depth == 0 || p.budget <= 0 {
		return p.wrap(p.leaf())
	}
	op := p.ops[p.r.Intn(len(p.ops))]
	switch op {
	case "leaf":
		return p.wrap(p.leaf())
	case "and":
		n := 1 + p.r.Intn(3)
		var ch []int
		for i := 0; i < n; i++ {
			if p.r.Float64() < p.pCut {
				ch = append(ch, 0)
			}
			ch = append(ch, p.tree(depth-1))
		}
		if p.r.Float64() < p.pCut/3 {
			ch = append(ch, 0)
		}
		return p.wrap(p.add(Node{Op: "and", Ch: ch}))
	case "orp": // alternatives with a common beginning
		n := 2 + p.r.Intn(2)
		k := p.kinds[p.r.Intn(len(p.kinds))]
		var ch []int
		for i := 0; i < n; i++ {
			switch p.r.Intn(6) {
			case 0:
				ch = append(ch, p.tree(depth-1))
			case 1:
				if p.r.Intn(3) == 0 {
					ch = append(ch, p.wrap(p.add(Node{Op: "true"})))
				} else {
					ch = append(ch, p.wrap(p.add(Node{Op: []string{"rep0", "rep01"}[p.r.Intn(2)], Ch: []int{p.leaf()}})))
				}
			default:
				a := []int{p.add(Node{Op: "tok", K: k})}
				if p.r.Intn(3) == 0 {
					a = append(a, p.add(Node{Op: "tok", K: k}))
				}
				if p.r.Float64() < p.pCut {
					a = append(a, 0)
				}
				if p.r.Intn(2) == 0 {
					a = append(a, p.leaf())
				} else {
					a = append(a, p.tree(depth-1))
				}
				ch = append(ch, p.wrap(p.add(Node{Op: "and", Ch: a})))
			}
		}
		return p.wrap(p.add(Node{Op: "or", Ch: ch}))
	case "or":
		n := 1 + p.r.Intn(4)
		var ch []int
		for i := 0; i < n; i++ {
			ch = append(ch, p.tree(depth-1))
		}
		return p.wrap(p.add(Node{Op: "or", Ch: ch}))
	case "list", "list0":
		a := p.tree(depth - 1)
		b := p.tree(depth - 1)
		return p.wrap(p.add(Node{Op: op, Ch: []int{a, b}}))
	case "named":
		a := p.tree(depth - 1)
		return p.wrap(p.add(Node{Op: "named", Ch: []int{a}, Nm: fmt.Sprintf("n%d", len(p.g))}))
	default:
		a := p.tree(depth - 1)
		n := p.add(Node{Op: op, Ch: []int{a}})
		if p.pAct > 0.3 && p.r.Intn(2) == 0 { // counts are asked for by actions
			p.nact++
			n = p.add(Node{Op: "act", K: p.nact, Ch: []int{n}})
		}
		return p.wrap(n)
	}
}

var pegOps = []string{"leaf", "and", "and", "and", "or", "or", "orp", "orp", "rep0", "rep1", "rep01", "list", "list0", "not", "peek", "named"}

var longOps = []string{"leaf", "and", "and", "or", "or", "orp", "rep0", "rep0", "rep1", "rep1", "list", "list0", "peek"}

// nullable and left recursion
func nullables(g []Node) []bool {
	nul := make([]bool, len(g)+1)
	nul[0] = true
	for changed := true; changed; {
		changed = false
		for i, n := range g {
			v := false
			switch n.Op {
			case "tok":
			case "true", "eof", "not", "peek", "rep0", "rep01", "list0":
				v = true
			case "and":
				v = true
				for _, c := range n.Ch {
					v = v && nul[c]
				}
			case "or":
				for _, c := range n.Ch {
					v = v || nul[c]
				}
			default: // rep1 list var named act trans
				v = n.Ch[0] != 0 && nul[n.Ch[0]]
			}
			if v && !nul[i+1] {
				nul[i+1], changed = true, true
			}
		}
	}
	return nul
}

func leftRecursive(g []Node) bool {
	nul := nullables(g)
	state := make([]int, len(g)+1)
	var visit func(n int) bool
	visit = func(n int) bool {
		if n == 0 || state[n] == 2 {
			return false
		}
		if state[n] == 1 {
			return true
		}
		state[n] = 1
		nd := g[n-1]
		switch nd.Op {
		case "and":
			for _, c := range nd.Ch {
				if visit(c) {
					return true
				}
				if !nul[c] {
					break
				}
			}
		case "list", "list0":
			if visit(nd.Ch[0]) || nul[nd.Ch[0]] && visit(nd.Ch[1]) {
				return true
			}
		default:
			for _, c := range nd.Ch {
				if visit(c) {
					return true
				}
			}
		}
		state[n] = 2
		return false
	}
	for i := range g {
		if visit(i + 1) {
			return true
		}
	}
	return false
}

// derive appends the kinds of a sentence that node n may match.
func derive(r *rand.Rand, g []Node, n int, out *[]int, depth int, max int) {
	if n == 0 || len(*out) >= max || depth > 12 {
		return
	}
	nd := g[n-1]
	times := func() int {
		if max > 10 && r.Intn(3) == 0 {
			return r.Intn(max)
		}
		x := r.Intn(4)
		if x == 3 {
			x = r.Intn(4)
		}
		return x
	}
	switch nd.Op {
	case "tok":
		*out = append(*out, nd.K)
	case "and":
		for _, c := range nd.Ch {
			derive(r, g, c, out, depth+1, max)
		}
	case "or":
		if len(nd.Ch) > 0 {
			derive(r, g, nd.Ch[r.Intn(len(nd.Ch))], out, depth+1, max)
		}
	case "rep0":
		for i := times(); i > 0; i-- {
			derive(r, g, nd.Ch[0], out, depth+1, max)
		}
	case "rep1":
		for i := times() + 1; i > 0; i-- {
			derive(r, g, nd.Ch[0], out, depth+1, max)
		}
	case "rep01":
		if r.Intn(2) == 0 {
			derive(r, g, nd.Ch[0], out, depth+1, max)
		}
	case "list", "list0":
		if nd.Op == "list0" && r.Intn(4) == 0 {
			return
		}
		derive(r, g, nd.Ch[0], out, depth+1, max)
		for i := times(); i > 0; i-- {
			derive(r, g, nd.Ch[1], out, depth+1, max)
			derive(r, g, nd.Ch[0], out, depth+1, max)
		}
	case "not", "peek", "true", "eof":
	default:
		derive(r, g, nd.Ch[0], out, depth+1, max)
	}
}

func mutate(r *rand.Rand, in []int, kinds []int) []int {
	out := append([]int(nil), in...)
	for k := r.Intn(3); k > 0; k-- {
		switch r.Intn(4) {
		case 0:
			if len(out) > 0 {
				i := r.Intn(len(out))
				out = append(out[:i], out[i+1:]...)
			}
		case 1:
			i := r.Intn(len(out) + 1)
			out = append(out[:i], append([]int{kinds[r.Intn(len(kinds))]}, out[i:]...)...)
		case 2:
			if len(out) > 0 {
				out[r.Intn(len(out))] = kinds[r.Intn(len(kinds))]
			}
		case 3:
			if len(out) > 0 {
				out = out[:r.Intn(len(out))]
			}
		}
	}
	return out
}

// render writes tokens as text with random separation.
func render(r *rand.Rand, kinds []int) string {
	var b strings.Builder
	if r.Intn(6) == 0 {
		b.WriteString([]string{" ", "\n", "\n\n", "# c\n", "/* a\nb */"}[r.Intn(5)])
	}
	for _, k := range kinds {
		b.WriteString(textOf(r, k))
		b.WriteString([]string{" ", " ", " ", "\n", "  ", "\t", "\n\n", " # x\n"}[r.Intn(8)])
	}
	s := b.String()
	if r.Intn(2) == 0 {
		s = strings.TrimRight(s, " \t")
	}
	return s
}

func genPegGrammar(r *rand.Rand, profile string) (g []Node, root int, kinds []int) {
	for {
		p := &pegGen{r: r, ops: pegOps, pAct: 0.15, pTr: 0.05, pCut: 0.06, budget: 4 + r.Intn(14)}
		switch profile {
		case "plain":
			p.pAct, p.pTr, p.pCut = 0.02, 0, 0
		case "act":
			p.pAct, p.pTr, p.pCut = 0.4, 0, 0.02
		case "trans":
			p.pAct, p.pTr, p.pCut = 0.08, 0.35, 0.04
		case "cut":
			p.pAct, p.pTr, p.pCut = 0.12, 0.05, 0.3
		case "err":
			p.pAct, p.pTr, p.pCut = 0.02, 0.02, 0.08
		case "long":
			p.pAct, p.pTr, p.pCut = 0.05, 0.02, 0.02
			p.ops = longOps
		}
		nk := []int{1, 1, 2, 2, 2, 2, 3, 3, 4, 5}[r.Intn(10)]
		p.nrec = []int{2, 4, 8, 12}[r.Intn(4)]
		for _, i := range r.Perm(len(pegToks))[:nk] {
			p.kinds = append(p.kinds, pegToks[i].kind)
		}
		if r.Intn(4) == 0 {
			p.kinds = append(p.kinds, int(tpl.INT), int(tpl.FLOAT))
		}
		nr := []int{0, 0, 1, 1, 1, 2, 2, 3}[r.Intn(8)]
		for i := 0; i < nr; i++ {
			p.rules = append(p.rules, p.add(Node{Op: "var", Ch: []int{0}, Nm: fmt.Sprintf("r%d", i)}))
		}
		depth := 1 + r.Intn(4)
		root := p.tree(depth)
		for _, v := range p.rules {
			if r.Intn(25) != 0 {
				p.budget = 3 + r.Intn(6)
				p.g[v-1].Ch[0] = p.tree(1 + r.Intn(3))
			}
		}
		if nr > 0 && r.Intn(2) == 0 {
			root = p.rules[0]
		}
		if len(p.g) > 40 || leftRecursive(p.g) {
			continue
		}
		return p.g, root, p.kinds
	}
}

func genPeg(r *rand.Rand, n int, profile string, emit func(interface{})) {
	for i := 0; i < n; {
		g, root, kinds := genPegGrammar(r, profile)
		max := 10
		if profile == "long" {
			max = []int{10, 20, 40, 70, 140, 300}[r.Intn(6)]
		}
		for k := 0; k < 3 && i < n; k++ {
			var in []int
			if r.Intn(5) == 0 {
				for j := r.Intn(7); j > 0; j-- {
					in = append(in, kinds[r.Intn(len(kinds))])
				}
			} else {
				derive(r, g, root, &in, 0, max)
				if r.Intn(2) == 0 {
					in = mutate(r, in, kinds)
				}
			}
			if len(in) > max {
				in = in[:max]
			}
			if profile == "long" && len(in) < 6 && r.Intn(20) != 0 {
				k++
				if k > 20 {
					break
				}
				continue
			}
			if pegSteps(g, root, in, 1200) > 1200 {
				continue
			}
			emit(PegCase{G: g, Root: root, Src: render(r, in), Toks: []Tok{}, Nls: []int{}})
			i++
		}
	}
}

// ---------------------------------------------------------------------------
// execution

type builder struct {
	g     []Node
	built []tpl.Grammar
	idx   map[tpl.Grammar]int
	act   func(id int, tokens []tpl.Token, g tpl.Grammar)
	begin func(id int) interface{}
	end   func(id int, v interface{}, err error)
}

// build builds the grammar of node n through the public constructors.
func (b *builder) build(n int) tpl.Grammar {
	if n == 0 {
		return nil
	}
	if b.built[n] != nil {
		return b.built[n]
	}
	nd := b.g[n-1]
	var g tpl.Grammar
	kids := func() (gs []tpl.Grammar) {
		for _, c := range nd.Ch {
			gs = append(gs, b.build(c))
		}
		return
	}
	switch nd.Op {
	case "tok":
		g = tpl.Gr(uint(nd.K))
	case "true":
		g = tpl.GrTrue
	case "eof":
		g = tpl.GrEOF
	case "and":
		g = tpl.And(kids()...)
	case "or":
		g = tpl.Or(kids()...)
	case "rep0":
		g = tpl.Repeat0(b.build(nd.Ch[0]))
	case "rep1":
		g = tpl.Repeat1(b.build(nd.Ch[0]))
	case "rep01":
		g = tpl.Repeat01(b.build(nd.Ch[0]))
	case "list":
		g = tpl.List(b.build(nd.Ch[0]), b.build(nd.Ch[1]))
	case "list0":
		g = tpl.List0(b.build(nd.Ch[0]), b.build(nd.Ch[1]))
	case "not":
		g = tpl.Not(b.build(nd.Ch[0]))
	case "peek":
		g = tpl.Peek(b.build(nd.Ch[0]))
	case "named":
		g = tpl.Named(nd.Nm, b.build(nd.Ch[0]))
		if n%3 == 0 { // given its rule later
			v := tpl.Named("?", tpl.GrEOF)
			v.Assign(nd.Nm, b.build(nd.Ch[0]))
			g = v
		}
	case "var":
		v := tpl.Var(nd.Nm)
		b.built[n] = v
		if c := nd.Ch[0]; c != 0 {
			if err := v.Assign(b.build(c)); err != nil {
				panic(err)
			}
			if n%2 == 0 && v.Assign(tpl.GrEOF) == nil {
				panic("assigned twice")
			}
		}
		return v
	case "act":
		id := nd.K
		g = tpl.Action(b.build(nd.Ch[0]), func(tokens []tpl.Token, g tpl.Grammar) { b.act(id, tokens, g) })
	case "trans":
		id := nd.K
		g = tpl.Transaction(b.build(nd.Ch[0]),
			func() interface{} { return b.begin(id) },
			func(v interface{}, err error) { b.end(id, v, err) })
	default:
		panic("op " + nd.Op)
	}
	b.built[n] = g
	return g
}

// describe turns a match error into data: the code of the grammar that failed, the index of the
// first token of its source, the relative index of the failing token, and its cause.
func describe(err error, all []tpl.Token, t tpl.Tokener) M {
	e, ok := err.(*tpl.MatchError)
	if !ok {
		if err == tpl.ErrVarNotAssigned {
			return M{"g": "", "p": 0, "x": 0, "inner": []M{}}
		}
		return M{"g": "?" + err.Error(), "p": -1, "x": -1, "inner": []M{}}
	}
	p := len(all)
	if len(e.Src) > 0 {
		p = indexOf(all, e.Src[0])
	}
	inner := []M{}
	if e.Err != nil {
		inner = append(inner, describe(e.Err, all, t))
	}
	return M{"g": tpl.Code(e.Grammar, t), "p": p, "x": e.IdxErr, "inner": inner}
}

func indexOf(all []tpl.Token, t tpl.Token) int {
	for i := range all {
		if all[i].Pos == t.Pos && all[i].Kind == t.Kind {
			return i
		}
	}
	return -1
}

type tooLong struct{}

func tokInfo(m *tpl.Matcher, all []tpl.Token) []Tok {
	f := m.Tokener().Source().File
	toks := []Tok{}
	for _, t := range all {
		toks = append(toks, Tok{int(t.Kind), f.Offset(t.Pos)})
	}
	return toks
}

// latin1 writes every byte as one character: the specification indexes texts by byte.
func latin1(s string) string {
	rs := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		rs[i] = rune(s[i])
	}
	return string(rs)
}

func newlines(src string) []int {
	nls := []int{}
	for i := range src {
		if src[i] == '\n' {
			nls = append(nls, i)
		}
	}
	return nls
}

func runPeg(raw []byte) (interface{}, bool) {
	var c PegCase
	jget(raw, &c)
	return execPeg(c)
}

func prePeg(raw []byte) M {
	var c PegCase
	jget(raw, &c)
	m := &tpl.Matcher{}
	all, err := m.Tokenize([]byte(c.Src), "")
	if err != nil {
		return M{}
	}
	return M{"n": 0, "err": noErr(), "msg": "", "toks": tokInfo(m, all), "nls": newlines(c.Src), "src": latin1(c.Src), "log": []M{}}
}

func noErr() M { return M{"g": "", "p": -1, "x": -1, "inner": []M{}} }

func execPeg(c PegCase) (obs M, keep bool) {
	m := &tpl.Matcher{}
	all, err := m.Tokenize([]byte(c.Src), "")
	if err != nil {
		return nil, false
	}
	log := []M{}
	add := func(e M) {
		if len(log) > 150 {
			panic(tooLong{})
		}
		log = append(log, e)
		yield()
	}
	tv := 0
	b := &builder{g: c.G, built: make([]tpl.Grammar, len(c.G)+1)}
	b.act = func(id int, tokens []tpl.Token, g tpl.Grammar) {
		p := -1
		if len(tokens) > 0 {
			p = indexOf(all, tokens[0])
			for i := range tokens { // the tokens are those of the source
				if p < 0 || p+i >= len(all) || all[p+i] != tokens[i] {
					p = -2
				}
			}
		}
		add(M{"e": "act", "i": id, "p": p, "n": len(tokens), "l": g.Len()})
	}
	b.begin = func(id int) interface{} {
		tv++
		add(M{"e": "begin", "i": id, "v": tv})
		return tv
	}
	b.end = func(id int, v interface{}, err error) {
		iv, ok := v.(int)
		if !ok {
			iv = -1
		}
		add(M{"e": "end", "i": id, "v": iv, "f": err != nil})
	}
	root := b.build(c.Root)
	m.Grammar = root
	for i := range c.G {
		b.build(i + 1)
	}
	obs = M{"r": "", "n": 0, "err": noErr(), "msg": "", "toks": tokInfo(m, all), "nls": newlines(c.Src), "src": latin1(c.Src)}
	fail := func(r string, err error) {
		obs["r"] = r
		obs["err"] = describe(err, all, m.Scanner)
		obs["msg"] = latin1(safeMsg(err))
	}
	keep = true
	for k := 0; k < len(c.Src)%3; k++ { // what has been matched before makes no difference
		func() {
			defer func() { recover() }()
			root.Match(otherTokens(all, len(c.Src)/3+k), m)
		}()
	}
	log, tv = []M{}, 0
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch v := e.(type) {
				case tooLong:
					obs["r"] = "long"
				case *tpl.MatchError:
					fail("abort", v)
				default:
					obs["r"] = "panic"
					obs["msg"] = fmt.Sprint(e)
				}
			}
		}()
		n, err := root.Match(all, m)
		if err != nil {
			fail("fail", err)
			return
		}
		obs["r"], obs["n"] = "ok", n
	}()
	obs["log"] = log
	return
}

// otherTokens are tokens like these: at the same places, some of other kinds, or less of them.
func otherTokens(all []tpl.Token, how int) []tpl.Token {
	n := len(all)
	toks := append([]tpl.Token{}, all[:n+1]...) // and the one behind
	kind := func(i int) uint {
		if k := all[(i+1)%n].Kind; k != all[i].Kind {
			return k
		}
		if all[i].Kind == tpl.IDENT {
			return tpl.INT
		}
		return tpl.IDENT
	}
	if n == 0 {
		return toks[:0]
	}
	switch how % 4 {
	case 0: // the last one
		toks[n-1].Kind = kind(n - 1)
	case 1: // all
		for i := range all {
			toks[i].Kind = kind(i)
		}
	case 2: // the second half
		for i := n / 2; i < n; i++ {
			toks[i].Kind = kind(i)
		}
	case 3:
		toks[n-1] = toks[n]
		return toks[:n-1]
	}
	return toks[:n]
}

func safeMsg(err error) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = "PANIC " + fmt.Sprint(e)
		}
	}()
	return err.Error()
}

func init() {
	suites["peg"] = suite{gen: genPeg, run: runPeg, pre: prePeg}
}
