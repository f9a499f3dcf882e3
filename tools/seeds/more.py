import os, runpy
D = os.path.dirname(os.path.abspath(__file__))
PEG, TPL, INTERP = [runpy.run_path(os.path.join(D, f))['HEAD'] for f in ('peg.py', 'tpl.py', 'interp.py')]
G, I = 'tpl/grammar.go', 'tpl/interpreter/interpreter.go'
VAR = '''	g := p.Elem
	if g == nil {
		return 0, ErrVarNotAssigned
	}
	return g.Match(src, ctx)
}'''
VARTYPE = '''type GrVar struct {
	Elem Grammar
	Name string
}'''
VARNEW = '	return &GrVar{nil, name}'
OPT = '''	n, err = p.g.Match(src, ctx)
	if err != nil {
		p.len = 0
		return 0, nil
	}
	p.len = 1
	return
'''
TRANS = '''	trans := p.begin()
	n, err = p.g.Match(src, ctx)
	p.end(trans, err)
	return
'''
LIST = '''		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			return
		}
		len++
		if n1 == 0 { // an empty match can be repeated forever
			p.len = len
			return
		}
		n += n1
		src = src[n1:]
	}
}

func (p *grList) Marshal'''
SEEDS = [
 dict(id='c04-opt-partial', property='C04', needs='an optional part that gets half way before it fails',
  breaks='an option that does not match consumes what it got through before it failed, when that is more than one token',
  edits=[(G, OPT, OPT.replace('		return 0, nil\n', '		if n < 2 {\n			n = 0\n		}\n		return n, nil\n'))],
  demo=PEG + '''func main() {
	a, b := tpl.Gr(tpl.IDENT), tpl.Gr(',')
	n, err, _ := match(tpl.Repeat01(tpl.And(a, b, b)), "x, y")
	if err != nil || n != 0 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c04-same-failure', property='C04', needs='a recursive rule that fails at a token and is tried on another text with the same token at the same distance from the end',
  breaks='a rule remembers where it failed last and fails there again, also on a different text of the same length',
  edits=[(G, VAR, VAR.replace('	return g.Match(src, ctx)\n', '''	if p.failed != nil && len(src) > 0 && p.failed.Src[0] == src[0] && len(p.failed.Src) == len(src) {
		return p.got, p.failed
	}
	n, err = g.Match(src, ctx)
	if e, ok := err.(*MatchError); ok && len(src) > 0 && len(e.Src) == len(src) {
		p.failed, p.got = e, n
	}
	return
''')), (G, VARTYPE, VARTYPE[:-1] + '\n	failed *MatchError // the last match, if it failed\n	got    int\n}'), (G, VARNEW, '	return &GrVar{Name: name}')],
  demo=PEG + '''func main() {
	a, b := tpl.Gr(tpl.IDENT), tpl.Gr(',')
	v := tpl.Var("v")
	v.Assign(tpl.And(tpl.Peek(tpl.And(a, b)), a, b))
	for _, s := range []string{"x ;", "x ,"} {
		n, err, _ := match(v, s)
		if s == "x ," && (err != nil || n != 2) {
			bad("%s: got %d %v", s, n, err)
		}
	}
}
'''),
 dict(id='c05-rule-remembered', property='C05', needs='a recursive rule matched twice at the same place, in two alternatives with a common beginning',
  breaks='a rule that has just matched at a place is not matched again there: its actions run only once',
  edits=[(G, VAR, VAR.replace('	return g.Match(src, ctx)\n', '''	if n = p.n; n > 0 && len(src) == len(p.at) && len(src) > 0 && &src[0] == &p.at[0] {
		p.n = 0 // once
		return
	}
	if n, err = g.Match(src, ctx); err == nil && g.Len() > 2 {
		p.at, p.n = src, n
	}
	return
''')), (G, VARTYPE, VARTYPE[:-1] + '\n	at []Token // the last match\n	n  int\n}'), (G, VARNEW, '	return &GrVar{Name: name}')],
  demo=PEG + '''func main() {
	a, b, c := tpl.Gr(tpl.IDENT), tpl.Gr(','), tpl.Gr(';')
	n := 0
	v := tpl.Var("v")
	v.Assign(tpl.And(a, a, tpl.Action(a, func(tokens []tpl.Token, g tpl.Grammar) { n++ })))
	if _, err, _ := match(tpl.Or(tpl.And(v, b), tpl.And(v, c)), "x y z ;"); err != nil || n != 2 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c05-list-total', property='C05', needs='a list whose last round fails half way, its length asked for',
  breaks='the number of elements of a list counts a separator that no element follows',
  edits=[(G, LIST, LIST.replace('''		if err1 != nil {
''', '''		if err1 != nil {
			if n1 > 0 && len > 1 {
				len++
			}
''', 1))],
  demo=PEG + '''func main() {
	a, b := tpl.Gr(tpl.IDENT), tpl.Gr(',')
	l := 0
	g := tpl.Action(tpl.List(a, b), func(tokens []tpl.Token, g tpl.Grammar) { l = g.Len() })
	if _, err, _ := match(g, "x, y,"); err != nil || l != 2 {
		bad("got %d %v", l, err)
	}
}
'''),
 dict(id='c06-at-end', property='C06', needs='a transaction tried at the end of the tokens',
  breaks='a transaction is not opened where no token is left, although its rule may match there',
  edits=[(G, TRANS, '''	if len(src) == 0 { // nothing can happen
		return p.g.Match(src, ctx)
	}
''' + TRANS)],
  demo=PEG + '''func main() {
	a := tpl.Gr(tpl.IDENT)
	n := 0
	t := tpl.Transaction(tpl.Repeat0(tpl.Gr(',')), func() interface{} { n++; return nil }, func(trans interface{}, err error) { n += 10 })
	if _, err, _ := match(tpl.And(a, t), "x"); err != nil || n != 11 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c06-end-after-cut', property='C06', needs='a transaction around a rule in which a cut aborts the match',
  breaks='a transaction is also ended when the match is aborted',
  edits=[(G, TRANS, TRANS.replace('	n, err', '''	defer func() {
		if e := recover(); e != nil {
			if e, ok := e.(*MatchError); ok {
				p.end(trans, e)
			}
			panic(e)
		}
	}()
	n, err'''))],
  demo=PEG + '''func main() {
	a, b := tpl.Gr(tpl.IDENT), tpl.Gr(',')
	n := 0
	t := tpl.Transaction(tpl.And(a, nil, b), func() interface{} { n++; return nil }, func(trans interface{}, err error) { n += 10 })
	if _, err, _ := match(tpl.Or(t, a), "x y"); err == nil || n != 1 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c07-first-in-sequence', property='C07', needs='a cut behind parts that consumed nothing',
  breaks='a cut has no effect as long as the sequence has not consumed a token',
  edits=[(G, '			if failFast {\n', '			if failFast && n > 0 {\n')],
  demo=PEG + '''func main() {
	a, b := tpl.Gr(tpl.IDENT), tpl.Gr(',')
	g := tpl.Or(tpl.And(tpl.Repeat01(b), nil, b), a)
	if n, err, _ := match(g, "x"); err == nil || n != -1 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c07-not-absorbs', property='C07', needs='a cut that fails inside a negative look-ahead',
  breaks='a negative look-ahead takes the failure behind a cut for an ordinary one',
  edits=[(G, '''	if _, err1 := p.g.Match(src, ctx); err1 != nil {
		return 0, nil
	}
''', '''	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(*MatchError); !ok {
				panic(e)
			}
			n, err = 0, nil // no match either
		}
	}()
	if _, err1 := p.g.Match(src, ctx); err1 != nil {
		return 0, nil
	}
''')],
  demo=PEG + '''func main() {
	a, b := tpl.Gr(tpl.IDENT), tpl.Gr(',')
	g := tpl.And(tpl.Not(tpl.And(a, nil, b)), a)
	if n, err, _ := match(g, "x"); err == nil || n != -1 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c11-peek-choice', property='C11', needs='a look-ahead at a choice of three alternatives, printed',
  breaks='a choice of more than two behind @ is printed without its parentheses, so only its first alternative is looked at',
  edits=[(G, '	return p.g.Marshal(b, t, lvlPeek)', '	if g, ok := p.g.(*grOr); ok && len(g.gs) > 2 {\n		return g.Marshal(b, t, lvlOr)\n	}\n	return p.g.Marshal(b, t, lvlPeek)')],
  demo=TPL + '''func main() {
	ret := must("doc = @(IDENT | INT | STRING) 1 *(IDENT | INT)")
	ret2 := must("doc = " + ret.Code())
	for _, s := range []string{"a 1", "1 a", "1"} {
		if (ret.Eval(s) == nil) != (ret2.Eval(s) == nil) {
			bad("%s differs: %s", s, ret.Code())
		}
	}
}
'''),
 dict(id='c14-engine-marks', property='C14', needs='a muted mark whose function takes the engine as well',
  breaks='marks whose functions take three parameters run although they are muted',
  edits=[(I, '			if p.mute > 0 { // ', '			if p.mute > 0 && n < 3 { // ')],
  demo=INTERP + '''
func main() {
	e := must("doc = 1/_mute INT/m 1/_unmute", T{"$m": func(s *stk, v int, c *interpreter.Context) { note(v) }})
	if err := eval(e, "1"); err != nil {
		bad("%v", err)
	}
	want("")
}
'''),
]
