HEAD = '''package main

import (
	"fmt"
	"os"

	"github.com/qiniu/text/tpl"
)

func bad(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func match(g tpl.Grammar, src string) (n int, err error, all []tpl.Token) {
	m := &tpl.Matcher{Grammar: g}
	all, e := m.Tokenize([]byte(src), "")
	if e != nil {
		bad("tokenize %v", e)
	}
	defer func() {
		if v := recover(); v != nil {
			err = v.(error)
			n = -1
		}
	}()
	n, err = g.Match(all, m)
	return
}

'''
G = 'tpl/grammar.go'
SEEDS = [
 dict(id='c04-list-trailing-sep', property='C04', needs='a list followed by the separator token (as in `a, b,`), so that the separator matches but the next element does not',
  breaks='a list consumes a separator that no element follows, although the repetition of the pair failed',
  edits=[(G, '''		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			return
		}
		len++
		if n1 == 0 { // an empty match can be repeated forever
			p.len = len
			return
		}
		n += n1
		src = src[n1:]
	}
}

func (p *grList) Marshal''', '''		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			if n1 > 0 && len > 1 { // step over what has been matched of the next item
				n += n1
			}
			return
		}
		len++
		if n1 == 0 { // an empty match can be repeated forever
			p.len = len
			return
		}
		n += n1
		src = src[n1:]
	}
}

func (p *grList) Marshal''')],
  demo=HEAD + '''func main() {
	g := tpl.List(tpl.Gr(tpl.IDENT), tpl.Gr(','))
	n, err, _ := match(g, "a,b,c,")
	if err != nil || n != 5 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c04-or-first', property='C04', needs='a choice whose first matching alternative consumes nothing while a later one consumes something',
  breaks='an alternative that matches without consuming tokens no longer ends the choice when a later alternative matches more',
  edits=[(G, '''		if n, err = g.Match(src, ctx); err == nil {
			return
		}
		if n >= nMax {''', '''		if n, err = g.Match(src, ctx); err == nil {
			if n == 0 && nMax > 0 && len(src) > nMax { // something has already got further
				empty = true
				continue
			}
			return
		}
		if n >= nMax {'''), (G, '''	var multiErr = true

''', '''	var multiErr = true
	var empty bool

'''), (G, '''	if multiErr {
		errMax =''', '''	if empty {
		return 0, nil
	}
	if multiErr {
		errMax =''')],
  demo=HEAD + '''func main() {
	a, b := tpl.Gr(tpl.IDENT), tpl.Gr(',')
	// a b | 1 | a a
	g := tpl.Or(tpl.And(a, b), tpl.GrTrue, tpl.And(a, a))
	n, err, _ := match(g, "x y z")
	if err != nil || n != 0 {
		bad("got %d %v", n, err)
	}
}
'''),
 dict(id='c05-len-recursive', property='C05', needs='a repetition inside a recursive rule, whose count is asked for after an inner match of the same repetition',
  breaks='the repetition count of * is kept in the grammar node while matching, so an inner match of the same rule changes the count of the outer one',
  edits=[(G, '''	g := p.g
	len := 0
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			return
		}
		len++
		if n1 == 0 { // an empty match can be repeated forever
			p.len = len
			return
		}
''', '''	g := p.g
	p.len = 0
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			return
		}
		p.len++
		if n1 == 0 { // an empty match can be repeated forever
			return
		}
''')],
  demo=HEAD + '''func main() {
	// e = '(' *e/count ')'
	var counts []int
	e := tpl.Var("e")
	rep := tpl.Action(tpl.Repeat0(e), func(tokens []tpl.Token, g tpl.Grammar) { counts = append(counts, g.Len()) })
	e.Assign(tpl.And(tpl.Gr('('), rep, tpl.Gr(')')))
	_, err, _ := match(e, "( (()()) () )")
	if err != nil || fmt.Sprint(counts) != "[0 0 2 0 2]" {
		bad("got %v %v", counts, err)
	}
}
'''),
 dict(id='c05-act-on-lookahead', property='C05', needs='an action attached to a rule that matches without consuming while tokens remain',
  breaks='an action on a rule that matched no tokens is skipped at the end of the input',
  edits=[(G, '''	p.act(src[:n], g)
	return''', '''	if n == 0 && len(src) == 0 { // nothing left to act on
		return
	}
	p.act(src[:n], g)
	return''')],
  demo=HEAD + '''func main() {
	k := 0
	act := func(tokens []tpl.Token, g tpl.Grammar) { k++ }
	g := tpl.And(tpl.Gr(tpl.IDENT), tpl.Action(tpl.Repeat01(tpl.Gr(',')), act))
	_, err, _ := match(g, "x")
	if err != nil || k != 1 {
		bad("got %v %v", k, err)
	}
}
'''),
 dict(id='c06-end-error', property='C06', needs='a transaction around a rule that fails after having consumed tokens',
  breaks='end is told about success when the wrapped rule failed but got past its first token',
  edits=[(G, '''	p.end(trans, err)
	return''', '''	if n > 0 {
		p.end(trans, nil)
		return
	}
	p.end(trans, err)
	return''')],
  demo=HEAD + '''func main() {
	var got []bool
	g := tpl.Or(tpl.Transaction(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr(',')),
		func() interface{} { return 1 }, func(v interface{}, err error) { got = append(got, err != nil) }), tpl.Gr(tpl.IDENT))
	_, err, _ := match(g, "x y")
	if err != nil || fmt.Sprint(got) != "[true]" {
		bad("got %v %v", got, err)
	}
}
'''),
 dict(id='c06-trans-nested-value', property='C06', needs='a transaction on a recursive rule, so that one is open inside another of the same rule',
  breaks='the value handed out by begin is kept in the grammar node: an inner transaction of the same rule replaces the value of the outer one',
  edits=[(G, '''	end   func(trans interface{}, err error)
}
''', '''	end   func(trans interface{}, err error)
	trans interface{}
}
'''), (G, '''	trans := p.begin()
	n, err = p.g.Match(src, ctx)
	p.end(trans, err)''', '''	p.trans = p.begin()
	n, err = p.g.Match(src, ctx)
	p.end(p.trans, err)'''), (G, 'return &grTrans{g, begin, end}', 'return &grTrans{g, begin, end, nil}')],
  demo=HEAD + '''func main() {
	k := 0
	var ends []interface{}
	e := tpl.Var("e")
	e.Assign(tpl.Transaction(tpl.And(tpl.Gr('('), tpl.Repeat0(e), tpl.Gr(')')),
		func() interface{} { k++; return k }, func(v interface{}, err error) { ends = append(ends, v) }))
	_, err, _ := match(e, "(())")
	if err != nil || fmt.Sprint(ends) != "[3 2 4 1]" {
		bad("got %v %v", ends, err)
	}
}
'''),
 dict(id='c07-repeat-absorbs', property='C07', needs='a cut inside a + repetition whose second or later element fails after the cut',
  breaks='+ treats a cut failure of a later element as the end of the repetition',
  edits=[(G, '''	r2 := grRepeat0{p.g, 0}
	n2, _ := r2.Match(src[n:], ctx)

	p.len = r2.len + 1
	return n + n2, nil''', '''	n2, len2 := p.rest(src[n:], ctx)
	p.len = len2 + 1
	return n + n2, nil'''), (G, '''func (p *grRepeat1) Marshal''', '''// rest matches as many further elements as possible.
func (p *grRepeat1) rest(src []Token, ctx Context) (n, count int) {
	r2 := grRepeat0{p.g, 0}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(*MatchError); !ok {
				panic(e)
			}
			n, count = 0, 0
		}
	}()
	n, _ = r2.Match(src, ctx)
	return n, r2.len
}

func (p *grRepeat1) Marshal''')],
  demo=HEAD + '''func main() {
	// +(IDENT ! '=')
	g := tpl.Repeat1(tpl.And(tpl.Gr(tpl.IDENT), nil, tpl.Gr('=')))
	n, err, _ := match(g, "a = b c")
	if n != -1 || err == nil {
		bad("got %v %v", n, err)
	}
}
'''),
 dict(id='c07-cut-scope', property='C07', needs='a sequence with a cut whose part before the cut succeeded, inside another sequence, failing at the last token of the input',
  breaks='a failure after a cut at the end of the input is an ordinary failure that alternatives recover from',
  edits=[(G, '''			if failFast {
				err =''', '''			if failFast && n+n1 < len(src) {
				err =''')],
  demo=HEAD + '''func main() {
	g := tpl.Or(tpl.And(tpl.Gr(tpl.IDENT), nil, tpl.Gr('=')), tpl.Gr(tpl.IDENT))
	n, err, _ := match(g, "a")
	if n != -1 || err == nil {
		bad("got %v %v", n, err)
	}
}
'''),
 dict(id='c08-tie-keeps-first', property='C08', needs='a choice of three alternatives in which two tie for the furthest failure, after a third that got less far',
  breaks='when several alternatives of a choice got equally far, the first of them is blamed instead of the choice',
  edits=[(G, '''			if n == nMax {
				multiErr = true
			} else {''', '''			if n == nMax {
				multiErr = errMax == nil
			} else {''')],
  demo=HEAD + '''func main() {
	a := tpl.Gr(tpl.IDENT)
	g := tpl.Or(tpl.Gr('='), tpl.And(a, tpl.Gr('+')), tpl.And(a, tpl.Gr('-')))
	_, err, _ := match(g, "a b")
	e := err.(*tpl.MatchError)
	if len(e.Src) != 2 {
		bad("blamed at %d: %v", 2-len(e.Src), err)
	}
}
'''),
 dict(id='c08-cut-position', property='C08', needs='a failure after a cut in a part that itself had matched some tokens, so that the failing part and the furthest token differ',
  breaks='a cut failure is located at the first token of the failing part instead of the token that failed',
  edits=[(G, 'err = &MatchError{p, ctx, src, err1, n + n1}', 'err = &MatchError{p, ctx, src, err1, n}')],
  demo=HEAD + '''func main() {
	a := tpl.Gr(tpl.IDENT)
	g := tpl.And(a, nil, tpl.And(a, tpl.Gr('+'), a))
	_, err, _ := match(g, "a b + 1")
	e := err.(*tpl.MatchError)
	if e.IdxErr != 3 {
		bad("index %d", e.IdxErr)
	}
}
'''),
 dict(id='c08-line-of-start', property='C08', needs='an error whose failing token is on a later line than the start of its source',
  breaks='the rendered line number is that of the first token of the failed rule',
  edits=[(G, '	line = s.File.Line(doc[idxErr].Pos)', '	if line = s.File.Line(doc[0].Pos); idxErr == n {\n		line = s.File.Line(doc[n].Pos)\n	}')],
  demo=HEAD + '''import "strings"

func main() {
	a := tpl.Gr(tpl.IDENT)
	g := tpl.And(a, nil, a, a)
	_, err, _ := match(g, "a b\\n\\n 7 7")
	if !strings.HasPrefix(err.Error(), "line 3:") {
		bad("%v", err)
	}
}
'''.replace('import "strings"\n\n', '')),
]
for s in SEEDS:
    if 'strings.' in s['demo']:
        s['demo'] = s['demo'].replace('	"os"\n', '	"os"\n	"strings"\n')
