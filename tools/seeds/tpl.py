HEAD = '''package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/qiniu/text/tpl"
)

var _ = errors.New

func bad(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func cl(g string) (ret tpl.CompileRet, err error) { return clm(g, nil) }

func clm(g string, marker func(g tpl.Grammar, mark string) tpl.Grammar) (ret tpl.CompileRet, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	c := &tpl.Compiler{Grammar: []byte(g), Marker: marker}
	return c.Cl()
}

func must(g string) tpl.CompileRet {
	ret, err := cl(g)
	if err != nil {
		bad("%s: %v", g, err)
	}
	return ret
}

func try(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return f()
}

func accepts(g, src string) {
	ret := must(g)
	if err := try(func() error { return ret.Eval(src) }); err != nil {
		bad("%s refuses %q: %v", g, src, err)
	}
}

func refuses(g, src string) {
	ret := must(g)
	if err := try(func() error { return ret.Eval(src) }); err == nil {
		bad("%s accepts %q", g, src)
	}
}

'''
C, G, M, S = 'tpl/compiler.go', 'tpl/grammar.go', 'tpl/match.go', 'tpl/scanner.go'
SEEDS = [
 dict(id='c09-kw-unicode', property='C09', needs='a quoted word of a grammar that begins with a letter whose first byte is no Latin-1 letter (Hebrew, say)',
  breaks='keywords that begin with some non-ASCII letters are not recognised in the input: the grammar cannot match them',
  edits=[(C, '''	if t.Kind == IDENT {
		if tok, ok := p.keywords[t.Literal]; ok {''', '''	if t.Kind == IDENT && isLetter(rune(t.Literal[0])) {
		if tok, ok := p.keywords[t.Literal]; ok {''')],
  demo=HEAD + '''func main() {
	accepts(`doc = "if" IDENT;`, "if x")
	accepts("doc = \\"\\u4e16\\" IDENT;", "\\u4e16 x")
	accepts("doc = \\"\\u05e9\\u05dc\\" IDENT;", "\\u05e9\\u05dc x")
}
'''),
 dict(id='c09-list-chain', property='C09', needs='two list operators in a row, as in INT % \',\' % \';\'',
  breaks='a list of lists is compiled to one list with a choice of separators: other texts match and the counts differ',
  edits=[(C, '''		a, b := stk[n-2], stk[n-1]
		stk[n-2] = List(a, b)
''', '''		a, b := stk[n-2], stk[n-1]
		if l, ok := a.(*grList); ok { // a % b % c
			a, b = l.a, Or(l.b, b)
		}
		stk[n-2] = List(a, b)
''')],
  demo=HEAD + '''func main() {
	n := 0
	mk := func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) { n = g.Len() })
	}
	ret, err := clm("doc = (INT % ',' % ';')/m", mk)
	if err != nil {
		bad("%v", err)
	}
	if err = ret.Eval("1,2;3,4;5"); err != nil || n != 3 {
		bad("%v %d", err, n)
	}
}
'''),
 dict(id='c09-kw-twice', property='C09', needs='a quoted word that occurs twice in a grammar, with an input that needs the first occurrence',
  breaks='every occurrence of a quoted word gets a token kind of its own; only the last one can match',
  edits=[(C, '''		if tok, ok := p.keywords[kw]; ok {
			return tok
		}
''', '''		if tok, ok := p.keywords[lit]; ok {
			return tok
		}
''')],
  demo=HEAD + '''func main() {
	g := `doc = "end" IDENT | INT "end";`
	accepts(g, "1 end")
	accepts(g, "end x")
}
'''),
 dict(id='c10-redefine-same', property='C10', needs='a rule defined twice with a body that prints the same',
  breaks='a rule may be defined twice if both definitions look alike',
  edits=[(C, '''		} else if _, ok := grammars[name]; ok {
			panic("grammar already exists: " + name)
''', '''		} else if old, ok := grammars[name]; ok && Code(old, scanner) != Code(a, scanner) {
			panic("grammar already exists: " + name)
''')],
  demo=HEAD + '''func main() {
	for _, g := range []string{"a = INT; a = INT; doc = a;", "doc = INT; doc = INT;", "doc = INT; doc = IDENT;"} {
		if _, err := cl(g); err == nil {
			bad("%s accepted", g)
		}
	}
}
'''),
 dict(id='c10-unused-undefined', property='C10', needs='a name that is used but never defined, in a rule that is itself never used',
  breaks='an undefined rule is accepted when only unused rules mention it, although the rule can be matched as a sub-rule',
  edits=[(C, '''			if v.Elem == nil {
				err = fmt.Errorf("variable `%s` is not assigned", name)
				return
			}
''', '''			if v.Elem == nil && uses(root, v, make(map[Grammar]bool)) {
				err = fmt.Errorf("variable `%s` is not assigned", name)
				return
			}
'''), (C, '''func nilMarker(g Grammar, mark string) Grammar {''', '''// uses checks if a grammar refers to a variable.
func uses(g Grammar, v *GrVar, seen map[Grammar]bool) bool {
	if g == nil || seen[g] {
		return false
	}
	seen[g] = true
	all := func(gs ...Grammar) bool {
		for _, x := range gs {
			if uses(x, v, seen) {
				return true
			}
		}
		return false
	}
	switch x := g.(type) {
	case *GrVar:
		return x == v || all(x.Elem)
	case *GrNamed:
		return all(x.g)
	case *grAnd:
		return all(x.gs...)
	case *grOr:
		return all(x.gs...)
	case *grRepeat0:
		return all(x.g)
	case *grRepeat1:
		return all(x.g)
	case *grRepeat01:
		return all(x.g)
	case *grNot:
		return all(x.g)
	case *grPeek:
		return all(x.g)
	case *grList:
		return all(x.a, x.b)
	case *grAction:
		return all(x.g)
	case *grTrans:
		return all(x.g)
	case grToken, grTrue, grEOF:
		return false
	}
	return true
}

func nilMarker(g Grammar, mark string) Grammar {''')],
  demo=HEAD + '''func main() {
	for _, g := range []string{"doc = INT; b = c;", "doc = b;", "doc = a; a = b;"} {
		if _, err := cl(g); err == nil {
			bad("%s accepted", g)
		}
	}
}
'''),
 dict(id='c10-scanner-reuse', property='C10', needs='a grammar text with a keyword whose compilation fails, followed by the compilation of another text by another compiler that uses this word as a name or expects it as an identifier',
  breaks='the scanner of a failed compilation is reused by the next one, with the keywords it has learned',
  edits=[(C, '''	if p.Scanner == nil {
		p.Scanner = new(AutoKwScanner)
	}
''', '''	if p.Scanner == nil {
		if spareScanner != nil {
			p.Scanner, spareScanner = spareScanner, nil
		} else {
			p.Scanner = new(AutoKwScanner)
		}
	}
	defer func() { // nobody else will use the scanner
		if s, ok := p.Scanner.(*AutoKwScanner); ok && ret.Matcher == nil {
			spareScanner = s
		}
	}()
'''), (C, '''func nilMarker(g Grammar, mark string) Grammar {''', '''var spareScanner *AutoKwScanner

func nilMarker(g Grammar, mark string) Grammar {''')],
  demo=HEAD + '''func main() {
	if _, err := cl(`doc = "if" x;`); err == nil {
		bad("x undefined")
	}
	accepts("doc = IDENT;", "if")
}
'''),
 dict(id='c11-not-list', property='C11', needs='a look-ahead applied to a list in parentheses, as in ~(a % b)',
  breaks='the printed form drops the parentheses, so that the look-ahead covers only the element of the list',
  edits=[(G, '''	return p.g.Marshal(b, t, lvlNot)''', '''	return p.g.Marshal(b, t, lvlList)''')],
  demo=HEAD + '''func main() {
	g := "doc = ~(INT % ',') FLOAT"
	ret := must(g)
	if code := ret.Code(); code != "~(INT % ',') FLOAT" {
		bad("%s", code)
	}
}
'''),
 dict(id='c11-list0-first', property='C11', needs='a list with %= whose element is itself a list in parentheses',
  breaks='the printed form of a nested optional list loses its %=',
  edits=[(G, '''	b = append(b, ' ', '%')
	if p.list0 {
''', '''	b = append(b, ' ', '%')
	if _, nested := p.a.(*grList); nested && p.list0 {
		b = append(b, ' ')
		b = p.b.Marshal(b, t, lvlRepeat)
		if lvlParent > lvlList {
			b = append(b, ')')
		}
		return b
	}
	if p.list0 {
''')],
  demo=HEAD + '''func main() {
	ret := must("doc = INT % ',' %= ';'")
	if code := ret.Code(); code != "INT % ',' %= ';'" {
		bad("%s", code)
	}
}
'''),
 dict(id='c12-shared-tokens', property='C12', needs='a second match on the same matcher while the tokens returned by the first are still used',
  breaks='tokens are kept in a buffer of the matcher that the next match overwrites: tokens returned earlier change',
  edits=[(M, '''		tokens = append(tokens, token)
''', '''		p.tokens = append(p.tokens, token)
		tokens = p.tokens
'''), (M, '''	s.Init(file, src, onError, p.ScanMode)
''', '''	s.Init(file, src, onError, p.ScanMode)
	p.tokens = p.tokens[:0]
'''), (M, '''	Init     func()
}''', '''	Init     func()
	tokens   []Token
}''')],
  demo=HEAD + '''func main() {
	ret := must("doc = IDENT")
	next, err := ret.Match([]byte("a 1 2"), "")
	if err != nil || len(next) != 2 {
		bad("%v %v", next, err)
	}
	was := next[0]
	ret.Match([]byte("b x 'c'"), "")
	if next[0] != was {
		bad("%v %v", next[0], was)
	}
}
'''),
 dict(id='c12-exact-semi', property='C12', needs='exact matching of a text where only a semicolon is left over',
  breaks='exact matching accepts a text with a semicolon the grammar did not consume',
  edits=[(M, '''	if len(next) != 0 {
''', '''	if len(next) != 0 && !(len(next) == 1 && next[0].Kind == ';') {
''')],
  demo=HEAD + '''func main() {
	refuses("doc = IDENT", "a;")
	accepts("doc = IDENT ';'", "a;")
}
'''),
 dict(id='c12-init-once', property='C12', needs='a match that fails or is cut, followed by another match on the same matcher',
  breaks='the initializer is not run again after a match that did not succeed',
  edits=[(M, '''	if p.Init != nil {
		p.Init()
	}
	n, err := g.Match(tokens, p)
''', '''	if p.Init != nil && !p.dirty {
		p.Init()
	}
	p.dirty = true
	n, err := g.Match(tokens, p)
	p.dirty = err != nil
'''), (M, '''	Init     func()
}''', '''	Init     func()
	dirty    bool // initialized and not used
}''')],
  demo=HEAD + '''func main() {
	n := 0
	c := &tpl.Compiler{Grammar: []byte("doc = IDENT"), Init: func() { n++ }}
	ret, err := c.Cl()
	if err != nil {
		bad("%v", err)
	}
	ret.Eval("a")
	ret.Eval("1")
	ret.Eval("b")
	if n != 3 {
		bad("%d", n)
	}
}
'''),
 dict(id='c12-sub-slice', property='C12', needs='matching a named rule on a token slice when the rule consumes the slice only in part and the rest begins with EOF-like end of the text',
  breaks='a sub-rule matched on a token slice may leave tokens over if it consumed at least one',
  edits=[(C, '''		if len(doc) != matched {
''', '''		if len(doc) != matched && matched == 0 {
''')],
  demo=HEAD + '''func main() {
	ret := must("doc = a; a = INT % ','")
	toks, err := ret.Tokenize([]byte("1,2 x"), "")
	if err != nil {
		bad("%v", err)
	}
	if err = ret.EvalSub("a", toks); err == nil {
		bad("left over accepted")
	}
	if err = ret.EvalSub("a", toks[:3]); err != nil {
		bad("%v", err)
	}
}
'''),
]
