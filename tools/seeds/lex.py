HEAD = '''package main

import (
	"fmt"
	"os"

	"github.com/qiniu/text/tpl"
)

var _ = fmt.Sprint

func bad(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func scan(src string, mode tpl.ScanMode) (out string, err error) {
	m := &tpl.Matcher{ScanMode: mode}
	toks, err := m.Tokenize([]byte(src), "f")
	return show(toks), err
}

func show(toks []tpl.Token) (out string) {
	for _, t := range toks {
		out += fmt.Sprintf("%d@%d..%d:%q ", t.Kind, int(t.Pos)-1, int(t.End())-1, t.Literal)
	}
	return
}

func want(src string, mode tpl.ScanMode, exp string) {
	got, err := scan(src, mode)
	if err != nil {
		bad("%q: %v", src, err)
	}
	if got != exp {
		bad("%q: got %s want %s", src, got, exp)
	}
}

func reject(src string, mode tpl.ScanMode) {
	if got, err := scan(src, mode); err == nil {
		bad("%q accepted: %s", src, got)
	}
}

'''
S = 'tpl/scanner.go'
SEEDS = [
 dict(id='c01-imag-exponent', property='C01', needs='an imaginary number with an exponent, as in 1e3i',
  breaks='1e3i is scanned as the number 1e3 and the identifier i: not the longest match',
  edits=[(S, '''		s.scanMantissa(10)
	}

	if s.ch == 'i' {''', '''		s.scanMantissa(10)
		goto exit
	}

	if s.ch == 'i' {''')],
  demo=HEAD + 'func main() { want("1e3i", 0, "6@0..4:\\"1e3i\\" ") }\n'),
 dict(id='c01-end-runes', property='C01', needs='a literal with multi-byte characters',
  breaks='the end of a token is counted in characters, not in bytes of the source',
  edits=[(S, '	n := len(p.Literal)\n', '	n := utf8.RuneCountInString(p.Literal)\n')],
  demo=HEAD + 'func main() { want("\\u00e9\\u00e8 b", 0, "3@0..4:\\"\\u00e9\\u00e8\\" 3@5..6:\\"b\\" ") }\n'),
 dict(id='c01-line-directive-mid', property='C01', needs='a //line comment that does not start its line, and a token on a later line',
  breaks='a //line comment behind other text changes the line numbers of the tokens that follow',
  edits=[(S, '		if offs == s.lineOffset {', '		if offs >= s.lineOffset {')],
  demo=HEAD + '''func main() {
	m := &tpl.Matcher{}
	src := []byte("a //line x:40\\nb")
	toks, err := m.Tokenize(src, "f")
	if err != nil {
		bad("%v", err)
	}
	for _, t := range toks {
		_ = t
	}
	s := m.Tokener().Source()
	if n := s.File.Line(toks[1].Pos); n != 2 {
		bad("line %d", n)
	}
}
'''),
 dict(id='c01-raw-lone-cr', property='C01', needs='a raw string whose only carriage returns do not stand before a newline',
  breaks='a carriage return stays in the literal of a raw string',
  edits=[(S, '''		if ch == '`' {
			break
		}
		if ch == '\\r' {''', '''		if ch == '`' {
			break
		}
		if ch == '\\r' && s.ch == '\\n' {''')],
  demo=HEAD + '''func main() {
	m := &tpl.Matcher{}
	toks, err := m.Tokenize([]byte("`a\\rb`"), "")
	if err != nil || toks[0].Literal != "`ab`" {
		bad("%v %v", toks, err)
	}
}
'''),
 dict(id='c01-comment-mode-sharp', property='C01', needs='comments requested, semicolon insertion off, and a # comment',
  breaks='a # comment is dropped although comments are requested',
  edits=[(S, 'if s.mode&ScanComments == 0 { // skip comment', 'if s.mode != ScanComments|InsertSemis { // skip comment')],
  demo=HEAD + 'func main() { want("a # c\\nb", tpl.ScanComments, "3@0..1:\\"a\\" 2@2..5:\\"# c\\" 3@6..7:\\"b\\" ") }\n'),
 dict(id='c02-eof-after-comment', property='C02', needs='a text ending in a block comment without a newline after it',
  breaks='the semicolon stands behind the comment that ends the text, not before it',
  edits=[(S, "		if s.ch < 0 || s.ch == '\\n' || s.ch == '#' {", "		if s.ch == '\\n' || s.ch == '#' {")],
  demo=HEAD + 'func main() { want("a /*c*/", tpl.InsertSemis|tpl.ScanComments, "3@0..1:\\"a\\" 59@2..3:\\"\\\\n\\" 2@2..7:\\"/*c*/\\" ") }\n'),
 dict(id='c02-init-keeps-semi', property='C02', needs='two texts on one scanner, the first rejected right behind an operand, the second starting with a newline',
  breaks='a semicolon appears at the start of a text because of the text scanned before it',
  edits=[(S, '	s.lineOffset = 0\n	s.insertSemi = false\n', '	s.lineOffset = 0\n')],
  demo=HEAD + '''func main() {
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	if _, err := m.Tokenize([]byte("a $"), ""); err == nil {
		bad("accepted")
	}
	toks, err := m.Tokenize([]byte("\\nb"), "")
	if err != nil || len(toks) != 2 {
		bad("%v %v", show(toks), err)
	}
}
'''),
 dict(id='c02-raw-multiline', property='C02', needs='a statement ending in a raw string that holds a newline',
  breaks='no semicolon behind a raw string that spans lines',
  edits=[(S, '''			insertSemi = true
			t.Kind = STRING
			t.Literal = s.scanRawString()''', '''			line := s.lineOffset
			t.Kind = STRING
			t.Literal = s.scanRawString()
			insertSemi = line == s.lineOffset''')],
  demo=HEAD + '''func main() {
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	toks, err := m.Tokenize([]byte("`a\\nb`\\nc"), "")
	if err != nil || len(toks) != 4 {
		bad("%v %v", show(toks), err)
	}
}
'''),
 dict(id='c03-octal-escape', property='C03', needs='an octal escape above \\377',
  breaks='an escape that denotes no byte is accepted',
  edits=[(S, 'n, base, max = 3, 8, 255', 'n, base, max = 3, 8, 511')],
  demo=HEAD + 'func main() { reject(`"\\400"`, 0); reject(`\'\\777\'`, 0) }\n'),
 dict(id='c03-bom-line-start', property='C03', needs='a byte-order mark at the start of a later line',
  breaks='a byte-order mark inside the text is accepted',
  edits=[(S, 'else if r == bom && s.offset > 0 {', 'else if r == bom && s.offset > s.lineOffset {')],
  demo=HEAD + 'func main() { reject("a\\n\\ufeffb", 0) }\n'),
 dict(id='c03-surrogate-end', property='C03', needs='an escape denoting the last surrogate',
  breaks='the escape \\uDFFF is accepted',
  edits=[(S, 'x < 0xE000 {', 'x < 0xDFFF {')],
  demo=HEAD + 'func main() { reject(`"\\uDFFF"`, 0) }\n'),
 dict(id='c03-unterminated-at-escape', property='C03', needs='a character literal that ends the text behind a backslash escape',
  breaks='a character literal without closing quote is accepted when its escape is the last of the text',
  edits=[(S, '''			if valid {
				s.error(offs, "rune literal not terminated")''', '''			if valid && n != 1 {
				s.error(offs, "rune literal not terminated")''')],
  demo=HEAD + 'func main() { reject("\'a", 0); reject("\'\\\\n", 0) }\n'),

 dict(id='c02-two-comments', property='C02', needs='two block comments in a row behind an operand, the line ending behind the second one',
  breaks='the look-ahead for the end of the line gives up at a second block comment, so the semicolon is lost',
  edits=[('tpl/scanner.go', '''		s.next() // consume '/'
	}

	return false
''', '''		s.next() // consume '/'
		if s.ch == '*' {
			break
		}
	}

	return false
''')],
  demo=HEAD + '''func main() {
	a, err := scan("a /* 1 */ /* 2 */\\nb", tpl.InsertSemis)
	if err != nil {
		bad("%v", err)
	}
	n := 0
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	toks, _ := m.Tokenize([]byte("a /* 1 */ /* 2 */\\nb"), "")
	for _, t := range toks {
		if t.Kind == ';' {
			n++
		}
	}
	if n != 2 {
		bad("%s", a)
	}
}
'''),
 dict(id='c01-crlf-columns', property='C01', needs='a raw string with a carriage return, and a token behind it',
  breaks='the end of a raw string token is computed from its text without the carriage returns',
  edits=[('tpl/scanner.go', '''		case '`':
			insertSemi = true
			t.Kind = STRING
			t.Literal = s.scanRawString()
''', '''		case '`':
			insertSemi = true
			t.Kind = STRING
			t.Literal = s.scanRawString()
			if n := len(t.Literal); n < s.offset-s.file.Offset(t.Pos) { // carriage returns are gone
				t.Pos = s.file.Pos(s.offset - n)
			}
''')],
  demo=HEAD + '''func main() {
	m := &tpl.Matcher{}
	toks, err := m.Tokenize([]byte("  `a\\r\\nb` c"), "")
	if err != nil {
		bad("%v", err)
	}
	if off := m.Tokener().Source().File.Offset(toks[0].Pos); off != 2 {
		bad("%d", off)
	}
}
'''),
]
