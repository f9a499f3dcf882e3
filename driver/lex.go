package main

import (
	"fmt"
	"go/token"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
)

// LexCase is a list of texts (one character per byte) tokenized one after another by one scanner.
type LexCase struct {
	Texts []string `json:"texts"`
	Mode  int      `json:"mode"` // 1 comments, 2 semicolons
	API   string   `json:"api"`  // scanner, matcher
	KW    []string `json:"kw"`
	Name  string   `json:"name"`
}

func unlatin1(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

// runesOf splits a text into code points, offsets and classes.
func runesOf(src string) (cs, os, qs []int) {
	cs, os, qs = []int{}, []int{}, []int{}
	any := false
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		c, q := int(r), 0
		if r == utf8.RuneError && w == 1 {
			c = -2
		} else if r >= 0x80 {
			if unicode.IsLetter(r) {
				q = 1
			} else if unicode.IsDigit(r) {
				q = 2
			}
		}
		cs, os, qs = append(cs, c), append(os, i), append(qs, q)
		any = any || q != 0
		i += w
	}
	if !any {
		qs = []int{}
	}
	return
}

// anyGrammar matches every token and counts them.
type anyGrammar struct{ n int }

func (p *anyGrammar) Match(src []tpl.Token, ctx tpl.Context) (int, error) {
	p.n += len(src)
	return len(src), nil
}
func (p *anyGrammar) Marshal(b []byte, t tpl.Tokener, lvl int) []byte { return b }
func (p *anyGrammar) Len() int                                        { return -1 }

func lexText(src, name string) M {
	dir := ""
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		dir = name[:i+1]
	}
	cs, os, qs := runesOf(src)
	return M{"src": latin1(src), "c": cs, "o": os, "q": qs, "size": len(src), "nls": newlines(src), "name": latin1(name),
		"dir": latin1(dir), "r": "", "toks": []M{}, "semis": []M{}, "acts": -1, "eof": len(src)}
}

func preLex(raw []byte) M {
	var c LexCase
	jget(raw, &c)
	ts := []M{}
	for _, t := range c.Texts {
		ts = append(ts, lexText(unlatin1(t), c.Name))
	}
	return M{"texts": ts}
}

func runLex(raw []byte) (interface{}, bool) {
	var c LexCase
	jget(raw, &c)
	var sc tpl.Tokener = new(tpl.Scanner)
	kwBad := false
	if len(c.KW) > 0 {
		as := new(tpl.AutoKwScanner)
		for i, w := range c.KW {
			if as.Ltot(`"`+unlatin1(w)+`"`) != tpl.USER_TOKEN_BEGIN+uint(i) {
				kwBad = true
			}
		}
		sc = as
	}
	g := new(anyGrammar)
	m := &tpl.Matcher{Grammar: g, Scanner: sc, ScanMode: tpl.ScanMode(c.Mode)}
	ts := []M{}
	for _, t := range c.Texts {
		yield()
		src := unlatin1(t)
		o := lexText(src, c.Name)
		ts = append(ts, o)
		func() {
			defer func() {
				if e := recover(); e != nil {
					o["r"] = "panic"
					o["msg"] = fmt.Sprint(e)
				}
			}()
			var toks []tpl.Token
			var file *token.File
			if c.API == "matcher" {
				var err error
				g.n = 0
				toks, err = m.Tokenize([]byte(src), c.Name)
				file = m.Tokener().Source().File
				_, err2 := m.Match([]byte(src), c.Name)
				o["acts"] = g.n
				if (err == nil) != (err2 == nil) {
					o["r"] = "inconsistent"
					return
				}
				if err != nil {
					if _, ok := err.(*tpl.TokenizeError); !ok {
						o["r"] = "inconsistent"
						return
					}
					o["r"] = "bad"
					return
				}
			} else {
				fset := token.NewFileSet()
				file = fset.AddFile(c.Name, -1, len(src))
				errs := 0
				sc.Init(file, []byte(src), func(token.Position, string) { errs++ }, tpl.ScanMode(c.Mode))
				for {
					yield()
					t := sc.Scan()
					if t.Kind == tpl.EOF {
						o["eof"] = file.Offset(t.Pos)
						if again := sc.Scan(); again.Kind != tpl.EOF {
							o["eof"] = -1
						}
						break
					}
					toks = append(toks, t)
					if len(toks) > 3*len(src)+10 {
						o["r"] = "runaway"
						return
					}
				}
				if errs > 0 {
					o["r"] = "bad"
					return
				}
			}
			o["r"] = "ok"
			ws, ss := []M{}, []M{}
			for _, t := range toks {
				off := int(t.Pos) - file.Base()
				if t.Kind == tpl.SEMICOLON && t.Literal == "\n" {
					ss = append(ss, M{"o": off, "n": len(ws)})
					continue
				}
				p := file.Position(t.Pos)
				ws = append(ws, M{"k": int(t.Kind), "o": off, "e": int(t.End()) - file.Base(), "lit": latin1(t.Literal),
					"file": latin1(p.Filename), "line": p.Line})
			}
			o["toks"], o["semis"] = ws, ss
		}()
		if kwBad {
			o["r"] = "keyword"
		}
	}
	return M{"r": "", "texts": ts}, true
}

// ---------------------------------------------------------------------------

var lexOps = strings.Fields("+ - * / % & | ^ < > = ! ( [ { , . ) ] } ; : ? ~ @ << >> &^ += -= *= /= %= &= |= ^= <<= >>= &^= && || <- ++ -- == != <= >= := ...")
var lexLits = []string{"a", "foo", "x_1", "été", "世", "_", "if", "for", "recover", "e1", "0", "7", "42", "017", "0x1F", "0Xab", "1.5", ".5", "2e3", "1E-7", "6.e+2", "089.5", "08e1", "1e", "3i", "1.5i", "09i", "0i", "00",
	"'a'", "'世'", `'\n'`, `'\''`, `'\x41'`, `'\u4e16'`, `'\U0001F600'`, `'\101'`, "'\"'", `"s"`, `""`, `"a\"b\\"`, `"\u00e9\t\377"`, `"it's"`, `"世界"`, "`raw`", "`r\naw`", "``", "`a\\`", "`x\r\ny`", "١x"[0:0] + "a١"}
var lexSeps = []string{" ", " ", "", "", "\n", "\n", "\t", "\r\n", "\n\n", " \n ", "/* c */", "/* c */", "/**/", "/* a\nb */", "/* é */", "// c\n", "# c\n", "# c\r\n", "//\n", "/* x */ /* y */", "/* x */ // z\n", "/* x */ # z\n", "/* x */\n", "/* x */ /* y\n */ ", "/***/", "/* // */", "// /*\n", "# /* \n", "/* # */", "//line foo.go:10\n", "\n//line foo.go:10\n", "\n//line bar.go:3\n", "\n//line :7\n", "\n //line no.go:3\n", "\n//line /abs/z.q:5\n", "\n//line x:0\n", "\n//line y\n", "\n//line a:b:12\n", "/* \n//line in.go:9\n*/", "/* é\n\r */"}
var lexBad = []string{`"abc`, "`abc", "/* abc", "'a", "''", "'ab'", `'\q'`, `"\q"`, `"\x4"`, `"\400"`, `"\ud800"`, `"\U00110000"`, `'\`, `"\`, "0x", "0Xg", "08", "0129", "\x00", "\xff", "\xc3\x28", "\xef\xbb\xbf", "$", "\\", "№", "\"a\nb\"", "'\n'", "\xe4\xb8", "\x7f", "\f", "١", `'\u12'`, `"\8"`, `'\"'`, `"\'"`, "\xed\xa0\x80", "# \xff\n", "/* \x00 */", "// \xef\xbb\xbf\n", "`\xff`"}
var lexAlpha = []string{"a", "e", "i", "x", "F", "_", "0", "1", "7", "8", "9", ".", ".", "+", "-", "*", "/", "/", "#", "\n", "\n", "\r", " ", "\t", "\"", "'", "`", "\\", "n", "=", "<", ">", "&", "^", "|", "!", ":", ";", "(", ")", "{", "}", "?", "@", "~", "%", ",", "é", "世", "\xff", "\x00", "\xef\xbb\xbf", "$", "l"}

// builtEscape is an escape sequence; its value is drawn near the limits of what is allowed.
func builtEscape(r *rand.Rand, q byte, ok bool) string {
	valid := func(x int) bool { return ok && (x > unicode.MaxRune || 0xD800 <= x && x < 0xE000) }
	near := []int{0, 7, 8, 9, 10, 15, 16, 0x41, 0x7F, 0x80, 0xFF, 0x100, 0xD7FF, 0xD800, 0xDABC, 0xDFFF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x1D800}
	for {
		x := near[r.Intn(len(near))]
		hex := []string{"%0*x", "%0*X"}[r.Intn(2)]
		switch r.Intn(6) {
		case 0:
			return "\\" + string("abfnrtv\\"[r.Intn(8)])
		case 1:
			if !ok && r.Intn(4) == 0 {
				return "\\" + string("'\"`0q8 \n"[r.Intn(8)])
			}
			return "\\" + string(q)
		case 2:
			if x > 511 || ok && x > 255 {
				continue
			}
			return fmt.Sprintf("\\%03o", x)
		case 3:
			if x > 255 {
				continue
			}
			return fmt.Sprintf("\\x"+hex, 2, x)
		case 4:
			if x > 0xFFFF || valid(x) {
				continue
			}
			return fmt.Sprintf("\\u"+hex, 4, x)
		default:
			if valid(x) {
				continue
			}
			return fmt.Sprintf("\\U"+hex, 8, x)
		}
	}
}

// built is a literal, number or comment put together from small pieces; ok: the text is allowed.
func built(r *rand.Rand, ok bool) string {
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	run := func(set string, n int) string {
		b := ""
		for ; n > 0; n-- {
			b += string(set[r.Intn(len(set))])
		}
		return b
	}
	switch r.Intn(8) {
	case 0, 1: // string or character
		q := byte('"')
		n := r.Intn(5)
		if r.Intn(3) == 0 {
			q = '\''
			n = 1
			if !ok && r.Intn(3) == 0 {
				n = r.Intn(3)
			}
		}
		b := string(q)
		for i := 0; i < n; i++ {
			if r.Intn(2) == 0 {
				b += builtEscape(r, q, ok)
			} else {
				b += pick("a", " ", "\r", "é", "世", "`", "/", "*", "#", ";", "\U0001F600")
			}
		}
		if ok || r.Intn(8) > 0 {
			b += string(q)
		}
		if !ok && r.Intn(5) == 0 && len(b) > 2 {
			b = b[:1+r.Intn(len(b)-1)]
		}
		return b
	case 2: // raw string
		b := "`"
		for i := r.Intn(6); i > 0; i-- {
			b += pick("\r", "\r", "\n", "\r\n", "a", "\\", "é", "\"", "//", "/*", "#")
		}
		return b + "`"
	case 3: // block comment
		b := "/*"
		for i := r.Intn(6); i > 0; i-- {
			b += pick("\r", "\n", "\r\n", "*", "* /", "a", "/", "é", "\"", "//", "/*", "#", "\n//line c:3\n")
		}
		return b + "*/"
	case 4: // line comment
		b := pick("//", "#", "//line", "//line ")
		for i := r.Intn(5); i > 0; i-- {
			b += pick("\r", "*/", "a", "é", "\"", "//", ":", "12", "0", "/", " ", "x.go:7", "/../", "./", "..")
		}
		return b + pick("\n", "\n", "\r\n", "")
	default: // number
		b := ""
		switch r.Intn(6) {
		case 0:
			b = pick("0x", "0X") + run("0123456789abcdefABCDEF", 1+r.Intn(9))
			if !ok && r.Intn(3) == 0 {
				b = b[:2]
			}
			return b
		case 1:
			b = "0" + run("01234567", r.Intn(5))
		case 2:
			b = "0" + run("0123456789", r.Intn(5))
			if ok {
				b += pick(".", "e", "i")
			}
		case 3:
			b = run("123456789", 1) + run("0123456789", r.Intn(12))
		case 4:
			b = "." + run("0123456789", 1+r.Intn(4))
		default:
			b = run("123456789", 1) + "." + run("0123456789", r.Intn(3))
		}
		if r.Intn(3) == 0 && !strings.HasSuffix(b, "i") {
			b += pick("e", "E") + pick("", "+", "-") + run("0123456789", r.Intn(4))
		}
		if r.Intn(3) == 0 && !strings.HasSuffix(b, "i") {
			b += "i"
		}
		return b
	}
}

func genLexText(r *rand.Rand, profile string, n int) string {
	pick := func(l []string) string { return l[r.Intn(len(l))] }
	var b strings.Builder
	if r.Intn(12) == 0 {
		b.WriteString("\xef\xbb\xbf")
	}
	switch profile {
	case "raw":
		for i := 0; i < n; i++ {
			b.WriteString(pick(lexAlpha))
		}
	default:
		if r.Intn(3) == 0 {
			b.WriteString(pick(lexSeps))
		}
		for i := 0; i < n; i++ {
			x := r.Intn(100)
			switch {
			case r.Intn(3) == 0:
				b.WriteString(built(r, profile != "bad" || r.Intn(2) == 0))
			case profile == "bad" && x < 12:
				b.WriteString(pick(lexBad))
			case profile == "semi" && x < 75 || x < 55:
				b.WriteString(pick(lexLits))
			case profile == "semi":
				b.WriteString(pick([]string{"++", "--", ")", "]", "}", "(", "{", "+", ";", "<-"}))
			default:
				b.WriteString(pick(lexOps))
			}
			k := 1
			if profile == "semi" || profile == "line" {
				k = r.Intn(4)
			}
			for ; k > 0; k-- {
				if profile == "line" && r.Intn(2) == 0 {
					b.WriteString(pick(lexSeps[len(lexSeps)-18:]))
				} else {
					b.WriteString(pick(lexSeps))
				}
			}
		}
		if r.Intn(6) == 0 {
			b.WriteString(pick([]string{"// end", "# end", "/* end */", "/* e\n */", "\n", " ", "\r", "// end\r"}))
		}
	}
	return b.String()
}

func genLex(r *rand.Rand, n int, profile string, emit func(interface{})) {
	for i := 0; i < n; i++ {
		c := LexCase{API: "scanner", KW: []string{}, Mode: r.Intn(4)}
		if profile == "semi" {
			c.Mode = 2 + r.Intn(2)
			if r.Intn(8) == 0 {
				c.Mode = r.Intn(2)
			}
		}
		if r.Intn(2) == 0 {
			c.API = "matcher"
		}
		if r.Intn(3) == 0 {
			c.KW = [][]string{{"if"}, {"for", "foo"}, {latin1("été"), "a", "recover"}}[r.Intn(3)]
		}
		c.Name = []string{"", "main.t", "dir/main.t", "/x/y.z"}[r.Intn(4)]
		k := 1 + r.Intn(3)
		for j := 0; j < k; j++ {
			size := 1 + r.Intn(8)
			switch profile {
			case "raw":
				size = 1 + r.Intn(12)
			case "long":
				size = 20 + r.Intn(120)
			}
			p := profile
			if j+1 < k && r.Intn(3) == 0 {
				p = "bad" // the next text must not notice
			}
			c.Texts = append(c.Texts, latin1(genLexText(r, p, size)))
		}
		emit(c)
	}
}

func init() {
	suites["lex"] = suite{gen: genLex, run: runLex, pre: preLex}
}
