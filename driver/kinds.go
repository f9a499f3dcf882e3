package main

import "github.com/qiniu/text/tpl"

// KindCase asks for a kind and for a literal.
type KindCase struct {
	K   int    `json:"k"`
	Lit string `json:"lit"`
}

func runKind(raw []byte) (interface{}, bool) {
	var c KindCase
	jget(raw, &c)
	lit := ""
	func() {
		defer func() { recover() }()
		lit = tpl.Token2Lit(uint(c.K))
	}()
	sc, kw := new(tpl.Scanner), new(tpl.AutoKwScanner)
	same := sc.Ltot(c.Lit) == tpl.Lit2Token(c.Lit)
	if lit != "" {
		same = same && sc.Ttol(uint(c.K)) == lit && kw.Ttol(uint(c.K)) == lit && kw.Ltot(lit) == uint(c.K)
	}
	return M{"r": "ok", "len": tpl.TokenLen(uint(c.K)), "lit": lit, "to": tpl.Lit2Token(c.Lit), "same": same}, true
}

func init() {
	suites["kinds"] = suite{run: runKind}
}
