// Package static holds the code generated from grammar texts. Checks build the driver with files
// added to this package (and packages beside it) that register themselves here.
package static

import (
	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter.util"
)

// Grammar is what the generator made of a grammar text.
type Grammar struct {
	R  string // "ok", "rej": refused by the generator, "nobuild": the generated code does not compile
	Cl func(marker func(g tpl.Grammar, mark string) tpl.Grammar, init func(), scanner tpl.Tokener, mode tpl.ScanMode) tpl.CompileRet
	// New creates the generated interpreter.
	New func(ipt interpreter.Interface, mode tpl.ScanMode) (interface{}, error)
}

// Grammars by text.
var Grammars = map[string]Grammar{}
