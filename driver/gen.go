package main

import (
	"errors"
	"math/rand"

	"verifdriver/static"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/generator"
	"github.com/qiniu/text/tpl/interpreter.util"
)

// names of rules that are Go names too
var goNames = []string{"term", "expr", "a", "b", "x_1", "été", "int", "list", "mark", "z9", "_1", "eof", "len", "факт", "scanner", "error", "iota", "g", "append", "cmpl", "and", "doc_"}

type gencodeCase struct {
	T string `json:"t"`
}

// gencode: the code of the static generator for a grammar text
func runGencode(raw []byte) (obs interface{}, keep bool) {
	var c gencodeCase
	jget(raw, &c)
	o := M{"r": "rej", "code": ""}
	func() {
		defer func() { recover() }()
		code, err := generator.GenStaticCode(unlatin1(c.T))
		if err == nil {
			o["r"], o["code"] = "ok", code
		}
	}()
	return o, true
}

var errNotGenerated = errors.New("not generated")

// compileStatic uses the generated code of a grammar text in place of its compilation.
func compileStatic(text string, run *tplRun, mode int, marks bool) string {
	g, ok := static.Grammars[text]
	if !ok {
		panic(errNotGenerated)
	}
	if g.R != "ok" {
		return g.R
	}
	return func() (r string) {
		defer func() {
			if e := recover(); e != nil {
				r = "panic"
			}
		}()
		var marker func(g tpl.Grammar, mark string) tpl.Grammar
		if marks {
			marker = run.marker
		}
		run.ret = g.Cl(marker, func() { run.log = append(run.log, M{"e": "init"}) }, nil, tpl.ScanMode(mode))
		return "ok"
	}()
}

func runGen(raw []byte) (interface{}, bool) {
	var c TplCase
	jget(raw, &c)
	us := []M{}
	for _, u := range c.Units {
		o := runTplUnitWith(u, compileStatic)
		o["static"] = true
		us = append(us, o)
	}
	return M{"r": "", "u": us}, true
}

func genGen(r *rand.Rand, n int, profile string, emit func(interface{})) {
	goodNames = goNames
	uniqueMarks = true
	genTpl(r, n, profile, emit)
}

var errNotBuilt = errors.New("the generated code does not compile")

// runGeni runs a case of the interpreter suite with the generated interpreter.
func runGeni(raw []byte) (interface{}, bool) {
	var c IntCase
	jget(raw, &c)
	return runInterpWith(raw, c, func(ipt interpreter.Interface) (anyEngine, error) {
		g, ok := static.Grammars[unlatin1(c.G)]
		if !ok {
			panic(errNotGenerated)
		}
		switch g.R {
		case "rej":
			return nil, errors.New("refused")
		case "nobuild":
			return nil, errNotBuilt
		}
		e, err := g.New(ipt, tpl.ScanMode(c.Mode))
		if err != nil {
			return nil, err
		}
		return e.(anyEngine), nil
	})
}

func genGeni(r *rand.Rand, n int, profile string, emit func(interface{})) {
	goodNames = goNames
	genInterp(r, n, profile, emit)
}

func preGen(raw []byte) M {
	o := preTpl(raw)
	for _, u := range o["u"].([]M) {
		u["static"] = true
	}
	return o
}

func init() {
	suites["gencode"] = suite{run: runGencode}
	suites["geni"] = suite{gen: genGeni, run: runGeni, pre: preInterp}
	suites["gen"] = suite{gen: genGen, run: runGen, pre: preGen}
}
