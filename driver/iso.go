package main

import (
	"encoding/json"
	"math/rand"
	"sort"
	"sync"

	"runtime"
)

// IsoCase is a number of engines, each a case of another suite, run in one process.
//
//	turns  they run by turns: at every point where an engine is about to be made or used, or calls back,
//	       the next one is chosen by the schedule
//	nest   at such a point another engine may be made and used to its end, within the call back of the first
//	conc   all at the same time, each twice, on goroutines of their own
type IsoCase struct {
	Mode  string   `json:"mode"`
	Engs  []IsoEng `json:"engs"`
	Sched []int    `json:"sched"`
}

type IsoEng struct {
	Suite string          `json:"suite"`
	Case  json.RawMessage `json:"case"`
}

// isoYield is called whenever an engine is about to be made or used and whenever one calls back.
var isoYield func()

func yield() {
	if f := isoYield; f != nil {
		f()
	}
}

func (e IsoEng) run() interface{} {
	obs, keep := suites[e.Suite].run(e.Case)
	if !keep {
		return "skipped"
	}
	return obs
}

func runIso(raw []byte) (interface{}, bool) {
	var c IsoCase
	jget(raw, &c)
	obs := make([][]interface{}, len(c.Engs))
	o := M{"r": "ok", "tr": []M{}}
	defer func() { isoYield = nil }()
	switch c.Mode {
	case "turns":
		o["tr"] = c.turns(obs)
	case "nest":
		o["tr"] = c.nest(obs)
	default:
		c.conc(obs)
	}
	o["engs"] = obs
	return o, true
}

const isoTraceMax = 60

func (c IsoCase) turns(obs [][]interface{}) []M {
	type co struct {
		resume chan struct{}
		done   bool
	}
	n := len(c.Engs)
	cos := make([]*co, n)
	back := make(chan struct{})
	cur := 0
	isoYield = func() {
		me := cos[cur]
		back <- struct{}{}
		<-me.resume
	}
	for i := range c.Engs {
		cos[i] = &co{resume: make(chan struct{})}
		go func(i int) {
			<-cos[i].resume
			obs[i] = []interface{}{c.Engs[i].run()}
			cos[i].done = true
			back <- struct{}{}
		}(i)
	}
	tr := []M{}
	for t, left := 0, n; left > 0; t++ {
		k := c.Sched[t%len(c.Sched)] % n
		for cos[k].done {
			k = (k + 1) % n
		}
		cur = k
		cos[k].resume <- struct{}{}
		<-back
		e := "step"
		if cos[k].done {
			e = "end"
			left--
		}
		if len(tr) < isoTraceMax || e == "end" {
			tr = append(tr, M{"e": e, "i": k + 1})
		}
	}
	return tr
}

func (c IsoCase) nest(obs [][]interface{}) []M {
	tr := []M{}
	next, t := 0, 0
	var run func()
	run = func() {
		k := next
		next++
		tr = append(tr, M{"e": "begin", "i": k + 1})
		obs[k] = []interface{}{c.Engs[k].run()}
		tr = append(tr, M{"e": "end", "i": k + 1})
	}
	isoYield = func() {
		if s := c.Sched[t%len(c.Sched)]; next < len(c.Engs) && s > 0 {
			t++
			run()
			return
		}
		t++
	}
	for next < len(c.Engs) {
		run()
	}
	return tr
}

func (c IsoCase) conc(obs [][]interface{}) {
	isoYield = runtime.Gosched
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range c.Engs {
		obs[i] = make([]interface{}, 2)
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func(i, k int) {
				defer wg.Done()
				<-start
				obs[i][k] = c.Engs[i].run()
			}(i, k)
		}
	}
	close(start)
	wg.Wait()
}

// ---------------------------------------------------------------------------
// generation

var isoProfiles = map[string][]string{
	"lex":     {"line", "line", "tokens", "semi"},
	"peg":     {"act", "trans", "cut"},
	"tpl":     {"sem", "hist"},
	"interp":  {"mute", "nest", "words", "sig"},
	"script":  {"mute", "nest", "words", "sig"},
	"calc":    {""},
	"extract": {"types", "nest", "gram"},
	"qlang":   {"expr", "control", "scope", "calls", "containers", "classes", "history"},
}

func isoEngine(r *rand.Rand, name string) (e IsoEng) {
	ps := isoProfiles[name]
	for e.Case == nil {
		suites[name].gen(r, 1, ps[r.Intn(len(ps))], func(c interface{}) {
			b, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			e = IsoEng{name, b}
		})
	}
	return
}

// another is an engine like e that does other things: the same grammar, operations in another order, functions
// that do what others did.
func another(r *rand.Rand, e IsoEng) IsoEng {
	var m M
	jget(e.Case, &m)
	if ops, ok := m["ops"].([]interface{}); ok && e.Suite != "qlang" {
		r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		if len(ops) > 1 && r.Intn(3) == 0 {
			m["ops"] = ops[1:]
		}
	}
	if fns, ok := m["fns"].([]interface{}); ok {
		var free []M
		for _, f := range fns {
			f := f.(map[string]interface{})
			if f["recv"] != "none" && f["do"] != "run" && f["do"] != "cap" && f["do"] != "pusharg" {
				free = append(free, f)
			}
		}
		for i := len(free) - 1; i > 0; i-- {
			for _, k := range []string{"do", "how", "on"} {
				free[i][k], free[0][k] = free[0][k], free[i][k]
			}
		}
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return IsoEng{e.Suite, b}
}

func genIso(r *rand.Rand, n int, profile string, emit func(interface{})) {
	var names []string
	for s := range isoProfiles {
		names = append(names, s)
	}
	sort.Strings(names)
	for i := 0; i < n; i++ {
		c := IsoCase{Mode: profile, Sched: []int{}}
		k := 2 + r.Intn(3)
		like := r.Intn(3)
		for j := 0; j < k; j++ {
			switch {
			case j > 0 && like == 0:
				c.Engs = append(c.Engs, another(r, c.Engs[0]))
			case j > 0 && like == 1:
				c.Engs = append(c.Engs, isoEngine(r, c.Engs[0].Suite))
			default:
				c.Engs = append(c.Engs, isoEngine(r, names[r.Intn(len(names))]))
			}
		}
		for j := 5 + r.Intn(30); j > 0; j-- {
			c.Sched = append(c.Sched, r.Intn(k))
			if profile == "nest" && r.Intn(2) == 0 {
				c.Sched[len(c.Sched)-1] = 0
			}
		}
		emit(c)
	}
}

func init() {
	isoSuite := suite{gen: genIso, run: runIso, pre: func(raw []byte) M { return M{"r": "", "tr": []M{}, "engs": []M{}} }}
	suites["iso"] = isoSuite
}
