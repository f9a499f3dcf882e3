package main

import "github.com/qiniu/text/tpl"

// pegCost estimates the number of steps a match takes, so that generated cases stay small. It only
// selects cases; the expected outcome comes from the specification.
type pegCost struct {
	g     []Node
	t     []int
	steps int
	max   int
}

type costAbort struct{}

func pegSteps(g []Node, root int, toks []int, max int) (steps int) {
	c := &pegCost{g: g, t: toks, max: max}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(costAbort); !ok {
				panic(e)
			}
			steps = c.steps
		}
	}()
	c.match(root, 0)
	return c.steps
}

func (c *pegCost) match(n, p int) (k int, ok bool) {
	c.steps++
	if c.steps > c.max {
		panic(costAbort{})
	}
	nd := c.g[n-1]
	switch nd.Op {
	case "tok":
		if p < len(c.t) && (c.t[p] == nd.K || c.t[p] == int(tpl.INT) && nd.K == int(tpl.FLOAT)) {
			return 1, true
		}
		return 0, false
	case "true":
		return 0, true
	case "eof":
		return 0, p == len(c.t)
	case "and":
		cut := false
		for _, x := range nd.Ch {
			c.steps++
			if x == 0 {
				cut = true
				continue
			}
			k1, ok1 := c.match(x, p+k)
			if !ok1 {
				if cut {
					panic(costAbort{})
				}
				return 0, false
			}
			k += k1
		}
		return k, true
	case "or":
		for _, x := range nd.Ch {
			c.steps++
			if k, ok = c.match(x, p); ok {
				return
			}
		}
		return 0, false
	case "not", "peek":
		_, ok = c.match(nd.Ch[0], p)
		return 0, ok == (nd.Op == "peek")
	case "rep01":
		k, _ = c.match(nd.Ch[0], p)
		return k, true
	case "rep0", "rep1":
		for i := 0; ; i++ {
			k1, ok1 := c.match(nd.Ch[0], p+k)
			if !ok1 {
				return k, i > 0 || nd.Op == "rep0"
			}
			k += k1
			if k1 == 0 {
				return k, true
			}
		}
	case "list", "list0":
		k1, ok1 := c.match(nd.Ch[0], p)
		if !ok1 {
			return 0, nd.Op == "list0"
		}
		k = k1
		for {
			a, oka := c.match(nd.Ch[1], p+k)
			if !oka {
				return k, true
			}
			b, okb := c.match(nd.Ch[0], p+k+a)
			if !okb {
				return k, true
			}
			k += a + b
			if a+b == 0 {
				return k, true
			}
		}
	default:
		if nd.Ch[0] == 0 {
			return 0, false
		}
		return c.match(nd.Ch[0], p)
	}
}
