def demo(q, evals):
    """evals: (expression, expected) ; expected 'fail' or the printed value"""
    show = {'number': 'fmt.Sprint(v)', 'cmplx': 'fmt.Sprint(v)', 'rat': 'v.String()'}[q]
    return '''package main

import (
	"fmt"
	"os"

	engine "github.com/qiniu/text/tpl/interpreter"
	calc "github.com/qiniu/text/tpl/%s"
)

func main() {
	c := calc.New()
	e, err := engine.New(c, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	eval := func(s string) (err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("%%v", e)
			}
		}()
		return e.Eval(s)
	}
	for _, t := range [][2]string{%s} {
		got := "fail"
		if eval(t[0]) == nil {
			if v, ok := c.Ret(); ok {
				got = %s
			}
		}
		if got != t[1] {
			fmt.Printf("%%s gives %%s, not %%s\\n", t[0], got, t[1])
			os.Exit(1)
		}
	}
}
''' % (q, ', '.join('{"%s", "%s"}' % (a, b) for a, b in evals), show)


N, C, R = 'tpl/number/number.go', 'tpl/cmplx/cmplx.go', 'tpl/rat/big.go'
SEEDS = [
    dict(id='c16-add-in-place', property='C16', needs='max() or min() without arguments as left operand of +, then again in a later evaluation',
         breaks='the shared zero is changed by an addition: a later max() is not 0',
         edits=[(R, 'return new(big.Rat).Add(a, b)', 'return a.Add(a, b)')],
         demo=demo('rat', [('max()+5', '5/1'), ('max()', '0/1')])),
    dict(id='c16-extra-arguments', property='C16', needs='a call with more arguments than the function takes',
         breaks='a wrong argument count yields a value instead of a failure',
         edits=[('tpl/interpreter.util/call.go', '''			return ErrArgumentsNotEnough
		}
	} else if arity != n {
		return fmt.Errorf("invalid argument count: require %d, but we got %d", n, arity)
	}

	return DoCall(stk, fn, arity, n, isVariadic)''', '''			return ErrArgumentsNotEnough
		}
	} else if arity < n {
		return fmt.Errorf("invalid argument count: require %d, but we got %d", n, arity)
	} else {
		arity = n
	}

	return DoCall(stk, fn, arity, n, isVariadic)''')],
         demo=demo('number', [('abs(3)', '3'), ('abs(1,2)', 'fail')])),
    dict(id='c16-ret-bottom', property='C16', needs='an evaluation that failed after pushing an operand, followed by a good one',
         breaks='the operand of the failed evaluation is returned as the value of the next one',
         edits=[(C, '''	v, ok = p.stk.Pop()
	p.stk.Clear()
	return''', '''	if stk := *p.stk; len(stk) > 0 {
		v, ok = stk[0], true
	}
	p.stk.Clear()
	return''')],
         demo=demo('cmplx', [('1+2', '(3+0i)'), ('7+', 'fail'), ('1+2', '(3+0i)')])),
    dict(id='c16-big-literal', property='C16', needs='a rational literal beyond int64',
         breaks='large rational literals are rounded',
         edits=[(R, '''	val, _ := new(big.Rat).SetString(v)
''', '''	val, _ := new(big.Rat).SetString(v)
	if !val.Num().IsInt64() {
		f, _ := val.Float64()
		val.SetFloat64(f)
	}
''')],
         demo=demo('rat', [('9223372036854775807+1', '9223372036854775808/1'), ('9223372036854775809', '9223372036854775809/1')])),
    dict(id='c16-quo-chain', property='C16', needs='two divisions in a row, or a division followed by a multiplication',
         breaks='division is right associative',
         edits=[(R, "term = factor *('*' factor/mul | '/' factor/quo)", "term = factor *('*' factor/mul | '/' term/quo)")],
         demo=demo('rat', [('6*4/3', '8/1'), ('8/4/2', '1/1')])),
    dict(id='c16-max-zero', property='C16', needs='max of three or more negative numbers',
         breaks='max of negative numbers is 0',
         edits=[(N, '''	max = args[0]
	for i := 1; i < len(args); i++ {
		if args[i] > max {
			max = args[i]
		}
	}
	return''', '''	if len(args) < 3 {
		max = args[0]
	}
	for _, v := range args {
		if v > max {
			max = v
		}
	}
	return''')],
         demo=demo('number', [('max(-2,-1)', '-1'), ('max(-3,-2,-5)', '-2')])),
    dict(id='c16-shared-arity', property='C16', needs='a variadic call with a call among its arguments',
         breaks='the argument count of an inner call replaces that of the outer one',
         edits=[(N, '''	"$ARITY": Arity,
''', '''	"$ARITY": func(stk *Stack, arity int) {
		Arity(stk, arity+nested)
		nested = 0
		if arity > 3 {
			nested = 1
		}
	},
'''), (N, 'func init() {\n', 'var nested int\n\nfunc init() {\n')],
         demo=demo('number', [('max(1,2,3)', '3'), ('7-max(max(1,2,3,4),5)', '2')])),
    dict(id='c16-inv-zero', property='C16', needs='a rational division whose divisor is 0 and whose dividend is 0 too',
         breaks='0/0 yields a value instead of a failure',
         edits=[(R, '	return new(big.Rat).Quo(a, b)', '	if a.Sign() == 0 {\n		return new(big.Rat)\n	}\n	return new(big.Rat).Quo(a, b)')],
         demo=demo('rat', [('1/0', 'fail'), ('0/3', '0/1'), ('0/(1-1)', 'fail')])),
    dict(id='c16-identifier-call', property='C16', needs='a symbol of the float calculator followed by an argument list that is not closed or by the end',
         breaks='a name without argument list is taken for a call without arguments',
         edits=[(N, "(IDENT '(' doc %= ','/ARITY ')')/call |", "(IDENT ?('(' doc) *(',' doc) ?')')/call |".replace("(IDENT ?('(' doc) *(',' doc) ?')')/call", "(IDENT '(' doc %= ','/ARITY ?')')/call"))],
         demo=demo('number', [('max(1,2)', '2'), ('max(1,2', 'fail')])),
    dict(id='c16-modulo-sign', property='C16', needs='% with a negative dividend in the float calculator',
         breaks='the remainder has the sign of the divisor',
         edits=[(N, '	"$mod":   math.Mod,', '''	"$mod": func(a, b float64) float64 {
		return a - b*math.Floor(a/b)
	},''')],
         demo=demo('number', [('7%4', '3'), ('-7%4', '-3')])),
]
