"""C16: calculators (spec/Calc.tla, CalcTrace.tla, CalcMC.tla)."""
import random
from fractions import Fraction


def exact(q, s):
    """the rational a shown value is, None if it is none"""
    try:
        if q == 'rat':
            return Fraction(s)
        ps = s.split(' ')
        if q == 'cmplx':
            return Fraction(float.fromhex(ps[0])) if float.fromhex(ps[1]) == 0 else None
        return Fraction(float.fromhex(ps[0]))
    except (ValueError, OverflowError):
        return None


def differ(case, exp):
    """aspects in which the calculator differs from the predictions: outcome, value"""
    o = case['obs']
    if o.get('r') != 'ok':
        return ['out', 'value']
    d = set()
    for op, e, ob in zip(case['ops'], exp, o['ops']):
        fails = e['st'] != 'ok' or e['v']['t'] == '!' or ob['w'] == 'fail'
        if e['v']['t'] == '!' and ob['w'] != 'fail' or ob['w'] == '?':
            d.add('spec')
        if (ob['r'] == 'fail') != fails or ob['r'] not in ('ok', 'fail'):
            d.add('out')
        elif ob['r'] == 'ok' and op['ret']:
            if ob['v'] != ob['w']:
                d.add('value')
            if e['v']['t'] == '=' and exact(case['q'], ob['v']) != Fraction(e['v']['n'], e['v']['d']):
                d.add('value')
    return sorted(d)


def histories(ctx, n, off):
    cases = ctx.gen('calc', n, seed_off=off)
    f = ctx.path('cases.ndjson')
    import json
    with open(f, 'w') as fh:
        for c in cases:
            fh.write(json.dumps(c) + '\n')
    exps = {r['id']: r['ops'] for r in ctx.tlc('CalcTrace', env={'CASES': f})['R']}
    return [{'q': c['q'], 'exp': exps[c['id']],
             'ops': [dict(src=o['src'], ret=o['ret'], t=e['out'] if e['st'] == 'ok' else None) for o, e in zip(c['ops'], exps[c['id']])]} for c in cases]


def words(ctx, q, syms, n, rnd):
    pr = ctx.tlc('CalcMC', env={'CALC': q, 'SYMS': syms, 'MAXLEN': n})['R']
    rnd.shuffle(pr)
    return [{'q': q, 'exp': pr[i:i + 12],
             'ops': [{'src': ' '.join(p['w']), 'ret': rnd.random() < .9, 't': p['out'] if p['st'] == 'ok' else None} for p in pr[i:i + 12]]}
            for i in range(0, len(pr), 12)]


def check(ctx):
    rnd = random.Random(ctx.seed * 31 + 16)
    plans = [('number', 'n-*/()', 6, 7), ('rat', 'n-/()a', 6, 7), ('cmplx', 'n-*(),m', 6, 7), ('number', 'n+%(),me', 5, 6), ('cmplx', 'ni+/', 7, 8),
             ('rat', 'n+(),ma', 6, 7)]
    done = []
    for q, syms, a, b in plans:
        if ctx.left() < 150 or ctx.violations:
            break
        ps = words(ctx, q, syms, ctx.budget(a, b), rnd)
        ctx.compare('calc', ps, differ)
        done.append('%s: expressions of %d tokens over %s: %d' % (q, ctx.budget(a, b), syms, sum(len(p['ops']) for p in ps)))
    ctx.notes['explored_words'] = done
    for r in range(ctx.budget(1, 14)):
        if r > 0 and (ctx.left() < 100 or ctx.violations):
            break
        ctx.compare('calc', histories(ctx, ctx.budget(900, 4000), 7000 + r), differ)


CHECKS = {'C16': check}
NOTES = {'C16': 'spec/Calc.tla reads an expression with a stack of open operators and gives it a program and, where small, an exact value. '
                'CalcMC.tla explores all short token sequences, compares program and value with a definition by splitting at the last operator '
                'of lowest priority, and every sequence is replayed on a real calculator. CalcTrace.tla does the same for random texts (tokenized by Lexer.tla) in '
                'histories on one calculator; outcome and value are compared bit by bit.'}
ASSUME = {'C16': ['the value of a program is computed from the primitives of Go (IEEE arithmetic, math, math/cmplx, math/big); exact small values '
                  'come from the specification itself',
                  'which of several failures is reported is not compared']}
