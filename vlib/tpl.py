"""C09-C12: grammar texts and compiled matchers (spec/TplText.tla, TplTrace.tla, TplMC.tla)."""
import random

NOAST = {'g': [], 'kw': [], 'root': 0}
NBODY, NTEXT = 26, 10


def unit(text, ops=(), re=False):
    return {'ast': NOAST, 'g': text, 'mode': 0, 're': re, 'ops': list(ops)}


def op(src):
    return {'op': 'match', 'name': '', 'src': src, 'a': 0, 'b': 0, 'boom': 0}


def spell(toks, rnd):
    """the text of a token sequence, spaces where they are needed and somewhere else"""
    out = ''
    for t in toks:
        out += t + rnd.choice([' ', ' ', ' ', '\t', ' /* c */ ', '  '])
    return out


def preds(pr, ctx, seed, re):
    rnd = random.Random(seed)
    res = []
    for p in pr['R']:
        outs = sorted(p['out'], key=lambda o: (len(o['in']), o['in']))
        ops = [op(''.join('xk+'[i - 1] + ' ' for i in o['in'])) for o in outs]
        exp = {'ok': p['ok'], 'marks': p['marks'], 'out': outs}
        res.append({'units': [unit(spell(p['t'], rnd), ops)], 'exp': exp})
        if re and p['ok']:
            res.append({'units': [unit(spell(p['t'], rnd), ops, True)], 'exp': dict(exp, re=True)})
    return res


def diff(case, e):
    o = case['obs']
    if o.get('r') in ('hang', 'dead'):
        return ['verdict', 'marks', 'out', 'acts', 'reprint']
    u = o['u'][0]
    if (u['r'] == 'ok') != e['ok']:
        return ['verdict']
    if not e['ok']:
        return []
    d = set()
    if e.get('re'):
        if u['re'] != 'ok':
            return ['reprint']
        if not u['fixed']:
            d.add('fixed')
    elif u['marks'] != e['marks']:
        d.add('marks')
    for x, y in zip(e['out'], u['ops']):
        if x['r'] != y['r'] or x['n'] != y['n']:
            d.add('out')
        if not e.get('re') and [a for a in y['log'] if a['e'] == 'act'] != x['acts']:
            d.add('acts')
    return sorted(d)


def model(ctx, aspects, re=False):
    rnd = random.Random(ctx.seed * 1009 + 7)
    plans = [('body', '1' * NBODY, 3), ('text', '1' * NTEXT, ctx.budget(4, 6))]
    for k in range(ctx.budget(1, 12)):
        pick = ['0'] * NBODY
        for j in rnd.sample(range(NBODY), 8):
            pick[j] = '1'
        pick[rnd.randrange(3)] = '1'                   # at least one kind, keyword or operator
        plans.append(('body', ''.join(pick), ctx.budget(4, 6)))
    if not ctx.quick:
        plans.append(('body', '1' * NBODY, 4))
    done = []
    for k, (vocab, pick, n) in enumerate(plans):
        if k > 0 and (ctx.left() < 200 or ctx.violations):
            break
        pr = ctx.tlc('TplMC', env={'VOCAB': vocab, 'PICK': pick, 'MAXLEN': n})
        ps = preds(pr, ctx, ctx.seed * 31 + k, re and vocab == 'body')
        ctx.compare('tpl', ps, diff, relevant=aspects)
        done.append('%s: %d tokens, words up to %d: %d texts' % (vocab, pick.count('1'), n, len(pr['R'])))
    ctx.notes['explored_texts'] = done


def check(pid, aspects, profiles, mc, re=False):
    def f(ctx):
        if mc:
            model(ctx, mc, re)
        for r in range(ctx.budget(1, 12)):
            if r > 0 and (ctx.left() < 100 or ctx.violations):
                break
            for i, (p, w) in enumerate(profiles):
                ctx.validate('tpl', 'TplTrace', ctx.gen('tpl', w, p, seed_off=2000 + r * 17 + i), aspects, batch=3000)
    return f


CHECKS = {
    'C09': check('C09', ['verdict', 'marks', 'out', 'acts'], [('sem', 2000)], ['verdict', 'marks', 'out', 'acts']),
    'C10': check('C10', ['verdict', 'out'], [('bad', 1400)], ['verdict']),
    'C11': check('C11', ['reprint', 'fixed', 'out'], [('print', 2400)], ['reprint', 'fixed', 'out'], re=True),
    'C12': check('C12', ['out', 'at', 'acts', 'init', 'kept'], [('hist', 2200)], None),
}
BASE = ('Grammar texts are read by a state machine, one step per token (spec/TplText.tla); TLC explores texts token by token over a '
        'vocabulary of 26 tokens (all words of up to 3, seeded sub-vocabularies to 4-6; whole-text words over 10 tokens to 4-6), checks in '
        'every state that the verdict agrees with the documented grammar of grammars run through the independent matcher semantics and that '
        'writing and re-reading is a fixed point, and its predictions (verdict, marks, outcomes on all inputs of up to 2 tokens) are '
        'replayed in the real compiler; generated texts are validated in TplTrace.tla, which tokenizes (Lexer), reads (TplText) and runs '
        '(Peg) them step by step. ')
NOTES = {
    'C09': BASE + 'Judged: acceptance, marks in order, outcome, consumption, action events with counts on up to 3 calls per text.',
    'C10': BASE + 'Judged: verdict of broken, soup and good texts compiled one after another, and outcomes of a good grammar compiled last.',
    'C11': BASE + 'Judged: printed text of compiled grammars and of grammar objects compiles again, behaves as the original, and prints the same.',
    'C12': 'Histories of 3-8 calls (match, exact, eval, sub-rule on text and on token slices; matching, failing, cut, lexically bad inputs, '
           'panicking actions) on one compiled matcher; the specification judges each call from its own text alone.',
}
ASSUME = {k: ['the driver records faithfully what the public API shows', 'left recursion is excluded, as in the properties'] for k in NOTES}
