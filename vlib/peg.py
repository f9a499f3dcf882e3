"""C04-C08: the matcher (spec/Peg.tla, PegTrace.tla, PegMC.tla)."""
COUNT2 = 63508          # grammars of depth 2 in PegMC
STRIDE = 26347          # coprime to COUNT2: spreads the selected grammars


def trs(l):
    return [e for e in l if e['e'] != 'act']


def acts(l):
    return [e for e in l if e['e'] == 'act']


def diff(case, e):
    """aspects in which an observation differs from a prediction of PegMC"""
    o = case['obs']
    d = []
    out = o['r'] != e['r'] or o.get('n') != e['n']
    if out:
        d.append('outcome')
    lg = o.get('log')
    if lg is None or acts(lg) != acts(e['log']):
        d.append('acts')
    if lg is None or trs(lg) != trs(e['log']) or (lg != e['log'] and 'acts' not in d):
        d.append('trans')
    if out and any(n['op'] == 'trans' for n in case['g']):
        d.append('wrapped')
    if (out or lg != e['log']) and (e['r'] == 'abort' or o['r'] == 'abort'):
        d.append('cut')
    if e['r'] in ('fail', 'abort') and (out or o['err'] != e['err']):
        d.append('err')
    return d


def model(ctx, aspects, per_run, chunks):
    """model -> code: enumerate small grammars and inputs in TLC and replay the predictions"""
    base = {'MAXIN': ctx.budget(2, 3), 'PRINT': 1}
    # all grammars of depth 1 on all inputs of up to 3 tokens, with termination as a liveness property
    pr = ctx.tlc('PegMC', 'PegMCLive', env=dict(base, DEPTH=1, MAXIN=3, LO=0, STRIDE=1, NUM=112))
    ctx.compare('peg', [dict(p, toks=[], nls=[]) for p in pr['R']], diff, relevant=aspects)
    done = 0
    for k in range(chunks):
        if k > 0 and (ctx.left() < 120 or ctx.violations):
            break
        lo = ((ctx.seed * 7919 + k * per_run) * STRIDE) % COUNT2
        pr = ctx.tlc('PegMC', 'PegMC', env=dict(base, DEPTH=2, LO=lo, STRIDE=STRIDE, NUM=per_run))
        ctx.compare('peg', [dict(p, toks=[], nls=[]) for p in pr['R']], diff, relevant=aspects)
        done += per_run
    ctx.notes['grammars_of_depth_2'] = '%d of %d' % (min(done, COUNT2), COUNT2)
    ctx.notes['exhaustive'] = done >= COUNT2


def check(aspects, mc_aspects, profiles, compiled=()):
    def f(ctx):
        model(ctx, mc_aspects, ctx.budget(500, 3000), ctx.budget(1, 22))
        rounds = ctx.budget(1, 12)
        for r in range(rounds):
            if r > 0 and (ctx.left() < 100 or ctx.violations):
                break
            cases = []
            for i, (p, w) in enumerate(profiles):
                cases += ctx.gen('peg', w, p, seed_off=r * 17 + i)
            ctx.validate('peg', 'PegTrace', cases, aspects)
            for i, (p, w) in enumerate(compiled):
                ctx.validate('tpl', 'TplTrace', ctx.gen('tpl', w, p, seed_off=6000 + r * 17 + i), aspects, batch=3000)
    return f


CHECKS = {
    'C04': check(['outcome'], ['outcome'], [('plain', 3000), ('act', 500), ('err', 500), ('long', 250)]),
    'C05': check(['acts'], ['acts'], [('act', 3000), ('trans', 500), ('cut', 500), ('long', 200)]),
    'C06': check(['trans', 'wrapped'], ['trans', 'wrapped'], [('trans', 3500), ('cut', 700)]),
    'C07': check(['cut'], ['cut'], [('cut', 4000), ('trans', 300)]),
    'C08': check(['err', 'msg'], ['err'], [('err', 2500), ('cut', 800), ('plain', 500), ('long', 250)],
                 [('hist', 900), ('sem', 300)]),
}

BASE = ('The matcher is a small-step machine in spec/Peg.tla, checked by TLC (type, position and nesting invariants, '
        'termination, agreement with an independent big-step meaning) on every grammar of depth 1 and a seeded selection '
        '(thorough: all 63508) of depth 2 on all inputs of up to 2 (3) tokens; its predictions are replayed in the real '
        'matcher, and thousands of larger recorded matches are validated step by step. ')
NOTES = {
    'C04': BASE + 'Judged: outcome, tokens consumed, termination. Random grammars have at most 40 nodes and inputs at most 300 tokens; left recursion is excluded as in the property.',
    'C05': BASE + 'Judged: the complete sequence of action calls with their tokens and counts.',
    'C06': BASE + 'Judged: begin/end calls, their values, errors, nesting and order relative to actions, and that the wrapped match is unchanged.',
    'C07': BASE + 'Judged: grammars with cuts: abort or recovery, and every event before the abort.',
    'C08': BASE + 'Judged: blamed rule (by its printed form), source index, failing index, nested causes, and the rendered message, byte by byte; for grammars given as objects, and for '
           'compiled grammar texts at every entry point (match, exact, eval, sub-rule on text and on slices of tokens; left-over input too) in TplTrace.tla.',
}
ASSUME = {k: ['the driver records faithfully what the public API shows',
              'token kinds and offsets are taken from the real tokenizer (C01 judges them)'] for k in NOTES}
