"""C28: scripted interpreters (spec/Script.tla, ScriptTrace.tla; words of InterpMC.tla)."""
import random

from . import interp


def wordcase(e, rnd):
    c = interp.wordcase(e, rnd)
    ops = [{'op': 'exec' if o['op'] == 'exact' else 'eval', 'by': rnd.choice(['host', 'script']), 'src': o['src'],
            'file': o['file'] if o['op'] == 'exact' else ''} for o in c['ops']]
    fns = [dict(f, go=False) for f in interp.WORDFNS]
    return {'g': c['g'], 'mode': 0, 'fns': fns, 'bad': '', 'stk': rnd.choice(['script', 'host', 'ints']),
            'made': rnd.choice(['script', 'host']), 'names': rnd.random() < .3, 'ops': ops, 'exp': e}


def wordiff(case, exp):
    return interp.wordiff(case, [dict(e, r='fail' if e['r'] == 'abort' else e['r']) for e in exp])


def words(ctx):
    rnd = random.Random(ctx.seed * 6007 + 5)
    plans = [('mu()p!?;', 4), ('mu()', ctx.budget(5, 8))]
    plans += [(''.join(rnd.sample('mu()', 3) + rnd.sample('p!?;', 2)), ctx.budget(5, 6)) for _ in range(ctx.budget(0, 4))]
    done = []
    for i, (syms, n) in enumerate(plans):
        if i > 0 and (ctx.left() < 200 or ctx.violations):
            break
        pr = ctx.tlc('InterpMC', env={'SYMS': syms, 'MAXLEN': n})
        ps = [wordcase(e, rnd) for e in pr['R']]
        ctx.compare('script', ps, wordiff, relevant=['out', 'calls'])
        done.append('words of %d over %s: %d' % (n, syms, len(ps)))
    ctx.notes['explored_words'] = done


PROFILES = [('enum', 1800), ('sig', 900), ('nest', 600), ('mute', 600), ('words', 500)]


def check(ctx):
    words(ctx)
    for r in range(ctx.budget(1, 12)):
        if r > 0 and (ctx.left() < 100 or ctx.violations):
            break
        for i, (p, n) in enumerate(PROFILES):
            ctx.validate('script', 'ScriptTrace', ctx.gen('script', n, p, seed_off=9100 + r * 23 + i),
                         ['new', 'out', 'calls', 'msg', 'stack', 'ip'], batch=3000)


CHECKS = {'C28': check}
NOTES = {
    'C28': 'spec/Script.tla is the engine of Interp.tla (marks, mute counter, captured code, nested evaluations, errors on their way out, '
           'on the matcher machine and the reader of grammar texts) with what a scripted interpreter decides differently: the argument is '
           'chosen by the last word of the mark, operands and the single result go through the methods of a scripted stack, classes and '
           'tables can be wrong, errors arrive unwrapped. InterpMC.tla explores words over marks, mute, unmute, panics, cuts and ends of '
           'evaluations and its predictions are replayed into scripted engines; ScriptTrace.tla validates, step by step, random grammars '
           'with function tables (functions of the script, of its classes, of the host), the product of mark spellings and literals, typed '
           'operands, histories with muting, bracket languages whose captured code is evaluated at its end; classes are generated as '
           'script text, engines made and run by the script or by the host.',
}
ASSUME = {'C28': ['the scripts of a case follow a template; function bodies call the host, which keeps the log',
                  'float arguments are compared in thousandths']}
