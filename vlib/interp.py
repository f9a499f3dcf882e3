"""C13-C15: interpreter engines (spec/Interp.tla, InterpTrace.tla, InterpMC.tla)."""
import random

WORDG = "doc = *( INT/m | IDENT/_u | '('/_mute | ')'/_unmute | STRING/p | '!' ! '=' );"


def fn(mark, **kw):
    f = {'mark': mark, 'shape': 'func', 'recv': 'stk', 'p': [], 'out': [], 'do': 'nop', 'how': '', 'on': 0, 'rule': '', 'cap': 0,
         'ip': 1, 'mode': 'ret'}
    f.update(kw)
    return f


WORDFNS = [fn('m'), fn('_u', p=['ctx'], recv='ipt'), fn('p', do='fail', how='str')]
SPELL = {'m': '1', 'u': 'x', '(': '(', ')': ')', 'p': '"p"', '!': '! 5', '?': '?'}


def wordcase(evs, rnd):
    ops = []
    for e in evs:
        src = ''.join(SPELL[s] + rnd.choice([' ', ' ', '\n']) for s in e['w'])
        ops.append({'op': rnd.choice(['exact', 'eval']), 'name': '', 'src': src, 'file': rnd.choice(['', 'f'])})
    return {'g': WORDG, 'mode': 0, 'fns': WORDFNS, 'callfn': False, 'perr': False, 'ops': ops, 'exp': evs}


def wordiff(case, exp):
    o = case['obs']
    if o.get('r') != 'ok':
        return ['out', 'calls']
    d = set()
    for e, ob in zip(exp, o['ops']):
        if ob['r'] != e['r']:
            d.add('out')
        if [x['f'] for x in ob['log']] != e['log']:
            d.add('calls')
    return sorted(d)


def words(ctx):
    rnd = random.Random(ctx.seed * 7919 + 3)
    plans = [('mu()', ctx.budget(6, 8)), ('mu()p!?;', ctx.budget(4, 5))]
    plans += [(''.join(rnd.sample('mu()', 3) + rnd.sample('p!?;', 2)), ctx.budget(5, 7)) for _ in range(ctx.budget(1, 4))]
    done = []
    for i, (syms, n) in enumerate(plans):
        if i > 0 and (ctx.left() < 200 or ctx.violations):
            break
        pr = ctx.tlc('InterpMC', env={'SYMS': syms, 'MAXLEN': n})
        ps = [wordcase(e, rnd) for e in pr['R']]
        ctx.compare('interp', ps, wordiff, relevant=['out', 'calls'])
        done.append('words of %d over %s: %d' % (n, syms, len(ps)))
    ctx.notes['explored_words'] = done


def k1():
    """code captured in one evaluation fails in a later one: the place is looked up in the later text"""
    cap = fn('cap', p=['intf'], do='cap')
    run = fn('run', p=['eng'], do='run', rule='item')
    f = fn('f', p=['intf'], do='fail', how='str')
    return {'g': "doc = +item; item = INT | '(' (1/_mute item 1/_unmute)/cap ')' | '!'/run | IDENT/f;", 'mode': 0,
            'fns': [cap, run, f], 'callfn': False, 'perr': False,
            'ops': [{'op': 'exact', 'name': '', 'src': '(\n\n\nbad)', 'file': 'first'},
                    {'op': 'exact', 'name': '', 'src': '1\n2\n3\n4\n5 !', 'file': 'second'}]}


def findings(ctx):
    c = ctx.run('interp', [dict(k1(), raw=True)])[0]
    ob = c['obs']['ops'][1]
    if ob['r'] == 'rt' and ob['oldplace'] != 'first:4':
        ctx.known_finding('K1', 'an error raised in code captured by an earlier evaluation is reported at %r instead of first:4' % ob['oldplace'])


def check(pid, aspects, profiles, mc=None, known=None):
    def f(ctx):
        if known:
            known(ctx)
        if mc:
            mc(ctx)
        for r in range(ctx.budget(1, 14)):
            if r > 0 and (ctx.left() < 100 or ctx.violations):
                break
            for i, (p, n) in enumerate(profiles):
                ctx.validate('interp', 'InterpTrace', ctx.gen('interp', n, p, seed_off=5000 + r * 23 + i), aspects, batch=3000)
    return f


CHECKS = {
    'C13': check('C13', ['new', 'out', 'calls', 'stack'], [('enum', 2600), ('sig', 600)]),
    'C14': check('C14', ['out', 'calls', 'stack'], [('mute', 700)], words),
    'C15': check('C15', ['out', 'calls', 'msg', 'place', 'ip', 'stack'], [('words', 700), ('nest', 500)], known=findings),
}
BASE = ('spec/Interp.tla specifies an engine: marks bound to functions, the mute counter, the operand stack, captured code, nested '
        'evaluations with their own interpreter and mute depth, and errors on their way out, on top of the matcher machine (Peg) and the '
        'reader of grammar texts (TplText, Lexer). InterpTrace.tla runs every case step by step and compares outcome, calls with all '
        'arguments, stack and interpreter after each evaluation. ')
NOTES = {
    'C13': BASE + 'Cases: a seeded part of the product of signatures, mark spellings, results, matched literals and shapes of match, every '
           'pair of operand values for every pair of parameter types, and random grammars with function tables, some with refused bindings.',
    'C14': BASE + 'InterpMC.tla explores all words over marks, mute, unmute, panics, cuts, failures and ends of evaluations, checks the '
           'bracket law in every state, and its predictions are replayed; random grammars with (un)balanced muting and histories of 2-5 '
           'evaluations are validated in InterpTrace.',
    'C15': BASE + 'Cases: bracket languages whose captured code is evaluated at its end (modes: error returned, dropped, recovered; other '
           'interpreters and rules; muted or not; failing functions of all kinds at chosen calls) and random grammars with captured rules; '
           'judged: outcome, original error, place, calls, interpreter afterwards.',
}
ASSUME = {k: ['the driver builds bound functions by reflection; their bodies follow a small catalogue',
              'float arguments are compared in thousandths'] for k in NOTES}
