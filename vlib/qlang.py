"""C19-C25: the script language (spec/Qlang.tla, QlangTrace.tla, QlangMC.tla, QlangSeq.tla)."""
import random

ALL = ['out', 'ret', 'msg', 'log', 'vars']


def source(text, lex=False):
    return ' '.join(text) + (' "ab' if lex else '')


def programs(preds, rnd, exits):
    """each prediction of QlangMC is one evaluation on an engine of its own; the few that end the process run in a child"""
    rnd.shuffle(preds)
    out, gone = [], 0
    for p in preds:
        gone += p['st'] == 'exit'
        if p['st'] == 'exit' and gone > exits:
            continue
        out.append({'semis': False, 'exit': p['st'] == 'exit', 'ast': [], 'exp': [p],
                    'ops': [{'op': 'eval', 'g': 1, 'doc': 0, 'w': [], 'src': source(p['text']), 'name': [], 'v': {}, 'lex': False}]})
    return out


def histories(preds, rnd):
    out = []
    for p in preds:
        ops = []
        for o in p['ops']:
            if 'text' in o:
                ops.append({'op': 'eval', 'g': o['g'], 'doc': 0, 'w': [], 'src': source(o['text'], o['lex']), 'name': [], 'v': {}, 'lex': o['lex']})
            else:
                ops.append({'op': 'set', 'g': 1, 'doc': 0, 'w': [], 'src': '', 'name': [120], 'v': o['v'], 'lex': False})
        out.append({'semis': False, 'exit': False, 'ast': [], 'ops': ops, 'exp': p['ops']})
    return out


def differ(case, exp):
    o = case['obs']
    if o.get('r') != 'ok' or len(o['ops']) != len(exp):
        return ['out']
    d = set()
    for e, ob in zip(exp, o['ops']):
        if 'text' not in e:
            continue
        if ob['r'] != e['st']:
            d.add('out')
            continue
        if ob['log'] != e['log']:
            d.add('log')
        if e['st'] == 'exit':
            if ob['v'] != dict(e['v'], i=e['v']['i'] % 256):
                d.add('msg')
            continue
        if ob['vars'] != e['vars']:
            d.add('vars')
        if e['st'] == 'ok' and not e.get('open') and (ob['v'] != e['v'] or ob['two']):
            d.add('ret')
        if e['st'] in ('err', 'raw') and ob['v'] != e['v']:
            d.add('msg')
    return sorted(d)


def explore(plans):
    """plans: (module, family, first, symbols, length quick, length thorough)"""
    def f(ctx):
        rnd = random.Random(ctx.seed * 131 + 19)
        done = []
        for module, fam, first, syms, a, b in plans:
            n = ctx.budget(a, b)
            if n == 0:
                continue
            if ctx.left() < 150 or ctx.violations:
                break
            env = {'FAMILY': fam, 'SYMS': syms, 'MAXLEN': n}
            if module == 'QlangSeq':
                env['FIRST'] = first
            ps = ctx.tlc(module, env=env)['R']
            ps = programs(ps, rnd, ctx.budget(60, 300)) if module == 'QlangMC' else histories(ps, rnd)
            ctx.compare('qlang', ps, differ)
            done.append('%s of %d over %s: %d' % ('programs' if module == 'QlangMC' else 'histories', n, syms, len(ps)))
        ctx.notes['explored_words'] = done
    return f


def check(profiles, mc):
    def f(ctx):
        mc(ctx)
        for r in range(ctx.budget(1, 14)):
            if r > 0 and (ctx.left() < 100 or ctx.violations):
                break
            for i, (p, n) in enumerate(profiles):
                ctx.validate('qlang', 'QlangTrace', ctx.gen('qlang', n, p, seed_off=9000 + r * 29 + i), ALL, batch=700)
    return f


P, Q = 'QlangMC', 'QlangSeq'
CHECKS = {
    'C19': check([('pairs', 350), ('expr', 1000)], explore([(P, 'e', '', ',a,t,s,+,-,<,&&,||,!,~,', 5, 6), (P, 'e', '', ',a,b,f,u,z,+,*,/,%,==,>=,', 5, 6)])),
    'C20': check([('control', 1200)], explore([(P, 'c', '', ',m,e,E,t,f,0,(,z,;,L,S,T,H,W,1,2,', 8, 10)])),
    'C21': check([('scope', 1300)], explore([(P, 'v', '', ',r,w,u,F,(,;,d,c,K,J,G,', 9, 11)])),
    'C22': check([('calls', 1100), ('exit', 150)], explore([(P, 'd', '', ',m,d,D,p,R,r,F,(,;,', 9, 11)])),
    'C23': check([('containers', 1200)], explore([(Q, 'k', 'n', 'nlaA2=pPEwWxogc', 4, 5), (Q, 'k', 'l', 'laA2=PEwWgc', 4, 6), (Q, 'k', 'M', 'MIDUkyNQeXZ', 4, 6)])),
    'C24': check([('classes', 1200)], explore([(Q, 'o', 'Kn', 'KknN=sSyrRYmMbciqu', 5, 6)])),
    'C25': check([('history', 1000)], explore([(Q, 'h', '', 'abrRsfcvFltdezpwm', 3, 4)])),
}
BASE = ('spec/Qlang.tla specifies the language as a machine: frames, scopes, values (with arrays and maps that are shared), functions, classes, deferred '
        'code, panics, and what an evaluation leaves behind. QlangTrace.tla runs every generated program (its syntax tree) on that machine and '
        'compares, after every evaluation of a history on one or two engines, the outcome, the result, the error or panic value, everything shown to '
        'the host (values in order), and all variables. The text of a program is written by the generator with and without redundant parentheses, '
        'spaces and line ends. ')
MC = ('QlangMC.tla explores all programs of a family as prefix words, checks in every state that the machine is well-formed and at the end that it '
      'agrees with a second, big-step definition and that the text reads back as the same tree; every program is replayed on a real engine. Family: ')
SEQ = ('QlangSeq.tla explores all histories of small evaluations and checks after each one that the machine agrees with a second, much smaller '
       'state; every history is replayed on real engines. Family: ')
NOTES = {
    'C19': BASE + MC + 'operators of all precedences and types, including the short-circuit ones. Cases: every operator and conversion on operands of all kinds (with infinities, negative zero and no numbers); nested expressions with errors of every kind.',
    'C20': BASE + MC + 'statements, if/elif/else, switch, and loops of all forms with marks. Cases: nested control flow, with and without inserted semicolons.',
    'C21': BASE + MC + 'reads, writes, unset, functions and classes nested in each other. Cases: random scopes with shadowing, late binding and multiple assignments.',
    'C22': BASE + MC + 'calls, deferred code, panics, recover and return. Cases: calls of all kinds of functions with deferred code at any depth; evaluations '
                       'that end the process run in a child.',
    'C23': BASE + SEQ + 'slices that are made, shared, grown, cut and changed; maps likewise. Cases: containers of all kinds and element types, slicing, iteration.',
    'C24': BASE + SEQ + 'classes that are defined again, objects, fields, methods, bound methods. Cases: random classes and histories.',
    'C25': BASE + SEQ + 'evaluations that fail in all ways, on two engines, with host variables. Cases: histories of random programs, half of which fail.',
}
ASSUME = {k: ['values are compared up to depth 4; functions, classes and objects only by their kind (identity with ==)',
              'the wording of errors other than panics of the program is not compared',
              'the capacity of slices grown by append, the result of an evaluation whose panic was recovered at the top, and what != compares between unlike types are left open'] for k in NOTES}
TECHNIQUE = {}
