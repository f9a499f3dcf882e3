"""C17-C18: extractors (spec/Extract.tla, ExtractTrace.tla, ExtractMC.tla)."""
import random

WORDG = ("doc = *item; item = INT/x_Int | STRING/z_Strings | ('(' *item ')')/n_Node | ('[' *item ']')/k_NodeArray | '(' *raw '}' | '[' *raw '}' "
         "| CHAR/x_Int | '!' ! '='; raw = INT | STRING | '(' *raw (')' | '}') | '[' *raw (']' | '}');")


def spell(w, rnd):
    out = ''
    for j, s in enumerate(w):
        out += {'i': str(j + 1), 'a': '"%d"' % (j + 1), 'p': "'c'", '!': '! 5'}.get(s, s) + rnd.choice([' ', ' ', '\n'])
    return out


def norm(v):
    """an empty map is printed as an empty sequence"""
    return {'k': v['k'], 's': v['s'], 'm': {t: norm(x) for t, x in v['m'].items()} if v['m'] else {}, 'a': [norm(x) for x in v['a']]}


def wordcases(preds, rnd):
    rnd.shuffle(preds)
    flat = [e for p in preds for e in p]        # histories one after another are a history
    out = []
    for i in range(0, len(flat), 14):
        evs = flat[i:i + 14]
        ops = [{'op': rnd.choice(['extract', 'safe', 'safeparse', 'parse', 'exact']), 'name': '', 'src': spell(e['w'], rnd)} for e in evs]
        out.append({'g': WORDG, 'mode': 0, 'conv': False, 'ops': ops, 'exp': evs})
    return out


def differ(case, exp):
    o = case['obs']
    if o.get('r') != 'ok':
        return ['out', 'doc']
    d = set()
    for e, ob in zip(exp, o['ops']):
        if ob['r'] != e['r']:
            d.add('out')
        elif e['r'] == 'ok' and norm(ob['doc']) != norm(e['doc']):
            d.add('doc')
        elif e['r'] == 'fail' and ob['got']:
            d.add('doc')
    return sorted(d)


def words(plans):
    def f(ctx):
        rnd = random.Random(ctx.seed * 131 + 17)
        done = []
        for syms, a, b in plans:
            if ctx.left() < 150 or ctx.violations:
                break
            n = ctx.budget(a, b)
            ps = wordcases(ctx.tlc('ExtractMC', env={'SYMS': syms, 'MAXLEN': n})['R'], rnd)
            ctx.compare('extract', ps, differ)
            done.append('words of %d over %s: %d' % (n, syms, sum(len(p['ops']) for p in ps)))
        ctx.notes['explored_words'] = done
    return f


def check(profiles, mc):
    def f(ctx):
        mc(ctx)
        for r in range(ctx.budget(1, 14)):
            if r > 0 and (ctx.left() < 100 or ctx.violations):
                break
            for i, (p, n) in enumerate(profiles):
                ctx.validate('extract', 'ExtractTrace', ctx.gen('extract', n, p, seed_off=8000 + r * 23 + i), ['new', 'out', 'doc', 'kept'], batch=3000)
    return f


CHECKS = {
    'C17': check([('types', 1300), ('nest', 200)], words([('ia()[]', 6, 8)])),
    'C18': check([('nest', 300), ('gram', 800)], words([('i()[]}', 6, 8), ('ia([])}', 5, 7), ('i(])};p', 6, 8), ('a[}!;)(', 5, 7)])),
}
BASE = ('spec/Extract.tla specifies the document an extractor collects: marks, conversions, open nodes and what is dropped with them, on top of '
        'the matcher machine (Peg) and the reader of grammar texts (TplText, Lexer). ExtractTrace.tla runs every case step by step and compares '
        'outcome and document after each extraction. ')
MC = ('ExtractMC.tla explores all words over leaves, nodes, abandoned nodes, failures and ends of extractions, checks in every state that the '
      'document is the one read off the word, whether the open nodes are kept or abandoned, and its predictions are replayed on real extractors. ')
NOTES = {
    'C17': BASE + MC + 'Cases: all mark types (arrays, invalid, host conversions) on all kinds of tokens with ordinary and unconvertible literals; '
                       'nested and interleaved documents.',
    'C18': BASE + MC + 'Cases: bracket languages with abandoned nodes at any depth, random grammars with random marks, histories with failing, cut '
                       'and panicking extractions in between.',
}
ASSUME = {k: ['floats are compared up to 15 significant digits',
              'of several matches of a scalar mark in one node the first is expected; a name used with several kinds of marks is the kind of its first match',
              'an absent and an empty document are not told apart'] for k in NOTES}
