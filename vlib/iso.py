"""C27: independent engines (spec/Isolation.tla, IsoTrace.tla)."""
import hashlib
import json
import os
import random
from concurrent.futures import ThreadPoolExecutor

from . import core, interp

os.environ.setdefault('GORACE', 'halt_on_error=1 exitcode=66')


# --- schedules of the model -----------------------------------------------------------------
def engine(rnd, i, prog):
    """a real engine for a program of the model"""
    script = rnd.random() < .4
    m = 'mInt' if script else 'm'
    g = "doc = *( INT/%s | IDENT/_u | '('/_mute | ')'/_unmute | STRING/p );" % m
    fns = [interp.fn(m, p=['intf' if script else 'int'], do='pusharg'), interp.fn('_u', p=['intf' if script else 'string'], recv='ipt'),
           interp.fn('p', do='fail', how='str')]
    ops = []
    for o, w in enumerate(prog):
        src = ' '.join({'i': str(100 * i + 10 * (o + 1) + k + 1), 'x': 'x', 'p': '"p"'}.get(s, s) for k, s in enumerate(w))
        if script:
            ops.append({'op': rnd.choice(['exec', 'eval']), 'by': rnd.choice(['host', 'script']), 'src': src, 'file': ''})
        else:
            ops.append({'op': rnd.choice(['exact', 'eval']), 'name': '', 'src': src, 'file': ''})
    c = {'g': g, 'mode': 0, 'fns': fns, 'ops': ops}
    if script:
        c['fns'] = [dict(f, go=False) for f in fns]
        c.update(bad='', stk=rnd.choice(['script', 'host', 'ints']), made=rnd.choice(['script', 'host']), names=rnd.random() < .3)
        return {'suite': 'script', 'case': c}
    c.update(callfn=False, perr=False)
    return {'suite': 'interp', 'case': c}


def predicted(rnd, p):
    engs = [engine(rnd, i + 1, w) for i, w in enumerate(p['progs'])]
    return {'mode': p['mode'], 'engs': engs, 'sched': p['sched'] or [0], 'exp': p['alone'], 'shows': p['shows']}


def differ(case, exp):
    o = case['obs']
    if o.get('r') != 'ok':
        return ['lost']
    for obs, want in zip(o['engs'], exp):
        for x in obs:
            if x.get('r') != 'ok':
                return ['isolation']
            got = [{'r': op['r'], 'log': [(l['f'].replace('mInt', 'm') + ':' + ''.join(l['a'])) for l in op['log']], 'stk': op['stk']} for op in x['ops']]
            if got != want:
                return ['isolation']
    return []


def explore(ctx, mode, engines, part, most):
    rnd = random.Random(ctx.seed * 4099 + engines * 7 + len(mode))
    pr = ctx.tlc('Isolation', env={'MODE': mode, 'ENGINES': engines, 'PART': part, 'SEED': ctx.seed})
    by = {}
    for p in pr['R']:
        by.setdefault(p['shows'][0], []).append(p)
    if not by:
        raise core.CheckError('no schedule shows a shared cell')
    ps = []
    for cell in sorted(by):
        ps += rnd.sample(by[cell], min(len(by[cell]), most // len(by)))
    ctx.compare('iso', [predicted(rnd, p) for p in ps], differ)
    ctx.notes.setdefault('schedules', []).append('%s, %d engines: %d show a shared %s; %d replayed' % (
        mode, engines, len(pr['R']), '/'.join(sorted(by)), len(ps)))


# --- engines of all suites in company ---------------------------------------------------------
def digest(o):
    return hashlib.md5(json.dumps(o, sort_keys=True).encode()).hexdigest()


def alone(ctx, cases):
    """what each engine of each case shows when it is alone in a process"""
    ctx.build()
    todo = [(c, i) for c in cases for i in range(len(c['engs']))]

    def one(t):
        c, i = t
        e = c['engs'][i]
        out = ctx._run_chunk(ctx.driver, e['suite'], [dict(e['case'], id=1)], 10, 1)
        return digest(out[0]['obs']) if out else digest('skipped')
    with ThreadPoolExecutor(core.WORKERS) as ex:
        for (c, i), d in zip(todo, ex.map(one, todo)):
            c.setdefault('alone', [None] * len(c['engs']))[i] = d


def judge(ctx, done, count=True):
    items = []
    for c in done:
        o = c['obs']
        items.append({'id': c['id'], 'mode': c['mode'], 'sched': c['sched'], 'alone': c['alone'],
                      'obs': {'r': o['r'], 'tr': o.get('tr') or [], 'engs': [[digest(x) for x in l] for l in o.get('engs') or []]}})
    by = {c['id']: c for c in done}
    return [(by[i['id']], m) for i, m in ctx.judge('IsoTrace', items, count=count)]


def company(ctx, mode, n, off, race=False):
    cases = ctx.gen('iso', n, mode, seed_off=off)
    binary = ctx.build(race=True) if race else None
    done = ctx.run('iso', cases, binary=binary, timeout=20)
    k = ctx.chunks
    alone(ctx, done)
    bad = judge(ctx, done)
    ctx.sample(done[:1], 1)
    bad.sort(key=lambda cm: len(json.dumps(cm[0]['engs'])))

    def test(x):
        alone(ctx, [x])
        b = judge(ctx, [x], count=False)
        return b[0][1] if b else None
    confirmed = 0
    for c, m in bad[:12]:
        if confirmed >= 4:
            break
        for _ in range(4):
            again = ctx.run('iso', [{f: v for f, v in c.items() if f not in ('obs', 'id', 'alone', 'suite')}], binary=binary, timeout=20)
            m2 = test(again[0]) if again else None
            if m2:
                ctx.violation('iso', again[0], m2, module='IsoTrace')
                confirmed += 1
                break
    if bad and not confirmed:
        for c in done:
            c.pop('alone', None)
        if not ctx.in_history('iso', done, k, bad, test, 20, 'IsoTrace'):
            raise core.CheckError('%d mismatches in company did not reproduce, e.g. %s' % (len(bad), json.dumps(bad[0])[:2000]))


def check(ctx):
    explore(ctx, 'nest', 3, ctx.budget(30, 10), ctx.budget(700, 4000))
    explore(ctx, 'turns', 2, ctx.budget(24, 9), ctx.budget(900, 8000))
    for r in range(ctx.budget(1, 10)):
        if ctx.violations or (r > 0 and ctx.left() < 150):
            break
        for i, mode in enumerate(['turns', 'nest', 'conc']):
            if not ctx.violations:
                company(ctx, mode, 400, 9500 + r * 23 + i)
        if not ctx.violations:
            company(ctx, 'conc', ctx.budget(350, 600), 9510 + r * 23, race=True)


CHECKS = {'C27': check}
NOTES = {
    'C27': 'spec/Isolation.tla is the product of several engines (mute depth, operand stack, function table, text of each) under every '
           'order of their turns and every nesting of one within a call back of another; TLC checks that each does what it does alone '
           '(Isolated) and, with one cell made common to all engines, prints the schedules that would show it; these are replayed on real '
           'native and scripted interpreters and compared with the model. Random companies of 2-4 engines of every kind (matchers, native '
           'and scripted interpreters, calculators, extractors, script engines; alike, alike but with other functions and texts, or '
           'different) are run by turns (every call back, creation and use is a point of switching), nested, and all at the same time on '
           'goroutines of their own (also under the race detector); IsoTrace.tla judges the trace of turns against the schedule and every '
           'observation of every engine against that of the engine alone in a process of its own.',
}
ASSUME = {'C27': ['engines switch where the driver sees them: creation, use, call backs; within a step only the goroutines of mode conc interleave',
                  'a data race reported by the race detector counts as one engine influencing another']}
