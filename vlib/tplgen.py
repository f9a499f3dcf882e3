"""C31: the command that generates static compilers finds its grammar (spec/TplGen.tla)."""
import os, random, re, shutil, subprocess
from . import core, gen
from .conv import read

# N: the name, L: its literal, j: the number of the declaration
DECL = {
    'const': 'const N = L',
    'var': 'var N string = L',
    'group': 'var (\n\ta@ = "doc = STRING/no@a"\n\tN = L\n\tb@ = `doc = STRING/no@b`\n)',
    'several': 'const a@, N, b@ = "doc = STRING/no@a", L, "doc = STRING/no@b"',
    'define': 'func f@() string {\n\tx, N := "doc = STRING/no@a", L\n\t_ = x\n\treturn N\n}',
    'assign': 'func f@() string {\n\tvar N string\n\tN = L\n\treturn N\n}',
    'method': 'func (T) m@() string {\n\tconst N = L\n\treturn N\n}',
    'twice': 'func f@() string {\n\tN := mk()\n\tN = L\n\tN = "doc = ("\n\treturn N\n}',
    'longer': 'const N_ = "doc = STRING/no@"',
    'shorter': 'const Y = "doc = STRING/no@"',
    'cased': 'const N1, N2 = "doc = STRING/no@", `doc = STRING/no@`',
    'novalue': 'var N string',
    'iota': 'const (\n\ta@ = iota\n\tN\n)',
    'call': 'var N = mk()',
    'pair': 'var a@, N = two()',
    'defpair': 'func f@() {\n\tx, N := two()\n\t_, _ = x, N\n}',
    'field': 'type T@ struct{ N string }',
    'param': 'func f@(N string) (g string) {\n\treturn N\n}',
    'nobody': 'func f@(N string) string',
    'broken': 'const N = "doc = ("',
}
STALE = 'package demo\n\nconst grammar, Lang = "doc = STRING/stale", "doc = STRING/stale"\n'


def source(c):
    name = 'grammar' if c['name'] == 'default' else 'Lang'
    out = ['package demo\n', 'type T struct{}\n', 'func mk() string { return "" }\n', 'func two() (a, b string) { return }\n']
    for j, k in enumerate(c['decls']):
        lit = ('"doc = INT/mk%d"' if (j + c['salt']) % 2 else '`doc = INT/mk%d`') % (j + 1)
        d = DECL[k].replace('@', str(j + 1))
        d = re.sub(r'\bN1\b', name.upper(), re.sub(r'\bN2\b', name.title() if name == 'grammar' else name.lower(), d))
        d = re.sub(r'\bL\b', lambda m: lit, re.sub(r'\bN_', name + 's', re.sub(r'\bN\b', name, d)))
        out.append(re.sub(r'\bY\b', name[:-1], d) + '\n')
    return '\n'.join(out)


def one(cmd, d, c):
    flags = [] if c['name'] == 'default' else ['-g', 'Lang']
    f = ('static_compiler.go', 'zz_out.go', 'aa_out.go')[c['salt'] % 3]
    if c['salt'] % 3:
        flags += ['-f', f]
    if c['salt'] % 4 == 3:
        flags.append('-i')
    files = {'decl.go': source(c), 'other.txt': 'const grammar = "doc = STRING/text"\n', f: STALE}
    for k, t in files.items():
        with open(os.path.join(d, k), 'w') as fh:
            fh.write(t)
    try:
        r = subprocess.run([cmd] + flags, cwd=d, env={'PATH': os.environ['PATH'], 'HOME': d}, stdin=subprocess.DEVNULL, capture_output=True, timeout=20)
    except subprocess.TimeoutExpired:
        return {'r': 'hang'}
    after = read(d)
    got = after.pop(f, None)
    del files[f]
    err = r.stderr.decode('utf-8', 'replace')
    marks = sorted(set(re.findall(r'"((?:mk|no)\d+\w*|stale|text)"', got))) if got else []
    return {'r': 'ok', 'code': r.returncode, 'err': bool(err.strip()), 'crash': 'goroutine ' in err, 'got': got is not None, 'marks': marks,
            'pkg': bool(got and re.search(r'^package demo$', got, re.M)), 'kept': after == files}


def runner(ctx, cases):
    cmd = gen.tplgen(ctx)
    ctx.runs = getattr(ctx, 'runs', 0) + 1

    def f(c):
        d = os.path.join(ctx.dir, 'tplgen%d-%d' % (ctx.runs, c['id']))
        os.makedirs(d)
        try:
            return dict(c, suite='tplgen', obs=one(cmd, d, c))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with core.ThreadPoolExecutor(core.WORKERS) as ex:
        return list(ex.map(f, cases))


core.Ctx.RUNNERS['tplgen'] = runner


def differs(case, e):
    o = case['obs']
    if o['r'] != 'ok':
        return ['hang']
    d = []
    if (o['code'] != 0) != (e['code'] != 0) or o['crash']:
        d.append('code')
    if o['err'] != (e['code'] != 0):
        d.append('message')
    if e['code'] == 0 and (o['marks'] != ['mk%d' % e['took']] or not o['pkg']):
        d.append('grammar')
    if e['code'] != 0 and o['got']:
        d.append('output')
    if not o['kept']:
        d.append('kept')
    return d


def check(ctx):
    n = 2 if ctx.quick else 3
    pr = ctx.tlc('TplGen', env={'MAXDECLS': n})['R']
    rnd = random.Random(ctx.seed)
    rnd.shuffle(pr)
    for i in range(0, len(pr), 2000):
        if ctx.left() < 60 or ctx.violations:
            break
        ctx.compare('tplgen', [{'decls': p['decls'], 'name': p['name'], 'salt': rnd.randrange(12), 'exp': p} for p in pr[i:i + 2000]], differs)
    ctx.notes['explored_runs'] = '%d of %d packages of up to %d declarations' % (ctx.predictions, len(pr), n)


CHECKS = {'C31': check}
NOTES = {
    'C31': 'spec/TplGen.tla is a run of tplgen as a state machine: remove the old output, go through the places where declarations give values '
           'to names, take the first literal of the name asked for, generate or refuse. TLC explores every sequence of up to two (thorough: '
           'three) declarations of twenty kinds, checks that the first that gives a literal is taken and that output and success go '
           'together, and every run is replayed with the real command on a package in a scratch directory, with different options; compared '
           'are exit code, message, which grammar the output has, its package, and that no other file changes.',
}
ASSUME = {'C31': ['the name asked for is declared in one file of the package', 'what the generated code does is the subject of C26']}
