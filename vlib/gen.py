"""C26: statically generated grammars and interpreters (spec/TplText.tla, TplTrace.tla, TplMC.tla, InterpTrace.tla)."""
import json, os, random, re, shutil, subprocess
from . import core, tpl, interp


def go_string(latin1):
    """a Go literal of the bytes of a latin-1 string"""
    return '"' + ''.join(c if ' ' <= c <= '~' and c not in '"\\' else '\\x%02x' % ord(c) for c in latin1) + '"'


def texts_of(suite, cases):
    """what has to be generated for the cases"""
    if suite == 'gen':
        return sorted({u['g'] for c in cases for u in c['units']})
    return sorted({c['g'] for c in cases})


class Generated:
    """drivers with generated code, kept for the time of a check"""
    def __init__(self, ctx):
        self.ctx, self.built, self.n = ctx, [], 0

    def binary(self, suite, cases):
        ts = texts_of(suite, cases)
        for name, have, path in self.built:
            if name == suite and have.issuperset(ts):
                return path
        return self.build(suite, ts)

    def build(self, suite, ts):
        ctx = self.ctx
        ctx.build()
        self.n += 1
        src = os.path.join(ctx.dir, 'driver-%s%d' % (suite, self.n))
        shutil.copytree(os.path.join(ctx.dir, 'driver'), src)
        write = code_files if suite == 'gen' else package_files
        files, entry, refused = write(ctx, src, ts)
        out = src + '.bin'
        broken = {}

        def drop(bad, why):
            for t in bad:
                broken[t] = why
                p = os.path.join(src, 'static', files[t])
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)

        def blamed(err):        # texts whose file, or whose line of the registry, is named in a message
            found = set(re.findall(r'((?:code|p)\d{4})(?:\.go|/)', err))
            lines = {int(x) for x in re.findall(r'registry\.go:(\d+)', err)}
            return {t for t, f in files.items() if t not in broken and (f[:-3] if suite == 'gen' else f) in found
                    or t not in broken and line.get(t) in lines}

        line = {}
        r = subprocess.run(['gofmt', '-l', '.'], cwd=os.path.join(src, 'static'), env=ctx.env(), capture_output=True, text=True)
        drop(blamed(r.stderr), r.stderr)
        for _ in range(12):
            text = registry(ts, entry, refused, broken, suite)
            line = lines_of(text, ts)
            with open(os.path.join(src, 'static', 'registry.go'), 'w') as fh:
                fh.write(text)
            r = subprocess.run(['go', 'build', '-gcflags=verifdriver/...=-e', '-o', out, '.'], cwd=src, env=ctx.env(), capture_output=True, text=True)
            if r.returncode == 0:
                break
            bad = blamed(r.stderr) or {t for t in files if t not in broken}      # without them, it was built before
            if not bad:
                raise core.CheckError('generated driver does not build:\n' + r.stderr[-3000:])
            drop(bad, r.stderr)
        else:
            raise core.CheckError('generated driver does not build')
        shutil.rmtree(src)
        self.built.append((suite, set(ts), out))
        n = ctx.notes.setdefault('generated', {'texts': 0, 'refused': 0, 'not_buildable': 0})
        n['texts'] += len(ts)
        n['refused'] += len(refused)
        n['not_buildable'] += len(broken)
        return out


def lines_of(text, ts):
    at = {l.split('] = Grammar{R:')[0] + ']': i + 1 for i, l in enumerate(text.split('\n')) if l.startswith('Grammars[')}
    return {t: at.get('Grammars[%s]' % go_string(t)) for t in ts}


def registry(ts, entry, refused, broken, suite):
    imp = sorted({e.split('.')[0] for t, e in entry.items() if t not in broken}) if suite != 'gen' else []
    out = ['package static', 'import "github.com/qiniu/text/tpl"']
    out += ['import "github.com/qiniu/text/tpl/interpreter.util"'] if suite != 'gen' else []
    out += ['import "verifdriver/static/%s"' % p for p in imp]
    out += ['var _ tpl.ScanMode'] + (['var _ interpreter.Interface'] if suite != 'gen' else []) + ['func init() {']
    for t in ts:
        if t in refused:
            out.append('Grammars[%s] = Grammar{R: "rej"}' % go_string(t))
        elif t in broken:
            out.append('Grammars[%s] = Grammar{R: "nobuild"}' % go_string(t))
        elif suite == 'gen':
            out.append('Grammars[%s] = Grammar{R: "ok", Cl: func(marker func(g tpl.Grammar, mark string) tpl.Grammar, init func(), '
                       'scanner tpl.Tokener, mode tpl.ScanMode) tpl.CompileRet { c := &%s{Marker: marker, Init: init, Scanner: scanner, '
                       'ScanMode: mode}; return c.Cl() }}' % (go_string(t), entry[t]))
        else:
            p = entry[t].split('.')[0]
            out.append('Grammars[%s] = Grammar{R: "ok", New: func(ipt interpreter.Interface, mode tpl.ScanMode) (interface{}, error) { '
                       'return %s.NewStaticInterpreter(ipt, &%s.Options{ScanMode: mode}) }}' % (go_string(t), p, p))
    return '\n'.join(out + ['}', ''])


def code_files(ctx, src, ts):
    """one file per text: the generator's code with its type renamed"""
    inp = '\n'.join(json.dumps({'id': i + 1, 't': t}) for i, t in enumerate(ts)) + '\n'
    r = subprocess.run([ctx.driver, 'run', 'gencode'], input=inp, capture_output=True, text=True, env=ctx.env(), timeout=120)
    if r.returncode != 0:
        raise core.CheckError('gencode failed: ' + r.stderr[-2000:])
    files, entry, refused = {}, {}, set()
    for line in r.stdout.split('\n'):
        m = json.loads(line) if line.strip() else {}
        if 'obs' not in m:
            continue
        t = m['t']
        if m['obs']['r'] != 'ok':
            refused.add(t)
            continue
        name = 'StaticCompiler%d' % m['id']
        files[t], entry[t] = 'code%04d.go' % m['id'], name
        with open(os.path.join(src, 'static', files[t]), 'w') as fh:
            fh.write('package static\n\nimport "github.com/qiniu/text/tpl"\n' + re.sub(r'\bStaticCompiler\b', name, m['obs']['code']))
    return files, entry, refused


def tplgen(ctx):
    out = os.path.join(ctx.dir, 'tplgen')
    if not os.path.exists(out):
        r = subprocess.run(['go', 'build', '-o', out, './tpl/cmd/tplgen'], cwd=core.REPO, env=ctx.env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise core.CheckError('tplgen does not build:\n' + r.stderr[-2000:])
    return out


def package_files(ctx, src, ts):
    """one package per text: what the tplgen command writes beside a file that declares the grammar"""
    cmd = tplgen(ctx)
    files, entry, refused = {}, {}, set()

    def one(it):
        i, t = it
        name = 'p%04d' % i
        d = os.path.join(src, 'static', name)
        os.mkdir(d)
        flags, text = declare(i, name, t)
        with open(os.path.join(d, 'grammar.go'), 'wb') as fh:
            fh.write(text)
        r = subprocess.run([cmd, '-i'] + flags, cwd=d, env=ctx.env(), capture_output=True, text=True)
        if r.returncode != 0:
            shutil.rmtree(d)
            return t, None
        return t, name

    with core.ThreadPoolExecutor(core.WORKERS) as ex:
        for t, name in ex.map(one, enumerate(ts)):
            if name is None:
                refused.add(t)
            else:
                files[t], entry[t] = name, name + '.NewStaticInterpreter'
    return files, entry, refused


def declare(i, pkg, t):
    """the grammar in one of the forms tplgen looks for"""
    raw = t.encode('latin1')
    plain = b'`' not in raw and b'\r' not in raw and b'\0' not in raw
    try:
        raw.decode('utf-8')
        plain = plain and b'\xef\xbb\xbf' not in raw
    except UnicodeDecodeError:
        plain = False
    lit = b'`' + raw + b'`' if plain and i % 5 != 4 else go_string(t).encode()
    p = b'package ' + pkg.encode() + b'\n\n'
    form = i % 6
    if form == 0:
        return [], p + b'const grammar = ' + lit + b'\n'
    if form == 1:
        return ['-g', 'G2'], p + b'var G1 = "doc = IDENT"\n\nvar (\n\tn = 1\n\tG2 = ' + lit + b'\n)\n\nvar _, _ = n, G1\n'
    if form == 2:
        return ['-g', 'gr', '-f', 'out.go'], p + b'func F(grammar string) string {\n\tx, gr := 1, ' + lit + b'\n\t_ = x\n\treturn gr\n}\n'
    if form == 3:
        return ['-f', 'zz.go'], p + b'type T struct{ grammar string }\n\nfunc (T) F() string {\n\tconst grammar = ' + lit + b'\n\treturn grammar\n}\n'
    if form == 4:
        return ['-g', 'b'], p + b'const a, b, c = "doc = INT", ' + lit + b', 3\n'
    return [], p + b'var grammar string = ' + lit + b'\n'


def binary(ctx, suite, cases):
    if not hasattr(ctx, 'generated'):
        ctx.generated = Generated(ctx)
    return ctx.generated.binary(suite, cases)


core.Ctx.BINARIES.update(gen=binary, geni=binary)


def diff(case, e):
    """as tpl.diff; generated code marks the rules in any order"""
    o = case['obs']
    if o.get('r') in ('hang', 'dead') or o['u'][0]['r'] == 'nobuild':
        return ['verdict', 'marks', 'out', 'acts']
    u = o['u'][0]
    if u['r'] == 'ok' and e['ok'] and sorted(u['marks']) == sorted(e['marks']):
        names = u['marks']
        u = dict(u, marks=e['marks'], ops=[dict(y, log=[dict(a, i=names[a['i'] - 1]) if a['e'] == 'act' else a for a in y['log']]) for y in u['ops']])
        e = dict(e, out=[dict(x, acts=[dict(a, i=e['marks'][a['i'] - 1]) for a in x['acts']]) for x in e['out']])
    return tpl.diff(dict(case, obs={'r': '', 'u': [u]}), e)


TPL = ['verdict', 'marks', 'out', 'acts', 'init', 'at']
INT = ['new', 'out', 'calls', 'stack', 'ip', 'msg', 'place']


def model(ctx, rnd):
    n = tpl.NBODY
    plans = [('body', '1' * n, 3), ('text', '1' * tpl.NTEXT, ctx.budget(4, 6))]
    for k in range(ctx.budget(0, 8)):
        pick = ['0'] * n
        for j in rnd.sample(range(n), 8):
            pick[j] = '1'
        pick[rnd.randrange(3)] = '1'
        plans.append(('body', ''.join(pick), 5))
    done = []
    for k, (vocab, pick, n) in enumerate(plans):
        if k > 0 and (ctx.left() < 250 or ctx.violations):
            break
        pr = ctx.tlc('TplMC', env={'VOCAB': vocab, 'PICK': pick, 'MAXLEN': n})
        ps = tpl.preds(pr, ctx, ctx.seed * 37 + k, False)
        good = [p for p in ps if p['exp']['ok']]
        rest = [p for p in ps if not p['exp']['ok']]
        good = rnd.sample(good, min(len(good), ctx.budget(900, 2500)))
        ctx.compare('gen', good + rest, diff, relevant=TPL)
        done.append('%s: %d tokens, words up to %d: %d texts, %d of them accepted and built' % (vocab, pick.count('1'), n, len(ps), len(good)))
    ctx.notes['explored_texts'] = done


def words(ctx, rnd):
    """histories of words on one generated interpreter"""
    pr = ctx.tlc('InterpMC', env={'SYMS': 'mu()p!?;', 'MAXLEN': ctx.budget(4, 5)})
    ps = [interp.wordcase(e, rnd) for e in pr['R']]
    ctx.compare('geni', ps, interp.wordiff, relevant=['out', 'calls'])
    ctx.notes['explored_words'] = len(ps)


def c26(ctx):
    rnd = random.Random(ctx.seed * 1013 + 5)
    model(ctx, rnd)
    words(ctx, rnd)
    for r in range(ctx.budget(1, 10)):
        if r > 0 and (ctx.left() < 150 or ctx.violations):
            break
        off = 7000 + r * 31
        cs = ctx.gen('gen', 450, 'sem', seed_off=off) + ctx.gen('gen', 100, 'hist', seed_off=off + 1) + ctx.gen('gen', 150, 'bad', seed_off=off + 2)
        ctx.validate('gen', 'TplTrace', cs, TPL, batch=3000)
        if ctx.violations:
            break
        cs = []
        for i, (p, n) in enumerate([('words', 60), ('mute', 60), ('nest', 60), ('sig', 80), ('enum', 60)]):
            cs += ctx.gen('geni', n, p, seed_off=off + 3 + i)
        ctx.validate('geni', 'InterpTrace', cs, INT)


CHECKS = {'C26': c26}
NOTES = {'C26': 'Texts explored token by token in TplMC.tla (the machine of C09: all words of up to 3 over 26 tokens and more) are given to the '
         'static generator, the generated code is compiled into the driver and run on all inputs of up to 2 tokens; generated texts (good, '
         'broken, histories) run through generated code are validated in TplTrace.tla, which reads the text and runs the grammar itself: '
         'refusals, marks, outcome, position and action events. tplgen -i is run on packages that declare grammars in every form it looks '
         'for, the interpreters it writes are built and run, and InterpTrace.tla judges them as it judges native engines.'}
ASSUME = {'C26': ['rule names are usable as Go variable names', 'marks of different rules may be created in any order']}
