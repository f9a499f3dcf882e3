"""C30: the command that converts files (spec/TplConv.tla)."""
import html, json, os, random, re, shutil, subprocess
from . import core
from .extract import WORDG

PATHS = {'one': 'one.w', 'nodes': 'nodes.w', 'dropped': 'dr opped.w', 'markup': 'sub/markup.w', 'empty': 'empty.w', 'dotted': 'a.v.w', 'other': 'other.v',
         'refused': 'refused.w', 'unread': 'unread.w', 'foreign': 'foreign.v', 'noext': 'plain', 'inpath': 'd.w/plain', 'stop': 'stop.',
         'unknown': 'unknown.ww', 'badtpl': 'badtpl.bad', 'missing': 'missing.w'}
WORDS = {'one': 'i', 'nodes': '(ia)[a][i]', 'dropped': 'a[ia}a', 'markup': 'iqaq', 'empty': '', 'dotted': 'ai', 'other': 'rr', 'refused': 'ip',
         'unread': 'i(a', 'foreign': 'ra'}
FORMS = {'json': ['-o', 'json'], 'default': [], 'html': ['-o', 'page.html'], 'htm': ['-o', 'other.htm'], 'broken': ['-o', 'broken.html'],
         'gone': ['-o', 'gone.html'], 'text': ['-o', 'page.txt'], 'xml': ['-o', 'xml']}
HOME = {'input/w.tpl': WORDG, 'input/v.tpl': 'doc = *(INT/y_Ints);', 'input/bad.tpl': 'doc = INT/x_Int )',
        'output/page.html': '<p>{{json .}}</p>\n', 'output/other.htm': '<title>x</title><div data-doc="{{json .}}"></div>', 'output/broken.html': '<p>{{json .</p>',
        'output/page.txt': '<p>{{json .}}</p>\n'}
WRAP = {'html': re.compile(r'\s*<p>(.*?)</p>', re.S), 'htm': re.compile(r'\s*<title>x</title><div data-doc="([^"]*)"></div>')}
STALE = 'stale ' * 300


def spell(w):
    sym = {'a': '"%d"', 'q': '"<b>&\'x"', 'p': "'c'"}
    return ' '.join((str(j + 1) if s in 'ir' else sym[s] % (j + 1) if s == 'a' else sym.get(s, s)) for j, s in enumerate(w)) + '\n'


def documents(form, text):
    """the documents in a text of the form, None if it is none"""
    out, i = [], 0
    try:
        while text[i:].strip():
            if form in WRAP:
                m = WRAP[form].match(text, i)
                if not m:
                    return None
                out.append(shown(json.loads(html.unescape(m.group(1)))))
                i = m.end()
            else:
                while text[i].isspace():
                    i += 1
                v, i = json.JSONDecoder().raw_decode(text, i)
                out.append(shown(v))
    except ValueError:
        return None
    return out


def plain(v):
    if v['k'] == 'map':
        return {t: plain(x) for t, x in v['m'].items()} if v['m'] else {}
    if v['k'] in ('arr', 'narr'):
        return [plain(x) for x in v['a']]
    return int(v['s']) if v['k'] == 'int' else v['s']


def shown(v):
    """an empty document may be shown as null"""
    return {} if v is None else v


def command(ctx):
    out = os.path.join(ctx.dir, 'tplconv')
    if not os.path.exists(out):
        r = subprocess.run(['go', 'build', '-o', out, './tpl/cmd/tplconv'], cwd=core.REPO, env=ctx.env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise core.CheckError('tplconv does not build:\n' + r.stderr[-2000:])
    return out


def plant(root, files):
    for f, t in files.items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
            fh.write(t)


def read(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, encoding='utf-8', errors='replace') as fh:
                res[os.path.relpath(p, root)] = fh.read()
    return res


def one(cmd, root, c):
    home = {'.tplconv/' + f: t for f, t in HOME.items()}
    work = {PATHS[k]: spell(WORDS.get(k, 'i')) for k in c['args'] if k != 'missing'}
    work.update({PATHS[k] + '.out': STALE for k in c['args']})
    plant(root + '/home', home)
    os.makedirs(root + '/work')
    plant(root + '/work', work)
    try:
        r = subprocess.run([cmd] + FORMS[c['form']] + (['-ext', c['ext']] if c['ext'] else []) + [PATHS[k] for k in c['args']], cwd=root + '/work',
                           env={'HOME': root + '/home', 'PATH': '/usr/bin:/bin'}, stdin=subprocess.DEVNULL, capture_output=True, timeout=20)
    except subprocess.TimeoutExpired:
        return {'r': 'hang'}
    after = read(root + '/work')
    files = {}
    for k in set(c['args']):
        t = after.pop(PATHS[k] + '.out', None)
        work.pop(PATHS[k] + '.out', None)
        files[k] = 'gone' if t is None else 'old' if t == STALE else documents(c['form'], t) or ['nothing']
    return {'r': 'ok', 'code': r.returncode, 'err': bool(r.stderr.strip()), 'out': documents(c['form'], r.stdout.decode('utf-8', 'replace')) if c['args'] else [],
            'files': files, 'kept': after == work and read(root + '/home') == home}


def runner(ctx, cases):
    cmd = command(ctx)
    ctx.runs = getattr(ctx, 'runs', 0) + 1

    def f(c):
        root = os.path.join(ctx.dir, 'conv%d-%d' % (ctx.runs, c['id']))
        os.makedirs(root)
        try:
            return dict(c, suite='conv', obs=one(cmd, root, c))
        finally:
            shutil.rmtree(root, ignore_errors=True)

    with core.ThreadPoolExecutor(core.WORKERS) as ex:
        return list(ex.map(f, cases))


core.Ctx.RUNNERS['conv'] = runner


def differs(case, e):
    o = case['obs']
    if o['r'] != 'ok':
        return ['hang']
    d = []
    if o['code'] != e['code']:
        d.append('code')
    if o['err'] != (e['code'] != 0):
        d.append('message')
    if o['out'] != [plain(x) for x in e['out']]:
        d.append('out')
    for k, f in (e['files'] or {}).items():
        if f['op'] == 'old' and o['files'][k] != 'old' or f['op'] == 'new' and o['files'][k] != [plain(f['doc'])]:
            d.append('file')
    if not o['kept']:
        d.append('kept')
    return sorted(set(d))


def check(ctx):
    n = 2 if ctx.quick else 3
    pr = ctx.tlc('TplConv', env={'MAXFILES': n})['R']
    random.Random(ctx.seed).shuffle(pr)
    for i in range(0, len(pr), 4000):
        if ctx.left() < 60 or ctx.violations:
            break
        ctx.compare('conv', [{'args': p['args'], 'form': p['form'], 'ext': p['ext'], 'exp': p} for p in pr[i:i + 4000]], differs)
    ctx.notes['explored_runs'] = '%d of %d runs over up to %d files' % (ctx.predictions, len(pr), n)


CHECKS = {'C30': check}
NOTES = {
    'C30': 'spec/TplConv.tla is a run of tplconv as a state machine: read a file, find the grammar its extension selects, extract (Extract.tla), '
           'open the output, write in the form asked for, go on or end. TLC explores every list of up to two (thorough: three) files of '
           'sixteen kinds with every form and with or without an output extension, checks that what is written is a prefix of what was asked '
           'for, and all of it exactly when the run succeeds, and every run is replayed with the real command in a scratch tree; compared are '
           'exit code, message, documents on the standard output and in files, and that no other file changes.',
}
ASSUME = {'C30': ['what the output file of the failing input holds is left open', 'templates are read by html/template of Go']}
