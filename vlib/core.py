"""Shared machinery of the checks: building the driver from /repo, running cases on the real code,
running TLC on the specification, confirming mismatches, writing evidence.

A check never judges by itself: the specification (a trace spec run by TLC, or predictions printed by
a model-checking module) says what the real code should have done."""
import ctypes, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = os.cpu_count() or 4
try:
    LIBC = ctypes.CDLL(None)
except Exception:
    LIBC = None


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


def log(*a):
    print(*a, flush=True)


class Ctx:
    BINARIES = {}       # suites that need a driver of their own: suite -> function(ctx, suite, cases)
    RUNNERS = {}        # suites that run without a driver: suite -> function(ctx, cases)

    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.quick = self.tier != 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = self.cases = 0
        self.predictions = 0
        self.samples = []
        self.coverage = {}
        self.notes = {}
        self.violations = []
        self.known = []
        self._covered = set()
        self._n = 0
        self.driver = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def budget(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        """seconds left of the time this run may take"""
        return self.budget(500, 800) - (time.time() - self.t0)

    def path(self, name):
        self._n += 1
        return os.path.join(self.dir, '%03d-%s' % (self._n, name))

    # --- the real code ------------------------------------------------------
    def env(self):
        e = dict(os.environ)
        for k in ('GOFLAGS', 'GO111MODULE'):
            e.pop(k, None)
        e.update(GOFLAGS='-mod=mod', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off')
        if 'HOME' not in e:
            e['HOME'] = '/root'
        return e

    def build(self, race=False):
        src = os.path.join(self.dir, 'driver')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'driver'), src)
            mod = open(os.path.join(src, 'go.mod')).read().replace('/repo', REPO)
            open(os.path.join(src, 'go.mod'), 'w').write(mod)
        out = os.path.join(self.dir, 'verifdriver' + ('-race' if race else ''))
        if os.path.exists(out):
            return out
        cmd = ['go', 'build'] + (['-race'] if race else []) + \
            (['-cover', '-coverpkg=verifdriver,github.com/qiniu/text/...'] if os.environ.get('VERIF_COVER') else []) + ['-o', out, '.']
        r = subprocess.run(cmd, cwd=src, env=self.env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('driver does not build:\n' + r.stderr)
        if not race:
            self.driver = out
        return out

    def gen(self, suite, n, profile='', seed_off=0):
        self.build()
        r = subprocess.run([self.driver, 'gen', suite, '-seed', str(self.seed * 100003 + seed_off), '-n', str(n),
                            '-profile', profile], capture_output=True, text=True, env=self.env())
        if r.returncode != 0:
            raise CheckError('gen %s failed:\n%s' % (suite, r.stderr[-3000:]))
        return [json.loads(l) for l in r.stdout.split('\n') if l.strip()]

    def run(self, suite, cases, timeout=10, binary=None, jobs=None, maxfail=3):
        """Runs cases on the real code; the result keeps only executed cases, each with 'obs'."""
        for i, c in enumerate(cases):
            c['id'] = i + 1
        if suite in self.RUNNERS:
            self.chunks = 1
            self.cases += len(cases)
            return self.RUNNERS[suite](self, cases)
        self.build()
        if binary is None and suite in self.BINARIES:
            binary = self.BINARIES[suite](self, suite, cases)
        binary = binary or self.driver
        jobs = jobs or WORKERS
        k = max(1, min(jobs, (len(cases) + 19) // 20))
        self.chunks = k
        chunks = [cases[i::k] for i in range(k)]
        with ThreadPoolExecutor(k) as ex:
            res = list(ex.map(lambda c: self._run_chunk(binary, suite, c, timeout, maxfail), chunks))
        out = [c for r in res for c in r]
        out.sort(key=lambda c: c['id'])
        for c in out:
            c['suite'] = suite
            if isinstance(c['obs'], dict) and c['obs'].get('r') in ('hang', 'dead'):      # lost
                c['obs'] = dict(self._pre(binary, suite, c), **c['obs'])
        self.cases += len(out)
        return out

    def _pre(self, binary, suite, c):
        """what the specification must know about a case whose execution did not end normally"""
        c = {k: v for k, v in c.items() if k != 'obs'}
        try:
            r = subprocess.run([binary, 'run', suite, '-pre'], input=json.dumps(c), capture_output=True, text=True,
                               env=self.env(), timeout=60)
            for l in r.stdout.split('\n'):
                m = json.loads(l)
                if 'obs' in m:
                    return m['obs'] or {}
        except Exception:
            pass
        return {}

    def _limits(self):
        """in the child: no core files, and it ends with this process"""
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            LIBC.prctl(1, 9)
        except Exception:
            pass

    def _run_chunk(self, binary, suite, cases, timeout, maxfail):
        todo = list(cases)
        out = []
        fails = 0
        while todo and fails < maxfail:
            p = subprocess.Popen([binary, 'run', suite, '-timeout', '%ds' % timeout], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env(),
                                 preexec_fn=self._limits)
            data = '\n'.join(json.dumps(c) for c in todo).encode() + b'\n'
            try:
                so, se = p.communicate(data, timeout=max(120, timeout * 4 + len(todo)))
            except subprocess.TimeoutExpired:
                p.kill()
                so, se = p.communicate()
            started, done = None, set()
            byid = {c['id']: c for c in todo}
            for line in so.decode('utf-8', 'replace').split('\n'):
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if 'start' in m:
                    started = m['start']
                elif 'skip' in m:
                    done.add(m['skip'])
                else:
                    done.add(m['id'])
                    out.append(m)
            if started is not None and started not in done:
                c = dict(byid[started])
                c['obs'] = {'r': 'dead', 'msg': se.decode('utf-8', 'replace')[:600]}
                out.append(c)
                done.add(started)
                fails += 1
            elif p.returncode == 3:
                fails += 1
            elif p.returncode != 0:
                raise CheckError('driver failed (%s): %s' % (p.returncode, se.decode('utf-8', 'replace')[-2000:]))
            rest = [c for c in todo if c['id'] not in done]
            if len(rest) == len(todo):
                raise CheckError('driver made no progress: ' + se.decode('utf-8', 'replace')[-2000:])
            todo = rest
        return out

    # --- the specification ----------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, extra=(), timeout=None, simulate=None, heap='6g'):
        """Runs TLC; returns the values printed with the prefixes @@X. Model errors raise CheckError."""
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', JAVA_CP,
               'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers or WORKERS), '-metadir', meta,
               '-config', os.path.join(VERIF, 'spec', (cfg or module) + '.cfg')]
        cmd += list(extra) + [os.path.join(VERIF, 'spec', module + '.tla')]
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, errors='replace', preexec_fn=self._limits,
                               timeout=timeout or max(60, self.left() + 200))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        shutil.rmtree(meta, ignore_errors=True)
        printed = {}
        for line in r.stdout.split('\n'):
            if line.startswith('"@@'):
                s = json.loads(line)
                tag, _, js = s[2:].partition(' ')
                printed.setdefault(tag, []).append(json.loads(js))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
        if 'Model checking completed. No error has been found.' not in r.stdout or not m:
            noise = ('"@@', 'Parsing ', 'Semantic ', 'Linting ', 'The field ', 'named ', 'In TLA+, field', 'Therefore, DOMAIN')
            raise CheckError('TLC on %s:\n%s' % (module, '\n'.join(
                l for l in r.stdout.split('\n') if l and not l.startswith(noise) and not re.match(r'line \d+, col \d+ to line.*module', l))[:6000]
                + r.stderr[-1000:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        inits = re.findall(r'Finished computing initial states: (\d+) distinct', r.stdout)
        n0 = int(inits[-1]) if inits else 0
        self.states += dist
        self.transitions += max(0, gen - n0)
        for name, a, b in re.findall(r'^<(\w+) line [^>]*>: (\d+):(\d+)', r.stdout, re.M):
            if name != 'Init':
                self.coverage[module + '.' + name] = self.coverage.get(module + '.' + name, 0) + int(b)
        for k in printed.get('K', []):          # action counts the specification reports: {"k": name, "n": count}
            self.coverage[k['k']] = self.coverage.get(k['k'], 0) + k['n']
        return printed

    def _ticks(self, module):
        """does the module count its actions itself?"""
        return 'POSTCONDITION' in open(os.path.join(VERIF, 'spec', module + '.cfg')).read()

    def judge(self, module, cases, batch=6000, env=None, count=True):
        """Validates executed cases against a trace spec; returns [(case, mismatch)]."""
        bad = []
        i = 0
        while i < len(cases):
            # action counts cost time: they are taken on a first, smaller batch
            cover = count and module not in self._covered and not self._ticks(module)
            part = cases[i:i + (min(batch, 1500) if cover else batch)]
            i += len(part)
            f = self.path('cases.ndjson')
            with open(f, 'w') as fh:
                for j, c in enumerate(part):
                    fh.write(json.dumps(clean(dict(c, id=j + 1))) + '\n')
            e = {'CASES': f}
            e.update(env or {})
            pr = self.tlc(module, env=e, extra=['-coverage', '1'] if cover else [])
            if count:
                self._covered.add(module)
            os.unlink(f)
            for m in pr.get('M', []):
                bad.append((part[m['id'] - 1], m))
            if count:
                self.traces += len(part)
        return bad

    def enough(self):
        """violations that make every case take its whole time must not keep the check from its answer"""
        return bool(self.violations) and time.time() - self.t0 > (150 if self.quick else 400)

    # --- violations -------------------------------------------------------------
    def validate(self, suite, module, cases, aspects, batch=6000, env=None, timeout=10, known=None, retries=2,
                 confirm_max=6):
        """gen'd cases -> real code -> trace spec; mismatches on `aspects` (None: any) are confirmed in a
        fresh process and become violations."""
        if self.enough():
            return []
        done = self.run(suite, cases, timeout=timeout)
        k = self.chunks
        self.sample(done)
        bad = self.judge(module, done, batch=batch, env=env)
        bad = [(c, m) for c, m in bad if aspects is None or set(m['aspects']) & set(aspects)]
        bad.sort(key=lambda cm: len(json.dumps(cm[0])))
        confirmed = 0
        for c, m in bad:
            if confirmed >= confirm_max or confirmed and self.enough():
                break
            if self.confirm(suite, module, c, aspects, env, timeout, known, retries):
                confirmed += 1
        if bad and not confirmed and not self.known:
            def test(x):
                b2 = self.judge(module, [x], env=env, count=False)
                b2 = [m for _, m in b2 if aspects is None or set(m['aspects']) & set(aspects)]
                return b2[0] if b2 else None
            if self.in_history(suite, done, k, bad, test, timeout, module):
                return done
            raise CheckError('%d mismatches on %s did not reproduce, e.g. %s' % (len(bad), suite, json.dumps(bad[0])[:2000]))
        return done

    def in_history(self, suite, done, k, bad, test, timeout, module=None):
        """a mismatch that a case alone does not show may need the cases run before it in the same process"""
        def rerun(cs):
            out = self.run(suite, [{f: v for f, v in c.items() if f not in ('obs', 'id', 'suite')} for c in cs], timeout=timeout * 2, jobs=1)
            self.cases -= len(out)
            return (out[-1], test(out[-1])) if len(out) == len(cs) else (None, None)
        for c, _ in sorted(bad, key=lambda cm: cm[0]['id'])[:2]:
            cs = [x for x in done if x['id'] <= c['id'] and (x['id'] - c['id']) % k == 0]
            last, m = rerun(cs)
            if not m:
                continue
            step = len(cs) // 2
            for _ in range(24):             # shorten the history
                if step < 1:
                    break
                i = 0
                while i < len(cs) - 1:
                    less = cs[:i] + cs[min(i + step, len(cs) - 1):]
                    l2, m2 = rerun(less)
                    if m2:
                        cs, last, m = less, l2, m2
                    else:
                        i += step
                    if self.left() < 60:
                        break
                step //= 2
            self.violation(suite, last, m, module=module, before=[{f: v for f, v in c.items() if f != 'obs'} for c in cs[:-1]])
            return True
        return False

    def confirm(self, suite, module, c, aspects, env, timeout, known, retries):
        for _ in range(retries):
            c2 = {k: v for k, v in c.items() if k not in ('obs', 'id', 'suite')}
            again = self.run(suite, [c2], timeout=timeout * 2)
            self.cases -= len(again)
            if not again:
                continue
            b2 = self.judge(module, again, env=env, count=False)
            b2 = [(x, m) for x, m in b2 if aspects is None or set(m['aspects']) & set(aspects)]
            if b2:
                self.violation(suite, b2[0][0], b2[0][1], module=module, known=known)
                return True
        return False

    def compare(self, suite, preds, key, timeout=10, known=None, confirm_max=6, relevant=None):
        """Predictions of the model (each a case plus 'exp') replayed on the real code. key(case, exp) -> list of
        differing aspects."""
        cases = [{k: v for k, v in p.items() if k != 'exp'} for p in preds]
        exps = [p['exp'] for p in preds]
        if self.enough():
            return []
        done = self.run(suite, cases, timeout=timeout)
        k = self.chunks
        self.sample(done, 1)
        bad = []
        for c in done:
            d = key(c, exps[c['id'] - 1])
            if relevant is not None:
                d = [x for x in d if x in relevant]
            if d:
                bad.append((c, {'aspects': d, 'exp': exps[c['id'] - 1]}))
            self.predictions += 1
        self.traces += len(done)
        bad.sort(key=lambda cm: len(json.dumps(cm[0])))
        confirmed = 0
        for c, m in bad:
            if confirmed >= confirm_max or confirmed and self.enough():
                break
            c2 = {k: v for k, v in c.items() if k not in ('obs', 'id', 'suite')}
            again = self.run(suite, [c2], timeout=timeout * 2)
            self.cases -= len(again)
            if again and [x for x in key(again[0], m['exp']) if relevant is None or x in relevant]:
                self.violation(suite, again[0], m, known=known)
                confirmed += 1
        if bad and not confirmed and not self.known:
            for c, m in sorted(bad, key=lambda cm: cm[0]['id'])[:2]:
                def test(x):
                    d = [a for a in key(x, m['exp']) if relevant is None or a in relevant]
                    return dict(m, aspects=d) if d else None
                if self.in_history(suite, done, k, [(c, m)], test, timeout):
                    return done
            raise CheckError('%d replay mismatches did not reproduce, e.g. %s' % (len(bad), json.dumps(bad[0])[:2000]))
        return done

    def violation(self, suite, case, mismatch, module=None, known=None, before=()):
        if known:
            k = known(case, mismatch)
            if k:
                if k not in self.known:
                    self.known.append(k)
                return
        d = os.path.join(OUT, 'replay')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(f, 'w') as fh:
            json.dump({'property': self.prop, 'suite': suite, 'module': module, 'case': case, 'before': list(before), 'mismatch': mismatch,
                       'replay': 'python3 check.py --replay ' + f}, fh, indent=1)
        self.violations.append(f)
        log('VIOLATION property=%s replay=%s' % (self.prop, f))
        log('  case:     ' + json.dumps({k: v for k, v in case.items() if k != 'obs'})[:800])
        log('  observed: ' + json.dumps(case.get('obs'))[:800])
        log('  expected: ' + json.dumps(mismatch)[:800])

    def known_finding(self, kid, what):
        """reports a finding that is listed in known_findings.json; an unlisted one is a violation"""
        listed = json.load(open(os.path.join(VERIF, 'known_findings.json')))
        if any(k['id'] == kid and k['property'] == self.prop for k in listed['findings']):
            self.known.append('%s: %s' % (kid, what))
        else:
            self.violation('known', {'id': kid}, {'aspects': [what]})

    def sample(self, cases, n=2):
        for c in cases[:: max(1, len(cases) // max(1, n))][:n]:
            if len(self.samples) < 6:
                s = json.dumps(c)
                self.samples.append(c if len(s) < 3000 else s[:3000])

    # --- the result ---------------------------------------------------------------
    def finish(self, assumptions=()):
        d = os.path.join(OUT, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'cases_executed': self.cases, 'predictions_replayed': self.predictions,
               'action_counts': self.coverage, 'samples': self.samples}
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov, 'assumptions': list(assumptions),
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        log('%s %s: %d states, %d transitions, %d traces validated, %d violations, %.1f s' % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def clean(v):
    """JSON as the specification can read it: no nulls."""
    if v is None:
        return '<null>'
    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clean(x) for x in v]
    return v
