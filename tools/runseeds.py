#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against a copy of /repo with the bug. Usage: runseeds.py [id-prefix ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='rs-')
    try:
        tree = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        r = subprocess.run(['git', '-C', tree, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            return d, 'APPLY', r.stderr, 0
        t = time.time()
        env = dict(os.environ, VERIF_REPO=tree, VERIF_TIER='quick', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_OUT=tmp)
        r = subprocess.run([sys.executable, VERIF + '/check.py', os.environ.get('PROP') or meta['property']], capture_output=True, text=True, env=env, cwd=VERIF)
        hit = 'VIOLATION property=' in r.stdout
        return d, ('CAUGHT' if r.returncode == 1 and hit else 'missed(%d)' % r.returncode), r.stdout[-1500:] + r.stderr[-1500:], time.time() - t
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


dirs = sorted(d for d in glob.glob(VERIF + '/seeded/*') if os.path.exists(d + '/patch.diff'))
if len(sys.argv) > 1:
    dirs = [d for d in dirs if any(os.path.basename(d).startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    for d, res, out, t in ex.map(one, dirs):
        print('%-32s %s %.0fs' % (os.path.basename(d), res, t), flush=True)
        if res != 'CAUGHT' or os.environ.get('V'):
            print(out)
