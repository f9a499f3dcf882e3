#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/seeds/*.py and confirms each: applies, builds, passes the stable
tests, demo passes on the unchanged tree and fails with the patch. Usage: mkseed.py [id ...]"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DEMO = '''#!/bin/bash
# run with cwd = the tree of qiniu/text; exit 0 if it behaves
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/main.go"
cat > "$d/go.mod" <<EOF
module demo

go 1.21

require github.com/qiniu/text v0.0.0

replace github.com/qiniu/text => $root
EOF
cd "$d" || exit 2
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
go build -o demo . || exit 2
timeout 60 ./demo || exit 1
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main():
    want = set(sys.argv[1:])
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        seeds += runpy.run_path(f)['SEEDS']
    env = '. /opt/vp/env.sh; '
    bad = 0
    for s in seeds:
        if any(e[0].endswith('.tpl') for e in s['edits']):      # counts for nothing: not source code
            continue
        if want and s['id'] not in want:
            continue
        out = os.path.join(VERIF, 'seeded', s['id'])
        if not want and os.path.exists(os.path.join(out, 'patch.diff')):
            r = sh('git -C /repo apply --check ' + os.path.join(out, 'patch.diff'), '/')
            if r.returncode == 0:
                continue
        tmp = tempfile.mkdtemp(prefix='seed-')
        try:
            tree = os.path.join(tmp, 'repo')
            sh('cp -a /repo ' + tree, '/')
            for file, old, new in s['edits']:
                p = os.path.join(tree, file)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT does not match once:', t.count(old), repr(old[:60]))
                    bad += 1
                    break
                open(p, 'w').write(t.replace(old, new))
            else:
                demo = os.path.join(tmp, 'demo')
                os.makedirs(demo)
                open(os.path.join(demo, 'demo.sh'), 'w').write(s.get('demo_sh', DEMO.replace('go build', 'go build -race') if s.get('race') else DEMO))
                os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
                if 'demo' in s:
                    open(os.path.join(demo, 'main.go'), 'w').write(s['demo'])
                for k, v in s.get('files', {}).items():
                    open(os.path.join(demo, k), 'w').write(v)
                diff = sh('git diff', tree).stdout
                r = sh(env + 'go build ./... && go vet ./tpl ./tpl/generator >/dev/null 2>&1; go test -vet=off -count=1 ./... ./tpl/cmd/tplgen/testdata', tree)
                tests = [l for l in r.stdout.splitlines() if 'FAIL' in l]
                if 'build failed' in r.stdout + r.stderr or tests:
                    print(s['id'], 'TESTS', tests[:4], r.stderr[:500])
                    bad += 1
                    continue
                a = sh(env + 'bash %s/demo.sh' % demo, '/repo')
                b = sh(env + 'bash %s/demo.sh' % demo, tree)
                if a.returncode != 0 or b.returncode in (0, 2):
                    print(s['id'], 'DEMO clean=%d patched=%d' % (a.returncode, b.returncode), a.stdout[-300:], a.stderr[-600:], b.stdout[-300:], b.stderr[-300:])
                    bad += 1
                    continue
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(demo, out)
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(os.path.join(out, 'meta.json'), 'w'), indent=1)
                print(s['id'], 'ok')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return bad


sys.exit(1 if main() else 0)
