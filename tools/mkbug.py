#!/usr/bin/env python3
"""Builds and confirms a planted bug.

usage: mkbug.py [--notest] ID...      (ID = directory under /verif/seeded)

The directory holds edit.json ([{"file","old","new"}...]), meta.json and main.go
(the demonstration). Writes patch.diff and demo.sh, and confirms in a scratch
copy that the patch compiles, passes the stable tests, and that the demo exits
0 without and nonzero with the patch."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

DEMO = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves as specified.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
tmp=$(mktemp -d) || exit 3
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo && timeout 120 "$tmp/demo"
rc=$?
rm -rf "$tmp"
exit $rc
'''
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
           GOTOOLCHAIN='local', GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod')
notest = '--notest' in sys.argv
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(bid):
    d = os.environ.get('SEEDED', '/verif/seeded') + '/' + bid
    tmp = tempfile.mkdtemp(prefix='mkbug-')
    try:
        repo = tmp + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        r = run(['bash', d + '/demo.sh'], repo)
        if r.returncode != 0:
            return bid, 'demo fails on the unchanged tree: ' + r.stdout[-600:]
        for e in json.load(open(d + '/edit.json')):
            p = repo + '/' + e['file']
            s = open(p).read()
            n = s.count(e['old'])
            k = e.get('nth', 0)
            if n == 0 or (n > 1 and 'nth' not in e):
                return bid, 'old text occurs %d times in %s' % (n, e['file'])
            i = -1
            for _ in range(k + 1):
                i = s.index(e['old'], i + 1)
            s = s[:i] + e['new'] + s[i + len(e['old']):]
            open(p, 'w').write(s)
        diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
        r = run(['go', 'build', './MAPL_engine/'], repo)
        if r.returncode != 0:
            return bid, 'does not compile: ' + r.stdout[-600:]
        r = run(['bash', d + '/demo.sh'], repo)
        if r.returncode == 0:
            return bid, 'demo passes with the patch'
        if not notest:
            t = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m', './MAPL_engine/...'], repo)
            ok = set()
            for l in t.stdout.splitlines():
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if j.get('Action') == 'pass' and 'Test' in j:
                    ok.add(j['Package'] + '/' + j['Test'])
            miss = [s for s in stable if s not in ok]
            if miss:
                return bid, 'stable tests fail: %s' % miss
        open(d + '/patch.diff', 'w').write(diff)
        return bid, 'ok (demo: %s)' % r.stdout.strip()[-200:].replace('\n', ' | ')
    finally:
        shutil.rmtree(tmp)


ids = [a for a in sys.argv[1:] if not a.startswith('--')]
with ThreadPoolExecutor(2) as ex:
    for bid, msg in ex.map(one, ids):
        print(bid, msg, flush=True)
