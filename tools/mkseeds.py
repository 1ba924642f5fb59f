#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each planted
change in a scratch copy of /repo: it applies, builds, passes the stable tests,
and its demonstration fails with it and passes without it.
Usage: mkseeds.py [id...]"""
import sys, os, subprocess, json, glob, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.27.3
export PATH="$GOROOT/bin:$PATH" GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
go test -vet=off -overlay "$T/o.json" -run '^TestSeedDemo$' -count=1 -timeout 200s ./%(pkg)s
'''
seeds = {}
for f in sorted(glob.glob(HERE + '/seeds/*.py')):
    g = {}
    exec(open(f).read(), g)
    seeds.update(g['SEEDS'])
want = sys.argv[1:] or list(seeds)
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
for i in want:
    s = seeds[i]
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        sh('cp -a /repo %s/repo' % tmp, '/')
        R = tmp + '/repo'
        sh('git checkout -q -- .', R)
        ok = True
        for fn, old, new in s['edits']:
            t = open(R + '/' + fn).read()
            if t.count(old) != 1:
                print(i, 'EDIT MATCHES', t.count(old), fn, repr(old[:60])); ok = False; break
            open(R + '/' + fn, 'w').write(t.replace(old, new))
        if not ok: continue
        diff = sh('git diff', R).stdout
        d = VERIF + '/seeded/' + i
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO % {'pkg': s.get('pkg', '.')})
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go', 'w').write(s['demo'].lstrip())
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
        sh('gofmt -w %s/demo_test.go' % d, '/')
        env = '. /opt/vp/env.sh >/dev/null 2>&1; cd %s; ' % R
        b = subprocess.run(['bash', '-c', env + 'go build $PKGS && go test -vet=off -count=1 -skip "^TestCancelRequest$" -timeout 5m $PKGS'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = sh('bash %s/demo.sh' % d, R)
        sh('git checkout -q -- .', R)
        good = sh('bash %s/demo.sh' % d, R)
        st = 'OK' if b.returncode == 0 and bad.returncode != 0 and good.returncode == 0 and 'build failed' not in bad.stdout else 'BAD'
        print(i, st, 'tests', b.returncode, 'demo with', bad.returncode, 'without', good.returncode)
        if st == 'BAD':
            print(b.stdout[-1500:] if b.returncode else '', bad.stdout[-1500:], good.stdout[-1500:] if good.returncode else '')
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
