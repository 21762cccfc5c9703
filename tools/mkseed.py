#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE is python defining id, prop, needs, breaks, pkg, edits=[(path,old,new),...], test (Go source).
Makes the change in a scratch copy of /repo, confirms that it compiles, passes the stable tests, that the demonstration
passes without and fails with it, and writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; run with cwd = the repository
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOFLAGS=-mod=mod GOWORK=off
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/__PKG__/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$HERE" > "$T/overlay.json"
go test -count=1 -vet=off __RACE__ -overlay "$T/overlay.json" -run '^TestDemo$' ./__PKG__
'''
os.environ.update(GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GO111MODULE='on',PATH='/usr/local/go/bin:'+os.environ['PATH'])
SKIP='^(TestLoadOctaveBin|ExampleLoadMnist|ExampleBaseMultilayerPerceptron32_Fit_mnist|ExampleMLPClassifier_Fit_mnist|ExampleMLPClassifier_Predict_mnist)$'
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for f in sys.argv[1:]:
    ns = dict(race=False)
    exec(open(f).read(), ns)
    out = '/verif/seeded/' + ns['id']
    T = tempfile.mkdtemp(prefix='seed')
    R = T + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', R])
        D = T + '/demo'
        os.mkdir(D)
        open(D + '/demo.sh', 'w').write(DEMO.replace('__PKG__', ns['pkg']).replace('__RACE__', '-race' if ns['race'] else ''))
        os.chmod(D + '/demo.sh', 0o755)
        open(D + '/demo_test.go', 'w').write(ns['test'])
        r = sh(D + '/demo.sh', R)
        if r.returncode != 0:
            print(ns['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-3000:]); continue
        # new lines must replace original lines
        mine = set(sh('git log --format=%H --grep="^fix:"', R).stdout.split())
        bad = False
        for p, old, new in ns['edits']:
            s = open(R + '/' + p).read()
            if s.count(old) != 1:
                print(ns['id'], 'EDIT MATCHES', s.count(old), repr(old)); bad = True; break
            open(R + '/' + p, 'w').write(s.replace(old, new))
        if bad: continue
        d = sh('git diff', R).stdout
        r = sh('go build ./... && go vet ./%s' % ns['pkg'], R)
        if r.returncode != 0: print(ns['id'], 'BUILD', r.stdout[-2000:])
        r = sh(D + '/demo.sh', R)
        if r.returncode == 0:
            print(ns['id'], 'DEMO PASSES WITH THE CHANGE'); continue
        print(ns['id'], 'demo:', ' | '.join(l.strip() for l in r.stdout.splitlines() if 'zz_demo' in l or 'panic' in l or 'RACE' in l)[:300])
        # stable tests, as test.sh does but in the copy
        r = sh('go test -json -count=1 -vet=off -skip "'+SKIP+'" ./... > %s/t.json' % T, R)
        passed = set()
        for l in open(T + '/t.json'):
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and e.get('Test'):
                passed.add((e['Package'], e['Test']))
        names = {t for _, t in passed} | {p + '.' + t for p, t in passed} | {p + '/' + t for p, t in passed} | {p + '::' + t for p, t in passed}| {p.replace('github.com/pa-m/sklearn/','') + '::' + t for p, t in passed}| {p.replace('github.com/pa-m/sklearn/','') + '.' + t for p, t in passed}
        miss = [t for t in base if t not in names]
        if miss:
            print(ns['id'], 'BREAKS TESTS', miss[:10]); continue
        # blame of removed lines
        for p, old, new in ns['edits']:
            pass
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(d)
        for x in ('demo.sh', 'demo_test.go'): shutil.copy(D + '/' + x, out + '/' + x)
        json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(out + '/meta.json', 'w'), indent=1)
        # which removed lines are not original
        root = sh('git log --format=%H --grep="^fix:" | tail -1', R).stdout.strip()
        r = sh('git stash -q; git checkout -q %s^ 2>/dev/null; git apply --check %s/patch.diff 2>&1 | head -3' % (root, out), R)
        print(ns['id'], 'SAVED', 'applies to the original too' if not r.stdout.strip() else 'does not apply to the original: ' + r.stdout.strip()[:200])
    finally:
        shutil.rmtree(T)
