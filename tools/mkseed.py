#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py  -- confirm it in a scratch copy and store it in /verif/seeded/<id>.
SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], test (Go source), pkg."""
import sys, os, json, subprocess, shutil, tempfile
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd at the repository; exit 0 when the behaviour holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GO111MODULE=off GOPATH=$t GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off
d=$t/src/github.com/mit-dci/zksigma
mkdir -p "$d"
tar -C "$PWD" --exclude=.git -cf - . | tar -C "$d" -xf -
cp "$here/demo_test.go.txt" "$d/@PKG@zz_demo_test.go"
cd "$d/@PKG@" && go test -vet=off -count=1 -timeout 120s @FLAGS@-run 'TestZZDemo$' .
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(f):
    s = {'pkg': '', 'flags': ''}
    exec(open(f).read(), s)
    out = f"{D}/seeded/{s['id']}"
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed')
    w = tmp + '/repo'
    try:
        run(f'cp -a /repo {w}', '/')
        open(out + '/demo.sh', 'w').write(DEMO.replace('@PKG@', s['pkg']).replace('@FLAGS@', s['flags']))
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo_test.go.txt', 'w').write(s['test'].lstrip())
        r = run(f'bash {out}/demo.sh', w)
        if r.returncode:
            print(s['id'], 'demo fails on the unchanged tree\n', r.stdout[-1500:]); return 1
        for fn, a, b in s['edits']:
            t = open(f'{w}/{fn}').read()
            if t.count(a) != 1:
                print(s['id'], fn, 'pattern occurs', t.count(a), 'times'); return 1
            open(f'{w}/{fn}', 'w').write(t.replace(a, b))
        d = run('git diff', w).stdout
        open(out + '/patch.diff', 'w').write(d)
        r = run(f'bash {out}/demo.sh', w)
        if r.returncode == 0 or 'build failed' in r.stdout:
            print(s['id'], 'demo does not fail with the patch\n', r.stdout[-1500:]); return 1
        demo = r.stdout
        run(f'mkdir -p {tmp}/gp/src/github.com/mit-dci && ln -s {w} {tmp}/gp/src/github.com/mit-dci/zksigma', '/')
        run(f'export GO111MODULE=off GOPATH={tmp}/gp GOPROXY=off GOFLAGS= GOWORK=off GOTOOLCHAIN=local; cd {tmp}/gp/src/github.com/mit-dci/zksigma && go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -v examples$) > {tmp}/t.json', '/')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        ok = set()
        for l in open(tmp + '/t.json'):
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and e.get('Test'):
                ok.add(e['Test']); ok.add(e['Package'] + '.' + e['Test']); ok.add(e['Package'] + '::' + e['Test']); ok.add(e['Package'] + '/' + e['Test'])
        miss = base - ok
        if miss:
            print(s['id'], 'tests fail:', sorted(miss)[:5]); return 1
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ok')
        return 0
    finally:
        shutil.rmtree(tmp)
sys.exit(max(main(f) for f in sys.argv[1:]))
