#!/usr/bin/env python3
"""Plants bugs: builds /verif/seeded/<id>/ from the definitions in seeds_def.py.

For each seed, in a scratch copy of /repo: apply the edits, build, run the tests, run the demo
with and without the change. Only seeds for which everything holds are kept.
usage: seeds.py [id ...]      (re)build seeds
       seeds.py --run [id ...] apply each kept seed to /repo, run its property's quick check, undo
"""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_def import SEEDS
import seeds_def2, seeds_def3

ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
OUT = '/verif/seeded'
EXTRA = '/tmp/seeds_extra' # valid, but changing only lines that fix commits added: not kept
BASE = 'ec086be'
PKG = {'abi': 'github.com/greymass/go-eosio/pkg/abi', 'chain': 'github.com/greymass/go-eosio/pkg/chain',
       'base58': 'github.com/greymass/go-eosio/pkg/base58', 'ripemd160': 'github.com/greymass/go-eosio/pkg/ripemd160',
       'codegen': 'github.com/greymass/go-eosio/pkg/codegen', 'json': 'encoding/json', 'hex': 'encoding/hex',
       'big': 'math/big', 'rand': 'math/rand', 'iotest': 'testing/iotest', 'binary': 'encoding/binary', 'exec': 'os/exec', 'filepath': 'path/filepath'}
STD = ['bytes', 'errors', 'fmt', 'io', 'math', 'os', 'reflect', 'strings', 'sync', 'time', 'runtime', 'debug']
DEMO = '''#!/bin/bash
# exit 0 when the library behaves, 1 when the property is broken; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go" "$tmp/main.go" || exit 2
printf 'module demo\\n\\ngo 1.17\\n\\nrequire github.com/greymass/go-eosio v0.0.0\\n\\nreplace github.com/greymass/go-eosio => %s\\n' "$repo" > "$tmp/go.mod"
cd "$tmp" && go build RACE -o demo . || exit 2
LIMIT timeout 120 ./demo
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
'''

def demo_go(body):
    names = set(re.findall(r'\b([a-z0-9]+)\.[A-Z]', body))
    imps = []
    for n in sorted(names):
        if n in PKG: imps.append(PKG[n])
        elif n == 'debug': imps.append('runtime/debug')
        elif n in STD: imps.append(n)
    return ('package main\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in sorted(imps)) + ')\n\n' + body.strip() + '\n')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def tests_pass(d):
    got = set()
    for m in (d, d + '/benchmarks'):
        r = sh('go test -json -vet=off -count=1 -timeout 5m ./...', m)
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and e.get('Test'): got.add(e['Package'] + '/' + e['Test'])
    return stable() - got

def build(s):
    d = tempfile.mkdtemp(prefix='seed-')
    c = d + '/repo'
    try:
        subprocess.check_call(['cp', '-a', '/repo', c])
        for f, old, new in s['edits']:
            t = open(c + '/' + f).read()
            n = t.count(old)
            k = s.get('nth')
            if n != 1 and k is None: return 'edit of %s matches %d times: %r' % (f, n, old[:60])
            if k is not None:
                parts = t.split(old); t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else: t = t.replace(old, new)
            open(c + '/' + f, 'w').write(t)
        r = sh('gofmt -l pkg', c)
        if r.stdout.strip(): return 'gofmt: ' + r.stdout
        r = sh('go build ./... && go vet ./pkg/... && cd benchmarks && go build ./...', c)
        if r.returncode: return 'build: ' + r.stdout[-1500:]
        miss = tests_pass(c)
        if miss: return 'tests fail: %s' % sorted(miss)[:5]
        diff = sh('git diff', c).stdout
        # every removed line must be an original one
        orig = 0
        for f in set(e[0] for e in s['edits']):
            cur = None
            for l in sh('git diff -U0 ' + f, c).stdout.splitlines():
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, n = int(m[1]), int(m[2] or 1)
                    if n:
                        bl = sh('git blame -s -L %d,%d HEAD -- %s' % (a, a + n - 1, f), c).stdout
                        for b in bl.splitlines():
                            if b.startswith('^'): orig += 1
                            elif b.split(')', 1)[1].strip(): orig = -1000
        out = (OUT if orig > 0 else EXTRA) + '/' + s['id']
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/main.go', 'w').write(demo_go(s['demo']))
        open(out + '/demo.sh', 'w').write(DEMO.replace('RACE', '-race' if s.get('race') else '').replace('LIMIT', s.get('limit', '')))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        bad = sh('bash %s/demo.sh' % out, c)
        good = sh('bash %s/demo.sh' % out, '/repo')
        if good.returncode != 0 or bad.returncode == 0:
            shutil.rmtree(out)
            return 'demo: clean rc=%d patched rc=%d\nclean: %s\npatched: %s' % (good.returncode, bad.returncode, good.stdout[-800:], bad.stdout[-800:])
        return None if orig > 0 else 'EXTRA'
    finally:
        shutil.rmtree(d)

def where(s): return OUT if os.path.exists('%s/%s' % (OUT, s['id'])) else EXTRA

def run(s):
    p = '%s/%s/patch.diff' % (where(s), s['id'])
    if sh('git status --porcelain', '/repo').stdout.strip(): sys.exit('/repo not clean')
    r = sh('git apply ' + p, '/repo')
    if r.returncode: return 'no apply: ' + r.stdout
    try:
        import time; t = time.time()
        r = sh('bash /verif/check.sh %s quick' % s['property'], '/verif')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = r.returncode == 1 and any('property=' + s['property'] in l for l in v)
        return ('CAUGHT' if ok else 'MISSED rc=%d' % r.returncode) + ' %.0fs' % (time.time() - t) + ('' if ok else '\n' + r.stdout[-1500:])
    finally:
        sh('git checkout -- .', '/repo')

args = sys.argv[1:]
mode = build
if args and args[0] == '--run': mode = run; args = args[1:]
todo = [s for s in SEEDS if not args or s['id'] in args or s['property'] in args]
if mode is build:
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(todo, ex.map(build, todo)):
            print(s['id'], 'ok' if r is None else r if r == 'EXTRA' else 'REJECTED ' + r, flush=True)
else:
    for s in todo:
        if not os.path.exists('%s/%s' % (where(s), s['id'])): print(s['id'], 'not built'); continue
        print(s['id'], run(s), flush=True)
