#!/usr/bin/env python3
"""Development aid: makes and confirms planted bugs in a scratch copy of /repo and keeps them in /verif/seeded.
A spec file calls plant(id, prop, edits, needs, breaks, demo); edits = [(file, old, new)]; demo = the body of a shell
script with $PT (prototool built from the working tree) and $T (scratch directory) set, in $T/w.
usage: plant.py SPEC.py [ID...]"""
import json, os, shutil, subprocess, sys
VER = '/verif'; S = '/tmp/plant/repo'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
HEAD = '''#!/bin/bash
# Exit 0: the property holds.  Run in the root of the repository.
set -u
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/prototool" ./cmd/prototool || exit 2
PT="$T/prototool"
export PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include
export HOME="$T/home" TMPDIR="$T/tmp"; mkdir -p "$HOME" "$TMPDIR" "$T/w"
cd "$T/w" || exit 2
fail() { echo "FAIL: $*"; exit 1; }
'''
def sh(cmd, cwd=None, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def stable(ref='/repo'):
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b.get('stable_pass') or b.get('stable') or b.get('passed') or b.get('tests')
def tests():
    t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + S).replace('/opt/vp/logs', '/tmp/plant/logs')
    open('/tmp/plant/test.sh', 'w').write(t)
    r = sh('bash /tmp/plant/test.sh /tmp/plant/o.json')
    o = json.load(open('/tmp/plant/o.json')); ps = o.get('passed') or o.get('pass')
    return [x for x in stable() if x not in ps]
def plant(id, prop, edits, needs, breaks, demo, files={}):
    if ids and id not in ids: return
    if not ids and os.path.exists(f'{VER}/seeded/{id}/patch.diff'): return
    sh(f'rsync -a --delete /repo/ {S}/ 2>/dev/null || (rm -rf {S}; cp -a /repo {S})')
    sh('git checkout -q -- . && git clean -fdq', cwd=S)
    d = f'/tmp/plant/out/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for n, t in files.items(): open(f'{d}/{n}', 'w').write(t)
    open(f'{d}/demo.sh', 'w').write(HEAD + demo.strip('\n') + '\nexit 0\n'); os.chmod(f'{d}/demo.sh', 0o755)
    r = sh(f'timeout 300 bash {d}/demo.sh', cwd=S)
    if r.returncode != 0: print(id, 'DEMO FAILS UNCHANGED', r.returncode, r.stdout[-1500:]); return
    for f, old, new in edits:
        s = open(f'{S}/{f}').read()
        if s.count(old) != 1: print(id, 'EDIT MATCHES', s.count(old), f, old[:60]); return
        open(f'{S}/{f}', 'w').write(s.replace(old, new))
    r = sh('go build ./... && go vet ./internal/... >/dev/null 2>&1; go build ./...', cwd=S)
    if r.returncode != 0: print(id, 'BUILD', r.stdout[-1500:]); return
    m = tests()
    if m: print(id, 'TESTS FAIL', m[:6]); return
    r = sh(f'timeout 300 bash {d}/demo.sh', cwd=S)
    if r.returncode == 0: print(id, 'DEMO PASSES WITH BUG', r.stdout[-800:]); return
    p = sh('git diff', cwd=S).stdout
    open(f'{d}/patch.diff', 'w').write(p)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    shutil.rmtree(f'{VER}/seeded/{id}', ignore_errors=True); shutil.copytree(d, f'{VER}/seeded/{id}')
    print(id, 'KEPT', r.stdout.strip()[-200:])
ids = sys.argv[2:]
exec(open(sys.argv[1]).read())
