#!/usr/bin/env python3
"""Development aid: runs the checks of the planted bugs in /verif/seeded on a patched copy of /repo.
usage: hunt.py [PREFIX...]"""
import json, os, re, subprocess, sys
S = '/tmp/plant/hunt'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', VRUN_REPO=S, VRUN_VERIF='/tmp/plant/vout', VERIF_SEED='1', VERIF_TIER='quick', VRUN_MAX='3')
def sh(c, **k): return subprocess.run(c, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
sh('/verif/build.sh'); sh('mkdir -p /tmp/plant/vout/evidence; cp /verif/KNOWN_FINDINGS.jsonl /tmp/plant/vout/; ln -sfn /verif/.build /tmp/plant/vout/.build; ln -sfn /verif/harness /tmp/plant/vout/harness')
have = json.load(open('/verif/MANIFEST.json')); claimed = {c['property'] for c in have['checks']} | set(os.environ.get('ALSO', '').split())
pre = sys.argv[1:]
CJ = '/verif/tools/caught.json'
caught = json.load(open(CJ)) if os.path.exists(CJ) else {}
for i in sorted(os.listdir('/verif/seeded')):
    d = '/verif/seeded/' + i
    if not os.path.exists(d + '/meta.json') or (pre and not any(i.startswith(p) for p in pre)): continue
    p = json.load(open(d + '/meta.json'))['property']
    if p not in claimed: print(i, p, 'NO CHECK'); continue
    sh(f'mkdir -p {S}; rsync -a --delete /repo/ {S}/')
    r = sh(f'git checkout -q -- . && git apply {d}/patch.diff', cwd=S)
    if r.returncode: print(i, 'DOES NOT APPLY', r.stdout[:300]); continue
    r = sh(f'cd /verif && timeout -s KILL 900 .build/vrun {p}')
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    caught[i] = [p] if r.returncode == 1 and v else []
    json.dump({k: caught[k] for k in sorted(caught) if os.path.exists('/verif/seeded/' + k)}, open(CJ, 'w'), indent=1); open(CJ, 'a').write('\n')
    t = re.search(r'([\d.]+)s;', r.stdout)
    print(i, p, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode} ' + r.stdout[-300:], len(v), t and t.group(1), flush=True)
