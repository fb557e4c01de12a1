#!/usr/bin/env python3
# Rewrites the tables at the end of DESIGN.md from seeded/ and KNOWN_FINDINGS.jsonl.
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
s = s[:s.index('<!-- tables -->')] + '<!-- tables -->\n\n'
def cell(x): return x.replace('|', '\\|').replace('\n', ' ')
caught = {}
if os.path.exists(V + '/tools/caught.json'): caught = json.load(open(V + '/tools/caught.json'))
s += '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    s += '| %s | %s | %s | %s |\n' % (n, m['property'], cell(m['needs']), ' '.join(caught.get(n, [])) or 'not caught')
L = [json.loads(l) for l in open(V + '/KNOWN_FINDINGS.jsonl')]
s += '\nRepaired defects:\n\n'
for d in L:
    if d['kind'] == 'fixed': s += '* ' + d['what'][len('fixed: '):] + '\n'
s += '\nRecorded findings:\n\n'
for d in L:
    if d['kind'] == 'known': s += '* %s %s: %s\n' % (d['property'], d['case'], d['what'])
open(p, 'w').write(s)
