#!/usr/bin/env python3
"""Development aid: turns the reports of a run on the unchanged tree, each looked at by hand, into lines of
KNOWN_FINDINGS.jsonl.  usage: addknown.py PROP GROUP 'general reason' (never used by a check)"""
import json, os, re, sys
prop, group, why = sys.argv[1:4]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = os.path.join(root, 'KNOWN_FINDINGS.jsonl')
have = {(d['property'], d['case']) for d in map(json.loads, open(kf)) if d['kind'] == 'known'}
rep = os.path.join(root, 'evidence', 'replay', prop)
out = open(kf, 'a')
for d in sorted(os.listdir(rep)):
    t = open(os.path.join(rep, d, 'report.txt')).read()
    case = re.search(r'^case: (.*)$', t, re.M).group(1)
    if not case.startswith(group + '/') or (prop, case) in have: continue
    v = t.split('\nviolation:\n', 1)[1].split('\nlog:\n')[0]
    m = re.search(r'<input>:\d+:\d+(?:: | = )(.*)', v)
    if 'hung=true' in v: match, what = 'hung=true', 'the command does not end'
    elif m: match = m.group(1)[:80]; what = 'format fails: ' + match
    elif "means something else" in v: match = what = "means something else after formatting"
    else:
        match = ' '.join(v.split('\n')[0].split(': $ ')[0].split('\n')[0].split())[:90]
        what = match
        match = re.sub(r'^f/\S+:? ', '', match)
    print(case, '|', match)
    out.write(json.dumps({"kind": "known", "property": prop, "case": case, "match": match, "what": f"{why}: {what}"}) + "\n")
