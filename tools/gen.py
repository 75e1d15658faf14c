#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props/*.txt."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
recs = []
for f in sorted(glob.glob(root + '/tools/props/*.txt')):
    cur = None
    for ln in open(f):
        ln = ln.rstrip('\n')
        if not ln.strip() or ln.startswith('#'):
            continue
        m = re.match(r'^(\w+):\s?(.*)$', ln)
        if m and not ln.startswith(' '):
            k, v = m.groups()
            if k == 'id':
                cur = {'id': v, 'mech': []}
                recs.append(cur)
            elif k == 'mech':
                cur['mech'].append(v)
            else:
                cur[k] = v
            last = k
        else:
            if last == 'mech':
                cur['mech'][-1] += ' ' + ln.strip()
            else:
                cur[last] += ' ' + ln.strip()
recs.sort(key=lambda r: r['id'])
ids = [r['id'] for r in recs]
assert len(ids) == len(set(ids)), ids
with open(root + '/properties.jsonl', 'w') as o:
    for r in recs:
        assert len(r['title']) <= 80, (r['id'], len(r['title']))
        mech = []
        for m in r['mech']:
            n, w = m.split('@', 1)
            mech.append({'name': n.strip(), 'where': w.strip()})
        o.write(json.dumps({
            'id': r['id'], 'title': r['title'], 'statement': r['statement'],
            'quantifier': {'over': r['over'].split(), 'text': r['quant']},
            'why_tests_cant': r['why'],
            'anchors': {'files': r['files'].split(), 'mechanism': mech},
        }) + '\n')
checks, na = [], []
for r in recs:
    if 'na' in r:
        na.append({'property': r['id'], 'reason': r['na']})
        continue
    checks.append({
        'property': r['id'], 'quick_cmd': './run.sh %s quick' % r['id'], 'thorough_cmd': './run.sh %s thorough' % r['id'],
        'technique': r['technique'], 'level': 'other', 'level_note': r['note'],
    })
json.dump({'version': 1, 'setup_cmd': './analyzer/build.sh', 'checks': checks, 'not_applicable': na},
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
sys_path = os.path.join(root, 'tools')
import sys
sys.path.insert(0, sys_path)
import design
design.write(recs)
