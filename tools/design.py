#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, tools/props, seeded/ and known_findings.txt."""
import json, glob, os, importlib.util, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def write(recs):
    o = [open(root + '/tools/design/1-method.md').read()]
    o.append('# Properties claimed\n')
    for r in recs:
        if 'na' in r: continue
        o.append('## %s %s\n' % (r['id'], r['title']))
        o.append('*Decided by:* %s. Rules: `analyzer/rules/%s.rules`%s.\n' % (r['technique'], r['id'], (' and ' + r['engine']) if 'engine' in r else ''))
        o.append('*Anchors:* ' + '; '.join(m for m in r['mech']) + '.\n')
        o.append('*Beyond tests:* ' + r['why'] + '. Quantified over: ' + r['quant'] + '.\n')
        o.append('*Limits:* ' + r['note'] + '\n')
    o.append('# Properties this family cannot decide here (`not_applicable`)\n')
    for r in recs:
        if 'na' in r: o.append('* **%s %s** — %s' % (r['id'], r['title'], r['na']))
    o.append('\n# Genuine defects found\n\nRepaired by a `fix:` commit in /repo (the check reports it again if it returns):\n')
    kn = []
    for l in open(root + '/known_findings.txt'):
        l = l.rstrip('\n')
        if l.startswith('fixed: '):
            p, c, w = l[7:].split(' ', 2)
            o.append('* %s, %s: %s' % (p.split('=')[1], c, w))
        elif l.startswith('KNOWN '):
            kn.append(l[6:])
    o.append('\nRecorded, not repaired (printed as KNOWN-FINDING):\n')
    for k in kn:
        p, rest = k.split(' ', 1)
        key, d = rest.split(' || ', 1)
        o.append('* %s, `%s`: %s' % (p.split('=')[1], key.split(' | ')[0], d))
    f = root + '/tools/design/2-defects.md'
    if os.path.exists(f): o.append('\n' + open(f).read())
    o.append('\n# Planted bugs and the checks that catch them\n\n| seed | property | needs | caught by |\n|---|---|---|---|')
    caught = json.load(open(root + '/tools/design/caught.json'))
    for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
        n = d.split('/')[-2]; m = json.load(open(d))
        o.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], caught.get(n, '?')))
    o.append('')
    o.append(open(root + '/tools/design/3-harness.md').read())
    open(root + '/DESIGN.md', 'w').write('\n'.join(o))
