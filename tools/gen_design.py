#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the descriptions of the checks."""
import json, os, sys, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, os.path.join(H, 'tools'))
from describe import T
caught = json.load(open(os.path.join(H, 'tools/caught.json')))
out = open(os.path.join(H, 'tools/design_head.md')).read()
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if i not in T: continue
    t = T[i]; by = [s for s, c in sorted(caught.items()) if i in c]
    out += '\n**%s %s.**\n' % (i, p['title'])
    out += '*Method:* %s.  *Enumerated (quick):* %s.  *Thorough adds:* %s.  *Oracle:* %s.  *Why beyond tests:* %s.%s\n' % (t['technique'], t['quick'], t['thorough'], t['oracle'], t['reach'], '  *Caught:* ' + ', '.join(by) + '.' if by else '')
out += open(os.path.join(H, 'tools/design_tail.md')).read()
out += '\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    s = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out += '| %s | %s | %s | %s |\n' % (s, d['property'], d['what_it_breaks'].replace('|', '/').replace('\n', ' '), ', '.join(caught.get(s, [])) or 'none yet')
open(os.path.join(H, 'DESIGN.md'), 'w').write(out)
