#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_text.md, known-findings.txt and seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(root, 'tools/design_text.md')).read()
n = len(open(os.path.join(root, 'properties.jsonl')).read().splitlines())
rows = ['| change | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m.get('caught_by', m['property']), m['needs'], m['what_it_breaks']))
fixes = ['* %s %s: %s' % g for g in re.findall(r'fixed: property=(\S+) (\S+) (.*)', open(os.path.join(root, 'known-findings.txt')).read())]
t = t.replace('@N@', str(n)).replace('@SEEDED@', '\n'.join(rows)).replace('@FIXES@', '\n'.join(fixes))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
