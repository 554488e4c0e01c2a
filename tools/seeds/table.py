#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); t.setdefault(m['property'], []).append('`%s`: %s' % (f.split('/')[-2], m['needs']))
s = open(V + '/DESIGN.md').read()
i = s.index('| property | bug: what it needs |')
s = s[:i] + '| property | bug: what it needs |\n|----------|--------------------|\n' + ''.join('| %s | %s |\n' % (k, '; '.join(t[k])) for k in sorted(t))
open(V + '/DESIGN.md', 'w').write(s)
print(sum(map(len, t.values())), len(t))
