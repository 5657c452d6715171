#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(H + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs'], m.get('history', 'caught')))
t = '| check | bug | what it breaks | needs | result |\n|---|---|---|---|---|\n'
t += ''.join('| %s | `%s` | %s | %s | %s |\n' % r for r in sorted(rows))
s = open(H + '/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(H + '/DESIGN.md', 'w').write(s)
