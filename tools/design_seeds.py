#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from /verif/seeded (documentation only; no check reads that folder)."""
import glob, json, os, re
p = '/verif/DESIGN.md'
s = open(p).read()
rows = []
for d in glob.glob('/verif/seeded/*/meta.json'):
    m = json.load(open(d))
    one = lambda k: ' '.join(m[k].split())
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), one('what_it_breaks'), one('needs')))
rows.sort()
t = '| caught by | planted bug | what it breaks | what it needs |\n|---|---|---|---|\n'
t += ''.join('| %s | `%s` | %s | %s |\n' % r for r in rows)
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda m: m[1] + t + m[2], s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
