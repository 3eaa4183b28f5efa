#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/matrix.txt (output of matrix.sh) and known_findings.txt."""
import os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + '/tools/design_head.md').read()
rows = ['| planted bug | property | own check | caught by |', '|---|---|---|---|']
for l in sorted(open(R + '/tools/matrix.txt')):
    b, p, r, _, *o = l.split()
    rows.append('| %s | %s | %s | %s |' % (b, p, r, ' '.join(o)))
fx, fd = {}, []
for l in open(R + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fx.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
    m = re.match(r'finding: property=(\S+) (.*) case=', l)
    if m: fd.append('* %s: %s' % m.groups())
fixes = ['* `%s` %s' % (c, '; '.join('%s: %s' % x for x in v)) for c, v in fx.items()]
s = s.replace('@MATRIX@', '\n'.join(rows)).replace('@FIXES@', '\n'.join(fixes)).replace('@FINDINGS@', '\n'.join(fd))
assert '@' + 'MUT' not in s and '@STRENGTHENED@' not in s
open(R + '/DESIGN.md', 'w').write(s)
