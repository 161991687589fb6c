#!/usr/bin/env python3
"""Rewrites the table of the planted bugs in DESIGN.md."""
import json, os, re
S = '/verif/seeded'
D = '/verif/DESIGN.md'
rows = ''
for i in sorted(os.listdir(S)):
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    rows += '| %s | %s | %s |\n' % (i, m['property'], m['needs'])
s = open(D).read()
head = '| bug | property | needs |\n|-----|----------|-------|\n'
i = s.index(head) + len(head)
j = s.index('\n\n', i) + 1
open(D, 'w').write(s[:i] + rows + s[j:])
