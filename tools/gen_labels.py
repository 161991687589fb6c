#!/usr/bin/env python3
"""Writes harness/props/labels_gen.go: the functions giving the text of a code, for every named integer type of
/repo/pkg with a ToString method. Run by hand when the types of the library change; no check runs it."""
import os, re, collections
R = '/repo/pkg'
types = collections.OrderedDict()
for d, ds, fs in sorted(os.walk(R)):
    src = ''
    for f in sorted(fs):
        if f.endswith('.go') and not f.endswith('_test.go'):
            src += open(os.path.join(d, f)).read() + '\n'
    named = dict(re.findall(r'^type (\w+) (byte|u?int(?:8|16|32|64)?|bool)$', src, re.M))
    for m in re.finditer(r'^func \((?:\w+ )?(\*?)(\w+)\) ToString\(\) string', src, re.M):
        if m.group(2) in named and named[m.group(2)] != 'bool':
            types[(os.path.relpath(d, R), m.group(2))] = named[m.group(2)]
pkgs = sorted({p for p, _ in types})
alias = {p: p.replace('/', '_') for p in pkgs}
out = ['// Code generated by tools/gen_labels.py. DO NOT EDIT.', '', '//go:build c25', '', 'package props', '', 'import (']
out += ['\t%s "github.com/twuillemin/modes/pkg/%s"' % (alias[p], p) for p in pkgs]
out += [')', '', '// A labelled is a type of codes having a text.', 'type labelled struct {', '\tname string', '\ttext func(code int) string', '}', '', 'var labelledTypes = []labelled{']
for (p, t) in sorted(types):
    out.append('\t{"%s.%s", func(c int) string { v := %s.%s(c); return v.ToString() }},' % (p, t, alias[p], t))
out += ['}', '']
open('/verif/harness/props/labels_gen.go', 'w').write('\n'.join(out))
print(len(types))
