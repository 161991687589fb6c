#!/usr/bin/env python3
"""Writes /tmp/reports_gen.go (to be merged by hand in harness/props/reports.go): the lines of the report of every message and structured field, and the
decoded values they show. It was run once and its output reviewed against the standards; it is kept to extend the table.
No check runs it."""
import os, re, json
R = '/repo/pkg'
out = {}
for d, ds, fs in sorted(os.walk(R)):
    for f in sorted(fs):
        if not f.endswith('.go') or f.endswith('_test.go'):
            continue
        s = open(os.path.join(d, f)).read()
        for m in re.finditer(r'^func \((?:\w+ )?\*?(\w+)\) ToString\(\) string \{\n(.*?)^\}', s, re.M | re.S):
            name = os.path.relpath(d, R) + '.' + m.group(1)
            if re.search(r'^type %s (?:byte|u?int)' % m.group(1), s, re.M):
                continue
            b = re.search(r'return fmt\.Sprintf\((.*)\)\s*$', m.group(2).strip(), re.S)
            if not b or 'switch' in m.group(2) or '%02X' in b.group(1) or 'threatIdentity' in m.group(2) or m.group(1) == 'MessageACAS':
                continue
            body = b.group(1)
            mm = re.match(r'((?:\s*"(?:[^"\\]|\\.)*"\s*\+?)+)(.*)$', body, re.S)
            tmpl = ''.join(json.loads(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', mm.group(1)))
            args = [a.strip() for a in re.split(r',\n|, (?=\w+\.)', mm.group(2).lstrip(',').strip()) if a.strip()]
            paths = []
            for a in args:
                p = re.match(r'(?:common\.PrefixMultiLine\()?\w+\.([\w.()]*?)(?:\.ToString\(\))?(?:, "    "\))?$', a)
                assert p, (name, a)
                paths.append(p.group(1))
            lines = []
            for l in tmpl.rstrip('\n').split('\n'):
                n = l.replace('%%', '').count('%v')
                lines.append((re.sub(r' +', ' ', l.replace('%%', '%').replace('%v', '\0')).strip(), paths[:n]))
                paths = paths[n:]
            assert not paths, (name, paths)
            out[name] = lines
g = ['package props', '', '// A reportLine is a line of a report: its text, where each \\x00 stands for a decoded value.', 'type reportLine struct {', '\ttext  string', '\tpaths []string', '}', '', 'var reports = map[string][]reportLine{']
for k in sorted(out):
    g.append('\t%s: {' % json.dumps(k))
    for t, p in out[k]:
        g.append('\t\t{%s, %s},' % (json.dumps(t).replace('\\u0000', '\\x00'), ('[]string{%s}' % ', '.join(map(json.dumps, p))) if p else 'nil'))
    g.append('\t},')
g += ['}', '']
open('/tmp/reports_gen.go', 'w').write('\n'.join(g))
print(len(out))
