#!/usr/bin/env python3
"""Helper for the planted bugs (no check uses it).
  seed.py verify ID...  the patch applies to a copy of /repo, builds, passes the stable tests, and the demo tells
  seed.py try ID...     applies the patch to /repo, runs the quick check of its property, and undoes it
  seed.py try ID --with C02   the same with another property's check"""
import json, os, subprocess, sys, tempfile, shutil
S = '/verif/seeded'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests(d):
    p = subprocess.run(['go', 'test', '-json', '-vet=off', './...'], cwd=d, env=ENV, capture_output=True, text=True)
    ok = set()
    for l in p.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add(e['Package'] + '/' + e['Test'])
    return stable - ok


def verify(i):
    tmp = tempfile.mkdtemp(prefix='seed')
    d = tmp + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        demo = ['bash', '%s/%s/demo.sh' % (S, i)]
        a = subprocess.run(demo, cwd=d, env=ENV, capture_output=True, text=True)
        p = subprocess.run(['git', 'apply', '%s/%s/patch.diff' % (S, i)], cwd=d, capture_output=True, text=True)
        if p.returncode:
            return 'DOES NOT APPLY ' + p.stderr
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return 'DOES NOT BUILD ' + b.stderr
        f = tests(d)
        c = subprocess.run(demo, cwd=d, env=ENV, capture_output=True, text=True)
        bad = []
        if a.returncode:
            bad.append('demo fails on the unchanged tree: ' + a.stdout + a.stderr)
        if f:
            bad.append('tests fail: %s' % sorted(f))
        if c.returncode == 0:
            bad.append('demo passes with the patch: ' + c.stdout + c.stderr)
        elif 'DEMO' not in c.stdout + c.stderr and 'panic' not in c.stderr and 'RACE' not in c.stderr:
            bad.append('demo fails otherwise: ' + c.stdout + c.stderr)
        return '; '.join(bad) or 'ok   (%s)' % (c.stdout + c.stderr).strip().split('\n')[0][:150]
    finally:
        shutil.rmtree(tmp)


def attempt(i, prop):
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--short'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'apply', '%s/%s/patch.diff' % (S, i)], check=True)
    try:
        c = subprocess.run(['/verif/check', prop, 'quick'], capture_output=True, text=True, cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
    return 'caught %d' % len(v) if c.returncode == 1 and v else 'MISSED (exit %d) %s' % (c.returncode, (c.stdout + c.stderr)[-400:])


cmd, ids = sys.argv[1], sys.argv[2:]
other = None
if '--with' in ids:
    k = ids.index('--with')
    other = ids[k + 1]
    ids = ids[:k]
for i in ids or sorted(os.listdir(S)):
    if cmd == 'verify':
        print(i, verify(i), flush=True)
    else:
        p = other or json.load(open('%s/%s/meta.json' % (S, i)))['property']
        print(i, p, attempt(i, p), flush=True)
