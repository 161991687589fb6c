#!/usr/bin/env python3
"""Runs the checks against mutants (a development tool: no check uses it).
   run.py mutants.jsonl results.jsonl WORKERS COUNT SEED [--filter REGEX of file:func:kind]
Every worker has its own copy of /repo and its own build cache under /tmp/w/mut."""
import json, os, random, re, shutil, subprocess, sys, threading, time
mut, res, workers, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
flt = re.compile(sys.argv[7]) if len(sys.argv) > 7 else None
base = '/tmp/w/mut'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOMAXPROCS='2', VERIF_TIER='quick', VERIF_SEED='1', GOSUMDB='off', GOWORK='off')
ALL = ['C%02d' % i for i in range(1, 32) if i != 30]  # C30 needs builds of its own
# MUTATE_FLAGS: the flags of the build, for instance those of the guided checks
# MUTATE_ALL: the checks to run
ALL = os.environ.get('MUTATE_ALL', ' '.join(ALL)).split()
FLAGS = os.environ.get('MUTATE_FLAGS', '-tags c25').split()
FIRST = [(r'pkg/geo/ground', 'C24'), (r'pkg/geo/cpr_airborne_g', 'C21'), (r'pkg/geo/cpr_surface_g', 'C23'), (r'pkg/geo/.*local', 'C22'), (r'pkg/geo', 'C21 C22 C23'),
         (r'pkg/commb', 'C18'), (r'pkg/acas', 'C20'), (r'pkg/modes/reader', 'C03 C07 C08'), (r'pkg/modes/messages', 'C03 C04'), (r'altitude', 'C05 C04 C10'), (r'gillham', 'C05'), (r'identity', 'C06'),
         (r'pkg/modes/fields', 'C04 C07'), (r'pkg/adsb/reader', 'C09'), (r'pkg/adsb/airborne_position', 'C12 C09 C10'), (r'pkg/adsb/surface', 'C12 C09 C11'),
         (r'bds05', 'C10 C05 C12'), (r'bds06', 'C11 C12'), (r'bds08|bds20|encoding', 'C14 C17'), (r'bds09', 'C13'), (r'bds61|bds62', 'C15 C20'), (r'bds65', 'C16'), (r'bds30', 'C20 C17'), (r'pkg/bds', 'C17 C19 C18'), (r'cmd', 'C26'), (r'pkg/adsb', 'C09')]


def order(m):
    o = []
    if 'ToString' in m['func'] or m['kind'] in ('string', 'printother'):
        o.append('C25')
    if 'CheckCoherency' in m['func']:
        o.append('C19')
    for r, p in FIRST:
        if re.search(r, m['file']):
            o += p.split()
    o += ['C25', 'C19', 'C17', 'C09', 'C01'] + ALL
    return [c for c in dict.fromkeys(o) if c in ALL]


def sh(cmd, cwd, env, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def tests(d, env):
    rc, out = sh(['go', 'test', '-json', '-vet=off', './...'], d, env, 300)
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add(e['Package'] + '/' + e['Test'])
    return stable <= ok


def one(w, m):
    d = '%s/w%d/repo' % (base, w)
    env = dict(ENV, GOCACHE='%s/w%d/cache' % (base, w))
    p = d + '/' + m['file']
    src = open('/repo/' + m['file'], 'rb').read()
    open(p, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
    try:
        h = '%s/w%d/harness' % (base, w)
        rc, out = sh(['go', 'build'] + FLAGS + ['-o', '%s/w%d/verif' % (base, w), './cmd/verif'], h, env, 300)
        if rc:
            rc, o = sh(['go', 'build', './...'], d, env, 120)
            return ('nobuild', '') if rc else ('noharness', out[:300])
        for c in order(m):
            e = dict(env)
            if c == 'C26':
                rc, out = sh(['go', 'build', '-o', '%s/w%d/modes' % (base, w), './cmd'], d, env, 120)
                e['VERIF_CMD'] = '%s/w%d/modes' % (base, w)
            rc, out = sh(['%s/w%d/verif' % (base, w), c, '-shards', '1', '-root', '%s/w%d/root' % (base, w)], h, e, 900)
            if rc == 1 and 'VIOLATION' in out:
                return 'killed', c
            if rc:
                return 'error', c + ' ' + str(rc) + ' ' + out[-300:]
        return ('SURVIVED', '') if tests(d, env) else ('tests', '')
    finally:
        open(p, 'wb').write(src)


def setup(w):
    shutil.rmtree('%s/w%d' % (base, w), ignore_errors=True)
    os.makedirs('%s/w%d/root' % (base, w))
    subprocess.run(['git', 'clone', '-q', '/repo', '%s/w%d/repo' % (base, w)], check=True)
    shutil.copytree('/verif/harness', '%s/w%d/harness' % (base, w))
    shutil.copy('/verif/known_findings.txt', '%s/w%d/root' % (base, w))
    g = '%s/w%d/harness/go.mod' % (base, w)
    s = open(g).read()
    open(g, 'w').write(s.replace('=> /repo', '=> %s/w%d/repo' % (base, w)))


ms = [json.loads(l) for l in open(mut)]
if flt:
    ms = [m for m in ms if flt.search('%s:%s:%s' % (m['file'], m['func'], m['kind']))]
random.Random(seed).shuffle(ms)
key = lambda m: (m['file'], m['off'], m['end'], m['new'])
done = set()
if os.path.exists(res):
    done = {tuple(json.loads(l)['key']) for l in open(res)}
ms = [m for m in ms if key(m) not in done][:count]
lock = threading.Lock()
it = iter(ms)


def work(w):
    setup(w)
    n = 0
    while True:
        with lock:
            m = next(it, None)
        if m is None or os.path.exists(base + '/STOP'):
            return
        n += 1
        if n % 60 == 0:
            shutil.rmtree('%s/w%d/cache' % (base, w), ignore_errors=True)
        try:
            r, x = one(w, m)
        except Exception as e:
            r, x = 'exception', repr(e)
        with lock:
            open(res, 'a').write(json.dumps(dict(m, key=key(m), result=r, by=x)) + '\n')


ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
