#!/usr/bin/env python3
"""seedadd.py ID PROP FILE 'old' 'new' DEMO.c 'needs' 'what'  - plant, confirm (build, stable tests, demo), record, report check result"""
import sys, subprocess, os, json, shutil
ID, PROP, FILE, OLD, NEW, DEMO, NEEDS, WHAT = sys.argv[1:9]
R = '/repo'; D = '/verif/seeded/' + ID
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh('git -C /repo status --short').stdout.strip() == '', 'repo dirty'
p = os.path.join(R, FILE); s = open(p).read(); assert s.count(OLD) == 1, 'old text occurs %d times' % s.count(OLD)
os.makedirs(D, exist_ok=True)
if os.path.abspath(DEMO) != D + '/demo.c': shutil.copy(DEMO, D + '/demo.c')
open(D + '/demo.sh', 'w').write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -D_GNU_SOURCE -w -g -fsanitize=address -Iinclude -I. "$d/demo.c" %s -o "$t/demo" || exit 99
cd "$t" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 60 ./demo
''' % 'lib/libulz.a')
META = {'property': PROP, 'needs': NEEDS, 'what_it_breaks': WHAT}
json.dump(META, open(D + '/meta.json', 'w'), indent=1)
def build(): return sh('bash /opt/vp/build.sh').returncode
try:
    build(); r0 = sh('bash %s/demo.sh' % D, cwd=R)
    open(p, 'w').write(s.replace(OLD, NEW))
    open(D + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    b = build(); r1 = sh('bash %s/demo.sh' % D, cwd=R)
    sh('bash /opt/vp/test.sh /tmp/t.json'); t = json.load(open('/tmp/t.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    def ok(n):
        if n in t.get('passed', []): return True
        x = t.get('tests', t).get(n) if isinstance(t.get('tests', t), dict) else None
        return x in ('pass', 'passed', True)
    bad = [n for n in base if not ok(n)]
    c = sh('python3 engine/run.py %s' % PROP, cwd='/verif')
    v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
finally:
    sh('git -C /repo checkout -- .'); build()
META['caught'] = ('%s (%s)' % (PROP, 'no failing input' if 'no-failing' in v[0] else 'failing input replayed')) if v else 'nothing yet'
json.dump(META, open(D + '/meta.json', 'w'), indent=1)
good = r0.returncode == 0 and b == 0 and r1.returncode != 0 and r1.returncode != 99 and not bad
print(ID, 'COUNTS' if good else 'BAD', 'demo0', r0.returncode, 'demo1', r1.returncode, 'build', b, 'badtests', bad[:3], '| check', c.returncode, v[:2], c.stdout[-300:] if not v else '')
if r0.returncode: print(r0.stdout[-500:], r0.stderr[-800:])
