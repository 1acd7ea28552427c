#!/usr/bin/env python3
"""seed.py SPECDIR: SPECDIR holds edits.py (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], optional FLAGS, PLUGIN, LEAKS, LIBS) and demo.c.
Applies the edits to /repo, checks that it builds, passes the stable tests, that the demo passes on the unchanged tree and fails on the
changed one, runs the property's check on it, undoes the edits, and writes /verif/seeded/ID."""
import sys, os, subprocess, json, shutil
spec = os.path.abspath(sys.argv[1])
g = {}
exec(open(spec + '/edits.py').read(), g)
ID = g['ID']; out = '/verif/seeded/' + ID
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
tmp = '/tmp/seed.' + ID
shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
t = open('/verif/tools/demo/demo.sh').read()
t = t.replace('@FLAGS@', g.get('FLAGS', '')).replace('@LEAKS@', str(g.get('LEAKS', 0))).replace('@LIBS@', g.get('LIBS', ''))
t = t.replace('@PLUGIN@', '"$repo"/lib/plugins/%s/*.c' % g.get('PLUGIN', 'unthreaded-signing'))
open(tmp + '/demo.sh', 'w').write(t); os.chmod(tmp + '/demo.sh', 0o755)
d = open(spec + '/demo.c').read().replace('#include "common.h"\n', open('/verif/tools/demo/common.h').read())
open(tmp + '/demo.c', 'w').write(d)
shutil.copy('/verif/tools/demo/check.h', tmp + '/check.h')
def demo(): 
    r = sh('bash %s/demo.sh' % tmp, cwd='/repo'); return r.returncode, r.stdout.decode()[-600:]
rc, o = demo()
print('demo on unchanged tree:', rc)
if rc: print(o); sys.exit(1)
try:
    for f, old, new in g['EDITS']:
        s = open('/repo/' + f).read(); n = s.count(old)
        assert n == 1, '%s: %d matches of %r' % (f, n, old)
        open('/repo/' + f, 'w').write(s.replace(old, new))
    open(tmp + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: print(b.stdout.decode()[-2000:]); raise SystemExit('does not build')
    sh('bash /opt/vp/test.sh /tmp/seed.out.json')
    base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/seed.out.json'))
    def passed(j):
        if 'passed' in j: return set(j['passed'])
        if 'pass' in j: return set(j['pass'])
        return set(k for k, v in j.get('tests', j).items() if v in ('pass', 'PASS', True))
    bl = set(base.get('stable') or passed(base))
    lost = bl - passed(got)
    print('stable tests lost: %d of %d' % (len(lost), len(bl)), sorted(lost)[:8])
    rc, o = demo()
    print('demo on changed tree:', rc, o[-300:])
    if os.environ.get('NOCHECK') is None:
        for p in [g['PROPERTY']] + os.environ.get('ALSO', '').split():
            r = sh('/verif/check.sh %s' % p); print('check %s -> %d' % (p, r.returncode)); print('\n'.join(l[:240] for l in r.stdout.decode().splitlines() if not l.startswith('  '))[:1500])
finally:
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
if lost or rc == 0: print('NOT KEPT'); sys.exit(1)
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
for f in ('patch.diff', 'demo.sh', 'demo.c', 'check.h'): shutil.copy(tmp + '/' + f, out + '/' + f)
json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
shutil.rmtree(tmp)
print('kept', out)
