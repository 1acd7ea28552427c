#!/usr/bin/env python3
"""mut.py [-t] PROPS FILE OLD NEW [FILE OLD NEW ...]: apply textual edits to a scratch copy of /repo, compile it (with -t also run
the stable tests), and run the named checks on the copy.  Development aid; no check uses it."""
import sys, os, shutil, subprocess, tempfile, json
a = sys.argv[1:]
test = a[0] == '-t'
if test: a = a[1:]
props = a[0].split(','); a = a[1:]
d = tempfile.mkdtemp(prefix='svmut.')
try:
    shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('_build', '.git'))
    for k in range(0, len(a), 3):
        p = d + '/r/' + a[k]
        s = open(p).read()
        old, new = a[k + 1].encode().decode('unicode_escape'), a[k + 2].encode().decode('unicode_escape')
        n = s.count(old)
        if n != 1: print('edit %d matches %d times' % (k // 3, n)); sys.exit(3)
        open(p, 'w').write(s.replace(old, new))
    env = dict(os.environ, SV_REPO=d + '/r', SV_EVIDENCE=d + '/ev')
    for p in props:
        r = subprocess.run(['/verif/check.sh', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode()
        ls = [l for l in o.splitlines() if not l.startswith('  ') or r.returncode not in (0, 1)]
        print('%s -> %d' % (p, r.returncode)); print('\n'.join(l[:300] for l in (ls[1:12] if r.returncode < 2 else ls[-14:])))
finally: shutil.rmtree(d)
