#!/usr/bin/env python3
"""Applies a set of behaviour-preserving rewrites (tools/refac/*.py) to /repo, runs the checks, undoes it (development tool).

  refac.py apply NAME | undo | run NAME [ID..]
"""
import subprocess, sys, os, json
R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def undo(): subprocess.check_call(['git', '-C', R, 'checkout', '--', '.'])
def apply(n):
    ns = {}
    exec(open(V + '/tools/refac/%s.py' % n).read(), ns)
    for f, old, new, nth in ns['E']:
        s = open(R + '/' + f).read()
        c = s.count(old)
        if nth is None and c != 1 or c == 0:
            undo(); raise SystemExit('count %d: %s %s' % (c, f, old))
        k = s.index(old)
        s = s[:k] + new + s[k + len(old):]
        open(R + '/' + f, 'w').write(s)
if sys.argv[1] == 'undo': undo()
elif sys.argv[1] == 'apply': apply(sys.argv[2])
else:
    ids = sys.argv[3:] or ['C%02d' % k for k in range(1, 37)]
    try:
        apply(sys.argv[2])
        for i in ids:
            p = subprocess.run(['python3', V + '/check.py', i], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            if p.returncode:
                print(i, 'rc', p.returncode)
                for l in (p.stdout + p.stderr).splitlines():
                    if l.startswith('rejected') or 'FAILED' in l or 'error' in l[:8]: print('   ', l[:330])
            else: print(i, 'quiet')
            sys.stdout.flush()
    finally: undo()
