#!/usr/bin/env python3
"""Mutation run (development tool): small source changes in a copy of /repo, judged by the checks of a copy of /verif.

  mutate.py list [FILE]          the mutants
  mutate.py run OUT [FROM TO]    run them, in a copy under /tmp/mut
"""
import re, sys, os, subprocess, random, json, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mut'
FN = {
 'image/mod.rs': [('subimage|neighborhood', 'C02'), ('map_|apply_', 'C04'), ('', 'C01')],
 'image/sub_image.rs': [('', 'C02')], 'image/pixel_iter.rs': [('', 'C03')], 'image/pixel.rs': [('', 'C04')], 'image/from_impl.rs': [('', 'C33')],
 'io/mod.rs': [('', 'C34')], 'convert.rs': [('', 'C33')], 'error/messages.rs': [('', 'C35')],
 'util/math.rs': [('separate', 'C18'), ('apply_', 'C17'), ('_lab_|_xyz_', 'C13'), ('', 'C36')],
 'util/mod.rs': [('tristim', 'C13'), ('histogram', 'C16'), ('gaussian', 'C19'), ('log_k', 'C20'), ('spatial', 'C24'), ('summed|rectang', 'C27'), ('', 'C36')],
 'filter/mod.rs': [('filter_1d|separable', 'C17'), ('linear', 'C18'), ('box|weighted|blur', 'C19'), ('sharp', 'C20'), ('thresh', 'C21'), ('residual', 'C29'), ('', 'C17')],
 'filter/edge.rs': [('', 'C20')], 'filter/bilateral.rs': [('', 'C24')],
 'filter/median.rs': [('mean|Mean|trimmed', 'C23'), ('', 'C22')],
 'tone.rs': [('lab', 'C15'), ('brightness', 'C07'), ('contrast|gamma', 'C14'), ('satur', 'C12'), ('', 'C16')],
 'colorspace.rs': [('gray', 'C10'), ('hsv', 'C11'), ('', 'C13')],
 'morphology.rs': [('open|close', 'C26'), ('', 'C25')],
 'transform.rs': [('crop|translate|reflect|overlay', 'C28'), ('superimpose', 'C29'), ('rotate', 'C31'), ('shear', 'C32'), ('', 'C30')],
 'simd.rs': [('avg|deinter', 'C10'), ('', 'C08')],
}
MORE = {'C01': ['C02', 'C35'], 'C02': ['C17'], 'C22': ['C35'], 'C17': ['C09', 'C18', 'C20'], 'C18': ['C17', 'C35', 'C09'], 'C19': ['C35', 'C05'], 'C20': ['C35', 'C13', 'C09'], 'C24': ['C36', 'C35', 'C09'], 'C08': ['C07', 'C12'],
        'C10': ['C08', 'C09'], 'C13': ['C06', 'C15', 'C36'], 'C16': ['C35', 'C06'], 'C28': ['C35', 'C09', 'C05'], 'C29': ['C35', 'C05'], 'C30': ['C09', 'C05', 'C35'], 'C36': ['C35', 'C30', 'C24'], 'C14': ['C35', 'C06'],
        'C07': ['C35', 'C06', 'C09'], 'C12': ['C35', 'C06', 'C09'], 'C15': ['C35', 'C06'], 'C21': ['C35', 'C06'], 'C23': ['C35', 'C22'], 'C25': ['C26', 'C35', 'C06'], 'C27': ['C25'], 'C11': ['C06', 'C12'], 'C31': ['C05'], 'C32': ['C05'], 'C04': ['C06'], 'C33': ['C06'], 'C35': ['C01']}
OPS = [(r' <= ', [' < ']), (r' < (?=[a-z0-9\(&])', [' <= ']), (r' >= ', [' > ']), (r' > (?=[a-z0-9\-])', [' >= ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' && ', [' || ']), (r' \|\| (?=\()', [' && ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']),
       (r'(?<![\w.\[])(\d+)(?![\w.\]])', None), (r'(?<![\w.])(\d+\.\d+)(?![\w.])', None), (r'cmp::min\(', ['cmp::max(']), (r'cmp::max\(', ['cmp::min(']),
       (r'\.floor\(\)', ['.ceil()', '.round()']), (r'\.ceil\(\)', ['.floor()']), (r'\.round\(\)', ['']), (r'\.abs\(\)', ['']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.\.=', ['..'])]

def mutants():
    out = []
    for f, fns in FN.items():
        lines = open('/repo/src/' + f).read().split('\n')
        fn = ''
        for n, l in enumerate(lines):
            s = l.strip()
            m = re.search(r'\bfn (\w+)', l)
            if m: fn = m.group(1)
            m = re.search(r'^impl.* (\w+) ', l)
            if m: fn = ''
            if s.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub fn', 'fn ', 'impl', 'const')) or 'format!(' in l or 'panic!(' in l or not s:
                if not (f.endswith('constants.rs') and s.startswith('pub const')): continue
            code = l.split('//')[0]
            prop = next(p for r, p in fns if re.search(r, fn))
            for rx, subs in OPS:
                for m in re.finditer(rx, code):
                    ss = subs
                    if ss is None:
                        t = m.group(1)
                        ss = [str(int(t) + 1)] if '.' not in t else [repr(float(t) * 1.01) if float(t) else '0.01']
                    for sub in ss:
                        out.append((f, n, fn, prop, l, l[:m.start()] + sub + l[m.end():]))
            if re.match(r'^[\w\.\[\]\(\)\*&, ]+(\(.*\)|[-+*/]?= .*);$', s) and not s.startswith(('let', 'return')):
                out.append((f, n, fn, prop, l, re.match(r'\s*', l).group(0) + '{}'))
    return out

def setup():
    if os.path.isdir(M): shutil.rmtree(M)
    os.makedirs(M)
    subprocess.check_call(['cp', '-a', '/repo', M + '/repo'])
    subprocess.check_call(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', '--exclude', 'build/work', V + '/', M + '/verif/']) if shutil.which('rsync') else subprocess.check_call(['cp', '-a', V, M + '/verif'])
    for p in ('check.py', 'harness/Cargo.toml'):
        q = M + '/verif/' + p
        s = open(q).read().replace("'/repo'", "'%s/repo'" % M).replace('"/repo"', '"%s/repo"' % M).replace('path = "../../repo"', 'path = "%s/repo"' % M)
        open(q, 'w').write(s)

def run(out, a=None, b=None):
    ms = mutants()
    random.Random(7).shuffle(ms)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['k'] for l in open(out)}
    setup()
    for k, (f, n, fn, prop, old, new) in enumerate(ms):
        if k in done or a is not None and not (a <= k < b): continue
        p = M + '/repo/src/' + f
        src = open(p).read()
        lines = src.split('\n')
        lines[n] = new
        open(p, 'w').write('\n'.join(lines))
        res, by, t = 'survived', None, time.time()
        try:
            for pr in [prop] + MORE.get(prop, []):
                q = subprocess.run(['python3', M + '/verif/check.py', pr], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                if q.returncode == 1: res, by = 'caught', pr; break
                if q.returncode == 2:
                    res, by = ('nobuild' if 'does not build' in q.stderr else 'broken: ' + q.stderr[-200:]), pr; break
        finally:
            open(p, 'w').write(src)
        with open(out, 'a') as o:
            o.write(json.dumps(dict(k=k, f=f, n=n + 1, fn=fn, res=res, by=by, prop=prop, old=old.strip(), new=new.strip(), t=round(time.time() - t, 1))) + '\n')

if __name__ == '__main__':
    if sys.argv[1] == 'list':
        ms = mutants(); print(len(ms))
        from collections import Counter
        print(Counter(m[0] for m in ms)); print(Counter(m[3] for m in ms))
    else:
        run(sys.argv[2], *[int(x) for x in sys.argv[3:5]])
