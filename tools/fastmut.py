#!/usr/bin/env python3
"""Fast mutation run (development tool).  The inputs of each check are computed once; a mutant is judged by TLC only on the
calls whose outcome differs from the unmutated library's.

  fastmut.py prepare [PROPS]          inputs and base outcomes, in /tmp/mut/base
  fastmut.py run OUT FILE.py WORKERS  mutants from FILE.py's mutants(): (file, line, fn, prop, old, new) or (file, fn, prop, old text, new text)
"""
import sys, os, json, pickle, subprocess, shutil, time, random, fcntl, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
sys.path[:0] = [V, V + '/tools']
import check, gen
from mutate import MORE
M = '/tmp/mut'
ALL = ['C%02d' % i for i in range(1, 37)]
check.IDLE, check.MAXBAD = 15, 1

def clean(r):
    return json.dumps({k: v for k, v in r.items() if k != 'i'}, sort_keys=True) if r else None

def execute(prop, calls, exes, work, tag):
    send = [{k: v for k, v in c.items() if k not in check.HARNESS_DROPS} for c in calls]
    send = [dict(s, g=c['g']) for s, c in zip(send, calls)]
    out = []
    for name, cf, th in RUNS(prop):
        out.append((name, check.execute(exes[cf], send, work, '%s-%s' % (tag, name), th)))
    return out

def RUNS(prop):
    if prop == 'C09':
        return [('simd', 'simd', 1), ('scalar', 'scalar', 1), ('par3', 'par', 3), ('parscalar3', 'parscalar', 3)]
    return [('simd', 'simd', 1), ('scalar', 'scalar', 1)]

def prepare(props):
    os.makedirs(M + '/base', exist_ok=True)
    exes = {cf: check.build(cf) for cf in check.CONFIGS}
    def one(p):
        work = M + '/base/w' + p
        os.makedirs(work, exist_ok=True)
        cases, *_ = check.run_models(p, 'quick', 1, work)
        items = gen.items(p, 1, 'quick', cases)
        calls, plan = check.flatten(items)
        res = execute(p, calls, exes, work, 'b')
        base = [(n, {i: clean(r) for i, r in m.items()}) for n, m in res]
        pickle.dump((calls, plan, base), open(M + '/base/%s.pkl' % p, 'wb'))
        shutil.rmtree(work)
        print(p, len(calls), flush=True)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, props))

_cache = {}
def base(p):
    if p not in _cache:
        if len(_cache) > 12: _cache.clear()
        _cache[p] = pickle.load(open(M + '/base/%s.pkl' % p, 'rb'))
    return _cache[p]

class Worker:
    def __init__(self, k):
        self.d = '%s/w%d' % (M, k)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        subprocess.check_call(['cp', '-a', '/repo', self.d + '/repo'])
        shutil.rmtree(self.d + '/repo/target', ignore_errors=True)
        subprocess.check_call(['cp', '-a', V + '/harness', self.d + '/harness'])
        t = self.d + '/harness/Cargo.toml'
        s = open(t).read().replace('"/repo"', '"%s/repo"' % self.d)
        open(t, 'w').write(s)
        for cf in check.CONFIGS:
            subprocess.check_call(['cp', '-a', V + '/build/target-' + cf, self.d + '/target-' + cf])
        self.work = self.d + '/work'
        os.makedirs(self.work)

    def build(self, cf):
        env = dict(os.environ, CARGO_TARGET_DIR=self.d + '/target-' + cf, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
        env.pop('RUSTFLAGS')
        cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', self.d + '/harness/Cargo.toml']
        if check.CONFIGS[cf]: cmd += ['--features', ','.join(check.CONFIGS[cf])]
        p = subprocess.run(cmd, env=env, capture_output=True, text=True)
        return (self.d + '/target-%s/debug/harness' % cf) if p.returncode == 0 else None

    def judge(self, prop, exes):
        calls, plan, b = base(prop)
        res = execute(prop, calls, exes, self.work, prop)
        diff = []
        for it in plan:
            for (n, m), (_, bm) in zip(res, b):
                if any(clean(m.get(i)) != bm.get(i) and not (m.get(i) is None) for i in it[1]):
                    diff.append(it)
                    break
        if not diff: return 'same', 0
        random.Random(1).shuffle(diff)
        for lo, hi in ((0, 12), (12, 400), (400, 10 ** 6)):
            part = diff[lo:hi]
            if not part: break
            groups, _ = check.events_of(prop, calls, part, res)
            bad, _, _ = check.judge(prop, [e for g in groups for e in g], self.work, prop)
            if bad: return 'caught', len(diff)
        return 'allowed', len(diff)

    def mutant(self, props, edits):
        saved = {}
        try:
            for f, old, new in edits:
                p = self.d + '/repo/src/' + f
                s = open(p).read()
                saved.setdefault(p, s)
                if isinstance(old, int):
                    lines = s.split('\n'); lines[old] = new; s2 = '\n'.join(lines)
                else:
                    if old not in s: return 'nomatch', None, 0
                    s2 = s.replace(old, new, 1)
                open(p, 'w').write(s2)
            exes = {}
            for cf in (['simd', 'scalar'] + (['par', 'parscalar'] if 'C09' in props else [])):
                e = self.build(cf)
                if not e: return 'nobuild', None, 0
                exes[cf] = e
            n = 0
            for pr in props:
                if pr == 'C09' and 'par' not in exes: continue
                r, k = self.judge(pr, exes)
                n += k
                if r == 'caught': return 'caught', pr, n
            return ('survived' if n == 0 else 'allowed'), None, n
        finally:
            for p, s in saved.items(): open(p, 'w').write(s)

def work(k, W, out, ms):
    w = Worker(k)
    done = {json.loads(l)['k'] for l in open(out)} if os.path.exists(out) else set()
    for i, m in ms:
        if i % W != k or i in done: continue
        t = time.time()
        try:
            if len(m) == 6:
                f, n, fn, prop, old, new = m
                rec = dict(f=f, n=n + 1, fn=fn, prop=prop, old=old.strip(), new=new.strip())
                r = w.mutant([prop] + MORE.get(prop, []), [(f, n, new)])
            else:
                name, prop, edits = m
                rec = dict(fn=name, prop=prop)
                r = w.mutant([prop] + MORE.get(prop, []), edits)
        except Exception as x:
            r = ('broken ' + repr(x)[-300:], None, 0)
        with open(out, 'a') as o:
            fcntl.flock(o, fcntl.LOCK_EX)
            o.write(json.dumps(dict(k=i, res=r[0], by=r[1], ndiff=r[2], t=round(time.time() - t, 1), **rec)) + '\n')

if __name__ == '__main__':
    if sys.argv[1] == 'prepare':
        prepare(sys.argv[2:] or ALL)
    else:
        spec = importlib.util.spec_from_file_location('ms', sys.argv[3]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        ms = mod.mutants()
        random.Random(7).shuffle(ms)
        ms = list(enumerate(ms))
        W = int(sys.argv[4])
        from multiprocessing import Process
        ps = [Process(target=work, args=(k, W, sys.argv[2], ms)) for k in range(W)]
        for p in ps: p.start()
        for p in ps: p.join()
