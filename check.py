#!/usr/bin/env python3
"""Decides one property of imgproc-rs.

  check.py ID [--tier quick|thorough] [--replay FILE]

1. builds the conformance harness against /repo's working tree, in every feature configuration;
2. model-checks the property's specification models with TLC, and lets TLC generate cases and histories from
   the specification;
3. executes those and the randomly generated calls on the real code;
4. gives the recorded outcomes to TLC, which accepts or rejects each against the specification (spec/Trace.tla).

Exit 0: every recorded outcome is one the specification allows.  Exit 1: a line VIOLATION.  Exit 2: the check failed.
"""
import argparse, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
REPO = '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CONFIGS = {'simd': ['simd'], 'scalar': [], 'par': ['simd', 'par'], 'parscalar': ['par']}
DUMMY = {'n': 1, 'w': 0, 'h': 0, 'c': 0, 'a': False, 'q': 0, 'x': False, 'd': []}
NPROC = os.cpu_count() or 4
IDLE = 40          # seconds without a result before a call counts as not terminating
MAXBAD = 6         # crashes or hangs of one configuration after which the rest is not run


class Broken(Exception):
    """The check itself failed."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def build(cf):
    tgt = os.path.join(BUILD, 'target-' + cf)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
    cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(ROOT, 'harness', 'Cargo.toml')]
    if CONFIGS[cf]:
        cmd += ['--features', ','.join(CONFIGS[cf])]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    exe = os.path.join(tgt, 'debug', 'harness')
    if p.returncode != 0 or not os.path.exists(exe):
        raise Broken('harness does not build (%s):\n%s' % (cf, p.stdout[-4000:]))
    return exe


# ------------------------------------------------------------------ executing calls
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(exe, calls, work, tag, threads=None, callers=None):
    """Runs the calls; returns {i: result}.  A death or a hang is a result, and a session is left at that point."""
    script = os.path.join(work, 'script-%s.ndjson' % tag)
    with open(script, 'w') as f:
        for c in calls:
            f.write(json.dumps(c, separators=(',', ':')) + '\n')
    scratch = os.path.join(work, 'files-%s' % tag)
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, HARNESS_DIR=scratch, RAYON_NUM_THREADS=str(threads or 3))
    out, bad = {}, 0
    order = [c['i'] for c in calls]
    start = order[0] if order else 0
    pos = {i: k for k, i in enumerate(order)}
    while order:
        p = subprocess.Popen([exe, script, str(start)] + ([str(callers)] if callers else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, preexec_fn=limits, cwd=scratch)
        last = [time.time()]
        hung = [False]

        def watch():
            while p.poll() is None:
                if time.time() - last[0] > IDLE:
                    hung[0] = True
                    p.kill()
                    return
                time.sleep(.2)
        errs = []
        t1 = threading.Thread(target=watch, daemon=True)
        t2 = threading.Thread(target=lambda: errs.append(p.stderr.read()), daemon=True)
        t1.start(), t2.start()
        done = None
        for line in p.stdout:
            last[0] = time.time()
            if not line.endswith('\n'):
                break
            r = json.loads(line)
            out[r['i']] = r
            done = r['i']
        p.wait()
        t2.join(5)
        if p.returncode == 3:
            raise Broken('script error: %s' % ''.join(errs)[-1500:])
        k = pos[done] + 1 if done is not None else pos[start]
        if p.returncode == 0 and not hung[0]:
            if k != len(order):
                raise Broken('harness stopped early')
            break
        if k >= len(order):                    # died after the last result
            break
        out[order[k]] = {'i': order[k], 'r': 'hang' if hung[0] else 'crash'}
        bad += 1
        # leave the rest of the session
        g = calls[k].get('g', calls[k]['i'])
        k += 1
        while k < len(order) and calls[k].get('g', calls[k]['i']) == g:
            k += 1
        if k >= len(order) or bad >= MAXBAD:
            break
        start = order[k]
    shutil.rmtree(scratch, ignore_errors=True)
    os.unlink(script)
    return out


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, work, tag, env=None, args=(), mem='2g', timeout=800):
    meta = os.path.join(work, 'tlc-' + tag)
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Xss96m', '-Xmx' + mem, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', JARS, 'tlc2.TLC', '-metadir', meta,
           '-config', cfg, *args, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC ran out of time on %s' % tag)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def counts(text):
    m = re.findall(r'(\d[\d,]*) states generated,? (?:.*?)(\d[\d,]*) distinct states found', text)
    if m:
        return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))
    m = re.findall(r'(\d[\d,]*) states checked', text)
    if m:
        n = int(m[-1].replace(',', ''))
        return n, n
    m = re.findall(r'number of states generated: (\d+)', text)
    if m:
        n = int(m[-1])
        return n, n
    return 0, 0


def judge(prop, events, work, tag):
    """TLC's verdict on a list of events: (set of rejected ids, states, transitions)."""
    bad, st, tr = set(), 0, 0
    rest = list(events)
    for attempt in range(60):
        if not rest:
            break
        path = os.path.join(work, 'trace-%s.ndjson' % tag)
        with open(path, 'w') as f:
            for e in rest:
                f.write(json.dumps(e, separators=(',', ':')) + '\n')
        rc, text = tlc('Trace.tla', 'Trace.cfg', work, 'trace-' + tag, {'TRACE': path, 'PROP': prop}, ['-workers', '1'])
        got = [int(v) for v in re.findall(r'<<"BAD", (-?\d+)>>', text)]
        bad.update(got)
        g, d = counts(text)
        if 'No error has been found' in text:
            os.unlink(path)
            return bad, st + d, tr + g
        # an outcome so far off that the specification's predicate is not even defined on it
        m = re.findall(r'^State (\d+):', text, re.M)
        if 'Parsing or semantic analysis failed' in text or 'OutOfMemory' in text or 'StackOverflow' in text:
            raise Broken('TLC failed on a trace of %s:\n%s' % (prop, text[-3000:]))
        if not m:
            m = ['1'] if 'Error:' in text else None
        if not m:
            raise Broken('TLC failed on a trace of %s:\n%s' % (prop, text[-3000:]))
        k = int(m[-1]) - 1                      # the state before event k+1 (counting from 1)
        if k >= len(rest):
            raise Broken('TLC rejected a trace without naming an event:\n%s' % text[-3000:])
        if os.environ.get('VERIF_DEBUG'):
            log('evaluation stopped at event', json.dumps(rest[k])[:400], '\n', text[text.find('Error:'):][:300])
        bad.add(rest[k]['i'])
        st += k
        tr += k
        g0 = rest[k].get('g', rest[k]['i'])
        rest = [e for e in rest[k + 1:] if e.get('g', e['i']) != g0]
    return bad, st, tr


def clip(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return max(-1073741823, min(1073741823, v))
    if isinstance(v, list):
        if len(v) > 16 and isinstance(v[0], int):
            return v if max(v) < 1073741824 and min(v) > -1073741824 else [clip(u) for u in v]
        return [clip(u) for u in v]
    if isinstance(v, dict):
        return {k: clip(u) for k, u in v.items()}
    return v


# ------------------------------------------------------------------ from items to calls to events
def flatten(items):
    """Numbers the calls.  Returns calls and, for each item, what event(s) it becomes."""
    calls, plan, i = [], [], 0
    for it in items:
        if 'calls' in it:
            g = i
            ids = []
            for c in it['calls']:
                c = dict(c, i=i, g=g, s=it['s'])
                calls.append(c)
                ids.append(i)
                i += 1
            plan.append(('session', ids, it))
        elif 'pair' in it:
            a, b = it['pair']
            calls += [dict(a, i=i, g=i, s=''), dict(b, i=i + 1, g=i + 1, s='')]
            plan.append(('pair', [i, i + 1], it))
            i += 2
        else:
            calls.append(dict(it, i=i, g=i, s=''))
            plan.append(('one', [i], it))
            i += 1
    return calls, plan


HARNESS_DROPS = {'g', 'cost', 'note', 'nojudge'}


def to_event(call, res, cf):
    e = {k: v for k, v in call.items() if k not in ('cost', 'note', 'ty', 'nojudge')}
    e['cf'] = cf
    e['r'] = res['r']
    e['ek'] = res.get('ek', '')
    e['o'] = res.get('o', DUMMY) if res['r'] == 'ok' else DUMMY
    if 'st' in res:
        e['st'] = res['st']
    elif call['s']:
        e['st'] = {'w': 0, 'h': 0, 'c': 0, 'a': False, 'd': []} if call['s'] == 'C' else []
    return e


def is_image(o):
    return isinstance(o, dict) and all(k in o for k in ('w', 'h', 'c', 'q', 'd', 'n', 'x'))


def events_of(prop, calls, plan, results):
    """results: list of (configuration name, {i: result}).  Identical outcomes become one event."""
    by = {c['i']: c for c in calls}
    groups = []
    n = 0
    table = {}
    for kind, ids, it in plan:
        have = [(cf, [res.get(i) for i in ids]) for cf, res in results]
        have = [(cf, rs) for cf, rs in have if rs[0] is not None and rs[0]['r'] != 'skip']
        if not have:
            continue
        if prop == 'C09':
            seen, rs = {}, []
            for cf, r in have:
                key = json.dumps([{k: v for k, v in x.items() if k != 'i'} if x else None for x in r], sort_keys=True)
                if key not in seen:
                    seen[key] = [cf]
                    rs.append((cf, r, seen[key]))
                else:
                    seen[key].append(cf)
            c = by[ids[0]]
            e = {k: v for k, v in c.items() if k in ('i', 's', 'op', 'p')}
            e['p'] = dict(c['p'])
            e['p']['img'] = all(x[1][0]['r'] != 'ok' or is_image(x[1][0].get('o')) for x in rs)
            e['cf'] = [','.join(x[2]) for x in rs]
            e['rs'] = [{'cf': ','.join(x[2]), 'r': x[1][0]['r'], 'ek': x[1][0].get('ek', ''), 'o': x[1][0].get('o', DUMMY)} for x in rs]
            e['i'] = e['g'] = n
            table[n] = (it, e['cf'])
            groups.append([clip(e)])
            n += 1
            continue
        seen = {}
        for cf, r in have:
            key = json.dumps([{k: v for k, v in x.items() if k != 'i'} if x else None for x in r], sort_keys=True)
            seen.setdefault(key, (r, []))[1].append(cf)
        for r, cfs in seen.values():
            if kind == 'one':
                e = to_event(by[ids[0]], r[0], cfs)
                ev = [e]
            elif kind == 'pair':
                e = to_event(by[ids[0]], r[0], cfs)
                e2 = to_event(by[ids[1]], r[1] or {'r': 'crash'}, cfs)
                e.update(in2=e2['in'], r2=e2['r'], o2=e2['o'])
                ev = [e]
            else:
                ev = []
                for i, x in zip(ids, r):
                    if x is None:
                        break
                    ev.append(to_event(by[i], x, cfs))
            g = n
            for e in ev:
                e['i'], e['g'] = n, g
                table[n] = (it, cfs)
                n += 1
            groups.append([clip(e) for e in ev])
    return groups, table


def size_of(g):
    t = 1
    for e in g:
        o = e.get('o')
        d = o.get('d') if isinstance(o, dict) else None
        t += 3 + (len(d) if isinstance(d, list) else 5) + (len(e['rs']) * 100 if 'rs' in e else 0)
    return t


def shards(groups, plan_cost, n):
    """Splits groups of events over n lists of about equal cost."""
    cost = [(plan_cost(g), k) for k, g in enumerate(groups)]
    cost.sort(reverse=True)
    bins = [[0, []] for _ in range(max(1, n))]
    for c, k in cost:
        b = min(bins, key=lambda z: z[0])
        b[0] += c
        b[1].append(k)
    return [[e for k in sorted(b[1]) for e in groups[k]] for b in bins if b[1]]


# ------------------------------------------------------------------ the check
def brief(e):
    t = json.dumps({k: v for k, v in e.items() if k not in ('g', 's')}, separators=(',', ':'))
    return t if len(t) < 700 else t[:700] + '...'


def run_models(prop, tier, seed, work):
    """TLC on the property's models, and the cases TLC generates from the specification."""
    import models
    jobs = models.jobs(prop, tier, seed)
    out, st, tr, notes = [], 0, 0, []

    def one(k):
        j = jobs[k]
        rc, text = tlc(j['module'], j['cfg'], work, 'mc%d' % k, j.get('env'), j.get('args', ['-workers', '2']), j.get('mem', '3g'))
        sim = '-simulate' in j.get('args', [])
        if rc != 0 and not (sim and 'Error:' not in text):
            raise Broken('model %s/%s: TLC found an error in the specification itself\n%s' % (j['module'], j['cfg'], text[-5000:]))
        cases = []
        for line in text.splitlines():
            if line.startswith('"CASE ') and line.endswith('"'):
                cases.append(json.loads(json.loads('"' + line[6:-1] + '"')))
        g, d = counts(text)
        return cases, d, g, '%s: %d distinct states, %d generated, %d cases' % (j['name'], d, g, len(cases))
    with ThreadPoolExecutor(4) as ex:
        for cases, d, g, note in ex.map(one, range(len(jobs))):
            out += cases
            st += d
            tr += g
            notes.append(note)
    return out, st, tr, notes


def run(prop, tier, seed, replay=None):
    import gen
    t0 = time.time()
    work = os.path.join(BUILD, 'work', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        cfs = gen.configs(prop)
        with ThreadPoolExecutor(8) as ex:
            fb = {cf: ex.submit(build, cf) for cf in cfs}
            fm = ex.submit(run_models, prop, tier, seed, work) if not replay else None
            exes = {cf: f.result() for cf, f in fb.items()}
            cases, st, tr, notes = fm.result() if fm else ([], 0, 0, [])
        t1 = time.time()
        items = [json.load(open(replay))['item']] if replay else gen.items(prop, seed, tier, cases)
        calls, plan = flatten(items)
        send = [{k: v for k, v in c.items() if k not in HARNESS_DROPS} for c in calls]
        keep = {c['i']: c for c in calls}
        runs = gen.runs(prop, tier)              # (name, configuration, worker threads, overlapping callers)
        results = {}
        with ThreadPoolExecutor(8) as ex:
            fs = {}
            for name, cf, th, callers in runs:
                parts = split(calls, send, 2 if len(runs) <= 4 else 1)
                fs[name] = [ex.submit(execute_part, exes[cf], part, work, '%s-%d' % (name, k), th, callers) for k, part in enumerate(parts)]
            for name, *_ in runs:
                m = {}
                for f in fs[name]:
                    m.update(f.result())
                results[name] = m
        t2 = time.time()
        groups, table = events_of(prop, calls, plan, [(n, results[n]) for n, *_ in runs])
        if not groups:
            raise Broken('nothing was executed')
        cost = lambda g: sum((table[e['i']][0].get('cost') or 0) for e in g[:1]) or size_of(g)
        parts = shards(groups, cost, NPROC)
        bad = set()
        with ThreadPoolExecutor(NPROC) as ex:
            for b, d, g in ex.map(lambda k: judge(prop, parts[k], work, str(k)), range(len(parts))):
                bad |= b
                st += d
                tr += g
        t3 = time.time()
        log('%s: build+models %.1f s, execution %.1f s (%d calls x %d), judging %.1f s (%d events)' % (
            prop, t1 - t0, t2 - t1, len(calls), len(runs), t3 - t2, sum(len(g) for g in groups)))
        events = {e['i']: e for g in groups for e in g}
        nbad = report(prop, bad, events, table, seed, tier)
        if not replay:
            opsn = {}
            for e in events.values():
                opsn[e['op']] = opsn.get(e['op'], 0) + 1
            rej = {events[i]['g'] for i in bad}
            ev = {
                'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                'coverage': {
                    'states': st, 'transitions': tr,
                    'traces_validated_against_impl': len(groups) - len(rej),
                    'events': len(events), 'calls_executed': sum(len(r) for r in results.values()),
                    'configurations': [n for n, *_ in runs], 'cases_generated_by_tlc': len(cases),
                    'events_by_operation': opsn, 'models': notes,
                    'samples': [brief(g[0] if len(g) == 1 else {'history': [brief_small(e) for e in g[:12]]}) for g in
                                groups[:: max(1, len(groups) // 4)][:4]],
                },
                'assumptions': gen.assumptions(prop),
                'wall_s': round(time.time() - t0, 1), 'violations': nbad,
            }
            os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
            with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s: %d recorded outcomes judged, %d rejected (%.1f s)' % (prop, len(events), len(bad), time.time() - t0))
        return 1 if nbad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def brief_small(e):
    return {k: e[k] for k in ('op', 'how', 'reg', 'path', 'x', 'y', 'r', 'ek') if k in e}


def split(calls, send, n):
    """Cuts the calls into n runs without dividing a session."""
    total = len(send)
    cuts, k = [], 0
    for j in range(n):
        end = total * (j + 1) // n
        while 0 < end < total and calls[end]['g'] == calls[end - 1]['g']:
            end += 1
        cuts.append([dict(send[t], g=calls[t]['g']) for t in range(k, end)])
        k = max(k, end)
    return [c for c in cuts if c]


def execute_part(exe, part, work, tag, th, callers):
    return execute(exe, part, work, tag, th, callers)


def report(prop, bad, events, table, seed, tier):
    """Prints VIOLATION lines, with a replay file each; one line per operation and kind of item."""
    done, lines = set(), 0
    rdir = os.path.join(BUILD, 'replay')
    for i in sorted(bad):
        e = events[i]
        key = (e['op'], e.get('how', ''), e['r'] if 'r' in e else '')
        if key in done or len(done) >= 12:
            continue
        done.add(key)
        item, cfs = table[i]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(json.dumps(item, sort_keys=True).encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'configurations': cfs, 'item': item, 'event': e}, f, indent=1)
        print('rejected: op=%s configurations=%s %s' % (e['op'], cfs, brief(e)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        lines += 1
    if len(bad) > lines:
        print('(%d outcomes rejected in all)' % len(bad))
    return len(bad)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        rc = run(a.prop, a.tier, seed, a.replay)
    except Broken as x:
        log('CHECK FAILED: %s' % x)
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
