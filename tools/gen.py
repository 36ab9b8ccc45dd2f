"""Per-property generation of calls (inputs only; verdicts are the specification's)."""
import random, struct
from cases import *

THREADS = (1, 2, 3, 8)


def configs(prop):
    return ['simd', 'scalar', 'par', 'parscalar'] if prop == 'C09' else ['simd', 'scalar', 'par']


def runs(prop, tier):
    """(name, configuration, worker threads, overlapping callers) of each execution of the calls."""
    if prop == 'C09':
        th = THREADS if tier == 'quick' else (1, 2, 3, 4, 5, 7, 8, 16)
        return [('simd', 'simd', 1, None), ('scalar', 'scalar', 1, None)] + [('par%d' % t, 'par', t, None) for t in th] \
            + [('parscalar%d' % t, 'parscalar', t, None) for t in (1, 3, 8)] \
            + [('callers', 'simd', 1, 4), ('scalarcallers', 'scalar', 1, 4), ('parcallers', 'par', 3, 4)]
    return [('simd', 'simd', 1, None), ('scalar', 'scalar', 1, None), ('par', 'par', 3, None)]


GEN = {}


def prop(pid):
    def deco(f):
        GEN[pid] = f
        return f
    return deco


SCALE = {'C01': 1, 'C05': 2, 'C09': 2}


class Ctx:
    def __init__(self, pid, seed, tier, tlc):
        self.pid = pid.split('/')[0]
        self.r = random.Random('%s/%s' % (pid, seed))
        self.tier, self.tlc = tier, tlc

    def n(self, quick, thorough=None):
        k = SCALE.get(self.pid, 3)
        return quick * k if self.tier == 'quick' else max(quick * k, thorough or quick * 12)


def items(pid, seed, tier, tlc):
    import big, far, fine, huge, mix, params, values, wide
    c = Ctx(pid, seed, tier, tlc)
    own = GEN[pid](c) + big.items(pid, Ctx(pid + '/big', seed, tier, tlc)) + fine.items(pid, Ctx(pid + '/fine', seed, tier, tlc)) \
        + wide.items(pid, Ctx(pid + '/wide', seed, tier, tlc)) + params.items(pid, Ctx(pid + '/params', seed, tier, tlc))
    return from_tlc(tlc) + own + huge.items(pid, Ctx(pid + '/huge', seed, tier, tlc), own) \
        + values.items(pid, Ctx(pid + '/values', seed, tier, tlc), own) + far.items(pid, Ctx(pid + '/far', seed, tier, tlc), own) \
        + mix.items(pid, Ctx(pid + '/mix', seed, tier, tlc), own)


def from_tlc(cases):
    out = []
    for x in cases:
        if 'calls' in x:
            x['calls'] = list(x['calls'])
        out.append(x)
    return out


def shp(r, hi=9, lo=1):
    return (r.randint(lo, hi), r.randint(lo, hi))


def alpha_pair(r, c):
    """The same call on an image that differs in alpha only."""
    d = dict(c)
    im = dict(c['in'])
    k = im['c']
    v = list(im['d'])
    for i in range(k - 1, len(v), k):
        v[i] = (r.randint(0, 255)) << im['q']
    im['d'] = v
    d['in'] = im
    return d


# ------------------------------------------------------------------ containers
CTYPES = ['u8', 'u16', 'u32', 'i16', 'i32', 'f32', 'f64']


def new_reg(r, reg, ty, s=None, ctor=None):
    c, a = r.choice([(1, False), (2, True), (3, False), (4, True), (2, False), (5, True), (4, False)] * 4 + [(6, False), (9, True), (17, False)])
    w, h = s or shp(r, 4)
    if w * h == 0:
        ctor = ctor or r.choice(['slice', 'vec', 'blank'])
    ctor = ctor or r.choice(['slice', 'vec', 'vecvec', 'vecvec_rows', 'vecslice', 'blank'])
    d = [] if ctor in ('blank', 'empty') else [r.randint(0, 50) for _ in range(w * h * c)]
    return dict(op='new', reg=reg, ty=ty, ctor=ctor, w=w, h=h, c=c, a=a, d=d)


def far(r):
    return r.choice([100, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 32 - 1])


def read_op(r, reg, m):
    w, h = m['w'], m['h']
    how = r.choice(['xy', 'xy', 'mut', 'xy_un', 'mut_un', 'idx', 'idx_mut', 'data'])
    if how in ('xy', 'mut'):
        x, y = r.randint(0, w + 1), r.randint(0, h + 1)
        if r.random() < .06:
            x = far(r)
        if r.random() < .06:
            y = far(r)
        return dict(op='get', reg=reg, how=how, x=x, y=y)
    if how in ('xy_un', 'mut_un'):
        return dict(op='get', reg=reg, how=how, x=r.randrange(w), y=r.randrange(h))
    return dict(op='get', reg=reg, how=how, x=r.randint(0, w * h + 1), y=0)


def write_op(r, reg, m):
    w, h, c = m['w'], m['h'], m['c']
    if r.random() < .35:
        how = r.choice(['data', 'mut', 'mut_un', 'idx'])
        e = dict(op='poke', reg=reg, how=how, y=0, k=0, val=r.randint(51, 120))
        if how == 'data':
            e['x'] = r.randint(0, w * h * c)
        elif how == 'idx':
            e['x'] = r.randint(0, w * h)
            e['k'] = r.randint(0, c)
        elif how == 'mut':
            e['x'], e['y'], e['k'] = r.randint(0, w), r.randint(0, h), r.randint(0, c)
        else:
            e['x'], e['y'], e['k'] = r.randrange(w), r.randrange(h), r.randrange(c)
        return e
    how = r.choice(['xy', 'xy', 'mut', 'mut_un', 'set_idx', 'idx'])
    n = c if r.random() < .8 else r.choice([0, 1, c - 1, c + 1, c + 256, 2 * c])
    if how == 'mut_un':
        n = c
    px = [r.randint(51, 120) for _ in range(n)]
    e = dict(op='put', reg=reg, how=how, px=px, y=0)
    if how in ('xy', 'mut'):
        e['x'], e['y'] = r.randint(0, w + (r.random() < .3)), r.randint(0, h + (r.random() < .3))
        if r.random() < .05:
            e['x'] = far(r)
        elif r.random() < .05:
            e['y'] = far(r)
    elif how == 'mut_un':
        e['x'], e['y'] = r.randrange(w), r.randrange(h)
    else:
        e['x'] = r.randint(0, w * h)
    return e


def history(r, n):
    """One history over up to four registers of one sample type."""
    ty = r.choice(CTYPES)
    calls = [dict(op='reset', reg='a')]
    m = {}
    e = new_reg(r, 'a', ty)
    calls.append(e)
    m['a'] = e
    calls.append(dict(op='info', reg='a'))
    edits = 0
    for _ in range(n):
        k = r.random()
        reg = r.choice(sorted(m))
        if k < .4:
            calls.append(write_op(r, reg, m[reg]))
        elif k < .72:
            calls.append(read_op(r, reg, m[reg]))
        elif k < .77:
            q = m[reg]
            calls.append(dict(op='index', reg=reg, x=r.randint(0, q['w']), y=r.randint(0, q['h'])))
        elif k < .81 and edits < 3:
            edits += 1
            calls.append(dict(op='edit', reg=reg, k=r.randrange(m[reg]['c']), val=r.randint(0, 3)))
        elif k < .85:
            calls.append(dict(op='info', reg=reg))
        elif k < .9:
            to = r.choice('abcd')
            if to != reg:
                calls.append(dict(op='clone', reg=to, **{'from': reg}))
                m[to] = m[reg]
        elif k < .93:
            to = r.choice('abcd')
            e = new_reg(r, to, ty)
            if r.random() < .5:             # the same samples through another constructor
                b = m[reg]
                if b['ctor'] != 'blank':
                    e = dict(b, reg=to, ctor=r.choice(['slice', 'vec', 'vecvec', 'vecvec_rows', 'vecslice']))
            calls.append(e)
            m[to] = e
        else:
            to = r.choice(sorted(m))
            calls.append(dict(op='eq', reg=reg, **{'from': to}))
    # finally, every way of reading every sample of one register
    reg = r.choice(sorted(m))
    q = m[reg]
    for y in range(q['h']):
        for x in range(q['w']):
            calls.append(dict(op='get', reg=reg, how='xy', x=x, y=y))
            calls.append(dict(op='get', reg=reg, how='idx', x=y * q['w'] + x, y=0))
            calls.append(dict(op='get', reg=reg, how='data', x=y * q['w'] + x, y=0))
    return {'s': 'C', 'calls': calls}


@prop('C01')
def _(c):
    r = c.r
    out = [history(r, r.randint(4, 40)) for _ in range(c.n(330, 6000))]
    for ctor in ('slice', 'vec', 'vecvec', 'vecvec_rows', 'vecslice', 'blank'):
        for s in [(1, 1), (1, 7), (7, 1), (3, 2), (5, 4)]:
            for ty in CTYPES:
                e = new_reg(r, 'a', ty, s, ctor)
                calls = [dict(op='reset', reg='a'), e, dict(op='info', reg='a')]
                calls += [dict(op='get', reg='a', how=r.choice(['xy', 'mut']), x=x, y=y) for y in range(s[1]) for x in range(s[0])]
                calls += [dict(op='get', reg='a', how='xy', x=s[0], y=0), dict(op='get', reg='a', how='xy', x=0, y=s[1]),
                          dict(op='put', reg='a', how='xy', x=s[0], y=0, px=[1] * e['c'])]
                out.append({'s': 'C', 'calls': calls})
    for s in [(0, 0), (0, 3), (3, 0)]:
        for ctor in ('slice', 'vec', 'blank', 'empty'):
            e = new_reg(r, 'a', 'u8', s, ctor)
            out.append({'s': 'C', 'calls': [dict(op='reset', reg='a'), e, dict(op='info', reg='a'), dict(op='get', reg='a', how='xy', x=0, y=0),
                                            dict(op='put', reg='a', how='xy', x=0, y=0, px=[0] * e['c']), dict(op='get', reg='a', how='idx', x=0, y=0)]})
    for s in [(2, 2), (5, 1)]:
        e = new_reg(r, 'a', 'u8', s, 'empty')
        out.append({'s': 'C', 'calls': [dict(op='reset', reg='a'), e, dict(op='info', reg='a'), dict(op='get', reg='a', how='xy', x=0, y=0),
                                        dict(op='put', reg='a', how='xy', x=1, y=0, px=[0] * e['c']), dict(op='get', reg='a', how='xy', x=s[0], y=0)]})
    # big: 16-bit and 8-bit limits of indices
    for s in [(300, 2), (2, 300), (257, 1), (1, 65)]:
        e = new_reg(r, 'a', r.choice(CTYPES), s, 'slice')
        calls = [dict(op='reset', reg='a'), e, dict(op='info', reg='a')]
        for _ in range(12):
            calls.append(read_op(r, 'a', e))
            calls.append(write_op(r, 'a', e))
        out.append({'s': 'C', 'calls': calls})
    return out


@prop('C03')
def _(c):
    r = c.r
    out = []
    shapes = [(w, h) for w in range(1, 5) for h in range(1, 5)] + [(0, 0), (0, 2), (2, 0), (1, 9), (9, 1), (7, 5), (13, 3)]
    for s in shapes * c.n(4, 60):
        e = new_reg(r, 'a', r.choice(CTYPES), s)
        size = s[0] * s[1]
        calls = [dict(op='reset', reg='a'), e]
        for _ in range(2):
            calls.append(dict(op='iter', reg='a', how=r.choice(['new', 'into'])))
            stop = r.choice([size + 3, size + 3, r.randint(0, size)])
            for k in range(stop):
                calls.append(dict(op='next', reg='a') if r.random() < .9 else dict(op='nth', reg='a', k=r.choice([0, 0, 1, 2, s[0] or 1, size])))
                if r.random() < .05:
                    calls.append(dict(op='tail', reg='a'))
                if r.random() < .12:
                    calls.append(dict(op='drain', reg='a', how=r.choice(['fold', 'for', 'collect'])))
            calls.append(dict(op='drain', reg='a', how=r.choice(['fold', 'for', 'step', 'collect', 'skip'])))
            calls.append(dict(op='tail', reg='a'))
            if size and r.random() < .5:
                calls.append(dict(op='put', reg='a', how='xy', x=r.randrange(s[0]), y=r.randrange(s[1]), px=[r.randint(51, 90) for _ in range(e['c'])]))
        out.append({'s': 'C', 'calls': calls})
    return out


@prop('C02')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(1500, 30000)):
        l = r.choice(ANYC)
        s = r.choice(SMALL + [(1, 1), (7, 4), (1, 12), (12, 1)])
        ty = r.choice(TYPES)
        n = s[0] * s[1] * l[0]
        if n > 200 and ty == 'u8':
            ty = 'u16'
        im = distinct(r, *s, *l, 255 if ty == 'u8' else 6000)
        x, y = r.randint(0, s[0] + (r.random() < .15)), r.randint(0, s[1] + (r.random() < .15))
        if r.random() < .85:
            x, y = r.randrange(s[0]), r.randrange(s[1])
        k = r.random()
        if k < .34:
            if r.random() < .15:
                w, h = r.randint(0, s[0] + 1), r.randint(0, s[1] + 1)
            else:
                w, h = r.randint(0, max(0, s[0] - x)), r.randint(0, max(0, s[1] - y))
            out.append(case('subimage', im, dict(x=x, y=y, w=w, h=h), ty=ty))
        elif k < .67:
            out.append(case('nbr1', im, dict(x=x, y=y, n=r.randint(0, 11), v=r.random() < .5), ty=ty))
        else:
            out.append(case('nbr2', im, dict(x=x, y=y, n=r.randint(0, 9)), ty=ty))
    return out


PIXHOW = ['alpha', 'channels_without_alpha', 'map_all', 'map_alpha', 'apply', 'apply_alpha', 'is_black', 'is_black_alpha']


@prop('C04')
def _(c):
    r = c.r
    out = []
    for how in MAPS:
        for l in ANYC:
            for s in SMALL + EMPTY + [(1, 1)]:
                for _ in range(c.n(2, 16)):
                    x = CAT['map']['f'](r, s, l)
                    n = s[0] * s[1] * l[0]
                    x['p']['how'] = how
                    if how.startswith(('map_pixels', 'apply_pixels')):
                        nf = l[0] - 1 if l[1] and how.endswith('alpha') else l[0]
                        extra = r.choice([0, 0, 1, 2, -1]) if how.startswith('map') and n else 0
                        x['p']['extra'] = max(extra, 1 - nf)
                    else:
                        x['p']['extra'] = 0
                    out.append(x)
    for how in PIXHOW:
        for n in (1, 2, 3, 4, 5):
            for _ in range(c.n(3, 20)):
                d = [r.choice([0, 0, r.randint(0, 80)]) for _ in range(n)]
                if 'black' in how and r.random() < .5:
                    d = [0] * n
                    if r.random() < .6:
                        d[r.randrange(n)] = r.randint(1, 9)
                out.append(case('pixel', img(1, 1, n, n > 1, d), dict(how=how), ty=r.choice(CTYPES)))
    return out


def catalogue(c, per, shapes=None, ops=None):
    r = c.r
    out = []
    for name in sorted(ops or CAT):
        t = CAT[name]
        pool = (shapes or SMALL)
        for k in range(per):
            s = pool[k % len(pool)] if k < len(pool) else r.choice(pool)
            l = t['lays'][k % len(t['lays'])] if k < len(t['lays']) else r.choice(t['lays'])
            out.append(t['f'](r, s, l))
    return out


@prop('C05')
def _(c):
    r = c.r
    out = catalogue(c, c.n(24, 250))
    for name in sorted(CAT):
        t = CAT[name]
        shapes = [(1, 1), (1, 2), (2, 1), (1, 7), (7, 1)] + r.sample(WIDE, c.n(6, 18))
        if t['empty']:
            shapes += EMPTY
        for s in shapes:
            for l in (t['lays'] if len(t['lays']) <= 4 and s[0] * s[1] < 60 else [r.choice(t['lays'])]):
                if name == 'map' and s[0] * s[1] * l[0] > 4000:
                    continue
                if name in ('bilateral', 'trimmed', 'median') and s[0] * s[1] > 120:
                    s = (s[0], 1)
                out.append(t['f'](r, s, l))
    return [x for x in out if x['op'] != 'deint']


ALPHA_OPS = ['brightness', 'brightness_lab', 'contrast', 'contrast_lab', 'saturation', 'gamma', 'histeq', 'gray', 'gray_f32', 'lin', 'unlin',
             'lin2xyz', 'xyz2lin', 'xyz2lab', 'lab2xyz', 'srgb2xyz', 'xyz2srgb', 'srgb2lab', 'lab2srgb', 'hsv', 'unhsv', 'hsvf', 'unhsvf',
             'threshold', 'prewitt', 'sobel', 'sobelw', 'deriv', 'erode', 'dilate', 'majority', 'gradient', 'open', 'close']


@prop('C06')
def _(c):
    r = c.r
    out = []
    for name in ALPHA_OPS:
        t = CAT[name]
        lays = [l for l in t['lays'] if l in ((2, True), (4, True))]
        for k in range(c.n(14, 200)):
            s = r.choice(SMALL + WIDE) if k > 3 else r.choice([(11, 1), (33, 2), (64, 1), (1, 1)])
            if t['group'] in ('morph',) and s[0] * s[1] > 200:
                s = (9, 6)
            x = t['f'](r, s, r.choice(lays))
            # a whole alpha value at the scale of the samples
            x = alpha_pair(r, x)
            if name == 'unhsvf':
                v = list(x['in']['d'])
                for i in range(x['in']['c'] - 1, len(v), x['in']['c']):
                    v[i] = r.randint(0, 128)
                x['in']['d'] = v
                y = dict(x, **{'in': dict(x['in'], d=[r.randint(0, 128) if i % x['in']['c'] == x['in']['c'] - 1 else q for i, q in enumerate(v)])})
            else:
                y = alpha_pair(r, x)
            out.append({'pair': (x, y)})
    return out


def ramp256(c=1, a=False):
    d = []
    for v in range(256):
        d += [v] * (c - 1 if a else c) + ([255 - v] if a else [])
    return img(256, 1, c, a, d)


@prop('C07')
def _(c):
    r = c.r
    out = []
    for b in range(-255, 256):
        out.append(case('brightness', rimg(r, *r.choice(SMALL + WIDE), *r.choice(ANYC)), {'b': b}))
        if b in (-255, -254, -129, -128, -127, -100, -1, 0, 1, 2, 100, 126, 127, 128, 129, 254, 255) or c.tier != 'quick':
            for l in ANYC:
                out.append(case('brightness', ramp256(*l), {'b': b}))
    for w in range(1, c.n(140, 140)):
        for l in (LAYOUTS if c.tier != 'quick' else [r.choice(LAYOUTS), r.choice(LAYOUTS)]):
            out.append(case('brightness', rimg(r, w, 1, *l, kind=r.choice(['noise', 'extreme'])), {'b': bias(r)}))
    for _ in range(c.n(150, 4000)):
        out.append(case('brightness', rimg(r, r.randint(1, 40), r.randint(1, 8), *r.choice(ANYC)), {'b': bias(r)}))
    for s in EMPTY:
        for l in LAYOUTS:
            out.append(case('brightness', rimg(r, *s, *l), {'b': bias(r)}))
    return out


@prop('C08')
def _(c):
    r = c.r
    out = []
    vals = [-255, -200, -128, -127, -1, 0, 1, 100, 127, 128, 200, 254, 255]
    for w in range(0, c.n(110, 200)):
        for l in ([(3, False), (4, True)] + [r.choice(ANYC)] if c.tier == 'quick' else ANYC):
            for g in (1, 2):
                im = rimg(r, w, 1, *l, kind=r.choice(['noise', 'extreme', 'ramp']))
                out.append(case('adds', im, {'val': r.choice(vals), 'guard': g}))
                out.append(case('addsn', im, {'val': r.choice(vals), 'n': r.choice([0, 1, l[0] - 1, l[0], l[0] + 1, 7, 255]), 'guard': g}))
        for g in (1, 2):
            im3, im4 = rimg(r, w, 1, 3, False, kind='noise'), rimg(r, w, 1, 4, True, kind='noise')
            out += [case('avg', im3, {'guard': g}), case('avg', im4, {'guard': g}), case('avg3', im3, {'guard': g}), case('avg4', im4, {'guard': g})]
    for l in ANYC:
        for v in vals:
            out.append(case('adds', ramp256(*l), {'val': v, 'guard': 1}))
            for n in range(l[0] + 2):
                out.append(case('addsn', ramp256(*l), {'val': v, 'n': n, 'guard': r.choice([1, 2])}))
    for _ in range(c.n(60, 1000)):
        s = (r.randint(1, 40), r.randint(1, 9))
        for name in ('adds', 'addsn', 'avg', 'avg3', 'avg4'):
            out.append(CAT[name]['f'](r, s, r.choice(CAT[name]['lays'])))
    for k in (3, 4):
        for n in (32, 33, 40, 64):
            for _ in range(c.n(3, 20)):
                im = rimg(r, n, 1, k, k == 4, kind='noise')
                out.append(case('deint', im, {'off': r.choice([0, (n - 32) * k, r.randint(0, (n - 32) * k)]), 'guard': r.choice([1, 2])}))
    return out


@prop('C09')
def _(c):
    r = c.r
    out = catalogue(c, c.n(16, 160), SMALL + [(12, 3), (3, 12), (1, 40)])
    for name in sorted(CAT):
        t = CAT[name]
        for s in r.sample(WIDE, c.n(4, 16)):
            if name in ('bilateral', 'trimmed', 'median') and s[0] * s[1] > 120:
                s = (s[0], 1)
            if name == 'map' and s[0] * s[1] > 600:
                continue
            out.append(t['f'](r, s, r.choice(t['lays'])))
    out += [x for x in invalid_args(c, 1) if x['op'] not in ('kernel1', 'kernel2')]
    return [x for x in out if CAT.get(x['op'], {}).get('group') != 'vec']


@prop('C10')
def _(c):
    r = c.r
    out = []
    for w in list(range(1, c.n(140, 200))):
        for l in COLOUR:
            out.append(case('gray', rimg(r, w, 1, *l, kind=r.choice(['noise', 'noise', 'extreme'])), {}))
    for _ in range(c.n(200, 5000)):
        s = (r.randint(1, 40), r.randint(1, 9))
        l = r.choice(COLOUR)
        out.append(case('gray', rimg(r, *s, *l), {}))
        out.append(case('gray_f32', rimg(r, r.randint(1, 9), r.randint(1, 5), *l, hi=1020, q=2), {}, 8))
        out.append(case('gray_f32', rimg(r, r.randint(1, 9), r.randint(1, 5), *l, hi=255, q=0), {}, 8))
    for v in range(256):                # gray pixels keep their value
        for l in COLOUR:
            if (v + l[0]) % 3 == 0 or c.tier != 'quick':
                out.append(case('gray', img(35, 1, *l, [v] * (35 * l[0])), {}))
    return out


def colours(r, n):
    """Colours biased to gray, primaries, extremes and ties."""
    d = []
    for _ in range(n):
        k = r.random()
        if k < .5:
            p = [r.randint(0, 255) for _ in range(3)]
        elif k < .62:
            v = r.randint(0, 255)
            p = [v, v, v]
        elif k < .8:
            p = [r.choice([0, 255, r.randint(0, 255)]) for _ in range(3)]
        elif k < .9:
            v = r.randint(0, 255)
            p = [v, v, r.randint(0, 255)]
            r.shuffle(p)
        else:
            v = r.randint(1, 254)
            p = [v + r.randint(-1, 1) for _ in range(3)]
        d += p
    return d


def cimg(r, n, a=False, w=None):
    d = colours(r, n)
    if a:
        d = [x for i in range(n) for x in d[3 * i:3 * i + 3] + [r.randint(0, 255)]]
    w = w or n
    return img(w, n // w, 4 if a else 3, a, d)


@prop('C11')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(120, 3000)):
        a = r.random() < .3
        im = cimg(r, 64, a, r.choice([64, 8, 1]))
        out.append(case('hsv', im))
        out.append(case('rt_hsv', im))
        out.append(case('hsvf', cimg(r, 64), oq=16))
        if not a:
            out.append(case('rt_hsvf', cimg(r, 200)))
    for _ in range(c.n(60, 1500)):
        a = r.random() < .3
        n = 64
        d = []
        for _ in range(n):
            h = r.choice([0, 1, 42, 43, 44, 85, 86, 87, 128, 129, 130, 171, 172, 173, 214, 215, 216, 254, 255, r.randint(0, 255), r.randint(0, 255)])
            d += [h, r.choice([0, 1, 255, r.randint(0, 255)]), r.choice([0, 1, 255, r.randint(0, 255)])] + ([r.randint(0, 255)] if a else [])
        out.append(case('unhsv', img(n, 1, 4 if a else 3, a, d)))
        d = []
        for _ in range(n):
            d += [r.randint(0, 128), r.choice([0, 128, r.randint(0, 128)]), r.choice([0, 128, r.randint(0, 128)])]
        out.append(case('unhsvf', img(n, 1, 3, False, d, 7)))
    for h in range(0, 256):          # every hue
        if h % 4 == 0:
            out.append(case('unhsv', img(4, 1, 3, False, [x for k in range(4) for x in (h + k, r.randint(0, 255), r.randint(0, 255))])))
    # the whole cube on a grid
    g = list(range(0, 256, c.n(15, 5)))
    for rr in g:
        im = img(len(g), len(g), 3, False, [v for gg in g for bb in g for v in (rr, gg, bb)])
        out += [case('hsv', im), case('rt_hsv', im), case('rt_hsvf', im)]
    return out


@prop('C12')
def _(c):
    r = c.r
    out = []
    for s in range(-255, 256):
        a = r.random() < .4
        out.append(case('saturation', cimg(r, 33, a, r.choice([33, 11, 1])), {'s': s}))
    for _ in range(c.n(150, 4000)):
        out.append(case('saturation', cimg(r, r.randint(1, 90), r.random() < .4), {'s': bias(r)}))
    for w in range(0, 75):
        for a in (False, True):
            out.append(case('saturation', cimg(r, w, a) if w else img(0, 1, 4 if a else 3, a, []), {'s': bias(r)}))
    for w in WIDE:
        out.append(case('saturation', rimg(r, *w, *r.choice(COLOUR)), {'s': bias(r)}))
    return out


@prop('C13')
def _(c):
    r = c.r
    out = []
    W = ['D50', 'D65']
    for a in (False, True):
        for l in ((1, False), (2, True)):
            out.append(case('lin', ramp256(*l), {'ramp': not l[1]}, 15))
        out.append(case('lin', ramp256(3 + a, a), {'ramp': False}, 15))
    # monotone over the whole of linear light, in steps of 1/2048 and near the bend
    out.append(case('unlin', img(2049, 1, 1, False, [16 * k for k in range(2049)], 15), {'ramp': True}, 0))
    out.append(case('unlin', img(400, 1, 1, False, list(range(0, 400)), 15), {'ramp': True}, 0))
    out.append(case('unlin', img(400, 1, 1, False, sorted(r.randint(0, 32768) for _ in range(400)), 15), {'ramp': True}, 0))
    gray = [v for k in range(256) for v in (k, k, k)]
    for w in W:
        out.append(case('srgb2lab', img(256, 1, 3, False, gray), {'white': w, 'ramp': True}, 12))
        out.append(case('rt_lab', img(256, 1, 3, False, gray), {'white': w}))
        out.append(case('srgb2lab', img(2, 1, 4, True, [0, 0, 0, 7, 255, 255, 255, 200]), {'white': w, 'ramp': False}, 12))
    for _ in range(c.n(40, 600)):
        a = r.random() < .3
        im = lambda: cimg(r, 24, a)
        out.append(case('lin', im(), {'ramp': False}, 15))
        out.append(case('srgb2xyz', im(), {}, 15))
        out.append(case('srgb2lab', im(), {'white': r.choice(W), 'ramp': False}, 12))
    for _ in range(c.n(100, 2500)):
        n = 250
        a = r.random() < .3
        w = r.choice([250, 25, 10])
        out.append(case('rt_lin', cimg(r, n, a, w)))
        out.append(case('rt_xyz', cimg(r, n, a, w)))
        out.append(case('rt_lab', cimg(r, n, a, w), {'white': r.choice(W)}))
    g = list(range(0, 256, c.n(17, 5)))
    for rr in g:
        im = img(len(g), len(g), 3, False, [v for gg in g for bb in g for v in (rr, gg, bb)])
        for w in W:
            out.append(case('rt_lab', im, {'white': w}))
        out.append(case('rt_xyz', im))
    for _ in range(c.n(30, 400)):
        f = lambda hi=32768: rimg(r, 20, 1, *r.choice(COLOUR), hi=hi, q=15, kind=r.choice(['noise', 'extreme']))
        x = f()
        out.append(case('lin2xyz', f(), {}, 15))
        out.append(case('xyz2lin', f(), {}, 15))
        out.append(case('rt_linxyz', f(), {}, 15))
        lab = xyz_in_gamut(r, 20)
        out.append(case('xyz2srgb', lab, {}, 0))
        w = r.choice(W)
        out.append(case('xyz2lab', lab, {'white': w}, 12))
        out.append(case('rt_xyzlab', lab, {'white': w}, 15))
        out.append(case('lab2xyz', lab_values(r, 20), {'white': w}, 15))
        out.append(case('lab2srgb', lab_values(r, 20), {'white': w}, 0))
        out.append(case('unlin', rimg(r, 20, 1, *r.choice(LAYOUTS), hi=32768, q=15, kind='noise'), {'ramp': False}, 0))
    return out


M = ((.4124564, .3575761, .1804375), (.2126729, .7151522, .0721750), (.0193339, .1191920, .9503041))


def xyz_in_gamut(r, n):
    d = []
    for _ in range(n):
        l = [r.random() ** 2 for _ in range(3)]
        if r.random() < .2:
            l = [l[0]] * 3
        d += [int(32768 * sum(a * b for a, b in zip(row, l))) for row in M]
    return img(n, 1, 3, False, d, 15)


def lab_values(r, n):
    d = []
    for _ in range(n):
        L = r.randint(0, 100 * 4096)
        k = r.choice([0, 10, 40, 80])
        d += [L, r.randint(-k * 4096, k * 4096), r.randint(-k * 4096, k * 4096)]
    return img(n, 1, 3, False, d, 12)


@prop('C14')
def _(c):
    r = c.r
    out = []
    for g in list(range(0, 257, c.n(8, 1))) + [1, 127, 255]:
        l = r.choice(ANYC)
        out.append(case('contrast', ramp256(*l), {'g': g, 'gq': 8, 'mono': True}))
    for e in [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 28, 31, 32, 35, 40, 48, 49, 56, 64]:
        for m in [255, 255, 1, 2, 100, 128, 200, 254, r.randint(1, 255)]:
            out.append(case('gamma', ramp256(*r.choice(ANYC)), {'e': e, 'eq': 4, 'm': m, 'mono': True}))
    for _ in range(c.n(150, 4000)):
        s = r.choice(SMALL + WIDE)
        out.append(case('contrast', rimg(r, *s, *r.choice(ANYC)), {'g': r.choice([0, 256, 128, r.randint(0, 256)]), 'gq': 8, 'mono': False}))
        out.append(case('gamma', rimg(r, *s, *r.choice(ANYC)), {'e': r.choice([16, 8, 32, r.randint(1, 64)]), 'eq': 4, 'm': r.choice([255, 255, r.randint(1, 255)]), 'mono': False}))
    for s in EMPTY:
        for l in LAYOUTS:
            out.append(case('contrast', rimg(r, *s, *l), {'g': 100, 'gq': 8, 'mono': False}))
    return out


def gain(r):
    return r.choice([0, 256, 128, 255, r.randint(0, 256), r.randint(0, 256)])


@prop('C15')
def _(c):
    r = c.r
    out = []
    gray = img(256, 1, 3, False, [v for k in range(256) for v in (k, k, k)])
    for b in [-255, -128, -60, -1, 0, 1, 60, 128, 255] + [r.randint(-255, 255) for _ in range(c.n(6, 100))]:
        b2 = r.randint(b, 255)
        out.append({'pair': (case('brightness_lab', gray, {'b': b, 'ramp': True, 'pair': True}), case('brightness_lab', gray, {'b': b2}))})
    for g in [0, 1, 64, 128, 250, 256] + [r.randint(0, 256) for _ in range(c.n(6, 100))]:
        g2 = r.randint(g, 256)
        out.append({'pair': (case('contrast_lab', gray, {'g': g, 'gq': 8, 'ramp': True, 'pair': True}), case('contrast_lab', gray, {'g': g2, 'gq': 8}))})
    for _ in range(c.n(170, 3000)):
        a = r.random() < .35
        im = cimg(r, 20, a, r.choice([20, 5, 1]))
        if r.random() < .5:                # pale colours: the result stays in the gamut
            d = list(im['d'])
            for t in range(20):
                v = r.randint(30, 225)
                for k in range(3):
                    d[t * im['c'] + k] = max(0, min(255, v + r.randint(-25, 25)))
            im['d'] = d
        out.append(case('brightness_lab', im, {'b': r.choice([0, r.randint(-255, 255), r.randint(-60, 60)]), 'ramp': False, 'pair': False}))
        out.append(case('contrast_lab', im, {'g': gain(r), 'gq': 8, 'ramp': False, 'pair': False}))
    for s in WIDE[:12]:
        im = rimg(r, *s, *r.choice(COLOUR))
        out.append(case('brightness_lab', im, {'b': 0, 'ramp': False, 'pair': False}))
        out.append(case('contrast_lab', im, {'g': 256, 'gq': 8, 'ramp': False, 'pair': False}))
    return out


@prop('C16')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(300, 6000)):
        n = r.choice([1, 2, 3, 5, 8, 17, 40, 64])
        l = r.choice([(1, False), (3, False), (4, True), (2, True)])
        pool = [r.randint(0, 100 * 16) for _ in range(r.choice([1, 2, 3, 8, 30]))]
        d = []
        for _ in range(n):
            d += [r.choice(pool) if r.random() < .7 else r.randint(0, 1600)] + [r.randint(-100, 1600) for _ in range(l[0] - 1)]
        if r.random() < .2:
            d = [v * r.choice([-1, 1]) for v in d]
        w = n if n % 2 else r.choice([n, n // 2])
        out.append(case('hist', img(w, n // w, *l, d, 4), {'prec': r.choice([1, 2, 3, 4, 10, 255, 0]), 'precq': r.choice([0, 0, 1])}, 15))
    for _ in range(c.n(260, 5000)):
        a = r.random() < .3
        n = r.choice([1, 2, 3, 6, 12, 20])
        im = cimg(r, n, a)
        if r.random() < .5:
            d = list(im['d'])
            for t in range(n):
                v = r.randint(0, 255)
                for k in range(3):
                    d[t * im['c'] + k] = v
            im['d'] = d
        elif r.random() < .5:
            d = list(im['d'])
            for t in range(n):
                v = r.randint(20, 235)
                for k in range(3):
                    d[t * im['c'] + k] = v + r.randint(-18, 18)
            im['d'] = d
        out.append(case('histeq', im, {'al': r.choice([0, 16, 16, r.randint(0, 16)]), 'alq': 4, 'white': white(r), 'prec': r.choice([1, 1, 2, 5, 20, 255]), 'precq': 0}))
    gray = img(256, 1, 3, False, [v for k in range(256) for v in (k, k, k)])
    for al in (0, 5, 16):
        out.append(case('histeq', gray, {'al': al, 'alq': 4, 'white': 'D65', 'prec': 1, 'precq': 0}, cost=60000))
    return out


@prop('C21')
def _(c):
    r = c.r
    out = []
    for m in METHODS:
        for l in GRAY:
            for t in [-4, 0, 1, 2, 4, 400, 510, 1016, 1020, 1021] + [r.randint(0, 1020) for _ in range(c.n(4, 60))]:
                mx = r.choice([0, 1020, r.randint(0, 1020), 4])
                im = img(256, 1, *l, [v * 4 if l[0] == 1 or k == 0 else r.randint(0, 1020) for v in range(256) for k in range(l[0])], 2)
                out.append(case('threshold', im, dict(t=t, tq=2, max=mx, maxq=2, method=m), 2))
                s = r.choice(SMALL)
                im = rimg(r, *s, *l, hi=t + 2, lo=t - 2, q=2)
                out.append(case('threshold', im, dict(t=t, tq=2, max=mx, maxq=2, method=m), 2))
        for l in COLOUR + [(2, False), (5, False), (4, False), (1, True), (3, True)]:
            out.append(case('threshold', rimg(r, 3, 2, *l, hi=1020, q=2), dict(t=400, tq=2, max=1020, maxq=2, method=m), 2))
        for s in EMPTY:
            out.append(case('threshold', rimg(r, *s, *r.choice(GRAY), q=2), dict(t=400, tq=2, max=1020, maxq=2, method=m), 2))
    return out


# ------------------------------------------------------------------ filters
@prop('C17')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(420, 8000)):
        l = r.choice(ANYC)
        s = r.choice(SMALL + [(9, 2), (2, 9), (1, 11), (11, 1)])
        q = r.choice([0, 0, 2])
        kq = r.choice([0, 0, 1, 3])
        im = rimg(r, *s, *l, hi=255 << q, lo=r.choice([0, -40]), q=q)
        n = r.choice([1, 3, 3, 5, 7, 9])
        out.append(case('filter1d', im, {'ker': kerr(r, n), 'kerq': kq, 'v': r.random() < .5}, q + kq))
        n = r.choice([1, 3, 3, 5, 7])
        out.append(case('sep', im, {'vk': kerr(r, n), 'vkq': kq, 'hk': kerr(r, n), 'hkq': kq}, q + 2 * kq))
        n = r.choice([1, 3, 3, 5])
        out.append(case('unsep', im, {'ker': kerr(r, n * n), 'kerq': kq}, q + kq))
        n = r.choice([1, 3, 5])
        x, y = r.randrange(s[0]), r.randrange(s[1])
        out.append(case('kernel1', im, {'ker': kerr(r, n), 'kerq': kq, 'n': n, 'x': x, 'y': y, 'v': r.random() < .5, 'pre': []}, q + kq))
        out.append(case('kernel2', im, {'ker': kerr(r, n * n), 'kerq': kq, 'n': n, 'x': x, 'y': y, 'pre': []}, q + kq))
    # one-hot kernels on numbered pixels: every offset, one at a time
    for n in (3, 5):
        for t in range(n):
            for v in (False, True):
                for s in ((4, 3), (1, 5), (6, 1)):
                    im = img(*s, 1, False, list(range(1, s[0] * s[1] + 1)))
                    out.append(case('filter1d', im, {'ker': [int(k == t) for k in range(n)], 'kerq': 0, 'v': v}, 0))
        for t in range(n * n):
            for s in ((4, 3), (2, 2)):
                im = img(*s, 1, False, list(range(1, s[0] * s[1] + 1)))
                out.append(case('unsep', im, {'ker': [int(k == t) for k in range(n * n)], 'kerq': 0}, 0))
            out.append(case('sep', img(5, 4, 1, False, list(range(1, 21))), {'vk': [int(k == t // n) for k in range(n)], 'vkq': 0,
                                                                          'hk': [int(k == t % n) for k in range(n)], 'hkq': 0}, 0))
    for s in EMPTY:
        im = rimg(r, *s, 3, False)
        out += [case('filter1d', im, {'ker': [1, 2, 1], 'kerq': 0, 'v': True}, 0), case('unsep', im, {'ker': [1] * 9, 'kerq': 0}, 0),
                case('sep', im, {'vk': [1, 2, 1], 'vkq': 0, 'hk': [1, 0, 1], 'hkq': 0}, 0)]
    return out


@prop('C18')
def _(c):
    r = c.r
    out = []

    def outer(n, lo=-4, hi=4, zeros=0):
        v = [r.randint(lo, hi) for _ in range(n)]
        h = [r.randint(lo, hi) for _ in range(n)]
        for _ in range(zeros):
            r.choice([v, h])[r.randrange(n)] = 0
        return [a * b for a in v for b in h]

    def kernel(n):
        k = r.random()
        if k < .3:
            return kerr(r, n * n)
        if k < .6:
            return outer(n, zeros=r.choice([0, 0, 1, 2]))
        if k < .7:
            ker = outer(n, zeros=1)
            ker[r.randrange(n * n)] += r.choice([-1, 1, 2])     # one entry off: not an outer product any more (mostly)
            return ker
        if k < .78:
            ker = [0] * (n * n)
            for _ in range(r.randint(0, 2)):
                ker[r.randrange(n * n)] = r.choice([1, -1, 3])
            return ker
        if k < .86:
            row = kerr(r, n)
            z = [0] * n
            return [v for i in range(n) for v in (row if r.random() < .6 else z)]
        if k < .93:                       # rank 2
            a, b = outer(n, -2, 2), outer(n, -2, 2)
            return [x + y for x, y in zip(a, b)]
        return [[0, 1, 0, 1, -4, 1, 0, 1, 0], [0, -1, 0, -1, 5, -1, 0, -1, 0], [1, 2, 1, 2, 4, 2, 1, 2, 1], [-1, 0, 1, -2, 0, 2, -1, 0, 1],
                [1] * 9, [0] * 9, [0, 0, 0, 0, 1, 0, 0, 0, 0], [1, 0, 0, 0, 1, 0, 0, 0, 1], [0, 0, 1, 0, 1, 0, 1, 0, 0]][r.randrange(9)]
    for _ in range(c.n(900, 15000)):
        n = r.choice([1, 3, 3, 3, 5])
        ker = kernel(n)
        out.append(case('sepker', None, {'ker': ker, 'kerq': 0}, 10))
    for _ in range(c.n(420, 8000)):
        n = r.choice([1, 3, 3, 5])
        ker = kernel(n)
        out.append(case('linear', rimg(r, *r.choice(SMALL), *r.choice(LAYOUTS)), {'ker': ker, 'kerq': 0, 'tol': 8}, 6))
    return out


@prop('C19')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(260, 5000)):
        s = r.choice(SMALL)
        l = r.choice(ANYC)
        im = rimg(r, *s, *l)
        out.append(case('box', im, {'n': r.choice([1, 3, 3, 5, 7])}, 8))
        n = r.choice([1, 3, 3, 5])
        out.append(case('wavg', im, {'n': n, 'wt': r.choice([1, 2, 3, 5, 16, 50, 101] + ([0, 0] if n > 1 else []))}, 8))
        im = rimg(r, *s, *l)
        sg, sq = r.choice([(r.randint(2, 20), 2), (r.randint(1, 3), 0), (r.randint(4, 60), 3)])
        out.append(case('gauss', im, {'n': r.choice([1, 3, 3, 5, 7]), 'sg': sg, 'sgq': sq}, 4))
    for n in (1, 3, 5, 7, 9, 11):
        for sg, sq in [(1, 0), (1, 1), (3, 2), (3, 1), (2, 0), (5, 0), (10, 0), (7, 3), (20, 0)]:
            out.append(case('gkern', None, {'n': n, 'sg': sg, 'sgq': sq}, 15))
    for n in (9, 11, 15, 21, 31):                       # windows larger than the image
        for _ in range(c.n(2, 12)):
            im = rimg(r, *r.choice([(1, 1), (3, 2), (2, 7), (6, 4), (9, 1)]), *r.choice(ANYC))
            out.append(case('box', im, {'n': n}, 8))
            out.append(case('wavg', im, {'n': n, 'wt': r.choice([0, 1, 4, 200])}, 8))
    for v in (0, 1, 77, 128, 254, 255):                 # constant images
        for name, p in (('box', {'n': 3}), ('box', {'n': 9}), ('wavg', {'n': 5, 'wt': 7}), ('gauss', {'n': 5, 'sg': 3, 'sgq': 1}), ('gauss', {'n': 3, 'sg': 1, 'sgq': 2})):
            s = r.choice(SMALL)
            out.append(case(name, img(*s, 3, False, [v] * (s[0] * s[1] * 3)), p, 4 if name == 'gauss' else 8))
    return out


@prop('C20')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(220, 4000)):
        s = r.choice(SMALL)
        l = r.choice(GRAY)
        im = rimg(r, *s, *l)
        out.append(case('prewitt', im, {}, 4))
        out.append(case('sobel', im, {}, 4))
        out.append(case('sobelw', im, {'wt': r.choice([0, 1, 2, 3, 4])}, 4))
        n = r.choice([1, 3, 3])
        out.append(case('deriv', rimg(r, *s, *l, hi=120), {'vk': kerr(r, n, -1, 2), 'vkq': 0, 'hk': kerr(r, n, -1, 1), 'hkq': 0}, 4))
        out.append(case('laplacian', im, {}, 0))
        im = rimg(r, *s, *r.choice([(1, False), (3, False), (1, False), (2, True), (4, True)]))
        out.append(case('sharpen', im, {}, 0))
        if r.random() < .6:
            out.append(case('unsharp', im, {}, 8))
        n = r.choice([1, 3, 5, 7])
        out.append(case('log', rimg(r, *s, *l), {'n': n, 'sg': r.randint(3, 12), 'sgq': 2}, 8))
        im = rimg(r, *s, 1, False, hi=1020, lo=-1020)
        out.append(case('normlap', im, {}))
    for n in (1, 3, 5, 7, 9):
        for sg in (2, 3, 4, 5, 6, 8, 10, 12, 16):
            out.append(case('logkern', None, {'n': n, 'sg': sg, 'sgq': 2}, 15))
    for v in (0, 1, 100, 255):
        for name, oq in (('prewitt', 4), ('sobel', 4), ('laplacian', 0), ('sharpen', 0), ('unsharp', 8)):
            s = r.choice(SMALL)
            out.append(case(name, img(*s, 1, False, [v] * (s[0] * s[1])), {}, oq))
    return out


def med_cols(rad):
    n = int(4 * rad ** (2 / 3))
    return n if n % 2 else n + 1


@prop('C22')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(220, 4000)):
        s = r.choice(SMALL + [(9, 3), (3, 9), (12, 2), (16, 4)])
        out.append(case('median', rimg(r, *s, *r.choice(ANYC)), {'r': r.choice([0, 1, 1, 2, 3])}))
    for rad in (1, 2, 3):
        n = med_cols(rad)
        for w in sorted({1, 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n + 2}):
            if w < 1:
                continue
            for h in (1, 2, rad, rad + 1, 2 * rad + 1, 5):
                if rad == 3 and w * h > 90:
                    continue
                out.append(case('median', rimg(r, w, h, *r.choice([(1, False), (1, False), (3, False), (2, True)]), kind=r.choice(['noise', 'few', 'extreme'])), {'r': rad}))
    for rad in (4, 5, 7):
        for s in ((1, 1), (3, 2), (11, 3), (2, 9)):
            out.append(case('median', rimg(r, *s, 1, False), {'r': rad}))
    big = [16, 40, 63, 64, 91, 95, 120] + ([127, 128, 150, 181, 200, 256] if c.n(0, 1) else [])
    for rad in big:                     # windows far larger than the image: counts beyond 8 and 16 bits
        for s in ((1, 1), (2, 2), (3, 2), (1, 5), (6, 1)):
            if rad > 70 and s[0] * s[1] > 4:
                s = (2, 3)
            out.append(case('median', rimg(r, *s, *r.choice([(1, False), (2, True)]), kind=r.choice(['noise', 'few', 'extreme', 'flat'])), {'r': rad}))
    # values around the places a histogram splits its bins
    for v in (0, 1, 15, 16, 17, 127, 128, 254, 255):
        s = (7, 4)
        out.append(case('median', img(*s, 1, False, [r.choice([v, max(0, v - 1), min(255, v + 1)]) for _ in range(28)]), {'r': r.choice([1, 2])}))
    return out


@prop('C23')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(180, 3000)):
        rad = r.choice([0, 1, 1, 1, 2, 2, 3])
        n = (2 * rad + 1) ** 2
        s = r.choice(SMALL) if rad < 3 else r.choice([(1, 1), (5, 2), (2, 7), (8, 3)])
        al = r.choice([0, n - 1, 2, 2 * r.randint(0, (n - 1) // 2), 2 * r.randint(0, (n - 1) // 2)])
        if al >= n:
            al = 0
        out.append(case('trimmed', rimg(r, *s, *r.choice([(1, False), (1, False), (3, False), (2, True), (4, True)])), {'r': rad, 'al': al}))
    for rad in (1, 2):
        n = med_cols(rad)
        for w in sorted({1, 2, n - 1, n, n + 1, 2 * n, 2 * n + 1}):
            for h in (1, 3):
                for al in (0, 2, 4, (2 * rad + 1) ** 2 - 1):
                    out.append(case('trimmed', rimg(r, w, h, 1, False, kind=r.choice(['noise', 'few'])), {'r': rad, 'al': al}))
    for rad in [16, 40, 64, 91, 95, 128] + ([150, 181, 200, 256] if c.n(0, 1) else []):
        n = (2 * rad + 1) ** 2
        for s in ((1, 1), (2, 2), (3, 1), (1, 4)):
            al = r.choice([0, 2, n - 1, n - 3, 2 * r.randint(0, (n - 1) // 2)])
            out.append(case('trimmed', rimg(r, *s, 1, False, kind=r.choice(['noise', 'few', 'extreme', 'flat'])), {'r': rad, 'al': al}))
    for rad in (5, 40, 128, 140) + ((200, 256) if c.n(0, 1) else ()):       # means one part in (2r+1)^2 away from a half
        for v in (0, 1, 126, 250, 254):
            out.append(case('trimmed', img(2, 2, 1, False, [v, v + 1, v + 1, v]), {'r': rad, 'al': 0}))
            out.append(case('trimmed', img(2, 2, 1, False, [v + 1, v, v, v + 1]), {'r': rad, 'al': 2}))
    for al in range(0, 9, 2):           # every trim at radius 1, with many ties
        out.append(case('trimmed', rimg(r, 9, 4, 1, False, kind='few'), {'r': 1, 'al': al}))
    return out


def transp(im):
    w, h, c = im['w'], im['h'], im['c']
    d = [im['d'][(y * w + x) * c + k] for x in range(w) for y in range(h) for k in range(c)]
    return dict(im, w=h, h=w, d=d)


def mirror(im, sym):
    w, h, c = im['w'], im['h'], im['c']
    if sym == 't':
        return transp(im)
    g = (lambda x, y: (w - 1 - x, y)) if sym == 'h' else (lambda x, y: (x, h - 1 - y))
    d = []
    for y in range(h):
        for x in range(w):
            u, v = g(x, y)
            d += im['d'][(v * w + u) * c:(v * w + u) * c + c]
    return dict(im, d=d)


@prop('C24')
def _(c):
    r = c.r
    out = []
    SP = [(1, 2), (2, 2), (3, 2), (4, 2), (6, 2), (5, 1), (1, 3), (1, 0), (1, 6), (1, 12)]
    RG = [1, 2, 4, 10, 20, 60, 200, 400, 2000]

    def p(**k):
        sp, spq = r.choice(SP)
        d = {'range': r.choice(RG), 'rangeq': 2, 'sp': sp, 'spq': spq, 'gray': False, 'exact': True, 'sym': 'none'}
        d.update(k)
        return d
    for _ in range(c.n(80, 1500)):
        s = r.choice([(1, 1), (2, 2), (3, 3), (4, 3), (5, 1), (1, 5), (6, 4)])
        im = cimg(r, s[0] * s[1], False, s[0])
        if r.random() < .6:
            v = r.randint(40, 215)
            im['d'] = [max(0, min(255, v + r.randint(-30, 30))) for _ in im['d']]
        out.append(case('bilateral', im, p()))
        g = [v for _ in range(s[0] * s[1]) for v in [r.randint(0, 255)] * 3]
        out.append(case('bilateral', img(*s, 3, False, g), p(gray=True)))
        sym = r.choice('hvt')
        q = p(exact=False, sym=sym)
        out.append({'pair': (case('bilateral', im, q), case('bilateral', mirror(im, sym), q))})
        col = [r.randint(0, 255) for _ in range(3)]
        out.append(case('bilateral', img(*s, 3, False, col * (s[0] * s[1])), p()))
    return out


# ------------------------------------------------------------------ morphology, tables
def binary(r, w, h, l, p=None):
    p = p if p is not None else r.choice([.1, .3, .5, .7, .9, .97])
    d = []
    for _ in range(w * h):
        d += [255 if r.random() < p else 0] + ([r.randint(0, 255)] if l[1] else [])
    return img(w, h, l[0], l[1], d)


@prop('C25')
def _(c):
    r = c.r
    out = []
    ops = ['erode', 'dilate', 'majority', 'gradient']
    for _ in range(c.n(380, 7000)):
        s = r.choice(SMALL + [(9, 4), (3, 10), (8, 8), (1, 17), (17, 1)])
        out.append(case(r.choice(ops), binary(r, *s, r.choice(GRAY)), {'r': r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])}))
    for op in ops:
        for s in [(1, 1), (2, 1), (1, 3), (3, 3), (5, 5), (7, 2)]:
            for rad in range(0, 6):
                out.append(case(op, img(*s, 1, False, [255] * (s[0] * s[1])), {'r': rad}))
        # as many white pixels as fit in neither 8 nor 16 bits
        big = img(20, 20, 1, False, [255] * 400)
        out.append(case(op, big, {'r': 9}, cost=30000))
        out.append(case(op, binary(r, 40, 30, (1, False), .9), {'r': 1}, cost=10000))
        big = [255] * 70 * 70
        for _ in range(40):
            big[r.randrange(4900)] = 0
        out.append(case(op, img(70, 70, 1, False, big), {'r': 1}, cost=40000))
        if c.tier != 'quick':
            big = [255] * 260 * 255
            big[40000] = 0
            out.append(case(op, img(260, 255, 1, False, big), {'r': 1}, cost=600000))
    return out


@prop('C26')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(420, 8000)):
        s = r.choice(SMALL + [(9, 4), (3, 10), (8, 8), (1, 17)])
        l = r.choice(GRAY)
        op = r.choice(['open', 'open', 'close', 'close', 'open2', 'close2', 'erode', 'dilate'])
        rad = r.choice([0, 1, 1, 2, 3])
        if op in ('erode', 'dilate'):
            rad = 0
        im = binary(r, *s, l)
        if r.random() < .35 and op in ('open', 'close', 'erode', 'dilate'):
            d = list(im['d'])                   # the second image contains the first
            for i in range(0, len(d), l[0]):
                if r.random() < .2:
                    d[i] = 255
            out.append({'pair': (case(op, im, {'r': rad, 'pair': True}), case(op, dict(im, d=d), {'r': rad}))})
        else:
            out.append(case(op, im, {'r': rad, 'pair': False}))
    return out


@prop('C27')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(300, 5000)):
        s = r.choice(SMALL + [(9, 4), (1, 20), (20, 1), (8, 8)])
        l = r.choice(ANYC)
        q = r.choice([0, 0, 2])
        im = rimg(r, *s, *l, hi=255, lo=r.choice([0, -60]), q=q)
        out.append(case('sat', im, {}, q))
        for _ in range(3):
            x0, y0 = r.choice([0, r.randrange(s[0])]), r.choice([0, r.randrange(s[1])])
            x1, y1 = r.choice([s[0] - 1, r.randint(x0, s[0] - 1)]), r.choice([s[1] - 1, r.randint(y0, s[1] - 1)])
            out.append(case('rectsum', im, dict(x0=x0, y0=y0, x1=x1, y1=y1), q))
            if r.random() < .3:
                out.append(case('rectof', im, dict(x0=x0, y0=y0, x1=x1, y1=y1), q))
    for s in EMPTY:
        out.append(case('sat', rimg(r, *s, 3, False), {}, 0))
    for s in ((4, 3), (3, 4), (1, 4)):          # every rectangle
        im = rimg(r, *s, 2, True, kind='noise')
        for x0 in range(s[0]):
            for x1 in range(x0, s[0]):
                for y0 in range(s[1]):
                    for y1 in range(y0, s[1]):
                        out.append(case('rectsum', im, dict(x0=x0, y0=y0, x1=x1, y1=y1), 0))
    return out


# ------------------------------------------------------------------ geometry
def typed(r, x, ty=None):
    x['ty'] = ty or r.choice(TYPES)
    return x


HUGE = [2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32 - 2, 2 ** 31]


@prop('C28')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(350, 6000)):
        s = r.choice(SMALL + EMPTY[:1])
        l = r.choice(ANYC)
        im = rimg(r, *s, *l, kind=r.choice(['noise', 'ramp']))
        x, y = r.randint(0, s[0]), r.randint(0, s[1])
        k = r.random()
        w, h = r.randint(0, s[0] - x), r.randint(0, s[1] - y)
        if k < .35:
            w, h = r.randint(0, s[0] + 2), r.randint(0, s[1] + 2)
        elif k < .5:
            w, h = s[0] - x, s[1] - y
        elif k < .58:
            x = r.choice(HUGE)
        elif k < .64:
            h = r.choice(HUGE)
        out.append(typed(r, case('crop', im, dict(x=x, y=y, w=w, h=h), 0)))
        tx, ty = r.randint(0, s[0] + 1), r.randint(0, s[1] + 1)
        if r.random() < .06:
            tx = r.choice(HUGE)
        if r.random() < .06:
            ty = r.choice(HUGE)
        out.append(typed(r, case('translate', im, dict(x=tx, y=ty), 0)))
        out.append(typed(r, case(r.choice(['reflect', 'reflect', 'reflect2']), im, dict(axis=r.choice(['Horizontal', 'Vertical'])), 0)))
        f = (r.randint(0, s[0] + 2), r.randint(0, s[1] + 2))
        ox, oy = r.randint(0, s[0] + 1), r.randint(0, s[1] + 1)
        if r.random() < .06:
            ox = r.choice(HUGE)
        if r.random() < .06:
            oy = r.choice(HUGE)
        out.append(typed(r, case('overlay', im, dict(x=ox, y=oy), 0, rimg(r, *f, l[0], l[1]))))
    return out


@prop('C29')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(500, 9000)):
        s = r.choice(SMALL)
        l = r.choice(ANYC)
        q = r.choice([0, 2])
        f = (r.randint(0, s[0] + 2), r.randint(0, s[1] + 2))
        wq = r.choice([0, 1, 3, 4])
        x, y = r.randint(0, s[0] + 1), r.randint(0, s[1] + 1)
        if r.random() < .05:
            x = r.choice(HUGE)
        if r.random() < .05:
            y = r.choice(HUGE)
        out.append(case('superimpose', rimg(r, *s, *l, hi=255 << q, q=q), {'x': x, 'y': y, 'wt': r.choice([0, 1 << wq, r.randint(0, 1 << wq)]), 'wtq': wq},
                        q + wq, rimg(r, *f, *l, hi=255 << q, q=q)))
        im, b = rimg(r, *s, *l), rimg(r, *s, *l)
        t = r.choice(['u8', 'i16', 'i32', 'f32', 'f64', 'u16'])
        if t[0] == 'u':                     # unsigned: the difference must not be negative
            b = dict(b, d=[min(u, v) for u, v in zip(im['d'], b['d'])])
        out.append(case('residual', im, {}, 0, b, t))
    for s in EMPTY:
        im = rimg(r, *s, 3, False)
        out.append(case('residual', im, {}, 0, im, 'i32'))
    return out


def sdim(n, f, q):
    return (2 * n * f + (1 << q)) // (2 << q)


@prop('C30')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(300, 6000)):
        s = r.choice(SMALL)
        l = r.choice(ANYC)
        im = rimg(r, *s, *l)
        xq, yq = r.choice([0, 0, 1, 2, 3, 4]), r.choice([0, 0, 1, 2, 3, 4])

        def fac(q, n):
            return r.choice([1 << q, r.randint(0, 3 << q), r.randint(1, 5 << q), 1, 2, 3])
        xf, yf = fac(xq, s[0]), fac(yq, s[1])
        p = lambda m, **k: dict({'xf': xf, 'xfq': xq, 'yf': yf, 'yfq': yq, 'method': m}, **k)
        if sdim(s[0], xf, xq) * sdim(s[1], yf, yq) > 400:
            continue
        q = r.choice([0, 0, 2])
        imq = rimg(r, *s, *l, hi=255 << q, q=q)
        out.append(case('scale', imq, p('nn'), q))
        if xf and yf:
            out.append(case('scale', im, p('bilinear'), 8))
            if xf * yf <= 61:
                out.append(case('scale', im, p('bicubic'), 6))
            out.append(case('scale', im, p('lanczos'), 8))
            out.append(case('lanczos', im, p('lanczos', n=r.randint(1, 5)), 8))
    for m, oq in (('nn', 0), ('bilinear', 8), ('lanczos', 8), ('bicubic', 6)):
        for s in SMALL:
            l = r.choice(ANYC)
            out.append(case('scale', rimg(r, *s, *l), {'xf': 1, 'xfq': 0, 'yf': 1, 'yfq': 0, 'method': m}, oq))
            out.append(case('scale', rimg(r, *s, *l), {'xf': 2, 'xfq': 1, 'yf': 16, 'yfq': 4, 'method': m}, oq))
            if m != 'lanczos':
                out.append(case('scale', rimg(r, *s, *l, kind='flat'), {'xf': r.choice([1, 3, 5, 7]), 'xfq': 1, 'yf': r.choice([1, 3, 7]), 'yfq': r.choice([1, 2]), 'method': m}, oq))
    # factors a third and two thirds cannot be given exactly; integer up and down scaling of rows and columns
    for n in range(1, 14):
        for f in (1, 2, 3, 4, 5, 8):
            out.append(case('scale', img(n, 1, 1, False, [10 * k + 5 for k in range(n)]), {'xf': f, 'xfq': 2, 'yf': 1, 'yfq': 0, 'method': 'nn'}, 0))
            out.append(case('scale', img(1, n, 1, False, [10 * k + 5 for k in range(n)]), {'xf': 1, 'xfq': 0, 'yf': f, 'yfq': 2, 'method': 'bilinear'}, 8))
    return out


@prop('C31')
def _(c):
    r = c.r
    out = []

    def tagged(s, l):
        n = s[0] * s[1]
        return img(*s, *l, [4 * t + k + 1 for t in range(n) for k in range(l[0])])
    shapes = [(1, 1), (1, 4), (4, 1), (2, 2), (3, 3), (5, 5), (8, 8), (6, 3), (3, 7), (9, 4), (12, 12), (2, 9)]
    degs = list(range(0, 361)) if c.tier != 'quick' else sorted(set([0, 1, 15, 30, 44, 45, 46, 60, 89, 90, 91, 120, 135, 150, 179, 180, 181, 210, 225, 240,
                                                                   269, 270, 271, 300, 315, 330, 359, 360] + [r.randint(0, 360) for _ in range(20)]))
    for d in degs:
        for s in (shapes if d % 90 == 0 else r.sample(shapes, min(len(shapes), c.n(5, 8)))):
            out.append(case('rotate', tagged(s, r.choice([(1, False), (2, True), (3, False), (4, True)])), {'deg': d, 'degq': 0}, 0))
    for d in (0, 90, 180, 270, 360):
        for _ in range(c.n(8, 60)):
            out.append(case('rotate', rimg(r, *shp(r, 7), *r.choice(ANYC)), {'deg': d, 'degq': 0}, 0))
    return out


@prop('C32')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(700, 12000)):
        s = r.choice(SMALL + [(4, 7), (7, 3), (1, 9)])
        l = r.choice(ANYC)
        n = s[0] * s[1] * l[0]
        im = img(*s, *l, [1 + (37 * t) % 251 for t in range(n)])
        q = r.choice([0, 1, 2, 3, 4])
        sx, sy = r.randint(-2 << q, 2 << q), r.randint(-2 << q, 2 << q)
        q2 = r.choice([0, 1, 3])
        k = r.random()
        if k < .4:
            sy = 0
        elif k < .8:
            sx = 0
        out.append(case('shear', im, {'sx': sx, 'sxq': q, 'sy': sy, 'syq': q}, 0))
    for s in SMALL:
        out.append(case('shear', rimg(r, *s, 3, False), {'sx': 0, 'sxq': 0, 'sy': 0, 'syq': 0}, 0))
    return out


# ------------------------------------------------------------------ conversions
def texts(v):
    return [str(x) for x in v]


@prop('C33')
def _(c):
    r = c.r
    out = []
    big = {'u8': 2 ** 8, 'u16': 2 ** 16, 'u32': 2 ** 32, 'u64': 2 ** 53, 'u128': 2 ** 53, 'usize': 2 ** 53}

    def vals(t, n):
        hi = big[t]
        pool = [0, 1, 2, hi - 1, hi - 2, hi // 2, hi // 2 - 1, 127, 128, 255]
        v = [r.choice(pool) % hi if r.random() < .5 else r.randrange(hi) for _ in range(n)]
        if t in ('u64', 'usize'):
            v = [x if r.random() < .8 else r.choice([2 ** 63, 2 ** 60, 3 * 2 ** 61, 2 ** 64 - 2048]) for x in v]
        if t == 'u128':
            v = [x if r.random() < .8 else r.choice([2 ** 100, 2 ** 64, 2 ** 70 + 2 ** 20, 2 ** 126 - 2 ** 75]) for x in v]
        return v
    for fr, to in (('u8', 'f32'), ('u8', 'f64'), ('u16', 'f64'), ('u32', 'f64'), ('u64', 'f64'), ('u128', 'f64'), ('usize', 'f64')):
        for _ in range(c.n(25, 300)):
            s, l = r.choice(SMALL), r.choice(ANYC)
            t = texts(vals(fr, s[0] * s[1] * l[0]))
            out.append(case('conv', dict(w=s[0], h=s[1], c=l[0], a=l[1], t=t), {'from': fr, 'to': to}))
    for _ in range(c.n(60, 600)):
        s, l = r.choice(SMALL), r.choice(ANYC)
        q = r.choice([0, 1, 4, 10])
        im = rimg(r, *s, *l, lo=-3000, hi=3000 << q, q=q)
        k = r.random()
        if k < .2:                          # down to where single precision fades out, and far up
            im['q'] = q = r.choice([126, 130, 140, 145])
            im['d'] = [r.randint(-15, 15) for _ in im['d']]
        elif k < .4:
            im['q'] = q = 0
            im['d'] = [r.choice([-1, 1]) * (r.randint(1, 2 ** 22) << r.randint(10, 40)) for _ in im['d']]
        t = []
        for v in im['d']:
            z = struct.unpack('f', struct.pack('f', v / 2.0 ** q))[0]
            t.append(str(int(z)) if z == int(z) else repr(z))
        out.append(case('conv', dict(im, t=t), {'from': 'f32', 'to': 'f64'}))
    for _ in range(c.n(6, 40)):
        s, l = r.choice(SMALL), r.choice(ANYC)
        out.append(case('conv', dict(w=s[0], h=s[1], c=l[0], a=l[1], t=[r.choice(['inf', '-inf', '0', '1', '-255']) for _ in range(s[0] * s[1] * l[0])]), {'from': 'f32', 'to': 'f64'}))
    for _ in range(c.n(180, 3000)):
        s, l = r.choice(SMALL), r.choice(ANYC)
        q = r.choice([0, 1, 2, 8, 12])
        im = rimg(r, *s, *l, lo=-20 << q, hi=280 << q, q=q)
        if r.random() < .5:                 # close to ties and to the limits
            im['d'] = [((2 * r.choice([0, 1, 100, 127, 128, 253, 254, 255, r.randint(-2, 257)]) + 1) << q >> 1) + r.randint(-1, 1) for _ in im['d']]
        if r.random() < .3:
            im['d'] = [(r.choice([-1000, 70000, 256, 255, -1, 300, 10 ** 9, -10 ** 9, 2 ** 34, -2 ** 33]) << q) for _ in im['d']]
        out.append(case('conv', im, {'from': r.choice(['f32', 'f64']), 'to': 'u8'}))
    for to in ('f32u8', 'f64u8', 'f32f64u8'):
        out.append(case('conv', ramp256(), {'from': 'u8', 'to': to}))
        for _ in range(c.n(10, 100)):
            out.append(case('conv', rimg(r, *r.choice(SMALL), *r.choice(ANYC)), {'from': 'u8', 'to': to}))
    scales = [1, 2, 3, 100, 127, 128, 254, 255, 256, 1000]
    for sc in scales + [r.randint(1, 2000) for _ in range(c.n(15, 200))]:
        out.append(case('rt_u8f', ramp256(), {'scale': sc}))
        out.append(case('u82f', ramp256(), {'scale': sc}, 10))
        s, l = r.choice(SMALL), r.choice(ANYC)
        out.append(case('rt_u8f', rimg(r, *s, *l), {'scale': sc}))
        out.append(case('u82f', rimg(r, *s, *l), {'scale': sc}, 10))
        for _ in range(3):
            hi = min(sc, 255)
            im = rimg(r, *s, *l, lo=-8 * hi // 4, hi=(hi * 64 * 9) // 8, q=6, kind=r.choice(['noise', 'ramp', 'few']))
            if sc <= 255:
                out.append(case('f2u8', im, {'scale': sc}))
    for _ in range(c.n(150, 2500)):
        lo, span = r.randint(-60, 60), r.choice([1, 2, 3, 7, 10, 50, 100, 255])
        s, l = r.choice(SMALL), r.choice(ANYC)
        im = rimg(r, *s, *l, lo=(lo - 5) * 4, hi=(lo + span + 5) * 4, q=2)
        n0 = r.randint(-100, 100)
        out.append(case('scalech', im, {'cmin': lo, 'cmax': lo + span, 'smin': n0, 'smax': r.choice([n0, n0 + r.randint(1, 255), n0 - 20])}, 4))
    return out


# ------------------------------------------------------------------ files
LOSSLESS = {'png': LAYOUTS, 'bmp': COLOUR, 'tiff': [(1, False)] + COLOUR, 'tga': LAYOUTS, 'ppm': [(3, False)], 'pgm': [(1, False)]}
FPATHS = ['a.png', 'b.png', 'c.png', 'd.PNG', 'e.bmp', 'f.tiff', 'g.tga', 'h.ppm', 'i.pgm', 'k.tif']
NOEXT = ['n.txt', 'noext', 'm.png.bak']


def fext(p):
    x = p.rsplit('.', 1)[-1].lower()
    return 'tiff' if x == 'tif' else x


def fhistory(r, n):
    calls = [dict(op='reset', path='-')]
    state = {}

    def ev(op, path, **k):
        e = dict(op=op, path=path, ext='none' if path in NOEXT else 'img', nodir=path.startswith('nodir/'), kind='')
        e['from'] = ''
        e.update(k)
        calls.append(e)
    for _ in range(n):
        k = r.random()
        if k < .42:
            p = r.choice(FPATHS) if r.random() < .8 else r.choice(FPATHS[:3])
            l = r.choice(LOSSLESS[fext(p)])
            s = r.choice([(1, 1), (1, 5), (5, 1), (3, 2), (4, 4), (7, 3), (33, 2)])
            im = rimg(r, *s, *l)
            z = r.random()
            if z < .12:
                l2 = r.choice([(2, False), (4, False), (5, False), (3, True), (1, True), (5, True)])
                im = rimg(r, *s, *l2)
                ev('write', p, **{'in': im})
                continue
            if z < .22:
                im = dict(im, d=im['d'][:-r.choice([1, 1, l[0], len(im['d'])])])
                ev('write', p, **{'in': im})
                continue
            if z < .27:
                p = r.choice(NOEXT)
            elif z < .31:
                p = r.choice(['nodir/x.png', 'dir.png'])
            ev('write', p, **{'in': im})
            if p in FPATHS:
                state[p] = 'img'
        elif k < .8:
            z = r.random()
            p = r.choice(sorted(state)) if state and z < .75 else r.choice(FPATHS + ['nodir/x.png', 'dir.png'] + NOEXT)
            ev('read', p)
        elif k < .87 and state:
            src = r.choice(sorted(state))
            to = [p for p in FPATHS if fext(p) == fext(src) and p != src]
            if to and state[src] != 'gone':
                d = r.choice(to)
                ev('copy', d, **{'from': src})
                state[d] = state[src]
        elif k < .92 and state:
            p = r.choice(sorted(state))
            ev('del', p)
            del state[p]
        else:
            p = r.choice(FPATHS[:4])
            kd = r.choice(['empty', 'garbage', 'trunc', 'l16', 'rgb16', 'rgba16', 'la16'])
            ev('raw', p, kind=kd)
            state[p] = 'raw'
    for p in sorted(state):
        ev('read', p)
    return {'s': 'F', 'calls': calls}


@prop('C34')
def _(c):
    r = c.r
    out = [fhistory(r, r.randint(3, 25)) for _ in range(c.n(220, 3000))]
    for p in FPATHS:                    # every format, layout and a few sizes, read back
        for l in LOSSLESS[fext(p)]:
            for s in [(1, 1), (1, 3), (3, 1), (5, 4), (16, 16), (31, 3)]:
                calls = [dict(op='reset', path='-')]
                e = dict(path=p, ext='img', nodir=False, kind='', **{'from': ''})
                calls += [dict(e, op='write', **{'in': rimg(r, *s, *l)}), dict(e, op='read'),
                          dict(e, op='write', **{'in': rimg(r, *s, *r.choice(LOSSLESS[fext(p)]))}), dict(e, op='read')]
                out.append({'s': 'F', 'calls': calls})
    return out


# ------------------------------------------------------------------ arguments
def invalid_args(c, per):
    """Calls on both sides of every documented restriction."""
    r = c.r
    out = []
    I = lambda l=None, **k: rimg(r, *r.choice([(3, 2), (4, 3), (1, 1), (5, 1)]), *(l or r.choice(LAYOUTS)), **k)
    J = lambda **k: I(r.choice(COLOUR), **k)
    G = lambda **k: I(r.choice(GRAY), **k)
    bs = [-32768, -257, -256, -255, -254, 0, 254, 255, 256, 257, 32767]
    for b in bs:
        out += [case('brightness', I(), {'b': b}), case('brightness_lab', J(), {'b': b}), case('saturation', J(), {'s': b})]
    for g in (-256, -1, 0, 1, 128, 255, 256, 257, 512):
        out += [case('contrast', I(), {'g': g, 'gq': 8}), case('contrast_lab', J(), {'g': g, 'gq': 8})]
        out += [case('histeq', J(), {'al': g, 'alq': 8, 'white': white(r), 'prec': 4, 'precq': 0})]
        out += [case('superimpose', J(), {'x': 0, 'y': 0, 'wt': g, 'wtq': 8}, 8, J())] * per
    for b in range(4 * per):
        l1, l2 = r.choice(LAYOUTS), r.choice(LAYOUTS)
        out += [case('superimpose', I(l1), {'x': 0, 'y': 0, 'wt': 4, 'wtq': 3}, 8, I(l2)), case('overlay', I(l1), {'x': 0, 'y': 0}, 0, I(l2), 'u8'),
                case('overlay', I(l1), {'x': 1, 'y': 0}, 0, I(l2), 'f32')]
    for e in (-16, -1, 1, 16, 32):
        out.append(case('gamma', I(), {'e': e, 'eq': 4, 'm': r.choice([255, 100])}))
    for pr in (-255, -1, 0, 1, 255):
        out.append(case('histeq', J(), {'al': 8, 'alq': 4, 'white': white(r), 'prec': pr, 'precq': 0}))
    for n in range(1, 10):
        out.append(case('filter1d', I(), {'ker': kerr(r, n), 'kerq': 0, 'v': r.random() < .5}, 0))
        for m in sorted({n, n + 1, n + 2, max(1, n - 1), max(1, n - 2)}):
            out.append(case('sep', I(), {'vk': kerr(r, n), 'vkq': 0, 'hk': kerr(r, m), 'hkq': 0}, 0))
            out.append(case('deriv', I(), {'vk': kerr(r, n, -1, 1), 'vkq': 0, 'hk': kerr(r, m, -1, 1), 'hkq': 0}, 4))
    for n in list(range(1, 28)) + [36, 45, 48, 49, 50, 64, 81]:
        out.append(case('unsep', I(), {'ker': kerr(r, n), 'kerq': 0}, 0))
        out.append(case('linear', I(), {'ker': kerr(r, n), 'kerq': 0, 'tol': 0}, 6))
    for n in range(0, 12):
        out += [case('box', I(), {'n': n}, 6), case('wavg', I(), {'n': n, 'wt': 3}, 6), case('gauss', I(), {'n': n, 'sg': 4, 'sgq': 2}, 6),
                case('gkern', None, {'n': n, 'sg': 4, 'sgq': 2}, 6), case('log', G(), {'n': n, 'sg': 6, 'sgq': 2}, 6), case('logkern', None, {'n': n, 'sg': 6, 'sgq': 2}, 6),
                case('spatial', None, {'n': n, 'sg': 4, 'sgq': 2}, 6), case('spatial', None, {'n': n, 'sg': -1, 'sgq': 2}, 6)]
    lays = LAYOUTS + [(2, False), (1, True), (3, True), (4, False), (5, False), (5, True)]
    for l in lays:
        for _ in range(per):
            out += [case('threshold', I(l), {'t': 400, 'tq': 2, 'max': 1020, 'maxq': 2, 'method': r.choice(METHODS)}, 2),
                    case('prewitt', I(l), {}, 4), case('sobel', I(l), {}, 4), case('sobelw', I(l), {'wt': 2}, 4), case('normlap', I(l, hi=1000, lo=-1000), {}),
                    case('deriv', I(l), {'vk': [1, 2, 1], 'vkq': 0, 'hk': [-1, 0, 1], 'hkq': 0}, 4)]
            for m in ('erode', 'dilate', 'majority', 'gradient', 'open', 'close'):
                im = I(l)
                im['d'] = [255 if v > 100 else 0 for v in im['d']]
                out.append(case(m, im, {'r': r.choice([0, 1, 2])}))
    for rad in (0, 1, 2):
        n = (2 * rad + 1) ** 2
        for al in sorted({0, 1, 2, 3, n - 3, n - 2, n - 1, n, n + 1, n + 2, 100} - {-1, -2}):
            if al >= 0:
                out.append(case('trimmed', I(), {'r': rad, 'al': al}))
        out.append(case('median', I(), {'r': rad}))
    for rg in (-8, -1, 4, 100):
        for sp in (-8, -1, 1, 4):
            out.append(case('bilateral', I((3, False)), {'range': rg, 'rangeq': 2, 'sp': sp, 'spq': 2}))
    s = (4, 3)
    for x in (0, 1, 3, 4, 5, 2 ** 32 - 1):
        for w in (0, 1, 3, 4, 5, 2 ** 32 - 1):
            out.append(case('crop', rimg(r, *s, *r.choice(LAYOUTS)), dict(x=x, y=0, w=w, h=3), 0, ty=r.choice(TYPES)))
            y, h = min(x, 4) if x < 9 else x, min(w, 4) if w < 9 else w
            out.append(case('crop', rimg(r, *s, *r.choice(LAYOUTS)), dict(x=1, y=y, w=2, h=h), 0, ty=r.choice(TYPES)))
    for _ in range(10 * per):
        a = rimg(r, *s, 3, False)
        for b in (rimg(r, 4, 3, 3, False), rimg(r, 3, 4, 3, False), rimg(r, 4, 2, 3, False), rimg(r, 5, 3, 3, False), rimg(r, 4, 3, 3, True), rimg(r, 4, 3, 4, True),
                  rimg(r, 4, 3, 1, False), rimg(r, 2, 6, 3, False)):
            out.append(case('residual', a, {}, 0, b, r.choice(['i16', 'i32', 'f32', 'f64'])))
    for xf in (-16, -1, 0, 1, 8, 16, 20):
        for yf in (-16, -1, 0, 1, 8, 16, 20):
            m = r.choice(['nn', 'bilinear', 'bicubic', 'lanczos'])
            out.append(case('scale', I(), {'xf': xf, 'xfq': 3, 'yf': yf, 'yfq': 3, 'method': m}, 6))
            out.append(case('lanczos', I(), {'xf': xf, 'xfq': 3, 'yf': yf, 'yfq': 3, 'n': r.randint(1, 4)}, 6))
    for n in (1, 2, 3, 4, 5, 7):
        for k in (1, 2, 3, 4, 5, 7):
            im = rimg(r, 6, 5, *r.choice(LAYOUTS))
            out.append(case('kernel1', im, {'ker': kerr(r, k), 'kerq': 0, 'n': n, 'x': 2, 'y': 2, 'v': r.random() < .5, 'pre': []}, 0))
            out.append(case('kernel2', im, {'ker': kerr(r, k * k), 'kerq': 0, 'n': n, 'x': 2, 'y': 2, 'pre': []}, 0))
        out.append(case('kernel2', rimg(r, 6, 5, 1, False), {'ker': kerr(r, n * n + 1), 'kerq': 0, 'n': n, 'x': 2, 'y': 2, 'pre': []}, 0))
    for n in (1, 2, 3, 4, 5):
        for m in sorted({n * n, n * n - 1, n * n + 1, n, 2 * n, n * (n + 1)}):
            for name in ('vecmul', 'vecmulmut', 'vecmuli'):
                out.append(case(name, None, {'mat': kerr(r, m), 'vec': kerr(r, n), 'pre': [0] * n}, 0))
    for sg in (-64, -1, 1, 64):
        out.append(case('gaussfn', None, {'v': 3, 'vq': 2, 'sg': sg, 'sgq': 4}, 15))
    for _ in range(3 * per):
        out += [CAT[n]['f'](r, (4, 3), r.choice(CAT[n]['lays'])) for n in ('translate', 'reflect', 'rotate', 'shear', 'median', 'sharpen', 'unsharp', 'laplacian', 'subimage', 'nbr1', 'nbr2')]
    return out


@prop('C35')
def _(c):
    out = []
    for _ in range(c.n(2, 25)):
        out += invalid_args(c, 2)
    return out


# ------------------------------------------------------------------ numeric helpers
@prop('C36')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(260, 5000)):
        n = r.choice([1, 2, 3, 3, 4, 5])
        m, v = [r.randint(-99, 99) for _ in range(n * n)], [r.randint(-99, 99) for _ in range(n)]
        q1, q2 = r.choice([(0, 0), (0, 0), (2, 1), (3, 3)])
        out.append(case('vecmul', None, {'mat': m, 'matq': q1, 'vec': v, 'vecq': q2}, q1 + q2))
        out.append(case('vecmulmut', None, {'mat': m, 'matq': q1, 'vec': v, 'vecq': q2, 'pre': [r.randint(-50, 50) for _ in range(n)]}, q1 + q2))
        out.append(case('vecmuli', None, {'mat': m, 'vec': v}, 0))
        hi = r.choice([1, 3, 1000])
        for name, k in (('max3', 3), ('min3', 3), ('max4', 4), ('min4', 4)):
            out.append(case(name, None, {'v': [r.randint(-hi, hi) for _ in range(k)]}, 0))
        w = r.choice([1, 2, 3, 7, 640, 65535])
        out.append(case('coords', None, {'k': r.choice([0, w - 1, w, 2 * w - 1, r.randint(0, 100000)]), 'w': w}))
        out.append(case('distance', None, dict(x1=r.randint(0, 60), y1=r.randint(0, 60), x2=r.randint(0, 60), y2=r.randint(0, 60)), 8))
        out.append(case('clampz', None, {'v': r.choice([0, -1, 1, r.randint(-9999, 9999)]), 'vq': 3}, 3))
        out.append(case('table', None, {'m': r.randint(-9, 9), 'b': r.randint(-300, 300)}))
        out.append(case('gaussfn', None, {'v': r.randint(-60, 60), 'vq': r.choice([0, 2, 3]), 'sg': r.randint(1, 60), 'sgq': r.choice([0, 2])}, 15))
        out.append(case('cubic', None, {'v': r.choice([r.randint(-24, 24), r.randint(-40, 40)]), 'vq': 3}, 12))
    for name in ('max3', 'min3'):
        for a in range(3):
            for b in range(3):
                for d in range(3):
                    out.append(case(name, None, {'v': [a, b, d]}, 0))
    for name in ('max4', 'min4'):
        for k in range(81):
            out.append(case(name, None, {'v': [k % 3, k // 3 % 3, k // 9 % 3, k // 27]}, 0))
    for v in range(-28, 29):
        out.append(case('sinc', None, {'v': v, 'vq': 2}, 14))
        for a in range(1, 6):
            out.append(case('lanczosk', None, {'v': v, 'vq': 2, 'a': a}, 14))
    for v in list(range(0, 400, 7)) + [r.randint(0, 32768) for _ in range(120)]:
        out.append(case('labfn', None, {'v': v, 'vq': 15}, 15))
        out.append(case('labinv', None, {'v': min(v, 32768), 'vq': 15}, 15))
    for w in ('D50', 'D65'):
        out.append(case('tristim', None, {'white': w}, 10))
    for n in (1, 3, 5, 7):
        pass
    return out


ASSUME = ['the harness reports the library\'s results unaltered (it uses only the public API and converts samples to integers at a recorded binary scale)',
          'TLC evaluates the specification correctly']


def assumptions(pid):
    extra = {
        'C08': ['out-of-bounds accesses are seen by guard pages directly after or before every buffer and by a pattern around it; in-page accesses before an aligned buffer end are seen for writes only'],
        'C09': ['thread schedules are those the operating system produced with 1, 2, 3 and 8 workers; the interleavings are explored exhaustively on the model only'],
        'C34': ['the file system under the scratch directory works'],
    }
    return ASSUME + extra.get(pid, [])
