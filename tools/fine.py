"""Finer parameters, mixed textures and near-miss pairs for every property (inputs only)."""
from cases import *
import gen

FINE = {}


def fine(*pids):
    def deco(f):
        for p in pids:
            FINE[p] = f
        return f
    return deco


def items(pid, c):
    return FINE[pid](c) if pid in FINE else []


def mixed(r, w, h, c, a, hi=255, lo=0, q=0):
    """Every channel has its own texture; some are flat or repeat along rows or columns."""
    pl = []
    for _ in range(c):
        k = r.choice(['noise', 'flat', 'rows', 'cols', 'period', 'ramp', 'few'])
        v, u = r.randint(lo, hi), r.randint(lo, hi)
        row, col = [r.randint(lo, hi) for _ in range(max(w, 1))], [r.randint(lo, hi) for _ in range(max(h, 1))]
        n = r.choice([2, 3, 4, 5, 7])
        f = {'noise': lambda x, y: r.randint(lo, hi), 'flat': lambda x, y: v, 'rows': lambda x, y: col[y], 'cols': lambda x, y: row[x],
             'period': lambda x, y: row[(x + y) % min(n, len(row))], 'ramp': lambda x, y: lo + (u + 7 * x + 3 * y) % (hi - lo + 1), 'few': lambda x, y: r.choice([u, v])}[k]
        pl.append([f(x, y) for y in range(h) for x in range(w)])
    return img(w, h, c, a, [pl[k][t] for t in range(w * h) for k in range(c)], q)


MIX = {'median', 'trimmed', 'filter1d', 'sep', 'unsep', 'box', 'gauss', 'unsharp', 'sharpen', 'brightness', 'contrast', 'gamma'}
COLS = [(2, True), (3, False), (4, True), (4, False), (5, False)]


@fine('C01')
def _(c):
    r = c.r
    out = []
    # equality of images that differ in one attribute only
    dims = [(2, 3, 1, False), (3, 2, 1, False), (6, 1, 1, False), (1, 6, 1, False), (1, 3, 2, False), (1, 3, 2, True), (3, 1, 2, True), (1, 2, 3, False), (1, 2, 3, True),
            (2, 1, 3, False), (1, 1, 6, False), (1, 1, 6, True), (6, 1, 1, True)]
    for ty in gen.CTYPES:
        d = [r.randint(0, 50) for _ in range(6)]
        new = lambda reg, s, dd=d: dict(op='new', reg=reg, ty=ty, ctor=r.choice(['slice', 'vec', 'vecvec', 'vecvec_rows', 'vecslice']), w=s[0], h=s[1], c=s[2], a=s[3], d=dd)
        for s in dims:
            calls = [dict(op='reset', reg='a'), new('a', s)]
            for t in dims:
                calls += [new('b', t), dict(op='eq', reg='a', **{'from': 'b'})]
            k = r.randrange(6)
            calls += [new('b', s, d[:k] + [d[k] + 1] + d[k + 1:]), dict(op='eq', reg='a', **{'from': 'b'}), dict(op='eq', reg='b', **{'from': 'a'}), dict(op='info', reg='a')]
            out.append({'s': 'C', 'calls': calls})
    # more samples than fit in 16 bits
    for w, h, ch, a in ([r.choice([(300, 220, 1, False), (150, 150, 3, False)]), (22000, 1, 3, False), (1, 33000, 2, True)] if c.tier == 'quick' else [(300, 220, 1, False), (150, 150, 3, False), (70, 1000, 1, False), (66000, 1, 1, False), (1, 66000, 1, False), (40000, 1, 2, True)]):
        e = dict(op='new', reg='a', ty=r.choice(['u8', 'u16', 'f32']), ctor='blank', w=w, h=h, c=ch, a=a, d=[])
        calls = [dict(op='reset', reg='a'), e]
        n = w * h
        for k in range(c.n(1, 3)):
            t = r.choice([n - 1, n - 1 - r.randrange(500), 65536 // ch + r.randrange(50)])
            px = [r.randint(51, 120) for _ in range(ch)]
            if h > 1 and w > 1 and r.random() < .4:      # (x, y) addresses a long row or column
                calls.append(dict(op='put', reg='a', how='set_idx', x=t, y=0, px=px))
            else:
                calls.append(dict(op='put', reg='a', how='xy', x=t % w, y=t // w, px=px))
            calls += [dict(op='get', reg='a', how='xy', x=t % w, y=t // w), dict(op='get', reg='a', how='idx', x=t, y=0)]
            if t * ch - 65536 >= 0:
                u = (t * ch - 65536) // ch
                calls.append(dict(op='get', reg='a', how='idx', x=u, y=0))
        calls[0]['cost'] = 300000
        out.append({'s': 'C', 'calls': calls})
    return out


@fine('C04')
def _(c):
    r = c.r
    out = []
    for how in MAPS:
        for s in [(1, 1), (3, 2), (1, 5), (5, 1), (0, 3)]:
            for l in [(1, True), (1, True), (3, True), (4, False), (6, True)]:
                x = CAT['map']['f'](r, s, l)
                x['p']['how'] = how
                x['p']['extra'] = 0
                if l[0] == 1 and how in ('map_pixels_if_alpha', 'apply_pixels_if_alpha'):
                    continue                     # no colour channel to hand over
                out.append(x)
    return out


@fine('C05')
def _(c):
    r = c.r
    out = []
    for name in ('sep', 'unsep', 'gauss', 'median', 'sobel', 'crop', 'overlay', 'residual', 'superimpose', 'shear', 'rotate', 'scale'):
        for s in [(2, 255), (255, 2), (256, 1), (1, 256), (1, 257)]:
            l = r.choice(CAT[name]['lays'])
            x = CAT[name]['f'](r, s, l)
            if name == 'scale' and gen.sdim(s[0], x['p']['xf'], x['p']['xfq']) * gen.sdim(s[1], x['p']['yf'], x['p']['yfq']) > 4000:
                continue
            out.append(x)
    for _ in range(c.n(60, 600)):
        q = r.choice([5, 6, 8])
        xf, yf = r.randint(0, 2 << q), r.randint(0, 2 << q)
        out.append(case('scale', rimg(r, *r.choice(SMALL + [(17, 9)]), *r.choice(LAYOUTS)), {'xf': xf, 'xfq': q, 'yf': yf, 'yfq': q, 'method': 'nn'}, 0))
        d = r.randint(1, 359 * 4)
        out.append(case('rotate', rimg(r, *r.choice(SMALL), *r.choice(LAYOUTS)), {'deg': d, 'degq': 2}, 0))
        k = r.randint(-300, 300), r.randint(-300, 300)
        out.append(case('shear', rimg(r, *r.choice(SMALL), *r.choice(LAYOUTS)), {'sx': k[0], 'sxq': 7, 'sy': k[1] if r.random() < .5 else 0, 'syq': 7}, 0))
    return out


@fine('C09')
def _(c):
    r = c.r
    out = []
    for name in sorted(CAT):
        t = CAT[name]
        if name in ('deint', 'map') or t['group'] == 'vec':
            continue
        for s in [(37, 3), (3, 37), (16, 16)]:
            if name in ('bilateral', 'trimmed', 'median') and s[0] * s[1] > 200:
                s = (12, 9)
            x = t['f'](r, s, r.choice(t['lays']))
            if name in MIX:
                x['in'] = mixed(r, s[0], s[1], x['in']['c'], x['in']['a'])
            out.append(x)
    return [x for x in out if x['op'] != 'scale' or gen.sdim(x['in']['w'], x['p']['xf'], x['p']['xfq']) * gen.sdim(x['in']['h'], x['p']['yf'], x['p']['yfq']) < 3000]


@fine('C07')
def _(c):
    r = c.r
    return [case('brightness', mixed(r, *r.choice(SMALL + WIDE), *r.choice(COLS)), {'b': bias(r)}) for _ in range(c.n(60, 600))]


@fine('C10')
def _(c):
    r = c.r
    return [case('gray', mixed(r, *r.choice([s for s in SMALL + WIDE if s[0] * s[1]]), *r.choice(COLOUR)), {}) for _ in range(c.n(60, 600))]


@fine('C12')
def _(c):
    r = c.r
    return [case('saturation', mixed(r, *r.choice(SMALL + WIDE), *r.choice(COLOUR)), {'s': bias(r)}) for _ in range(c.n(40, 400))]


@fine('C14')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(14, 200)):
        q = r.choice([10, 12, 16])
        out.append(case('contrast', gen.ramp256(*r.choice(ANYC)), {'g': r.choice([r.randint(0, 1 << q), (1 << q) - 1, 1, (1 << q) - r.randint(1, 40)]), 'gq': q, 'mono': True}))
    for _ in range(c.n(80, 900)):
        q = r.choice([10, 12, 16])
        out.append(case('contrast', mixed(r, *r.choice(SMALL + WIDE), *r.choice(COLS)), {'g': r.choice([r.randint(0, 1 << q), (1 << q) - 1]), 'gq': q, 'mono': False}))
        out.append(case('gamma', mixed(r, *r.choice(SMALL + WIDE), *r.choice(COLS)), {'e': r.choice([16, 8, 32, r.randint(1, 64)]), 'eq': 4, 'm': r.choice([255, r.randint(1, 255)]), 'mono': False}))
    return out


@fine('C15')
def _(c):
    r = c.r
    out = []
    gray = img(256, 1, 3, False, [v for k in range(256) for v in (k, k, k)])
    for q in (10, 12):
        g = r.randint(0, 1 << q)
        out.append({'pair': (case('contrast_lab', gray, {'g': g, 'gq': q, 'ramp': True, 'pair': True}), case('contrast_lab', gray, {'g': r.randint(g, 1 << q), 'gq': q}))})
    for _ in range(c.n(40, 500)):
        q = r.choice([10, 12])
        im = gen.cimg(r, 20, r.random() < .35, r.choice([20, 5, 1]))
        out.append(case('contrast_lab', im, {'g': r.choice([r.randint(0, 1 << q), (1 << q) - 1, r.randint(3 << q >> 2, 1 << q)]), 'gq': q, 'ramp': False, 'pair': False}))
        s = r.choice([(5, 4), (20, 1), (7, 3)])
        out.append(case('brightness_lab', mixed(r, *s, *r.choice(COLOUR), hi=200, lo=60), {'b': r.choice([0, r.randint(-60, 60)]), 'ramp': False, 'pair': False}))
    return out


@fine('C16')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(60, 900)):               # a map that already holds entries
        n = r.choice([1, 2, 5, 17, 40])
        pool = [r.randint(0, 1600) for _ in range(r.choice([1, 3, 8]))]
        pr = r.choice([1, 2, 4, 10])
        d = [r.choice(pool) for _ in range(n)]
        pre = sorted(set([(2 * v * pr + 16) // 32 for v in r.sample(pool, r.randint(0, len(pool)))] + [r.randint(-5, 100 * pr) for _ in range(3)]))
        out.append(case('hist', img(n, 1, 1, False, d, 4), {'prec': pr, 'precq': 0, 'pre': pre}, 15))
    for _ in range(c.n(60, 900)):
        n = r.choice([2, 3, 6, 12])
        v = [r.randint(20, 235) for _ in range(n)]
        im = img(n, 1, 3, False, [max(0, min(255, u + r.randint(-18, 18) * (n % 2))) for u in v for _ in range(3)])
        out.append(case('histeq', im, {'al': r.randint(0, 256), 'alq': 8, 'white': white(r), 'prec': r.choice([1, 2, 5, 20]), 'precq': 0}))
    return out


@fine('C17')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(60, 900)):
        l = r.choice(COLS)
        s = r.choice([s for s in SMALL if s[0] * s[1]] + [(9, 2), (2, 9), (1, 11)])
        im = mixed(r, *s, *l)
        # kernels that are almost symmetric, almost constant or zero but for a few taps
        n = r.choice([3, 5, 7, 9])

        def k1():
            h = [r.randint(-4, 4) for _ in range(n // 2 + 1)]
            k = h + h[:-1][::-1] if r.random() < .6 else [r.randint(1, 3)] * n
            if r.random() < .6:
                t = r.randrange(n)
                k = k[:t] + [k[t] + r.choice([-1, 1])] + k[t + 1:]
            return k
        out.append(case('filter1d', im, {'ker': k1(), 'kerq': 0, 'v': r.random() < .5}, 0))
        out.append(case('sep', im, {'vk': k1(), 'vkq': 0, 'hk': k1(), 'hkq': 0}, 0))
        n = r.choice([3, 5])
        k = [a * b for a in k1() for b in k1()]
        if r.random() < .5:
            k[r.randrange(n * n)] += r.choice([-1, 1])
        out.append(case('unsep', im, {'ker': k, 'kerq': 0}, 0))
    return out


@fine('C19')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(25, 300)):
        im = mixed(r, *r.choice([s for s in SMALL if s[0] * s[1]]), *r.choice(COLS))
        out += [case('box', im, {'n': r.choice([1, 3, 5, 7])}, 8), case('wavg', im, {'n': r.choice([3, 5]), 'wt': r.choice([1, 2, 3, 9, 250, 1000])}, 8),
                case('gauss', im, {'n': r.choice([3, 5]), 'sg': r.randint(4, 48), 'sgq': 4}, 4)]
    return out


@fine('C22')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(110, 1500)):
        s = r.choice([(5, 5), (9, 4), (4, 9), (12, 3), (3, 12), (1, 15), (15, 1), (7, 7), (20, 2), (2, 20)])
        out.append(case('median', mixed(r, *s, *r.choice(COLS), hi=r.choice([255, 255, 3, 40])), {'r': r.choice([1, 1, 2, 3])}))
    return out


@fine('C23')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(110, 1500)):
        s = r.choice([(5, 5), (9, 4), (4, 9), (12, 3), (3, 12), (1, 15), (15, 1), (7, 7)])
        rad = r.choice([1, 1, 2])
        n = (2 * rad + 1) ** 2
        out.append(case('trimmed', mixed(r, *s, *r.choice(COLS), hi=r.choice([255, 255, 3, 40])), {'r': rad, 'al': r.choice([0, 2, n - 1, 2 * r.randint(0, (n - 1) // 2)])}))
    return out


@fine('C24')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(6, 60)):                     # steps seen in one channel only
        s = r.choice([(7, 5), (5, 7), (6, 6)])
        im = mixed(r, *s, 3, False)
        p = {'range': r.choice([20, 60, 400]), 'rangeq': 2, 'sp': r.choice([1, 2, 3]), 'spq': 2, 'gray': False, 'exact': True, 'sym': 'none'}
        out.append(case('bilateral', im, p))
    return out


@fine('C25')
def _(c):
    r = c.r
    out = []
    for s, rad in [((300, 1), 256), ((1, 300), 256), ((300, 1), 257), ((2, 260), 255), ((520, 1), 256), ((1, 520), 300), ((260, 2), 259)][::c.n(2, 1)]:
        n = s[0] * s[1]
        d = [0] * n
        for _ in range(r.choice([1, 2])):
            d[r.choice([0, n - 1, r.randrange(n)])] = 255
        out.append(case('dilate', img(*s, 1, False, d), {'r': rad}, cost=n * 600))
    for op in ('erode', 'majority', 'gradient', 'dilate'):
        n = 40
        out.append(case(op, img(n, 1, 1, False, [255] * n), {'r': r.choice([255, 256, 257, 300])}))
        out.append(case(op, gen.binary(r, 1, n, (2, True)), {'r': r.choice([128, 200, 256, 512])}))
    return out


@fine('C26')
def _(c):
    r = c.r
    out = []
    for op in ('open', 'close', 'open2', 'close2'):
        for _ in range(c.n(6, 40)):             # structures that touch the border
            s = r.choice([(7, 5), (5, 8), (9, 9), (12, 3)])
            im = gen.binary(r, *s, (1, False), r.choice([.85, .95, 1.0]))
            out.append(case(op, im, {'r': r.choice([1, 1, 2]), 'pair': False}))
    return out


@fine('C29')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(120, 1500)):
        s = r.choice(SMALL)
        l = r.choice(ANYC)
        f = (r.randint(0, s[0] + 2), r.randint(0, s[1] + 2))
        q = r.choice([6, 8, 10, 12, 14, 16])
        out.append(case('superimpose', rimg(r, *s, *l), {'x': r.randint(0, s[0]), 'y': r.randint(0, s[1]), 'wt': r.choice([1, (1 << q) - 1, r.randint(0, 1 << q)]), 'wtq': q}, q, rimg(r, *f, *l)))
    return out


@fine('C30')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(130, 1500)):
        s = r.choice(SMALL + [(9, 7), (12, 4), (4, 12)])
        l = r.choice([(1, False), (2, True), (3, False)])
        qx, qy = r.choice([5, 6, 8]), r.choice([0, 0, 5, 8])
        xf, yf = r.randint(1, 2 << qx), r.randint(1, 2 << qy)
        if r.random() < .5:                         # next to one
            xf = (1 << qx) + r.choice([-2, -1, 1, 2])
        if r.random() < .4:
            yf, qy = 1, 0
        if r.random() < .5:
            xf, qx, yf, qy = yf, qy, xf, qx
        p = lambda m, **k: dict({'xf': xf, 'xfq': qx, 'yf': yf, 'yfq': qy, 'method': m}, **k)
        n = gen.sdim(s[0], xf, qx) * gen.sdim(s[1], yf, qy)
        if n > 300:
            continue
        out.append(case('scale', mixed(r, *s, *l), p('nn'), 0))
        if n and xf * yf < 30000:
            out.append(case('scale', mixed(r, *s, *l), p('bilinear'), 8))
    # one dimension at a fraction, the other whole
    for s in [(6, 5), (4, 4), (8, 3)]:
        for a, b in [((3, 1), (1, 0)), ((1, 0), (3, 1)), ((3, 1), (2, 0)), ((2, 0), (3, 1)), ((3, 2), (1, 0)), ((1, 0), (3, 2)), ((3, 2), (2, 0))]:
            for m, oq in (('bilinear', 8), ('bicubic', 6), ('lanczos', 8)):
                out.append(case('scale', rimg(r, *s, *r.choice([(1, False), (2, True)]), kind='noise'), {'xf': a[0], 'xfq': a[1], 'yf': b[0], 'yfq': b[1], 'method': m}, oq))
            out.append(case('lanczos', rimg(r, *s, 1, False, kind='noise'), {'xf': a[0], 'xfq': a[1], 'yf': b[0], 'yfq': b[1], 'method': 'lanczos', 'n': r.randint(1, 5)}, 8))
    return out


@fine('C31')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(90, 1200)):
        s = r.choice([(1, 1), (4, 1), (2, 2), (3, 3), (5, 5), (8, 8), (6, 3), (3, 7), (9, 4), (2, 9), (11, 6)])
        l = r.choice([(1, False), (2, True), (3, False)])
        d = r.choice([r.randint(1, 1439), 90 * 4 * r.randint(0, 4) + r.choice([-3, -2, -1, 1, 2, 3]), 4 * 45 * r.choice([1, 3, 5, 7]) + r.choice([-1, 1])])
        if not 0 <= d <= 1440:
            continue
        n = s[0] * s[1]
        out.append(case('rotate', img(*s, *l, [4 * t + k + 1 for t in range(n) for k in range(l[0])]), {'deg': d, 'degq': 2}, 0))
    return out


@fine('C32')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(150, 2000)):
        s = r.choice(SMALL + [(4, 7), (7, 3), (1, 9), (12, 5)])
        l = r.choice([(1, False), (2, True), (3, False)])
        n = s[0] * s[1] * l[0]
        q = r.choice([5, 6, 8, 10])
        sx, sy = r.choice([(r.randint(-2 << q, 2 << q), 0), (0, r.randint(-2 << q, 2 << q)), (r.randint(-1 << q, 1 << q), r.randint(-1 << q, 1 << q))])
        if r.random() < .3 and sx:
            sx = r.choice([-1, 1]) * ((1 << q) + r.choice([-1, 1]))
        out.append(case('shear', img(*s, *l, [1 + (37 * t) % 251 for t in range(n)]), {'sx': sx, 'sxq': q, 'sy': sy, 'syq': q}, 0))
    return out


@fine('C34')
def _(c):
    r = c.r
    out = []
    for p in gen.FPATHS:                            # a slightly different image over an existing file
        for l in gen.LOSSLESS[gen.fext(p)]:
            s = r.choice([(3, 2), (4, 4), (5, 3), (2, 6)])
            im = rimg(r, *s, *l, kind='noise')
            n = len(im['d'])
            e = dict(path=p, ext='img', nodir=False, kind='', **{'from': ''})
            calls = [dict(op='reset', path='-'), dict(e, op='write', **{'in': im}), dict(e, op='read')]
            for k in [n - 1, n - l[0], s[0] * l[0], r.randrange(n), 0]:
                d = list(im['d'])
                d[k] = (d[k] + r.choice([1, 128, 255])) % 256
                im = dict(im, d=d)
                calls += [dict(e, op='write', **{'in': im}), dict(e, op='read')]
            out.append({'s': 'F', 'calls': calls})
    for p in ('o o.png', 'p.v2.png', 'q.jpg.png', 'r.bmp.png', 'r.png.bmp', 's#%&.tiff', '.t.png', ' u.PNG', 'v.v.tga', 'w' * 100 + '.png', 'x.1.2.ppm'):    # unusual names
        calls = [dict(op='reset', path='-')]
        for l in r.choices(gen.LOSSLESS[gen.fext(p)], k=3):
            e = dict(path=p, ext='img', nodir=False, kind='', **{'from': ''})
            calls += [dict(e, op='write', **{'in': rimg(r, *r.choice([(3, 2), (1, 1), (5, 4)]), *l)}), dict(e, op='read')]
        other = r.choice([x for x in gen.FPATHS if gen.fext(x) == gen.fext(p)])
        calls += [dict(e, op='write', path=other, **{'in': rimg(r, 4, 3, *l)}), dict(e, op='read'), dict(e, op='read', path=other), dict(e, op='del'), dict(e, op='read')]
        out.append({'s': 'F', 'calls': calls})
    for ext, l in (('png', (1, False)), ('bmp', (3, False)), ('tiff', (1, False)), ('png', (4, True))):    # past 16 bits
        p = r.choice([x for x in gen.FPATHS if gen.fext(x) == ext])
        e = dict(path=p, ext='img', nodir=False, kind='', **{'from': ''})
        n = r.randint(65536, 65600) if l[0] == 1 else r.choice([16385, 32768, 32769, 40000])
        im = rimg(r, *r.choice([(n, 1), (1, n)]), *l, kind='noise')
        out.append({'s': 'F', 'calls': [dict(op='reset', path='-'), dict(e, op='write', **{'in': im}), dict(e, op='read')]})
    return out


@fine('C35')
def _(c):
    r = c.r
    out = []
    I = lambda: rimg(r, *r.choice([(3, 2), (4, 3)]), *r.choice(LAYOUTS))
    for n in (35, 37, 47, 48, 50, 51, 63, 65, 79, 80, 82, 83, 99, 119, 120, 121, 122, 123, 143, 169, 225, 287, 289, 291, 323, 625, 899, 959, 961, 963):
        out.append(case('unsep', rimg(r, 2, 2, 1, False), {'ker': kerr(r, n), 'kerq': 0}, 0))
        if n < 130:
            out.append(case('linear', rimg(r, 2, 2, 1, False), {'ker': kerr(r, n), 'kerq': 0, 'tol': 0}, 6))
    for n in (2599, 2601, 2603):
        out.append(case('unsep', rimg(r, 1, 1, 1, False), {'ker': [1] * n, 'kerq': 0}, 0))
    for n in (0,):
        out += [case('filter1d', I(), {'ker': [], 'kerq': 0, 'v': True}, 0), case('unsep', I(), {'ker': [], 'kerq': 0}, 0), case('linear', I(), {'ker': [], 'kerq': 0, 'tol': 0}, 6),
                case('sep', I(), {'vk': [], 'vkq': 0, 'hk': [], 'hkq': 0}, 0), case('sep', I(), {'vk': [1], 'vkq': 0, 'hk': [], 'hkq': 0}, 0)]
    for n in (11, 12, 13, 100, 101, 255, 256, 257):
        out += [case('filter1d', I(), {'ker': kerr(r, n), 'kerq': 0, 'v': r.random() < .5}, 0), case('sep', I(), {'vk': kerr(r, n), 'vkq': 0, 'hk': kerr(r, n + r.choice([0, 0, 1, 2, -2])), 'hkq': 0}, 0)]
    for q in (10, 14):
        for v in (-1, 0, 1, (1 << q) - 1, 1 << q, (1 << q) + 1):
            out += [case('contrast', I(), {'g': v, 'gq': q}), case('contrast_lab', rimg(r, 3, 2, *r.choice(COLOUR)), {'g': v, 'gq': q}),
                    case('superimpose', rimg(r, 2, 2, 3, False), {'x': 0, 'y': 0, 'wt': v, 'wtq': q}, 8, rimg(r, 2, 2, 3, False)),
                    case('histeq', rimg(r, 3, 2, *r.choice(COLOUR)), {'al': v, 'alq': q, 'white': white(r), 'prec': 4, 'precq': 0})]
    for w, h in ((1100, 2), (2, 1100), (70, 70)):       # empty parts of larger images
        im = rimg(r, w, h, 1, False)
        for cw, ch in ((w, 0), (0, h), (0, 0), (w - 50 if w > 50 else w, 0), (0, h - 50 if h > 50 else h)):
            out.append(case('crop', im, dict(x=r.randint(0, w - cw), y=r.randint(0, h - ch), w=cw, h=ch), 0, ty='u8'))
    return out


@fine('C36')
def _(c):
    r = c.r
    out = []
    for v in list(range(-12, 13)) + [r.randint(-1900, 1900) for _ in range(c.n(60, 900))]:
        out.append(case('sinc', None, {'v': v, 'vq': r.choice([8, 8, 10])}, 14))
        out.append(case('lanczosk', None, {'v': v, 'vq': 8, 'a': r.randint(1, 5)}, 14))
    for _ in range(c.n(60, 900)):
        q = r.choice([4, 5, 6])
        out.append(case('cubic', None, {'v': r.randint(-3 << q, 3 << q), 'vq': q}, 8))
        out.append(case('cubic', None, {'v': r.choice([-1, 1]) * ((2 << 5) - r.randint(-2, 16)), 'vq': 5}, 18))   # where it fades out
        big = r.choice([1, 100, 1000, 40000])
        z = [r.randint(-big, big)] * 4
        z[r.randrange(4)] += r.choice([-1, 1])
        out += [case('max4', None, {'v': z}, 0), case('min4', None, {'v': z}, 0), case('max3', None, {'v': z[:3]}, 0), case('min3', None, {'v': z[:3]}, 0)]
    return out
