"""Larger images, windows and kernels for every property (inputs only): sizes that cross 8- and 16-bit counts,
vector blocks and cache-line sized rows, which the small images of gen.py cannot reach."""
from cases import *
import gen

LONG = [(300, 1), (1, 300), (260, 2), (2, 260), (130, 3), (3, 130), (67, 5), (5, 67)]
SQUARE = [(33, 17), (17, 33), (40, 25), (20, 64)]
BIG = {}


def big(*pids):
    def deco(f):
        for p in pids:
            BIG[p] = f
        return f
    return deco


def items(pid, c):
    return BIG[pid](c) if pid in BIG else []


def shapes(c, n, sq=2, pool=LONG):
    """n long shapes and sq square ones, a different selection for every call."""
    r = c.r
    k = c.n(1, 6)
    return [r.choice(pool) for _ in range(n * k)] + [r.choice(SQUARE) for _ in range(sq * k)]


def at(im, x, y):
    return im['d'][(y * im['w'] + x) * im['c']:(y * im['w'] + x + 1) * im['c']]


@big('C01')
def _(c):
    r = c.r
    out = []
    for s in LONG + SQUARE + [(257, 5), (5, 257), (400, 3), (1, 1100), (1100, 1)]:
        for ctor in ('slice', 'vec', 'vecvec', 'vecvec_rows', 'vecslice', 'blank'):
            if c.tier == 'quick' and r.random() < .5:
                continue
            e = gen.new_reg(r, 'a', r.choice(gen.CTYPES), s, ctor)
            calls = [dict(op='reset', reg='a'), e, dict(op='info', reg='a')]
            w, h = s
            pts = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (w, 0), (0, h), (w // 2, h // 2)]
            pts += [(x, y) for x in (15, 16, 31, 63, 127, 128, 255, 256, 257) for y in (0, h - 1) if x < w]
            pts += [(x, y) for y in (15, 16, 31, 63, 127, 128, 255, 256, 257) for x in (0, w - 1) if y < h]
            r.shuffle(pts)
            for x, y in pts[:16]:
                k = r.random()
                if k < .3 and x < w and y < h:
                    calls.append(dict(op='put', reg='a', how=r.choice(['xy', 'mut', 'mut_un']), x=x, y=y, px=[r.randint(51, 120) for _ in range(e['c'])]))
                elif k < .4 and x < w and y < h:
                    calls.append(dict(op='put', reg='a', how=r.choice(['set_idx', 'idx']), x=y * w + x, y=0, px=[r.randint(51, 120) for _ in range(e['c'])]))
                elif k < .5:
                    calls.append(dict(op='index', reg='a', x=x, y=y))
                elif k < .65 and x < w and y < h:
                    calls.append(dict(op='get', reg='a', how=r.choice(['idx', 'idx_mut', 'data']), x=y * w + x, y=0))
                else:
                    calls.append(dict(op='get', reg='a', how=r.choice(['xy', 'mut']), x=x, y=y))
            if r.random() < .5:
                calls.append(dict(op='edit', reg='a', k=r.randrange(e['c']), val=r.randint(0, 3)))
            calls += [dict(op='clone', reg='b', **{'from': 'a'}), dict(op='eq', reg='a', **{'from': 'b'}),
                      dict(op='put', reg='b', how='xy', x=w - 1, y=h - 1, px=[121] * e['c']), dict(op='eq', reg='a', **{'from': 'b'}),
                      dict(op='get', reg='a', how='xy', x=w - 1, y=h - 1), dict(op='info', reg='a')]
            out.append({'s': 'C', 'calls': calls})
    return out


@big('C03')
def _(c):
    r = c.r
    out = []
    for s in [(20, 3), (3, 20), (1, 70), (70, 1), (17, 17), (2, 33)] * c.n(1, 6) + ([(300, 1), (1, 300)] if c.tier != 'quick' else []):
        e = gen.new_reg(r, 'a', r.choice(gen.CTYPES), s)
        calls = [dict(op='reset', reg='a'), e]
        for stop in (s[0] * s[1] + 2, r.randint(0, s[0] * s[1])):
            calls.append(dict(op='iter', reg='a', how=r.choice(['new', 'into'])))
            for k in range(stop):
                calls.append(dict(op='next', reg='a') if r.random() < .97 else dict(op='nth', reg='a', k=r.randint(0, 5)))
                if r.random() < .02:
                    calls.append(dict(op='drain', reg='a', how=r.choice(['fold', 'for', 'step'])))
            calls.append(dict(op='drain', reg='a', how=r.choice(['fold', 'for', 'step'])))
        out.append({'s': 'C', 'calls': calls})
    for s in [(260, 3), (3, 260), (65, 33)]:
        e = gen.new_reg(r, 'a', 'u16', s)
        calls = [dict(op='reset', reg='a'), e]
        for how in ('new', 'into'):
            calls += [dict(op='iter', reg='a', how=how), dict(op='next', reg='a'), dict(op='nth', reg='a', k=r.randrange(s[0] * s[1])), dict(op='tail', reg='a'),
                      dict(op='drain', reg='a', how=r.choice(['fold', 'for', 'step']))]
        out.append({'s': 'C', 'calls': calls})
    return out


@big('C02')
def _(c):
    r = c.r
    out = []
    for s in (LONG + SQUARE) * c.n(4, 30):
        l = r.choice([(1, False), (2, True), (3, False)])
        im = distinct(r, *s, *l, 20000)
        ty = r.choice(['u16', 'u32', 'i32', 'f32', 'f64'])
        e = lambda n: r.choice([0, n - 1, r.randrange(n), min(n - 1, 256), min(n - 1, 255)])
        x, y = e(s[0]), e(s[1])
        w, h = r.choice([1, s[0] - x, r.randint(0, s[0] - x)]), r.choice([1, s[1] - y, r.randint(0, s[1] - y)])
        out.append(case('subimage', im, dict(x=x, y=y, w=w, h=h), ty=ty))
        out.append(case('nbr1', im, dict(x=x, y=y, n=r.choice([r.randint(0, 40), 65, 255, 257, 301]), v=r.random() < .5), ty=ty))
        out.append(case('nbr2', im, dict(x=x, y=y, n=r.choice([r.randint(0, 20), 25])), ty=ty))
    return out


@big('C04')
def _(c):
    r = c.r
    out = []
    for how in MAPS:
        for s in shapes(c, 5, 2):
            l = r.choice(ANYC)
            if s[0] * s[1] * l[0] > 4500:
                l = (1, False)
            x = CAT['map']['f'](r, s, l)
            if x['ty'] == 'u8' or x['ty'] == 'i16':
                x['ty'] = 'i32'
            x['p']['how'] = how
            if how.startswith('map_pixels'):
                nf = l[0] - 1 if l[1] and how.endswith('alpha') else l[0]
                x['p']['extra'] = max(r.choice([0, 0, 1, -1]), 1 - nf)
            else:
                x['p']['extra'] = 0
            out.append(x)
    return out


@big('C05', 'C09')
def _(c):
    r = c.r
    out = []
    for name in sorted(CAT):
        t = CAT[name]
        if name in ('deint',) or t['group'] == 'vec':
            continue
        ss = shapes(c, 2, 1)
        for s in ss:
            if name in ('bilateral', 'trimmed', 'median') and s[0] * s[1] > 400:
                s = (s[0], 1)
            l = r.choice(t['lays'])
            if name == 'map':
                l = (1, False)
            out.append(t['f'](r, s, l))
    for s in [(256, 256), (300, 220)][:c.n(1, 2)]:          # more than 65535 pixels
        for name in ('threshold', 'brightness', 'gray', 'reflect', 'sat') + (('sobel', 'dilate', 'median', 'sharpen') if c.tier != 'quick' else ()):
            out.append(CAT[name]['f'](r, s, CAT[name]['lays'][0]))
    return [x for x in out if x['op'] != 'scale' or gen.sdim(x['in']['w'], x['p']['xf'], x['p']['xfq']) * gen.sdim(x['in']['h'], x['p']['yf'], x['p']['yfq']) < 4000]


@big('C06')
def _(c):
    r = c.r
    out = []
    for name in gen.ALPHA_OPS:
        t = CAT[name]
        lays = [l for l in t['lays'] if l in ((2, True), (4, True))]
        for s in shapes(c, 1, 1):
            x = gen.alpha_pair(r, t['f'](r, s, r.choice(lays)))
            if name == 'unhsvf':
                k = x['in']['c']
                v = [r.randint(0, 128) if i % k == k - 1 else q for i, q in enumerate(x['in']['d'])]
                x['in']['d'] = v
                y = dict(x, **{'in': dict(x['in'], d=[r.randint(0, 128) if i % k == k - 1 else q for i, q in enumerate(v)])})
            else:
                y = gen.alpha_pair(r, x)
            out.append({'pair': (x, y)})
    return out


@big('C07')
def _(c):
    r = c.r
    return [case('brightness', rimg(r, *s, *r.choice(ANYC)), {'b': bias(r)}) for s in LONG + shapes(c, 6, 6) + [(256, 64), (1025, 3), (3, 1025)] + ([(300, 220)] * 3 if c.tier != 'quick' else [])]


@big('C08')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 4, 2) + [(513, 1), (1025, 1), (2049, 1), (4099, 1)]:
        for name in ('adds', 'addsn', 'avg', 'avg3', 'avg4'):
            out.append(CAT[name]['f'](r, s, r.choice(CAT[name]['lays'])))
    return out


@big('C10')
def _(c):
    r = c.r
    out = [case('gray', rimg(r, *s, *r.choice(COLOUR)), {}) for s in LONG + shapes(c, 6, 6) + [(256, 64), (1025, 3)]]
    return out + [case('gray_f32', rimg(r, *s, *r.choice(COLOUR), hi=1020, q=2), {}, 8) for s in shapes(c, 4, 2)]


def cbig(r, s, a=None):
    return gen.cimg(r, s[0] * s[1], r.random() < .3 if a is None else a, s[0])


@big('C11')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 4, 2):
        out += [case('hsv', cbig(r, s)), case('rt_hsv', cbig(r, s)), case('hsvf', cbig(r, s, False), oq=16), case('rt_hsvf', cbig(r, s, False)),
                case('unhsv', rimg(r, *s, *r.choice(COLOUR))), case('unhsvf', rimg(r, *s, 3, False, hi=128, q=7))]
    return out


@big('C12')
def _(c):
    r = c.r
    return [case('saturation', cbig(r, s), {'s': bias(r)}) for s in LONG + shapes(c, 4, 4) + [(1025, 1), (128, 64)]]


@big('C13')
def _(c):
    r = c.r
    out = []
    W = ['D50', 'D65']
    for s in shapes(c, 3, 1):
        l = r.choice(COLOUR)
        w = r.choice(W)
        out += [case('rt_lin', cbig(r, s)), case('rt_xyz', cbig(r, s)), case('rt_lab', cbig(r, s), {'white': w}), case('lin', cbig(r, s), {'ramp': False}, 15),
                case('unlin', rimg(r, *s, *r.choice(LAYOUTS), hi=32768, q=15, kind='noise'), {'ramp': False}, 0)]
    for s in shapes(c, 1, 0):
        out += [case('srgb2xyz', cbig(r, s), {}, 15), case('srgb2lab', cbig(r, s), {'white': r.choice(W), 'ramp': False}, 12)]
    return out


@big('C14')
def _(c):
    r = c.r
    out = []
    for s in LONG + shapes(c, 3, 3):
        out.append(case('contrast', rimg(r, *s, *r.choice(ANYC)), {'g': r.choice([0, 256, 128, r.randint(0, 256)]), 'gq': 8, 'mono': False}))
        out.append(case('gamma', rimg(r, *s, *r.choice(ANYC)), {'e': r.choice([16, 8, 32, r.randint(1, 64)]), 'eq': 4, 'm': r.choice([255, r.randint(1, 255)]), 'mono': False}))
    return out


@big('C15')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 2, 1):
        out.append(case('brightness_lab', cbig(r, s), {'b': r.choice([0, r.randint(-60, 60)]), 'ramp': False, 'pair': False}))
        out.append(case('contrast_lab', cbig(r, s), {'g': gen.gain(r), 'gq': 8, 'ramp': False, 'pair': False}))
    return out


@big('C16')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 5, 3):
        l = r.choice([(1, False), (3, False), (4, True), (2, True)])
        pool = [r.randint(0, 1600) for _ in range(r.choice([1, 2, 5, 20]))]
        d = []
        for _ in range(s[0] * s[1]):
            d += [r.choice(pool)] + [r.randint(-100, 1600) for _ in range(l[0] - 1)]
        out.append(case('hist', img(*s, *l, d, 4), {'prec': r.choice([1, 2, 10, 255]), 'precq': 0}, 15))
    for s in shapes(c, 1, 0):
        pal = [[r.randint(0, 255) for _ in range(3)] for _ in range(12)]
        out.append(case('histeq', img(*s, 3, False, [v for _ in range(s[0] * s[1]) for v in r.choice(pal)]), {'al': r.choice([8, 16]), 'alq': 4, 'white': white(r), 'prec': r.choice([1, 5]), 'precq': 0}, cost=60000))
    return out


@big('C17')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 8, 4):
        im = rimg(r, *s, *r.choice([(1, False), (1, False), (2, True), (3, False)]))
        n = r.choice([3, 5, 9, 11, 15])
        out.append(case('filter1d', im, {'ker': kerr(r, n), 'kerq': 0, 'v': r.random() < .5}, 0))
        n = r.choice([3, 5, 7])
        out.append(case('sep', im, {'vk': kerr(r, n), 'vkq': 0, 'hk': kerr(r, n), 'hkq': 0}, 0))
        out.append(case('unsep', im, {'ker': kerr(r, 9), 'kerq': 0}, 0))
    for s in [(9, 4), (4, 9), (13, 13), (1, 20), (20, 1)] * c.n(2, 10):
        im = rimg(r, *s, *r.choice([(1, False), (2, True)]))
        n = r.choice([11, 13, 15, 17, 21, 31])
        out.append(case('filter1d', im, {'ker': kerr(r, n), 'kerq': 0, 'v': r.random() < .5}, 0))
        out.append(case('sep', im, {'vk': kerr(r, n), 'vkq': 0, 'hk': kerr(r, n), 'hkq': 0}, 0))
        n = r.choice([7, 9, 11, 13])
        out.append(case('unsep', im, {'ker': kerr(r, n * n), 'kerq': 0}, 0))
        out.append(case('kernel2', im, {'ker': kerr(r, n * n), 'kerq': 0, 'n': n, 'x': r.randrange(s[0]), 'y': r.randrange(s[1]), 'pre': []}, 0))
    for n in (7, 9, 11, 17):                      # one-hot kernels: every offset of a wide window
        for t in range(n):
            out.append(case('filter1d', img(5, 4, 1, False, list(range(1, 21))), {'ker': [int(k == t) for k in range(n)], 'kerq': 0, 'v': t % 2 == 0}, 0))
        for t in r.sample(range(n * n), 6):
            out.append(case('unsep', img(7, 6, 1, False, list(range(1, 43))), {'ker': [int(k == t) for k in range(n * n)], 'kerq': 0}, 0))
    return out


@big('C18')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(60, 600)):
        n = r.choice([7, 9])
        v, h = [r.randint(-3, 3) for _ in range(n)], [r.randint(-3, 3) for _ in range(n)]
        ker = [a * b for a in v for b in h]
        if r.random() < .35:
            ker[r.randrange(n * n)] += r.choice([-1, 1])
        elif r.random() < .2:
            ker = kerr(r, n * n)
        out.append(case('sepker', None, {'ker': ker, 'kerq': 0}, 10))
        if r.random() < .4:
            out.append(case('linear', rimg(r, *r.choice(SMALL), *r.choice(GRAY)), {'ker': ker, 'kerq': 0, 'tol': 8}, 6))
    for s in shapes(c, 6, 3):
        v, h = [r.randint(-3, 3) for _ in range(3)], [r.randint(-3, 3) for _ in range(3)]
        ker = [a * b for a in v for b in h] if r.random() < .7 else kerr(r, 9)
        out.append(case('linear', rimg(r, *s, *r.choice(LAYOUTS)), {'ker': ker, 'kerq': 0, 'tol': 8}, 6))
    return out


@big('C19')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 4, 2):
        im = rimg(r, *s, *r.choice([(1, False), (2, True), (3, False)]))
        out += [case('box', im, {'n': r.choice([3, 5])}, 8), case('wavg', im, {'n': r.choice([3, 5]), 'wt': r.choice([1, 3, 9])}, 8),
                case('gauss', im, {'n': 3, 'sg': r.randint(2, 12), 'sgq': 2}, 4)]
    return out


@big('C20')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 4, 2):
        im = rimg(r, *s, *r.choice(GRAY))
        out += [case('prewitt', im, {}, 4), case('sobel', im, {}, 4), case('sobelw', im, {'wt': r.choice([1, 3, 4])}, 4), case('laplacian', im, {}, 0),
                case('sharpen', rimg(r, *s, *r.choice(LAYOUTS)), {}, 0), case('normlap', rimg(r, *s, 1, False, hi=1020, lo=-1020), {})]
        if s[0] * s[1] < 400:
            out += [case('unsharp', rimg(r, *s, 1, False), {}, 8), case('log', im, {'n': r.choice([3, 5]), 'sg': r.randint(3, 12), 'sgq': 2}, 8)]
    for n in (11, 13, 15):
        for sg in (4, 8, 12, 20):
            out.append(case('logkern', None, {'n': n, 'sg': sg, 'sgq': 2}, 15))
        out.append(case('log', rimg(r, 6, 4, 1, False), {'n': n, 'sg': r.randint(6, 12), 'sgq': 2}, 8))
    return out


@big('C21')
def _(c):
    r = c.r
    out = []
    for m in METHODS:
        for s in shapes(c, 3, 2) + [(256, 20)]:
            out.append(case('threshold', rimg(r, *s, *r.choice(GRAY), hi=1020, q=2), dict(t=r.choice([400, 4, 1016, r.randint(0, 1020)]), tq=2, max=r.choice([1020, 300]), maxq=2, method=m), 2))
    return out


@big('C22')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 4, 2):
        out.append(case('median', rimg(r, *s, *r.choice([(1, False), (2, True), (3, False)]), kind=r.choice(['noise', 'few', 'ramp', 'edge'])), {'r': r.choice([1, 2]) if s[0] * s[1] < 500 else 1}))
    for s in [(30, 9), (9, 30), (61, 4), (21, 21)] * c.n(1, 6):
        out.append(case('median', rimg(r, *s, 1, False), {'r': r.choice([3, 4, 5])}))
    return out


@big('C23')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 4, 1):
        rad = 1
        out.append(case('trimmed', rimg(r, *s, *r.choice([(1, False), (2, True)]), kind=r.choice(['noise', 'few', 'ramp'])), {'r': rad, 'al': r.choice([0, 2, 4, 8])}))
    for s in [(30, 5), (5, 30), (17, 17)] * c.n(1, 6):
        rad = r.choice([2, 3])
        n = (2 * rad + 1) ** 2
        out.append(case('trimmed', rimg(r, *s, 1, False), {'r': rad, 'al': 2 * r.randint(0, (n - 1) // 2)}))
    return out


@big('C24')
def _(c):
    r = c.r
    out = []
    for s in [(20, 3), (3, 20), (40, 1), (1, 40), (9, 9), (70, 2), (2, 70)] * c.n(1, 8):
        im = cbig(r, s, False)
        v = r.randint(40, 215)
        if r.random() < .6:
            im['d'] = [max(0, min(255, v + r.randint(-30, 30))) for _ in im['d']]
        sp, spq = r.choice([(1, 2), (2, 2), (3, 2)])
        p = {'range': r.choice([4, 20, 60, 400]), 'rangeq': 2, 'sp': sp, 'spq': spq, 'gray': False, 'exact': True, 'sym': 'none'}
        out.append(case('bilateral', im, p))
        sym = r.choice('hvt')
        q = dict(p, exact=False, sym=sym)
        out.append({'pair': (case('bilateral', im, q), case('bilateral', gen.mirror(im, sym), q))})
    return out


@big('C25')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 8, 4):
        for op in r.sample(['erode', 'dilate', 'majority', 'gradient'], 2):
            out.append(case(op, gen.binary(r, *s, r.choice(GRAY)), {'r': r.choice([0, 1, 1, 2, 3])}))
    for s in [(6, 6), (3, 12), (20, 2)] * c.n(2, 8):
        out.append(case(r.choice(['erode', 'dilate', 'majority', 'gradient']), gen.binary(r, *s, r.choice(GRAY)), {'r': r.choice([7, 10, 15, 16, 20, 31, 64])}))
    return out


@big('C26')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 6, 3):
        for op in ('open', 'close'):
            out.append(case(op, gen.binary(r, *s, r.choice(GRAY)), {'r': r.choice([1, 1, 2]), 'pair': False}))
    for s in [(9, 9), (12, 5)] * c.n(2, 8):
        for op in ('open', 'close', 'open2', 'close2'):
            out.append(case(op, gen.binary(r, *s, r.choice(GRAY)), {'r': r.choice([4, 5, 8]), 'pair': False}))
    return out


@big('C27')
def _(c):
    r = c.r
    out = []
    for s in LONG + shapes(c, 2, 4):
        im = rimg(r, *s, *r.choice([(1, False), (2, True), (3, False)]))
        out.append(case('sat', im, {}, 0))
        for _ in range(4):
            x0, y0 = r.choice([0, r.randrange(s[0])]), r.choice([0, r.randrange(s[1])])
            x1, y1 = r.choice([s[0] - 1, r.randint(x0, s[0] - 1)]), r.choice([s[1] - 1, r.randint(y0, s[1] - 1)])
            out.append(case('rectsum', im, dict(x0=x0, y0=y0, x1=x1, y1=y1), 0))
            out.append(case('rectof', im, dict(x0=x0, y0=y0, x1=x1, y1=y1), 0))
    return out


@big('C28')
def _(c):
    r = c.r
    out = []
    for s in LONG + shapes(c, 4, 6):
        l = r.choice([(1, False), (2, True), (3, False)])
        im = rimg(r, *s, *l, kind=r.choice(['noise', 'ramp']))
        e = lambda n: r.choice([0, n // 2, n - 1, min(n, 256), r.randint(0, n)])
        x, y = e(s[0]), e(s[1])
        w, h = r.choice([s[0] - x, r.randint(0, s[0] - x)]), r.choice([s[1] - y, r.randint(0, s[1] - y)])
        out.append(gen.typed(r, case('crop', im, dict(x=x, y=y, w=w, h=h), 0)))
        out.append(gen.typed(r, case('translate', im, dict(x=e(s[0]), y=e(s[1])), 0)))
        for axis in ('Horizontal', 'Vertical'):
            out.append(gen.typed(r, case(r.choice(['reflect', 'reflect2']), im, dict(axis=axis), 0)))
        f = r.choice([(s[0], s[1]), (r.randint(1, s[0]), r.randint(1, s[1])), (s[0] + 20, s[1] + 20), r.choice(LONG)])
        out.append(gen.typed(r, case('overlay', im, dict(x=e(s[0]), y=e(s[1])), 0, rimg(r, *f, *l))))
    return out


@big('C29')
def _(c):
    r = c.r
    out = []
    for s in LONG + shapes(c, 4, 6):
        l = r.choice([(1, False), (2, True), (3, False)])
        e = lambda n: r.choice([0, n // 2, n - 1, min(n, 256), r.randint(0, n)])
        f = r.choice([s, (r.randint(1, s[0]), r.randint(1, s[1])), (s[0] + 20, s[1] + 20)])
        out.append(case('superimpose', rimg(r, *s, *l), {'x': e(s[0]), 'y': e(s[1]), 'wt': r.choice([0, 8, r.randint(0, 8)]), 'wtq': 3}, 3, rimg(r, *f, *l)))
        im, b = rimg(r, *s, *l), rimg(r, *s, *l)
        out.append(case('residual', im, {}, 0, b, r.choice(['i16', 'i32', 'f32', 'f64'])))
    return out


@big('C30')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(90, 900)):
        s = r.choice(LONG + SQUARE)
        l = r.choice([(1, False), (2, True), (3, False)])
        xq, yq = r.choice([0, 1, 2, 3, 4]), r.choice([0, 1, 2, 3, 4])
        xf, yf = r.choice([1 << xq, r.randint(1, 2 << xq)]), r.choice([1 << yq, r.randint(1, 2 << yq)])
        n = gen.sdim(s[0], xf, xq) * gen.sdim(s[1], yf, yq)
        if n > 1500:
            continue
        p = lambda m, **k: dict({'xf': xf, 'xfq': xq, 'yf': yf, 'yfq': yq, 'method': m}, **k)
        im = rimg(r, *s, *l)
        out.append(case('scale', im, p('nn'), 0))
        if n:
            out.append(case('scale', im, p('bilinear'), 8))
        if n and n < 320 and xf * yf <= 61:
            out.append(case('scale', rimg(r, *s, 1, False), p('bicubic'), 6))
        if n and n < 320:
            out.append(case('scale', rimg(r, *s, 1, False), p('lanczos'), 8))
            out.append(case('lanczos', rimg(r, *s, 1, False), p('lanczos', n=r.randint(1, 5)), 8))
    for n in (15, 16, 17, 31, 33, 64, 65, 100, 256, 257, 300):
        q = r.choice([2, 3, 4])
        f = r.randint(1, 2 << q)
        out.append(case('scale', img(n, 1, 1, False, [(7 * k) % 256 for k in range(n)]), {'xf': f, 'xfq': q, 'yf': 1, 'yfq': 0, 'method': 'nn'}, 0))
        out.append(case('scale', img(1, n, 1, False, [(7 * k) % 256 for k in range(n)]), {'xf': 1, 'xfq': 0, 'yf': f, 'yfq': q, 'method': 'nn'}, 0))
        out.append(case('scale', img(n, 1, 1, False, [(7 * k) % 256 for k in range(n)]), {'xf': f, 'xfq': q, 'yf': 1, 'yfq': 0, 'method': 'bilinear'}, 8))
    for s in [(9, 8), (8, 9), (6, 6)]:                 # large magnifications
        for f in (6, 9, 16):
            out.append(case('scale', rimg(r, *s, 1, False), {'xf': f, 'xfq': 0, 'yf': r.choice([1, 2]), 'yfq': 0, 'method': r.choice(['nn', 'bilinear'])}, 0))
    for x in out:
        if x['p']['method'] == 'bilinear':
            x['oq'] = 8
    return out


@big('C31')
def _(c):
    r = c.r
    out = []
    for s in [(40, 3), (3, 40), (20, 20), (25, 16), (70, 1), (1, 70)]:
        im = img(*s, 1, False, [4 * t + 1 for t in range(s[0] * s[1])])
        for d in [0, 90, 180, 270, 360] + [r.randint(1, 359) for _ in range(c.n(5, 60))]:
            out.append(case('rotate', im, {'deg': d, 'degq': 0}, 0))
    for s in LONG + [(40, 25)]:
        for d in (90, 180, 270, 360):
            out.append(case('rotate', rimg(r, *s, *r.choice([(1, False), (3, False)])), {'deg': d, 'degq': 0}, 0))
    return out


@big('C32')
def _(c):
    r = c.r
    out = []
    for s in LONG * c.n(3, 20) + SQUARE * c.n(3, 20):
        l = r.choice([(1, False), (2, True), (3, False)])
        n = s[0] * s[1] * l[0]
        q = r.choice([0, 1, 2, 3, 4])
        lim = lambda k: min(2 << q, (60 << q) // k)
        k = r.random()
        sx, sy = r.randint(-lim(s[1]), lim(s[1])), r.randint(-lim(s[0]), lim(s[0]))
        if k < .45:
            sy = 0
        elif k < .9:
            sx = 0
        out.append(case('shear', img(*s, *l, [1 + (37 * t) % 251 for t in range(n)]), {'sx': sx, 'sxq': q, 'sy': sy, 'syq': q}, 0))
    return out


@big('C33')
def _(c):
    r = c.r
    out = []
    for s in shapes(c, 4, 2):
        l = r.choice(ANYC)
        n = s[0] * s[1] * l[0]
        for fr, hi in (('u8', 255), ('u16', 65535), ('u32', 2 ** 32 - 1)):
            out.append(case('conv', dict(w=s[0], h=s[1], c=l[0], a=l[1], t=gen.texts(r.randint(0, hi) for _ in range(n))), {'from': fr, 'to': 'f64'}))
        out.append(case('conv', rimg(r, *s, *l, lo=-80, hi=1100, q=2), {'from': r.choice(['f32', 'f64']), 'to': 'u8'}))
        sc = r.choice([1, 2, 100, 255])
        out.append(case('u82f', rimg(r, *s, *l), {'scale': sc}, 10))
        out.append(case('f2u8', rimg(r, *s, *l, lo=-8 * sc // 4, hi=(sc * 64 * 9) // 8, q=6), {'scale': sc}))
        out.append(case('rt_u8f', rimg(r, *s, *l), {'scale': sc}))
        lo, span = r.randint(-60, 60), r.choice([1, 7, 50, 255])
        out.append(case('scalech', rimg(r, *s, *l, lo=(lo - 5) * 4, hi=(lo + span + 5) * 4, q=2), {'cmin': lo, 'cmax': lo + span, 'smin': 3, 'smax': 100}, 4))
    return out


@big('C34')
def _(c):
    r = c.r
    out = []
    for p in gen.FPATHS:
        for l in gen.LOSSLESS[gen.fext(p)]:
            for s in [r.choice(LONG), r.choice(SQUARE)]:
                calls = [dict(op='reset', path='-')]
                e = dict(path=p, ext='img', nodir=False, kind='', **{'from': ''})
                calls += [dict(e, op='write', **{'in': rimg(r, *s, *l, kind=r.choice(['noise', 'ramp', 'flat']))}), dict(e, op='read')]
                out.append({'s': 'F', 'calls': calls})
    return out
