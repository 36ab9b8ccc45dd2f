"""Parameters beyond the usual ranges (inputs only)."""
from cases import *
import gen
from fine import mixed

WIDE = {}


def wide(*pids):
    def deco(f):
        for p in pids:
            WIDE.setdefault(p, []).append(f)
        return f
    return deco


def items(pid, c):
    return [x for f in WIDE.get(pid, []) for x in f(c)]


@wide('C31', 'C05', 'C09')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(70, 800)):
        s = r.choice([(1, 1), (4, 1), (2, 2), (3, 3), (5, 5), (8, 8), (6, 3), (3, 7), (9, 4), (2, 9), (11, 6), (16, 5), (5, 17)])
        l = r.choice([(1, False), (2, True), (3, False), (4, True)])
        k = r.random()
        if k < .4:
            d, q = 90 * r.randint(-12, 12), 0
        elif k < .7:
            d, q = r.choice([-1, 1]) * r.randint(361, 1500), 0
        elif k < .85:
            d, q = -r.randint(1, 359), 0
        else:
            d, q = r.randint(-2000, 2000), r.choice([1, 2])
        n = s[0] * s[1]
        out.append(case('rotate', img(*s, *l, [4 * t + k + 1 for t in range(n) for k in range(l[0])]), {'deg': d, 'degq': q}, 0))
    return out


@wide('C19')
def _(c):
    r = c.r
    out = []
    for n in (9, 11, 13, 15, 21):
        for _ in range(c.n(2, 12)):
            out.append(case('gkern', None, {'n': n, 'sg': r.randint(2, 60), 'sgq': r.choice([0, 1, 2])}, 15))
        if n < 17:
            out.append(case('gauss', mixed(r, *r.choice([(4, 3), (3, 5), (6, 4), (1, 7), (12, 2)]), *r.choice([(1, False), (2, True), (3, False)])), {'n': n, 'sg': r.randint(4, 40), 'sgq': 2}, 4))
    for _ in range(c.n(8, 60)):
        out.append(case('wavg', mixed(r, *r.choice([(4, 3), (3, 5), (6, 4), (1, 7), (12, 2)]), *r.choice([(1, False), (2, True), (3, False)])),
                        {'n': r.choice([3, 5, 7]), 'wt': r.choice([r.randint(1000, 7000), 255, 256, 257, 4096])}, 8))
    return out


@wide('C20')
def _(c):
    r = c.r
    out = []
    G = [(1, False), (2, True)]
    for _ in range(c.n(16, 160)):
        s = r.choice([(5, 4), (3, 7), (1, 9), (9, 1), (12, 6), (20, 3)])
        hi = r.choice([1, 3, 12, 25])
        im = mixed(r, *s, *r.choice(G), hi=hi)
        out.append(case('sobelw', im, {'wt': r.randint(6, 1800 // hi)}, 4))
        n = r.choice([5, 5, 7, 9])
        hi = 1900 // (n * n * 6)
        sm, df = [r.randint(0, 3) for _ in range(n)], [r.randint(-2, 2) for _ in range(n)]
        if r.random() < .5:
            df = [(-1 if i < n // 2 else 1 if i > n // 2 else 0) * r.randint(1, 2) for i in range(n)]
        out.append(case('deriv', mixed(r, *s, *r.choice(G), hi=max(1, hi)), {'vk': sm, 'vkq': 0, 'hk': df, 'hkq': 0}, 4))
    return out


@wide('C18')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(30, 300)):
        n = r.choice([11, 13, 15])
        v, h = [r.randint(-3, 3) for _ in range(n)], [r.randint(-3, 3) for _ in range(n)]
        if r.random() < .4:
            v = [x * r.choice([0, 0, 1]) for x in v]
        ker = [a * b for a in v for b in h]
        k = r.random()
        if k < .3:
            ker[r.randrange(n * n)] += r.choice([-1, 1])
        elif k < .4:
            ker[-1] += 1
        out.append(case('sepker', None, {'ker': ker, 'kerq': 0}, 10))
        if r.random() < .3:
            out.append(case('linear', rimg(r, *r.choice([(3, 4), (5, 2), (1, 6)]), *r.choice([(1, False), (2, True)])), {'ker': ker, 'kerq': 0, 'tol': 8}, 6))
    # two columns or rows proportional but for the last entry; factors of very different size
    for _ in range(c.n(60, 600)):
        n = r.choice([3, 5])
        v, h = [r.choice([-200, -1, 0, 1, 3, 1000]) for _ in range(n)], [r.choice([-5, 0, 1, 2, 300]) for _ in range(n)]
        ker = [a * b for a in v for b in h]
        if max(map(abs, ker)) > 4000:
            ker = [x // 100 for x in ker]
        if r.random() < .5:
            i = r.choice([0, n - 1, n * n - 1, n * (n - 1), r.randrange(n * n)])
            ker[i] += r.choice([-1, 1, 50])
        if max(map(abs, ker)) < 4000:
            out.append(case('sepker', None, {'ker': ker, 'kerq': 0}, 6))
    return out


@wide('C26')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(40, 400)):
        s = r.choice([(25, 25), (41, 3), (3, 41), (30, 17), (64, 2)])
        l = r.choice([(1, False), (2, True)])
        rad = r.choice([4, 6, 7, 8, 10, 12, 20, 31, 127, 128])
        white = r.choice([.5, .9, .98, 1, .02])
        d = []
        for _ in range(s[0] * s[1]):
            d.append(255 if r.random() < white else 0)
            if l[1]:
                d.append(r.randint(0, 255))
        out.append(case(r.choice(['open', 'close']), img(*s, *l, d), {'r': rad, 'pair': False}))
    return out


def far_in(r, n):
    """Mostly the far end of 0..n-1."""
    return r.choice([n - 1, n - 1 - r.randrange(max(1, n // 8)), r.randrange(n)])


def session(r, w, h, n):
    """A history on one large image, mostly near its far end."""
    c, a = r.choice([(1, False), (2, True), (3, False)]) if w * h < 20000 else r.choice([(1, False), (1, True)])
    ctor = r.choice(['slice', 'vec', 'vecvec', 'vecvec_rows', 'vecslice', 'blank'])
    d = [] if ctor == 'blank' else [r.randint(0, 50) for _ in range(w * h * c)]
    calls = [dict(op='reset', reg='a'), dict(op='new', reg='a', ty=r.choice(gen.CTYPES), ctor=ctor, w=w, h=h, c=c, a=a, d=d), dict(op='info', reg='a')]
    hows = ['xy', 'mut', 'mut_un', 'idx', 'set_idx', 'data', 'poke_mut', 'poke_mut_un', 'poke_idx']
    r.shuffle(hows)
    for how in hows[:n]:
        x, y = far_in(r, w), far_in(r, h)
        px = [r.randint(51, 120) for _ in range(c)]
        if how in ('xy', 'mut', 'mut_un'):
            calls.append(dict(op='put', reg='a', how=how, px=px, x=x, y=y))
        elif how in ('idx', 'set_idx'):
            calls.append(dict(op='put', reg='a', how=how, px=px, x=y * w + x, y=0))
        elif how == 'data':
            calls.append(dict(op='poke', reg='a', how='data', x=(y * w + x) * c + r.randrange(c), y=0, k=0, val=r.randint(51, 120)))
        else:
            i = how == 'poke_idx'
            calls.append(dict(op='poke', reg='a', how=how[5:], x=y * w + x if i else x, y=0 if i else y, k=r.randrange(c), val=r.randint(51, 120)))
        g = r.choice(['xy', 'mut', 'xy_un', 'mut_un', 'idx', 'idx_mut'])
        calls.append(dict(op='get', reg='a', how=g, x=y * w + x if g[0] == 'i' else x, y=0 if g[0] == 'i' else y))
        calls.append(dict(op='index', reg='a', x=x, y=y))
    calls.append(dict(op='get', reg='a', how='xy', x=w, y=0))
    calls.append(dict(op='put', reg='a', how='xy', x=0, y=h, px=[1] * c))
    return {'s': 'C', 'calls': calls}


@wide('C01')
def _(c):
    r = c.r
    out = [session(r, *s, 9) for s in [(1030, 1), (1, 1030), (2, 1100), (1100, 2), (70, 66), (257, 41), (41, 257)] * c.n(1, 4)]
    out += [session(r, *s, 9) for s in [(5000, 1), (1, 5000), (2, 4200), (4200, 2)] * c.n(1, 3)]
    return out + [session(r, *s, 4) for s in [(260, 253), (253, 260), (70000, 1), (1, 70000)] * c.n(1, 3)]


@wide('C03')
def _(c):
    r = c.r
    out = []
    for s in [(1030, 1), (1, 1030), (70, 66), (257, 41), (5000, 1), (1, 5000), (260, 253), (2, 33000), (66000, 1)] * c.n(1, 3):
        ch, a = r.choice([(1, False), (2, True)]) if s[0] * s[1] < 20000 else (1, False)
        d = [r.randint(0, 50) for _ in range(s[0] * s[1] * ch)]
        calls = [dict(op='reset', reg='a'), dict(op='new', reg='a', ty=r.choice(gen.CTYPES), ctor='slice', w=s[0], h=s[1], c=ch, a=a, d=d)]
        calls.append(dict(op='iter', reg='a', how=r.choice(['new', 'into'])))
        calls += [dict(op='next', reg='a')] * 3
        calls.append(dict(op='drain', reg='a', how=r.choice(['fold', 'for', 'step'])))
        calls += [dict(op='next', reg='a'), dict(op='nth', reg='a', k=r.randrange(s[0] * s[1])), dict(op='next', reg='a'), dict(op='tail', reg='a')]
        out.append({'s': 'C', 'calls': calls})
    return out


def sparse(r, s, l, k, bg=255, fg=0):
    """One colour everywhere but in k pixels, mostly near corners and edges; noise as alpha."""
    w, h = s
    px = [bg] * (w * h)
    for _ in range(k):
        px[r.choice([0, h - 1] + [r.randrange(h)] * 4) * w + r.choice([0, w - 1] + [r.randrange(w)] * 4)] = fg
    return img(w, h, *l, [v for p in px for v in ([p, r.randint(0, 255)] if l[1] else [p])])


@wide('C25')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(150, 1500)):
        s = r.choice([(20, 20), (41, 3), (3, 41), (30, 17), (64, 2), (1, 70), (41, 5), (45, 40), (37, 37), (60, 50)])
        rad = r.choice([1, 3, 8, 11, 12, 15, 16, 17, 18, 20, 22, 23, 31, 40, 45, 127, 128, 181, 182, 255, 256])
        if r.random() < .8:
            im = sparse(r, s, r.choice([(1, False), (2, True)]), r.choice([0, 1, 1, 1, 2, 3]), *r.choice([(255, 0), (0, 255)]))
        else:
            im = img(*s, 1, False, [r.choice([0, 255]) for _ in range(s[0] * s[1])])
        n = 2 * rad + 1
        op = r.choice(['erode', 'dilate', 'majority', 'gradient', 'gradient'])
        if op == 'majority' and r.random() < .7:          # near the tie: one half-plane and a pixel
            k = r.randrange(1, s[1] + 1)
            px = [255 if t < k * s[0] else 0 for t in range(s[0] * s[1])]
            px[r.randrange(len(px))] ^= 255
            im = img(*s, 1, False, px)
        out.append(case(op, im, {'r': rad}, cost=s[0] * s[1] * 30))
    return out


@wide('C26')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(90, 900)):
        s = r.choice([(25, 25), (41, 3), (3, 41), (30, 17), (64, 2), (41, 41), (1, 80)])
        rad = r.choice([1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 16, 20])
        if r.random() < .6:
            s = (2 * rad + 1 + r.randint(-1, 12), 2 * rad + 1 + r.randint(-1, 12))
        op = r.choice(['open', 'close'])
        bg = 255 if (op == 'open') == (r.random() < .85) else 0
        im = sparse(r, s, r.choice([(1, False), (2, True)]), r.choice([1, 1, 2, 3, 5]), bg, 255 - bg)
        out.append(case(op, im, {'r': rad, 'pair': False}))
    return out


@wide('C02')
def _(c):
    r = c.r
    out = []
    for n in [255, 256, 257, 258, 300, 511, 512, 513, 1001] * c.n(2, 12):
        s = r.choice([(1, 1), (3, 2), (7, 5), (2, 300), (300, 2), (600, 1), (1, 600)])
        im = mixed(r, *s, *r.choice([(1, False), (2, True), (3, False)]))
        x, y = far_in(r, s[0]), far_in(r, s[1])
        out.append(case('nbr1', im, dict(x=x, y=y, n=n, v=r.random() < .5), ty=r.choice(['u8', 'u16', 'f32'])))
    for n in [129, 200, 256, 257, 259] * c.n(1, 4):
        s = r.choice([(1, 1), (3, 2), (7, 5), (150, 2), (2, 150), (130, 131)])
        im = mixed(r, *s, *r.choice([(1, False), (1, True)]))
        out.append(case('nbr2', im, dict(x=far_in(r, s[0]), y=far_in(r, s[1]), n=n), ty='u8'))
    for s in [(1, 1030), (1030, 1), (700, 3), (3, 700), (4200, 1), (1, 4200)] * c.n(2, 10):
        im = mixed(r, *s, *r.choice([(1, False), (2, True)]))
        x, y = far_in(r, s[0]), far_in(r, s[1])
        w, h = r.choice([s[0] - x, r.randint(1, s[0] - x)]), r.choice([s[1] - y, r.randint(1, s[1] - y)])
        if r.random() < .5:
            x, w = (0, s[0]) if r.random() < .5 else (s[0] // 2, s[0] - s[0] // 2)
            y, h = (0, s[1]) if r.random() < .5 else (s[1] // 2, s[1] - s[1] // 2)
        out.append(case('subimage', im, dict(x=x, y=y, w=w, h=h), ty=r.choice(['u8', 'u16', 'i32'])))
    for s in [(65700, 1), (1, 65700)] * c.n(2, 6):          # past 15 and 16 bits
        im = mixed(r, *s, 1, False)
        for lo, hi in ((32768, 65535), (65536, 65699)):
            x, y = (r.randint(lo, hi) if s[0] > 1 else 0), (r.randint(lo, hi) if s[1] > 1 else 0)
            k = r.choice(['nbr1', 'nbr2', 'subimage'])
            if k == 'subimage':
                p = dict(x=x, y=y, w=min(s[0] - x, r.randint(1, 90)), h=min(s[1] - y, r.randint(1, 90)))
            else:
                p = dict(x=x, y=y, n=r.choice([2, 3, 5, 9]))
                if k == 'nbr1':
                    p['v'] = s[1] > 1
            out.append(case(k, im, p, ty=r.choice(['u8', 'u16', 'f32'])))
    return out


@wide('C10')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(60, 600)):
        s = r.choice([(1, 1), (4, 3), (9, 1), (2, 8)])
        q = r.choice([0, 2, 4])
        out.append(case('gray_f32', rimg(r, *s, *r.choice([(3, False), (4, True)]), lo=-r.choice([1, 10, 255, 1000, 3000]), hi=r.choice([0, 1, 255, 1020, 8000]), q=q), {}, 8))
    return out


@wide('C16')
def _(c):
    r = c.r
    out = []
    for s in [(300, 221), (70000, 1), (1, 40000), (181, 182), (256, 256), (1030, 1), (91, 92)] * c.n(1, 4):
        l = r.choice([(1, False), (2, False), (1, False), (2, True)])
        pool = [r.randint(0, 1600) for _ in range(r.choice([1, 2, 5, 9]))]
        n = s[0] * s[1]
        wt = [r.choice([1, 1, 30, 1000]) for _ in pool]
        d = [v for p in r.choices(pool, wt, k=n) for v in ([p] + [7] * (l[0] - 1))]
        out.append(case('hist', img(*s, *l, d, 4), {'prec': r.choice([1, 2, 10, 255]), 'precq': 0}, 13))
    return out


@wide('C17')
def _(c):
    """Weights of very different size, down to 2^-12."""
    r = c.r
    out = []

    def ker(n, kq):
        return [r.choice([0, 1, -1, 2, 3, -5, 1 << r.randint(0, kq), r.randint(-20, 20)]) for _ in range(n)]
    for _ in range(c.n(70, 800)):
        s = r.choice([(1, 1), (5, 4), (3, 7), (1, 9), (9, 1), (12, 3)])
        l = r.choice([(1, False), (2, True), (3, False), (4, True), (5, False)])
        kq = r.choice([4, 6, 7, 8, 10])
        im = mixed(r, *s, *l)
        n = r.choice([1, 3, 5, 7])
        out.append(case('filter1d', im, {'ker': ker(n, kq), 'kerq': kq, 'v': r.random() < .5}, kq))
        m = r.choice([1, 3, 3, 5])
        out.append(case('unsep', im, {'ker': ker(m * m, kq), 'kerq': kq}, kq))
        k2 = r.choice([4, 6, 7])
        sm = mixed(r, *s, *l, hi=3)
        out.append(case('sep', sm, {'vk': [r.choice([0, 1, -1, 2, 5, 9]) for _ in range(n)], 'vkq': k2, 'hk': [r.choice([0, 1, -1, 2, 5, 9]) for _ in range(n)], 'hkq': k2}, 2 * k2))
        x, y = r.randrange(s[0]), r.randrange(s[1])
        out.append(case('kernel1', im, {'ker': ker(n, kq), 'kerq': kq, 'n': n, 'x': x, 'y': y, 'v': r.random() < .5, 'pre': []}, kq))
        out.append(case('kernel2', im, {'ker': ker(m * m, kq), 'kerq': kq, 'n': m, 'x': x, 'y': y, 'pre': []}, kq))
    return out


@wide('C18')
def _(c):
    """Separable kernels with large factors, and kernels of small numbers that are separable or nearly."""
    r = c.r
    out = []
    for _ in range(c.n(60, 600)):
        n = r.choice([3, 3, 5])
        big = [0, 1, -1, 2, 10, 31, 40, 100, -64]
        v, h = [r.choice(big) for _ in range(n)], [r.choice(big) for _ in range(n)]
        ker = [a * b for a in v for b in h]
        if r.random() < .15:
            ker[r.randrange(n * n)] += r.choice([-1, 1, 7])
        s = r.choice([(3, 4), (5, 2), (1, 6), (7, 1)])
        im = mixed(r, *s, *r.choice([(1, False), (2, True), (3, False)]), hi=60)
        out.append(case('linear', im, {'ker': ker, 'kerq': 0, 'tol': 8}, 4))
        kq = r.choice([4, 6, 8, 10])
        v, h = [r.randint(-3, 3) for _ in range(n)], [r.randint(-3, 3) for _ in range(n)]
        ker = [a * b for a in v for b in h]
        if r.random() < .6:
            ker[r.choice([0, n * n - 1, r.randrange(n * n)])] += r.choice([-1, 1])
        out.append(case('linear', im, {'ker': ker, 'kerq': kq, 'tol': 8}, kq + 4))
        if kq <= 8 and max(map(abs, ker)) < 10:
            out.append(case('sepker', None, {'ker': ker, 'kerq': kq}, 13 if kq < 8 else 12))
    return out


@wide('C22')
def _(c):
    """Radii beyond any image."""
    r = c.r
    out = []
    for rad in [31, 60, 90, 91, 127, 128, 129, 130, 180, 181, 182, 200, 255, 256, 300] * c.n(1, 6):
        s = r.choice([(1, 1), (3, 2), (5, 4), (7, 1), (1, 9), (4, 4)])
        out.append(case('median', mixed(r, *s, *r.choice([(1, False), (2, True), (3, False)])), {'r': rad}))
    return out


@wide('C28')
def _(c):
    r = c.r
    out = []
    for s in [(1030, 1), (1, 1030), (700, 2), (2, 700), (600, 3), (3, 600), (4200, 1), (1, 4200)] * c.n(3, 15):
        im = mixed(r, *s, *r.choice([(1, False), (2, True), (3, False)]))
        x, y = (r.choice([0, n // 2, n // 3, n - 1, r.randrange(n)]) for n in s)
        w, h = r.choice([s[0] - x, r.randint(1, s[0] - x)]), r.choice([s[1] - y, r.randint(1, s[1] - y)])
        k = r.random()
        if k < .5:
            out.append(case('crop', im, dict(x=x, y=y, w=w, h=h), 0, ty=r.choice(['u8', 'u16', 'f32'])))
        elif k < .65:
            out.append(case('translate', im, dict(x=x, y=y), 0, ty='u8'))
        elif k < .75:
            out.append(case('reflect', im, dict(axis=r.choice(['Horizontal', 'Vertical'])), 0, ty='u8'))
        else:
            b = mixed(r, w, h, im['c'], im['a'])
            out.append(case('overlay', im, dict(x=x, y=y), 0, b=b, ty='u8'))
    return out


@wide('C32', 'C05')
def _(c):
    """Slight shears of long images: a pixel or two over thousands of rows."""
    r = c.r
    out = []
    for _ in range(c.n(40, 400)):
        q = r.choice([7, 8, 9, 10, 12])
        n = min(3000, r.choice([1, 1, 2, 3]) * (1 << q) + r.choice([-1, 0, 1, 17]))
        s = (r.choice([1, 2, 5]), n)
        k = r.choice([-1, 1]) * r.choice([1, 1, 1, 2, 3])
        l = r.choice([(1, False), (2, True)])
        if r.random() < .5:
            out.append(case('shear', mixed(r, *s, *l, lo=1), {'sx': k, 'sxq': q, 'sy': 0, 'syq': q}, 0))
        else:
            out.append(case('shear', mixed(r, s[1], s[0], *l, lo=1), {'sx': 0, 'sxq': q, 'sy': k, 'syq': q}, 0))
    return out


@wide('C36')
def _(c):
    r = c.r
    out = []
    for _ in range(c.n(60, 600)):
        x, y = r.choice([40, 300, 1000, 4000, 33000, 40000]), r.choice([0, 3, 300, 5000, 20000])
        a, b = r.randint(0, 70000), r.randint(0, 70000)
        f = lambda v, d: (v, v + r.randint(0, d)) if r.random() < .5 else (v + d, v)
        (x1, x2), (y1, y2) = f(a, x), f(b, y)
        out.append(case('distance', None, dict(x1=x1, y1=y1, x2=x2, y2=y2), 0))
    return out
