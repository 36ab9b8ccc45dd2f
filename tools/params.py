"""Parameter values at a distance from the usual ones (inputs only): long and heavy kernels, steep, tiny and huge factors, fine
exponents and angles, values next to a tie, constructor arguments in uneven pieces."""
from cases import *
import struct

G1 = [(1, False), (2, True)]
LAY = [(1, False), (2, True), (3, False), (4, True), (2, False)]


def near(r, v, q):
    """v / 2^q and its neighbours."""
    return v + r.choice([-1, 0, 1])


def C01(c):
    import gen
    r, out = c.r, []
    for k in range(c.n(90, 900)):
        s = r.choice([(3, 2, 3, False), (4, 3, 1, False), (2, 2, 4, True), (5, 1, 2, True), (1, 4, 5, False), (3, 3, 2, False), (7, 2, 3, False), (2, 1, 9, True)])
        ctor = ['vecvec_one', 'vecslice_one', 'vecvec_uneven', 'vecslice_uneven', 'vecvec_whole', 'vecslice_whole', 'vecvec_holes', 'vecslice_holes'][k % 8]
        e = dict(op='new', reg='a', ty=r.choice(gen.CTYPES), ctor=ctor, w=s[0], h=s[1], c=s[2], a=s[3], d=[r.randint(0, 50) for _ in range(s[0] * s[1] * s[2])])
        m = {'a': e}
        calls = [dict(op='reset', reg='a'), e, dict(op='info', reg='a')]
        for _ in range(4):
            calls.append(gen.read_op(r, 'a', m['a']) if r.random() < .6 else gen.write_op(r, 'a', m['a']))
        calls += [dict(e, reg='b', ctor='vec'), dict(op='eq', reg='a', **{'from': 'b'})]
        out.append({'s': 'C', 'calls': calls})
    return out


def C14(c):
    r, out = c.r, []
    ex = [(63, 6), (65, 6), (127, 7), (129, 7), (62, 6), (66, 6), (127, 6), (129, 6), (31, 6), (33, 6), (191, 6), (193, 6), (1, 6), (1, 8), (1, 10), (3, 7),
          (100, 5), (77, 5), (5, 0), (6, 0), (8, 0), (10, 0), (16, 0), (25, 0), (2047, 10), (2049, 10), (511, 10), (513, 10), (1000, 10), (0, 4)]
    ex = ex[:-1]
    for e, q in ex + [(r.randint(1, 400), 7) for _ in range(c.n(20, 200))] + [(r.randint(1, 6000), 10) for _ in range(c.n(20, 200))]:
        for m in r.sample([255, 255, 254, 200, 128, 127, 64, 16, 3, 2, 1, r.randint(1, 255)], 3):
            out.append(case('gamma', ramp(r), {'e': e, 'eq': q, 'm': m, 'mono': True}))
    for e, q in ((1, 14), (1, 20), (3, 20), (16383, 14), (255, 8), (4095, 12)):
        out.append(case('contrast', ramp(r), {'g': e, 'gq': min(q, 16) if e < 2 ** 16 else q, 'mono': True}))
    return out


def ramp(r):
    import gen
    return gen.ramp256(*r.choice(ANYC))


def C16(c):
    r, out = c.r, []
    precs = [(256, 0), (327, 0), (328, 0), (330, 0), (512, 0), (655, 0), (656, 0), (1000, 0), (1024, 0), (4096, 0), (8192, 0), (65536, 0), (1 << 20, 0), (1, 1), (1, 2), (1, 3), (1, 4), (3, 3), (1, 8),
             (33, 1), (101, 2)]
    for pr, pq in precs:
        for _ in range(c.n(6, 40)):
            l = r.choice(LAY)
            n = r.choice([1, 2, 3, 5, 9, 16, 33])
            pool = [1600, 1599, 0, 1, 800, r.randint(0, 1600), r.randint(1500, 1600), r.randint(1500, 1600)]
            d = [r.choice(pool) for _ in range(n * l[0])]
            if r.random() < .2:
                d = [-v for v in d]
            out.append(case('hist', img(n, 1, *l, d, 4), {'prec': pr, 'precq': pq}, 15))
    for _ in range(c.n(90, 900)):
        a = r.random() < .3
        n = r.choice([2, 3, 4, 6, 9, 12])
        k = r.random()
        if k < .4:
            pal = [(v, v, v) for v in r.sample(range(256), min(n, 8))] + [(255, 255, 255), (254, 254, 254)]
        elif k < .7:
            pal = [tuple(min(255, max(0, v + r.randint(-25, 25))) for _ in range(3)) for v in r.sample(range(0, 256, 20), 6)]
        else:
            pal = [tuple(r.randint(0, 255) for _ in range(3)) for _ in range(4)]
        d = [v for _ in range(n) for v in (r.choice(pal) + ((r.randint(0, 255),) if a else ()))]
        pr, pq = r.choice([(256, 0), (327, 0), (328, 0), (400, 0), (1000, 0), (1024, 0), (4096, 0), (30, 0), (77, 0), (1, 1), (1, 2), (1, 4), (3, 2), (0, 0)])
        out.append(case('histeq', img(n, 1, 4 if a else 3, a, d), {'al': r.choice([16, 16, 8, r.randint(0, 16)]), 'alq': 4, 'white': white(r), 'prec': pr, 'precq': pq}))
    return out


def C17(c):
    r, out = c.r, []
    for n in [33, 35, 41, 49, 63, 65, 67, 99, 101, 127, 129, 131, 193, 255, 257]:
        for k in range(c.n(4, 20)):
            s = r.choice([(n, 1), (1, n), (r.randint(1, 9), r.randint(1, 9)), (2 * n // 3, 2), (2, n + 3)])
            im = rimg(r, *s, *r.choice(G1 + [(3, False)]), hi=r.choice([255, 3]))
            ker = r.choice([kerr(r, n), [0] * n, [1] * n])
            if not any(ker):
                for t in r.sample([0, n - 1, n // 2, 1, n - 2, r.randrange(n)], 3):
                    ker[t] = r.choice([1, -2, 7])
            v = s[1] > s[0] if r.random() < .7 else r.random() < .5
            out.append(case('filter1d', im, {'ker': ker, 'kerq': 0, 'v': v}, 0))
            out.append(case('kernel1', im, {'ker': ker, 'kerq': 0, 'n': n, 'x': r.randrange(s[0]), 'y': r.randrange(s[1]), 'v': v, 'pre': []}, 0))
            if n <= 67 and k < 3:
                s = r.choice([(3, 2), (1, 5), (4, 1)])
                vk, hk = [r.choice([0, 0, 1, -1, 2]) for _ in range(n)], [r.choice([0, 0, 1, -1, 2]) for _ in range(n)]
                out.append(case('sep', rimg(r, *s, 1, False), {'vk': vk, 'vkq': 0, 'hk': hk, 'hkq': 0}, 0))
    for n in (15, 17, 19, 21, 25, 31):
        for _ in range(c.n(3, 12)):
            s = r.choice([(3, 2), (1, 5), (4, 3), (n // 2, 2), (2, n // 2)])
            ker = r.choice([kerr(r, n * n), [0] * (n * n)])
            if not any(ker):
                for t in r.sample([0, n - 1, n * n - 1, n * n - n, n * n // 2, r.randrange(n * n)], 4):
                    ker[t] = r.choice([1, -2, 7])
            im = rimg(r, *s, *r.choice(G1))
            out.append(case('unsep', im, {'ker': ker, 'kerq': 0}, 0))
            out.append(case('kernel2', im, {'ker': ker, 'kerq': 0, 'n': n, 'x': r.randrange(s[0]), 'y': r.randrange(s[1]), 'pre': []}, 0))
    for _ in range(c.n(40, 400)):       # heavy weights
        big = r.choice([100, 1000, 4096, 10000])
        n = r.choice([3, 5, 7])
        s, l = r.choice(SMALL), r.choice(ANYC)
        im = rimg(r, *s, *l)
        out.append(case('filter1d', im, {'ker': kerr(r, n, -big, big), 'kerq': 0, 'v': r.random() < .5}, 0))
        n = 3
        out.append(case('unsep', im, {'ker': kerr(r, n * n, -big // 2, big // 2), 'kerq': 0}, 0))
        out.append(case('sep', im, {'vk': kerr(r, n, -big // 100, big // 100), 'vkq': 0, 'hk': kerr(r, n, -60, 60), 'hkq': 0}, 0))
    return out


def C19(c):
    r, out = c.r, []
    for _ in range(c.n(70, 700)):
        q = r.choice([3, 4, 5])
        sg = r.choice([r.randint(3, 12), r.randint(12, 100), r.randint(100, 31 << q), (1 << q) - 1, (1 << q) + 1])
        n = r.choice([1, 3, 5, 7, 9, 11])
        s, l = r.choice(SMALL), r.choice(LAY)
        out.append(case('gauss', rimg(r, *s, *l), {'n': n, 'sg': sg, 'sgq': q}, 4))
        if r.random() < .4:
            out.append(case('gkern', None, {'n': n, 'sg': sg, 'sgq': q}, 15))
    for n in (17, 25, 33, 41, 51, 63, 101):
        for _ in range(c.n(2, 10)):
            s, l = r.choice([(3, 2), (1, 5), (4, 4), (n // 2, 1), (1, n // 2)]), r.choice(G1)
            im = rimg(r, *s, *l)
            out.append(case('box', im, {'n': n}, 8))
            out.append(case('wavg', im, {'n': n, 'wt': r.choice([2, 5, 17, 300, n, n * n])}, 8))
            if n <= 41:
                out.append(case('gauss', rimg(r, *r.choice([(3, 2), (1, 5), (2, 2)]), *l, hi=30), {'n': n, 'sg': r.randint(20, 120), 'sgq': 3}, 4))
    return out


def C20(c):
    r, out = c.r, []
    for _ in range(c.n(60, 600)):
        wt = r.choice([5, 8, 10, 16, 50, 100, 255, 256, 300])
        hi = max(1, min(255, 1400 // (2 + wt)))
        out.append(case('sobelw', rimg(r, *r.choice(SMALL), *r.choice(G1), hi=hi), {'wt': wt}, 4))
        n = r.choice([3, 5, 7, 9, 11, 13, 15])
        vk, hk = [r.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(n)], [r.choice([-2, -1, 0, 0, 1, 2]) for _ in range(n)]
        tot = max(1, sum(map(abs, vk)) * sum(map(abs, hk)))
        if tot <= 1400:
            out.append(case('deriv', rimg(r, *r.choice(SMALL[1:]), *r.choice(G1), hi=max(1, min(255, 1400 // tot))), {'vk': vk, 'vkq': 0, 'hk': hk, 'hkq': 0}, 4))
    for _ in range(c.n(40, 400)):       # responses that span little, or a lot
        at, span, q = r.choice([0, 0, 1000, -1000, -70000, 500000]), r.choice([1, 2, 3, 10, 100, 255, 1000, 30000, 2000000]), r.choice([0, 4, 8, 12, 16])
        out.append(case('normlap', rimg(r, *r.choice(SMALL[1:]), 1, False, lo=at, hi=at + span, q=q), {}))
    return out


def C27(c):
    r, out = c.r, []
    for _ in range(c.n(30, 300)):       # rectangles one pixel or a few thick, far from the edges of a long image
        k, m = r.choice([70, 90, 150, 260, 300]), r.choice([2, 3, 5])
        l = r.choice(LAY)
        w, h = (k, m) if r.random() < .5 else (m, k)
        im = rimg(r, w, h, *l)
        for _ in range(6):
            x0, y0 = r.randrange(w), r.randrange(h)
            tw, th = r.choice([1, 1, 2, 7, w]), r.choice([1, 1, 2, 7, h])
            x1, y1 = min(w - 1, x0 + tw - 1), min(h - 1, y0 + th - 1)
            out.append(case('rectsum', im, dict(x0=x0, y0=y0, x1=x1, y1=y1), 0))
            out.append(case('rectof', im, dict(x0=x0, y0=y0, x1=x1, y1=y1), 0))
    return out


def C21(c):
    r, out = c.r, []
    for m in ['Binary', 'BinaryInv', 'Trunc', 'ToZero', 'ToZeroInv']:
        for _ in range(c.n(12, 120)):
            q = r.choice([0, 2, 7])
            t, mx = r.choice([256, 300, 511, 1000, 32768, 65535, 65536, -256, -300, -1000, r.randint(-70000, 70000)]), r.choice([256, 300, 1000, 65535, 65536, r.randint(256, 70000), -5, -255, -1, 0])
            s, l = r.choice(SMALL), r.choice(G1)
            d = [near(r, t << q, q) if r.random() < .5 else r.randint(-70000, 70000) << q for _ in range(s[0] * s[1] * l[0])]
            out.append(case('threshold', img(*s, *l, d, q), dict(t=t << q, tq=q, max=mx << q, maxq=q, method=m), q))
    for m in METHODS:                   # samples a millionth from the threshold
        for _ in range(c.n(6, 60)):
            q, l, w = r.choice([14, 17, 20, 22]), r.choice(GRAY), r.choice([(4, 2), (9, 1), (1, 7)])
            top = 1 << (23 - q)
            t = r.choice([r.randint(-top, top), r.randint(0, 1)]) << q
            t += r.choice([0, 0, 1, -1, r.randint(-5000, 5000)])
            d = [t + r.choice([0, 1, -1, 2, -2, 5, -5, 37, -37, 300, -300]) for _ in range(w[0] * w[1] * l[0])]
            d = [max(-(1 << 24) + 1, min((1 << 24) - 1, v)) for v in d]
            out.append(case('threshold', img(*w, *l, d, q), dict(t=t, tq=q, max=r.choice([0, 1 << q, 2 << 22]), maxq=q, method=m), q))
    return out


def C22(c):
    r, out = c.r, []
    for rad in list(range(1, 26)) + [r.randint(26, 90) for _ in range(6)]:
        for _ in range(c.n(2, 12)):
            s = r.choice([(3, 2), (2, 3), (1, 7), (7, 1), (4, 4), (rad + 1, 1), (1, rad + 1), (min(rad, 9), 3), (5, 6)])
            out.append(case('median', rimg(r, *s, *r.choice(LAY), kind=r.choice(['noise', 'extreme', 'few', 'ramp'])), {'r': rad}))
    return out


def C23(c):
    r, out = c.r, []
    for rad in list(range(1, 13)) + [15, 20]:
        n = (2 * rad + 1) ** 2
        als = {0, 2, 4, n - 1, n - 3, n - 5, n - 7, (n // 4) * 2, 2 * r.randint(0, (n - 1) // 2), 2 * r.randint(0, (n - 1) // 2)}
        for al in sorted(a for a in als if 0 <= a < n and a % 2 == 0):
            for _ in range(c.n(1, 6)):
                s = r.choice([(3, 2), (2, 3), (1, 7), (7, 1), (4, 4), (5, 3)]) if rad > 2 else r.choice([(6, 5), (9, 4), (4, 4), (1, 9)])
                out.append(case('trimmed', rimg(r, *s, *r.choice([(1, False), (1, False), (2, True), (3, False)]), kind=r.choice(['noise', 'noise', 'few', 'ramp', 'extreme'])), {'r': rad, 'al': al}))
    return out


def C24(c):
    r, out = c.r, []
    for _ in range(c.n(60, 600)):
        s = r.choice([(3, 2), (2, 3), (4, 4), (5, 1), (1, 6), (3, 3)])
        gray = r.random() < .3
        v = [r.randint(0, 255) for _ in range(s[0] * s[1])]
        if gray:
            d = [z for z in v for _ in range(3)]
        else:
            d = [min(255, max(0, z + r.randint(-30, 30))) for z in v for _ in range(3)]
        out.append(case('bilateral', img(*s, 3, False, d), {'range': r.choice([r.randint(1, 40), r.randint(40, 400), r.randint(400, 4000)]), 'rangeq': 2, 'sp': r.randint(1, 110), 'spq': 6,
                                                           'gray': gray, 'exact': True, 'sym': 'none'}))
    return out


def C25(c):
    r, out = c.r, []
    for rad in [300, 999, 1000, 2047, 2048, 4095, 4096, 10000, 16383, 20000, 23169]:
        for op in ('erode', 'dilate', 'majority', 'gradient'):
            s = r.choice([(1, 1), (3, 2), (2, 5), (1, 7), (4, 4)])
            l = r.choice(G1)
            d = [r.choice([0, 255]) for _ in range(s[0] * s[1] * l[0])] if r.random() < .7 else [255] * (s[0] * s[1] * l[0])
            out.append(case(op, img(*s, *l, d), {'r': rad}))
    for _ in range(c.n(40, 300)):       # radii about the size of the image
        op = r.choice(['erode', 'dilate', 'majority', 'gradient'])
        w, h = r.randint(1, 40), r.randint(1, 8)
        if r.random() < .5:
            w, h = h, w
        k = r.random()
        d = [(255 if r.random() < k else 0) for _ in range(w * h)]
        out.append(case(op, img(w, h, 1, False, d), {'r': max(0, r.choice([w, h, w // 2, h // 2]) + r.choice([-1, 0, 1]))}))
    return out


def C30(c):
    import gen
    r, out = c.r, []
    for _ in range(c.n(60, 600)):
        s = r.choice([(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (1, 3), (5, 1), (1, 5)])
        l = r.choice(LAY)
        f = r.choice([6, 7, 8, 10, 12, 16, 20, 24, 30, 32, 48, 64, 100])
        g = r.choice([1, 2, 3, f, 5, 9])
        if f * g * s[0] * s[1] > 4000:
            g = 1
        xf, yf = (f, g) if r.random() < .5 else (g, f)
        k = r.randint(0, 3)
        if k == 0:
            out.append(case('scale', rimg(r, *s, *l), dict(xf=xf, xfq=0, yf=yf, yfq=0, method='nn'), 0))
        elif k == 1:
            out.append(case('scale', rimg(r, *s, *l), dict(xf=xf, xfq=0, yf=yf, yfq=0, method='bilinear'), 8))
        elif k == 2 and xf * yf <= 61:
            out.append(case('scale', rimg(r, *s, *l), dict(xf=xf, xfq=0, yf=yf, yfq=0, method='bicubic'), 6))
        elif k == 3:
            xf, yf = r.choice([1, 2, 3, 4, 6, 12]), r.choice([1, 2, 3, 4, 6, 12])
            out.append(case('lanczos', rimg(r, *r.choice([(1, 1), (2, 1), (3, 2), (2, 3), (1, 4), (5, 2)]), *l), dict(xf=xf, xfq=0, yf=yf, yfq=0, n=r.choice([1, 2, 3, 4, 5, 6, 7, 8])), 8))
            if r.random() < .5:
                s = r.choice([(1, 1), (5, 2), (12, 1), (1, 20), (30, 1), (1, 41), (3, 3)])
                xf, yf = (r.choice([1, 2, 3]), r.choice([1, 2])) if s[0] > s[1] else (r.choice([1, 2]), r.choice([1, 2, 3]))
                out.append(case('lanczos', rimg(r, *s, 1, False, hi=r.choice([255, 90])), dict(xf=xf, xfq=0, yf=yf, yfq=0, n=r.choice([9, 10, 12, 16, 20])), 8))
    for _ in range(c.n(24, 240)):       # the same large factor both ways
        w, f = r.choice([(1, 1), (2, 1), (1, 2), (3, 1), (2, 2)]), r.choice([16, 20, 24, 25, 32, 33, 40, 64])
        m = r.choice(['nn', 'bilinear', 'bilinear', 'bicubic', 'lanczos'])
        if m == 'bicubic' and f * f > 61 or w[0] * w[1] * f * f > (1200 if m == 'lanczos' else 5000):
            m = 'bilinear'
        if w[0] * w[1] * f * f <= 9000:
            out.append(case('scale', rimg(r, *w, *r.choice([(1, False), (2, True)])), dict(xf=f, xfq=0, yf=f, yfq=0, method=m), {'nn': 0, 'bilinear': 8, 'lanczos': 8, 'bicubic': 6}[m]))
    for _ in range(c.n(60, 600)):       # one axis shrunk, the other enlarged
        s = r.choice([(2, 2), (4, 1), (5, 3), (8, 2), (3, 4), (2, 7), (9, 9), (1, 6)])
        a, q = r.choice([(1, 1), (1, 2), (3, 2), (5, 3), (7, 3), (1, 3), (11, 4)])
        b, bq = r.choice([(2, 0), (4, 0), (9, 0), (10, 0), (12, 0), (17, 1), (20, 0), (25, 1), (40, 0)])
        m = r.choice(['nn', 'bilinear', 'bilinear', 'bicubic'])
        if m == 'bicubic' and a * b > 61:
            m = 'bilinear'
        x = dict(xf=a, xfq=q, yf=b, yfq=bq, method=m) if r.random() < .5 else dict(xf=b, xfq=bq, yf=a, yfq=q, method=m)
        if gen.sdim(s[0], x['xf'], x['xfq']) * gen.sdim(s[1], x['yf'], x['yfq']) < 2000:
            out.append(case('scale', rimg(r, *s, *r.choice(LAY)), x, {'nn': 0, 'bilinear': 8, 'bicubic': 6}[m]))
    for _ in range(c.n(40, 400)):       # a shrink to almost nothing, one axis kept, and factors next to one
        s = r.choice([(40, 3), (3, 40), (64, 1), (1, 64), (100, 2), (17, 5)])
        l = r.choice(G1 + [(3, False)])
        a, q = r.choice([(1, 5), (1, 6), (3, 6), (63, 6), (65, 6), (127, 7), (129, 7), (255, 8), (257, 8), (1023, 10), (1025, 10)])
        b, bq = r.choice([(1, 0), (a, q), (1, 1), (2, 0)])
        m = r.choice(['nn', 'nn', 'bilinear'])
        if m == 'bilinear' and a * b >= 30000:
            m = 'nn'
        out.append(case('scale', rimg(r, *s, *l), dict(xf=a, xfq=q, yf=b, yfq=bq, method=m) if r.random() < .5 else dict(xf=b, xfq=bq, yf=a, yfq=q, method=m), 0 if m == 'nn' else 8))
    return out


def tag(s, l):
    return img(*s, *l, [4 * t + k + 1 for t in range(s[0] * s[1]) for k in range(l[0])])


def C31(c):
    r, out = c.r, []
    for s in [(900, 12), (12, 900), (500, 8), (8, 500), (600, 1), (1, 600), (300, 30)]:
        for d in r.sample([1, -1, 2, -2, 3, -3, 4, 5, 7, 359, 361, 719, 721, -359, -361, 1439, 1441, -1439], c.n(3, 10)):
            out.append(case('rotate', tag(s, r.choice([(1, False), (2, True)]) if s[0] * s[1] < 3000 else (1, False)), {'deg': d, 'degq': 2}, 0))
    for d in [360, 450, 540, 630, 720, 1080, 3600, 3690, -90, -180, -270, -360, -450, -720, -3600, 36000, 36090, -36090, 360000]:
        s = r.choice([(3, 2), (2, 5), (7, 3), (1, 4), (6, 6)])
        out.append(case('rotate', tag(s, r.choice([(1, False), (2, True), (3, False)])), {'deg': d, 'degq': 0}, 0))
    for _ in range(c.n(60, 500)):       # every quarter degree of a few turns
        s = r.choice([(3, 2), (2, 5), (7, 3), (1, 9), (9, 1), (6, 6), (12, 5)])
        out.append(case('rotate', tag(s, r.choice([(1, False), (2, True), (3, False)])), {'deg': r.randint(-14400, 14400), 'degq': 2}, 0))
    return out


def C32(c):
    r, out = c.r, []
    for _ in range(c.n(120, 1200)):
        k = r.choice([3, 4, 5, 6, 8, 10, 16, 20, 33, 50]) * r.choice([1, -1])
        q = r.choice([0, 0, 1, 2, 4])
        k = (k << q) + (r.randint(-3, 3) if q else 0)
        s, l = r.choice([(3, 2), (2, 3), (5, 4), (1, 7), (7, 1), (1, 1), (4, 6)]), r.choice(LAY)
        if abs(k) >> q > 20 and s[0] * s[1] > 9:
            s = (3, 2)
        z = r.choice(['x', 'y', 'both'])
        im = img(*s, *l, [1 + (37 * t + r.randint(0, 3)) % 251 for t in range(s[0] * s[1] * l[0])])
        if z == 'both':
            k2 = r.choice([r.randint(-3 << q, 3 << q), k, -k])
            if (abs(k2) >> q) * (abs(k) >> q) * s[0] * s[1] > 3000:
                k2 = 1
            k, k2 = (k, k2) if r.random() < .5 else (k2, k)
            out.append(case('shear', im, {'sx': k, 'sxq': q, 'sy': k2, 'syq': q}, 0))
        else:
            out.append(case('shear', im, {'sx': k if z == 'x' else 0, 'sxq': q, 'sy': k if z == 'y' else 0, 'syq': q}, 0))
    return out


def C33(c):
    r, out = c.r, []
    for _ in range(c.n(60, 600)):       # one unit in the last place from a half or a whole
        n = r.choice([0, 0, 0, 1, 1, 2, 3, 7, 100, 126, 127, 128, 200, 253, 254, 255])
        bits = n.bit_length()
        for ty in ('f32', 'f64'):
            q = (24 - bits if n else 25) if ty == 'f32' else 30 - bits - (0 if n else 1)
            q = min(q, 30 - max(bits, 1))
            if ty == 'f64':
                q = min(q, 22)
            h = (2 * n + 1) << (q - 1)
            d = [h - 1, h, h + 1 if ty == 'f64' or n else h + 2, (n << q) + (1 if n or ty == 'f64' else 0), max(0, (n << q) - 1) if ty == 'f64' else n << q]
            if ty == 'f32':      # keep what 24 bits hold
                d = [v for v in d if struct.unpack('f', struct.pack('f', v / 2.0 ** q))[0] * 2.0 ** q == v]
            d = (d * 5)[:5]
            out.append(case('conv', img(5, 1, 1, False, d, q), {'from': ty, 'to': 'u8'}))
    for sc in [300, 511, 512, 1000, 1023, 4096, 10000, 16384, 65535] + [r.randint(256, 60000) for _ in range(c.n(10, 100))]:
        # 2 * 255 * v stays below 2^31
        d = [v for v in (0, 1, sc // 255, sc // 2, sc // 2 + 1, sc - 1, sc, sc + 1, 2 * sc, r.randint(0, sc), r.randint(0, sc), -1) if v * 510 < 2 ** 31]
        out.append(case('f2u8', img(len(d), 1, 1, False, d, 0), {'scale': sc}))
        if sc <= 2000:
            out.append(case('rt_u8f', ramp256_(), {'scale': sc}))
    return out


def ramp256_():
    import gen
    return gen.ramp256()


def C36(c):
    r, out = c.r, []
    for _ in range(c.n(60, 500)):
        n = r.choice([1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 16, 17])
        m, v = kerr(r, n * n, -20, 20), kerr(r, n, -30, 30)
        q1, q2 = r.choice([0, 0, 3]), r.choice([0, 0, 1])
        out.append(case('vecmul', None, {'mat': m, 'matq': q1, 'vec': v, 'vecq': q2}, q1 + q2))
        out.append(case('vecmulmut', None, {'mat': m, 'matq': q1, 'vec': v, 'vecq': q2, 'pre': [0] * r.choice([n, n, n, 0, 1, n + 1, 2 * n]), 'fill': r.choice(['inf', '-inf', 'nan', 'max', 'tiny'])}, q1 + q2))
        out.append(case('vecmuli', None, {'mat': m, 'matq': 0, 'vec': v, 'vecq': 0}, 0))
    for a in (1, 2, 3, 4, 5, 6, 7, 8):
        for _ in range(c.n(8, 60)):
            vq = r.choice([2, 8])
            out.append(case('lanczosk', None, {'v': r.randint(-a << vq, a << vq), 'vq': vq, 'a': a}, 14))
    for _ in range(c.n(40, 300)):
        k = r.choice([3, 4])
        v = [r.choice([-1, 1]) * r.choice([0, 1, 255, 256, 65535, 1 << 20, (1 << 23) + 1, r.randint(0, 1 << 24)]) for _ in range(k)]
        if r.random() < .5:
            v = [-abs(z) for z in v]
        out.append(case(r.choice(['max', 'min']) + str(k), None, {'v': v, 'vq': 0}, 0))
    for _ in range(c.n(60, 500)):       # far from zero
        vq = r.choice([0, 1, 2, 5, 8, 10])
        v = r.choice([r.randint(8 << vq, 20 << vq), r.randint(8 << vq, 100 << vq), r.randint(100 << vq, 2000 << vq)])
        out.append(case('sinc', None, {'v': v * r.choice([1, -1]), 'vq': vq}, 14))
        a = r.choice([9, 10, 11, 12, 13, 16, 20, 25])
        out.append(case('lanczosk', None, {'v': r.choice([r.randint(-a << vq, a << vq), r.randint(-12 << vq, 12 << vq), r.randint(-2 * a << vq, 2 * a << vq)]), 'vq': vq, 'a': a}, 14))
    for _ in range(c.n(60, 500)):       # three to six standard deviations out
        sg, sgq = r.choice([(1, 4), (1, 5), (1, 4), (3, 5), (3, 6)])
        vq = sgq + r.choice([1, 2])
        v = r.randint(3 * sg << (vq - sgq), 6 * sg << (vq - sgq))
        if v * v * 512 << (2 * sgq) >= 2 ** 31:
            continue
        out.append(case('gaussfn', None, {'v': v * r.choice([1, -1]), 'vq': vq, 'sg': sg, 'sgq': sgq}, 28))
    for _ in range(c.n(60, 500)):       # indices near and above 2^24
        w = r.choice([1, 2, 3, 4, 5, 7, 8, 10, 100, 640, 1000, 4096, 10007, 65535])
        k = r.choice([2 ** 24 - 1, 2 ** 24 + 1, 33554431, 2 ** 25 + 3, 10 ** 9, r.randint(2 ** 24, 10 ** 9), r.randint(2 ** 20, 2 ** 24)])
        k = r.choice([k, k // w * w, k // w * w - 1, k // w * w + w - 1])
        out.append(case('coords', None, {'k': min(k, 10 ** 9), 'w': w}))
    return out


def C08(c):
    r, out = c.r, []
    for _ in range(c.n(60, 600)):
        n = r.randint(8, 254)
        w = r.choice([1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 40, 64, 65, 70, 97])
        ch = r.choice([1, 2, 3, 4])
        from cases import CAT as K
        x = K['addsn']['f'](r, (w, 1), (ch, False)) if 'addsn' in K else None
        if x:
            x['p']['n'] = n
            out.append(x)
    return out


F = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}


def items(pid, c):
    return F[pid](c) if pid in F else []
