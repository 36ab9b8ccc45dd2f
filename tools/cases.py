"""Input generation.  Produces calls only; every verdict is the specification's.

A case is a dict: op, in (image), p (parameters), optionally b (second image), oq (scale at which the
result is recorded), ty (sample type), or {'calls': [...]} for a session (register or file history), or
{'pair': (case, case, params)} for two calls judged together."""
import random

COLOUR = [(3, False), (4, True)]
GRAY = [(1, False), (2, True)]
LAYOUTS = GRAY + COLOUR
ANYC = LAYOUTS + [(2, False), (5, False), (4, False)]
SMALL = [(1, 1), (1, 2), (2, 1), (1, 6), (6, 1), (2, 2), (3, 3), (4, 3), (2, 5), (5, 2), (6, 5)]
EMPTY = [(0, 0), (0, 3), (3, 0)]
WIDE = [(8, 1), (10, 1), (11, 1), (16, 1), (21, 1), (22, 1), (31, 1), (32, 1), (33, 1), (43, 1), (64, 1), (65, 1), (7, 3), (13, 5),
        (11, 3), (8, 4), (16, 2), (9, 11), (17, 6), (32, 3), (33, 3), (1, 40), (1, 97)]


def img(w, h, c, a, d, q=0):
    assert len(d) == w * h * c, (w, h, c, len(d))
    return {'w': w, 'h': h, 'c': c, 'a': a, 'q': q, 'd': list(d)}


def rimg(r, w, h, c, a, hi=255, lo=0, q=0, kind=None):
    """A random image; kind chooses a texture."""
    n = w * h * c
    kind = kind or r.choice(['noise', 'noise', 'noise', 'few', 'flat', 'ramp', 'edge', 'dot', 'extreme'])
    if kind == 'noise':
        d = [r.randint(lo, hi) for _ in range(n)]
    elif kind == 'few':
        v = [r.randint(lo, hi) for _ in range(3)]
        d = [r.choice(v) for _ in range(n)]
    elif kind == 'flat':
        v = [r.randint(lo, hi) for _ in range(c)]
        d = [v[i % c] for i in range(n)]
    elif kind == 'ramp':
        s, m = r.randint(1, 17), r.randint(lo, hi)
        d = [lo + (m + s * i) % (hi - lo + 1) for i in range(n)]
    elif kind == 'edge':
        x0, u, v = r.randint(0, max(w, 1)), r.randint(lo, hi), r.randint(lo, hi)
        d = [(u if (i // c) % max(w, 1) < x0 else v) for i in range(n)]
    elif kind == 'dot':
        d = [lo] * n
        if n:
            d[r.randrange(n)] = hi
    elif kind == 'extreme':
        d = [r.choice([lo, hi]) for _ in range(n)]
    else:
        raise ValueError(kind)
    return img(w, h, c, a, d, q)


def case(op, im=None, p=None, oq=None, b=None, ty=None, **kw):
    e = {'op': op, 'p': p or {}}
    if im is not None:
        e['in'] = im
    if oq is not None:
        e['oq'] = oq
    if b is not None:
        e['b'] = b
    if ty is not None:
        e['ty'] = ty
    e.update(kw)
    return e


def lay(im, **kw):
    im = dict(im)
    im.update(kw)
    return im


def kerr(r, n, lo=-4, hi=4):
    return [r.randint(lo, hi) for _ in range(n)]


# ------------------------------------------------------------------ catalogue of valid calls
# Each entry: op -> function(r, shape, layout) -> case; `lays` the layouts it accepts; `u8` whether the image
# holds bytes; `empty` whether an image without pixels is a sensible input.
CAT = {}


def op(name, lays=ANYC, empty=True, img=True, group=''):
    def deco(f):
        CAT[name] = dict(f=f, lays=lays, empty=empty, img=img, group=group)
        return f
    return deco


def _simple(name, lays, mkp, lo=0, hi=255, q=0, oq=None, empty=True, group=''):
    def f(r, s, l):
        return case(name, rimg(r, s[0], s[1], l[0], l[1], hi, lo, q), mkp(r), oq)
    CAT[name] = dict(f=f, lays=lays, empty=empty, img=True, group=group)


def bias(r):
    return r.choice([-255, -254, -128, -127, -1, 0, 1, 127, 128, 129, 254, 255, r.randint(-255, 255), r.randint(-255, 255)])


def white(r):
    return r.choice(['D50', 'D65'])


_simple('brightness', ANYC, lambda r: {'b': bias(r)}, group='tone')
_simple('brightness_lab', COLOUR, lambda r: {'b': bias(r)}, group='tone')
_simple('contrast', ANYC, lambda r: {'g': r.choice([0, 1, 64, 128, 255, 256, r.randint(0, 256)]), 'gq': 8}, group='tone')
_simple('contrast_lab', COLOUR, lambda r: {'g': r.choice([0, 1, 64, 128, 255, 256, r.randint(0, 256)]), 'gq': 8}, group='tone')
_simple('saturation', COLOUR, lambda r: {'s': bias(r)}, group='tone')
_simple('gamma', ANYC, lambda r: {'e': r.choice([8, 16, 24, 32, 35, 48, r.randint(1, 64)]), 'eq': 4, 'm': r.choice([255, 255, 1, 128, r.randint(1, 255)])}, group='tone')
_simple('histeq', COLOUR, lambda r: {'al': r.choice([0, 16, r.randint(0, 16)]), 'alq': 4, 'white': white(r), 'prec': r.choice([1, 4, 255]), 'precq': 0}, group='tone')
_simple('gray', COLOUR, lambda r: {}, empty=False, group='color')
_simple('gray_f32', COLOUR, lambda r: {}, q=2, oq=8, empty=False, group='color')
_simple('lin', ANYC, lambda r: {}, oq=15, group='color')
_simple('unlin', ANYC, lambda r: {}, hi=32768, q=15, group='color')
_simple('lin2xyz', COLOUR, lambda r: {}, hi=32768, q=15, oq=15, group='color')
_simple('xyz2lin', COLOUR, lambda r: {}, hi=32768, q=15, oq=15, group='color')
_simple('xyz2lab', COLOUR, lambda r: {'white': white(r)}, hi=32768, q=15, oq=12, group='color')
_simple('lab2xyz', COLOUR, lambda r: {'white': white(r)}, hi=409600, q=12, oq=12, group='color')
_simple('srgb2xyz', COLOUR, lambda r: {}, oq=15, group='color')
_simple('xyz2srgb', COLOUR, lambda r: {}, hi=32768, q=15, group='color')
_simple('srgb2lab', COLOUR, lambda r: {'white': white(r)}, oq=12, group='color')
_simple('lab2srgb', COLOUR, lambda r: {'white': white(r)}, hi=409600, q=12, group='color')
_simple('hsv', COLOUR, lambda r: {}, group='color')
_simple('unhsv', COLOUR, lambda r: {}, group='color')
_simple('hsvf', COLOUR, lambda r: {}, oq=16, group='color')
_simple('unhsvf', COLOUR, lambda r: {}, hi=128, q=7, group='color')


def side(r, hi=7):
    return r.choice([n for n in (1, 3, 5, 7, 9) if n <= hi])


_simple('filter1d', ANYC, lambda r: {'ker': kerr(r, side(r)), 'kerq': 1, 'v': r.random() < .5}, oq=1, group='filter')


@op('sep', group='filter')
def _(r, s, l):
    n = side(r)
    return case('sep', rimg(r, *s, *l), {'vk': kerr(r, n), 'vkq': 1, 'hk': kerr(r, n), 'hkq': 1}, 2)


_simple('unsep', ANYC, lambda r: {'ker': kerr(r, side(r, 5) ** 2), 'kerq': 1}, oq=1, group='filter')


@op('linear', group='filter')
def _(r, s, l):
    n = side(r, 5)
    if r.random() < .5:
        v, h = kerr(r, n), kerr(r, n)
        k = [a * b for a in v for b in h]
    else:
        k = kerr(r, n * n)
    return case('linear', rimg(r, *s, *l), {'ker': k, 'kerq': 0, 'tol': 0}, 6)


_simple('box', ANYC, lambda r: {'n': side(r, 9)}, oq=8, group='filter')
_simple('wavg', ANYC, lambda r: {'n': side(r), 'wt': r.choice([0, 1, 2, 3, 10, 100]) + 1}, oq=8, group='filter')
_simple('gauss', ANYC, lambda r: {'n': side(r), 'sg': r.randint(2, 24), 'sgq': 3}, oq=4, group='filter')
_simple('sharpen', ANYC, lambda r: {}, oq=0, group='filter')
_simple('unsharp', ANYC, lambda r: {}, oq=8, group='filter')
METHODS = ['Binary', 'BinaryInv', 'Trunc', 'ToZero', 'ToZeroInv']
_simple('threshold', GRAY, lambda r: {'t': r.randint(0, 255) * 4, 'tq': 2, 'max': r.choice([0, 255, r.randint(0, 255)]) * 4, 'maxq': 2, 'method': r.choice(METHODS)},
        q=2, oq=2, hi=1020, group='point')
_simple('prewitt', GRAY, lambda r: {}, oq=4, group='edge')
_simple('sobel', GRAY, lambda r: {}, oq=4, group='edge')
_simple('sobelw', GRAY, lambda r: {'wt': r.choice([0, 1, 2, 3, 4])}, oq=4, group='edge')


@op('deriv', lays=GRAY, group='edge')
def _(r, s, l):
    n = side(r, 3)
    return case('deriv', rimg(r, *s, *l), {'vk': kerr(r, n, -1, 2), 'vkq': 0, 'hk': kerr(r, n, -1, 1), 'hkq': 0}, 4)


_simple('laplacian', GRAY, lambda r: {}, oq=0, group='edge')
_simple('log', GRAY, lambda r: {'n': side(r), 'sg': r.randint(3, 8), 'sgq': 2}, oq=8, group='edge')


@op('normlap', lays=[(1, False)], empty=False, group='edge')
def _(r, s, l):
    im = rimg(r, *s, *l, hi=1020, lo=-1020)
    return case('normlap', im, {})


_simple('median', ANYC, lambda r: {'r': r.choice([0, 1, 1, 2, 3])}, group='order', empty=False)


@op('trimmed', empty=False, group='order')
def _(r, s, l):
    rad = r.choice([0, 1, 1, 2])
    n = (2 * rad + 1) ** 2
    return case('trimmed', rimg(r, *s, *l), {'r': rad, 'al': r.choice([0, n - 1, 2 * r.randint(0, (n - 1) // 2)])})


_simple('bilateral', [(3, False)], lambda r: {'range': r.choice([4, 20, 60, 400]), 'rangeq': 2, 'sp': r.choice([1, 2, 4, 6]), 'spq': 2}, group='order', empty=False)
for _n in ('erode', 'dilate', 'majority', 'gradient', 'open', 'close'):
    def _f(r, s, l, name=_n):
        im = rimg(r, *s, *l)
        im['d'] = [v if l[1] and (i % l[0]) == l[0] - 1 else (255 if v > 90 else 0) for i, v in enumerate(im['d'])]
        return case(name, im, {'r': r.choice([0, 1, 1, 2, 3])})
    CAT[_n] = dict(f=_f, lays=GRAY, empty=False, img=True, group='morph')
_simple('sat', ANYC, lambda r: {}, oq=0, group='sat')
TYPES = ['u8', 'u8', 'u16', 'u32', 'i16', 'i32', 'f32', 'f64']


@op('crop', group='geom')
def _(r, s, l):
    x, y = r.randint(0, s[0]), r.randint(0, s[1])
    return case('crop', rimg(r, *s, *l), {'x': x, 'y': y, 'w': r.randint(0, s[0] - x), 'h': r.randint(0, s[1] - y)}, 0, ty=r.choice(TYPES))


@op('translate', group='geom')
def _(r, s, l):
    return case('translate', rimg(r, *s, *l), {'x': r.choice([0, 1, r.randint(0, s[0] + 2)]), 'y': r.choice([0, 1, r.randint(0, s[1] + 2)])}, 0, ty=r.choice(TYPES))


@op('reflect', group='geom')
def _(r, s, l):
    return case('reflect', rimg(r, *s, *l), {'axis': r.choice(['Horizontal', 'Vertical'])}, 0, ty=r.choice(TYPES))


@op('overlay', group='geom')
def _(r, s, l):
    f = (r.randint(0, s[0] + 2), r.randint(0, s[1] + 2))
    return case('overlay', rimg(r, *s, *l), {'x': r.randint(0, s[0] + 2), 'y': r.randint(0, s[1] + 2)}, 0, rimg(r, *f, *l), ty=r.choice(TYPES))


@op('superimpose', group='geom')
def _(r, s, l):
    f = (r.randint(0, s[0] + 2), r.randint(0, s[1] + 2))
    return case('superimpose', rimg(r, *s, *l), {'x': r.randint(0, s[0] + 2), 'y': r.randint(0, s[1] + 2), 'wt': r.choice([0, 8, 4, r.randint(0, 8)]), 'wtq': 3}, 3,
                rimg(r, *f, *l))


@op('residual', group='geom')
def _(r, s, l):
    t = r.choice(['i16', 'i32', 'f32', 'f64'])
    return case('residual', rimg(r, *s, *l), {}, 0, rimg(r, *s, *l), ty=t)


def factor(r):
    q = r.choice([0, 1, 2, 3, 4])
    return r.choice([1 << q, r.randint(1, 4 << q)]), q


@op('scale', empty=False, group='geom')
def _(r, s, l):
    m = r.choice(['nn', 'bilinear', 'bicubic', 'lanczos'])
    (xf, xq), (yf, yq) = factor(r), factor(r)
    return case('scale', rimg(r, *s, *l), {'xf': xf, 'xfq': xq, 'yf': yf, 'yfq': yq, 'method': m}, 6)


@op('lanczos', empty=False, group='geom')
def _(r, s, l):
    (xf, xq), (yf, yq) = factor(r), factor(r)
    return case('lanczos', rimg(r, *s, *l), {'xf': xf, 'xfq': xq, 'yf': yf, 'yfq': yq, 'n': r.randint(1, 5)}, 6)


@op('rotate', group='geom', empty=False)
def _(r, s, l):
    return case('rotate', rimg(r, *s, *l), {'deg': r.choice([0, 90, 180, 270, 360, r.randint(0, 360)]), 'degq': 0}, 0)


@op('shear', group='geom')
def _(r, s, l):
    k = r.random()
    sx, sy = r.randint(-12, 12), r.randint(-12, 12)
    if k < .4:
        sy = 0
    elif k < .8:
        sx = 0
    return case('shear', rimg(r, *s, *l), {'sx': sx, 'sxq': 3, 'sy': sy, 'syq': 3}, 0)


@op('f2u8', group='conv')
def _(r, s, l):
    sc = r.choice([1, 1, 2, 100, 255])
    return case('f2u8', rimg(r, *s, *l, hi=sc * 64, q=6), {'scale': sc})


@op('u82f', group='conv')
def _(r, s, l):
    return case('u82f', rimg(r, *s, *l), {'scale': r.choice([1, 2, 100, 255])}, 10)


@op('scalech', group='conv')
def _(r, s, l):
    lo, span = r.randint(-20, 20), r.randint(1, 30)
    return case('scalech', rimg(r, *s, *l, hi=(lo + span) * 4, lo=lo * 4, q=2), {'cmin': lo, 'cmax': lo + span, 'smin': r.randint(-20, 20), 'smax': r.randint(-20, 40)}, 4)


@op('adds', empty=True, group='vec')
def _(r, s, l):
    return case('adds', rimg(r, *s, *l), {'val': bias(r), 'guard': r.choice([1, 2])})


@op('addsn', empty=True, group='vec')
def _(r, s, l):
    return case('addsn', rimg(r, *s, *l), {'val': bias(r), 'n': r.choice([0, 1, l[0] - 1, l[0], 7, 255]), 'guard': r.choice([1, 2])})


@op('avg', lays=COLOUR, empty=False, group='vec')
def _(r, s, l):
    return case('avg', rimg(r, *s, *l), {'guard': r.choice([1, 2])})


@op('avg3', lays=[(3, False)], group='vec')
def _(r, s, l):
    return case('avg3', rimg(r, *s, *l), {'guard': r.choice([1, 2])})


@op('avg4', lays=[(4, True)], group='vec')
def _(r, s, l):
    return case('avg4', rimg(r, *s, *l), {'guard': r.choice([1, 2])})


MAPS = ['map_pixels', 'map_pixels_if_alpha', 'map_channels', 'map_channels_if_alpha', 'apply_pixels', 'apply_pixels_if_alpha',
        'apply_channels', 'apply_channels_if_alpha', 'edit_channel']


def distinct(r, w, h, c, a, hi):
    n = w * h * c
    return img(w, h, c, a, r.sample(range(hi + 1), n))


@op('map', group='map')
def _(r, s, l):
    ty = r.choice(TYPES)
    n = s[0] * s[1] * l[0]
    if n > 80 and ty == 'u8':
        ty = 'i32'
    how = r.choice(MAPS)
    extra = 0
    if how.startswith('map_pixels') and n:
        extra = r.choice([0, 0, 1, 2, -1])
        nf = l[0] - 1 if l[1] and how.endswith('alpha') else l[0]
        if nf + extra < 1:
            extra = 1
    im = distinct(r, *s, *l, 80 if ty == 'u8' else 5000)
    if r.random() < .5:                     # runs of equal pixels and repeated samples
        pal = [[r.choice((0, 1, 7, 80)) for _ in range(l[0])] for _ in range(3)]
        d, px = [], pal[0]
        for _ in range(s[0] * s[1]):
            if r.random() < .5:
                px = r.choice(pal)
            d += px
        im = img(*s, *l, d)
    return case('map', im, {'how': how, 'extra': extra, 'k': r.randrange(l[0])}, ty=ty)


@op('subimage', group='sub', img=False, empty=False)
def _(r, s, l):
    x, y = r.randrange(s[0]), r.randrange(s[1])
    return case('subimage', rimg(r, *s, *l), {'x': x, 'y': y, 'w': r.randint(0, s[0] - x), 'h': r.randint(0, s[1] - y)}, ty=r.choice(TYPES))


@op('nbr1', group='sub', img=False, empty=False)
def _(r, s, l):
    return case('nbr1', rimg(r, *s, *l), {'x': r.randrange(s[0]), 'y': r.randrange(s[1]), 'n': r.randint(0, 9), 'v': r.random() < .5}, ty=r.choice(TYPES))


@op('nbr2', group='sub', img=False, empty=False)
def _(r, s, l):
    return case('nbr2', rimg(r, *s, *l), {'x': r.randrange(s[0]), 'y': r.randrange(s[1]), 'n': r.randint(0, 7)}, ty=r.choice(TYPES))


def valid(r, name, s=None, l=None):
    c = CAT[name]
    l = l or r.choice(c['lays'])
    s = s or r.choice(SMALL)
    return c['f'](r, s, l)
