"""The calls of the other generators again on large images (inputs only): rows and columns of more than 1000 pixels,
images of more than 4096, 10000 and 65536 pixels, and layouts the small cases leave out."""
from cases import *

# judging cost per sample: cheap point operations, moves, windows, expensive ones
LONG = [(1030, 1), (1, 1030), (2, 515), (517, 2), (3, 345), (260, 4)]
MID = [(70, 61), (61, 70), (130, 33), (33, 129)]                 # more than 4096
LARGE = [(110, 95), (95, 110), (257, 41), (41, 257)]             # more than 10000
HUGE = [(300, 221), (221, 300), (260, 255)]                      # more than 65536 (or 2^16 samples)
WIDE = [(65700, 1), (1, 65700)]                                 # rows and columns past 16 bits
BROAD = {'crop', 'translate', 'reflect', 'overlay', 'superimpose', 'subimage', 'nbr1', 'nbr2', 'rectsum'}
POINT = {'contrast', 'brightness', 'u82f', 'threshold', 'lin', 'unlin', 'gray', 'gray_f32', 'f2u8', 'gamma', 'map', 'scalech', 'normlap', 'adds',
         'addsn', 'avg', 'avg3', 'avg4', 'rt_lin', 'rt_u8f', 'conv', 'residual'}
MOVE = {'crop', 'translate', 'reflect', 'reflect2', 'overlay', 'superimpose', 'subimage', 'shear', 'nbr1', 'nbr2', 'sat', 'rectsum', 'rectof', 'deint'}
COLOUR = {'hsv', 'unhsv', 'hsvf', 'unhsvf', 'saturation', 'rt_hsv', 'rt_hsvf', 'rt_xyz', 'rt_lab', 'srgb2xyz', 'lin2xyz', 'xyz2lin', 'rt_linxyz', 'xyz2srgb', 'xyz2lab',
          'srgb2lab', 'lab2xyz', 'lab2srgb', 'rt_xyzlab', 'hist'}
COSTLY = {'brightness_lab', 'contrast_lab'}
WINDOW = {'filter1d', 'sep', 'unsep', 'sharpen', 'laplacian', 'prewitt', 'sobel', 'sobelw', 'deriv', 'linear', 'box', 'wavg', 'erode', 'dilate', 'majority', 'gradient', 'open', 'close', 'median', 'trimmed',
          'unsharp', 'gauss', 'log'}
BLIND = {'C05', 'C06', 'C09'}                                    # judged without computing the operation
NEVER = {'pixel', 'kernel1', 'kernel2', 'histeq', 'open2', 'close2'}


def pools(pid, op, tier):
    """The sizes an operation is tried at, one call each."""
    if pid in BLIND:
        if op in ('bilateral', 'log', 'unsharp', 'histeq') or op == 'scale' or op == 'lanczos' or op == 'rotate':
            return [LONG, MID] + ([] if pid == 'C06' else [LARGE])
        return [LONG, LONG, MID, LARGE] + ([HUGE] if op in POINT or op in MOVE or op == 'hsv' or op == 'saturation' else [])
    if op in POINT:
        return [LONG, LONG, LONG, MID, LARGE, HUGE]
    if op in MOVE:
        return [LONG, LONG, LONG, MID, LARGE] + ([HUGE] if op in ('reflect', 'crop', 'subimage') else []) + ([WIDE, WIDE] if op in BROAD else [])
    if op in COLOUR:
        return [LONG, LONG, MID, LARGE]
    if op in COSTLY:
        return [LONG, MID]
    if op in WINDOW:
        return [LONG, LONG, LONG, MID] + ([LARGE] if op in ('filter1d', 'sep', 'sharpen', 'erode', 'dilate', 'median', 'sobel', 'unsep') else []) + ([WIDE] if op in ('filter1d', 'median', 'erode', 'dilate') else [])
    return [LONG]


def ksize(it):
    p = it['p']
    return max([p.get('n', 0), 2 * p.get('r', 0) + 1] + [len(p[k]) if k in ('vk', 'hk') else int(len(p[k]) ** .5) for k in ('ker', 'vk', 'hk') if isinstance(p.get(k), list)])


def one(it):
    return it['pair'][0] if 'pair' in it else it


def fits(it):
    """May this call be repeated on another image of the same kind?"""
    if 'pair' in it:
        a, b = it['pair']
        return a['op'] == b['op'] and fits(a) and fits(b) and all(a['in'][k] == b['in'][k] for k in 'whc')
    if 'calls' in it or it.get('op') in NEVER:
        return False
    im = it.get('in')
    if not isinstance(im, dict) or not im.get('d') or im['w'] * im['h'] == 0 or im['w'] * im['h'] * im['c'] != len(im['d']):
        return False
    if 'b' in it and not it['b'].get('d'):
        return False
    p = it['p']
    return not (p.get('mono') or p.get('ramp') or 't' in im or p.get('sym', 'none') != 'none' or len(p.get('pre', [])) or isinstance(im['d'][0], str))


def fill(r, im, w, h):
    """w x h pixels of the image's own, as noise or in order."""
    c, d = im['c'], im['d']
    px = [d[i:i + c] for i in range(0, len(d), c)]
    n = w * h
    if r.random() < .6:
        ch = r.choices(px, k=n)
    else:
        k = r.randrange(len(px))
        ch = [px[(k + i) % len(px)] for i in range(n)]
    out = dict(im, w=w, h=h, d=[v for q in ch for v in q])
    return out


def again(r, it, w, h):
    """The call on a w x h image, positions moved into it."""
    if 'pair' in it:                          # the same pixels in both
        state = r.getstate()
        a = again(r, it['pair'][0], w, h)
        r.setstate(state)
        b = again(r, it['pair'][1], w, h)
        return a and b and dict(pair=[a, b])
    op, p = it['op'], dict(it['p'])
    new = dict(it, p=p)
    new.pop('cost', None)
    if op == 'rotate':
        im = it['in']
        c = im['c']
        new['in'] = dict(im, w=w, h=h, d=[4 * t + k + 1 for t in range(w * h) for k in range(c)])
        return new
    state = r.getstate()
    new['in'] = fill(r, it['in'], w, h)
    if op == 'residual':
        r.setstate(state)
        new['b'] = fill(r, it['b'], w, h)
    elif op in ('overlay', 'superimpose'):
        bw, bh = r.choice([(w, h), (r.randint(1, w), r.randint(1, h)), (w + 3, max(1, h - 1)), (7, 9)])
        new['b'] = fill(r, it['b'], bw, bh)
        p['x'], p['y'] = r.choice([0, r.randrange(w), w - 1]), r.choice([0, r.randrange(h), h - 1])
        if r.random() < .4:
            p['x'] = p['y'] = 0
    elif op in ('crop', 'subimage'):
        p['x'], p['y'] = r.choice([0, r.randrange(w), w - w // 20 - 1]), r.choice([0, r.randrange(h), h - h // 20 - 1])
        p['w'] = r.choice([w - p['x'], r.randint(1, w - p['x'])])
        p['h'] = r.choice([h - p['y'], r.randint(1, h - p['y'])])
    elif op in ('nbr1', 'nbr2'):
        p['x'], p['y'] = r.choice([0, w - 1, r.randrange(w), w // 2 + r.randrange(w - w // 2)]), r.choice([0, h - 1, r.randrange(h), h // 2 + r.randrange(h - h // 2)])
    elif op == 'translate':
        p['x'], p['y'] = r.choice([0, 1, w // 2, w - 1, w]), r.choice([0, 1, h // 2, h - 1, h])
    elif op in ('rectsum', 'rectof'):
        xs, ys = sorted(r.choices(range(w), k=2)), sorted(r.choices(range(h), k=2))
        lo = 1 if op == 'rectof' else 0
        if op == 'rectof' and (w < 2 or h < 2):
            return None
        if r.random() < .4:
            xs, ys = [lo, w - 1], [lo, h - 1]
        p['x0'], p['x1'] = max(lo, xs[0]), max(lo, xs[1])
        p['y0'], p['y1'] = max(lo, ys[0]), max(lo, ys[1])
    elif op in ('scale', 'lanczos'):
        f = max(p['xf'] / 2 ** p['xfq'], p['yf'] / 2 ** p['yfq'])
        if f * f * w * h > 12000:
            return None
    elif op == 'shear':
        if abs(p['sx']) / 2 ** p['sxq'] * h * h + abs(p['sy']) / 2 ** p['syq'] * w * w > 40000:
            return None
    elif op in ('addsn', 'deint') and op == 'deint':
        return None
    return new


LAYOUTS = [(1, False), (2, False), (2, True), (3, False), (3, True), (4, False), (4, True), (5, False), (5, True), (6, False), (7, True)]
MANY = [(6, True), (8, False), (9, True), (10, False), (16, True), (17, False), (32, True), (33, False), (33, True), (40, False), (64, True), (128, False), (255, True)]


def relaid(r, x, lay):
    """The same call on an image with other channels."""
    if 'pair' in x:
        return None
    x = dict(x)
    for k in ('in', 'b'):
        if k in x:
            im = x[k]
            x[k] = dict(im, c=lay[0], a=lay[1], d=r.choices(im['d'], k=im['w'] * im['h'] * lay[0]))
    if x['op'] == 'rotate':
        im = x['in']
        im['d'] = [4 * t + k + 1 for t in range(im['w'] * im['h']) for k in range(im['c'])]
    if x['op'] == 'residual':
        x['b']['d'] = [min(u, v) for u, v in zip(x['in']['d'], x['b']['d'])]
    return x


def items(pid, c, base):
    r = c.r
    ops = {}
    for it in base:
        if fits(it):
            ops.setdefault(one(it)['op'], []).append(it)
    out = []
    for op in sorted(ops):
        its = ops[op]
        lay = {}
        for it in its:
            im = one(it)['in']
            lay.setdefault((im['c'], im['a'], im.get('q', 0)), []).append(it)
        if len({l[:2] for l in lay}) >= 5 and op not in ('hist', 'map'):      # an operation that takes any layout
            for l in LAYOUTS + r.sample(MANY, 5):
                for _ in range(2 * c.n(1, 4)):
                    w, h = r.choice([(1, 1), (5, 1), (1, 6), (4, 3), (7, 5), (17, 2), (3, 11), (33, 1), (9, 8)] if l[0] < 8 else [(1, 1), (3, 1), (1, 3), (2, 2)])
                    it = r.choice(its)
                    x = None if ksize(one(it)) > 9 or len(one(it)['p'].get('pre', [])) else again(r, it, w, h)
                    x = x and relaid(r, x, l)
                    if x:
                        out.append(x)
        for rep in range(c.n(1, 4)):
            for pool in pools(pid, op, c.tier):
                for _ in range(12):
                    item = r.choice(lay[r.choice(sorted(lay))])
                    it = one(item)
                    w, h = r.choice(pool)
                    n = w * h * it['in']['c']
                    if n > 140000 or (n > 45000 and op in WINDOW and pool is not WIDE) or (pool is WIDE and (n > 70000 or ksize(it) > 3)) or (op in WINDOW and ksize(it) > (5 if pid not in BLIND and w * h > 3000 else 9)):
                        continue
                    if op in ('log', 'unsharp', 'gauss') and w * h > 3000 and pid not in BLIND:
                        continue
                    if op == 'bilateral' and (w * h * (4 * it['p'].get('sp', 1) / 2 ** it['p'].get('spq', 0) + 1) ** 2 > 60000 if pid in BLIND else w * h * (4 * it['p']['sp'] / 2 ** it['p']['spq'] + 1) ** 2 > 15000):
                        continue
                    x = again(r, item, w, h)
                    if x:
                        if 'p' in x and x['p'].get('exact') and w * h > 400:
                            x['p']['exact'] = False
                        out.append(x)
                        break
    return out
