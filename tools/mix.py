"""The calls of the other generators again, with size, layout and kind of content chosen independently of one another and of the
arguments (inputs only), so that combinations of two such choices are tried that no other generator happens to pick."""
from cases import *
import huge

SIZES = [1, 1, 2, 3, (4, 8), (9, 16), (17, 32), (33, 64), (65, 256), (257, 700)]


def size(r):
    s = r.choice(SIZES)
    return s if isinstance(s, int) else r.randint(*s)


def content(r, im):
    """The image's own samples, in another arrangement."""
    d, c = im['d'], im['c']
    px = [d[i:i + c] for i in range(0, len(d), c)]
    k = r.choice(['keep', 'flat', 'two', 'dot', 'split', 'cols', 'low', 'high'])
    if k == 'keep':
        return im
    a, b = r.choice(px), r.choice(px)
    n, w = len(px), im['w']
    if k == 'low':
        px = [r.choice(px[:3]) for _ in range(n)]
    elif k == 'high':
        t = sorted(px)
        px = [r.choice(t[-max(1, n // 4):]) for _ in range(n)]
    elif k == 'flat':
        px = [a] * n
    elif k == 'two':
        px = [r.choice((a, b)) for _ in range(n)]
    elif k == 'dot':
        px = [a] * n
        px[r.choice([0, n - 1, w - 1, n - w, r.randrange(n)])] = b
    elif k == 'split':
        t = r.randrange(n)
        px = [a] * t + [b] * (n - t)
    else:
        px = [a if (i % w) * 2 < w else b for i in range(n)]
    return dict(im, d=[v for q in px for v in q])


def items(pid, c, base):
    r, ops, out = c.r, {}, []
    for it in base:
        if huge.fits(it) and 'pair' not in it and 'cost' not in it:
            ops.setdefault(it['op'], []).append(it)
    for op in sorted(ops):
        lays = sorted({(it['in']['c'], it['in']['a']) for it in ops[op]})
        any_layout = len(lays) >= 5 and op not in ('hist', 'map')
        got = 0
        for _ in range(c.n(250, 1500)):
            if got >= c.n(90, 600):
                break
            it = r.choice(ops[op])
            if len(it['p'].get('pre', [])):
                continue
            w, h = size(r), size(r)
            lay = r.choice(lays) if any_layout else None
            ch = lay[0] if lay else it['in']['c']
            k = huge.ksize(it)
            lim = 300 if op in ('scale', 'lanczos', 'bilateral', 'log', 'unsharp', 'gauss', 'brightness_lab', 'contrast_lab') else 1500
            if w * h * ch > lim or (op in huge.WINDOW and w * h * ch * k * k > 16000):
                continue
            if op == 'bilateral' and w * h * (4 * it['p'].get('sp', 1) / 2 ** it['p'].get('spq', 0) + 1) ** 2 > 6000:
                continue
            x = huge.again(r, it, w, h)
            if x and lay and (ch, lay[1]) != (it['in']['c'], it['in']['a']):
                x = huge.relaid(r, x, lay)
            if not x:
                continue
            if op != 'rotate':
                x['in'] = content(r, x['in'])
            if op == 'residual':
                x['b'] = dict(x['b'], d=[min(u, v) for u, v in zip(x['in']['d'], x['b']['d'])])
            if x['p'].get('exact'):
                x['p']['exact'] = False
            out.append(x)
            got += 1
    return out
