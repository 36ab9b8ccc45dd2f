"""Pairs of calls whose images differ in a few samples (inputs only): nothing outside the windows of those samples may change."""
from cases import *

REAL = {'filter1d', 'sep', 'unsep', 'linear', 'box', 'wavg', 'gauss', 'prewitt', 'sobel', 'sobelw', 'deriv', 'laplacian', 'sharpen', 'unsharp', 'log'}
BYTE = {'median', 'trimmed', 'bilateral'}
PROPS = {'C17', 'C18', 'C19', 'C20', 'C22', 'C23', 'C24'}


def items(pid, c, base):
    if pid not in PROPS:
        return []
    r, ops, out = c.r, {}, []
    for it in base:
        if it.get('op') in (REAL | BYTE) and isinstance(it.get('in'), dict) and it['in'].get('d') and 'cost' not in it \
                and not isinstance(it['in']['d'][0], str) and 't' not in it['in'] and len(it['in']['d']) < 3000:
            ops.setdefault(it['op'], []).append(it)
    for op in sorted(ops):
        for _ in range(c.n(40, 300)):
            it = r.choice(ops[op])
            im = it['in']
            lo, hi, q = min(im['d']), max(im['d']), im.get('q', 0)
            p = it['p']
            n = p.get('n') or max([len(p[k]) for k in ('ker', 'vk', 'hk') if k in p] + [2 * p.get('r', 1) + 1])
            if op in ('unsep', 'linear'):
                n = int(n ** .5)
            s = r.choice([(n + r.randint(2, 9), 1), (1, n + r.randint(2, 9)), (n + 2, 2), (2, n + 5), (9, 9), (n, n), (im['w'], im['h']), (2 * n + 3, 3), (40, 2)])
            if s[0] * s[1] * im['c'] > 1500:
                s = (n + 3, 2)
            a = rimg(r, *s, im['c'], im['a'], hi=hi, lo=lo, q=q)
            d = list(a['d'])
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                i = r.choice([0, len(d) - 1, r.randrange(len(d)), r.randrange(len(d)), r.randrange(len(d))])
                if op in BYTE:
                    d[i] = r.choice([0, 255, 255 - d[i], min(255, d[i] + 1)])
                else:
                    d[i] = r.choice([1, -1]) * r.choice([1 << 24, 10 ** 8, 10 ** 9, 10 ** 9, hi * 64 + 1, 1 << 29])
            b = dict(a, d=d)
            x = dict(it, p=dict(p, far=True))
            x['in'] = a
            y = dict(it)
            y['in'] = b
            if op == 'bilateral':
                x['p'].update(sym='none', exact=False, gray=False)
                y['p'] = x['p']
            out.append({'pair': (x, y)})
    return out
