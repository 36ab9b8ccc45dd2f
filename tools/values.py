"""The calls of the other generators again with other sample values (inputs only): negative ones, ones above 255, fractions
below 1, and for the moves values that only wide sample types hold."""
from cases import *
import huge

SIGNED = {'i16', 'i32', 'f32', 'f64'}
TYPED = {'crop', 'translate', 'reflect', 'reflect2', 'overlay', 'subimage', 'nbr1', 'nbr2', 'map', 'residual'}
EXACT = {'crop', 'translate', 'reflect', 'reflect2', 'overlay'}
BIG = {'linear', 'box', 'gauss', 'wavg', 'shear', 'gray_f32'}
SUMS = {'filter1d', 'sep', 'unsep', 'kernel1', 'kernel2', 'sharpen', 'laplacian', 'sat', 'rectsum', 'rectof', 'superimpose'}
REALS = {'linear', 'box', 'gauss', 'wavg', 'unsharp', 'prewitt', 'sobel', 'sobelw', 'deriv', 'log', 'scale', 'lanczos', 'shear', 'gray_f32', 'threshold'} | SUMS


def vmap(it, f, dq=0, doq=0):
    x = dict(it, p=dict(it['p']))
    for k in ('in', 'b'):
        if k in x:
            im = x[k]
            x[k] = dict(im, d=[f(v) for v in im['d']], q=im.get('q', 0) + dq)
    if 'oq' in x:
        x['oq'] += doq
    if x['op'] == 'threshold':
        x['p']['tq'] += dq
        x['p']['maxq'] += dq
    return x


def other(r, it):
    op, q, oq = it['op'], it['in'].get('q', 0), it.get('oq', 0)
    if op in TYPED:
        ty = it.get('ty', 'u8')
        if ty not in SIGNED or op in ('map', 'residual'):
            return None
        k = r.randint(0, 2)
        if k == 0 or q:
            return vmap(it, lambda v: v - 128)
        if k == 1 and ty != 'i16':
            return vmap(it, lambda v: v % 256 * 4000000 - 500000000) if ty in ('i32', 'f64') else vmap(it, lambda v: v % 256 * 65536 - 4980736)
        if k == 2 and op in EXACT and ty in ('f32', 'f64'):
            return vmap(it, lambda v: v - 100, 10, 10)
        return vmap(it, lambda v: -v)
    if op not in REALS:
        return None
    if op == 'deriv' and sum(map(abs, it['p']['vk'])) * sum(map(abs, it['p']['hk'])) * 128 > 2000:
        return None
    k = r.choice(['neg', 'shift', 'frac', 'frac', 'big'])
    if op in ('threshold',) and k in ('neg', 'shift'):
        m = r.choice([400, 900])
        x = vmap(it, lambda v: v - m)
        x['p']['t'] -= m
        return x
    if k == 'neg':
        return vmap(it, lambda v: -v)
    if k == 'shift':
        return vmap(it, lambda v: v - 128)
    if k == 'frac' or not (op in BIG or (op == 'scale' and it['p']['method'] in ('nn', 'bilinear'))) or oq - q < 4 \
            or op == 'gauss' and it['p']['n'] > 7:
        n = r.choice([6, 8, 10])
        return vmap(it, lambda v: v, n, n)
    return vmap(it, lambda v: 4 * v, 0, -2) if op == 'gauss' else vmap(it, lambda v: 16 * v, 0, -4)


def items(pid, c, base):
    r = c.r
    ops = {}
    for it in base:
        one = it['pair'][0] if 'pair' in it else it
        if one.get('op') in (REALS | TYPED) and isinstance(one.get('in'), dict) and one['in'].get('d') and 'cost' not in one \
                and not isinstance(one['in']['d'][0], str) and len(one['in']['d']) < 3000 and 't' not in one['in']:
            ops.setdefault(one['op'], []).append(it)
    out = []
    for op in sorted(ops):
        for _ in range(c.n(24, 120)):
            it = r.choice(ops[op])
            if 'pair' in it:
                s = r.getstate()
                a = other(r, it['pair'][0])
                r.setstate(s)
                b = other(r, it['pair'][1])
                x = a and b and {'pair': (a, b)}
            else:
                x = other(r, it)
            if x:
                out.append(x)
    return out
