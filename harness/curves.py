"""Parameter sets for the signature checks.

A set is named by [name, u, k]: the curve `name` (a built-in set or one of
data/curves.json), scaled by the isomorphism (x, y) -> (u^2 x, u^3 y), with
k times its base point as the base point.
"""
import functools
import json
import os

from harness import refgost as ref

PARAMS = {}          # name -> dict, with 'bits'
MOV = []             # sets that new() has to refuse


def _load():
    for name, c in ref.CURVES.items():
        PARAMS[name] = dict(c, bits=256 if '256' in name else 512)
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'curves.json')
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    for group, items in data.items():
        for c in items:
            for key in 'p a b m q x y e d u v'.split():
                if key in c:
                    c[key] = int(c[key], 16)
            if group == 'mov':
                MOV.append(c)
            elif c['D'] not in (3, 4):       # J = 0 or 1728: excluded by the standard
                n = sum(1 for k in PARAMS if k.startswith('%s%d-' % (group, c['bits'])))
                PARAMS['%s%d-%d' % (group, c['bits'], n)] = c


_load()
BUILTIN = list(ref.CURVES)
NAMES = {256: [n for n, c in PARAMS.items() if c['bits'] == 256],
         512: [n for n, c in PARAMS.items() if c['bits'] == 512]}
EDWARDS = {bits: [n for n in NAMES[bits] if 'u' in PARAMS[n]] for bits in NAMES}


@functools.lru_cache(maxsize=512)
def _resolve(name, u, k):
    c = PARAMS[name]
    p, q = c['p'], c['q']
    a, b = c['a'] * pow(u, 4, p) % p, c['b'] * pow(u, 6, p) % p
    base = ref.Curve(p, c['a'], c['b'], c['m'], q, c['x'], c['y']).mul(k % q or 1)
    x, y = base[0] * u * u % p, base[1] * pow(u, 3, p) % p
    out = {'p': p, 'a': a, 'b': b, 'm': c['m'], 'q': q, 'x': x, 'y': y}
    if 'u' in c:
        # y of the base point is not zero and it is not of small order
        e, d = c['e'] * u * u % p, c['d'] * u * u % p
        s = (e - d) * pow(4, -1, p) % p
        t = (e + d) * pow(6, -1, p) % p
        ed_u = (x - t) * pow(y, -1, p) % p
        ed_v = (x - t - s) * pow(x - t + s, -1, p) % p
        out.update(e=e, d=d, u=ed_u, v=ed_v)
    return out, c['bits']


def resolve(desc):
    """(all parameters, bits); a new dict."""
    out, bits = _resolve(desc[0], desc[1], desc[2])
    return dict(out), bits


CANONICAL = ('p', 'a', 'b', 'm', 'q', 'x', 'y')


def canonical(desc):
    out, _ = resolve(desc)
    return {k: out[k] for k in CANONICAL}


def edwards(desc):
    out, _ = resolve(desc)
    return {k: out[k] for k in ('p', 'e', 'd', 'm', 'q', 'u', 'v')}


def ref_curve(desc):
    return ref.Curve(**canonical(desc))


@functools.lru_cache(maxsize=64)
def short_x(name, zeros, count=1):
    """The first k with x(kP) mod q below 2^(bits - 8 zeros) (count-th)."""
    c = PARAMS[name]
    cv = ref.Curve(**{k: c[k] for k in CANONICAL})
    pt, k = cv.base, 1
    limit = 1 << (c['bits'] - 8 * zeros)
    while True:
        if k > 4 and pt[0] % cv.q < limit:
            count -= 1
            if not count:
                return k
        pt, k = cv.add(pt, cv.base), k + 1
