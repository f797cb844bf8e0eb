#!/usr/bin/env python3
"""Writes harness/data/curves.json: more elliptic curves of known order.

By complex multiplication (class number one), so that the order is known:
  valid  - curves of order m = c q, q prime and in the range of the mode
  edwards- the same with c = 4 or 8 and a twisted Edwards form
  mov    - parameter sets where p has exact order t modulo q, t = 1..32
           (256 bits) or 1..132 (512 bits)
The output is committed; run this only to make another set.
"""
import json
import math
import multiprocessing
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from harness import refgost as ref  # noqa: E402

rng = random.Random(20120807)
J = {3: 0, 4: 1728, 7: -3375, 8: 8000, 11: -32768, 12: 54000, 16: 287496, 19: -884736,
     27: -12288000, 28: 16581375, 43: -884736000, 67: -147197952000,
     163: -262537412640768000}
SMALL = [n for n in range(3, 2000, 2) if all(n % k for k in range(3, int(n ** .5) + 1, 2))]


def prime(n):
    if n < 2 or n % 2 == 0:
        return n == 2
    for s in SMALL:
        if n % s == 0:
            return n == s
    if pow(2, n - 1, n) != 1:
        return False
    return ref.is_prime(n, 20)


def q_low(bits):
    return 1 << (bits - (2 if bits == 256 else 4))


def good_q(bits, p, q, tmax):
    if not q_low(bits) < q < 1 << bits or q == p or not prime(q):
        return False
    v = 1
    for _ in range(tmax):
        v = v * p % q
        if v == 1:
            return False
    return True


def with_order(p, disc, order, cofactor):
    """(a, b, x, y): a curve with CM by -disc of that order, a point of order q."""
    q = order // cofactor
    for _ in range(200):
        c = rng.randrange(1, p)
        if disc == 3:
            a, b = 0, c
        elif disc == 4:
            a, b = c, 0
        else:
            j = J[disc] % p
            k = j * pow(1728 - j, -1, p) % p
            a, b = 3 * k * c * c % p, 2 * k * c ** 3 % p
        cv = ref.Curve(p, a, b, order, q, 0, 0)
        pt = random_point(cv)
        if cv.mul(order, pt) is not None:
            continue
        pt = random_point(cv)
        if cv.mul(order, pt) is not None:
            continue
        while True:
            base = cv.mul(cofactor, random_point(cv))
            if base is not None:
                break
        if cv.mul(q, base) is not None:
            continue
        return a, b, base[0], base[1]
    return None


def random_point(cv):
    while True:
        x = rng.randrange(cv.p)
        y = ref.sqrt_mod(x ** 3 + cv.a * x + cv.b, cv.p)
        if y:
            return x, y if rng.random() < .5 else cv.p - y


def cm(bits, pbits, disc, cofactor, side):
    """A curve with a pbits prime; side: sign of the trace wanted."""
    limit = time.monotonic() + 60
    while time.monotonic() < limit:
        if pbits == 'top':
            target = (1 << bits) - 1
            t = rng.randrange(1 << (bits // 2 + 1))
            v0 = math.isqrt((4 * target - t * t) // disc)
            v = v0 - rng.randrange(3)      # p within 2^(bits/2 + 3) of 2^bits
        else:
            t = rng.randrange(1 << (pbits // 2))
            lo = math.isqrt(4 * (1 << (pbits - 1)) // disc) + 1
            hi = math.isqrt((4 * (1 << pbits) - t * t) // disc)
            if hi <= lo:
                continue
            v = rng.randrange(lo, hi)
        n = t * t + disc * v * v
        if n % 4 or not prime(n // 4):
            continue
        p = n // 4
        if p >> bits:
            continue
        t *= side
        order = p + 1 - t
        if cofactor is None:
            cofactors = [c for c in range(1, 15) if order % c == 0
                         and q_low(bits) < order // c < 1 << bits]
        else:
            cofactors = [cofactor] if order % cofactor == 0 else []
        cofactors = [c for c in cofactors if good_q(bits, p, order // c,
                                                    31 if bits == 256 else 131)]
        if not cofactors or order == p:
            continue
        found = cofactors[0]
        got = with_order(p, disc, order, found)
        if got is None:
            continue
        a, b, x, y = got
        return dict(p=p, a=a, b=b, m=order, q=order // found, x=x, y=y, D=disc, cofactor=found)
    return None


def edwards(c):
    """(e, d, u, v) of a twisted Edwards form with the same base point, or None."""
    p, a, b, x, y = c['p'], c['a'], c['b'], c['x'], c['y']
    # a root alpha of x^3 + a x + b: 2-torsion points are (m/2) R
    cv = ref.Curve(p, a, b, c['m'], c['q'], x, y)
    m = c['m']
    odd = m
    while odd % 2 == 0:
        odd //= 2
    for _ in range(60):
        pt = cv.mul(odd, random_point(cv))
        while pt is not None and pt[1] != 0:
            pt = cv.add(pt, pt)
        if pt is None:
            continue
        alpha = pt[0]
        s2 = (3 * alpha * alpha + a) % p
        s = ref.sqrt_mod(s2, p)
        if not s:
            continue
        for s in (s, p - s):
            # Montgomery: B Y^2 = X^3 + A X^2 + X, X = (x - alpha)/s, Y = y/s, B = 1/s
            A = 3 * alpha * pow(s, -1, p) % p
            Bm = pow(s, -1, p)
            # twisted Edwards: e = (A+2)/B, d = (A-2)/B ; u = X/Y, v = (X-1)/(X+1)
            e = (A + 2) * pow(Bm, -1, p) % p
            d = (A - 2) * pow(Bm, -1, p) % p
            X = (x - alpha) * pow(s, -1, p) % p
            Y = y * pow(s, -1, p) % p
            u = X * pow(Y, -1, p) % p
            v = (X - 1) * pow(X + 1, -1, p) % p
            if (e * u * u + v * v - 1 - d * u * u * v * v) % p:
                raise SystemExit('edwards form wrong')
            if not e or not d or e == d:
                continue
            got = ref.edwards_to_canonical(p, e, d, u, v)
            if got == (a, b, x, y):
                return dict(e=e, d=d, u=u, v=v)
    return None


def mov(bits, t):
    while True:
        if t <= 2:
            q = rng.randrange(q_low(bits) + 1, q_low(bits) << 1) | 1
        else:
            q = rng.randrange(q_low(bits) + 1, q_low(bits) << 1)
            q -= (q - 1) % t
            if q <= q_low(bits):
                continue
        if not prime(q):
            continue
        if (q - 1) % t:
            continue
        primes = [r for r in [2] + SMALL if t % r == 0]
        for _ in range(40):
            g = pow(rng.randrange(2, q), (q - 1) // t, q)
            if any(pow(g, t // r, q) == 1 for r in primes) or pow(g, t, q) != 1:
                continue
            for j in range(0, (1 << bits) // q):
                p = g + j * q
                if p.bit_length() > bits - 3 and p >> bits == 0 and p % 2 and prime(p):
                    x, y, a = (rng.randrange(1, p) for _ in range(3))
                    b = (y * y - x ** 3 - a * x) % p
                    m = q * max(1, round(p / q))
                    if m == p:
                        continue
                    return dict(t=t, p=p, a=a, b=b, m=m, q=q, x=x, y=y)


def supersingular(bits):
    """y^2 = x^3 + b over p = 2 mod 3: order p + 1, so p^2 = 1 mod q."""
    while True:
        q = rng.randrange(q_low(bits) + 1, q_low(bits) << 1) | 1
        if not prime(q):
            continue
        for c in (6, 12):
            p = c * q - 1
            if p >> bits == 0 and p % 3 == 2 and prime(p):
                b = rng.randrange(1, p)
                cv = ref.Curve(p, 0, b, p + 1, q, 0, 0)
                base = cv.mul(c, random_point(cv))
                assert cv.mul(q, base) is None
                return dict(t=2, p=p, a=0, b=b, m=p + 1, q=q, x=base[0], y=base[1])


def part(bits):
    out = {'valid': [], 'edwards': [], 'mov': []}
    rng.seed(20120807 + bits)
    if True:
        full = bits
        plans = [(full, 3, 1, 1), (full, 3, 1, -1), ('top', 7, None, -1), ('top', 11, 1, -1),
                 (full, 8, None, 1), (full, 19, 1, 1), (full, 43, 1, -1), (full, 67, 1, 1),
                 (full, 163, 1, -1), (full - 1, 11, 1, 1), (full, 4, None, 1), ('top', 16, None, -1),
                 ('top', 163, 1, 1), (full, 27, None, 1)]
        plans += [(255, 163, 1, 1)] if bits == 256 else [(509, 163, 1, 1), (510, 19, 1, -1),
                                                         ('top', 4, 8, 1), ('top', 28, None, 1)]
        for plan in plans:
            c = cm(bits, *plan)
            if c is None:
                print(bits, plan, 'none found', file=sys.stderr, flush=True)
                continue
            c['bits'] = bits
            out['valid'].append(c)
            print(bits, plan, c['p'].bit_length(), c['q'].bit_length(), file=sys.stderr, flush=True)
        n = 0
        while n < 6:
            if bits == 256:       # q >= 2^254 and p < 2^256
                c = cm(bits, 'top', (4, 7, 12, 16)[n % 4], 4, -1)
            else:
                c = cm(bits, ('top', full)[n % 2], (4, 7, 12, 16, 28, 7)[n], (4, 4, 4, 8, 8, 8)[n],
                       (1, -1)[n % 2])
            e = edwards(c) if c else None
            if e is None:
                continue
            c.update(e)
            c['bits'] = bits
            out['edwards'].append(c)
            n += 1
            print(bits, 'edwards', c['D'], c['cofactor'], file=sys.stderr, flush=True)
        for t in range(1, 33 if bits == 256 else 133):
            c = mov(bits, t)
            c['bits'] = bits
            out['mov'].append(c)
        for _ in range(0 if bits == 256 else 3):     # needs p = 6 q - 1 or 12 q - 1
            c = supersingular(bits)
            c['bits'] = bits
            out['mov'].append(c)
        print(bits, 'mov', file=sys.stderr, flush=True)
    return out


def main():
    with multiprocessing.Pool(2) as pool:
        one, two = pool.map(part, [256, 512])
    out = {k: one[k] + two[k] for k in one}
    for group in out.values():
        for c in group:
            for k in 'p a b m q x y e d u v'.split():
                if k in c:
                    c[k] = '%x' % c[k]
    path = os.path.join(os.path.dirname(HERE), 'harness', 'data', 'curves.json')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('{\n')
        for i, (name, group) in enumerate(out.items()):
            f.write(' "%s": [\n' % name)
            f.write(',\n'.join('  ' + json.dumps(c, sort_keys=True) for c in group))
            f.write('\n ]%s\n' % (',' if i < 2 else ''))
        f.write('}\n')


main()
