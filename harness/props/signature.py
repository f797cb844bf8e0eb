"""S01-S06 (GOST R 34.10-2012 signatures)."""
import math

from hypothesis import strategies as st

from harness import curves
from harness.props.common import (Property, SignatureError, SubCheck, Typed, Urandom, equal, fail,
                                  gostsignature, raises, ref, require, same)
from harness.props.many import many_draws, many_signature

flags = st.integers(0, (1 << 24) - 1)
MODES = {256: gostsignature.MODE_256, 512: gostsignature.MODE_512}
PREFIX = 'GOSTSignatureError: '
BAD_K = PREFIX + 'invalid random value'
BAD_D = PREFIX + 'invalid private key value'
BAD_Q = PREFIX + 'invalid public key value'


# ---------------------------------------------------------------- strategies

def scalars(q):
    """1..q-1: random, small, near q, q/2 and powers of two, sparse, runs of ones."""
    bits = q.bit_length()
    power = st.tuples(st.integers(0, bits - 1), st.integers(-3, 3)).map(
        lambda t: (1 << t[0]) + t[1])
    run = st.tuples(st.integers(1, bits - 1), st.integers(0, bits - 2)).map(
        lambda t: ((1 << t[0]) - 1) << t[1])
    near_q = st.tuples(st.integers(1, 3), st.integers(-5, 5)).map(lambda t: q // t[0] + t[1])
    sparse = st.lists(st.integers(0, bits - 1), min_size=1, max_size=4).map(
        lambda xs: sum(1 << x for x in set(xs)))
    top = st.integers(0, bits - 1).map(lambda n: q - (1 << n))
    return st.one_of(st.integers(1, q - 1), st.integers(1, q - 1), st.integers(1, 40), near_q,
                     power, run, sparse, top).map(lambda v: v % q or 1)


def full(bits, q):
    """Any value of that many bits; special ones around multiples of q."""
    top = (1 << bits) - 1
    near = st.tuples(st.integers(0, top // q), st.integers(-3, 3)).map(lambda t: t[0] * q + t[1])
    return st.one_of(st.integers(0, top), st.integers(0, top), near, st.sampled_from([top, top - 1]),
                     st.integers(0, bits - 1).map(lambda n: 1 << n),
                     st.integers(0, top).map(lambda v: v >> (bits // 2))).map(
                         lambda v: min(max(v, 0), top))


@st.composite
def descs(draw, bits, names=None):
    """[name, u, k]; half of them as they are."""
    name = draw(st.sampled_from(names or curves.NAMES[bits]))
    p, q = curves.PARAMS[name]['p'], curves.PARAMS[name]['q']
    u = 1 if draw(st.booleans()) else draw(st.integers(1, p - 1))
    k = 1 if draw(st.booleans()) else draw(st.integers(1, q - 1))
    return [name, u, k]


def private(bits, q):
    return full(bits, q).map(lambda d: d if d % q else d + 1 if d < (1 << bits) - 1 else d - 1)


def make(desc, form='canonical'):
    """A signature object, its reference curve and size."""
    params, bits = curves.resolve(desc)
    if form == 'canonical':
        params = curves.canonical(desc)
    elif form == 'edwards':
        params = curves.edwards(desc)
    obj = gostsignature.new(MODES[bits], params)
    return obj, curves.ref_curve(desc), bits // 8


def to_bytes(v, size):
    return v.to_bytes(size, 'big')


def pub_bytes(pt, size):
    return to_bytes(pt[0], size) + to_bytes(pt[1], size)


# ------------------------------------------------- histories of one or two objects

def related(bits, q):
    """Three private keys, digests or random values that are easily taken for one another."""
    top = (1 << bits) - 1

    def group(t):
        v, kind, n = t
        half = (1 << bits // 2) - 1
        others = {
            'high': [v ^ 1 << bits - 2 - n % (bits // 2 - 2), v & half],
            'low': [v ^ 1 << n % (bits // 2), v & ~half],
            'byte': [v ^ 0xff << n % (bits - 8), v ^ 1 << n],
            'sign': [q - v % q, (v + q) % (top + 1)],
            'near': [v + 1, max(v - 1, 0)],
            'reverse': [int.from_bytes(v.to_bytes(bits // 8, 'big'), 'little'), v >> 8],
            'word': [v ^ n << 64 & top, v ^ n << 32 & top]}[kind]
        return [v] + [min(o, top) for o in others]
    return st.tuples(st.integers(0, top), st.sampled_from(
        ['high', 'low', 'byte', 'sign', 'near', 'reverse', 'word']), st.integers(0, bits - 1)).map(group)


@st.composite
def history_cases(draw, bits, main):
    """ops on two objects: public keys, signatures and verifications of related values."""
    desc = draw(descs(bits))
    p = curves.PARAMS[desc[0]]['p']
    q = curves.PARAMS[desc[0]]['q']
    second = draw(st.sampled_from(['same', 'base', 'scaled', 'curve']))
    other = list(desc)
    if second == 'base':
        other[2] = draw(st.integers(2, q - 1))
    elif second == 'scaled':
        other[1] = draw(st.integers(2, p - 1))
    elif second == 'curve':
        group = [n for n in curves.NAMES[bits] if curves.PARAMS[n]['p'] == p]
        other = draw(descs(bits, group if draw(st.booleans()) else None))
    # [what, object, d, e, k, change, bit]: most calls differ from the first ones in one place only
    place = st.sampled_from([None, None, None, 1, 2, 3, 4]).flatmap(
        lambda i: st.just([0, 0, 0, 0]) if i is None else st.integers(1, 2).map(
            lambda v: [(v if j == i else 0) if j > 1 else int(j == i) for j in (1, 2, 3, 4)]))
    name = st.sampled_from([main, main, main, 'pub', 'sign', 'verify'])
    change = st.sampled_from(['key', 'digest', 'digest', 'neg', 'y', 'x', 'r', 's', 'none', 'none', 'none'])
    ops = draw(st.lists(st.tuples(name, place, change, st.integers(0, 8 * bits - 1)).map(
        lambda o: [o[0]] + o[1] + [o[2], o[3]]), min_size=3, max_size=9 if bits == 256 else 5))
    return {'c': [desc, other], 'ops': ops, 'd': draw(related(bits, q)),
            'e': draw(related(bits, q)), 'k': draw(related(bits, q)), 't': draw(flags)}


def history_check(case):
    t = Typed(case['t'])
    made = [make(c) for c in case['c']]
    labels = set()
    points = {}

    def mul(n, k):
        if (n, k) not in points:
            points[n, k] = made[n][1].mul(k)
        return points[n, k]

    def signed(n, d, e, k):
        """(r, s) as of the standard, or None if the random value is not usable."""
        q = made[n][1].q
        if not 0 < k < q:
            return None
        r = mul(n, k)[0] % q
        s = (r * d + k * ref.hash_to_e(to_bytes(e, made[n][2]), q)) % q
        return (r, s) if r and s else None
    for i, op in enumerate(case['ops']):
        n = op[1]
        obj, cv, size = made[n]
        q, p = cv.q, cv.p
        d = case['d'][op[2]]
        what = 'call %d: %s(object %d, %s)' % (i, op[0], n, op[2:])
        if d % q == 0:
            continue
        if op[0] == 'pub':
            same(obj.public_key_generate(t(to_bytes(d, size))), pub_bytes(mul(n, d % q), size), what)
            labels.add('pub')
            continue
        e, k = case['e'][op[3]], case['k'][op[4]]
        rs = signed(n, d, e, k)
        if op[0] == 'sign':
            args = [t(to_bytes(v, size)) for v in (d, e, k)]
            if rs is None:
                raises(SignatureError, lambda: obj.sign(*args), what, BAD_K)
            else:
                same(obj.sign(*args), to_bytes(rs[0], size) + to_bytes(rs[1], size), what)
            labels.add('sign')
            continue
        if rs is None:
            rs = signed(n, d, e, 7)
            if rs is None:
                continue
        kind, bit = op[5], op[6]
        r, s = rs
        x, y = mul(n, d % q)
        if kind == 'key':
            other = case['d'][(op[2] + 1 + bit % 2) % 3] % q or 1
            x, y = mul(n, other)
        elif kind == 'digest':
            e = case['e'][(op[3] + 1 + bit % 2) % 3]
        elif kind == 'neg':
            y = p - y
        elif kind == 'y':
            y ^= 1 << bit % (8 * size)
        elif kind == 'x':
            x ^= 1 << bit % (8 * size)
        elif kind == 'r':
            r ^= 1 << bit % (8 * size)
        elif kind == 's':
            s ^= 1 << bit % (8 * size)
        key, raw = to_bytes(x, size) + to_bytes(y, size), to_bytes(e, size)
        sig = to_bytes(r, size) + to_bytes(s, size)
        labels.add('verify ' + kind)
        if x >= p or y >= p or not y or not cv.on_curve((x, y)):
            raises(SignatureError, lambda: obj.verify(t(key), t(raw), t(sig)), what, BAD_Q)
            continue
        if kind in 'xy' and cv.mul(q, (x, y)) is not None:
            continue
        equal(obj.verify(t(key), t(raw), t(sig)), ref.verify(cv, (x, y), raw, r, s), what)
    return len(case['ops']) > 1, sorted(labels)


def histories(main, n512, n256):
    rule = ('up to 9 (512 bits: 5) calls, mostly %s(), on two objects of the same curve, of two base '
            'points, of isomorphic curves or of curves over one field, with three keys, digests and random '
            'values that differ in few bits, in a half, in a sign or by the order; each result against '
            'the reference; non-trivial: at least two calls' % main)
    return [SubCheck('history512', history_check, history_cases(512, main), n512, 60 * n512, rule=rule),
            SubCheck('history256', history_check, history_cases(256, main), n256, 60 * n256, rule=rule)]


# ------------------------------------------------------------------- coincidences

ECHOES = ['d=e', 'k=d', 'k=e', 'k=-d', 'd=e=k', 'e=r', 's=r', 's=k', 's=d', 's=e', 's=-r', 'd=r',
          'e=x', 'e=-d', 's=r=e']


def echo(cv, name, d, e, k):
    """d, e, k for which values that are unrelated in general coincide."""
    q = cv.q
    d, e = d % q or 1, e % q or 1
    if name in ('d=e', 'd=e=k'):
        d = e
    if name in ('k=e', 'd=e=k'):
        k = e
    if name == 'k=d':
        k = d
    elif name == 'k=-d':
        k = q - d
    elif name == 'e=-d':
        e = q - d
    x = cv.mul(k)[0]
    r = x % q
    if name == 'e=r':
        e = r
    elif name == 'e=x':
        e = x
    elif name == 'd=r':
        d = r or 1
    elif name == 's=r=e':
        # k r + r d = r
        e, d = r, (1 - k) % q or 1
    elif name == 's=e' and k != 1:
        e = r * d * pow(1 - k, -1, q) % q
    elif name in ('s=r', 's=k', 's=d', 's=-r'):
        s = {'s=r': r, 's=k': k, 's=d': d, 's=-r': q - r}[name]
        e = (s - r * d) * pow(k, -1, q) % q
    return d, e, k


# ----------------------------------------------------------------------- S01

@st.composite
def s01_cases(draw, bits):
    desc = draw(descs(bits))
    q = curves.PARAMS[desc[0]]['q']
    kind = draw(st.sampled_from(['free', 'free', 'free', 'small-s', 'small-s', 's0', 'bad-k',
                                 'auto', 'echo', 'echo']))
    d = draw(private(bits, q))
    digest = draw(full(bits, q))
    k = draw(scalars(q))
    if kind == 'bad-k':
        k = draw(st.one_of(st.sampled_from([0, q, q + 1, (1 << bits) - 1]),
                           st.integers(q, max(q + 5, (1 << bits) - 1)))) if q < 1 << bits else 0
        k = min(k, (1 << bits) - 1)
    target = draw(st.one_of(st.sampled_from([1, 2, q - 1, q >> 8, q >> 9, q >> 16, q // 2]),
                            st.integers(1, q >> 8)))
    if kind == 'echo':
        kind = draw(st.sampled_from(ECHOES))
    return {'c': desc, 'kind': kind, 'd': d, 'e': digest, 'k': k, 's': target, 't': draw(flags)}


def s01_check(case):
    t = Typed(case['t'])
    obj, cv, size = make(case['c'])
    q, d, k, digest = cv.q, case['d'], case['k'], case['e']
    kind = case['kind']
    if kind in ECHOES:
        d, digest, k = echo(cv, kind, d, digest, k)
    if kind in ('small-s', 's0'):
        # the digest (or for s = 0 the key) for which s is the target
        r = cv.mul(k)[0] % q
        if kind == 'small-s':
            digest = (case['s'] - r * d) * pow(k, -1, q) % q
        else:
            e = digest % q or 1
            if r:
                d = -k * e * pow(r, -1, q) % q
    raw = to_bytes(digest, size)
    d_raw = to_bytes(d, size)
    pub = cv.mul(d % q)
    what = '%s kind %s' % (case['c'][0], kind)
    if kind == 'auto':
        urandom = Urandom()
        with urandom.patch():
            sig = obj.sign(t(d_raw), t(raw))
        require(len(sig) == 2 * size, '%s: signature of %d bytes', what, len(sig))
        r, s = int.from_bytes(sig[:size], 'big'), int.from_bytes(sig[size:], 'big')
        require(ref.verify(cv, pub, raw, r, s), '%s: the signature is not valid', what)
    else:
        r, s = (0, 0) if not 0 < k < q else ref.sign_rs(cv, d, raw, k)
        if not r or not s:
            raises(SignatureError, lambda: obj.sign(t(d_raw), t(raw), t(to_bytes(k, size))),
                   '%s k=%x r=%x s=%x' % (what, k, r, s), BAD_K)
            return True, [case['c'][0], kind, 'refused']
        sig = obj.sign(t(d_raw), t(raw), t(to_bytes(k, size)))
        same(sig, to_bytes(r, size) + to_bytes(s, size), what)
    equal(obj.verify(t(pub_bytes(pub, size)), t(raw), t(sig)), True, what + ' verify')
    labels = [case['c'][0], kind]
    if r >> (8 * size - 8) == 0:
        labels.append('r leading zero')
    if s >> (8 * size - 8) == 0:
        labels.append('s leading zero')
    if d >= q:
        labels.append('d >= q')
    if digest % q == 0:
        labels.append('e = 0 mod q')
    return True, labels


def _base(name):
    return [name, 1, 1]


def s01_explicit(tier):
    out = []
    for bits in (256, 512):
        for name in curves.NAMES[bits]:
            if bits == 512 and tier == 'quick' and name not in curves.BUILTIN:
                continue
            c = curves.PARAMS[name]
            q = c['q']
            top = (1 << bits) - 1
            builtin = name in curves.BUILTIN
            ks = [curves.short_x(name, 1)]
            if builtin or tier == 'thorough':
                ks += [1, 2, 3, q - 1, (q - 1) // 2, (q + 1) // 2]
            if bits == 512 and tier == 'quick':
                ks = ks[:1] + [1, q - 1]
            if tier == 'thorough' and bits == 256:
                ks.append(curves.short_x(name, 2))
            for k in ks:
                out.append({'c': _base(name), 'kind': 'free', 'd': 7, 'e': top // 3, 'k': k, 's': 1,
                            't': k % 64})
            if not builtin and tier == 'quick':
                continue
            some = q // 5
            for e in (0, q, 1, q - 1, min(q + 1, top), top):
                if bits == 512 and tier == 'quick' and e not in (0, q, top):
                    continue
                out.append({'c': _base(name), 'kind': 'free', 'd': q // 3, 'e': e, 'k': some, 's': 1,
                            't': 5})
            for d in (1, 2, q - 1, min(q + 1, top), top if top % q else top - 1):
                if bits == 512 and tier == 'quick' and d not in (1, q - 1):
                    continue
                out.append({'c': _base(name), 'kind': 'free', 'd': d, 'e': top // 7, 'k': some, 's': 1,
                            't': 9})
            for s in (1, q - 1, q >> 8):
                if bits == 512 and tier == 'quick' and s != q >> 8:
                    continue
                out.append({'c': _base(name), 'kind': 'small-s', 'd': q // 7, 'e': 0, 'k': some, 's': s,
                            't': 3})
            for k in (0, q, min(q + 1, top), top):
                out.append({'c': _base(name), 'kind': 'bad-k', 'd': 5, 'e': top // 7, 'k': k, 's': 1,
                            't': 2})
            out.append({'c': _base(name), 'kind': 's0', 'd': 5, 'e': top // 7, 'k': some, 's': 1,
                        't': 2})
            out.append({'c': _base(name), 'kind': 'auto', 'd': 5, 'e': top // 7, 'k': 1, 's': 1,
                        't': 2})
    return out


def s01():
    return Property('S01', histories('sign', 40, 160) + [
        many_signature('sign'),
        SubCheck('sign512', s01_check, s01_cases(512), 110, 6000,
                 rule='as sign256 for the 512-bit mode'),
        SubCheck('sign256', s01_check, s01_cases(256), 700, 40000, s01_explicit,
                 rule='built-in and generated curves, scaled and with other base points x key x '
                      'digest x k, some solved for a given s; out-of-range k and k giving r = 0 or '
                      's = 0; all are non-trivial')])


# ----------------------------------------------------------------------- S02

VALID_KEY = ['none', 'none', 'none', 'digest+q', 'e-equivalent', 'flip-r', 'flip-s', 'flip-e', 'swap',
             'r+q', 's+q', 'q-s', 'q-r', 'r=0', 's=0', 'both=0', 'r=q', 's=q', 'top', 'neg-key',
             'other-key', 'random', 'double', 'infinity', 'key=P', 'key=-P', 'x not mod q', 'r+1',
             's+1', 'near', 'miss', 'miss', 'miss']
BAD_KEY = ['x+p', 'y+p', 'zero', 'flip-key', 'swap-key', 'off', 'y=0', 'other-curve', 'ones', 'one']


@st.composite
def s02_cases(draw, bits):
    desc = draw(descs(bits))
    q = curves.PARAMS[desc[0]]['q']
    kind = draw(st.sampled_from(VALID_KEY + VALID_KEY + BAD_KEY + ['echo'] * 8))
    if kind == 'echo':
        kind = draw(st.sampled_from(ECHOES))
    return {'c': desc, 'kind': kind, 'd': draw(scalars(q)), 'e': draw(full(bits, q)),
            'k': draw(scalars(q)), 'z': draw(scalars(q)), 'bit': draw(st.integers(0, 2 * bits - 1)),
            'pick': draw(st.integers(0, 5)), 't': draw(flags)}


def near_miss(cv, k, size, bit, pick, z):
    """A value that a careless comparison takes for x(kP) mod q."""
    x, y = cv.mul(k)
    right = bytearray(to_bytes(x % cv.q, size))
    i, j = bit % size, z % size
    if pick == 0:
        right[i] ^= 1 << z % 8
    elif pick == 1:
        # differences that cancel: in the sum modulo 256, or under xor
        flip = [0x80, 0x40, 0xff, 1 + z % 255][bit % 4]
        for n in {128: (i, j), 64: (i, j, i - 7, j - 3)}.get(flip, (i, j)):
            right[n % size] ^= flip
    elif pick == 2:
        right[i], right[j] = right[j], right[i]
    elif pick == 3:
        # equal sums of bytes
        up = next((n for n in range(i, i + size) if right[n % size] < 255), 0) % size
        right[up] += right[up] < 255
        down = next((n for n in range(j, j + size) if right[n % size] and n % size != up), 0) % size
        right[down] -= right[down] > 0
    elif pick == 4:
        right = [right[::-1], right[size // 2:] + right[:size // 2], bytearray(1) + right[1:],
                 right[:-1] + bytearray(1), bytearray(to_bytes(y % cv.q, size)),
                 right[1:] + right[:1]][bit % 6]
    else:
        v = int.from_bytes(right, 'big')
        v += [1, -1, cv.p - cv.q, cv.q - cv.p, 256, 1 << 8 * (size // 2)][bit % 6]
        return v
    return int.from_bytes(right, 'big')


def s02_check(case):
    t = Typed(case['t'])
    obj, cv, size = make(case['c'])
    bits, q, p = 8 * size, cv.q, cv.p
    top = (1 << bits) - 1
    kind, d, k, z, bit, pick = (case[x] for x in ('kind', 'd', 'k', 'z', 'bit', 'pick'))
    e = case['e']
    raw = to_bytes(e, size)
    if kind == 'key=P':
        d = 1
    elif kind == 'key=-P':
        d = q - 1
    elif kind in ECHOES:
        d, e, k = echo(cv, kind, d, e, k)
        raw = to_bytes(e, size)
    pub = cv.mul(d)
    if kind == 'double':
        # z1 P = z2 Q: a valid signature whose last addition is a doubling
        r = cv.mul(k)[0] % q
        s = -r * d % q
        raw = to_bytes(-2 * r * d * pow(k, -1, q) % q, size)
    elif kind == 'infinity':
        # z1 P = -z2 Q: not valid whatever r is
        x1 = cv.mul(z)[0]
        r = [-2 * x1 % cv.p % q, x1 % q, cv.mul(2 * z % q)[0] % q, 1, k, q - 1][pick] or 1
        s = r * d % q
        raw = to_bytes(r * d * pow(z, -1, q) % q, size)
    else:
        r, s = ref.sign_rs(cv, d, raw, k)
    key = pub_bytes(pub, size)
    if kind in ECHOES and pick > 3:
        # not valid although the values coincide
        r, s = [(r, pub[0] % q or 1), (pub[0] % q or 1, s)][bit % 2]
    if kind == 'digest+q':
        if e + q <= top:
            raw = to_bytes(e + q, size)
        elif e - q >= 0:
            raw = to_bytes(e - q, size)
    elif kind == 'e-equivalent':
        # digests that all count as 1
        group = [v for v in (0, 1, q, q + 1, 2 * q, 3 * q) if v <= top]
        r, s = ref.sign_rs(cv, d, to_bytes(group[bit % len(group)], size), k)
        raw = to_bytes(group[pick % len(group)], size)
    elif kind == 'flip-r':
        r ^= 1 << (bit % bits)
    elif kind == 'flip-s':
        s ^= 1 << (bit % bits)
    elif kind == 'flip-e':
        raw = to_bytes(e ^ (1 << (bit % bits)), size)
    elif kind == 'swap':
        r, s = s, r
    elif kind == 'r+q':
        r += q
    elif kind == 's+q':
        s += q
    elif kind == 'q-s':
        s = q - s
    elif kind == 'q-r':
        r = q - r
    elif kind == 'r=0':
        r = 0
    elif kind == 's=0':
        s = 0
    elif kind == 'both=0':
        r = s = 0
    elif kind == 'r=q':
        r = q
    elif kind == 's=q':
        s = q
    elif kind == 'top':
        r, s = [(top, s), (r, top), (top, top)][pick % 3]
    elif kind == 'r+1':
        r += 1
    elif kind == 's+1':
        s += 1
    elif kind == 'near':
        s, r = [(s - 1, r), (s, r - 1), (1, r), (q - 1, r), (s, 1), (s, q - 1)][pick]
    elif kind == 'miss':
        # the verification point is still kP; only the comparison with r can refuse
        eff = ref.hash_to_e(raw, q)
        r = near_miss(cv, k, size, bit, pick, z) % q or 1
        s = (k * eff + r * d) % q
    elif kind == 'neg-key':
        key = pub_bytes(cv.neg(pub), size)
        pub = cv.neg(pub)
    elif kind == 'other-key':
        pub = cv.mul(z)
        key = pub_bytes(pub, size)
    elif kind == 'random':
        r, s = z, case['d'] ^ case['k']
    elif kind == 'x not mod q':
        r = cv.mul(k)[0]
    bad = kind in BAD_KEY
    x, y = pub
    if kind == 'x+p':
        x += p
    elif kind == 'y+p':
        y += p
    elif kind == 'zero':
        x = y = 0
    elif kind == 'one':
        x, y = [(0, y), (x, 1), (1, y), (0, 1), (1, 1), (1, 0)][pick]
    elif kind == 'ones':
        x, y = [(top, top), (top, y), (x, top)][pick % 3]
    elif kind == 'flip-key':
        if bit < bits:
            x ^= 1 << bit
        else:
            y ^= 1 << (bit - bits)
    elif kind == 'swap-key':
        x, y = y, x
    elif kind == 'off':
        x, y = [(x, z % p), (z % p, y), (z % p, k % p), (x, (y + 1) % p), ((x + 1) % p, y),
                (x, p - y - 1)][pick]
    elif kind == 'y=0':
        y = 0
        # a point of order 2 if the curve has one
    elif kind == 'other-curve':
        # on a curve with the same p and a but another b
        x, y = 2 * z % p, (2 * k + 1) % p
    if bad:
        if x > top or y > top:
            return False, [kind + ' does not fit']
        if x < p and y < p and y and cv.on_curve((x, y)):
            if cv.mul(q, (x, y)) is not None:
                return False, [kind + ' point outside the subgroup']
            bad = False
            pub = (x, y)
        key = to_bytes(x, size) + to_bytes(y, size)
    if min(r, s) < 0 or max(r, s) > top:
        return False, [kind + ' does not fit']
    sig = to_bytes(r, size) + to_bytes(s, size)
    what = '%s kind %s key %s digest %s signature %s' % (case['c'][0], kind, key.hex(), raw.hex(),
                                                         sig.hex())

    def call():
        return obj.verify(t(key), t(raw), t(sig))
    if bad:
        raises(SignatureError, call, what, BAD_Q)
        return True, ['key refused', kind]
    want = ref.verify(cv, pub, raw, r, s)
    equal(call(), want, what)
    return True, [kind, 'accepted' if want else 'not accepted',
                  case['c'][0] if kind == 'none' else 'any curve']


def s02_explicit(tier):
    out = []
    kinds = sorted(set(VALID_KEY)) + BAD_KEY
    for bits in (256, 512):
        for i, name in enumerate(curves.NAMES[bits]):
            c = curves.PARAMS[name]
            q = c['q']
            if name not in curves.BUILTIN and tier == 'quick':
                continue
            for j, kind in enumerate(kinds):
                if bits == 512 and tier == 'quick' and (i + j) % 3:
                    continue
                for pick in range(6 if kind in ('infinity', 'off', 'one', 'near')
                                  and bits == 256 else 1):
                    out.append({'c': _base(name), 'kind': kind, 'd': q // 3, 'e': q // 5,
                                'k': q // 7, 'z': q // 11, 'bit': 3 + 8 * i, 'pick': pick,
                                't': j})
    some = [n for n in curves.NAMES[256] if n in curves.BUILTIN]
    for pick in range(6):
        for n in range(16 if tier == 'quick' else 64):
            # 7 * n: every residue of the choices made from `bit` and `z`
            name = some[(pick + n) % len(some)]
            q = curves.PARAMS[name]['q']
            out.append({'c': _base(name), 'kind': 'miss', 'd': q // 13 + n, 'e': q // 17 + n,
                        'k': q // 19 + n, 'z': q // 23 + 5 * n, 'bit': 7 * n + n // 6, 'pick': pick, 't': n})
    for name in curves.BUILTIN:
        # the longest run of quotients 1 in the inversion of the digest
        q = curves.PARAMS[name]['q']
        for kind in ('none', 'flip-s'):
            out.append({'c': _base(name), 'kind': kind, 'd': 13, 'e': (math.isqrt(5 * q * q) - q) // 2,
                        'k': 17, 'z': 1, 'bit': 1, 'pick': 0, 't': 0})
    for name in curves.NAMES[256]:
        # r with a leading zero byte
        out.append({'c': _base(name), 'kind': 'none', 'd': 11, 'e': 77,
                    'k': curves.short_x(name, 1), 'z': 1, 'bit': 0, 'pick': 0, 't': 0})
    return out


def s02():
    return Property('S02', histories('verify', 40, 200) + [
        many_signature('verify'),
        SubCheck('verify512', s02_check, s02_cases(512), 110, 6000,
                 rule='as verify256 for the 512-bit mode'),
        SubCheck('verify256', s02_check, s02_cases(256), 700, 50000, s02_explicit,
                 rule='a signature, key or digest changed in one of %d ways (range limits, '
                      'equivalent digests, doubling and infinity in the last addition, keys off the '
                      'curve or not canonical), the verdict against the reference; non-trivial: the '
                      'change fits the encoding' % len(set(VALID_KEY + BAD_KEY)))],
        assumptions=['public keys on the curve but outside the subgroup of order q are not judged'])


# ----------------------------------------------------------------------- S03

@st.composite
def s03_cases(draw, bits):
    desc = draw(descs(bits))
    q = curves.PARAMS[desc[0]]['q']
    return {'c': desc, 'd': draw(st.one_of(full(bits, q), scalars(q))), 't': draw(flags)}


def s03_check(case):
    t = Typed(case['t'])
    obj, cv, size = make(case['c'])
    d, q = case['d'], cv.q
    raw = to_bytes(d, size)
    what = '%s d=%x' % (case['c'][0], d)
    if d % q == 0:
        raises(SignatureError, lambda: obj.public_key_generate(t(raw)), what,
               PREFIX + 'invalid private key')
        digest = to_bytes(q // 3, size)
        raises(SignatureError, lambda: obj.sign(t(raw), t(digest), t(to_bytes(q // 5, size))),
               what + ' sign()', BAD_D)
        with Urandom().patch():
            raises(SignatureError, lambda: obj.sign(t(raw), t(digest)), what + ' sign()', BAD_D)
        return True, ['multiple of q', case['c'][0]]
    got = obj.public_key_generate(t(raw))
    pt = cv.mul(d % q)
    same(got, pub_bytes(pt, size), what)
    require(cv.on_curve((int.from_bytes(got[:size], 'big'), int.from_bytes(got[size:], 'big'))),
            '%s: the public key is not on the curve', what)
    labels = [case['c'][0], 'd > q' if d > q else 'd < q']
    if min(pt) >> (8 * size - 8) == 0:
        labels.append('leading zero coordinate')
    return True, labels


def s03_explicit(tier):
    out = []
    for bits in (256, 512):
        for i, name in enumerate(curves.NAMES[bits]):
            q, top = curves.PARAMS[name]['q'], (1 << bits) - 1
            ds = [n * q for n in range(0, min(top // q, 16) + 1)]
            if name in curves.BUILTIN or tier == 'thorough':
                ds += [1, 2, 3, 4, 5, 7, 8, 255, 256, q - 1, q - 2, (q - 1) // 2, (q + 1) // 2,
                       min(q + 1, top), top if top % q else 1, min(q + 2, top)]
            if bits == 512 and tier == 'quick':
                ds = [d for j, d in enumerate(ds) if not d % q or (i + j) % 4 == 0]
                ds = ds[:5] + ds[-2:] if name in curves.BUILTIN else ds[:2]
            ds.append(curves.short_x(name, 1))
            if bits == 256:
                ds += [curves.short_x(name, 1, 2), q - curves.short_x(name, 1)]
            if tier == 'thorough' and bits == 256:
                ds.append(curves.short_x(name, 2))
            out += [{'c': _base(name), 'd': d, 't': j} for j, d in enumerate(ds)]
    return out


def s03():
    return Property('S03', histories('pub', 60, 300) + [
        many_signature('key'),
        SubCheck('key512', s03_check, s03_cases(512), 200, 8000, rule='as key256, 512-bit mode'),
        SubCheck('key256', s03_check, s03_cases(256), 1800, 90000, s03_explicit,
                 rule='every multiple of q, keys around q, q/2 and powers of two, keys whose public '
                      'key has a leading zero byte, generated keys on built-in, generated, scaled '
                      'curves; all are non-trivial')])


# ----------------------------------------------------------------------- S04

DRAWS = ['zero', 'q', 'q+', 'top', 'r0', 's0', 'good', 'good-small', 'good-near-q']
UNUSABLE = DRAWS[:6]


@st.composite
def s04_cases(draw, bits):
    """calls: for each sign() call what os.urandom gives before a usable value."""
    name = draw(st.sampled_from(curves.NAMES[bits]))
    q = curves.PARAMS[name]['q']
    calls = draw(st.lists(st.lists(st.sampled_from(UNUSABLE), max_size=5), min_size=1,
                          max_size=2 if bits == 256 else 1))
    return {'c': name, 'calls': calls, 'goods': [draw(scalars(q)) for _ in calls],
            'k0': draw(scalars(q)), 'e': [draw(full(bits, q)) for _ in calls],
            'd': draw(scalars(q)), 'ks': draw(scalars(q)), 'more': draw(st.integers(0, 1 << 64)),
            'r0': draw(st.booleans()), 'shared': draw(st.booleans()), 't': draw(flags)}


def r0_base(name, k0):
    """A base point P with x(k0 P) = 0 mod q, or None.

    Only for curves of prime order, where every point generates the group.
    """
    c = curves.PARAMS[name]
    if c['m'] != c['q']:
        return None
    for x in (0, c['q']):
        if x >= c['p']:
            continue
        y = ref.sqrt_mod(x ** 3 + c['a'] * x + c['b'], c['p'])
        if y:
            cv = ref.Curve(**{k: c[k] for k in curves.CANONICAL})
            return cv.mul(pow(k0, -1, c['q']), (x, y))
    return None


def s04_check(case):
    t = Typed(case['t'])
    name = case['c']
    c = curves.PARAMS[name]
    params = {k: c[k] for k in curves.CANONICAL}
    size, q = c['bits'] // 8, c['q']
    top = (1 << c['bits']) - 1
    labels = {name}
    base = r0_base(name, case['k0']) if case['r0'] else None
    if base is not None:
        params['x'], params['y'] = base
    cv = ref.Curve(**params)
    obj = gostsignature.new(MODES[c['bits']], params)
    used = []
    for n, draws in enumerate(case['calls']):
        d, digest = case['d'], case['e'][n]
        e = digest % q or 1
        if 's0' in draws:
            # the key for which ks gives s = 0
            r = cv.mul(case['ks'])[0] % q
            if r:
                d = -case['ks'] * e * pow(r, -1, q) % q
        values = []
        for what in draws + ['good']:
            values.append({
                'zero': 0, 'q': q, 'q+': min(top, q + 1 + case['more']), 'top': top,
                'r0': case['k0'] if base is not None else 0, 's0': case['ks'],
                'good': case['goods'][n]}[what])
        # the expected signature: of the first usable value
        want = None
        for i, k in enumerate(values):
            if 0 < k < q:
                r, s = ref.sign_rs(cv, d, to_bytes(digest, size), k)
                if r and s:
                    want, used_k = to_bytes(r, size) + to_bytes(s, size), k
                    break
                labels.add('r = 0' if not r else 's = 0')
            else:
                labels.add('out of range')
        if want is None:
            return False, ['no usable value']
        labels.add('%d discarded' % i)
        urandom = Urandom([to_bytes(v, size) for v in values])
        with urandom.patch():
            sig = obj.sign(t(to_bytes(d, size)), t(to_bytes(digest, size)))
        require(all(len(v) == size for v in urandom.served), 'os.urandom was asked for %r bytes',
                [len(v) for v in urandom.served])
        same(sig, want, '%s call %d, os.urandom gives %s' % (name, n, ['%x' % v for v in values]))
        require(to_bytes(used_k, size) in urandom.served, 'the value of call %d was not drawn in it',
                n)
        used.append(used_k)
        if case['shared'] and n == 0:
            # a second call under the same stand-in draws again
            with Urandom([to_bytes(q // 3, size)]).patch():
                r, s = ref.sign_rs(cv, d, to_bytes(digest, size), q // 3)
                same(obj.sign(t(to_bytes(d, size)), t(to_bytes(digest, size))),
                     to_bytes(r, size) + to_bytes(s, size), '%s second call' % name)
            labels.add('same key and digest again')
    return any(case['calls']) or len(case['calls']) > 1, sorted(labels)


def s04_explicit(tier):
    out = []
    for name in curves.NAMES[256] + [n for n in curves.NAMES[512]
                                     if n in curves.BUILTIN or tier == 'thorough']:
        c = curves.PARAMS[name]
        q = c['q']
        for calls in ([['zero']], [['q']], [['top']], [['r0']], [['s0']], [['q+']],
                      [UNUSABLE], [['s0', 's0', 'r0', 'zero'], []]):
            if c['bits'] == 512 and tier == 'quick' and calls[0] != UNUSABLE:
                continue
            if name not in curves.BUILTIN and tier == 'quick' and len(calls[0]) < 4:
                continue
            out.append({'c': name, 'calls': calls, 'goods': [q // 3, q // 9][:len(calls)],
                        'k0': q // 5, 'e': [q // 7, q // 8][:len(calls)], 'd': 12345,
                        'ks': q // 11, 'more': 3, 'r0': True, 'shared': False, 't': 0})
    # more unusable values in a row than a bounded number of attempts would allow
    for name in curves.BUILTIN:
        q = curves.PARAMS[name]['q']
        for calls in ([['top'] * 21, ['q+'] * 34], [['zero'] * 33], [['q', 'zero', 'top'] * 15],
                      [['s0', 'q'] * 6]):
            if curves.PARAMS[name]['bits'] == 512 and calls[0][0] != 'q':
                continue
            out.append({'c': name, 'calls': calls, 'goods': [q // 3, q // 9][:len(calls)],
                        'k0': q // 5, 'e': [q // 7, q // 8][:len(calls)], 'd': 54321,
                        'ks': q // 11, 'more': 3, 'r0': False, 'shared': False, 't': 0})
    for name, calls in (('id-tc26-gost-3410-2012-256-paramSetB', [['top'] * 130]),
                        ('id-tc26-gost-3410-12-512-paramSetA', [['zero'] * 140]),
                        ('id-tc26-gost-3410-2012-256-paramSetC', [['q+', 'zero', 'q'] * 75]),
                        ('id-tc26-gost-3410-2012-256-paramSetA', [['top'] * 257]),
                        ('id-tc26-gost-3410-12-512-paramSetB', [['q', 'top'] * 70])):
        q = curves.PARAMS[name]['q']
        out.append({'c': name, 'calls': calls, 'goods': [q // 3], 'k0': q // 5, 'e': [q // 7],
                    'd': 4321, 'ks': q // 11, 'more': 3, 'r0': False, 'shared': False, 't': 0})
    # the built-in set whose base point has x = 0
    d_set = 'id-tc26-gost-3410-2012-256-paramSetD'
    q = curves.PARAMS[d_set]['q']
    for k0 in (1, q - 1):
        out.append({'c': d_set, 'calls': [['s0', 'q'], ['s0']], 'goods': [2, 3], 'k0': 1,
                    'e': [5, 6], 'd': 7, 'ks': k0, 'more': 0, 'r0': False, 'shared': True, 't': 0})
    return out


def s04_real(case):
    """Without the stand-in: signatures of one digest never repeat r and verify."""
    obj, cv, size = make(_base(case['c']))
    d, digest = case['d'], to_bytes(cv.q // 3, size)
    pub = cv.mul(d)
    rs = set()
    for _ in range(case['n']):
        sig = obj.sign(to_bytes(d, size), digest)
        r, s = int.from_bytes(sig[:size], 'big'), int.from_bytes(sig[size:], 'big')
        require(ref.verify(cv, pub, digest, r, s), 'a signature with a drawn value is not valid')
        require(r not in rs, 'r repeats')
        rs.add(r)
    return True, [case['c']]


def s04():
    return Property('S04', [
        SubCheck('real', s04_real, explicit=lambda tier: [
            {'c': n, 'd': 5 + i, 'n': 6 if '256' in n else 2} for i, n in enumerate(curves.BUILTIN)],
                 rule='real os.urandom'),
        many_draws(),
        SubCheck('draws512', s04_check, s04_cases(512), 100, 5000, budget=60,
                 rule='as draws256, 512-bit mode'),
        SubCheck('draws256', s04_check, s04_cases(256), 1100, 50000, s04_explicit, budget=60,
                 rule='os.urandom scripted with 0-5 unusable values (0, q, above q, all ones, values '
                      'giving r = 0 or s = 0) before a usable one; non-trivial: at least one '
                      'unusable value or two calls')])


# ----------------------------------------------------------------------- S05

BAD_CURVE = PREFIX + 'invalid parameters of the elliptic curve'
BAD_MODE = PREFIX + 'unsupported signature mode'


def builtin_check(case):
    """A built-in set: equal to the published one, and sound."""
    name = case
    table = gostsignature.CURVES_R_1323565_1_024_2019
    require(name in table, '%s: not among the built-in sets', name)
    c = table[name]
    for k, v in ref.CURVES[name].items():
        require(k in c and c[k] == v, '%s: %s is not the published value', name, k)
    p, a, b, m, q = (c[k] for k in 'pabmq')
    bits = 256 if '256' in name else 512
    require(ref.is_prime(p) and ref.is_prime(q), '%s: p or q not prime', name)
    require((4 * a ** 3 + 27 * b * b) % p, '%s: singular', name)
    cv = ref.Curve(**{k: c[k] for k in curves.CANONICAL})
    require(cv.on_curve(cv.base), '%s: base point', name)
    require(cv.mul(q) is None, '%s: order of the base point', name)
    require(m % q == 0 and m != p and (m - p - 1) ** 2 <= 4 * p, '%s: m', name)
    low = 1 << (254 if bits == 256 else 508)
    require(low < q < 1 << bits, '%s: range of q', name)
    v = 1
    for _ in range(31 if bits == 256 else 131):
        v = v * p % q
        require(v != 1, '%s: p^t = 1 mod q', name)
    if 'u' in c:
        require(ref.edwards_to_canonical(p, c['e'], c['d'], c['u'], c['v'])
                == (a, b, c['x'], c['y']), '%s: the two forms differ', name)
        require((c['e'] * c['u'] ** 2 + c['v'] ** 2 - 1 - c['d'] * c['u'] ** 2 * c['v'] ** 2) % p
                == 0, '%s: Edwards base point', name)
    obj = gostsignature.new(MODES[bits], c)
    equal(str(obj.oid), '1.2.643.7.1.1.1.%d' % (1 if bits == 256 else 2), 'oid')
    raises(SignatureError, lambda: gostsignature.new(MODES[768 - bits], c),
           '%s under the other mode' % name, BAD_CURVE)
    return True, [name]


MUTATIONS = ['none', 'm=p', 'x', 'y', 'a', 'b', 'y=-y+1', 'x=y', 'q low', 'q high', 'q far',
             'missing', 'other mode', 'bad mode', 'mov', 'edwards', 'edwards']
EDWARDS_CHANGES = ['e', 'd', 'u', 'v', 'u=v', 'ed', 'm=p', 'q', 'p', 'none']
BAD_MODES = [0, 3, -1, 4, 255, 256, 512, None, '1', 'MODE_256', b'\x01', 1.5, [], {}]


@st.composite
def s05_cases(draw, bits):
    kind = draw(st.sampled_from(MUTATIONS))
    desc = draw(descs(bits, curves.EDWARDS[bits]) if kind == 'edwards' else descs(bits))
    p, q = curves.PARAMS[desc[0]]['p'], curves.PARAMS[desc[0]]['q']
    low = (1 << 254) if bits == 256 else (1 << 508)
    n = draw(st.one_of(st.integers(1, 300), st.integers(1, p - 1), st.integers(0, bits - 2).map(
        lambda i: 1 << i)))
    qs = {'q low': st.one_of(st.integers(1, 300).map(lambda v: low - v), st.integers(1, low - 1),
                             st.integers(1, bits).map(lambda v: low >> v or 1),
                             st.just(q >> (3 if bits == 256 else 5))),
          'q high': st.one_of(st.integers(1, 300).map(lambda v: (1 << bits) + v),
                              st.just(q << (2 if bits == 256 else 4)),
                              st.integers(1, 100).map(lambda v: (1 << (bits + v)) + 1)),
          'q far': st.integers(0, bits - 6).map(lambda v: (1 << v) + 1)}
    return {'c': desc, 'kind': kind, 'n': n, 'q': draw(qs[kind]) if kind in qs else 0,
            'missing': draw(st.sampled_from(EDWARDS_CHANGES if kind == 'edwards' else
                                            ['p', 'q', 'x', 'y', 'a', 'b', 'xy', 'pq', 'all'])),
            'mode': draw(st.integers(0, len(BAD_MODES) - 1)),
            'mov': draw(st.integers(0, len(curves.MOV) - 1)), 'u': draw(st.integers(1, 1 << 200))}


def s05_edwards(case):
    """Parameters in Edwards form only, one of them changed."""
    desc, which, n = case['c'], case['missing'], case['n']
    c = curves.edwards(desc)
    _, bits = curves.resolve(desc)
    p = c['p']
    what = '%s in Edwards form, %s' % (desc[0], which)
    if which == 'none':
        gostsignature.new(MODES[bits], c)
        return True, ['edwards accepted']
    if which in ('e', 'd', 'u', 'v'):
        c[which] = (c[which] + n) % p
    elif which == 'u=v':
        c['u'] = c['v']
    elif which == 'ed':
        # the same sum, another difference
        c['e'], c['d'] = (c['e'] + n) % p, (c['d'] - n) % p
    elif which == 'm=p':
        c['m'] = p
    elif which == 'q':
        c['q'] = c['q'] >> 9 | 1
    else:
        del c['p']
    if which in ('e', 'd', 'u', 'v', 'u=v', 'ed'):
        e, d, u, v = (c[k] for k in 'eduv')
        if (e * u * u + v * v - 1 - d * u * u * v * v) % p == 0 or 0 in (e, d, u, (e - d) % p) \
                or v == 1:
            return False, ['edwards: still valid, or degenerate']
    raises(SignatureError, lambda: gostsignature.new(MODES[bits], c), what, BAD_CURVE)
    return True, ['edwards ' + which, '%d bits' % bits]


def s05_check(case):
    if case['kind'] == 'edwards':
        return s05_edwards(case)
    desc, kind = case['c'], case['kind']
    c = curves.canonical(desc)
    _, bits = curves.resolve(desc)
    mode = MODES[bits]
    p = c['p']
    cv = ref.Curve(**c)
    what = '%s %s' % (desc[0], kind)
    if kind == 'none':
        obj = gostsignature.new(mode, c)
        equal(str(obj.oid), '1.2.643.7.1.1.1.%d' % (1 if bits == 256 else 2), 'oid')
        return True, ['accepted', '%d bits' % bits]
    if kind == 'mov':
        mov = curves.MOV[case['mov']]
        mode = MODES[mov['bits']]
        if mov['t'] > (31 if mov['bits'] == 256 else 131):
            return False, ['mov: t not excluded']
        p, u = mov['p'], case['u']
        c = {'p': p, 'a': mov['a'] * u ** 4 % p, 'b': mov['b'] * u ** 6 % p, 'm': mov['m'],
             'q': mov['q'], 'x': mov['x'] * u * u % p, 'y': mov['y'] * u ** 3 % p}
        what = 'p^%d = 1 mod q, %d bits' % (mov['t'], mov['bits'])
    elif kind == 'm=p':
        c['m'] = p
    elif kind in 'xyab':
        c[kind] = (c[kind] + case['n']) % p
    elif kind == 'y=-y+1':
        c['y'] = (1 - c['y']) % p
    elif kind == 'x=y':
        c['x'] = c['y']
    elif kind in ('q low', 'q high', 'q far'):
        c['q'] = case['q']
    elif kind == 'missing':
        for k in 'pabqxy' if case['missing'] == 'all' else case['missing']:
            del c[k]
    elif kind == 'other mode':
        mode = MODES[768 - bits]
    elif kind == 'bad mode':
        mode = BAD_MODES[case['mode']]
        raises(SignatureError, lambda: gostsignature.new(mode, c), 'mode %r' % (mode,), BAD_MODE)
        return True, [kind]
    if kind in ('x', 'y', 'a', 'b', 'y=-y+1', 'x=y') or (
            kind == 'missing' and 'p' not in case['missing'] and 'q' not in case['missing']
            and case['missing'] != 'all'):
        cv = ref.Curve(c['p'], c.get('a', 0), c.get('b', 0), c['m'], c['q'], c.get('x', 0),
                       c.get('y', 0))
        if cv.on_curve(cv.base):
            return False, [kind + ': still on the curve']
    raises(SignatureError, lambda: gostsignature.new(mode, c), what, BAD_CURVE)
    return True, [kind, '%d bits' % bits]


def s05_explicit(tier):
    out = []
    base = {'n': 1, 'q': 0, 'missing': 'p', 'mode': 0, 'mov': 0, 'u': 1}
    for bits in (256, 512):
        low = 1 << (254 if bits == 256 else 508)
        for name in curves.NAMES[bits]:
            builtin = name in curves.BUILTIN
            out.append(dict(base, c=_base(name), kind='none'))
            if not builtin and tier == 'quick':
                continue
            for kind in MUTATIONS[1:7] + ['x=y', 'other mode']:
                out.append(dict(base, c=_base(name), kind=kind))
            for q in (1, low - 1, low - 2, (1 << bits) + 1, (1 << bits) + 2,
                      curves.PARAMS[name]['q'] << 8, curves.PARAMS[name]['q'] >> 8):
                if q < low or q > 1 << bits:
                    out.append(dict(base, c=_base(name), kind='q low' if q < low else 'q high', q=q))
            for missing in ('p', 'q', 'x', 'y', 'a', 'b', 'xy', 'pq', 'all'):
                out.append(dict(base, c=_base(name), kind='missing', missing=missing))
    for bits in (256, 512):
        for name in curves.EDWARDS[bits]:
            if tier == 'quick' and bits == 512 and name not in curves.BUILTIN:
                continue
            for which in EDWARDS_CHANGES:
                out.append(dict(base, c=_base(name), kind='edwards', missing=which))
    some = _base(curves.BUILTIN[0])
    out += [dict(base, c=some, kind='bad mode', mode=i) for i in range(len(BAD_MODES))]
    out += [dict(base, c=some, kind='mov', mov=i) for i in range(len(curves.MOV))]
    return out


def s05():
    return Property('S05', [
        SubCheck('builtin', builtin_check, explicit=lambda tier: curves.BUILTIN,
                 rule='each built-in set: constants, primality, order, bounds, both forms'),
        SubCheck('params512', s05_check, s05_cases(512), 900, 30000,
                 rule='as params256, 512-bit mode'),
        SubCheck('params256', s05_check, s05_cases(256), 8000, 300000, s05_explicit,
                 rule='valid sets (built-in, generated, scaled) accepted; one parameter changed, out '
                      'of range or missing, modes exchanged, and sets with p^t = 1 (mod q) for every '
                      't of 1-31 (1-131) refused; non-trivial: the set is really invalid')])


# ----------------------------------------------------------------------- S06

@st.composite
def s06_cases(draw, bits):
    desc = draw(descs(bits, curves.EDWARDS[bits]))
    q = curves.PARAMS[desc[0]]['q']
    return {'c': desc, 'd': draw(private(bits, q)), 'e': draw(full(bits, q)), 'k': draw(scalars(q)),
            'bit': draw(st.integers(0, 2 * bits - 1)), 'zeros': draw(st.booleans()),
            't': draw(flags)}


def s06_check(case):
    t = Typed(case['t'])
    desc = case['c']
    canon, cv, size = make(desc)
    params = curves.edwards(desc)
    if case['zeros']:
        params.update(a=0, b=0, x=0, y=0)
    twisted = gostsignature.new(MODES[8 * size], params)
    both, _, _ = make(desc, 'both')
    d, q = case['d'], cv.q
    raw, dig, k = to_bytes(d, size), to_bytes(case['e'], size), to_bytes(case['k'], size)
    pub = cv.mul(d % q)
    key = pub_bytes(pub, size)
    what = desc[0]
    same(twisted.public_key_generate(t(raw)), key, what + ' public key, Edwards form')
    r, s = ref.sign_rs(cv, d, dig, case['k'])
    if not r or not s:
        for obj in (canon, twisted):
            raises(SignatureError, lambda obj=obj: obj.sign(t(raw), t(dig), t(k)), what)
        return True, ['refused']
    want = to_bytes(r, size) + to_bytes(s, size)
    same(twisted.sign(t(raw), t(dig), t(k)), want, what + ' signature, Edwards form')
    same(canon.sign(t(raw), t(dig), t(k)), want, what + ' signature, canonical form')
    equal(twisted.verify(t(key), t(dig), t(want)), True, what + ' verify, Edwards form')
    equal(canon.verify(t(key), t(dig), t(want)), True, what + ' verify, canonical form')
    bad = bytearray(want)
    bad[case['bit'] // 8] ^= 1 << (case['bit'] % 8)
    verdict = ref.verify(cv, pub, dig, int.from_bytes(bad[:size], 'big'),
                         int.from_bytes(bad[size:], 'big'))
    equal(twisted.verify(t(key), t(dig), t(bad)), verdict, what + ' verify of a changed signature')
    if case['t'] % 4 == 0:
        same(both.sign(t(raw), t(dig), t(k)), want, what + ' signature, both forms given')
        same(both.public_key_generate(t(raw)), key, what + ' public key, both forms given')
    return True, [what, 'scaled' if desc[1] != 1 else 'not scaled',
                  'other base point' if desc[2] != 1 else 'own base point']


def s06_explicit(tier):
    out = []
    for bits in (256, 512):
        for name in curves.EDWARDS[bits]:
            if bits == 512 and tier == 'quick' and name not in curves.BUILTIN:
                continue
            q = curves.PARAMS[name]['q']
            for i, d in enumerate((1, q - 1, q // 3)):
                if bits == 512 and tier == 'quick' and i != 2:
                    continue
                out.append({'c': _base(name), 'd': d, 'e': q // 5, 'k': q // 7, 'bit': 9 + i,
                            'zeros': bool(i % 2), 't': 4})
    return out


def s06_params(case):
    """new() only: the Edwards parameters pass the checks of the curve, or fail them."""
    desc = case['c']
    params = curves.edwards(desc)
    if case.get('swap') and params['v'] % params['p']:
        # (u, v) -> (u, 1/v) exchanges e and d
        params['e'], params['d'] = params['d'], params['e']
        params['v'] = pow(params['v'], -1, params['p'])
    _, bits = curves.resolve(desc)
    obj = gostsignature.new(MODES[bits], params)
    size = bits // 8
    want = curves.ref_curve(desc)
    same(obj.public_key_generate(to_bytes(1, size)), pub_bytes(want.base, size),
         desc[0] + ' base point')
    pt = want.mul(2)
    same(obj.public_key_generate(to_bytes(2, size)), pub_bytes(pt, size), desc[0] + ' 2 P')
    return True, [desc[0]]


def s06():
    return Property('S06', [
        SubCheck('forms512', s06_check, s06_cases(512), 20, 2500, rule='as forms256, 512-bit mode'),
        SubCheck('base', s06_params, st.one_of(descs(256, curves.EDWARDS[256]),
                                               descs(256, curves.EDWARDS[256]),
                                               descs(512, curves.EDWARDS[512])).flatmap(
                                                   lambda c: st.booleans().map(
                                                       lambda s: {'c': c, 'swap': s})), 2500, 60000,
                 rule='base point and its double computed from the Edwards parameters, also of the '
                      'form with e and d exchanged and v inverted'),
        SubCheck('forms256', s06_check, s06_cases(256), 220, 15000, s06_explicit,
                 rule='built-in and generated Edwards curves, scaled and with other base points: '
                      'keys, signatures and verification of the two forms against each other and '
                      'the reference; all are non-trivial')])


PROPS = {'S01': s01, 'S02': s02, 'S03': s03, 'S04': s04, 'S05': s05, 'S06': s06}
