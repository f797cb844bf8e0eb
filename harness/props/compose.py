"""X01: results of any module are arguments for any other, in one process."""
from hypothesis import strategies as st

from harness import curves, gen
from harness.props.common import (BLOCK_CIPHER, BS, HMAC, MODE, PAD, STREEBOG, Property, SubCheck,
                                  equal, fail, gostcipher, gosthash, gosthmac, gostpbkdf,
                                  gostrandom, gostsignature, ref, same)

MODES = ['ecb', 'cbc', 'cfb', 'ofb', 'ctr']
SETS = {32: curves.NAMES[256], 64: curves.NAMES[512]}


class Pool:
    """The byte strings of a case: the very objects the package returned, and what they must be."""

    def __init__(self, raws):
        self.real = [bytearray(r) for r in raws]
        self.want = [bytes(r) for r in raws]
        self.made = [''] * len(raws)
        self.passed_on = set()
        self.coincide = False
        self.call = []

    def pick(self, n):
        n %= len(self.real)
        if self.made[n]:
            self.passed_on.add(self.made[n])
        if n in self.call:
            self.coincide = True
        self.call.append(n)
        return self.real[n], self.want[n]

    def fit(self, n, size, least=None):
        """The n-th, of exactly size bytes (from least to size): as it is if it fits."""
        least = size if least is None else least
        real, want = self.pick(n)
        if least <= len(want) <= size:
            return real, want
        if len(want) > size:
            return real[:size], want[:size]
        return real.ljust(least, b'\x5a'), want.ljust(least, b'\x5a')

    def add(self, real, want, what):
        if type(real) is not bytearray:  # pylint: disable=unidiomatic-typecheck
            fail('%s is a %s', what, type(real).__name__)
        same(real, want, what)
        self.real.append(real)
        self.want.append(bytes(want))
        self.made.append(what)

    def check(self, after):
        for i, (real, want) in enumerate(zip(self.real, self.want)):
            if bytes(real) != want:
                fail('%s: value %d (%s) changed from %s to %s', after, i,
                     self.made[i] or 'from the caller', want.hex()[:80], bytes(real).hex()[:80])
        self.call = []


def do_hash(pool, a, n):
    size = 32 if n & 1 else 64
    first, m1 = pool.pick(a[0])
    obj = gosthash.new(STREEBOG[size], data=first)
    more, m2 = pool.pick(a[1])
    if n & 2:
        obj.update(more)
        m1 += m2
    want = ref.streebog(m1, size)
    pool.add(obj.digest(), want, 'digest')
    return obj, obj.digest, want, 'digest'


def do_hmac(pool, a, n):
    size = 32 if n & 1 else 64
    key, k = pool.fit(a[0], 64, 0)
    first, m1 = pool.pick(a[1])
    more, m2 = pool.pick(a[2])
    obj = gosthmac.new(HMAC[size], key, data=first)
    if n & 2:
        obj.update(more)
        m1 += m2
    want = ref.hmac(k, m1, size)
    pool.add(obj.digest(), want, 'hmac')
    return obj, obj.digest, want, 'hmac'


def do_pbkdf(pool, a, n):
    pw, p = pool.fit(a[0], 64, 0)
    salt, s = pool.fit(a[1], 1 << 20, 1)
    size = [32, 64, 16, 8, 33, 100][n % 6]
    count = 1 + n // 6 % 3
    obj = gostpbkdf.new(pw, salt=salt, counter=count)
    want = ref.pbkdf(p, s, count, size)
    pool.add(obj.derive(size), want, 'derived key')
    if n & 64:
        pool.add(obj.salt, s, 'salt')
    return obj, lambda: obj.derive(size), want, 'derived key'


def do_cipher(pool, a, n):
    name = ('kuznechik', 'magma')[n & 1]
    bs, mode = BS[name], MODES[n // 2 % 5]
    key, k = pool.fit(a[0], 32)
    kwargs, v = {}, b''
    if mode == 'ctr':
        kwargs['init_vect'], v = pool.fit(a[1], bs // 2)
    elif mode != 'ecb':
        iv, v = pool.pick(a[1])
        if not v or len(v) % bs:
            iv, v = pool.fit(a[1], bs)
        kwargs['init_vect'] = iv
    if mode in ('ecb', 'cbc') and n & 256:
        kwargs['pad_mode'] = PAD[1]
    obj = gostcipher.new(name, key, MODE[mode], **kwargs)
    data, d = pool.pick(a[2])
    way = 'decrypt' if n & 16 else 'encrypt'
    full = d
    if mode in ('ecb', 'cbc'):
        if way == 'decrypt':
            if len(d) % bs:
                data, d = pool.fit(a[2], len(d) // bs * bs)
                full = d
        else:
            full = ref.pad1(d, bs)
    model = ref.ModeModel(name, k, mode, v)
    want = model.run(full, way)
    pool.add(getattr(obj, way)(data), want, '%s %s' % (mode, way))
    made = pool.real[-1]
    if n & 32:
        if mode == 'ctr':
            pool.add(obj.counter, model.counter_bytes, 'counter')
        elif mode != 'ecb' and len(d) % bs == 0:
            pool.add(obj.iv, model.register[-1], 'iv')
    if mode == 'ecb':
        return obj, lambda: getattr(obj, way)(bytes(data)), want, 'ecb again'
    if n & 64:
        # a separate object undoes it
        other = gostcipher.new(name, key, MODE[mode], **kwargs)
        back = other.encrypt if way == 'decrypt' else other.decrypt
        pool.add(back(made), full, '%s undone' % mode)
    return obj, None, None, mode


def do_bare(pool, a, n):
    name = ('kuznechik', 'magma')[n & 1]
    key, k = pool.fit(a[0], 32)
    block, b = pool.fit(a[1], BS[name])
    obj = BLOCK_CIPHER[name](key)
    way = 'decrypt' if n & 2 else 'encrypt'
    want = getattr(ref.CIPHERS[name](k), way)(b)
    pool.add(getattr(obj, way)(block), want, 'block %s' % way)
    kept = bytes(block)
    return obj, lambda: getattr(obj, way)(kept), want, 'block %s' % way


def do_mac(pool, a, n):
    name = ('kuznechik', 'magma')[n & 1]
    key, k = pool.fit(a[0], 32)
    first, m1 = pool.pick(a[1])
    more, m2 = pool.pick(a[2])
    obj = gostcipher.new(name, key, MODE['mac'], data=first)
    if n & 2:
        obj.update(more)
        m1 += m2
    size = BS[name] if n & 4 else 1 + n // 8 % BS[name]
    want = ref.omac(name, k, m1, size)
    pool.add(obj.digest(size), want, 'mac')
    return obj, lambda: obj.digest(size), want, 'mac'


def do_random(pool, a, n):
    seed, s = pool.fit(a[0], 48, 32)
    if not any(s):
        seed, s = bytearray(b'\x01' * 32), b'\x01' * 32
    size = [32, 64, 16, 8, 100][n % 5]
    obj = gostrandom.new(size, rand_k=seed, size_s=len(s))
    model = ref.Drbg(s)
    pool.add(obj.random(), model.random(size), 'random()')
    if n & 8:
        again, s = pool.fit(a[1], len(s))
        if any(s):
            obj.reset(again)
            model = ref.Drbg(s)
    pool.add(obj.random(), model.random(size), 'random()')
    return obj, None, None, 'random()'


def do_sign(pool, a, n):
    size = 64 if n % 8 == 7 else 32
    names = SETS[size]
    name = names[n // 8 % len(names)]
    mode = gostsignature.MODE_512 if size == 64 else gostsignature.MODE_256
    obj = gostsignature.new(mode, curves.canonical([name, 1, 1]))
    cv = curves.ref_curve([name, 1, 1])
    private, d = pool.fit(a[0], size)
    digest, e = pool.fit(a[1], size)
    rand_k, k = pool.fit(a[2], size)
    if not int.from_bytes(d, 'big') % cv.q:
        private = d = bytes(size - 1) + b'\x07'
    if not 0 < int.from_bytes(k, 'big') < cv.q:
        rand_k = k = b'\x01' + k[1:]
    dn = int.from_bytes(d, 'big')
    r, s = ref.sign_rs(cv, dn, e, int.from_bytes(k, 'big'))
    if not r or not s:
        return obj, None, None, 'signature'
    pool.add(obj.sign(private, digest, rand_k),
             r.to_bytes(size, 'big') + s.to_bytes(size, 'big'), 'signature')
    x, y = cv.mul(dn % cv.q)
    pool.add(obj.public_key_generate(private), x.to_bytes(size, 'big') + y.to_bytes(size, 'big'),
             'public key')
    equal(obj.verify(pool.real[-1], digest, pool.real[-2]), True, 'verify of the signature')
    # any byte strings of the pool as digest and signature: the answer is the standard's
    other, e2 = pool.fit(a[2], size)
    sig, sg = pool.fit(a[1], 2 * size)
    equal(obj.verify(pool.real[-1], other, sig),
          ref.verify(cv, (x, y), e2, int.from_bytes(sg[:size], 'big'),
                     int.from_bytes(sg[size:], 'big')), 'verify of other values')
    return obj, None, None, 'signature'


STEPS = {'hash': do_hash, 'hmac': do_hmac, 'pbkdf': do_pbkdf, 'cipher': do_cipher, 'bare': do_bare,
         'mac': do_mac, 'random': do_random, 'sign': do_sign}


def check(case):
    pool = Pool(case['raws'])
    alive = []
    crossed = False
    labels = set()
    for kind, a, n in case['steps']:
        if kind == 'again':
            made = [x for x in alive if x[1]]
            if made:
                _, call, want, what = made[a[0] % len(made)]
                pool.add(call(), want, what + ' read again')
        elif kind in ('clear', 'drop'):
            if alive:
                obj = alive.pop(a[0] % len(alive))
                if kind == 'clear' and hasattr(obj[0], 'clear'):
                    obj[0].clear()
                del obj
        else:
            before = len(pool.passed_on)
            alive.append(STEPS[kind](pool, a, n))
            if len(pool.passed_on) > before:
                crossed = True
            labels.add(kind)
        pool.check('after %s' % kind)
    alive.clear()
    pool.check('after all objects are gone')
    if pool.coincide:
        labels.add('one value twice in a call')
    return crossed, sorted(labels) + ['from %s' % w for w in sorted(pool.passed_on)]


@st.composite
def cases(draw, kinds):
    raws = draw(st.lists(gen.sized(st.one_of(
        st.integers(0, 80), st.sampled_from([0, 4, 8, 16, 32, 32, 32, 64, 64]))),
        min_size=1, max_size=3))
    # the newest values are wanted most
    index = st.integers(0, 30)
    step = st.tuples(st.sampled_from(kinds), st.lists(index, min_size=3, max_size=3),
                     st.integers(0, 1023))
    return {'raws': raws, 'steps': [list(s) for s in draw(st.lists(step, min_size=2, max_size=12))]}


CHEAP = ['hash', 'hash', 'hmac', 'hmac', 'pbkdf', 'cipher', 'cipher', 'cipher', 'cipher', 'cipher',
         'bare', 'mac', 'mac', 'random', 'random', 'again', 'again', 'clear', 'clear', 'drop']


def flows(_tier):
    """The documented ways of using the modules together."""
    out = []
    for n in range(8):
        # a password gives a key; a message is encrypted, authenticated, hashed and signed
        out.append({'raws': [b'password', b'salt and more', bytes(range(100))], 'steps': [
            ['pbkdf', [0, 1, 0], 0],                         # 3: a key
            ['random', [3, 0, 0], 2],                        # 4, 5: 16 bytes
            ['cipher', [3, 4, 2], 2 * (n % 5) + n // 5],     # ciphertext (and back)
            ['mac', [3, 6, 6], 4], ['hmac', [3, 6, 2], 3],
            ['hash', [6, 2, 0], 1], ['clear', [0, 0, 0], 0], ['clear', [1, 0, 0], 0],
            ['sign', [3, 9, 3], 8 * n], ['again', [0, 0, 0], 0], ['clear', [0, 0, 0], 0],
            ['hash', [10, 11, 0], 2], ['clear', [0, 0, 0], 0]]})
    return out


def x01():
    return Property('X01', [
        SubCheck('flows', check, cases(CHEAP), 2500, 100000, flows, destructors=True,
                 rule='2-12 steps in which keys, vectors, messages, salts, seeds and digests are '
                      'values that earlier steps returned, the same objects, passed without '
                      'copying; all values compared after every step, and the objects cleared or '
                      'deleted in between; non-trivial: a returned value is passed on'),
        SubCheck('signed', check, cases(['sign', 'sign', 'hash', 'random', 'pbkdf', 'clear']),
                 60, 3000, destructors=True,
                 rule='the same with signatures: private keys, digests and random values are '
                      'results of other modules')])


PROPS = {'X01': x01}
