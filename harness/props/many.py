"""Long lives: one object used very many times, and very many objects at once.

What a count kept in too few bits, a limit on calls, or a cache of bounded size gets wrong.  The
operations are the cheapest ones of each kind, so that tens of thousands of them are affordable.
"""
import hashlib

from harness import curves
from harness.props.common import (BLOCK_CIPHER, BS, HMAC, STREEBOG, SubCheck, Urandom, equal,
                                  fail, gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature,
                                  new_cipher, ref, same)

STEPS = sorted({n + d for n in [1 << i for i in range(7, 18)] + [100, 1000, 10000]
                for d in (0, 1)})


def sub(check, cases, rule):
    return SubCheck('many', check, explicit=cases, budget=600,
                    rule=rule + '; results after powers of two and of ten and at the end')


def piece(i):
    return bytes([i * 7 & 255, i >> 8 & 255, 3])[:1 + i % 3]


# --------------------------------------------------- hash, HMAC, MAC: updates

def maker(case):
    """(new object, reference(data)) of a hash, HMAC or MAC."""
    kind, size = case['kind'], case['size']
    key = bytes(range(5, 37))
    if kind == 'hash':
        return (lambda: gosthash.new(STREEBOG[size])), lambda data: ref.streebog(data, size)
    if kind == 'hmac':
        return (lambda: gosthmac.new(HMAC[size], key)), lambda data: ref.hmac(key, data, size)
    name = 'magma' if size == 8 else 'kuznechik'
    return (lambda: new_cipher(name, key, 'mac')), lambda data: ref.omac(name, key, data, size)


def value(case, obj):
    return obj.digest(case['size']) if case['kind'] == 'mac' else obj.digest()


def updates(case):
    """Very many short pieces."""
    new, model = maker(case)
    obj, data = new(), bytearray()
    for i in range(1, case['n'] + 1):
        part = piece(i)
        obj.update(part)
        data += part
        if i in case['reads']:
            same(value(case, obj), model(bytes(data)), '%d updates' % i)
    same(value(case, obj), model(bytes(data)), '%d updates' % case['n'])
    return True, ['%s: %d updates' % (case['kind'], case['n'])]


def reading(case):
    """Very many reads of one object, with and without data in between."""
    new, model = maker(case)
    obj, data = new(), b''
    want = model(data)
    for i in range(1, case['n'] + 1):
        if case['grow'] and i % case['grow'] == 0 and len(data) < 150:
            obj.update(b'abc')
            data += b'abc'
            want = model(data)
        same(value(case, obj), want, 'read %d' % i)
    return True, ['%s: %d reads' % (case['kind'], case['n'])]


def resets(case):
    """Very many resets."""
    new, model = maker(case)
    obj = new()
    for i in range(1, case['n'] + 1):
        obj.update(piece(i))
        obj.reset()
        if i in STEPS:
            obj.update(b'after it')
            same(value(case, obj), model(b'after it'), 'after %d resets' % i)
            obj.reset()
    obj.update(b'a' * 70)
    same(value(case, obj), model(b'a' * 70), 'after %d resets' % case['n'])
    return True, ['%s: %d resets' % (case['kind'], case['n'])]


def copies(case):
    """A long line of copies, each of the last, or all of one; all of them are used afterwards."""
    new, model = maker(case)
    obj = new()
    obj.update(b'b' * case['head'])
    family = [[obj, b'b' * case['head']]]
    for i in range(case['n']):
        obj, data = family[-1 if case['line'] else 0]
        family.append([obj.copy(), data])
        add = bytes([i & 255]) * (1 if i % 16 else 64)
        family[-2 if case['line'] else 0][0].update(add)
        family[-2 if case['line'] else 0][1] += add
    step = case['every']
    for i in list(range(0, len(family), step)) + [len(family) - 2, len(family) - 1]:
        obj, data = family[i]
        same(value(case, obj), model(data), 'copy %d of %d' % (i, case['n']))
    return True, ['%s: %d copies' % (case['kind'], case['n'])]


PARTS = {'updates': updates, 'reading': reading, 'resets': resets, 'copies': copies}


def digest_check(case):
    return PARTS[case['what']](case)


def digest_cases(kind, whats):
    def cases(tier):
        out = []
        deep = tier == 'thorough'
        for size in (8, 16) if kind == 'mac' else (32, 64):
            case = {'kind': kind, 'size': size}
            reads = [i for i in STEPS if i < 5000]
            if 'updates' in whats:
                n = 70000 if size != 16 else 20000
                out.append(dict(case, what='updates', n=n * 8 if deep else n, reads=[]))
                out.append(dict(case, what='updates', n=5100, reads=reads))
            if 'reading' in whats:
                out.append(dict(case, what='reading', n=9000 if deep else 1100, grow=0))
                out.append(dict(case, what='reading', n=4500 if deep else 600, grow=9))
            if 'resets' in whats:
                out.append(dict(case, what='resets', n=70000 if deep else 5000))
            if 'copies' in whats:
                for line in (True, False):
                    out.append(dict(case, what='copies', n=1500 if deep else 300, line=line,
                                    head=100, every=9))
        return out
    return cases


def many_digest(kind, whats):
    return sub(digest_check, digest_cases(kind, whats),
               'tens of thousands of updates, a thousand reads or resets, hundreds of copies')


# -------------------------------------------------------------------- ciphers

def cipher_calls(case):
    """One block per call."""
    name, bs, mode = case['cipher'], BS[case['cipher']], case['mode']
    key, iv = bytes(range(7, 39)), bytes(range(50, 50 + (bs // 2 if mode == 'ctr' else 2 * bs)))
    obj = new_cipher(name, key, mode, None if mode == 'ecb' else iv)
    model = ref.ModeModel(name, key, mode, b'' if mode == 'ecb' else iv)
    call = getattr(obj, case['dir'])
    for i in range(1, case['n'] + 1):
        data = (i * 0x9e3779b97f4a7c15f39cc0605cedc834 & (1 << 8 * bs) - 1).to_bytes(bs, 'big')
        got = bytes(call(data))
        # a wrong result shows in all later ones too, except in ECB
        if got != model.run(data, case['dir']):
            fail('%s %s %s: call %d', name, mode, case['dir'], i)
    return True, ['%s %s %s' % (name, mode, case['dir'])]


def cipher_cases(tier):
    out = []
    for name in BS:
        for mode in ('cbc', 'cfb', 'ofb', 'ctr', 'ecb'):
            for way in ('encrypt', 'decrypt'):
                n = 4200 if name == 'magma' else 1100
                out.append({'cipher': name, 'mode': mode, 'dir': way,
                            'n': 66000 if tier == 'thorough' else n})
    return out


def many_cipher():
    return sub(cipher_calls, cipher_cases, '1100 to 66000 calls of one block on one object')


def blocks(case):
    """Bare blocks, and a new object for each block."""
    name, bs = case['cipher'], BS[case['cipher']]
    key = bytes(range(11, 43))
    obj, model = BLOCK_CIPHER[name](key), ref.CIPHERS[name](key)
    for i in range(case['n']):
        block = (i * 0x9e3779b97f4a7c15f39cc0605cedc834 & (1 << 8 * bs) - 1).to_bytes(bs, 'big')
        if i % 2:
            same(obj.encrypt(block), model.encrypt(block), 'block %d encrypted' % i)
        else:
            same(obj.decrypt(block), model.decrypt(block), 'block %d decrypted' % i)
    made = []
    for i in range(case['objects']):
        key = i.to_bytes(2, 'big') + bytes(28) + i.to_bytes(2, 'little')
        made.append((BLOCK_CIPHER[name](key), ref.CIPHERS[name](key)))
    for obj, model in made + made[:40]:
        same(obj.encrypt(bytes(bs)), model.encrypt(bytes(bs)), 'one of many objects')
    return True, [name]


def block_cases(tier):
    deep = tier == 'thorough'
    return [{'cipher': name, 'n': 66000 if deep else n, 'objects': 1100 if deep else 280}
            for name, n in (('magma', 8300), ('kuznechik', 4200))]


def many_blocks():
    return sub(blocks, block_cases, 'thousands of bare blocks and hundreds of keys in use together')


# ------------------------------------------------------------ PBKDF, generator

def derivations(case):
    pw, salt = b'a password', b'and a salt'
    obj = gostpbkdf.new(pw, salt=salt, counter=1)
    want = ref.pbkdf(pw, salt, 1, 130)
    for i in range(1, case['n'] + 1):
        size = 65 if i in STEPS else 1 + i % 40
        if i % 5 == 3:
            equal(obj.hexderive(size), want[:size].hex(), 'derivation %d' % i)
        else:
            same(obj.derive(size), want[:size], 'derivation %d' % i)
        if i % 64 == 0:
            same(obj.salt, salt, 'salt after %d derivations' % i)
    return True, ['%d derivations' % case['n']]


def many_derive():
    return sub(derivations, lambda tier: [{'n': 5000 if tier == 'thorough' else 560}],
               'hundreds of derivations on one object')


def reseeded(case):
    """Very many resets of one generator, and very many short outputs in between."""
    obj = gostrandom.new(1, rand_k=b'\x01' * 32, size_s=32)
    for i in range(1, case['n'] + 1):
        seed = i.to_bytes(4, 'big') + b'\x05' * 28
        obj.reset(seed)
        if i % 8 == 1 or i in STEPS:
            model = ref.Drbg(seed)
            for _ in range(2):
                same(obj.random(), model.random(1), 'random() after %d resets' % i)
    with Urandom([b'\x07' * 32]).patch():
        obj.reset()
    same(obj.random(), ref.Drbg(b'\x07' * 32).random(1), 'random() after reset() without a seed')
    return True, ['%d resets' % case['n']]


def many_random():
    return sub(reseeded, lambda tier: [{'n': 70000 if tier == 'thorough' else 4200}],
               'thousands of resets of one generator')


class StandIn:
    """In the place of the HMAC objects of PBKDF: a fast keyed function with the same methods."""

    name = HMAC[64]
    digest_size = block_size = 64

    def __init__(self, _name, key, data=b''):
        self.key, self.data = bytes(key), bytearray(data)

    def update(self, data):
        self.data += data

    def digest(self):
        return bytearray(prf(self.key, bytes(self.data)))

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return StandIn(self.name, self.key, self.data)

    def reset(self):
        self.data = bytearray()

    def clear(self):
        self.key = bytes(len(self.key))
        self.reset()


def prf(key, data):
    return hashlib.blake2b(data, key=key[:64]).digest()


def fast_pbkdf(pw, salt, count, length):
    out = []
    for index in range(1, -(-length // 64) + 1):
        u = prf(pw, salt + index.to_bytes(4, 'big'))
        t = int.from_bytes(u, 'big')
        for _ in range(1, count):
            u = prf(pw, u)
            t ^= int.from_bytes(u, 'big')
        out.append(t.to_bytes(64, 'big'))
    return b''.join(out)[:length]


def counted(case):
    """Counts and numbers of blocks that HMAC itself is too slow for.

    The class of the HMAC objects is replaced in the module of PBKDF, if it is found there under
    its name and is demonstrably all that the derivation computes with; else not reachable.
    """
    import gostcrypto.gosthmac as hmac_package
    import sys
    module = sys.modules.get(getattr(gostpbkdf.R5011112016, '__module__', ''))
    real = hmac_package.R5011132016
    if module is None or getattr(module, 'R5011132016', None) is not real:
        return False, ['not reachable']
    pw, salt = bytes(case['pw']), bytes(case['salt'])
    module.R5011132016 = StandIn
    try:
        for count, length in ((1, 5), (2, 64), (3, 130), (77, 200)):
            try:
                got = gostpbkdf.new(pw, salt=salt, counter=count).derive(length)
            except Exception:  # pylint: disable=broad-except
                return False, ['not reachable']
            if bytes(got) != fast_pbkdf(pw, salt, count, length):
                return False, ['not reachable']
        obj = gostpbkdf.new(pw, salt=salt, counter=case['count'])
        got = bytes(obj.derive(case['len']))
    finally:
        module.R5011132016 = real
    want = fast_pbkdf(pw, salt, case['count'], case['len'])
    if got != want:
        at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        fail('count %d, length %d (HMAC replaced by a fast function): %d bytes, wrong from byte %d',
             case['count'], case['len'], len(got), at)
    return True, ['count %d, length %d' % (case['count'], case['len'])]


def counted_cases(tier):
    out = []
    for n in (255, 256, 257, 1000, 1001, 4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768,
              50000, 65535, 65536, 65537, 100000, 131073):
        out.append({'pw': b'password', 'salt': b'salt' + bytes([n & 255]), 'count': n, 'len': 32 + n % 50})
        if n in (255, 256, 257, 1001, 4097, 10000, 65537):
            out.append({'pw': b'pw', 'salt': b'NaCl', 'count': 1, 'len': 64 * n + n % 3})
    if tier == 'thorough':
        out.append({'pw': b'p' * 64, 'salt': b's' * 65, 'count': (1 << 20) + 1, 'len': 64})
        out.append({'pw': b'p' * 64, 'salt': b's' * 65, 'count': 2, 'len': 64 * ((1 << 17) + 1)})
    return out


def many_iterations():
    return SubCheck('counted', counted, explicit=counted_cases, budget=600,
                    rule='counts to 2^17 and 65537 blocks (thorough: 2^20, 2^17) with HMAC replaced by a '
                         'fast function, which small counts first show to be all that is used; '
                         'non-trivial: so shown')


# ----------------------------------------------------------------- signatures

def signature_calls(case):
    """One object, the same few arguments very many times."""
    desc = [case['c'], 1, 1]
    cv, size = curves.ref_curve(desc), 32
    obj = gostsignature.new(gostsignature.MODE_256, curves.canonical(desc))
    q = cv.q
    known = []
    for i in range(4):
        d, e, k = (int.from_bytes(ref.streebog(b'%d %d' % (i, j), 32), 'big') % q for j in range(3))
        digest = e.to_bytes(size, 'big')
        r, s = ref.sign_rs(cv, d, digest, k)
        sig = r.to_bytes(size, 'big') + s.to_bytes(size, 'big')
        x, y = cv.mul(d)
        known.append((d.to_bytes(size, 'big'), digest, k.to_bytes(size, 'big'), sig,
                      x.to_bytes(size, 'big') + y.to_bytes(size, 'big')))
    for i in range(1, case['n'] + 1):
        d, digest, k, sig, pub = known[i * i % 4]
        what = '%s call %d' % (case['op'], i)
        if case['op'] == 'sign':
            same(obj.sign(d, digest, k), sig, what)
        elif case['op'] == 'key':
            same(obj.public_key_generate(d), pub, what)
        else:
            wrong = i % 3 == 0
            if wrong:
                sig = sig[:40] + bytes([sig[40] ^ 1]) + sig[41:]
            equal(obj.verify(pub, digest, sig), not wrong, what)
    return True, [case['op']]


def many_signature(op):
    def cases(tier):
        n = 520 if op == 'key' else 264
        return [{'c': 'id-tc26-gost-3410-2012-256-paramSetB', 'op': op,
                 'n': n * 5 if tier == 'thorough' else n}]
    return sub(signature_calls, cases, 'hundreds of calls on one object')


def drawn(case):
    """Very many signatures with generated random values."""
    desc = [case['c'], 1, 1]
    cv = curves.ref_curve(desc)
    obj = gostsignature.new(gostsignature.MODE_256, curves.canonical(desc))
    d, digest = 77, bytes(range(32))
    for i in range(1, case['n'] + 1):
        k = int.from_bytes(ref.streebog(b'k %d' % i, 32), 'big') % cv.q
        stand_in = Urandom([k.to_bytes(32, 'big')])
        with stand_in.patch():
            got = obj.sign(d.to_bytes(32, 'big'), digest)
        r, s = ref.sign_rs(cv, d, digest, k)
        same(got, r.to_bytes(32, 'big') + s.to_bytes(32, 'big'), 'signature %d' % i)
    return True, ['%d signatures' % case['n']]


def many_draws():
    return sub(drawn, lambda tier: [{'c': 'id-tc26-gost-3410-2012-256-paramSetB',
                                     'n': 1500 if tier == 'thorough' else 270}],
               'hundreds of signatures with generated values on one object')
