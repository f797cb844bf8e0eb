"""I01-I07: properties across the modules."""
import functools
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

from hypothesis import strategies as st

from harness import core, curves, gen, props, threads, world
from harness.props.common import (BS, HMAC, STREEBOG, HMACError, HashError, MODE, PBKDFError,
                                  Property, RandomError, SignatureError, SubCheck, Typed, Urandom,
                                  Violation,
                                  equal, fail, gostcipher, gosthash, gosthmac, gostpbkdf,
                                  gostrandom, gostsignature, raises, ref, require, same)

flags = st.integers(0, (1 << 24) - 1)
WITH_SIGN = ['sign', 'sign', 'sign', 'hash', 'hmac', 'cipher', 'mac', 'rand', 'pbkdf']


def nontrivial(case):
    return len(case['actors']) > 1 and len(case['ops']) > 1


# ----------------------------------------------------------------------- I01

def i01_check(case):
    return nontrivial(case), world.run(case, mutate=True)


def i01_plain(case):
    """Interleaved objects, no overwriting (so that aliasing cannot hide sharing)."""
    return nontrivial(case), world.run(case)


def crowd(case):
    """Hundreds of live objects, all in use; some are dropped and others take their places."""
    size, n = case['n'], 0
    actors, ops = [], []

    def raw(length):
        nonlocal n
        n += 1
        return ref.streebog(b'%d %d' % (case['seed'], n), 64)[:length]

    def spec(i):
        kind = case['kinds'][i % len(case['kinds'])]
        key = raw(64)
        # some keys occur twice
        if i % 5 == 4:
            key = ref.streebog(b'%d' % (i % 3), 64)
        name = ('magma', 'kuznechik')[key[0] & 1]
        return {'kind': kind, 'key': key[:32], 'size': (32, 64)[key[1] & 1] if kind in ('hash', 'hmac')
                else 64, 'data': raw(key[2] % 40), 'name': name,
                'mode': ('ecb', 'cbc', 'cfb', 'ofb', 'ctr')[key[3] % 5],
                'way': ('encrypt', 'decrypt')[key[4] & 1], 'ivs': 1 + key[5] % 3, 'iv': raw(64),
                'pw': key[:key[6] % 60], 'salt': raw(8), 'count': 1, 'seed': key[:32],
                'set': [world.SETS[key[7] % 2], 1, 1], 'form': 'canonical',
                'd': int.from_bytes(key[:32], 'big'), 'n': key[8]}

    ctx = world.Ctx(case['seed'])
    actors = [world.KINDS[s['kind']](ctx, s) for s in map(spec, range(size))]
    labels = set()
    for turn in range(case['turns']):
        ops = ['update', 'digest'] if turn % 2 else ['digest', 'update']
        for i, actor in enumerate(actors if turn % 3 else reversed(actors)):
            actor.do(ctx, ops[i % 2], raw(16 + i % 9))
        # the oldest go, or every third
        for i in (range(0, len(actors), 3) if turn % 2 else range(len(actors) // 4)):
            new = spec(size * (turn + 1) + i)
            actors[i] = world.KINDS[new['kind']](ctx, new)
            labels.add('replaced')
    for actor in actors:
        actor.do(ctx, 'digest', b'\x5a' * 16)
    return True, sorted(labels) + ['%d %s' % (size, '/'.join(sorted(set(case['kinds']))))]


def crowd_cases(tier):
    deep = tier == 'thorough'
    out = [{'kinds': [kind], 'n': 1100 if deep else 290, 'turns': 2, 'seed': i}
           for i, kind in enumerate(['hash', 'hmac', 'cipher', 'bare', 'mac', 'rand', 'oid'])]
    out.append({'kinds': ['pbkdf'], 'n': 300 if deep else 140, 'turns': 2, 'seed': 8})
    out.append({'kinds': ['sign'], 'n': 300 if deep else 40, 'turns': 1, 'seed': 9})
    out += [{'kinds': world.CHEAP, 'n': 600 if deep else 200, 'turns': 3, 'seed': seed}
            for seed in range(20, 40 if deep else 22)]
    return out


def i01():
    return Property('I01', [
        SubCheck('crowd', crowd, explicit=crowd_cases, budget=300, destructors=True,
                 rule='40-290 live objects of one kind and of all kinds, used in turn, some replaced'),
        SubCheck('buffers-sign', i01_check, world.cases(WITH_SIGN, max_ops=6, max_actors=3), 100, 6000,
                 rule='as buffers, with signature objects and curve dictionaries'),
        SubCheck('interleaved', i01_plain, world.cases(max_ops=20, max_actors=8), 500, 25000,
                 destructors=True,
                 rule='2-12 objects of any kinds with related keys, interleaved'),
        SubCheck('buffers', i01_check, world.cases(), 800, 40000,
                 rule='every buffer passed and every result is overwritten by the caller after the '
                      'call; arguments, curve dictionaries and exported constants must not change; '
                      'non-trivial: two or more objects and operations')])


# ----------------------------------------------------------------------- I03

def i03_check(case):
    return nontrivial(case), world.run(case, typed=True)


def both_types(case):
    """One call with every combination of types: identical results."""
    kind, args = case['call'], case['args']
    results = set()
    for bits in range(1 << len(args)):
        typed = [bytearray(a) if bits >> i & 1 else bytes(a) for i, a in enumerate(args)]
        value = CALLS[kind](case, *typed)
        text = CALLS_HEX.get(kind)
        if text:
            require(type(value) is str, '%s: a %s', kind, type(value).__name__)
        elif kind != 'verify':
            require(type(value) is bytearray, '%s: a %s, not a bytearray', kind,
                    type(value).__name__)
        results.add(value if isinstance(value, (str, bool)) else bytes(value))
    require(len(results) == 1, '%s: the result depends on the argument types', kind)
    want = EXPECT[kind](case, *args) if kind in EXPECT else None
    if want is not None:
        got = results.pop()
        require(got == want, '%s: got %r, expected %r', kind, got, want)
    return True, [kind]


def _sign_set(case):
    return gostsignature.new(gostsignature.MODE_256, curves.PARAMS[case['set']])


CALLS = {
    'hash': lambda c, d, e: _two(gosthash.new(STREEBOG[c['size']], data=d), e).digest(),
    'hash-hex': lambda c, d, e: _two(gosthash.new(STREEBOG[c['size']], data=d), e).hexdigest(),
}
CALLS_HEX = {'hash-hex': 1, 'hmac-hex': 1, 'mac-hex': 1, 'pbkdf-hex': 1}


def _two(obj, data):
    obj.update(data)
    return obj


def _hmac(hexa):
    def call(c, key, d, e):
        obj = _two(gosthmac.new(HMAC[c['size']], key, data=d), e)
        return obj.hexdigest() if hexa else obj.digest()
    return call


def _cipher(way):
    def call(c, key, iv, data):
        kwargs = {} if c['mode'] == 'ecb' else {'init_vect': iv}
        obj = gostcipher.new(c['name'], key, MODE[c['mode']], **kwargs)
        getattr(obj, way)(data)
        return getattr(obj, way)(data)
    return call


def _cipher_want(way):
    def want(c, key, iv, data):
        model = ref.ModeModel(c['name'], key, c['mode'], iv)
        model.run(data, way)
        return model.run(data, way)
    return want


def _mac(hexa):
    def call(c, key, d, e):
        obj = _two(gostcipher.new(c['name'], key, MODE['mac'], data=d), e)
        return obj.hexdigest(BS[c['name']]) if hexa else obj.digest(BS[c['name']])
    return call


def _pbkdf(hexa):
    def call(c, pw, salt):
        obj = gostpbkdf.new(pw, salt=salt, counter=2)
        return obj.hexderive(70) if hexa else obj.derive(70)
    return call


def _rand(c, seed, again):
    obj = gostrandom.new(65, rand_k=seed, size_s=len(seed))
    obj.random()
    if c['size'] == 32:
        obj.reset(again)
    return obj.random()


def _rand_want(c, seed, again):
    model = ref.Drbg(seed)
    model.random(65)
    if c['size'] == 32:
        model = ref.Drbg(again)
    return model.random(65)


def _rs(c, d, e, k):
    cv = ref.Curve(**{x: curves.PARAMS[c['set']][x] for x in curves.CANONICAL})
    r, s = ref.sign_rs(cv, int.from_bytes(d, 'big'), e, int.from_bytes(k, 'big'))
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def _verify_want(c, key, e, sig):
    cv = ref.Curve(**{x: curves.PARAMS[c['set']][x] for x in curves.CANONICAL})
    return ref.verify(cv, (int.from_bytes(key[:32], 'big'), int.from_bytes(key[32:], 'big')), e,
                      int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'))


CALLS.update({
    'hmac': _hmac(False), 'hmac-hex': _hmac(True),
    'encrypt': _cipher('encrypt'), 'decrypt': _cipher('decrypt'),
    'mac': _mac(False), 'mac-hex': _mac(True),
    'pbkdf': _pbkdf(False), 'pbkdf-hex': _pbkdf(True), 'rand': _rand,
    'sign': lambda c, d, e, k: _sign_set(c).sign(d, e, k),
    'verify': lambda c, key, e, sig: _sign_set(c).verify(key, e, sig),
    'key': lambda c, d: _sign_set(c).public_key_generate(d),
})
EXPECT = {
    'hash': lambda c, d, e: ref.streebog(d + e, c['size']),
    'hash-hex': lambda c, d, e: ref.streebog(d + e, c['size']).hex(),
    'hmac': lambda c, k, d, e: ref.hmac(k, d + e, c['size']),
    'hmac-hex': lambda c, k, d, e: ref.hmac(k, d + e, c['size']).hex(),
    'encrypt': _cipher_want('encrypt'), 'decrypt': _cipher_want('decrypt'),
    'mac': lambda c, k, d, e: ref.omac(c['name'], k, d + e, BS[c['name']]),
    'mac-hex': lambda c, k, d, e: ref.omac(c['name'], k, d + e, BS[c['name']]).hex(),
    'pbkdf': lambda c, p, s: ref.pbkdf(p, s, 2, 70),
    'pbkdf-hex': lambda c, p, s: ref.pbkdf(p, s, 2, 70).hex(),
    'rand': _rand_want, 'sign': _rs, 'verify': _verify_want,
}


@st.composite
def type_cases(draw, calls):
    call = draw(st.sampled_from(calls))
    case = {'call': call, 'size': draw(st.sampled_from([32, 64])), 'name': draw(gen.cipher_names),
            'mode': draw(st.sampled_from(['ecb', 'cbc', 'cfb', 'ofb', 'ctr'])),
            'set': draw(st.sampled_from(curves.NAMES[256]))}
    short = gen.sized(st.sampled_from([0, 1, 7, 63, 64, 65, 100]))
    bs = BS[case['name']]
    if call.startswith('hash'):
        args = [draw(short), draw(short)]
    elif call.startswith('hmac'):
        args = [draw(gen.sized(st.integers(0, 64))), draw(short), draw(short)]
    elif call in ('encrypt', 'decrypt'):
        n = draw(st.integers(0, 3)) * bs
        iv = bs // 2 if case['mode'] == 'ctr' else bs * draw(st.integers(1, 2))
        args = [draw(gen.keys32), draw(gen.exact(iv)), draw(gen.exact(n))]
    elif call.startswith('mac'):
        args = [draw(gen.keys32), draw(short), draw(short)]
    elif call.startswith('pbkdf'):
        args = [draw(gen.sized(st.integers(0, 64))), draw(gen.sized(st.integers(1, 64)))]
    elif call == 'rand':
        n = draw(st.sampled_from([32, 40, 48]))
        args = [draw(gen.exact(n).filter(any)), draw(gen.exact(n).filter(any))]
    else:
        c = curves.PARAMS[case['set']]
        q = c['q']
        d, k = draw(st.integers(1, q - 1)), draw(st.integers(1, q - 1))
        args = [d.to_bytes(32, 'big'), draw(gen.exact(32)), k.to_bytes(32, 'big')]
        if call == 'key':
            args = args[:1]
        elif call == 'verify':
            pt = ref.Curve(**{x: c[x] for x in curves.CANONICAL}).mul(d)
            sig = _rs(case, *args)
            if draw(st.booleans()):
                sig = sig[:63] + bytes([sig[63] ^ 1])
            args = [pt[0].to_bytes(32, 'big') + pt[1].to_bytes(32, 'big'), args[1], sig]
    case['args'] = args
    return case


def i03():
    cheap = [c for c in CALLS if c not in ('sign', 'verify', 'key')]
    return Property('I03', [
        SubCheck('types-sign', both_types, type_cases(['sign', 'verify', 'key']), 60, 3000,
                 rule='every combination of bytes and bytearray over the arguments of one call of '
                      'a signature object'),
        SubCheck('world-sign', i03_check, world.cases(WITH_SIGN, max_ops=6, max_actors=3), 60, 3000,
                 rule='as world, with signature objects'),
        SubCheck('types', both_types, type_cases(cheap), 900, 40000,
                 rule='every combination of bytes and bytearray over the arguments of one call'),
        SubCheck('world', i03_check, world.cases(), 500, 25000,
                 rule='interleaved objects, each argument bytes or bytearray at random, result types '
                      'checked; non-trivial: two or more objects and operations')])


# ----------------------------------------------------------------------- I04

def i04_check(case):
    labels = world.run(case)
    return bool({'call refused', 'constructor refused'} & set(labels)), labels


def i04():
    kinds = ['hash', 'hmac', 'hash', 'hmac', 'rand', 'rand', 'pbkdf', 'mac', 'cipher', 'oid']
    return Property('I04', [
        SubCheck('refused-sign', i04_check,
                 world.cases(['sign', 'sign', 'sign', 'hash', 'rand'], max_ops=7, refused=True,
                             max_actors=3), 110, 6000,
                 rule='as refused, with signature objects'),
        SubCheck('refused', i04_check, world.cases(kinds, refused=True, max_ops=16), 1100, 50000,
                 destructors=True,
                 rule='refused calls and constructors inserted into histories of several objects; '
                      'non-trivial: at least one refused call')])


# ----------------------------------------------------------------------- I02
#
# Each entry: (strategy of the bad or good value, call, exception, message).
# A value is bytes, an int, a str or ['tag'] for something that is not bytes.

SET256 = curves.BUILTIN[0]
SET512 = next(n for n in curves.BUILTIN if '512' in n)
GOOD32 = bytes(range(1, 33))
GOOD64 = bytes(range(1, 65))
TAG = gen.not_bytes.map(lambda t: [t])
STR_NAMES = ['', 'streebog', 'streebog224', 'streebog384', 'Streebog256', 'STREEBOG512',
             'streebog256 ', 'streebog-256', 'sha256', 'HMAC', 'hmac_gostr3411_2012_256',
             'HMAC_GOSTR3411_2012_384', 'HMAC_GOSTR3411_2012_25', 'HMAC_GOSTR3411_2012_2566',
             'streebog51', 'streebog5122', '256', '512', 'None']
bad_name = st.one_of(st.sampled_from(STR_NAMES), st.text(max_size=12),
                     st.sampled_from([0, 1, 256, 512, -1, True]), st.just(['none']),
                     st.just(['list']), st.just(['float']), st.just(b'streebog256'),
                     st.just(b'HMAC_GOSTR3411_2012_256'), st.just(['dict']))


def wrong(n, top=200):
    """Not n bytes."""
    return st.one_of(TAG, gen.sized(st.one_of(st.integers(0, top), st.sampled_from(
        [0, n - 1, n + 1, n // 2, 2 * n])).filter(lambda v: v != n)))


def wrong_nonempty(n):
    return st.one_of(TAG, gen.sized(st.one_of(st.integers(1, 130), st.sampled_from(
        [n - 1, n + 1, n // 2, 2 * n])).filter(lambda v: v not in (n, 0))))


def value(v):
    return gen.make_not_bytes(v[0]) if isinstance(v, list) else v


def sig(bits):
    name, mode = (SET256, gostsignature.MODE_256) if bits == 256 else (SET512,
                                                                       gostsignature.MODE_512)
    return gostsignature.new(mode, gostsignature.CURVES_R_1323565_1_024_2019[name])


def pub(bits):
    c = curves.PARAMS[SET256 if bits == 256 else SET512]
    n = bits // 8
    return c['x'].to_bytes(n, 'big') + c['y'].to_bytes(n, 'big')


LIMIT = (2 ** 32 - 1) * 64
SIG_PREFIX = 'GOSTSignatureError: '


def _q(bits):
    return curves.PARAMS[SET256 if bits == 256 else SET512]['q']


def _sig_table():
    out = {}
    for bits in (256, 512):
        n, good, q = bits // 8, (GOOD32 if bits == 256 else GOOD64), _q(bits)

        def add(name, strategy, call, message, bits=bits):
            out['%s-%d' % (name, bits)] = (strategy, call, SignatureError, SIG_PREFIX + message)
        multiples = st.integers(0, ((1 << bits) - 1) // q).map(
            lambda i, q=q, n=n: (i * q).to_bytes(n, 'big'))
        bad_k = st.one_of(st.sampled_from([0, q, q + 1, (1 << bits) - 1]).filter(
            lambda v, bits=bits: v < 1 << bits), st.integers(q, (1 << bits) - 1)).map(
                lambda v, n=n: v.to_bytes(n, 'big'))
        add('sign key', st.one_of(wrong(n), multiples),
            lambda v, b=bits, g=good: sig(b).sign(v, g, g), 'invalid private key value')
        add('sign key (drawn k)', st.one_of(wrong(n), multiples),
            lambda v, b=bits, g=good: sig(b).sign(v, g), 'invalid private key value')
        add('sign digest', wrong(n), lambda v, b=bits, g=good: sig(b).sign(g, v, g),
            'invalid digest value')
        add('sign k', st.one_of(TAG, bad_k), lambda v, b=bits, g=good: sig(b).sign(g, g, v),
            'invalid random value')
        add('verify key', wrong(2 * n),
            lambda v, b=bits, g=good: sig(b).verify(v, g, g + g), 'invalid public key value')
        add('verify digest', wrong(n),
            lambda v, b=bits, g=good: sig(b).verify(pub(b), v, g + g), 'invalid digest value')
        add('verify signature', wrong(2 * n),
            lambda v, b=bits, g=good: sig(b).verify(pub(b), g, v), 'invalid signature value')
        add('public key', st.one_of(wrong(n), multiples),
            lambda v, b=bits: sig(b).public_key_generate(v), 'invalid private key')
    bad_mode = st.one_of(st.integers(3, 600), st.integers(-5, 0), st.just(['none']),
                         st.just(['str']), st.just(['float']), st.just(['list']), st.just(['dict']),
                         st.text(max_size=4), st.binary(max_size=2))
    out['signature mode'] = (
        bad_mode, lambda v: gostsignature.new(v, gostsignature.CURVES_R_1323565_1_024_2019[SET256]),
        SignatureError, SIG_PREFIX + 'unsupported signature mode')
    return out


def _hash_obj(size):
    return gosthash.new(STREEBOG[size])


def _table():
    hmac_name = st.sampled_from(sorted(HMAC.values()))
    hash_name = st.sampled_from(sorted(STREEBOG.values()))
    long_key = st.one_of(TAG, gen.sized(st.one_of(st.integers(65, 200), st.just(65), st.just(128))))
    too_long = st.one_of(st.integers(LIMIT + 1, LIMIT + 70), st.integers(LIMIT + 1, 1 << 80))
    out = {
        'hash name': (bad_name.filter(lambda v: v not in STREEBOG.values()),
                      gosthash.new, HashError, 'GOSTHashError: unsupported hash type'),
        'hash name with data': (bad_name.filter(lambda v: v not in STREEBOG.values()),
                                lambda v: gosthash.new(v, data=b'abc'), HashError,
                                'GOSTHashError: unsupported hash type'),
        'hash data': (TAG, lambda v, name: gosthash.new(name, data=v), HashError,
                      'GOSTHashError: invalid data value', hash_name),
        'hash update': (TAG, lambda v, name: gosthash.new(name).update(v), HashError,
                        'GOSTHashError: invalid data value', hash_name),
        'hash later update': (TAG, lambda v, name: gosthash.new(name, data=b'abc').update(v),
                              HashError, 'GOSTHashError: invalid data value', hash_name),
        'hmac name': (bad_name.filter(lambda v: v not in HMAC.values()),
                      lambda v: gosthmac.new(v, GOOD32), HMACError,
                      'GOSTHMACError: unsupported mode'),
        'hmac key': (long_key, lambda v, name: gosthmac.new(name, v), HMACError,
                     'GOSTHMACError: invalid key value', hmac_name),
        'hmac key with data': (long_key, lambda v, name: gosthmac.new(name, v, data=b'abc'),
                               HMACError, 'GOSTHMACError: invalid key value', hmac_name),
        'hmac data': (TAG, lambda v, name: gosthmac.new(name, GOOD32, data=v), HMACError,
                      'GOSTHMACError: invalid data value', hmac_name),
        'hmac update': (TAG, lambda v, name: gosthmac.new(name, GOOD32).update(v), HMACError,
                        'GOSTHMACError: invalid data value', hmac_name),
        'hmac later update': (TAG, lambda v, name: gosthmac.new(name, GOOD64, data=b'x').update(v),
                              HMACError, 'GOSTHMACError: invalid data value', hmac_name),
        'pbkdf password': (long_key, lambda v: gostpbkdf.new(v, salt=b'salt', counter=1), PBKDFError,
                           'GOSTPBKDFError: invalid password value'),
        'pbkdf password, no salt': (long_key, gostpbkdf.new, PBKDFError,
                                    'GOSTPBKDFError: invalid password value'),
        'pbkdf salt': (TAG, lambda v: gostpbkdf.new(b'password', salt=v, counter=1), PBKDFError,
                       'GOSTPBKDFError: invalid salt value'),
        'pbkdf length': (too_long, lambda v: gostpbkdf.new(b'p', salt=b's', counter=1).derive(v),
                         PBKDFError, 'GOSTPBKDFError: invalid size of the derived key'),
        'pbkdf hex length': (too_long,
                             lambda v: gostpbkdf.new(b'p', salt=b's', counter=1).hexderive(v),
                             PBKDFError, 'GOSTPBKDFError: invalid size of the derived key'),
        'random seed': (wrong_nonempty(48), lambda v: gostrandom.new(32, rand_k=v), RandomError,
                        'GOSTRandomError: invalid seed value'),
        'random seed 32': (wrong_nonempty(32),
                           lambda v: gostrandom.new(32, rand_k=v, size_s=gostrandom.SIZE_S_256),
                           RandomError, 'GOSTRandomError: invalid seed value'),
        'random seed 40': (wrong_nonempty(40),
                           lambda v: gostrandom.new(32, rand_k=v, size_s=gostrandom.SIZE_S_320),
                           RandomError, 'GOSTRandomError: invalid seed value'),
        'random reset': (wrong_nonempty(48),
                         lambda v: gostrandom.new(32, rand_k=GOOD64[:48]).reset(v), RandomError,
                         'GOSTRandomError: invalid seed value'),
        'random reset 32': (wrong_nonempty(32),
                            lambda v: gostrandom.new(32, rand_k=GOOD32, size_s=32).reset(v),
                            RandomError, 'GOSTRandomError: invalid seed value'),
        'random zero seed': (st.sampled_from([32, 40, 48]).map(bytes),
                             lambda v: gostrandom.new(64, rand_k=v, size_s=len(v)).random(),
                             RandomError, 'GOSTRandomError: the seed value is zero'),
        'random zero reset': (st.sampled_from([32, 40, 48]).map(bytes), lambda v: _rand_reset(v),
                              RandomError, 'GOSTRandomError: the seed value is zero'),
    }
    out.update(_sig_table())
    return out


def _rand_reset(v):
    obj = gostrandom.new(64, rand_k=b'\x01' * len(v), size_s=len(v))
    obj.reset(v)
    obj.random()


TABLE = _table()
SLOW = sorted(k for k in TABLE if k.endswith('-512'))
FAST = sorted(k for k in TABLE if k not in SLOW)


@st.composite
def misuse_cases(draw, keys):
    key = draw(st.sampled_from(keys))
    entry = TABLE[key]
    case = {'key': key, 'v': draw(entry[0]), 't': draw(st.booleans())}
    if len(entry) > 4:
        case['name'] = draw(entry[4])
    return case


def i02_check(case):
    entry = TABLE[case['key']]
    v = value(case['v'])
    if case['t'] and isinstance(v, bytes) and 'name' not in case['key']:
        v = bytearray(v)
    args = (v, case['name']) if 'name' in case else (v,)
    raises(entry[2], lambda: entry[1](*args), '%s %r' % (case['key'], v), entry[3])
    return True, [case['key']]


def i02_explicit(tier):
    out = []
    for key in FAST + SLOW:
        names = [None]
        if len(TABLE[key]) > 4:
            names = sorted(HMAC.values()) if 'hmac' in key else sorted(STREEBOG.values())
        base = [b'', b'\x01', GOOD32, GOOD32[:31], GOOD32 + b'\x01', GOOD64, GOOD64[:63],
                GOOD64 + b'\x01', GOOD64[:40], GOOD64[:48], GOOD64 * 2]
        for i, name in enumerate(names):
            values = [[t] for t in gen.NOT_BYTES]
            if key in ('hash name', 'hash name with data', 'hmac name'):
                values = STR_NAMES + [['none'], ['int'], ['list'], ['float'], ['dict']]
            elif 'length' in key:
                values = [LIMIT + 1, LIMIT + 64, 1 << 40, 1 << 64]
            elif 'zero' in key:
                values = [bytes(32), bytes(40), bytes(48)]
            elif key in ('hmac key', 'hmac key with data', 'pbkdf password',
                         'pbkdf password, no salt'):
                values += [GOOD64 + b'\x01', GOOD64 * 2, bytes(65)]
            elif key == 'signature mode':
                values = [0, 3, -1, 256, 512, ['none'], ['str'], ['list'], ['dict']]
            elif key.startswith('random'):
                n = {'random seed': 48, 'random reset': 48, 'random seed 32': 32,
                     'random seed 40': 40, 'random reset 32': 32}[key]
                values += [b for b in base if len(b) not in (0, n)]
            elif key[-4:] in ('-256', '-512') and 'sign k-' not in key:
                n = int(key[-3:]) // 8
                n = 2 * n if key.startswith(('verify key', 'verify sig')) else n
                values += [b for b in base if len(b) != n]
            if key in SLOW and tier == 'quick':
                values = values[::3] + values[-2:]
            for j, v in enumerate(values):
                case = {'key': key, 'v': v, 't': bool(j & 1)}
                if name:
                    case['name'] = name
                out.append(case)
    return out


def limits(case):
    """Valid arguments at the limits are accepted, with the right result."""
    what, n, t = case['what'], case['n'], Typed(case['t'])
    data = (GOOD64 * 3)[:n]
    if what == 'hmac key':
        for size in (32, 64):
            same(gosthmac.new(HMAC[size], t(data), data=t(b'abc')).digest(),
                 ref.hmac(data, b'abc', size), 'HMAC with a key of %d bytes' % n)
    elif what == 'password':
        same(gostpbkdf.new(t(data), salt=t(b'salt'), counter=1).derive(10),
             ref.pbkdf(data, b'salt', 1, 10), 'password of %d bytes' % n)
    elif what == 'salt':
        same(gostpbkdf.new(t(b'pw'), salt=t(data), counter=1).derive(10),
             ref.pbkdf(b'pw', data, 1, 10), 'salt of %d bytes' % n)
    elif what == 'length':
        same(gostpbkdf.new(t(b'pw'), salt=t(b'salt'), counter=1).derive(n),
             ref.pbkdf(b'pw', b'salt', 1, n), 'derived key of %d bytes' % n)
    elif what == 'seed':
        same(gostrandom.new(32, rand_k=t(data), size_s=n).random(), ref.Drbg(data).random(32),
             'seed of %d bytes' % n)
    elif what == 'empty data':
        for size in (32, 64):
            same(gosthash.new(STREEBOG[size], data=t(b'')).digest(), ref.streebog(b'', size), 'hash')
            obj = gosthash.new(STREEBOG[size])
            obj.update(t(b''))
            same(obj.digest(), ref.streebog(b'', size), 'hash')
            same(gosthmac.new(HMAC[size], t(GOOD32), data=t(b'')).digest(),
                 ref.hmac(GOOD32, b'', size), 'hmac')
    elif what == 'empty seed':
        # an empty seed means: take it from the operating system
        u = Urandom([GOOD64[:48], GOOD64[16:]])
        with u.patch():
            obj = gostrandom.new(32, rand_k=t(b''))
            same(obj.random(), ref.Drbg(u.served[-1]).random(32), 'empty seed')
    elif what == 'k':
        for bits in (256, 512):
            q, m = _q(bits), bits // 8
            c = curves.PARAMS[SET256 if bits == 256 else SET512]
            cv = ref.Curve(**{x: c[x] for x in curves.CANONICAL})
            k = 1 if n == 0 else q - 1
            d = q - 1 if n == 0 else 1
            good = GOOD64[:m]
            r, s = ref.sign_rs(cv, d, good, k)
            same(sig(bits).sign(t(d.to_bytes(m, 'big')), t(good), t(k.to_bytes(m, 'big'))),
                 r.to_bytes(m, 'big') + s.to_bytes(m, 'big'), 'k = %x' % k)
            top = (1 << bits) - 1
            if top % q:
                pt = cv.mul(top % q)
                same(sig(bits).public_key_generate(t(top.to_bytes(m, 'big'))),
                     pt[0].to_bytes(m, 'big') + pt[1].to_bytes(m, 'big'), 'largest private key')
    return True, [what]


def limits_explicit(tier):
    out = []
    for t in (0, 0xffffff):
        out += [{'what': 'hmac key', 'n': n, 't': t} for n in (0, 1, 31, 32, 33, 63, 64)]
        out += [{'what': 'password', 'n': n, 't': t} for n in (0, 1, 63, 64)]
        out += [{'what': 'salt', 'n': n, 't': t} for n in (1, 32, 64, 65, 190)]
        out += [{'what': 'length', 'n': n, 't': t} for n in (0, 1, 63, 64, 65, 128)]
        out += [{'what': 'seed', 'n': n, 't': t} for n in (32, 40, 48, 1, 61)]
        out += [{'what': 'empty data', 'n': 0, 't': t}, {'what': 'empty seed', 'n': 0, 't': t}]
        out += [{'what': 'k', 'n': n, 't': t} for n in (0, 1)]
    return out


def i02():
    return Property('I02', [
        SubCheck('limits', limits, explicit=limits_explicit,
                 rule='valid arguments at the limits are accepted with the right result'),
        SubCheck('misuse512', i02_check, misuse_cases(SLOW), 160, 8000, destructors=True,
                 rule='as misuse for the 512-bit signature mode'),
        SubCheck('misuse', i02_check, misuse_cases(FAST), 6000, 300000, i02_explicit,
                 destructors=True,
                 rule='a table of %d documented refusals (call, argument): values of other types and '
                      'wrong lengths or ranges must give exactly the documented exception and '
                      'message' % len(TABLE))])


# ----------------------------------------------------------------------- I05

def in_package(filename):
    return '/gostcrypto/' in filename


@st.composite
def i05_cases(draw, kinds):
    base = draw(world.cases(kinds, max_ops=3, max_actors=2))
    actors = base['actors']
    while len(actors) < 2:
        actors.append(dict(actors[0]))
    # mostly the same kind in both threads: that is where state would be shared
    twin = draw(st.integers(0, 3))
    if twin:
        other = dict(actors[0])
        for field in draw(st.lists(st.sampled_from(['key', 'data', 'pw', 'seed', 'name', 'size']),
                                   max_size=2)):
            if field in other and field in actors[1] and \
                    isinstance(actors[1][field], type(other[field])):
                if field in ('name', 'size'):
                    if other['kind'] != actors[1]['kind']:
                        continue
                elif len(other[field]) != len(actors[1][field]):
                    continue
                other[field] = actors[1][field]
        actors[1] = other
    if draw(st.integers(0, 3)) == 0:
        actors.append(dict(draw(st.sampled_from(actors))))
    names = st.sampled_from(['update', 'digest', 'hex', 'reset', 'attr', 'other', 'verify'])
    size = gen.sized(st.sampled_from([0, 1, 8, 16, 24, 33, 64]))
    plan = [draw(st.lists(st.tuples(names, size), min_size=1, max_size=2)) for _ in actors]
    length = st.one_of(st.integers(1, 12), st.integers(1, 150), st.integers(1, 1000))
    schedule = draw(st.lists(st.tuples(length, st.integers(0, 3)), min_size=2, max_size=12))
    return {'actors': actors, 'plan': [[list(o) for o in p] for p in plan],
            'schedule': [list(x) for x in schedule], 't': draw(flags)}


def i05_check(case):
    def job(spec, plan):
        def run():
            ctx = world.Ctx(case['t'])
            actor = world.KINDS[spec['kind']](ctx, spec)
            for op, args in plan:
                actor.do(ctx, op, args)
            actor.do(ctx, 'digest', b'\x5a' * 16)
        return run
    results, baton = threads.run([job(a, p) for a, p in zip(case['actors'], case['plan'])],
                                 case['schedule'], in_package)
    for i, (how, value) in enumerate(results):
        if how == 'raised':
            if isinstance(value, Violation):
                fail('thread %d: %s', i, value)
            raise value
    return baton.switches > 1, ['%d threads' % len(results),
                                'ran freely' if baton.free else 'switches>10' if baton.switches > 10
                                else 'switches'] + [a['kind'] for a in case['actors']]


def i05_first(case):
    """The case in a process that has not used the package before."""
    return core.in_fork(i05_check, case)


def i05():
    cheap = ['hash', 'hash', 'hmac', 'cipher', 'cipher', 'cipher', 'bare', 'mac', 'rand', 'pbkdf', 'oid']
    return Property('I05', [
        SubCheck('threads-sign', i05_check, i05_cases(['sign']), 24, 1500, budget=100, guided=False,
                 rule='as threads, with signature objects'),
        SubCheck('first', i05_first, i05_cases(['cipher', 'bare', 'hash', 'mac', 'hmac']), 200, 12000,
                 guided=False,
                 rule='as threads, each case in a new process, so that the threads are the first '
                      'to use the package'),
        SubCheck('threads', i05_check, i05_cases(cheap), 900, 40000, budget=100, guided=False,
                 rule='2-4 threads, each with its own object (mostly of one kind), switched after a '
                      'generated number of source lines; non-trivial: more than one switch')],
        ['switching points are source lines of the package (sys.settrace), not single bytecodes'])


# ----------------------------------------------------------------------- I07

IDLE = 0.5


class Watch:
    """Raises in the main thread if it is blocked (a deadlock): no progress, no processor time."""

    def __enter__(self):
        self.last, self.place, self.idle = time.process_time(), None, 0
        self.old = signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, IDLE, IDLE)

    def tick(self, _number, frame):
        now, place = time.process_time(), (frame, frame.f_lasti)
        still = now - self.last < 0.005 and place == self.place
        self.last, self.place, self.idle = now, place, self.idle + 1 if still else 0
        if self.idle >= 4:
            self.idle = 0
            raise Violation('the operations never end: blocked in %s' % frame.f_code.co_name)

    def __exit__(self, *_exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        self.place = None


MOST = 20


def i07_check(case):
    """The first actor's operations; the others' run in the middle of them, in the same thread."""
    others = []
    for spec, plan in list(zip(case['actors'], case['plan']))[1:]:
        others.append({'spec': spec, 'plan': plan + [['digest', b'\xa5' * 16], ['other', b'\x3c' * 32]],
                       'at': 0, 'made': None})
    lengths, which = [n for n, _ in case['schedule']], [n for _, n in case['schedule']]
    points = {tuple(p) for p in case['points']}
    state = {'left': lengths[0], 'n': 0, 'fired': 0, 'error': None}
    functions, counts, places = {}, {}, set()
    most = 6 if any(o['spec']['kind'] == 'sign' for o in others) else MOST

    def step(entry):
        """One step of an interrupting actor; the first makes its object, the last destroys it."""
        at, steps = entry['at'], entry['plan']
        if at == 0:
            entry['made'] = world.KINDS[entry['spec']['kind']](world.Ctx(case['t']), entry['spec'])
        if at or not case['hold']:
            op, args = steps[at - 1 if case['hold'] else at]
            entry['made'].do(world.Ctx(case['t']), op, args)
        entry['at'] += 1
        if entry['at'] == len(steps) + case['hold']:
            entry['made'], entry['at'] = None, 0

    def interrupt():
        state['n'] += 1
        if state['fired'] < most and state['error'] is None:
            state['fired'] += 1
            try:
                step(others[which[state['n'] % len(which)] % len(others)])
            except BaseException as exc:  # pylint: disable=broad-except
                state['error'] = exc

    def local(frame, kind, _arg):
        if kind == 'line':
            code = frame.f_code
            count = counts[code] = counts.get(code, 0) + 1
            if (functions.setdefault(code, len(functions)), count) in points:
                interrupt()
            place = (code, frame.f_lineno)
            if place not in places:
                places.add(place)
                if case['every'] and len(places) % case['every'] == 0:
                    interrupt()
            state['left'] -= 1
            if state['left'] <= 0:
                interrupt()
                state['left'] = lengths[state['n'] % len(lengths)]
        return local if state['fired'] < most else None

    def trace(frame, _kind, _arg):
        if state['fired'] >= most:
            sys.settrace(None)
            return None
        return local if in_package(frame.f_code.co_filename) else None

    with Watch():
        old = sys.gettrace()
        try:
            ctx = world.Ctx(case['t'])
            if not case['from']:
                sys.settrace(trace)
            actor = world.KINDS[case['actors'][0]['kind']](ctx, case['actors'][0])
            steps = case['plan'][0] + [['digest', b'\x5a' * 16], ['other', b'\xc3' * 32]]
            for n, (op, args) in enumerate(steps):
                if n == min(case['from'], len(steps)) - 1:
                    sys.settrace(trace)
                actor.do(ctx, op, args)
        except Violation as exc:
            fail('interrupted %d times: %s', state['fired'], exc)
        finally:
            sys.settrace(old)
    if state['error'] is not None:
        if isinstance(state['error'], Violation):
            fail('run in the middle of another operation: %s', state['error'])
        raise state['error']
    return state['fired'] > 0, ['%s in %s' % (b['kind'], case['actors'][0]['kind'])
                                for b in case['actors'][1:]] if state['fired'] else ['not reached']


@st.composite
def i07_cases(draw, kinds):
    case = draw(i05_cases(kinds))
    # the k-th line executed in the f-th function that is used
    near = st.one_of(st.integers(1, 20), st.integers(1, 150), st.integers(1, 2000))
    case['points'] = draw(st.lists(st.tuples(st.integers(0, 24), near).map(list), min_size=2,
                                   max_size=14))
    length = st.one_of(st.integers(1, 150), st.integers(1, 2000), st.integers(1, 8000))
    case['schedule'] = [[draw(length), n] for _, n in case['schedule']]
    case['hold'] = draw(st.booleans())
    # the step before which no interruption comes; 0: the making of the object
    case['from'] = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
    # at lines executed for the first time
    case['every'] = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 7, 10, 15, 25]))
    if draw(st.booleans()):
        # the same operations inside the operations, of an object like the first or its equal
        case['actors'], case['plan'] = case['actors'][:2], [case['plan'][0]] * 2
        if draw(st.booleans()):
            case['actors'][1] = dict(case['actors'][0])
    return case


def i07():
    cheap = ['hash', 'hash', 'hmac', 'cipher', 'cipher', 'cipher', 'bare', 'mac', 'rand', 'pbkdf', 'oid']
    return Property('I07', [
        SubCheck('nested-sign', i07_check, i07_cases(['sign']), 40, 1500, budget=60, guided=False,
                 rule='as nested, with signature objects'),
        SubCheck('nested-cipher', i07_check, i07_cases(['bare', 'bare', 'cipher', 'mac']), 600, 16000,
                 budget=60, guided=False, rule='as nested, with cipher objects'),
        SubCheck('nested', i07_check, i07_cases(cheap), 1200, 40000, budget=60, guided=False,
                 rule='operations of one object; after generated numbers of source lines of the '
                      'package, or of one of its functions, and in the same thread an operation of '
                      'another object is run to its end, or its object made or destroyed; '
                      'non-trivial: at least one was')],
        ['interruptions at source lines of the package, one level deep'])


# ----------------------------------------------------------------------- I06

# sub-checks that are about the process itself, or slow
NOT_THERE = {'I05', 'I06', 'I07', 'C11', 'U02'}
FLAGS = [[], ['-O'], ['-O'], ['-OO'], ['-OO'], ['-X', 'dev'], ['-I'], ['-O', '-X', 'dev'],
         ['-OO', '-I']]


@functools.lru_cache(maxsize=None)
def elsewhere():
    """(property, sub-check) of all whose generated cases are cheap."""
    out = []
    for pid in props.all_ids():
        if pid in NOT_THERE:
            continue
        for sub in i06_subs(pid):
            out.append((pid, sub.name, sub.strategy))
    return out


def i06_subs(pid):
    return [sub for sub in props.get(pid).subchecks
            if sub.strategy is not None and sub.quick >= 200
            and sub.name not in ('neighbours', 'echoes', 'crafted')]


@st.composite
def i06_cases(draw):
    known = elsewhere()
    one = st.sampled_from(known).flatmap(
        lambda item: item[2].map(lambda case: [item[0], item[1], case]))
    return {'flags': draw(st.sampled_from(FLAGS)),
            'hash': draw(st.sampled_from(['0', '1', '12345', 'random'])),
            'locale': draw(st.sampled_from(['C', 'C.UTF-8', 'en_US.ISO-8859-1'])),
            'gc': draw(st.sampled_from(['off', 'busy', 'on'])), 'thread': draw(st.booleans()),
            'cases': [draw(one) for _ in range(draw(st.integers(1, 14)))]}


def i06_check(case):
    with tempfile.TemporaryDirectory(prefix='gostv-') as scratch:
        job = {'cases': [[pid, name, core.encode(one)] for pid, name, one in case['cases']],
               'gc': case['gc'], 'thread': case['thread'], 'scratch': scratch}
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PYTHONHASHSEED=case['hash'], LC_ALL=case['locale'], LANG=case['locale'],
                   PYTHONDONTWRITEBYTECODE='1', TMPDIR=scratch)
        try:
            res = subprocess.run([sys.executable] + case['flags'] + [core.CHILD],
                                 input=json.dumps(job), text=True, encoding='utf-8', env=env,
                                 cwd=scratch, capture_output=True, timeout=300, check=False)
        except subprocess.TimeoutExpired:
            return False, ['timed out']
    how = 'python %s' % ' '.join(case['flags'])
    if res.returncode < 0:
        return False, ['killed']
    lines = res.stdout.strip().split('\n')
    try:
        out = json.loads(lines[-1])
    except ValueError:
        return fail('%s: ended with %d: %s', how, res.returncode, res.stderr[-600:])
    if 'failed' in out:
        fail('%s: %s %s: %s', how, *case['cases'][out['failed']][:2], out['message'])
    require(out.get('ran') == len(case['cases']), '%s: ended early: %s', how, res.stderr[-600:])
    return bool(case['flags']), [how, 'gc ' + case['gc']] + (['thread'] if case['thread'] else []) \
        + ['%s %s' % (pid, name) for pid, name, _ in case['cases']]


def i06():
    return Property('I06', [
        SubCheck('configurations', i06_check, i06_cases(), 160, 8000, budget=0, guided=False,
                 rule='1-14 cases of the other properties in a new interpreter with other flags, '
                      'hash seed, locale and garbage collector settings, in the main thread or '
                      'another; non-trivial: flags given')])


PROPS = {'I01': i01, 'I02': i02, 'I03': i03, 'I04': i04, 'I05': i05, 'I06': i06, 'I07': i07}
