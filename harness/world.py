"""A world of objects of all modules, each mirrored by a reference model.

A case lists operations; every operation names an object by index.  Options:
  mutate  the caller overwrites each buffer it passed and each result it got,
          and in half of the cases passes the same buffers again, refilled
  typed   arguments are bytes or bytearray as the flag bits say, and results
          must be bytearray (str for the hexadecimal variants)
"""
import copy

from hypothesis import strategies as st

from harness import curves, gen
from harness.props.common import (BLOCK_CIPHER, BS, HMAC, STREEBOG, HMACError, HashError, MODE,
                                  PBKDFError, RandomError, SignatureError, Typed, equal, fail,
                                  gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom,
                                  gostsignature, raises, ref, require, same)

MODE_256 = gostsignature.MODE_256
SETS = [n for n in curves.NAMES[256]]


class Ctx:
    """How arguments are passed and results are taken."""

    def __init__(self, flags, mutate=False, typed=False):
        self.typed = Typed(flags if typed else 0xffffff if mutate else flags)
        self.check_types = typed
        self.mutate = mutate
        self.fill = 0
        self.reuse = bool(mutate and flags & 1)
        self.lent = []
        self.kept = {}           # the caller's buffers by use

    def arg(self, raw, use=None):
        value = self.typed(raw)
        if self.reuse and isinstance(value, bytearray):
            kept = self.kept.setdefault(use or len(raw), [])
            if kept:
                value = kept.pop(0)
                value[:] = raw
            self.lent.append((use or len(raw), value))
        return value

    def call(self, func, *args, **kwargs):
        """func(...), the caller's buffers unchanged by it, then overwritten."""
        buffers = [a for a in list(args) + list(kwargs.values())
                   if isinstance(a, (bytes, bytearray))]
        before = [bytes(b) for b in buffers]
        try:
            result = func(*args, **kwargs)
        finally:
            for buf, was in zip(buffers, before):
                require(bytes(buf) == was, '%s changed an argument', func)
        if self.mutate:
            for buf in buffers:
                self.overwrite(buf)
        for use, buf in self.lent:
            self.kept[use].append(buf)
        self.lent = []
        return result

    def overwrite(self, buf):
        if isinstance(buf, bytearray):
            self.fill = (self.fill + 37) & 255
            if self.fill & 3 == 0:
                del buf[len(buf) // 2:]
            elif self.fill & 3 == 1:
                buf += b'\xa5'
            for i in range(len(buf)):
                buf[i] = (buf[i] + 1 + self.fill) & 255

    def take(self, value, want, what, any_type=False):
        """A result must be `want`; then the caller overwrites it."""
        same(value, want, what)
        if self.check_types and not any_type:
            require(type(value) is bytearray, '%s: a %s, not a bytearray', what,
                    type(value).__name__)
        if self.mutate:
            self.overwrite(value)

    def take_hex(self, value, want, what):
        equal(value, want.hex(), what)


# ------------------------------------------------------------------- objects

class Hash:
    def __init__(self, ctx, spec):
        self.size, self.data = spec['size'], spec['data']
        self.real = ctx.call(gosthash.new, STREEBOG[self.size], data=ctx.arg(self.data))

    def model(self):
        return ref.streebog(self.data, self.size)

    def do(self, ctx, op, args):
        if op == 'update':
            self.data += args
            ctx.call(self.real.update, ctx.arg(args))
        elif op == 'hex':
            ctx.take_hex(self.real.hexdigest(), self.model(), 'hexdigest')
        elif op == 'copy':
            twin = copy.copy(self)
            twin.real = self.real.copy()
            return twin
        elif op == 'reset':
            self.data = b''
            self.real.reset()
        else:
            ctx.take(self.real.digest(), self.model(), 'digest of %d bytes' % len(self.data))
        return None

    def bad(self, ctx, how):
        raises(HashError, lambda: self.real.update(how), 'hash update(%r)' % (how,))


class Hmac(Hash):
    def __init__(self, ctx, spec):  # pylint: disable=super-init-not-called
        self.size, self.data, self.key = spec['size'], spec['data'], spec['key']
        self.real = ctx.call(gosthmac.new, HMAC[self.size], ctx.arg(self.key),
                             data=ctx.arg(self.data))

    def model(self):
        return ref.hmac(self.key, self.data, self.size)

    def bad(self, ctx, how):
        raises(HMACError, lambda: self.real.update(how), 'hmac update(%r)' % (how,))


class Cipher:
    def __init__(self, ctx, spec):
        self.name, self.mode, self.way = spec['name'], spec['mode'], spec['way']
        self.bs = BS[self.name]
        kwargs = {}
        iv = spec['iv'][:self.bs // 2 if self.mode == 'ctr' else self.bs * spec['ivs']]
        if self.mode != 'ecb':
            kwargs['init_vect'] = ctx.arg(iv)
        self.real = ctx.call(gostcipher.new, self.name, ctx.arg(spec['key']), MODE[self.mode],
                             **kwargs)
        self.ref = ref.ModeModel(self.name, spec['key'], self.mode, iv)

    def do(self, ctx, op, args):
        if op == 'attr':
            if self.mode == 'ctr':
                ctx.take(self.real.counter, self.ref.counter_bytes, 'counter')
            elif self.mode != 'ecb':
                ctx.take(self.real.iv, self.ref.register[-1], 'iv')
            return
        data = args
        if self.mode != 'ctr':
            data = data[:len(data) - len(data) % self.bs]
        way = self.way
        if op == 'other' and self.mode in ('ecb', 'ctr'):
            way = 'decrypt' if way == 'encrypt' else 'encrypt'
        got = ctx.call(getattr(self.real, way), ctx.arg(data))
        ctx.take(got, self.ref.run(data, way), '%s %s %s of %d bytes' % (
            self.name, self.mode, way, len(data)))


class Bare:
    def __init__(self, ctx, spec):
        self.name = spec['name']
        self.bs = BS[self.name]
        self.real = ctx.call(BLOCK_CIPHER[self.name], ctx.arg(spec['key']))
        self.ref = ref.CIPHERS[self.name](spec['key'])

    def do(self, ctx, op, args):
        block = (args + bytes(16))[:self.bs]
        if op == 'other':
            ctx.take(ctx.call(self.real.decrypt, ctx.arg(block)), self.ref.decrypt(block),
                     self.name + ' block decrypt')
        else:
            ctx.take(ctx.call(self.real.encrypt, ctx.arg(block)), self.ref.encrypt(block),
                     self.name + ' block encrypt')


class Mac:
    def __init__(self, ctx, spec):
        self.name, self.key, self.data = spec['name'], spec['key'], spec['data']
        self.real = ctx.call(gostcipher.new, self.name, ctx.arg(self.key), MODE['mac'],
                             data=ctx.arg(self.data))

    def do(self, ctx, op, args):
        if op == 'update':
            self.data += args
            ctx.call(self.real.update, ctx.arg(args))
            return
        n = 1 + len(args) % BS[self.name]
        want = ref.omac(self.name, self.key, self.data, n)
        if op == 'hex':
            ctx.take_hex(self.real.hexdigest(n), want, 'mac hexdigest')
        else:
            ctx.take(self.real.digest(n), want, '%s mac of %d bytes' % (self.name, len(self.data)))


class Pbkdf:
    def __init__(self, ctx, spec):
        self.pw, self.salt, self.count = spec['pw'], spec['salt'], spec['count']
        self.real = ctx.call(gostpbkdf.new, ctx.arg(self.pw), salt=ctx.arg(self.salt),
                             counter=self.count)

    def do(self, ctx, op, args):
        n = len(args)
        if op == 'attr':
            ctx.take(self.real.salt, self.salt, 'salt', any_type=True)
        elif op == 'hex':
            ctx.take_hex(self.real.hexderive(n), ref.pbkdf(self.pw, self.salt, self.count, n),
                         'hexderive')
        else:
            ctx.take(self.real.derive(n), ref.pbkdf(self.pw, self.salt, self.count, n),
                     'derive(%d)' % n)

    def bad(self, ctx, how):
        raises(PBKDFError, lambda: self.real.derive((2 ** 32 - 1) * 64 + 1), 'derive')
        raises(PBKDFError, lambda: self.real.hexderive(2 ** 40), 'hexderive')


class Rand:
    def __init__(self, ctx, spec):
        self.size, self.seed = spec['size'], spec['seed']
        self.real = ctx.call(gostrandom.new, self.size, rand_k=ctx.arg(self.seed),
                             size_s=len(self.seed))
        self.ref = ref.Drbg(self.seed)

    def do(self, ctx, op, args):
        if op == 'reset':
            seed = (args + b'\x01' * 64)[:len(self.seed)]
            if not any(seed):
                seed = b'\x01' * len(self.seed)
            ctx.call(self.real.reset, ctx.arg(seed))
            self.ref = ref.Drbg(seed)
        else:
            ctx.take(self.real.random(), self.ref.random(self.size), 'random()')

    def bad(self, ctx, how):
        bad = bytes(len(self.seed) + 1) if isinstance(how, int) else how
        raises(RandomError, lambda: self.real.reset(bad), 'reset(%r)' % (bad,))
        short = b'\x01' * (len(self.seed) - 1)
        if short:
            raises(RandomError, lambda: self.real.reset(short), 'reset() with a short seed')


class Sign:
    def __init__(self, ctx, spec):
        desc = spec['set']
        form = spec['form'] if desc[0] in curves.EDWARDS[256] else 'canonical'
        params = curves.canonical(desc) if form == 'canonical' else curves.edwards(desc)
        was = dict(params)
        self.real = gostsignature.new(MODE_256, params)
        require(params == was, 'new() changed the curve parameters')
        if ctx.mutate:
            # the dictionary may be emptied or left with other numbers
            how = spec['d'] % 3
            for k in list(params):
                params[k] += 1
                if how == 1 and k in 'pmx':
                    del params[k]
            if how == 2:
                params.clear()
        self.cv = curves.ref_curve(desc)
        self.d = spec['d'] % self.cv.q or 1
        self.pub = None

    def key(self):
        if self.pub is None:
            self.pub = self.cv.mul(self.d)
        return self.pub[0].to_bytes(32, 'big') + self.pub[1].to_bytes(32, 'big')

    def do(self, ctx, op, args):
        digest = ref.streebog(args, 32)
        k = int.from_bytes(ref.streebog(b'k' + args, 64), 'big') % (self.cv.q - 1) + 1
        d = self.d.to_bytes(32, 'big')
        if op == 'key' or op == 'attr':
            ctx.take(ctx.call(self.real.public_key_generate, ctx.arg(d, 'd')), self.key(), 'public key')
            return
        r, s = ref.sign_rs(self.cv, self.d, digest, k)
        sig = r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
        if op in ('update', 'digest', 'sign'):
            ctx.take(ctx.call(self.real.sign, ctx.arg(d, 'd'), ctx.arg(digest, 'digest'),
                              ctx.arg(k.to_bytes(32, 'big'), 'k')), sig, 'signature')
        else:
            equal(ctx.call(self.real.verify, ctx.arg(self.key(), 'q'), ctx.arg(digest, 'digest'),
                           ctx.arg(sig, 'sig')),
                  True, 'verify')
            if op == 'other':
                bad = bytearray(sig)
                bad[len(args) % 64] ^= 1 << (len(args) % 8)
                r, s = int.from_bytes(bad[:32], 'big'), int.from_bytes(bad[32:], 'big')
                equal(self.real.verify(self.key(), digest, bad),
                      ref.verify(self.cv, self.pub, digest, r, s), 'verify of a changed signature')

    def bad(self, ctx, how):
        good = bytes(31) + b'\x07'
        if isinstance(how, int):
            how = bytes(33)
        sign, verify = self.real.sign, self.real.verify
        for call in (lambda: sign(how, good, good), lambda: sign(good, how, good),
                     lambda: sign(good, good, bytes(32)), lambda: sign(bytes(32), good, good),
                     lambda: verify(how, good, bytes(64)), lambda: verify(self.key(), how, bytes(64)),
                     lambda: verify(self.key(), good, how),
                     lambda: verify(bytes(64), good, bytes(64)),
                     lambda: self.real.public_key_generate(how)):
            raises(SignatureError, call, 'signature call with %r' % (how,))


class Oid:
    def __init__(self, ctx, spec):
        self.text = '2.%d.%d' % (spec['n'], spec['n'] * 77)
        self.real = gostoid.ObjectIdentifier(self.text)

    def do(self, ctx, op, args):
        arcs = tuple(int(v) for v in self.text.split('.'))
        ctx.take(self.real.octet, ref.oid_der(arcs), 'octet')
        equal(self.real.digit, arcs, 'digit')
        equal(str(self.real), self.text, 'str')


KINDS = {'hash': Hash, 'hmac': Hmac, 'cipher': Cipher, 'bare': Bare, 'mac': Mac, 'pbkdf': Pbkdf,
         'rand': Rand, 'sign': Sign, 'oid': Oid}

CONSTANTS = None


def constants():
    """A deep copy of what the package exports."""
    return copy.deepcopy((gostsignature.CURVES_R_1323565_1_024_2019,
                          gostoid.OBJECT_IDENTIFIER_TC26
                          if hasattr(gostoid, 'OBJECT_IDENTIFIER_TC26') else None))


NEW_BAD = [
    lambda: raises(HashError, lambda: gosthash.new('streebog'), 'bad name'),
    lambda: raises(HashError, lambda: gosthash.new('streebog256', data='abc'), 'bad data'),
    lambda: raises(HMACError, lambda: gosthmac.new('HMAC_GOSTR3411_2012_512', bytes(65)), 'bad key'),
    lambda: raises(HMACError, lambda: gosthmac.new('HMAC_GOSTR3411_2012_256', bytes(32), data=5),
                   'bad data'),
    lambda: raises(PBKDFError, lambda: gostpbkdf.new(bytes(65)), 'bad password'),
    lambda: raises(PBKDFError, lambda: gostpbkdf.new(b'password', salt='salt'), 'bad salt'),
    lambda: raises(RandomError, lambda: gostrandom.new(32, rand_k=bytes(7)), 'bad seed'),
    lambda: raises(gostcipher.GOSTCipherError,
                   lambda: gostcipher.new('kuznechik', bytes(31), MODE['ecb']), 'bad key'),
    lambda: raises(gostcipher.GOSTCipherError,
                   lambda: gostcipher.new('magma', bytes(32), MODE['ctr'], init_vect=bytes(5)),
                   'bad vector'),
    lambda: raises(SignatureError, lambda: gostsignature.new(7, {}), 'bad mode'),
    lambda: raises(SignatureError, lambda: gostsignature.new(MODE_256, {
        'p': 7, 'a': 1, 'b': 2, 'm': 3, 'q': 5, 'x': 1, 'y': 1}), 'bad curve'),
]


def run(case, mutate=False, typed=False):
    """Replays the case; returns labels."""
    ctx = Ctx(case['t'], mutate, typed)
    before = constants()
    actors = []
    labels = set()
    for spec in case['actors']:
        actors.append(KINDS[spec['kind']](ctx, spec))
        labels.add(spec['kind'])
    for index, op, args in case['ops']:
        if op == 'new':
            if len(actors) < 12:
                actors.append(KINDS[args['kind']](ctx, args))
            continue
        if op == 'new-bad':
            NEW_BAD[index % len(NEW_BAD)]()
            labels.add('constructor refused')
            continue
        i = index % len(actors)
        actor = actors[i]
        if op == 'bad':
            if hasattr(actor, 'bad'):
                actor.bad(ctx, gen.make_not_bytes(args))
                labels.add('call refused')
            continue
        if op == 'drop':
            if len(actors) > 1 and len(case['ops']) > 2:
                actors.pop(i)
                labels.add('dropped')
            continue
        if op == 'clear':
            # a cleared object is out of the world, the others are not
            if len(actors) > 1 and not isinstance(actor, (Sign, Oid)) and hasattr(actor.real, 'clear'):
                actor.real.clear()
                actors.pop(i)
                labels.add('cleared')
            continue
        twin = actor.do(ctx, op, args)
        if twin is not None and len(actors) < 12:
            actors.append(twin)
            labels.add('copy')
    for actor in actors:
        actor.do(ctx, 'digest', b'\x5a' * 16)
    require(constants() == before, 'an exported constant changed')
    if mutate:
        labels.add('buffers overwritten')
    return sorted(labels)


# ---------------------------------------------------------------- strategies

@st.composite
def material(draw):
    """A small pool of related keys, all objects of a case use them."""
    base = draw(gen.exact(64))
    pool = [base]
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.integers(0, 5))
        other = bytearray(base)
        if how == 0:
            other[0] ^= 1 << draw(st.integers(0, 7))
        elif how == 1:
            other[31] ^= 1 << draw(st.integers(0, 7))
        elif how == 2:
            other[draw(st.integers(0, 63))] ^= draw(st.integers(1, 255))
        elif how == 3:
            other[16:] = other[16:][::-1]
        elif how == 4:
            other[8:] = draw(gen.exact(56))
        else:
            other[:32] = other[:32][::-1]
        pool.append(bytes(other))
    return pool


datas = st.one_of(gen.sized(st.integers(0, 20)), gen.sized(st.sampled_from([0, 8, 16, 24, 32, 48])),
                  gen.sized(gen.near(64, 2)))


@st.composite
def specs(draw, pool, kinds):
    kind = draw(st.sampled_from(kinds))
    key = draw(st.sampled_from(pool))
    spec = {'kind': kind}
    if kind in ('hash', 'hmac'):
        spec.update(size=draw(st.sampled_from([32, 64])), data=draw(datas))
        if kind == 'hmac':
            spec['key'] = key[:draw(st.sampled_from([0, 16, 32, 63, 64, 64]))]
    elif kind in ('cipher', 'bare', 'mac'):
        spec.update(name=draw(gen.cipher_names), key=key[:32])
        if kind == 'cipher':
            spec.update(mode=draw(st.sampled_from(['ecb', 'cbc', 'cfb', 'ofb', 'ctr'])),
                        way=draw(st.sampled_from(['encrypt', 'decrypt'])),
                        ivs=draw(st.integers(1, 3)), iv=draw(st.sampled_from(pool)))
        elif kind == 'mac':
            spec['data'] = draw(datas)
    elif kind == 'pbkdf':
        spec.update(pw=key[:draw(st.sampled_from([0, 8, 32, 64]))],
                    salt=draw(st.sampled_from(pool))[:draw(st.sampled_from([1, 8, 32, 64]))],
                    count=draw(st.integers(1, 2)))
    elif kind == 'rand':
        seed = key[:draw(st.sampled_from([32, 40, 48]))]
        spec.update(size=draw(st.sampled_from([0, 1, 32, 63, 64, 65, 100])),
                    seed=seed if any(seed) else b'\x01' * 32)
    elif kind == 'sign':
        name = draw(st.sampled_from(SETS[:4] + SETS))
        spec.update(set=[name, draw(st.sampled_from([1, 1, 2, 3])),
                         draw(st.sampled_from([1, 1, 2, 5]))],
                    form=draw(st.sampled_from(['canonical', 'edwards'])),
                    d=int.from_bytes(key[:32], 'big'))
    else:
        spec['n'] = draw(st.integers(0, 1 << 40))
    return spec


CHEAP = ['hash', 'hash', 'hmac', 'hmac', 'cipher', 'cipher', 'cipher', 'cipher', 'bare', 'mac', 'mac',
         'pbkdf', 'rand', 'rand', 'oid']


@st.composite
def cases(draw, kinds=None, max_ops=14, refused=False, max_actors=5):
    kinds = kinds or CHEAP
    pool = draw(material())
    spec = specs(pool, kinds)
    actors = draw(st.lists(spec, min_size=2, max_size=max_actors))
    names = ['update'] * 4 + ['digest'] * 4 + ['hex', 'copy', 'reset', 'attr', 'other', 'verify']
    index = st.integers(0, 11)
    op = st.tuples(index, st.sampled_from(names), datas)
    extra = [op, op, op, op, st.tuples(index, st.just('new'), spec),
             st.tuples(index, st.sampled_from(['drop', 'clear']), st.just(b''))]
    if refused:
        bad = st.tuples(index, st.just('bad'), gen.not_bytes)
        extra += [bad, bad, bad, st.tuples(index, st.just('new-bad'), st.just(b''))]
    ops = draw(st.lists(st.one_of(*extra), min_size=1, max_size=max_ops))
    return {'actors': actors, 'ops': [list(o) for o in ops], 't': draw(st.integers(0, (1 << 24) - 1))}
