"""P01-P02 (PBKDF), R01-R02 (pseudo-random generator)."""
from hypothesis import strategies as st

from harness import gen
from harness.props.common import (B, Property, RandomError, SubCheck, Typed, Urandom, echoes, equal, fail,
                                  gostpbkdf, gostrandom, neighbours, raises, ref, require, same)
from harness.props.many import many_derive, many_iterations, many_random

flags = st.integers(0, (1 << 24) - 1)
passwords = gen.sized(st.one_of(st.integers(0, 64), st.sampled_from([0, 1, 31, 32, 63, 64])))
salts = gen.sized(st.one_of(st.integers(1, 64), st.sampled_from([1, 8, 32, 60, 63, 64, 65, 130])))
dk_lens = st.one_of(st.integers(0, 200), gen.near(64, 3))


# ----------------------------------------------------------------------- P01

@st.composite
def p01_cases(draw):
    return {'pw': draw(passwords), 'salt': draw(salts), 'count': draw(st.integers(1, 6)),
            'len': draw(dk_lens), 't': draw(flags)}


def p01_check(case):
    t = Typed(case['t'])
    pw, salt = B(case['pw']), B(case['salt'])
    obj = gostpbkdf.new(t(pw), salt=t(salt), counter=case['count'])
    want = ref.pbkdf(pw, salt, case['count'], case['len'])
    what = 'password of %d bytes, salt of %d, count %d, length %d' % (
        len(pw), len(salt), case['count'], case['len'])
    same(obj.derive(case['len']), want, what)
    equal(obj.hexderive(case['len']), want.hex(), what + ' (hexderive)')
    same(obj.salt, salt, 'salt')
    n = case['len']
    return n > 0, ['count %s' % (case['count'] if case['count'] < 10 else '>=10'),
                   'length %s' % ('0' if not n else '<64' if n < 64 else '64k' if n % 64 == 0
                                  else '>64')]


def p01_long(case):
    obj = gostpbkdf.new(bytearray(case['pw']), salt=bytearray(case['salt']),
                        counter=case['count'])
    got = obj.derive(case['len'])
    require(len(got) == case['len'], 'length %d', len(got))
    if case['count'] > 64:
        want = ref.pbkdf(case['pw'], case['salt'], case['count'], case['len'])
        same(got, want, 'count %d length %d' % (case['count'], case['len']))
    else:
        want = ref.pbkdf(case['pw'], case['salt'], case['count'], case['len'])
        for i in range(0, len(want), 64):
            same(got[i:i + 64], want[i:i + 64], 'block %d' % (i // 64 + 1))
    return True, ['count %d length %d' % (case['count'], case['len'])]


def p01_explicit(tier):
    out = []
    for n in range(65):
        out.append({'pw': bytes(range(n)), 'salt': bytes(range(1, 2 + n)), 'count': 1 + n % 3,
                    'len': 64 + n, 't': n})
    return out


def p01_long_explicit(tier):
    out = [{'pw': b'password', 'salt': b'salt', 'count': 1, 'len': 64 * 257 + 5},
           {'pw': b'p' * 64, 'salt': b's' * 70, 'count': 1000, 'len': 70},
           {'pw': b'', 'salt': b'\0', 'count': 1001, 'len': 64},
           {'pw': b'password', 'salt': b'salt', 'count': 4096, 'len': 64},
           {'pw': b'pass\0word', 'salt': b'sa\0lt', 'count': 257, 'len': 100},
           {'pw': b'x', 'salt': b'y', 'count': 256, 'len': 32},
           {'pw': b'x', 'salt': b'y', 'count': 255, 'len': 63}]
    for n in gen.sizes(9000):
        out.append({'pw': b'password', 'salt': bytes(range(1, 9)) + n.to_bytes(4, 'big'), 'count': 1,
                    'len': n})
        out.append({'pw': b'password', 'salt': (b'long salt' * n)[:n], 'count': 1, 'len': 70})
    for n in [512, 1024] + [n + d for n in gen.counts() for d in (-1, 0, 1, 2)]:
        out.append({'pw': b'password', 'salt': b'salt', 'count': n, 'len': 64})
        out.append({'pw': b'pw', 'salt': b'salt of it', 'count': 1, 'len': 64 * n + 1})
    if tier == 'thorough':
        out.append({'pw': b'password', 'salt': b'salt', 'count': 1, 'len': 64 * 65537 + 5})
        out.append({'pw': b'password', 'salt': b'salt', 'count': 65537, 'len': 64})
        out.append({'pw': b'password' * 3, 'salt': b'salt' * 3, 'count': 10000, 'len': 256})
    return out


def p01():
    return Property('P01', [
        echoes(p01_check, p01_cases(), ['pw+', 'salt+'], 240, 8000,
               valid=lambda c: len(B(c['pw'])) <= 64 and B(c['salt'])),
        neighbours(p01_check, p01_cases(), ['pw+', 'salt+'], 350, 15000,
                   valid=lambda c: len(c['pw']) <= 64 and c['salt'], steps=(1, 2)),
        many_iterations(),
        SubCheck('long', p01_long, explicit=p01_long_explicit, budget=400,
                 rule='more than 256 blocks, counts of 255-4096'),
        SubCheck('derive', p01_check, p01_cases(), 1500, 60000, p01_explicit,
                 rule='password of 0-64 bytes (each length enumerated) x salt x count 1-6 x '
                      'length; non-trivial: length > 0')])


# ----------------------------------------------------------------------- P02

@st.composite
def p02_cases(draw):
    calls = draw(st.lists(st.tuples(st.sampled_from(['derive', 'hexderive']), dk_lens),
                          min_size=1, max_size=5))
    n = draw(st.integers(1, 3))
    return {'pws': [draw(passwords) for _ in range(n)],
            'salts': [draw(st.one_of(st.none(), salts)) for _ in range(n)],
            'count': draw(st.integers(1, 3)),
            'scripted': [draw(gen.exact(32)) for _ in range(n)],
            'calls': [list(c) + [draw(st.integers(0, n - 1))] for c in calls],
            'other': draw(st.booleans()), 't': draw(flags)}


def p02_check(case):
    t = Typed(case['t'])
    objs = []
    urandom = Urandom(case['scripted'])
    with urandom.patch():
        for pw, salt in zip(case['pws'], case['salts']):
            before = len(urandom.served)
            kwargs = {} if salt is None else {'salt': t(salt)}
            obj = gostpbkdf.new(t(pw), counter=case['count'], **kwargs)
            fresh = urandom.served[before:]
            if salt is None:
                salt = bytes(obj.salt)
                require(len(salt) == 32, 'generated salt of %d bytes', len(salt))
                require(fresh and salt == b''.join(fresh)[:32] or salt in fresh,
                        'the reported salt is not the random value of the operating system')
            else:
                same(obj.salt, salt, 'salt attribute')
            objs.append((obj, pw, salt))
    longest = {}
    for name, n, i in case['calls']:
        obj, pw, salt = objs[i]
        got = getattr(obj, name)(n)
        want = ref.pbkdf(pw, salt, case['count'], n)
        if name == 'derive':
            same(got, want, 'derive(%d)' % n)
            got = bytes(got)
        else:
            equal(got, want.hex(), 'hexderive(%d)' % n)
            got = bytes.fromhex(got)
        prev = longest.get(i, b'')
        k = min(len(prev), len(got))
        require(prev[:k] == got[:k], 'derive(%d) and derive(%d) differ in their common prefix',
                len(prev), len(got))
        if len(got) > len(prev):
            longest[i] = got
        same(obj.salt, salt, 'salt attribute after a derivation')
    if case['other']:
        obj, pw, salt = objs[0]
        again = gostpbkdf.new(t(pw), salt=t(bytes(obj.salt)), counter=case['count'])
        same(again.derive(70), bytes(obj.derive(70)), 'a new object with the reported salt')
    return len(case['calls']) > 1, ['%d objects' % len(objs),
                                    'random salt' if None in case['salts'] else 'given salt',
                                    '%d calls' % len(case['calls'])]


def p02_default(case):
    """The defaults: 1000 iterations and a random salt."""
    pw = case['pw']
    urandom = Urandom()
    with urandom.patch():
        one = gostpbkdf.new(bytearray(pw))
        two = gostpbkdf.new(bytearray(pw))
    require(bytes(one.salt) != bytes(two.salt), 'two objects share a generated salt')
    require(len(one.salt) == 32 and len(two.salt) == 32, 'salt length')
    got = bytes(one.derive(case['len']))
    same(got, ref.pbkdf(pw, one.salt, 1000, case['len']), 'default count')
    again = gostpbkdf.new(bytearray(pw), salt=one.salt, counter=1000)
    same(again.derive(case['len']), got, 'explicit count 1000')
    return True, ['defaults']


def p02_real(case):
    """Without the stand-in: 32-byte salts that differ."""
    objs = [gostpbkdf.new(b'password', counter=1) for _ in range(8)]
    require(len({bytes(o.salt) for o in objs}) == 8, 'a generated salt repeats')
    for o in objs:
        require(len(o.salt) == 32, 'salt length')
        same(o.derive(32), ref.pbkdf(b'password', o.salt, 1, 32), 'derive with a random salt')
    return True, ['real urandom']


def p02():
    return Property('P02', [
        SubCheck('defaults', p02_default, budget=100, explicit=lambda tier: [
            {'pw': b'password', 'len': 32}, {'pw': b'', 'len': 40}, {'pw': b'q' * 64, 'len': 64},
            {'pw': b'p' * 32, 'len': 1}],
                 rule='count and salt not given'),
        SubCheck('real', p02_real, explicit=lambda tier: [{'n': 1}],
                 rule='real os.urandom'),
        many_derive(),
        SubCheck('calls', p02_check, p02_cases(), 1100, 40000,
                 rule='1-3 objects, 1-5 derive/hexderive calls in any order, salts given or taken '
                      'from a scripted os.urandom; non-trivial: two or more calls')])


# ----------------------------------------------------------------------- R01

@st.composite
def r01_cases(draw):
    size_s = draw(st.one_of(st.sampled_from([None, 32, 40, 48]), st.sampled_from([None, 32, 40, 48]),
                            st.integers(1, 61)))
    n = size_s or 48
    seed = gen.exact(n).filter(any)
    op = st.one_of(st.just(['random']), st.just(['random']), st.just(['random']),
                   seed.map(lambda s: ['reset', s]), st.just(['reset']))
    return {'size_s': size_s, 'seed': draw(st.one_of(st.none(), seed, seed)),
            'rand_size': draw(st.one_of(gen.near(64, 3), st.integers(0, 200))),
            'scripted': draw(st.lists(seed, max_size=3)),
            'ops': draw(st.lists(op, min_size=1, max_size=8)), 't': draw(flags)}


def r01_check(case):
    t = Typed(case['t'])
    n = case['size_s'] or 48
    kwargs = {}
    if case['size_s'] is not None:
        kwargs['size_s'] = case['size_s']
    if case['seed'] is not None:
        kwargs['rand_k'] = t(case['seed'])
    urandom = Urandom(case['scripted'])

    def fresh(before, what):
        new = urandom.served[before:]
        require(any(len(v) == n for v in new), '%s: %d bytes of the operating system were not '
                'taken', what, n)
        return [v for v in new if len(v) == n][-1]

    labels = {'size_s %s' % case['size_s']}
    with urandom.patch():
        obj = gostrandom.new(case['rand_size'], **kwargs)
        if case['seed'] is None:
            model = ref.Drbg(fresh(0, 'new()'))
            labels.add('seed of the system')
        else:
            model = ref.Drbg(case['seed'])
        for i, op in enumerate(case['ops']):
            if op[0] == 'random':
                same(obj.random(), model.random(case['rand_size']), 'operation %d random()' % i)
            elif len(op) == 2:
                obj.reset(t(op[1]))
                model = ref.Drbg(op[1])
                labels.add('reset with a seed')
            else:
                before = len(urandom.served)
                obj.reset()
                model = ref.Drbg(fresh(before, 'reset()'))
                labels.add('reset without a seed')
        same(obj.random(), model.random(case['rand_size']), 'random() at the end')
    return case['rand_size'] > 0, sorted(labels)


def r01_long(case):
    """Many blocks from one object; every output compared."""
    n = len(case['seed'])
    obj = gostrandom.new(case['rand_size'], rand_k=bytearray(case['seed']), size_s=n)
    model = ref.Drbg(case['seed'])
    for i in range(case['calls']):
        same(obj.random(), model.random(case['rand_size']), 'call %d' % i)
    return True, ['%d calls of %d bytes' % (case['calls'], case['rand_size'])]


def place(obj, seed, counter):
    """Put a generator where it is after `counter` blocks.

    Only if the object keeps seed and counter in `_rand_u` and goes on from them; else False.
    """
    n = len(seed)
    held = getattr(obj, '_rand_u', None)
    if not isinstance(held, (bytes, bytearray)) or len(held) != 63 or bytes(held[:n]) != seed:
        return False
    for value in (5, counter):
        obj._rand_u = bytearray(seed + value.to_bytes(63 - n, 'big'))
        if value == 5:
            model = ref.Drbg(seed)
            model.state += 5
            size = len(obj.random())
            obj._rand_u = bytearray(seed + (5).to_bytes(63 - n, 'big'))
            if bytes(obj.random()) != model.random(size):
                return False
    return True


@st.composite
def r01_jump_cases(draw):
    n = draw(st.sampled_from([32, 40, 48, 48, 60]))
    width = draw(st.integers(1, 63 - n - 1))
    counter = (1 << 8 * width) - draw(st.integers(1, 6))
    counter += draw(st.integers(0, 255)) << 8 * width
    return {'seed': draw(gen.exact(n).filter(any)), 'counter': min(counter, (1 << 8 * (63 - n)) - 40),
            'rand_size': draw(st.integers(0, 400)), 'calls': draw(st.integers(1, 4))}


def r01_jump(case):
    seed, size = case['seed'], case['rand_size']
    obj = gostrandom.new(size, rand_k=bytearray(seed), size_s=len(seed))
    if not place(obj, seed, case['counter']):
        return False, ['not reachable']
    model = ref.Drbg(seed)
    model.state += case['counter']
    for i in range(case['calls']):
        same(obj.random(), model.random(size), 'call %d from block %#x' % (i, case['counter']))
    return size > 0, ['carry into byte %d' % ((case['counter'] + 7).bit_length() // 8)]


@st.composite
def r02_jump_cases(draw):
    n = draw(st.sampled_from([32, 40, 48, 60, 61]))
    return {'seed': draw(gen.exact(n).filter(any)), 'left': draw(st.integers(0, 9)),
            'rand_size': draw(st.one_of(st.integers(1, 64), st.integers(1, 400))),
            'more': draw(st.integers(1, 3))}


def r02_jump(case):
    """A generator close to the end of a counter of 2 to 31 bytes."""
    seed, size, left = case['seed'], case['rand_size'], case['left']
    n = len(seed)
    limit = (1 << 8 * (63 - n)) - 1
    obj = gostrandom.new(size, rand_k=bytearray(seed), size_s=n)
    if not place(obj, seed, limit - left):
        return False, ['not reachable']
    model = ref.Drbg(seed)
    model.state += limit - left
    per_call, used = -(-size // 64), 0
    while True:
        try:
            got = obj.random()
        except RandomError:
            break
        used += per_call
        require(used <= left, 'random() returned %d blocks with %d left', used, left)
        same(got, model.random(size), 'random() with %d blocks left' % left)
    require(used + per_call > left - 1, 'refused with %d blocks left', left - used)
    for _ in range(case['more']):
        raises(RandomError, obj.random, 'random() of an exhausted generator')
    obj.reset(seed)
    same(obj.random(), ref.Drbg(seed).random(size), 'random() after reset()')
    return True, ['counter of %d bytes' % (63 - n)]


def r01_explicit(tier):
    out = []
    for size_s in (1, 16, 31, 32, 40, 47, 48, 60, 61):
        for rand_size in range(0, 131):
            if tier == 'quick' and rand_size % 9 not in (0, size_s % 9) and rand_size not in (
                    63, 64, 65, 127, 128, 129):
                continue
            out.append({'size_s': size_s, 'seed': bytes(range(1, 1 + size_s)),
                        'rand_size': rand_size, 'scripted': [],
                        'ops': [['random'], ['reset', b'\xff' * size_s], ['random']],
                        't': rand_size})
    return out


def r01_long_explicit(tier):
    out = [{'seed': bytes(range(1, 49)), 'rand_size': 64, 'calls': 600},
           {'seed': b'\xff' * 32, 'rand_size': 100, 'calls': 300},
           {'seed': b'\xff' * 60, 'rand_size': 64 * 300 + 1, 'calls': 2},
           {'seed': b'\x01', 'rand_size': 1, 'calls': 600}]
    for n in gen.sizes(70000):
        out.append({'seed': bytes(range(1, 49)), 'rand_size': n, 'calls': 3})
    for n in gen.counts():
        out.append({'seed': bytes(range(3, 35)), 'rand_size': 1 + n % 70, 'calls': n + 5})
    if tier == 'thorough':
        out += [{'seed': bytes(range(1, 49)), 'rand_size': 64, 'calls': 65600},
                {'seed': b'\xff' * 60, 'rand_size': 64, 'calls': 66000},
                {'seed': b'\x80' + bytes(31), 'rand_size': 6400, 'calls': 700}]
    else:
        out.append({'seed': bytes(range(1, 49)), 'rand_size': 64, 'calls': 3000})
    return out


def r01():
    return Property('R01', [
        neighbours(r01_check, r01_cases(), ['seed'], 900, 20000,
                   valid=lambda c: any(c['seed'])),
        SubCheck('jump', r01_jump, r01_jump_cases(), 1500, 30000,
                 rule='the counter is put before a carry of 1 to 30 bytes; non-trivial: the state was '
                      'reachable and output was taken'),
        SubCheck('long', r01_long, explicit=r01_long_explicit, budget=400,
                 rule='the counter carries into its second byte (thorough: third)'),
        many_random(),
        SubCheck('calls', r01_check, r01_cases(), 5000, 120000, r01_explicit,
                 rule='seed of 1-61 bytes or of a scripted os.urandom x output size x sequences of '
                      'random() and reset(); non-trivial: output size > 0')])


# ----------------------------------------------------------------------- R02

@st.composite
def r02_cases(draw):
    """One-byte counter (62-byte seed): it is exhausted after 255 blocks."""
    return {'seed': draw(gen.exact(62).filter(lambda s: any(s))),
            'rand_size': draw(st.one_of(st.sampled_from([1, 64, 65, 128, 640, 64 * 255, 64 * 254,
                                                         64 * 85, 64 * 51, 64 * 17]),
                                        st.integers(64, 64 * 60))),
            'after': draw(st.lists(st.sampled_from(['random', 'reset', 'bad-reset']), min_size=1,
                                   max_size=4)),
            'again': draw(gen.exact(62).filter(any)), 't': draw(flags)}


def r02_check(case):
    """Blocks before exhaustion follow the standard and never repeat; then refusal.

    Whether the very last counter value is used is left open: the counter may
    stop at 254 or 255 blocks.
    """
    t = Typed(case['t'])
    size = case['rand_size']
    per_call = -(-size // 64)
    obj = gostrandom.new(size, rand_k=t(case['seed']), size_s=62)
    model = ref.Drbg(case['seed'])
    used = 0
    blocks = set()
    while True:
        try:
            got = bytes(obj.random())
        except RandomError:
            break
        used += per_call
        require(used <= 255, 'random() returned after %d blocks of a one-byte counter', used)
        same(got, model.random(size), 'random() up to block %d' % used)
        for i in range(0, size - 63, 64):
            block = got[i:i + 64]
            require(block not in blocks, 'a block repeats')
            blocks.add(block)
    require(used + per_call > 254, 'refused after %d of 255 blocks (calls of %d)', used, per_call)
    for op in case['after']:
        if op == 'random':
            raises(RandomError, obj.random, 'random() of an exhausted generator')
        elif op == 'bad-reset':
            raises(RandomError, lambda: obj.reset(b'x'), 'reset() with a short seed')
            raises(RandomError, obj.random, 'random() after a refused reset()')
        else:
            obj.reset(t(case['again']))
            if per_call <= 254:
                same(obj.random(), ref.Drbg(case['again']).random(size), 'random() after reset()')
            break
    return True, ['exhausted, %s blocks per call' % (per_call if per_call < 4 else '>3')]


@st.composite
def r02_zero_cases(draw):
    size_s = draw(st.sampled_from([32, 40, 48, None, 1, 62]))
    n = size_s or 48
    return {'size_s': size_s, 'rand_size': draw(st.integers(1, 130)),
            'how': draw(st.sampled_from(['zero-new', 'zero-reset', 'clear', 'zero-system'])),
            'pre': draw(st.integers(0, 2)), 'tries': draw(st.integers(1, 3)),
            'seed': draw(gen.exact(n).filter(any)), 't': draw(flags)}


def r02_zero(case):
    t = Typed(case['t'])
    n = case['size_s'] or 48
    kwargs = {} if case['size_s'] is None else {'size_s': case['size_s']}
    size = case['rand_size']
    if case['how'] == 'zero-new':
        obj = gostrandom.new(size, rand_k=t(bytes(n)), **kwargs)
    elif case['how'] == 'zero-system':
        with Urandom([bytes(n)]).patch():
            obj = gostrandom.new(size, **kwargs)
    else:
        obj = gostrandom.new(size, rand_k=t(case['seed']), **kwargs)
        model = ref.Drbg(case['seed'])
        for _ in range(case['pre']):
            same(obj.random(), model.random(size), 'random()')
        if case['how'] == 'clear':
            obj.clear()
        else:
            obj.reset(t(bytes(n)))
    for _ in range(case['tries']):
        raises(RandomError, obj.random, 'random() with a zero seed (%s)' % case['how'])
    obj.reset(t(case['seed']))
    same(obj.random(), ref.Drbg(case['seed']).random(size), 'random() after reset()')
    return True, [case['how']]


def r02_far(case):
    """Larger counters: not exhausted early, and the two-byte one to its end."""
    n = case['size_s']
    seed = bytes((7 * i + 1) & 255 for i in range(n))
    obj = gostrandom.new(640, rand_k=bytearray(seed), size_s=n)
    model = ref.Drbg(seed)
    seen = set()
    used = 0
    limit = (1 << 8 * (63 - n)) - 1
    while used < case['blocks']:
        try:
            got = bytes(obj.random())
        except RandomError as exc:
            require(used + 10 > limit - 1, 'refused after %d of %d blocks: %s', used, limit, exc)
            break
        used += 10
        require(used <= limit, 'random() returned after %d blocks', used)
        require(len(got) == 640, 'random() returned %d bytes', len(got))
        start = model.state
        if used % 250 == 0 or used % 256 < 10 or used > limit - 40 or case['all']:
            same(got, model.random(640), 'blocks up to %d' % used)
        model.state = start + 10
        for i in range(0, 640, 64):
            require(got[i:i + 64] not in seen, 'a block repeats')
            seen.add(got[i:i + 64])
    else:
        return True, ['size_s %d, %d blocks' % (n, used)]
    raises(RandomError, obj.random, 'random() of an exhausted generator')
    raises(RandomError, obj.random, 'random() of an exhausted generator')
    obj.reset(bytearray(seed))
    same(obj.random(), ref.Drbg(seed).random(640), 'random() after exhaustion and reset()')
    return True, ['size_s %d exhausted at %d' % (n, used)]


def r02_far_explicit(tier):
    thorough = tier == 'thorough'
    return [{'size_s': 61, 'blocks': 70000, 'all': thorough},
            {'size_s': 48, 'blocks': 66000, 'all': thorough},
            {'size_s': 60, 'blocks': 70000 if thorough else 600, 'all': True},
            {'size_s': 32, 'blocks': 70000 if thorough else 600, 'all': True}]


def r02():
    return Property('R02', [
        SubCheck('jump', r02_jump, r02_jump_cases(), 1200, 30000,
                 rule='0 to 9 blocks before the end of counters of 2 to 31 bytes; non-trivial: the '
                      'state was reachable'),
        SubCheck('far', r02_far, explicit=r02_far_explicit, budget=400,
                 rule='the two-byte counter to its end, no early refusal of larger ones, no '
                      'repeated block; outputs compared around multiples of 256 and every 250 '
                      'blocks'),
        SubCheck('exhaust', r02_check, r02_cases(), 500, 10000,
                 rule='62-byte seeds (one-byte counter), call sizes, then refused calls and '
                      'resets'),
        SubCheck('zero', r02_zero, r02_zero_cases(), 1500, 40000,
                 rule='zero seeds given to new() or reset(), drawn from the system, or cleared')],
        ['size_s = 62 and 61 stand for the larger counters, which cannot be exhausted in practice',
         'a call that crosses the limit refuses as a whole'])


PROPS = {'P01': p01, 'P02': p02, 'R01': r01, 'R02': r02}
