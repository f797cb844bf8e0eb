"""H01-H03 (Streebog), M01-M02 (HMAC)."""
from hypothesis import strategies as st

from harness import gen
from harness.props.common import (HMAC, STREEBOG, B, Property, SubCheck, Typed, echoes, equal, fail,
                                  gosthash, gosthmac, neighbours, ref, require, same)
from harness.props.many import many_digest

flags = st.integers(0, (1 << 24) - 1)
sizes = st.sampled_from([32, 64])

OIDS = {
    'streebog256': ('1.2.643.7.1.1.2.2', 'id-tc26-gost3411-12-256'),
    'streebog512': ('1.2.643.7.1.1.2.3', 'id-tc26-gost3411-12-512'),
    'HMAC_GOSTR3411_2012_256': ('1.2.643.7.1.1.4.1', 'id-tc26-hmac-gost-3411-12-256'),
    'HMAC_GOSTR3411_2012_512': ('1.2.643.7.1.1.4.2', 'id-tc26-hmac-gost-3411-12-512'),
}


def carry_block(draw):
    """A 64-byte block chosen to make long carries in the checksum likely."""
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return b'\xff' * 64
    if kind == 1:
        return b'\x01' + bytes(63)
    n = draw(st.integers(0, 63))
    if kind == 2:
        return b'\xff' * n + bytes([draw(st.integers(0, 255))]) + b'\xff' * (63 - n)
    if kind == 3:
        return bytes(n) + bytes([draw(st.integers(0, 255))]) + bytes(63 - n)
    if kind == 4:
        return bytes(n) + b'\xff' * (64 - n)
    return draw(st.binary(min_size=64, max_size=64))


@st.composite
def carry_message(draw):
    n = draw(st.integers(2, 6))
    body = b''.join(carry_block(draw) for _ in range(n))
    return body + draw(gen.sized(st.integers(0, 63)))


def messages(max_blocks=6):
    return st.one_of(gen.message(64, max_blocks), gen.message(64, max_blocks),
                     gen.sized(st.integers(0, 64)), carry_message())


# ----------------------------------------------------------------------- H01

@st.composite
def h01_cases(draw):
    msg = draw(st.one_of(messages(), messages(), messages(), messages(),
                         gen.big_message(gen.near(64, 40))))
    return {'size': draw(sizes), 'msg': msg, 'how': draw(st.sampled_from(['data', 'update'])),
            't': draw(flags)}


def h01_check(case):
    t = Typed(case['t'])
    msg, size = B(case['msg']), case['size']
    name = STREEBOG[size]
    if case['how'] == 'data':
        obj = gosthash.new(name, data=t(msg))
    else:
        obj = gosthash.new(name)
        if case['how'] == 'update':
            obj.update(t(msg))
    want = ref.streebog(msg, size)
    same(obj.digest(), want, '%s of %d bytes' % (name, len(msg)))
    equal(obj.hexdigest(), want.hex(), '%s hexdigest of %d bytes' % (name, len(msg)))
    equal(obj.digest_size, size, 'digest_size')
    equal(obj.block_size, 64, 'block_size')
    equal(obj.name, name, 'name')
    n = len(msg)
    return n > 0, [name, 'empty' if not n else 'below a block' if n < 64 else
                   'aligned' if n % 64 == 0 else 'partial', 'blocks>16' if n > 1024 else 'short']


def h01_explicit(tier):
    out = []
    top = 260 if tier == 'quick' else 2100
    for n in range(top):
        for pat in (b'\xff', b'\x00', bytes(range(1, 252))) if n < 260 else (b'\xff\xfe',):
            if not n and pat != b'\xff':
                continue
            out.append({'size': 32 if (n + pat[0]) % 2 else 64, 'msg': {'pat': pat, 'n': n},
                        'how': 'data', 't': n})
            if n in (0, 63, 64, 65, 127, 128, 192):
                out.append({'size': 64 if (n + pat[0]) % 2 else 32, 'msg': {'pat': pat, 'n': n},
                            'how': 'update', 't': n})
    for size in (32, 64):
        out.append({'size': size, 'msg': b'', 'how': 'none', 't': 0})
    # the bit counter carries into its 2nd, 3rd and 4th byte
    for units in (127, 128, 129, 255, 256, 257):
        for extra in (0, 1, 63):
            out.append({'size': 64 if units % 2 else 32, 't': units, 'how': 'data',
                        'msg': {'pat': bytes(range(256)) + b'x', 'n': 64 * units + extra}})
    out.append({'size': 64, 'how': 'data', 't': 1, 'msg': {'pat': b'\xff', 'n': 65536 + 5}})
    out.append({'size': 32, 'how': 'update', 't': 1, 'msg': {'pat': b'carry', 'n': 65536 * 2}})
    out.append({'size': 32, 'how': 'data', 't': 1, 'msg': {'pat': b'2^24 bits', 'n': (1 << 21) + 70}})
    for i, n in enumerate(gen.sizes()):
        for size in (32, 64):
            out.append({'size': size, 'how': 'data' if (i + size // 32) % 2 else 'update', 't': i,
                        'msg': {'pat': bytes(range(1, 252)), 'n': n}})
    if tier == 'thorough':
        out.append({'size': 64, 'how': 'data', 't': 1, 'msg': {'pat': b'\xff\xfe', 'n': 1 << 25}})
    return out[::-1]


@st.composite
def h01_jump_cases(draw):
    # multiples of 512 close below a carry of the bit counter
    width = draw(st.integers(12, 512))
    n = (1 << width) - 512 * draw(st.integers(0, 3))
    if draw(st.booleans()):
        n ^= draw(st.integers(0, (1 << 512) - 1)) >> width + 1 << width + 1
    return {'size': draw(sizes), 'bits': (n % (1 << 512)).to_bytes(64, 'big'),
            'msg': draw(gen.message(64, 3)), 'read': draw(st.booleans())}


def put_bits(obj, bits):
    """Set the number of bits hashed so far; False if the object does not keep it as expected."""
    held = getattr(obj, '_hash_n', None)
    if isinstance(held, (bytes, bytearray)) and len(held) == 64:
        obj._hash_n = type(held)(bits.to_bytes(64, 'little'))
    elif isinstance(held, int):
        obj._hash_n = bits
    else:
        return False
    return True


def h01_jump(case):
    """As after a message far too long to hash here.

    Only if the object keeps its bit counter in `_hash_n`; else not reachable.
    """
    size, msg = case['size'], B(case['msg'])
    probe = gosthash.new(STREEBOG[size])
    if not put_bits(probe, 512 * 5):
        return False, ['not reachable']
    probe.update(b'abc' * 50)
    if bytes(probe.digest()) != ref.streebog(b'abc' * 50, size, 512 * 5):
        return False, ['not reachable']
    bits = int.from_bytes(case['bits'], 'big')
    obj = gosthash.new(STREEBOG[size])
    put_bits(obj, bits)
    obj.update(msg[:70])
    if case['read']:
        same(obj.digest(), ref.streebog(msg[:70], size, bits), 'digest with %#x bits before' % bits)
    obj.update(msg[70:])
    same(obj.digest(), ref.streebog(msg, size, bits), 'digest with %#x bits before' % bits)
    return True, ['carry over bit %d+' % (bits.bit_length() // 64 * 64)]


def h01():
    return Property('H01', [
        echoes(h01_check, h01_cases(), ['msg+'], 500, 20000),
        neighbours(h01_check, h01_cases(), ['msg+'], 900, 40000),
        SubCheck('jump', h01_jump, h01_jump_cases(), 1200, 30000,
                 rule='the bit counter of the object is put below a carry of 12 to 512 bits (as after '
                      'a message too long to hash here); non-trivial: the state was reachable'),
        SubCheck('digest', h01_check, h01_cases(), 6000, 150000, h01_explicit, budget=400,
                 rule='every length 0-259 with three fills, lengths up to 2 MiB, generated messages '
                      'of 0-7 blocks (biased to block boundaries and to carries of the checksum), '
                      'some of 40 blocks; non-trivial: message not empty')])


# ----------------------------------------------------------------------- H02

@st.composite
def pieces(draw, max_pieces=8):
    piece = gen.sized(st.one_of(st.integers(0, 5), gen.near(64, 3),
                                st.sampled_from([0, 1, 63, 64, 65, 128])))
    parts = draw(st.lists(piece, max_size=max_pieces))
    if parts and draw(st.booleans()):
        # make one piece end exactly on a block boundary
        i = draw(st.integers(0, len(parts) - 1))
        total = sum(len(p) for p in parts[:i + 1])
        parts[i] += draw(gen.exact(-total % 64))
    return parts


@st.composite
def h02_cases(draw):
    return {'size': draw(sizes), 'parts': draw(pieces()), 'first': draw(st.booleans()),
            't': draw(flags)}


def h02_check(case):
    t = Typed(case['t'])
    parts, size = [B(p) for p in case['parts']], case['size']
    rest = parts
    if case['first'] and parts:
        obj, rest = gosthash.new(STREEBOG[size], data=t(parts[0])), parts[1:]
    else:
        obj = gosthash.new(STREEBOG[size])
    for p in rest:
        obj.update(t(p))
    msg = b''.join(parts)
    want = ref.streebog(msg, size)
    same(obj.digest(), want, 'digest of %s' % [len(p) for p in parts])
    same(gosthash.new(STREEBOG[size], data=t(msg)).digest(), want, 'digest of the whole message')
    return len([p for p in parts if p]) > 1, [
        STREEBOG[size], '%d pieces' % len(parts), 'empty piece' if b'' in parts else 'no empty']


def h02_explicit(tier):
    """Every two-piece split around the first block boundaries, and runs of equal pieces."""
    out = []
    pat = bytes(range(1, 252))
    for a in [0, 1, 31, 32, 62, 63, 64, 65, 96, 126, 127, 128, 129, 191, 192, 193]:
        for b in [0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129]:
            out.append({'size': 32 if (a + b) % 2 else 64, 'first': bool(a & 1), 't': a * 7 + b,
                        'parts': [{'pat': pat, 'n': a}, {'pat': pat[::-1], 'n': b}]})
    for n in (1, 2, 3, 7, 31, 32, 33, 63, 64, 65):
        for count in (3, 64, 70):
            if n * count > 2600 and tier == 'quick' and count == 70:
                continue
            out.append({'size': 64 if n % 2 else 32, 'first': False, 't': n,
                        'parts': [{'pat': pat[n:n + 9], 'n': n}] * count})
    out.append({'size': 64, 'first': False, 't': 3, 'parts': [{'pat': b'ab', 'n': 2}] * 1100})
    for n in gen.counts():
        out.append({'size': 64 if n % 2 else 32, 'first': False, 't': n,
                    'parts': [{'pat': b'ab', 'n': 1 + n % 3}] * (n + 5)})
    for i, big in enumerate(gen.LARGE + tuple(gen.sizes())):
        for parts in ([big], [5, big], [big, 70], [64, big, 59, big // 2 + 1]):
            if len(parts) > 3 and big > 70000:
                continue
            out.append({'size': 64 if i % 2 else 32, 'first': len(parts) == 1, 't': i * 3,
                        'parts': [{'pat': pat[j:], 'n': n} for j, n in enumerate(parts)]})
    return out


def h02():
    return Property('H02', [
        many_digest('hash', ('updates',)),
        SubCheck('split', h02_check, h02_cases(), 6500, 150000, h02_explicit,
                 rule='0-8 pieces, boundary-biased, two-piece splits around block boundaries and '
                      'runs of equal pieces enumerated; non-trivial: two or more non-empty pieces')])


# ------------------------------------------------------ families of objects

def family(draw, ops, piece, max_ops=14):
    """Operations over numbered objects; indices are taken modulo the live count."""
    out = []
    for _ in range(draw(st.integers(1, max_ops))):
        op = draw(st.sampled_from(ops))
        step = [op, draw(st.integers(0, 5))]
        if op in ('update', 'new'):
            step.append(draw(piece))
        out.append(step)
    return out


piece64 = gen.sized(st.one_of(st.integers(0, 5), gen.near(64, 2),
                              st.sampled_from([0, 63, 64, 65, 128])))


@st.composite
def h03_cases(draw):
    names = draw(st.lists(sizes, min_size=1, max_size=2))
    return {'sizes': names, 't': draw(flags),
            'ops': family(draw, ['update', 'update', 'update', 'digest', 'hexdigest', 'copy',
                                 'copy', 'reset', 'reset', 'new', 'del'], piece64)}


def h03_check(case):
    t = Typed(case['t'])
    live = [[gosthash.new(STREEBOG[s]), s, b''] for s in case['sizes']]
    labels = set()
    for n, step in enumerate(case['ops']):
        if not live:
            break
        op, i = step[0], step[1] % len(live)
        obj, size, data = live[i]
        what = 'step %d %s object %d' % (n, op, i)
        if op == 'update':
            obj.update(t(B(step[2])))
            live[i][2] = data + B(step[2])
        elif op == 'digest':
            got = obj.digest()
            same(got, ref.streebog(data, size), what)
            same(obj.digest(), got, what + ' repeated')
        elif op == 'hexdigest':
            equal(obj.hexdigest(), ref.streebog(data, size).hex(), what)
        elif op == 'copy':
            live.append([obj.copy(), size, data])
        elif op == 'reset':
            obj.reset()
            live[i][2] = b''
        elif op == 'new':
            data = B(step[2])
            live.append([gosthash.new(STREEBOG[size], data=t(data)), size, data])
        elif len(live) > 1:
            del live[i], obj
        labels.add(op)
    for i, (obj, size, data) in enumerate(live):
        same(obj.digest(), ref.streebog(data, size), 'digest of object %d at the end' % i)
        equal(obj.digest_size, size, 'digest_size of object %d' % i)
        equal(obj.name, STREEBOG[size], 'name of object %d' % i)
        equal(str(obj.oid), OIDS[STREEBOG[size]][0], 'oid of object %d' % i)
    return bool(labels & {'copy', 'reset', 'digest', 'hexdigest'}) and 'update' in labels, \
        sorted(labels)


def long_history(n, count):
    """One object fed count pieces of n bytes, with reads and copies on the way."""
    ops = []
    for i in range(count):
        ops.append(['update', 0, {'pat': bytes(range(1 + i % 7, 200)), 'n': n}])
        if i % 37 == 5:
            ops.append(['digest', 0])
        if i % 61 == 7:
            ops += [['copy', 0], ['update', 1, b'own']]
        if i % 97 == 11:
            ops += [['reset', 1], ['update', 1, b'again'], ['hexdigest', 1]]
    return ops


def h03_explicit(tier):
    out = []
    for n, count in ((64, 270), (63, 130), (1, 300), (640, 30), (4096, 5)):
        out.append({'sizes': [32 if n % 2 else 64], 't': n, 'ops': long_history(n, count)})
    for n in gen.counts():
        out.append({'sizes': [64 if n % 2 else 32], 't': n, 'ops': long_history(1 + n % 3, n + 5)})
    for i, big in enumerate(gen.LARGE + tuple(gen.sizes())):
        piece = {'pat': b'large piece', 'n': big}
        out.append({'sizes': [64 if i % 2 else 32], 't': i * 11, 'ops': [
            ['update', 0, b'head'], ['copy', 0], ['update', 0, piece], ['copy', 0],
            ['digest', 0], ['update', 2, b'tail'], ['update', 1, b'own'], ['reset', 0],
            ['update', 0, {'pat': b'after the reset', 'n': big // 2}], ['new', 0, piece]]})
    if tier == 'thorough':
        out.append({'sizes': [32], 't': 1, 'ops': long_history(64, 1100)})
        out.append({'sizes': [64], 't': 1, 'ops': long_history(1 << 17, 20)})
    return out


def h03():
    return Property('H03', [
        many_digest('hash', ('reading', 'resets', 'copies')),
        SubCheck('family', h03_check, h03_cases(), 6500, 150000, h03_explicit,
                 rule='1-14 operations over a family of objects (update, digest, copy, reset, new, '
                      'del), every object read at the end; non-trivial: an update and a read, copy '
                      'or reset')])


# ----------------------------------------------------------------------- M01

hmac_keys = gen.sized(st.one_of(st.integers(0, 64), st.sampled_from([0, 1, 31, 32, 33, 63, 64])))


@st.composite
def m01_cases(draw):
    return {'size': draw(sizes), 'key': draw(hmac_keys), 'msg': draw(messages(4)),
            'how': draw(st.sampled_from(['data', 'update'])), 't': draw(flags)}


def m01_check(case):
    t = Typed(case['t'])
    msg, size, key = B(case['msg']), case['size'], case['key']
    name = HMAC[size]
    if case['how'] == 'data':
        obj = gosthmac.new(name, t(key), data=t(msg))
    else:
        obj = gosthmac.new(name, t(key))
        if case['how'] == 'update':
            obj.update(t(msg))
    want = ref.hmac(key, msg, size)
    what = '%s key of %d bytes, message of %d' % (name, len(key), len(msg))
    same(obj.digest(), want, what)
    equal(obj.hexdigest(), want.hex(), what + ' hexdigest')
    equal(obj.digest_size, size, 'digest_size')
    equal(obj.block_size, 64, 'block_size')
    equal(obj.name, name, 'name')
    n = len(key)
    return True, [name, 'key %s' % ('0' if not n else '64' if n == 64 else '1-63'),
                  'empty message' if not msg else 'message']


def m01_explicit(tier):
    out = []
    for n in range(65):
        for m in (0, 1, 63, 64, 65):
            if tier == 'quick' and m in (63, 65) and n % 4:
                continue
            out.append({'size': 32 if (n + m) % 2 else 64, 'key': bytes(range(200, 200 - n, -1)),
                        'msg': {'pat': bytes(range(97)), 'n': m},
                        'how': 'data' if m else ('data', 'update', 'none')[n % 3], 't': n})
    for n in (0, 64):
        out.append({'size': 64, 'key': b'\x36' * n, 'msg': {'pat': b'\x5c', 'n': 8200},
                    'how': 'data', 't': n})
    for i, big in enumerate(gen.LARGE + tuple(gen.sizes())):
        for how in ('data', 'update'):
            out.append({'size': 64 if i % 2 else 32, 'key': bytes(range(3 + i * 9 % 62)), 't': i * 5,
                        'msg': {'pat': b'large message', 'n': big}, 'how': how})
    return out


def m01():
    return Property('M01', [
        echoes(m01_check, m01_cases(), ['key+', 'msg+'], 500, 20000,
               valid=lambda c: len(B(c['key'])) <= 64),
        neighbours(m01_check, m01_cases(), ['key+', 'key+', 'msg+'], 900, 30000,
                   valid=lambda c: len(c['key']) <= 64),
        SubCheck('hmac', m01_check, m01_cases(), 4500, 100000, m01_explicit,
                 rule='key length 0-64 (each enumerated) x message; all non-trivial')])


# ----------------------------------------------------------------------- M02

@st.composite
def m02_cases(draw):
    starts = draw(st.lists(st.tuples(sizes, hmac_keys, st.one_of(st.none(), piece64)),
                           min_size=1, max_size=3))
    if len(starts) > 1 and draw(st.booleans()):
        starts[1] = (starts[1][0], starts[0][1], starts[1][2])
    return {'starts': [list(s) for s in starts], 't': draw(flags),
            'ops': family(draw, ['update', 'update', 'update', 'digest', 'hexdigest', 'copy',
                                 'copy', 'reset', 'reset', 'clear', 'del', 'new'], piece64, 12)}


def m02_check(case):
    t = Typed(case['t'])
    live = []
    for size, key, data in case['starts']:
        kwargs = {} if data is None else {'data': t(data)}
        live.append([gosthmac.new(HMAC[size], t(key), **kwargs), size, key, data or b''])
    labels = set()
    for n, step in enumerate(case['ops']):
        op, i = step[0], step[1] % len(live)
        obj, size, key, data = live[i]
        what = 'step %d %s object %d' % (n, op, i)
        if op == 'update':
            obj.update(t(B(step[2])))
            live[i][3] = data + B(step[2])
        elif op == 'digest':
            got = obj.digest()
            same(got, ref.hmac(key, data, size), what)
            same(obj.digest(), got, what + ' repeated')
        elif op == 'hexdigest':
            equal(obj.hexdigest(), ref.hmac(key, data, size).hex(), what)
        elif op == 'copy':
            live.append([obj.copy(), size, key, data])
        elif op == 'reset':
            obj.reset()
            live[i][3] = b''
        elif op == 'new':
            data = B(step[2])
            live.append([gosthmac.new(HMAC[size], t(key), data=t(data)), size, key, data])
        elif len(live) > 1:
            if op == 'clear':
                obj.clear()
            del live[i], obj
        labels.add(op)
    for i, (obj, size, key, data) in enumerate(live):
        same(obj.digest(), ref.hmac(key, data, size), 'digest of object %d at the end' % i)
        equal(obj.name, HMAC[size], 'name of object %d' % i)
        equal(str(obj.oid), OIDS[HMAC[size]][0], 'oid of object %d' % i)
    return bool(labels & {'copy', 'reset', 'digest', 'hexdigest', 'del', 'clear'}), sorted(labels)


@st.composite
def m02_split_cases(draw):
    return {'size': draw(sizes), 'key': draw(hmac_keys), 'parts': draw(pieces(6)),
            'first': draw(st.booleans()), 't': draw(flags)}


def m02_split(case):
    t = Typed(case['t'])
    parts, size, key = [B(p) for p in case['parts']], case['size'], case['key']
    rest = parts
    if case['first'] and parts:
        obj, rest = gosthmac.new(HMAC[size], t(key), data=t(parts[0])), parts[1:]
    else:
        obj = gosthmac.new(HMAC[size], t(key))
    for p in rest:
        obj.update(t(p))
    same(obj.digest(), ref.hmac(key, b''.join(parts), size), 'HMAC of %s' % [len(p) for p in parts])
    return len(parts) > 1, ['%d pieces' % len(parts)]


def m02_explicit(tier):
    out = []
    for n, count in ((64, 262), (65, 40), (1, 150), (2048, 5)):
        out.append({'starts': [[32 if n % 2 else 64, b'long key', None]], 't': n,
                    'ops': long_history(n, count)})
    for n in gen.counts():
        out.append({'starts': [[64 if n % 2 else 32, b'key', None]], 't': n,
                    'ops': long_history(1 + n % 3, n + 5)})
    for i, big in enumerate(gen.LARGE[:5] + tuple(gen.sizes())):
        piece = {'pat': b'large piece', 'n': big}
        out.append({'starts': [[64 if i % 2 else 32, b'key', None]], 't': i * 11, 'ops': [
            ['update', 0, b'head'], ['copy', 0], ['update', 0, piece], ['copy', 0],
            ['digest', 0], ['update', 2, b'tail'], ['update', 1, b'own'], ['reset', 0],
            ['update', 0, {'pat': b'after the reset', 'n': big // 2}], ['new', 0, piece]]})
    return out


def m02():
    return Property('M02', [
        many_digest('hmac', ('updates', 'reading', 'resets', 'copies')),
        SubCheck('family', m02_check, m02_cases(), 2800, 80000, m02_explicit,
                 rule='1-12 operations over a family of HMAC objects; non-trivial: a read, copy, '
                      'reset, clear or deletion'),
        SubCheck('split', m02_split, m02_split_cases(), 2200, 50000,
                 rule='1-6 pieces; non-trivial: two or more pieces')])


PROPS = {'H01': h01, 'H02': h02, 'H03': h03, 'M01': m01, 'M02': m02}
