"""C01-C10: block ciphers, modes, MAC, padding, parameters, clear()."""
import gc
import hashlib
import sys
import types

from hypothesis import strategies as st

from harness import gen
from harness.props.common import *  # noqa: F401,F403
from harness.props.common import (BLOCK_CIPHER, BS, B, CipherError, HMAC, KnownFinding, MODE,
                                  PAD, Property, RandomError, SubCheck, Typed, default_iv, equal,
                                  fail, gostcipher, gosthmac, gostpbkdf, gostrandom, neighbours,
                                  new_cipher, outcome, raises, ref, require, same)
from harness.props.many import many_blocks, many_cipher, many_digest

flags = st.integers(0, (1 << 24) - 1)
ciphers = gen.cipher_names


@st.composite
def related_keys(draw, n):
    """n keys, the later ones often close to the first."""
    keys = [draw(gen.keys32)]
    for _ in range(n - 1):
        how = draw(st.sampled_from(['new', 'bit', 'lo', 'hi', 'swap', 'same']))
        k = keys[0]
        if how == 'new':
            k = draw(gen.keys32)
        elif how == 'bit':
            i = draw(st.integers(0, 255))
            k = bytes(b ^ (1 << i % 8 if j == i // 8 else 0) for j, b in enumerate(k))
        elif how == 'lo':
            k = k[:16] + draw(gen.exact(16))
        elif how == 'hi':
            k = draw(gen.exact(16)) + k[16:]
        elif how == 'swap':
            k = k[16:] + k[:16]
        keys.append(k)
    return keys


# ----------------------------------------------------------------------- C01

@st.composite
def c01_cases(draw):
    name = draw(ciphers)
    return {'cipher': name, 'keys': draw(related_keys(draw(st.integers(1, 2)))),
            'blocks': draw(st.lists(gen.exact(BS[name]), min_size=1, max_size=6)),
            'via': draw(st.sampled_from(['class', 'class', 'ecb'])), 't': draw(flags)}


def c01_check(case):
    name, t = case['cipher'], Typed(case['t'])
    objs = []
    for key in case['keys']:
        if case['via'] == 'class':
            objs.append((BLOCK_CIPHER[name](t(key)), ref.CIPHERS[name](key)))
        else:
            objs.append((new_cipher(name, t(key), 'ecb'), ref.CIPHERS[name](key)))
    for i, block in enumerate(case['blocks']):
        for j, (obj, model) in enumerate(objs):
            enc = obj.encrypt(t(block))
            same(enc, model.encrypt(block), '%s block %d key %d encrypt' % (name, i, j))
            same(obj.decrypt(t(bytes(enc))), block, '%s decrypt of encrypt' % name)
            dec = obj.decrypt(t(block))
            same(dec, model.decrypt(block), '%s block %d key %d decrypt' % (name, i, j))
            same(obj.encrypt(t(bytes(dec))), block, '%s encrypt of decrypt' % name)
    return any(any(k) for k in case['keys']), [name, case['via'], '%d keys' % len(case['keys'])]


def c01_explicit(tier):
    out = []
    for name, bs in BS.items():
        zero = bytes(bs)
        step = 4 if tier == 'quick' else 1
        for i in range(0, 256, step):
            key = (1 << (255 - i)).to_bytes(32, 'big')
            out.append({'cipher': name, 'keys': [key], 'blocks': [zero], 'via': 'class', 't': i})
        for i in range(8 * bs):
            blk = (1 << (8 * bs - 1 - i)).to_bytes(bs, 'big')
            out.append({'cipher': name, 'keys': [bytes(range(32))], 'blocks': [blk],
                        'via': 'ecb', 't': i})
        for v in range(0, 256, step):
            out.append({'cipher': name, 'keys': [bytes([v] * 32)], 'blocks': [bytes([v] * bs)],
                        'via': 'class', 't': v})
    return out


@st.composite
def c01_histories(draw):
    """Calls of 1-3 objects with blocks of a small pool, which results join."""
    names = draw(st.lists(ciphers, min_size=1, max_size=3))
    if draw(st.booleans()):
        names = names[:1] * len(names)
    return {'names': names, 'keys': draw(related_keys(len(names))),
            'pool': draw(st.lists(gen.exact(16), min_size=1, max_size=3)),
            'ops': [list(o) for o in draw(st.lists(
                st.tuples(st.integers(0, 2), st.booleans(), st.integers(0, 5), st.booleans()),
                min_size=2, max_size=14))],
            'via': draw(st.sampled_from(['class', 'class', 'ecb'])), 't': draw(flags)}


def c01_history(case):
    t = Typed(case['t'])
    objs = [(BLOCK_CIPHER[n](t(k)) if case['via'] == 'class' else new_cipher(n, t(k), 'ecb'),
             ref.CIPHERS[n](k), BS[n]) for n, k in zip(case['names'], case['keys'])]
    pool = list(case['pool'])
    kept, seen, again = {}, set(), False
    for i, (which, forward, index, reuse) in enumerate(case['ops']):
        obj, model, bs = objs[which % len(objs)]
        # small indices: the first values and the latest results
        block = pool[index % len(pool) if index < 3 else -1 - (index - 3) % len(pool)][:bs]
        again |= block in seen
        seen.add(block)
        way = 'encrypt' if forward else 'decrypt'
        arg = t(block)
        if reuse and kept.get(bs) is not None:
            # the caller's buffer of an earlier call, refilled
            arg = kept[bs]
            arg[:] = block
        elif isinstance(arg, bytearray):
            kept[bs] = arg
        got = getattr(obj, way)(arg)
        want = getattr(model, way)(block)
        same(got, want, 'call %d, %s' % (i, way))
        pool.append((want + want)[:16])
        pool = pool[:3] + pool[-3:]
    return again, [case['via'], '%d objects' % len(objs)] + case['names']


def c01_pair(case):
    return c01_check(dict(case, keys=[case['key']], blocks=[B(case['data'])[:BS[case['cipher']]]]))


@st.composite
def c01_pairs(draw):
    name = draw(ciphers)
    return {'cipher': name, 'key': draw(gen.keys32), 'data': draw(gen.exact(BS[name])),
            'via': draw(st.sampled_from(['class', 'class', 'ecb'])), 't': draw(flags)}


def c01():
    return Property('C01', [
        echoes(c01_pair, c01_pairs(), ['key', 'key', 'data'], 1600, 40000),
        many_blocks(),
        SubCheck('history', c01_history, c01_histories(), 3000, 100000,
                 rule='2-14 calls of 1-3 objects, the blocks taken from a pool of a few values and '
                      'earlier results; non-trivial: a block was used again'),
        SubCheck('blocks', c01_check, c01_cases(), 7000, 200000, c01_explicit,
                 rule='1-2 (related) keys x 1-6 blocks, encrypt, decrypt and both inverses, '
                      'through the class or ECB; non-trivial: a key with a non-zero byte')])


# ----------------------------------------------------------------------- C02

@st.composite
def ivs(draw, name, mode, default=True):
    bs = BS[name]
    if mode == 'ecb':
        return None
    if default and draw(st.integers(0, 5)) == 0:
        return None
    if mode == 'ctr':
        return draw(gen.exact(bs // 2))
    n = draw(st.one_of(st.integers(1, 5), st.sampled_from([1, 2, 3, 8, 17])))
    return draw(gen.exact(bs * n))


modes5 = st.sampled_from(['ecb', 'cbc', 'cfb', 'ofb', 'ctr'])


def lengths(bs, aligned, big=40):
    base = st.one_of(gen.near(bs, 8), gen.near(bs, 8), gen.near(bs, big))
    return base.map(lambda n: n - n % bs) if aligned else base


@st.composite
def c02_cases(draw):
    name, mode = draw(ciphers), draw(modes5)
    bs = BS[name]
    direction = draw(st.sampled_from(['encrypt', 'decrypt']))
    aligned = direction == 'decrypt' and mode in ('ecb', 'cbc')
    pad = draw(st.sampled_from([None, 1, 2])) if mode in ('ecb', 'cbc') else None
    return {'cipher': name, 'mode': mode, 'key': draw(gen.keys32), 'iv': draw(ivs(name, mode)),
            'dir': direction, 'pad': pad,
            'data': draw(gen.sized(lengths(bs, aligned))), 't': draw(flags)}


def padded(data, bs, pad):
    """The acceptable padded forms (the listed finding C06 appends a zero block)."""
    if pad in (None, 1):
        return [ref.pad1(data, bs)]
    std = ref.pad2(data, bs)
    return [std, std + bytes(bs)]


def model_for(case):
    iv = case['iv']
    if iv is None and case['mode'] != 'ecb':
        iv = default_iv(case['cipher'], case['mode'])
    return ref.ModeModel(case['cipher'], case['key'], case['mode'], iv or b'')


def real_for(case, t):
    return new_cipher(case['cipher'], t(case['key']), case['mode'],
                      None if case['iv'] is None else t(case['iv']), case['pad'])


def c02_check(case):
    t = Typed(case['t'])
    bs = BS[case['cipher']]
    data = B(case['data'])
    obj = real_for(case, t)
    got = getattr(obj, case['dir'])(t(data))
    if case['mode'] in ('ecb', 'cbc') and case['dir'] == 'encrypt':
        wants = [model_for(case).run(d, 'encrypt') for d in padded(data, bs, case['pad'])]
    else:
        wants = [model_for(case).run(data, case['dir'])]
    if bytes(got) not in wants:
        same(got, wants[0], '%s %s %s' % (case['cipher'], case['mode'], case['dir']))
    n = len(data)
    return n > 0, [case['cipher'] + '-' + case['mode'] + '-' + case['dir'],
                   'default iv' if case['iv'] is None and case['mode'] != 'ecb' else
                   'iv blocks %d' % (len(case['iv'] or b'') // bs),
                   'partial' if n % bs else 'aligned', 'blocks>16' if n > 16 * bs else 'short']


def c02_valid(case):
    return not len(B(case['data'])) % BS[case['cipher']] or case['dir'] == 'encrypt' \
        or case['mode'] not in ('ecb', 'cbc')


def c02_explicit(tier):
    out = []
    for name, bs in BS.items():
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
            for direction in ('encrypt', 'decrypt'):
                for n in (0, 1, bs, 2 * bs, 3 * bs, 300 * bs):
                    data = {'pat': bytes(range(1, 90)), 'n': n}
                    if direction == 'decrypt' and mode in ('ecb', 'cbc') and n % bs:
                        continue
                    for iv in (None, bytes(range(bs // 2)) if mode == 'ctr' else bytes(range(bs))):
                        if mode == 'ecb' and iv is not None:
                            continue
                        out.append({'cipher': name, 'mode': mode, 'key': bytes(range(32)),
                                    'iv': iv, 'dir': direction, 'pad': None, 'data': data,
                                    't': n})
            # long vectors: the register of CBC, CFB and OFB, with more and fewer blocks of data
            for units in (2, 3, 16, 17, 32, 33, 64, 255, 256, 257):
                for n in (bs * (units - 1), bs * units, bs * units + 1, bs * (2 * units + 3)):
                    if mode not in ('cbc', 'cfb', 'ofb') or n > 300 * bs and units < 256:
                        continue
                    direction = 'encrypt' if n % 3 else 'decrypt'
                    n -= n % bs if direction == 'decrypt' and mode == 'cbc' else 0
                    out.append({'cipher': name, 'mode': mode, 'key': bytes(range(1, 33)),
                                'iv': bytes((i * i + i // bs) & 255 for i in range(units * bs)),
                                'dir': direction, 'pad': None, 't': n,
                                'data': {'pat': bytes(range(1, 90)), 'n': n}})
            for big in gen.LARGE[1 if tier == 'quick' else 0:]:
                for direction in ('encrypt', 'decrypt'):
                    if tier == 'quick' and big > 40000 and (direction == 'encrypt') == (bs == 8):
                        continue
                    vec = None if big % 3 else bytes(range(bs // 2 if mode == 'ctr' else 2 * bs))
                    n = big - big % bs if direction == 'decrypt' and mode in ('ecb', 'cbc') else big
                    out.append({'cipher': name, 'mode': mode, 'key': bytes(range(2, 34)),
                                'iv': None if mode == 'ecb' else vec, 'dir': direction,
                                'pad': None, 'data': {'pat': bytes(range(251)), 'n': n}, 't': n})
            for i, n in enumerate(gen.sizes()):
                out.append({'cipher': name, 'mode': mode, 'key': bytes(range(5, 37)), 'iv': None,
                            'dir': 'encrypt' if i % 2 else 'decrypt', 'pad': None, 't': i,
                            'data': {'pat': bytes(range(251)), 'n': n - (n % bs if mode in (
                                'ecb', 'cbc') and i % 2 == 0 else 0)}})
    return sorted(out, key=lambda c: -c['data']['n'])


special_block = st.one_of(
    st.sampled_from([0, 0, 255, 128, 1]).map(lambda b: ['fill', b]),
    st.tuples(st.sampled_from(['bit']), st.integers(0, 127)).map(list),
    st.tuples(st.sampled_from(['key', 'iv', 'last', 'count']), st.integers(0, 255)).map(list))


def crafted_block(item, bs, key, iv, before):
    kind, n = item
    if kind == 'fill':
        return bytes([n]) * bs
    if kind == 'bit':
        return (1 << n % (8 * bs)).to_bytes(bs, 'big')
    if kind == 'key':
        at = n * bs % len(key)
        return key[at:at + bs]
    if kind == 'iv':
        return (iv * bs)[n % len(iv):][:bs] if iv else bytes(bs)
    if kind == 'last':
        return before or bytes(bs)
    return n.to_bytes(bs, 'big')


@st.composite
def c02_crafted_cases(draw):
    name, mode = draw(ciphers), draw(modes5)
    return {'cipher': name, 'mode': mode, 'key': draw(gen.keys32), 'iv': draw(ivs(name, mode)),
            'dir': draw(st.sampled_from(['encrypt', 'decrypt'])), 'pad': None, 't': draw(flags),
            'what': draw(st.sampled_from(['result', 'input'])),
            'blocks': draw(st.lists(special_block, min_size=1, max_size=6))}


def c02_crafted(case):
    bs = BS[case['cipher']]
    targets = []
    for item in case['blocks']:
        targets.append(crafted_block(item, bs, case['key'], case['iv'],
                                     targets[-1] if targets else None))
    data = b''.join(targets)
    if case['what'] == 'result':
        data = model_for(case).run(data, {'encrypt': 'decrypt', 'decrypt': 'encrypt'}[case['dir']])
    elif case['mode'] == 'cbc' and case['dir'] == 'encrypt':
        model, out = model_for(case), []
        for block in targets:
            out.append(ref.xor(block, model.register[0]))
            model.run(out[-1], 'encrypt')
        data = b''.join(out)
    c02_check(dict(case, data=data))
    return True, [case['mode'] + ' ' + case['what']] + [i[0] for i in case['blocks']]


def c02():
    return Property('C02', [
        SubCheck('crafted', c02_crafted, c02_crafted_cases(), 1600, 50000,
                 rule='data such that the result (or what goes into the block cipher) consists of '
                      'chosen blocks: zeros, ones, one bit, parts of key and vector, the block '
                      'before; all non-trivial'),
        echoes(c02_check, c02_cases(), ['key', 'iv', 'data+', 'data+'], 1600, 50000,
               valid=c02_valid),
        neighbours(c02_check, c02_cases(), ['key', 'key', 'iv', 'iv', 'data'], 1500, 60000),
        SubCheck('modes', c02_check, c02_cases(), 9000, 200000, c02_explicit,
                 rule='cipher x mode x direction x key x vector (default or 1-17 blocks) x data; '
                      'non-trivial: data not empty')],
        ['padding mode 2 may append one more zero block (finding C06)'])


# ----------------------------------------------------------------------- C03

@st.composite
def c03_cases(draw):
    name, mode = draw(ciphers), draw(modes5)
    pad = draw(st.sampled_from([None, 1, 2])) if mode in ('ecb', 'cbc') else None
    return {'cipher': name, 'mode': mode, 'key': draw(gen.keys32), 'iv': draw(ivs(name, mode)),
            'pad': pad, 'data': draw(gen.sized(lengths(BS[name], False))), 't': draw(flags)}


def c03_check(case):
    t = Typed(case['t'])
    bs = BS[case['cipher']]
    data = B(case['data'])
    enc, dec = real_for(case, t), real_for(case, t)
    text = enc.encrypt(t(data))
    back = bytes(dec.decrypt(t(bytes(text))))
    if case['mode'] in ('ecb', 'cbc'):
        wants = padded(data, bs, case['pad'])
    else:
        wants = [data]
    if len(text) not in [len(w) for w in wants]:
        fail('ciphertext of %d bytes for a message of %d', len(text), len(data))
    if back not in wants:
        same(back, wants[0], 'decrypt(encrypt(m)) %s %s' % (case['cipher'], case['mode']))
    require(len(back) == len(text), 'plaintext of %d bytes for a ciphertext of %d',
            len(back), len(text))
    return len(data) > 0, [case['cipher'] + '-' + case['mode'],
                           'partial' if len(data) % bs else 'aligned']


def c03_explicit(tier):
    out = []
    for name, bs in BS.items():
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
            for n in list(range(0, 4 * bs + 2)) + [256 * bs, 257 * bs + 3]:
                out.append({'cipher': name, 'mode': mode, 'key': bytes(range(7, 39)), 'iv': None,
                            'pad': None, 'data': {'pat': bytes(range(251)), 'n': n}, 't': n * 5})
            for i, n in enumerate(gen.LARGE[2:5]):
                out.append({'cipher': name, 'mode': mode, 'key': bytes(range(7, 39)), 'iv': None,
                            'pad': [None, 1, 2][i] if mode in ('ecb', 'cbc') else None,
                            'data': {'pat': bytes(range(251)), 'n': n}, 't': n * 5})
    return sorted(out, key=lambda c: -c['data']['n'])


def c03():
    return Property('C03', [
        SubCheck('round-trip', c03_check, c03_cases(), 6500, 150000, c03_explicit,
                 rule='separate objects encrypt and decrypt; non-trivial: data not empty')])


# ----------------------------------------------------------------------- C04

@st.composite
def c04_cases(draw):
    name = draw(ciphers)
    mode = draw(st.sampled_from(['cbc', 'cfb', 'ofb', 'ctr', 'ecb']))
    bs = BS[name]
    counts = st.one_of(st.integers(0, 3), st.integers(0, 12))
    parts = draw(st.lists(counts.map(lambda n: n * bs).flatmap(gen.exact),
                          min_size=0, max_size=6))
    direction = draw(st.sampled_from(['encrypt', 'decrypt']))
    aligned = mode in ('cbc', 'ecb') and direction == 'decrypt'
    parts.append(draw(gen.sized(lengths(bs, aligned, 8))))
    if mode == 'ecb' and direction == 'encrypt':
        parts = [draw(gen.sized(lengths(bs, False, 4))) if draw(st.booleans()) else p
                 for p in parts]
    return {'cipher': name, 'mode': mode, 'key': draw(gen.keys32), 'iv': draw(ivs(name, mode)),
            'pad': draw(st.sampled_from([None, 1])) if mode in ('cbc', 'ecb') else None,
            'dir': direction, 'parts': parts, 't': draw(flags)}


def c04_check(case):
    t = Typed(case['t'])
    bs, mode = BS[case['cipher']], case['mode']
    parts = [B(p) for p in case['parts']]
    obj, model = real_for(case, t), model_for(case)
    out = b''
    has_iv = mode in ('cbc', 'cfb', 'ofb')
    if has_iv:
        same(obj.iv, model.register[-1], 'iv of a new object')
    for i, part in enumerate(parts):
        got = getattr(obj, case['dir'])(t(part))
        data = ref.pad1(part, bs) if mode in ('cbc', 'ecb') else part
        if mode == 'ecb':
            want = ref.ModeModel(case['cipher'], case['key'], 'ecb').run(data, case['dir'])
        else:
            want = model.run(data, case['dir'])
        same(got, want, '%s %s piece %d' % (mode, case['dir'], i))
        out += bytes(got)
        if has_iv and (len(part) % bs == 0 or mode == 'cbc'):
            same(obj.iv, model.register[-1], 'iv after piece %d' % i)
            same(obj.iv, model.register[-1], 'iv read again after piece %d' % i)
    if mode != 'ecb':
        whole = real_for(case, t)
        one = getattr(whole, case['dir'])(t(b''.join(parts)))
        same(out, one, '%s %s pieces against one call' % (mode, case['dir']))
    return len([p for p in parts if p]) > 1, [
        case['cipher'] + '-' + mode + '-' + case['dir'], '%d pieces' % len(parts)]


def c04_explicit(tier):
    """Long streams: many small pieces, and few long ones."""
    out = []
    for name, bs in BS.items():
        for mode in ('cbc', 'cfb', 'ofb', 'ctr', 'ecb'):
            for direction in ('encrypt', 'decrypt'):
                for units, count in ((1, 270), (7, 40), (3, 90), (130, 3)):
                    vec = None
                    if units in (3, 7) and mode in ('cbc', 'cfb', 'ofb'):
                        vec = bytes((i * 5 + i // bs) & 255 for i in range(bs * (5 if units == 3 else 33)))
                    out.append({'cipher': name, 'mode': mode, 'key': bytes(range(3, 35)), 'iv': vec,
                                'pad': None, 'dir': direction, 't': units,
                                'parts': [{'pat': bytes(range(i % 50, 251)), 'n': units * bs}
                                          for i in range(count)]})
                for i, n in enumerate(gen.sizes(9000)):
                    out.append({'cipher': name, 'mode': mode, 'key': bytes(range(3, 35)), 'iv': None,
                                'pad': None, 'dir': direction, 't': i * 7,
                                'parts': [{'pat': bytes(range(j, 251)), 'n': size} for j, size in
                                          enumerate((n - n % bs, bs, n - n % bs + bs, 5 * bs))]})
                for n in gen.counts():
                    out.append({'cipher': name, 'mode': mode, 'key': bytes(range(3, 35)), 'iv': None,
                                'pad': None, 'dir': direction, 't': n * 7,
                                'parts': [{'pat': bytes(range(i % 50, 251)), 'n': bs}
                                          for i in range(n + 5)]})
                for i, big in enumerate(gen.LARGE[1:5]):
                    if tier == 'quick' and big > 20000 and (direction == 'encrypt') == (i % 2 == bs // 16):
                        continue
                    sizes = [bs, big - big % bs, 3 * bs]
                    out.append({'cipher': name, 'mode': mode, 'key': bytes(range(3, 35)), 'iv': None,
                                'pad': None, 'dir': direction, 't': i * 7,
                                'parts': [{'pat': bytes(range(j, 251)), 'n': n}
                                          for j, n in enumerate(sizes)]})
    return out


def c04():
    return Property('C04', [
        many_cipher(),
        SubCheck('pieces', c04_check, c04_cases(), 5000, 100000, c04_explicit,
                 rule='1-7 pieces on one object against the model, one call on a new object and '
                      'the iv attribute after each piece; non-trivial: two or more non-empty '
                      'pieces')],
        ['CBC with padding mode 1 (mode 2 pads every call)'])


# ----------------------------------------------------------------------- C05

@st.composite
def c05_cases(draw):
    name = draw(ciphers)
    bs = BS[name]
    n = st.one_of(gen.near(bs, 6), gen.near(bs, 6), gen.near(bs, 60),
                  st.sampled_from([255 * bs, 256 * bs, 257 * bs]))
    calls = draw(st.lists(st.tuples(st.sampled_from(['encrypt', 'decrypt']), n),
                          min_size=1, max_size=8))
    return {'cipher': name, 'key': draw(gen.keys32), 'iv': draw(ivs(name, 'ctr')),
            'calls': [list(c) for c in calls], 'pat': draw(st.binary(min_size=1, max_size=40)),
            't': draw(flags)}


def c05_check(case):
    t = Typed(case['t'])
    name, bs = case['cipher'], BS[case['cipher']]
    iv = case['iv']
    obj = new_cipher(name, t(case['key']), 'ctr', None if iv is None else t(iv))
    base = int.from_bytes((iv if iv is not None else default_iv(name, 'ctr')).ljust(bs, b'\0'),
                          'big')
    cipher = ref.CIPHERS[name](case['key'])
    i = 0
    seen = set()
    zero = True
    for n_call, (direction, length) in enumerate(case['calls']):
        want_ctr = ((base + i) % (1 << 8 * bs)).to_bytes(bs, 'big')
        same(obj.counter, want_ctr, 'counter before call %d' % n_call)
        data = b'' if length == 0 else B({'pat': case['pat'], 'n': length})
        got = bytes(getattr(obj, direction)(t(data)))
        require(len(got) == length, 'call %d: %d bytes for %d', n_call, len(got), length)
        gamma = ref.xor(got, data)
        for k in range(0, length, bs):
            ctr = ((base + i) % (1 << 8 * bs)).to_bytes(bs, 'big')
            i += 1
            piece = gamma[k:k + bs]
            same(piece, cipher.encrypt(ctr)[:len(piece)],
                 'key stream block %d (call %d)' % (i - 1, n_call))
            if len(piece) == bs:
                require(piece not in seen, 'key stream block %d repeats', i - 1)
                seen.add(piece)
        zero = zero and length == 0
    same(obj.counter, ((base + i) % (1 << 8 * bs)).to_bytes(bs, 'big'), 'counter at the end')
    same(obj.counter, ((base + i) % (1 << 8 * bs)).to_bytes(bs, 'big'), 'counter read again')
    return not zero, [name, 'blocks>255' if i > 255 else 'blocks>16' if i > 16 else 'short',
                      'partial call' if any(n % bs for _, n in case['calls']) else 'aligned']


def c05_long(case):
    """Many blocks; the key stream is compared around multiples of 256 and at random places."""
    name, bs = case['cipher'], BS[case['cipher']]
    obj = new_cipher(name, bytearray(case['key']), 'ctr', bytearray(case['iv']))
    base = int.from_bytes(case['iv'].ljust(bs, b'\0'), 'big')
    cipher = ref.CIPHERS[name](case['key'])
    done = 0
    chunk = 512
    seen = set()
    while done < case['blocks']:
        got = bytes(obj.encrypt(bytes(chunk * bs)))
        require(len(got) == chunk * bs, 'length')
        for k in range(chunk):
            piece = got[k * bs:k * bs + bs]
            require(piece not in seen, 'key stream block %d repeats', done + k)
            if done + chunk <= 1 << 20:
                seen.add(piece)
            if (done + k) % 256 in (0, 1, 255, 128) or (done + k) % 31 == 0:
                ctr = ((base + done + k) % (1 << 8 * bs)).to_bytes(bs, 'big')
                same(piece, cipher.encrypt(ctr), 'key stream block %d' % (done + k))
        done += chunk
        same(obj.counter, ((base + done) % (1 << 8 * bs)).to_bytes(bs, 'big'),
             'counter after %d blocks' % done)
    return True, ['%s %d blocks' % (name, done)]


def c05_long_explicit(tier):
    out = [{'cipher': 'magma', 'key': bytes(range(32)), 'iv': b'\xff' * 4, 'blocks': 65600},
           {'cipher': 'kuznechik', 'key': bytes(range(32)), 'iv': bytes(8), 'blocks': 65600}]
    if tier == 'thorough':
        out.append({'cipher': 'magma', 'key': bytes(range(32)), 'iv': b'\xff' * 4,
                    'blocks': (1 << 24) + 1024})
        out.append({'cipher': 'kuznechik', 'key': bytes(range(32)), 'iv': b'\xff' * 8,
                    'blocks': (1 << 24) + 1024})
    return out


@st.composite
def c05_jump_cases(draw):
    name = draw(ciphers)
    bs = BS[name]
    # counter blocks with long carries ahead of them
    width = draw(st.integers(1, bs))
    low = (1 << 8 * width) - 1 - draw(st.integers(0, 3))
    high = int.from_bytes(draw(gen.exact(bs)), 'big') >> 8 * width << 8 * width
    return {'cipher': name, 'key': draw(gen.keys32), 'start': (high | low).to_bytes(bs, 'big'),
            'calls': draw(st.lists(st.integers(0, 3 * bs), min_size=1, max_size=4))}


def c05_jump(case):
    """As after very many blocks: the counter block is put where it would be by then.

    Only if the object keeps the value of `counter` in `_counter`; else not reachable.
    """
    name, bs = case['cipher'], BS[case['cipher']]
    obj = new_cipher(name, case['key'], 'ctr', bytes(bs // 2))
    held = getattr(obj, '_counter', None)
    if not isinstance(held, bytearray) or bytes(held) != bytes(obj.counter):
        return False, ['not reachable']
    # does the object go on from the counter put there?
    start = bytes(bs - 1) + b'\x05'
    obj._counter = bytearray(start)
    if bytes(obj.encrypt(bytes(bs))) != ref.CIPHERS[name](case['key']).encrypt(start):
        return False, ['not reachable']
    obj._counter = bytearray(case['start'])
    if bytes(obj.counter) != case['start']:
        return False, ['not reachable']
    base = int.from_bytes(case['start'], 'big')
    cipher = ref.CIPHERS[name](case['key'])
    i = 0
    for n, length in enumerate(case['calls']):
        got = bytes(obj.encrypt(bytes(length)))
        want = b''
        while len(want) < length:
            want += cipher.encrypt(((base + i) % (1 << 8 * bs)).to_bytes(bs, 'big'))
            i += 1
        same(got, want[:length], 'key stream of call %d' % n)
        same(obj.counter, ((base + i) % (1 << 8 * bs)).to_bytes(bs, 'big'), 'counter after call %d' % n)
    return i > 0, ['%s carry over %d bytes' % (
        name, len(case['start']) - len(case['start'].rstrip(b'\xff\xfe\xfd\xfc')))]


def c05():
    return Property('C05', [
        SubCheck('jump', c05_jump, c05_jump_cases(), 2000, 40000,
                 rule='the object is moved to a counter block before a carry of 1 to 16 bytes; '
                      'non-trivial: the counter advances'),
        SubCheck('long', c05_long, explicit=c05_long_explicit, budget=400,
                 rule='over 65,536 blocks, counter after every 512, key stream blocks distinct'),
        SubCheck('counter', c05_check, c05_cases(), 2600, 60000,
                 rule='1-8 calls, encrypt and decrypt mixed, each key stream block and the counter '
                      'attribute; non-trivial: data not empty')])


# ----------------------------------------------------------------------- C06

@st.composite
def c06_cases(draw):
    name = draw(ciphers)
    bs = BS[name]
    n = draw(st.one_of(gen.near(bs, 5), st.integers(0, 40 * bs)))
    msg = st.one_of(gen.exact(n), gen.exact(n).map(
        lambda m: (m[:-3] + b'\x80\x00\x00')[:len(m)] if len(m) >= 3 else m))
    return {'cipher': name, 'mode': draw(st.sampled_from(['ecb', 'cbc'])),
            'pad': draw(st.sampled_from([None, 1, 2])), 'key': draw(gen.keys32),
            'data': draw(msg), 'other': draw(gen.exact(n)), 't': draw(flags)}


def c06_check(case):
    t = Typed(case['t'])
    name, bs = case['cipher'], BS[case['cipher']]
    data, pad = B(case['data']), case['pad']
    case = dict(case, iv=None)

    def plain(msg):
        text = bytes(real_for(case, t).encrypt(t(msg)))
        require(len(text) % bs == 0, 'ciphertext of %d bytes', len(text))
        return model_for(case).run(text, 'decrypt')

    full = plain(data)
    require(full[:len(data)] == data, 'the padded message does not start with the message')
    added = full[len(data):]
    want = (ref.pad1 if pad in (None, 1) else ref.pad2)(data, bs)[len(data):]
    what = '%s %s mode %s, message of %d bytes' % (name, case['mode'], pad, len(data))
    finding = False
    if added != want:
        if pad == 2 and added == want + bytes(bs) and (len(data) % bs or not data):
            finding = True
        else:
            same(added, want, 'padding of ' + what)
    if pad == 2:
        stripped = full.rstrip(b'\0')
        require(stripped[-1:] == b'\x80' and stripped[:-1] == data, 'stripping ' + what)
    other = plain(B(case['other']))
    same(other[len(data):], added, 'padding of another message, ' + what)
    if finding:
        raise KnownFinding('pad2-extra-block')
    return True, ['%s mode %s' % (case['mode'], pad), 'partial' if len(data) % bs else 'aligned']


def c06_explicit(tier):
    out = []
    for name, bs in BS.items():
        for mode in ('ecb', 'cbc'):
            for pad in (None, 1, 2):
                for n in list(range(0, 3 * bs + 1)) + [64 * bs - 1, 64 * bs, 255 * bs, 256 * bs,
                                                       257 * bs - 1]:
                    out.append({'cipher': name, 'mode': mode, 'pad': pad,
                                'key': bytes(range(32)),
                                'data': {'pat': b'\x80\x00\x01', 'n': n},
                                'other': {'pat': b'\xff', 'n': n}, 't': n})
                for n in ((4095 * bs, 4096 * bs + 3) if mode == 'ecb' else (8192 - bs, 8193)):
                    out.append({'cipher': name, 'mode': mode, 'pad': pad, 't': n,
                                'key': bytes(range(32)), 'data': {'pat': b'\x80\x00\x01', 'n': n},
                                'other': {'pat': b'\xff', 'n': n}})
    return sorted(out, key=lambda c: -c['data']['n'])


def c06():
    return Property('C06', [
        SubCheck('padding', c06_check, c06_cases(), 4500, 100000, c06_explicit,
                 rule='the padded message is recovered by decrypting with the reference; every '
                      'length of 0-3 blocks enumerated; all cases non-trivial')])


# ----------------------------------------------------------------------- C07

@st.composite
def c07_cases(draw):
    name = draw(ciphers)
    bs = BS[name]
    return {'cipher': name, 'key': draw(gen.keys32),
            'data': draw(gen.sized(st.one_of(gen.near(bs, 6), gen.near(bs, 40)))),
            'size': draw(st.one_of(st.just(bs), st.integers(1, bs))),
            'how': draw(st.sampled_from(['data', 'update'])), 't': draw(flags)}


@st.composite
def c07_crafted_cases(draw):
    name = draw(ciphers)
    return {'cipher': name, 'key': draw(gen.keys32), 'iv': None, 't': draw(flags),
            'size': draw(st.one_of(st.just(BS[name]), st.integers(1, BS[name]))),
            'how': draw(st.sampled_from(['data', 'update'])), 'tag': draw(st.booleans()),
            'blocks': draw(st.lists(special_block, min_size=1, max_size=5))}


def c07_crafted(case):
    bs = BS[case['cipher']]
    model = ref.CIPHERS[case['cipher']](case['key'])
    # a whole last block: the tag of a zero block gives back the first subkey
    zero = ref.omac(case['cipher'], case['key'], bytes(bs), bs)
    subkey = model.decrypt(zero)
    out, state, target = [], bytes(bs), None
    for i, item in enumerate(case['blocks']):
        target = crafted_block(item, bs, case['key'], None, target)
        last = i == len(case['blocks']) - 1
        if last and case['tag']:
            block = model.decrypt(target)
        else:
            block = target
        out.append(ref.xor(ref.xor(block, state), subkey if last else bytes(bs)))
        state = model.encrypt(block)
    c07_check(dict(case, data=b''.join(out)))
    return True, ['tag' if case['tag'] else 'input'] + [i[0] for i in case['blocks']]


def c07_check(case):
    t = Typed(case['t'])
    name, data, size = case['cipher'], B(case['data']), case['size']
    if case['how'] == 'data':
        obj = new_cipher(name, t(case['key']), 'mac', data=t(data))
    else:
        obj = new_cipher(name, t(case['key']), 'mac')
        if case['how'] == 'update':
            obj.update(t(data))
    want = ref.omac(name, case['key'], data, BS[name])
    same(obj.digest(size), want[:size], 'MAC of %d bytes' % len(data))
    equal(obj.hexdigest(size), want[:size].hex(), 'hexdigest')
    same(obj.digest(BS[name]), want, 'full MAC of %d bytes' % len(data))
    n, bs = len(data), BS[name]
    return True, [name, 'empty' if not n else 'short' if n < bs else
                  'aligned' if n % bs == 0 else 'partial', 'truncated' if size < bs else 'full']


def c07_explicit(tier):
    out = []
    for name, bs in BS.items():
        for n in list(range(0, 4 * bs + 2)) + [255 * bs, 256 * bs, 257 * bs, 300 * bs + 1,
                                               1025 * bs + bs - 1]:
            for how in ('data', 'update') if n else ('data', 'update', 'none'):
                out.append({'cipher': name, 'key': bytes(range(32)), 'size': 1 + n % bs,
                            'data': {'pat': bytes(range(3, 250)), 'n': n}, 'how': how, 't': n})
        for i, n in enumerate(gen.LARGE):
            out.append({'cipher': name, 'key': bytes(range(32)), 'size': bs - i % bs,
                        'data': {'pat': bytes(range(3, 250)), 'n': n},
                        'how': 'data' if (i + bs // 8) % 2 else 'update', 't': n})
        for i, n in enumerate(gen.sizes()):
            out.append({'cipher': name, 'key': bytes(range(1, 33)), 'size': 1 + i % bs, 't': i,
                        'data': {'pat': bytes(range(3, 250)), 'n': n},
                        'how': 'update' if (i + bs // 8) % 2 else 'data'})
    return sorted(out, key=lambda c: -c['data']['n'])


def c07():
    return Property('C07', [
        neighbours(c07_check, c07_cases(), ['key', 'data+'], 1500, 50000),
        echoes(c07_check, c07_cases(), ['key', 'data+', 'data+'], 1200, 40000),
        SubCheck('crafted', c07_crafted, c07_crafted_cases(), 1200, 40000,
                 rule='data such that what goes into the block cipher, or the tag, is a chosen block '
                      '(zeros, ones, one bit, part of the key, the block before); all non-trivial'),
        SubCheck('omac', c07_check, c07_cases(), 9000, 200000, c07_explicit,
                 rule='key x message x tag size; lengths 0-4 blocks enumerated; all non-trivial')])


# ----------------------------------------------------------------------- C08

@st.composite
def c08_cases(draw):
    name = draw(ciphers)
    bs = BS[name]
    upd = gen.sized(st.one_of(st.integers(0, 3), gen.near(bs, 3))).map(lambda d: ['u', d])
    read = st.tuples(st.sampled_from(['d', 'h']), st.integers(1, bs)).map(list)
    return {'cipher': name, 'key': draw(gen.keys32),
            'first': draw(st.one_of(st.none(), gen.sized(gen.near(bs, 3)))),
            'ops': draw(st.lists(st.one_of(upd, upd, read), min_size=1, max_size=12)),
            't': draw(flags)}


def c08_check(case):
    t = Typed(case['t'])
    name, bs = case['cipher'], BS[case['cipher']]
    first = case['first']
    obj = new_cipher(name, t(case['key']), 'mac', data=None if first is None else t(first))
    data = first or b''
    reads = 0
    for op, arg in list(case['ops']) + [['d', bs]]:
        if op == 'u':
            obj.update(t(B(arg)))
            data += B(arg)
        else:
            want = ref.omac(name, case['key'], data, arg)
            reads += 1
            if op == 'd':
                same(obj.digest(arg), want, 'digest(%d) after %d bytes' % (arg, len(data)))
            else:
                equal(obj.hexdigest(arg), want.hex(), 'hexdigest(%d) after %d bytes'
                      % (arg, len(data)))
    n_upd = len([1 for op, _ in case['ops'] if op == 'u'])
    return n_upd + (first is not None) > 1, [name, 'interior reads' if reads > 1 else 'one read',
                                             '%d+ updates' % min(n_upd, 6)]


def c08_explicit(tier):
    """Long histories, read on the way."""
    out = []
    for name, bs in BS.items():
        for n, count in ((bs, 270), (bs - 1, 80), (bs + 1, 80), (1, 300), (100 * bs, 3), (257 * bs, 2)):
            ops = []
            for i in range(count):
                ops.append(['u', {'pat': bytes(range(i % 90, 250)), 'n': n}])
                if i % 29 == 3:
                    ops.append(['d' if i % 2 else 'h', 1 + i % bs])
            out.append({'cipher': name, 'key': bytes(range(9, 41)), 'first': None, 'ops': ops, 't': n})
        for n in gen.counts():
            ops = [['u', {'pat': bytes(range(i % 90, 250)), 'n': bs + i % 3}] for i in range(n + 5)]
            for at in (n - 1, n + 1, n + 3):
                ops.insert(at, ['d', bs])
            out.append({'cipher': name, 'key': bytes(range(9, 41)), 'first': None, 'ops': ops, 't': n})
        for i, big in enumerate(gen.LARGE[:5] + tuple(gen.sizes())):
            piece = {'pat': bytes(range(1, 250)), 'n': big}
            out.append({'cipher': name, 'key': bytes(range(9, 41)), 't': i, 'first': None,
                        'ops': [['u', b'abc'], ['u', piece], ['d', 1 + i % bs], ['u', b'12345'], ['h', bs]]})
    return out


def c08():
    return Property('C08', [
        many_digest('mac', ('updates', 'reading')),
        SubCheck('history', c08_check, c08_cases(), 8000, 150000, c08_explicit,
                 rule='histories of updates (any length) and reads against the reference of the '
                      'concatenation; non-trivial: at least two pieces')])


# ----------------------------------------------------------------------- C09

BAD_ALG = ['Kuznechik', 'MAGMA', 'aes', '', 'magma ', ' kuznechik', 'kuznyechik', 'mag',
           'magmakuznechik', 'kuznechik\0', '$none', '$int', '$bytes']
BAD_MODE = ['$none', 0, 4, 7, 8, -1, 254, 256, 257, 0x800000f0, '$str', '$float']
BAD_PAD = ['$none', 0, 1, 2, 0xf0, 0x800000ef, 0x800000f2, '$str', -1]
SPECIAL = {'$none': None, '$int': 7, '$bytes': b'magma', '$str': 'ecb', '$float': 2.5}


def special(value):
    return SPECIAL.get(value, value) if isinstance(value, str) else value


@st.composite
def c09_cases(draw):
    name = draw(ciphers)
    mode = draw(st.sampled_from(['ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'mac']))
    bs = BS[name]
    kinds = ['none', 'none', 'alg', 'mode', 'keylen', 'keytype']
    if mode in ('ecb', 'cbc'):
        kinds += ['pad', 'pad']
    if mode not in ('ecb', 'mac'):
        kinds += ['ivlen', 'ivlen', 'ivtype']
    if mode == 'mac':
        kinds += ['newdata', 'update', 'size', 'size']
    else:
        kinds += ['encrypt', 'decrypt']
    kind = draw(st.sampled_from(kinds))
    bad = None
    if kind == 'alg':
        bad = draw(st.one_of(st.sampled_from(BAD_ALG), st.text(max_size=10).filter(
            lambda s: s not in BS and not s.startswith('$'))))
    elif kind == 'mode':
        bad = draw(st.one_of(st.sampled_from(BAD_MODE), st.integers(-2, 1 << 20).filter(
            lambda m: m not in MODE.values())))
    elif kind == 'pad':
        bad = draw(st.one_of(st.sampled_from(BAD_PAD), st.integers(0, 1 << 32).filter(
            lambda m: m not in PAD.values())))
    elif kind == 'keylen':
        bad = draw(gen.sized(st.one_of(st.integers(0, 80), st.sampled_from(
            [0, 16, 31, 33, 64, 63, 65, 96])).filter(lambda n: n != 32)))
    elif kind == 'ivlen':
        if mode == 'ctr':
            n = st.one_of(st.integers(0, 3 * bs), st.sampled_from(
                [0, bs, 2 * bs, bs // 2 - 1, bs // 2 + 1, bs + bs // 2])
                          ).filter(lambda n: n != bs // 2)
        else:
            n = st.one_of(st.integers(0, 5 * bs), st.sampled_from([0, 1, bs - 1, bs + 1, bs // 2])
                          ).filter(lambda n: n == 0 or n % bs)
        bad = draw(gen.sized(n))
    elif kind in ('keytype', 'ivtype', 'newdata', 'update', 'encrypt', 'decrypt'):
        bad = draw(gen.not_bytes)
    elif kind == 'size':
        bad = draw(st.one_of(st.just(bs + 1), st.integers(bs + 1, 1000)))
    return {'cipher': name, 'mode': mode, 'key': draw(gen.keys32),
            'iv': draw(ivs(name, mode)) if mode != 'mac' else None,
            'pad': draw(st.sampled_from([None, 1, 2])) if mode in ('ecb', 'cbc') else None,
            'data': draw(gen.sized(gen.near(bs, 2))), 'kind': kind, 'bad': bad,
            't': draw(flags)}


OID = {'kuznechik': ('1.2.643.7.1.1.5.2', 'id-tc26-cipher-gostr3412-2015-kuznyechik',
                     '06082a85030701010502'),
       'magma': ('1.2.643.7.1.1.5.1', 'id-tc26-cipher-gostr3412-2015-magma',
                 '06082a85030701010501')}


def check_oid(oid, dotted, name, octet, what):
    equal(str(oid), dotted, what + ' oid')
    equal(oid.name, name, what + ' oid.name')
    equal(oid.digit, tuple(int(a) for a in dotted.split('.')), what + ' oid.digit')
    same(oid.octet, bytes.fromhex(octet), what + ' oid.octet')


MESSAGE = {
    'alg': 'unsupported cipher algorithm', 'mode': 'unsupported cipher mode',
    'keylen': 'invalid key value', 'keytype': 'invalid key value', 'pad': 'invalid padding mode',
    'ivlen': 'invalid initialization vector value', 'ivtype': 'invalid initialization vector value',
    'newdata': 'invalid text data', 'update': 'invalid text data',
    'encrypt': 'invalid plaintext data', 'decrypt': 'invalid ciphertext data',
    'size': 'invalid message authentication code size'}
MESSAGE = {kind: 'GOSTCipherError: ' + text for kind, text in MESSAGE.items()}


def c09_check(case):
    t = Typed(case['t'])
    name, mode, kind, bad = case['cipher'], case['mode'], case['kind'], case['bad']
    alg, mode_value, key = name, MODE[mode], t(case['key'])
    kwargs = {}
    if case['iv'] is not None:
        kwargs['init_vect'] = t(case['iv'])
    if case['pad'] is not None:
        kwargs['pad_mode'] = PAD[case['pad']]
    if mode == 'mac' and case['t'] & 1:
        kwargs['data'] = t(case['data'])
    if kind == 'alg':
        alg = special(bad)
    elif kind == 'mode':
        mode_value = special(bad)
    elif kind == 'keylen':
        key = t(bad)
    elif kind == 'keytype':
        key = gen.make_not_bytes(bad)
    elif kind == 'pad':
        kwargs['pad_mode'] = special(bad)
    elif kind == 'ivlen':
        kwargs['init_vect'] = t(bad)
    elif kind == 'ivtype':
        kwargs['init_vect'] = gen.make_not_bytes(bad)
    elif kind == 'newdata':
        kwargs['data'] = gen.make_not_bytes(bad)

    def make():
        return gostcipher.new(alg, key, mode_value, **kwargs)

    what = '%s %s: %s %r' % (name, mode, kind, bad)
    if kind in ('alg', 'mode', 'keylen', 'keytype', 'pad', 'ivlen', 'ivtype', 'newdata'):
        raises(CipherError, make, what, MESSAGE[kind])
        return True, [kind, kind + '-' + mode]
    obj = make()
    equal(obj.block_size, BS[name], 'block_size')
    check_oid(obj.oid, *OID[name], what=name)
    if kind == 'none':
        bare = BLOCK_CIPHER[name](t(case['key']))
        equal(bare.block_size, BS[name], 'block_size of the cipher class')
        equal(bare.key_size, 32, 'key_size')
        check_oid(bare.oid, *OID[name], what=name)
        if mode == 'mac':
            obj.update(t(case['data']))
            for size in (1, BS[name]):
                require(len(obj.digest(size)) == size, 'tag size')
        else:
            obj.encrypt(t(case['data']))
            obj.decrypt(t(case['data']))
    elif kind == 'size':
        raises(CipherError, lambda: obj.digest(bad), what, MESSAGE[kind])
        obj = make()
        raises(CipherError, lambda: obj.hexdigest(bad), what + ' (hexdigest)', MESSAGE[kind])
    else:
        value = gen.make_not_bytes(bad)
        raises(CipherError, lambda: getattr(obj, kind)(value), what, MESSAGE[kind])
    return True, [kind, kind + '-' + mode]


def c09():
    return Property('C09', [
        SubCheck('parameters', c09_check, c09_cases(), 14000, 200000, destructors=True,
                 rule='a valid parameter set, accepted, or with one parameter replaced by an '
                      'invalid one, refused; all non-trivial')])


# ----------------------------------------------------------------------- C10

@st.composite
def c10_cases(draw):
    name = draw(ciphers)
    mode = draw(st.sampled_from(['ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'bare', 'mac']))
    bs = BS[name]
    keys = draw(related_keys(2))
    blocks = st.integers(0, 4).map(lambda n: n * bs).flatmap(gen.exact)
    both = st.sampled_from(['encrypt', 'decrypt'])
    if mode in ('ecb', 'ctr', 'bare'):
        pre = st.tuples(both, blocks)
    elif mode in ('cbc', 'cfb'):
        pre = st.tuples(st.just('decrypt'), blocks)
    else:
        pre = st.tuples(both, gen.sized(st.integers(0, bs - 1)))
    if mode == 'mac':
        pre = st.tuples(st.just('update'), gen.sized(gen.near(bs, 3)))
    return {'cipher': name, 'mode': mode, 'keys': keys,
            'iv': draw(ivs(name, mode)) if mode not in ('bare', 'mac') else None,
            'pre': [list(x) for x in draw(st.lists(pre, max_size=3))],
            'post': [list(x) for x in draw(st.lists(st.tuples(
                both, st.integers(1, 3).map(lambda n: n * bs).flatmap(gen.exact)),
                min_size=1, max_size=3))],
            'clears': draw(st.integers(1, 2)), 't': draw(flags)}


def c10_run(case, key, t):
    """Outcomes after clear(), and what the key itself would have given."""
    name, mode = case['cipher'], case['mode']
    if mode == 'bare':
        obj, live = BLOCK_CIPHER[name](t(key)), BLOCK_CIPHER[name](t(key))
    else:
        iv = None if case['iv'] is None else t(case['iv'])
        obj, live = new_cipher(name, t(key), mode, iv), new_cipher(name, t(key), mode, iv)
    bs = BS[name]
    for op, data in case['pre']:
        pieces = ref.blocks(data, bs) if mode == 'bare' else [data]
        for piece in pieces:
            getattr(obj, op)(t(piece))
            getattr(live, op)(t(piece))
    for _ in range(case['clears']):
        obj.clear()
    after, true = [], []
    for op, data in case['post']:
        pieces = ref.blocks(data, bs) if mode == 'bare' else [data]
        for piece in pieces:
            after.append(outcome(lambda p=piece: getattr(obj, op)(t(p))))
            true.append(outcome(lambda p=piece: getattr(live, op)(t(p))))
        if mode in ('cbc', 'cfb', 'ofb'):
            after.append(outcome(lambda: obj.iv))
        elif mode == 'ctr':
            after.append(outcome(lambda: obj.counter))
    return after, true


def c10_check(case):
    if case['mode'] == 'mac':
        return c10_mac(case)
    results = []
    for key in case['keys']:
        after, true = c10_run(case, key, Typed(case['t']))
        results.append(after)
        # only the first result: Magma under a constant key is an involution, so
        # chained results of different keys can agree
        if any(key) and after[0][0] == 'ok':
            require(after[0] != true[0], '%s %s: a cleared object returned the result of its key',
                    case['cipher'], case['mode'])
    for i, (a, b) in enumerate(zip(*results)):
        require(a == b, '%s %s: result %d after clear() depends on the key: %r and %r',
                case['cipher'], case['mode'], i, a, b)
    return case['keys'][0] != case['keys'][1], [case['cipher'] + '-' + case['mode'],
                                                'used before' if case['pre'] else 'new']


def c10_mac(case):
    name, t = case['cipher'], Typed(case['t'])
    bs = BS[name]
    for key in case['keys']:
        if not any(key):
            continue
        obj = new_cipher(name, t(key), 'mac')
        pre = b''
        for _, data in case['pre']:
            obj.update(t(data))
            pre += data
        for _ in range(case['clears']):
            obj.clear()
        post = b''
        for _, data in [[None, b'']] + case['post']:
            if data:
                outcome(lambda d=data: obj.update(t(d)))
            post += data
            kind, value = outcome(lambda: obj.digest(bs))
            if kind == 'ok':
                for msg in (pre + post, post):
                    require(value != ref.omac(name, key, msg, bs),
                            'a cleared MAC object returned the code of its key')
    return any(case['keys'][0]), [name + '-mac', 'used before' if case['pre'] else 'new']


@st.composite
def c10_hmac_cases(draw):
    upd = gen.sized(st.one_of(st.integers(0, 4), gen.near(64, 2))).map(lambda d: ['update', d])
    op = st.one_of(upd, st.sampled_from([['digest', b''], ['reset', b''], ['copy', b'']]))
    key = gen.sized(st.one_of(st.integers(0, 64), st.sampled_from([32, 63, 64])))
    return {'size': draw(st.sampled_from([32, 64])), 'keys': [draw(key), draw(key)],
            'pre': draw(st.lists(op, max_size=4)), 'post': draw(st.lists(op, max_size=4)),
            't': draw(flags)}


def c10_hmac_check(case):
    results = []
    for key in case['keys']:
        t = Typed(case['t'])
        obj = gosthmac.new(HMAC[case['size']], t(key))
        pre = b''
        for op, data in case['pre']:
            if op == 'update':
                obj.update(t(data))
                pre += data
            elif op == 'reset':
                obj.reset()
                pre = b''
            elif op == 'digest':
                obj.digest()
            else:
                obj = obj.copy()
        obj.clear()
        after, post = [], b''
        for op, data in case['post'] + [['digest', b'']]:
            if op == 'update':
                after.append(outcome(lambda d=data: obj.update(t(d))))
                post += data
            elif op == 'reset':
                after.append(outcome(obj.reset))
                post = pre = b''
            elif op == 'copy':
                obj = obj.copy()
            else:
                after.append(outcome(obj.digest))
                if any(key) and after[-1][0] == 'ok':
                    for msg in (pre + post, post):
                        require(after[-1][1] != ref.hmac(key, msg, case['size']),
                                'a cleared HMAC object returned the code of its key')
        results.append(after)
    require(results[0] == results[1], 'HMAC results after clear() depend on the key')
    return case['keys'][0] != case['keys'][1], ['hmac %d' % case['size']]


@st.composite
def c10_pbkdf_cases(draw):
    pw = gen.sized(st.integers(0, 64))
    return {'pws': [draw(pw), draw(pw)], 'salt': draw(gen.sized(st.integers(1, 40))),
            'count': draw(st.integers(1, 4)), 'pre': draw(st.lists(st.integers(1, 70), max_size=2)),
            'post': draw(st.lists(st.integers(8, 130), min_size=1, max_size=2)),
            't': draw(flags)}


def c10_pbkdf_check(case):
    results = []
    for pw in case['pws']:
        t = Typed(case['t'])
        obj = gostpbkdf.new(t(pw), salt=t(case['salt']), counter=case['count'])
        for n in case['pre']:
            obj.derive(n)
        obj.clear()
        after = [outcome(lambda n=n: obj.derive(n)) for n in case['post']]
        results.append(after)
        for n, (kind, value) in zip(case['post'], after):
            if kind == 'ok' and any(pw):
                require(value != ref.pbkdf(pw, case['salt'], case['count'], n),
                        'a cleared PBKDF object derived the key of its password')
    require(results[0] == results[1], 'PBKDF results after clear() depend on the password')
    return case['pws'][0] != case['pws'][1], ['pbkdf']


@st.composite
def c10_drbg_cases(draw):
    size_s = draw(st.sampled_from([32, 40, 48, 1, 62]))
    return {'size_s': size_s, 'seed': draw(gen.exact(size_s).filter(any)),
            'rand_size': draw(st.integers(1, 130)), 'pre': draw(st.integers(0, 3)),
            'tries': draw(st.integers(1, 3)), 'again': draw(gen.exact(size_s).filter(any)),
            't': draw(flags)}


def c10_drbg_check(case):
    t = Typed(case['t'])
    obj = gostrandom.new(case['rand_size'], rand_k=t(case['seed']), size_s=case['size_s'])
    for _ in range(case['pre']):
        obj.random()
    obj.clear()
    for _ in range(case['tries']):
        raises(RandomError, obj.random, 'random() of a cleared generator')
    obj.reset(t(case['again']))
    same(obj.random(), ref.Drbg(case['again']).random(case['rand_size']),
         'random() after clear() and reset()')
    return True, ['drbg %d' % case['size_s']]


def c10():
    return Property('C10', [
        SubCheck('ciphers', c10_check, c10_cases(), 3500, 80000,
                 rule='two keys, one history, clear(), one history: equal results, none of them '
                      'that of the key; non-trivial: different keys'),
        SubCheck('hmac', c10_hmac_check, c10_hmac_cases(), 1500, 40000, rule='as above'),
        SubCheck('pbkdf', c10_pbkdf_check, c10_pbkdf_cases(), 700, 20000, rule='as above'),
        SubCheck('drbg', c10_drbg_check, c10_drbg_cases(), 700, 20000,
                 rule='refuses until reset')],
        ['an all-zero key or password is its own cleared value and is not compared'])


# ----------------------------------------------------------------------- C11

BIG = {}


def package_values():
    """What the modules and classes of the package hold, without its large constant tables."""
    out = []
    for name, module in sorted(sys.modules.items()):
        if name.split('.')[0] != 'gostcrypto' or module is None:
            continue
        holders = [(name, vars(module))] + [
            (name + '.' + v.__name__, vars(v)) for v in list(vars(module).values())
            if isinstance(v, type) and v.__module__ == name]
        for where, names in holders:
            for key, value in list(names.items()):
                if key.startswith('__') and key.endswith('__') and not callable(value):
                    continue
                value = getattr(value, '__func__', getattr(value, 'fget', value))
                if isinstance(value, (types.ModuleType, type)):
                    continue
                try:
                    size = len(value)
                except TypeError:
                    size = 0
                if size > 16 and BIG.setdefault((where, key), (id(value), size)) == (id(value), size):
                    continue
                out.append(value)
    return out


def leaves(*roots):
    """Every byte string, integer and text reachable from the roots, as bytes."""
    out, seen, todo = [], set(), list(roots)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (bytes, bytearray)):
            out.append(bytes(o))
        elif isinstance(o, memoryview) or type(o).__name__ == 'array':
            out.append(bytes(o))
        elif isinstance(o, bool) or o is None:
            pass
        elif isinstance(o, int):
            n = abs(o)
            size = (n.bit_length() + 7) // 8
            # an integer may have lost leading zero bytes only, which shifts no window
            out += [n.to_bytes(size, 'big'), n.to_bytes(size, 'little')]
        elif isinstance(o, str):
            try:
                out.append(bytes.fromhex(o))
            except ValueError:
                out.append(o.encode('utf-8', 'surrogatepass'))
        elif isinstance(o, (type, types.ModuleType, types.FrameType)):
            pass
        elif isinstance(o, types.FunctionType):
            todo += list(o.__closure__ or ()) + list(o.__defaults__ or ()) \
                + list((o.__kwdefaults__ or {}).values()) + list(vars(o).values())
        else:
            todo += gc.get_referents(o)
            if isinstance(o, (list, tuple)) and o:
                if all(isinstance(x, (bytes, bytearray)) for x in o):
                    out.append(b''.join(o))
                elif all(isinstance(x, int) and 0 <= x < 1 << 32 for x in o):
                    out.append(b''.join(x.to_bytes(4, 'big') for x in o))
                    if max(o) < 256:
                        out.append(bytes(o))
    return out


def windows(secret):
    return {secret[i:i + 8] for i in range(len(secret) - 7)}


def held(roots, secrets):
    """Does something reachable from the roots contain 8 bytes in a row of a secret?"""
    found = set()
    for s in secrets:
        found |= windows(s)
    for leaf in leaves(*roots):
        for i in range(len(leaf) - 7):
            if leaf[i:i + 8] in found:
                return leaf[i:i + 8]
    return None


@st.composite
def c11_cases(draw):
    kind = draw(st.sampled_from(['kuznechik', 'magma', 'kuznechik', 'magma', 'hmac', 'pbkdf', 'drbg']))
    mode = draw(st.sampled_from(['bare', 'ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'mac'])) \
        if kind in BS else None
    return {'kind': kind, 'mode': mode, 'key': draw(st.integers(0, (1 << 32) - 1)),
            'n': draw(st.sampled_from([32, 40, 64])),
            'pre': draw(st.lists(st.tuples(st.sampled_from(['encrypt', 'decrypt', 'copy', 'read', 'reset']),
                                           st.integers(0, 5)).map(list), max_size=4)),
            'clears': draw(st.integers(1, 2)), 't': draw(flags)}


def c11_check(case):
    kind, mode, t = case['kind'], case['mode'], Typed(case['t'])
    key = hashlib.shake_256(b'%d' % case['key']).digest(32 if kind in BS else case['n'])
    secrets = [key]
    if kind in BS:
        bs = BS[kind]
        if kind == 'kuznechik':
            secrets += [k.to_bytes(16, 'big') if isinstance(k, int) else bytes(k)
                        for k in ref.Kuznechik(key).keys]
        else:
            secrets.append(b''.join(ref.blocks(key, 4)[::-1]))
        if mode == 'bare':
            obj = BLOCK_CIPHER[kind](t(key))
        else:
            obj = new_cipher(kind, t(key), mode)
        for op, n in case['pre']:
            if mode == 'mac':
                obj.update(bytes(n * 3))
                if op == 'read':
                    obj.digest(bs)
            elif op in ('encrypt', 'decrypt'):
                getattr(obj, op)(bytes(bs if mode == 'bare' else n * bs))
    elif kind == 'hmac':
        secrets += [bytes(b ^ pad for b in key) for pad in (0x36, 0x5c)]
        obj = gosthmac.new(HMAC[64 if case['t'] & 1 else 32], t(key))
        for op, n in case['pre']:
            if op == 'copy':
                obj = obj.copy()
            elif op == 'read':
                obj.digest()
            elif op == 'reset':
                obj.reset()
            else:
                obj.update(bytes(n * 20))
    elif kind == 'pbkdf':
        secrets += [bytes(b ^ pad for b in key) for pad in (0x36, 0x5c)]
        obj = gostpbkdf.new(t(key), salt=b'salt', counter=2)
        for _, n in case['pre']:
            obj.derive(1 + 20 * n)
    else:
        key = key[:32]
        secrets = [key]
        obj = gostrandom.new(48, rand_k=t(key), size_s=32)
        for op, _ in case['pre']:
            if op == 'reset':
                obj.reset(t(key))
            else:
                obj.random()
    before = held([obj], secrets)
    for _ in range(case['clears']):
        obj.clear()
    after = held([obj], secrets)
    where = held(package_values(), secrets)
    require(where is None, 'after clear() of a %s %s object the package still holds %s of its key',
            kind, mode or '', (where or b'').hex())
    require(after is None, 'a cleared %s %s object still holds %s of its key', kind, mode or '',
            (after or b'').hex())
    return before is not None, ['%s %s' % (kind, mode or ''), 'found before clear()' if before else 'not seen']


def c11():
    return Property('C11', [
        SubCheck('residue', c11_check, c11_cases(), 3000, 60000,
                 rule='everything reachable from the object, and what the modules and classes '
                      'of the package hold, is searched for 8 bytes in a row of the key '
                      '(password, seed), of an iteration key or of a padded HMAC key; non-trivial: '
                      'it was found before clear()')],
        ['copies that the interpreter keeps outside the object are not seen'])


# ----------------------------------------------------------------------- C12

BASES = {'plain': ['GOST34132015Cipher'], 'padding': ['GOST34132015CipherPadding'],
         'feedback': ['GOST34132015CipherFeedBack'],
         'both': ['GOST34132015CipherPadding', 'GOST34132015CipherFeedBack']}


def new_mode(kind):
    """A class that defines a mode of its own in the way the documentation describes."""
    try:
        module = __import__('gostcrypto.gostcipher.gost_34_13_2015', fromlist=['new'])
        bases = tuple(getattr(module, name) for name in BASES[kind])
    except (ImportError, AttributeError):
        return None
    first = bases[0]

    class Mode(*bases):
        """Returns what the base class hands it, reversed."""

        def __init__(self, *args):
            if kind == 'both':
                bases[0].__init__(self, args[0], args[1], args[3])
                bases[1].__init__(self, *args[:3])
            else:
                first.__init__(self, *args)

        def encrypt(self, data):
            return bytes(first.encrypt(self, data))[::-1]

        def decrypt(self, data):
            return bytes(first.decrypt(self, data))[::-1]

    return Mode


@st.composite
def c12_cases(draw):
    name, kind = draw(ciphers), draw(st.sampled_from(sorted(BASES)))
    bs = BS[name]
    wrong = ['none', 'none', 'none', 'alg', 'keylen', 'keytype']
    wrong += ['ivlen', 'ivtype'] if kind in ('feedback', 'both') else []
    wrong += ['pad'] if kind in ('padding', 'both') else []
    wrong = draw(st.sampled_from(wrong))
    bad = None
    if wrong == 'alg':
        bad = draw(st.sampled_from(BAD_ALG))
    elif wrong == 'pad':
        bad = draw(st.sampled_from(BAD_PAD))
    elif wrong == 'keylen':
        bad = draw(gen.sized(st.integers(0, 70).filter(lambda n: n != 32)))
    elif wrong == 'ivlen':
        bad = draw(gen.sized(st.integers(0, 5 * bs).filter(lambda n: n == 0 or n % bs)))
    elif wrong in ('keytype', 'ivtype'):
        bad = draw(gen.not_bytes)
    return {'cipher': name, 'kind': kind, 'key': draw(gen.keys32), 'wrong': wrong, 'bad': bad,
            'iv': draw(gen.exact(bs * draw(st.integers(1, 5)))), 'pad': draw(st.sampled_from([1, 2])),
            'ops': [list(o) for o in draw(st.lists(st.tuples(
                st.sampled_from(['encrypt', 'decrypt']),
                st.one_of(gen.sized(gen.near(bs, 4)), gen.sized(gen.near(bs, 4)), gen.not_bytes)),
                max_size=5))],
            'end': draw(st.booleans()), 't': draw(flags)}


def c12_check(case):
    t = Typed(case['t'])
    kind, wrong, bs = case['kind'], case['wrong'], BS[case['cipher']]
    mode = new_mode(kind)
    if mode is None:
        return False, ['not reachable']
    alg, key, iv, pad = case['cipher'], t(case['key']), t(case['iv']), PAD[case['pad']]
    bad = case['bad']
    if wrong == 'alg':
        alg = special(bad)
    elif wrong == 'pad':
        pad = special(bad)
    elif wrong == 'keylen':
        key = t(bad)
    elif wrong == 'keytype':
        key = gen.make_not_bytes(bad)
    elif wrong == 'ivlen':
        iv = t(bad)
    elif wrong == 'ivtype':
        iv = gen.make_not_bytes(bad)
    args = {'plain': (alg, key), 'padding': (alg, key, pad), 'feedback': (alg, key, iv),
            'both': (alg, key, iv, pad)}[kind]
    what = '%s mode of %s' % (kind, case['cipher'])
    if wrong != 'none':
        raises(CipherError, lambda: mode(*args), '%s: %s %r' % (what, wrong, bad), MESSAGE[wrong])
        return True, [kind, wrong]
    obj = mode(*args)
    equal(obj.block_size, bs, what + ': block_size')
    check_oid(obj.oid, *OID[case['cipher']], what=what)
    refused = False
    for way, data in case['ops']:
        if isinstance(data, str):
            raises(CipherError, lambda: getattr(obj, way)(gen.make_not_bytes(data)),  # pylint: disable=cell-var-from-loop
                   '%s: %s %s' % (what, way, data), MESSAGE[way])
            refused = True
            continue
        got = getattr(obj, way)(t(data))[::-1]
        wants = [data]
        if way == 'encrypt' and kind in ('padding', 'both'):
            wants = padded(data, bs, case['pad'])
        if got not in wants:
            same(got, wants[0], '%s: data of %s' % (what, way))
        if kind in ('feedback', 'both'):
            same(obj.iv, case['iv'][-bs:], what + ': iv')
    if case['end']:
        obj.clear()
    return bool(case['ops']), [kind] + ['refused data'] * refused


def c12():
    return Property('C12', [
        SubCheck('subclass', c12_check, c12_cases(), 8000, 150000, destructors=True,
                 rule='classes that define a mode on each of the documented base classes, created with '
                      'valid and invalid parameters and called with valid and invalid data; '
                      'non-trivial: refused parameters, or at least one call')])


PROPS = {'C12': c12, 'C11': c11, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07,
         'C08': c08, 'C09': c09, 'C10': c10}
