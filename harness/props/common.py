"""Access to the code under test through its public interface."""
from hypothesis import strategies as st

import gostcrypto
from gostcrypto import (gostcipher, gosthash, gosthmac, gostoid, gostpbkdf,  # noqa: F401
                        gostrandom, gostsignature)

from harness import entropy
from harness import refgost as ref  # noqa: F401
from harness.core import (KnownFinding, SubCheck, Property, Violation, equal,  # noqa: F401
                          fail, require, same, short)
from harness.gen import B  # noqa: F401

MODE = {
    'ecb': gostcipher.MODE_ECB, 'cbc': gostcipher.MODE_CBC, 'cfb': gostcipher.MODE_CFB,
    'ofb': gostcipher.MODE_OFB, 'ctr': gostcipher.MODE_CTR, 'mac': gostcipher.MODE_MAC,
}
PAD = {1: gostcipher.PAD_MODE_1, 2: gostcipher.PAD_MODE_2}
BLOCK_CIPHER = {'kuznechik': gostcipher.GOST34122015Kuznechik,
                'magma': gostcipher.GOST34122015Magma}
BS = {'kuznechik': 16, 'magma': 8}
STREEBOG = {32: 'streebog256', 64: 'streebog512'}
HMAC = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}

CipherError = gostcipher.GOSTCipherError
HashError = gosthash.GOSTHashError
HMACError = gosthmac.GOSTHMACError
PBKDFError = gostpbkdf.GOSTPBKDFError
RandomError = gostrandom.GOSTRandomError
SignatureError = gostsignature.GOSTSignatureError
OIDError = gostoid.GOSTOIDError


class Typed:
    """Turns byte strings into bytes or bytearray as the bits of `flags` say."""

    def __init__(self, flags):
        self.flags = flags
        self.i = 0

    def __call__(self, raw):
        bit = (self.flags >> (self.i % 24)) & 1
        self.i += 1
        return bytearray(raw) if bit else bytes(raw)


def new_cipher(name, key, mode, iv=None, pad=None, data=None):
    kwargs = {}
    if iv is not None:
        kwargs['init_vect'] = iv
    if pad is not None:
        kwargs['pad_mode'] = PAD[pad]
    if data is not None:
        kwargs['data'] = data
    return gostcipher.new(name, key, MODE[mode], **kwargs)


def default_iv(name, mode):
    return bytes.fromhex(IV_HEX[name, mode])


IV_HEX = {
    ('kuznechik', 'ctr'): '1234567890abcef0',
    ('magma', 'ctr'): '12345678',
}
for _m in ('cbc', 'cfb', 'ofb'):
    IV_HEX['kuznechik', _m] = ('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819')
    IV_HEX['magma', _m] = '1234567890abcdef234567890abcdef1'
IV_HEX['magma', 'cbc'] = '1234567890abcdef234567890abcdef134567890abcdef12'


def raises(exc_class, call, what, message=None):
    """call() must raise exc_class (with str() == message if given)."""
    try:
        result = call()
    except exc_class as exc:
        if message is not None and str(exc) != message:
            fail('%s: message %r, documented %r', what, str(exc), message)
        return exc
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation('%s: raised %s (%s) instead of %s'
                        % (what, type(exc).__name__, exc, exc_class.__name__)) from exc
    return fail('%s: accepted, returned %r', what, result)


def outcome(call):
    """('ok', value) or ('raised', exception class name)."""
    try:
        value = call()
    except Exception as exc:  # pylint: disable=broad-except
        return 'raised', type(exc).__name__
    if isinstance(value, bytearray):
        value = bytes(value)
    return 'ok', value


class Urandom:
    """Stands in for os.urandom: hands out scripted values, then a counter stream."""

    def __init__(self, values=()):
        self.values = [bytes(v) for v in values]
        self.served = []
        self.n = 0

    def __call__(self, size):
        value = None
        if self.values:
            value = self.values.pop(0)
            if len(value) != size:
                value = None
        if value is None:
            self.n += 1
            value = ref.streebog(b'urandom %d' % self.n, 64)
            while len(value) < size:
                value += ref.streebog(value, 64)
            value = value[:size]
        self.served.append(value)
        return value

    def patch(self):
        return entropy.scripted(self)


KINDS = ['flip', 'far', 'head', 'tail', 'reverse', 'halves', 'swap', 'zero']
LENGTH_KINDS = ['grow', 'lead', 'shrink', 'cut']


def changed(raw, kind, n):
    """A value close to raw; of another length only for the LENGTH_KINDS."""
    size = len(raw)
    if kind == 'grow':
        return raw + b'\0'
    if kind == 'lead':
        return b'\0' + raw
    if kind == 'shrink':
        return raw[:-1]
    if kind == 'cut':
        return raw[1:]
    out = bytearray(raw)
    if not size:
        return bytes(raw)
    if kind == 'flip':
        out[n // 8 % size] ^= 1 << n % 8
    elif kind == 'far':
        out[-1 - n % min(size, 4)] ^= 1 + n % 255
    elif kind == 'head':
        out[:size // 2] = bytes(b ^ (1 + n % 255) for b in out[:size // 2])
    elif kind == 'tail':
        out[size // 2:] = bytes(b ^ (1 + n % 255) for b in out[size // 2:])
    elif kind == 'reverse':
        out.reverse()
    elif kind == 'halves':
        out = out[size // 2:] + out[:size // 2]
    elif kind == 'swap':
        i, j = n % size, n // size % size
        out[i], out[j] = out[j], out[i]
    elif kind == 'zero':
        out[:] = bytes(size)
    return bytes(out)


def neighbours(check, cases, fields, quick, thorough, valid=None, steps=(1, 3), **kwargs):
    """The check on a case and on cases close to it, one after the other in one process.

    fields: names of byte strings of the case; 'name+' may change its length too.
    valid(case): False for changed cases outside the domain.  What one call computes must not
    show in the next: a value kept under part of what it depends on does.
    """
    @st.composite
    def related(draw):
        out = {'base': draw(cases), 'changes': []}
        for _ in range(draw(st.integers(*steps))):
            field = draw(st.sampled_from(fields))
            kinds = KINDS + LENGTH_KINDS if field.endswith('+') else KINDS
            out['changes'].append([field.rstrip('+'), draw(st.sampled_from(kinds)),
                                   draw(st.integers(0, 4095))])
        return out

    def run(case):
        base = case['base']
        check(base)
        differ, labels = False, set()
        for field, kind, n in case['changes']:
            if base.get(field) is None:
                continue
            raw = B(base[field])
            new = dict(base)
            new[field] = changed(raw, kind, n)
            if new[field] == raw or valid is not None and not valid(new):
                continue
            check(new)
            differ = True
            labels.add('%s %s' % (field, kind))
        check(base)
        return differ, sorted(labels)

    return SubCheck('neighbours', run, related(), quick, thorough,
                    rule='a case, then 1-3 that differ from it in one of %s, then the case again, '
                         'in one process; non-trivial: at least one differs'
                         % ', '.join(f.rstrip('+') for f in fields), **kwargs)


def echoed(case, op):
    """The case with a part of one byte string copied into another (or itself)."""
    source, target, how, at, length = op
    grows = target.endswith('+')
    raw, out = case.get(source.rstrip('+')), case.get(target.rstrip('+'))
    if raw is None or out is None:
        return None
    raw, out = B(raw), B(out)
    piece = {'whole': raw, 'head': raw[:length], 'tail': raw[-length:], 'reverse': raw[::-1],
             'complement': bytes(b ^ 255 for b in raw), 'half': raw[:len(raw) // 2],
             'second': raw[len(raw) // 2:]}[how]
    if grows and at == 63:
        new = piece
    elif grows and at == 62:
        new = out + piece
    else:
        n = 0 if at == 61 else max(0, len(out) - len(piece)) if at == 60 else 8 * at % (len(out) + 1)
        new = out[:n] + piece + out[n + len(piece):]
        if not grows or at % 2:
            new = new[:len(out)]
    if new == out or len(new) > 4096:
        return None
    return dict(case, **{target.rstrip('+'): new})


def echoes(check, cases, fields, quick, thorough, valid=None, **kwargs):
    """The check on cases in which byte strings share parts: a block of the message is the vector
    or half of the key, the salt is the password, a block is repeated.

    fields: as in neighbours().
    """
    op = st.tuples(st.sampled_from(fields), st.sampled_from(fields),
                   st.sampled_from(['whole', 'whole', 'head', 'tail', 'reverse', 'complement',
                                    'half', 'second']),
                   st.one_of(st.integers(0, 63), st.sampled_from([0, 1, 2, 60, 61, 62, 63])),
                   st.sampled_from([1, 2, 4, 8, 8, 16, 16, 32])).map(list)
    combined = st.fixed_dictionaries({'base': cases, 'ops': st.lists(op, min_size=1, max_size=3)})

    def run(case):
        now, labels = case['base'], set()
        for item in case['ops']:
            new = echoed(now, item)
            if new is not None and (valid is None or valid(new)):
                now = new
                labels.add('%s in %s' % (item[0].rstrip('+'), item[1].rstrip('+')))
        check(now)
        return bool(labels), sorted(labels)

    return SubCheck('echoes', run, combined, quick, thorough,
                    rule='a case in which part of one of %s is copied into another or to another '
                         'place; non-trivial: it changed' % ', '.join(
                             f.rstrip('+') for f in fields), **kwargs)
