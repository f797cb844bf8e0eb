"""O01-O02 (object identifiers)."""
from hypothesis import strategies as st

from harness.props.common import (BLOCK_CIPHER, MODE, OIDError, Property, SubCheck, equal, fail,
                                  gostcipher, gosthash, gosthmac, gostoid, gostsignature, raises,
                                  ref, require, same)

OID = gostoid.ObjectIdentifier
MAX_DIGITS = 4000      # CPython refuses int() of more than 4300 digits

# arcs around every power of 2^7, where the number of base-128 digits changes
_edge = st.tuples(st.integers(0, 12), st.integers(-2, 2)).map(
    lambda t: max(0, (1 << (7 * t[0])) + t[1]))
_bits = st.integers(0, 200).flatmap(lambda n: st.integers(0, (1 << n)))
_sparse = st.tuples(st.integers(0, 120), st.integers(0, 120)).map(
    lambda t: (1 << t[0]) | (1 << t[1]))
_digits = st.lists(st.sampled_from([0, 1, 0x40, 0x7f, 0x2a]), min_size=1, max_size=24).map(
    lambda ds: sum(d << (7 * i) for i, d in enumerate(ds)))
arc = st.one_of(st.integers(0, 300), _edge, _edge, _bits, _sparse, _digits,
                st.sampled_from([643, 840, 113549, 127, 128, 16383, 16384, 2097151, 2097152,
                                 (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1,
                                 1 << 63, (1 << 64) - 1, 1 << 64, 1 << 128]))


@st.composite
def arcs(draw):
    first = draw(st.integers(0, 2))
    second = draw(st.integers(0, 39)) if first < 2 else draw(
        st.one_of(arc, st.sampled_from([0, 39, 40, 47, 48, 79, 80, 127, 128, 175, 176, 999])))
    return [first, second] + draw(st.lists(arc, max_size=draw(st.sampled_from([0, 1, 3, 8, 30]))))


def expand(case):
    """A case is the list of arcs, or [arcs, [arc, times]...] for a long one."""
    out = []
    for item in case:
        if isinstance(item, list):
            out += [item[0]] * item[1]
        elif isinstance(item, str):            # 2^n + d
            n, d = item.split()
            out.append((1 << int(n)) + int(d))
        else:
            out.append(item)
    return tuple(out)


def o01_check(case):
    values = expand(case)
    text = '.'.join(str(v) for v in values)
    what = 'OID %s' % (text if len(text) < 120 else text[:120] + '...')
    oid = OID(text)
    equal(str(oid), text, what + ' str')
    equal(oid.digit, values, what + ' digit')
    want = ref.oid_der(values)
    got = oid.octet
    same(got, want, what + ' octet')
    require(ref.oid_parse(got) == values, '%s: octet %r decodes to another OID', what, got)
    same(oid.octet, want, what + ' octet read again')
    equal(str(oid), text, what + ' str at the end')
    body = len(want)
    return len(values) > 2, [
        'body %s' % ('<128' if body < 130 else '<256' if want[1] == 0x81 else '<65536'
                     if want[1] == 0x82 else '>=65536'),
        'largest arc %s' % ('<2^7' if max(values) < 128 else '<2^32' if max(values) < 1 << 32
                            else '<2^64' if max(values) < 1 << 64 else '>=2^64'),
        'first arc %d' % values[0], '%s arcs' % (len(values) if len(values) < 4 else '>3')]


def o01_explicit(tier):
    out = []
    # every value 0..2^14+300 as an arc, 256 per OID; every second arc below 40
    step = 256
    for lo in range(0, (1 << 14) + 300, step):
        out.append([2, lo] + list(range(lo, lo + step)))
    for first in (0, 1):
        out += [[first, second] for second in range(40)]
        out += [[first, second, 1 << 7, (1 << 14) - 1] for second in range(40)]
    out += [[2, v] for v in range(0, 400)]
    # 2^(7n) - 1, 2^(7n), 2^(8n) for huge n
    for n in list(range(1, 60)) + [100, 150, 1000, 1849]:
        for unit in (7, 8):
            out.append([2, '%d -1' % (unit * n), '%d 0' % (unit * n), '%d 1' % (unit * n)]
                       if unit * n < 3.2 * MAX_DIGITS else [1, 2, '%d 0' % (7 * n)])
    # body lengths around the forms of the length octets
    for n in (125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 511, 512, 513,
              65533, 65534, 65535, 65536, 65537):
        out.append([1, 2, [1, n - 1]])
        out.append([2, 999, [(1 << 14) - 1, (n - 2) // 2], [5, (n - 2) % 2]])
    if tier == 'thorough':
        out.append([2, 5, [127, (1 << 24) - 2]])
        out.append([2, 5, [127, (1 << 24) - 1]])
        out += [[2, v] for v in range(400, 40000)]
        for lo in range(1 << 14, 1 << 22, 4096):
            out.append([2, lo] + list(range(lo, lo + 4096)))
    return out


@st.composite
def pair_cases(draw):
    """Two OIDs that differ slightly: their encodings must differ."""
    a = draw(arcs())
    b = list(a)
    how = draw(st.integers(0, 5))
    if how == 0:
        b = draw(arcs())
    elif how == 1:
        b.append(draw(st.sampled_from([0, 1, 128])))
    elif how == 2 and len(b) > 2:
        i = draw(st.integers(2, len(b) - 1))
        b[i] = draw(st.sampled_from([b[i] + 1, b[i] << 7, b[i] >> 7, b[i] ^ 0x80, b[i] + 128]))
    elif how == 3 and len(b) > 3:
        i = draw(st.integers(2, len(b) - 2))
        b[i:i + 2] = [(b[i] << 7) | b[i + 1]]
    elif how == 4 and len(b) > 2:
        i = draw(st.integers(2, len(b) - 1))
        b[i:i + 1] = [b[i] >> 7, b[i] & 127]
    else:
        b[0] = (b[0] + 1) % 3
        if b[0] < 2:
            b[1] %= 40
        elif draw(st.booleans()):
            b[1] += 40
    return [a, b]


def pair_check(case):
    a, b = (OID('.'.join(map(str, v))) for v in case)
    one, two = bytes(a.octet), bytes(b.octet)
    require((one == two) == (case[0] == case[1]), 'OIDs %s and %s: encodings %s and %s',
            a, b, one.hex(), two.hex())
    require(list(ref.oid_parse(one)) == case[0], 'OID %s decodes to another', a)
    require(list(ref.oid_parse(two)) == case[1], 'OID %s decodes to another', b)
    return case[0] != case[1], []


def o01():
    return Property('O01', [
        SubCheck('encode', o01_check, arcs(), 30000, 1500000, o01_explicit,
                 rule='every arc 0..2^14+300 and every (0|1).x and 2.0-2.399 enumerated, arcs around '
                      'powers of 2^7 and 2^8, bodies around 127/128, 255/256 and 65535/65536 bytes, '
                      'generated OIDs of 2-32 arcs up to 2^200; non-trivial: more than two arcs'),
        SubCheck('distinct', pair_check, pair_cases(), 8000, 300000,
                 rule='pairs of related OIDs (arc split, merged, shifted, first arc changed); '
                      'non-trivial: the two differ')],
        assumptions=['an arc has at most %d decimal digits (the limit of int() in CPython is 4300)'
                     % MAX_DIGITS])


# ----------------------------------------------------------------------- O02

NAMES = {
    '1.2.643.7.1': 'id-tc26',
    '1.2.643.7.1.0': 'modules',
    '1.2.643.7.1.0.1': 'gostR3410-2012-ParamSetSyntax',
    '1.2.643.7.1.0.2': 'gostR3410-2012-PKISyntax',
    '1.2.643.7.1.0.3': 'gostR3410-2012-SignatureSyntax',
    '1.2.643.7.1.0.4': 'gostR3410-2012-EncryptionSyntax',
    '1.2.643.7.1.0.5': 'pkcs-12ruSyntax',
    '1.2.643.7.1.1': 'id-tc26-algorithms',
    '1.2.643.7.1.1.1': 'id-tc26-sign',
    '1.2.643.7.1.1.1.1': 'id-tc26-gost3410-12-256',
    '1.2.643.7.1.1.1.2': 'id-tc26-gost3410-12-512',
    '1.2.643.7.1.1.2': 'id-tc26-digest',
    '1.2.643.7.1.1.2.2': 'id-tc26-gost3411-12-256',
    '1.2.643.7.1.1.2.3': 'id-tc26-gost3411-12-512',
    '1.2.643.7.1.1.3': 'id-tc26-signwithdigest',
    '1.2.643.7.1.1.3.2': 'id-tc26-signwithdigest-gost3410-12-256',
    '1.2.643.7.1.1.3.3': 'id-tc26-signwithdigest-gost3410-12-512',
    '1.2.643.7.1.1.4': 'id-tc26-mac',
    '1.2.643.7.1.1.4.1': 'id-tc26-hmac-gost-3411-12-256',
    '1.2.643.7.1.1.4.2': 'id-tc26-hmac-gost-3411-12-512',
    '1.2.643.7.1.1.5': 'id-tc26-cipher',
    '1.2.643.7.1.1.5.1': 'id-tc26-cipher-gostr3412-2015-magma',
    '1.2.643.7.1.1.5.1.1': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm',
    '1.2.643.7.1.1.5.1.2': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm-omac',
    '1.2.643.7.1.1.5.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.5.2.1': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm',
    '1.2.643.7.1.1.5.2.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm-omac',
    '1.2.643.7.1.1.6': 'id-tc26-agreement',
    '1.2.643.7.1.1.6.1': 'id-tc26-agreement-gost-3410-12-256',
    '1.2.643.7.1.1.6.2': 'id-tc26-agreement-gost-3410-12-512',
    '1.2.643.7.1.1.7': 'id-tc26-wrap',
    '1.2.643.7.1.1.7.1': 'id-tc26-wrap-gostr3412-2015-magma',
    '1.2.643.7.1.1.7.1.1': 'id-tc26-wrap-gostr3412-2015-magma-kexp15',
    '1.2.643.7.1.1.7.2': 'id-tc26-wrap-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.7.2.1': 'id-tc26-wrap-gostr3412-2015-kuznyechik-kexp15',
    '1.2.643.7.1.2': 'id-tc26-constants',
    '1.2.643.7.1.2.1': 'id-tc26-sign-constants',
    '1.2.643.7.1.2.1.1': 'id-tc26-gost-3410-12-256-constants',
    '1.2.643.7.1.2.1.1.1': 'id-tc26-gost-3410-12-256-paramSetA',
    '1.2.643.7.1.2.1.1.2': 'id-tc26-gost-3410-12-256-paramSetB',
    '1.2.643.7.1.2.1.1.3': 'id-tc26-gost-3410-12-256-paramSetC',
    '1.2.643.7.1.2.1.1.4': 'id-tc26-gost-3410-12-256-paramSetD',
    '1.2.643.7.1.2.1.2': 'id-tc26-gost-3410-12-512-constants',
    '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
    '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
    '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
    '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
    '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
    '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
    '1.2.643.7.1.2.5.1.1': 'id-tc26-gost-28147-param-Z',
}

INVALID = 'invalid OID value'
FIRST = 'invalid first SID value'
SECOND = 'invalid second SID value'

_num = st.one_of(st.integers(0, 200), arc).map(str)
# never accepted by int(): no digit at all, or a character that is not part of a number
_bad_arc = st.one_of(
    st.sampled_from(['', 'a', 'x1', '1x', '0x10', '1e3', '1,5', '--1', '+-1', '-', '+', '_1', '1_',
                     '1__2', 'None', '1\x00', '\x00', '1;2', 'one', '1/2', '*', '1 2', '²', 'Ⅳ', '½']),
    st.text(alphabet='abcxyz,:;/#%-', min_size=1, max_size=5),
    st.tuples(_num, st.sampled_from(list('abg,;:/x%')), _num).map(''.join))
_negative = st.integers(1, 1 << 70).map(lambda n: '-%d' % n)


@st.composite
def o02_cases(draw):
    """[text, where the error is: 'digit' or 'octet', message]"""
    kind = draw(st.sampled_from(['bad', 'negative', 'single', 'first', 'second', 'dots', 'empty']))
    tail = draw(st.lists(_num, max_size=6))
    head = ['2', draw(_num)] if draw(st.booleans()) else [
        draw(st.sampled_from(['0', '1'])), str(draw(st.integers(0, 39)))]
    good = head + tail
    if kind in ('bad', 'negative'):
        i = draw(st.integers(0, len(good)))
        if kind == 'bad':
            # any arc, inserted or replaced
            good[i:i + draw(st.integers(0, 1))] = [draw(_bad_arc)]
        else:
            good[i:i + draw(st.integers(0, 1))] = [draw(_negative)]
        return ['.'.join(good), 'digit', kind]
    if kind == 'single':
        return [draw(_num), 'octet', kind]
    if kind == 'first':
        return ['.'.join([str(draw(st.one_of(st.integers(3, 10), arc.filter(lambda v: v > 2))))]
                         + [str(draw(st.one_of(st.integers(0, 60), arc)))] + tail), 'octet', kind]
    if kind == 'second':
        return ['.'.join([draw(st.sampled_from(['0', '1'])), str(draw(st.one_of(
            st.integers(40, 300), st.integers(40, 48), arc.filter(lambda v: v > 39))))] + tail),
                'octet', kind]
    if kind == 'dots':
        text = '.'.join(good)
        i = draw(st.sampled_from([0, len(text)] + [j for j, c in enumerate(text) if c == '.']))
        return [text[:i] + '.' * draw(st.integers(1, 3)) + text[i:], 'digit', kind]
    return [draw(st.sampled_from(['', '.', '..', '...', ' ', '\n', 'oid', '1.2.643.7.1.1.2.2.'])),
            'digit', kind]


_MESSAGES = {'bad': (INVALID,), 'negative': (INVALID,), 'dots': (INVALID,), 'empty': (INVALID,),
             'single': (INVALID, SECOND, FIRST), 'first': (FIRST,), 'second': (SECOND,)}


def o02_check(case):
    text, where, kind = case
    oid = OID(text)
    messages = _MESSAGES[kind]
    what = 'OID %r' % text
    for _ in range(2):
        exc = raises(OIDError, lambda: oid.octet, what + ' octet')
        require(str(exc) in messages, '%s octet: message %r, documented %r', what, str(exc),
                messages)
        if where == 'digit':
            exc = raises(OIDError, lambda: oid.digit, what + ' digit')
            require(str(exc) in messages, '%s digit: message %r, documented %r', what, str(exc),
                    messages)
        else:
            # in range or not, the arcs are numbers: digit may return them
            try:
                equal(oid.digit, tuple(int(v) for v in text.split('.')), what + ' digit')
            except OIDError:
                pass
    equal(oid.name, '', what + ' name')
    equal(str(oid), text, what + ' str')
    # an unrelated OID is not affected
    same(OID('1.2.643.7.1.1.2.2').octet, bytes.fromhex('06082a85030701010202'), 'another OID')
    return True, [kind]


def o02_explicit(tier):
    out = []
    for first in range(3, 260):
        out.append(['%d.5.1' % first, 'octet', 'first'])
    for second in range(40, 300):
        for first in (0, 1):
            out.append(['%d.%d' % (first, second), 'octet', 'second'])
            out.append(['%d.%d.7' % (first, second), 'octet', 'second'])
    out += [[str(n), 'octet', 'single'] for n in range(200)]
    base = '1.2.643.7'.split('.')
    for i in range(len(base) + 1):
        for bad in ('', 'b', '1x', 'x'):
            out.append(['.'.join(base[:i] + [bad] + base[i:]), 'digit', 'bad'])
        for neg in ('-1', '-128', '-2'):
            out.append(['.'.join(base[:i] + [neg] + base[i:]), 'digit', 'negative'])
    return out


@st.composite
def name_cases(draw):
    """OIDs near a registered one."""
    text = draw(st.sampled_from(sorted(NAMES)))
    how = draw(st.integers(0, 4))
    parts = text.split('.')
    if how == 1:
        parts.append(str(draw(st.integers(0, 5))))
    elif how == 2:
        parts.pop()
    elif how == 3:
        i = draw(st.integers(2, len(parts) - 1))
        parts[i] = str(draw(st.integers(0, 9)))
    elif how == 4:
        return '.'.join(map(str, draw(arcs())))
    return '.'.join(parts)


def name_check(case):
    oid = OID(case)
    want = NAMES.get(case, '')
    equal(oid.name, want, 'name of %s' % case)
    same(oid.octet, ref.oid_der(tuple(int(v) for v in case.split('.'))), 'octet of %s' % case)
    return True, ['registered' if want else 'unregistered']


def name_explicit(tier):
    # the registered ones and all neighbours
    out = list(NAMES)
    for text in NAMES:
        out += [text + '.%d' % i for i in range(8)]
        out.append(text.rsplit('.', 1)[0])
    return sorted(set(out))


def table_check(case):
    table = gostoid.OBJECT_IDENTIFIER_TC26 if hasattr(gostoid, 'OBJECT_IDENTIFIER_TC26') else None
    if table is None:
        from gostcrypto.gostoid import oid as module
        table = module.OBJECT_IDENTIFIER_TC26
    require(dict(table) == NAMES, 'OBJECT_IDENTIFIER_TC26 differs: %r',
            sorted(set(table.items()) ^ set(NAMES.items())))
    for text, name in table.items():
        require(name.isascii() and name.strip() == name and name, 'name %r of %s', name, text)
    require(len(set(table.values())) == len(table), 'a name is used twice')
    return True, ['table']


ALGORITHMS = {
    'streebog256': '1.2.643.7.1.1.2.2', 'streebog512': '1.2.643.7.1.1.2.3',
    'HMAC_GOSTR3411_2012_256': '1.2.643.7.1.1.4.1', 'HMAC_GOSTR3411_2012_512': '1.2.643.7.1.1.4.2',
    'magma': '1.2.643.7.1.1.5.1', 'kuznechik': '1.2.643.7.1.1.5.2',
    'sign256': '1.2.643.7.1.1.1.1', 'sign512': '1.2.643.7.1.1.1.2',
}


def make_algorithm(kind):
    """An object of the algorithm; kind is a name, or name/mode for a cipher."""
    name, _, extra = kind.partition('/')
    if name.startswith('streebog'):
        return gosthash.new(name, data=b'abc')
    if name.startswith('HMAC'):
        return gosthmac.new(name, bytearray(32), data=b'abc')
    if name.startswith('sign'):
        mode = gostsignature.MODE_256 if name == 'sign256' else gostsignature.MODE_512
        return gostsignature.new(mode, gostsignature.CURVES_R_1323565_1_024_2019[extra])
    if extra == 'bare':
        return BLOCK_CIPHER[name](bytearray(range(32)))
    return gostcipher.new(name, bytearray(range(32)), MODE[extra])


def algorithm_check(case):
    """The oid of objects made one after another, read when all exist."""
    objs = [make_algorithm(kind) for kind in case['kinds']]
    for rnd in range(2):
        for kind, obj in zip(case['kinds'], objs):
            dotted = ALGORITHMS[kind.partition('/')[0]]
            oid = obj.oid
            equal(str(oid), dotted, 'oid of %s' % kind)
            equal(oid.name, NAMES[dotted], 'oid.name of %s' % kind)
            arcs_ = tuple(int(v) for v in dotted.split('.'))
            equal(oid.digit, arcs_, 'oid.digit of %s' % kind)
            same(oid.octet, ref.oid_der(arcs_), 'oid.octet of %s' % kind)
        if rnd == 0:
            for kind, obj in zip(case['kinds'], objs):
                if case['use']:
                    use(kind, obj)
    return len(case['kinds']) > 1, [k.partition('/')[0] for k in case['kinds']]


def use(kind, obj):
    name, _, extra = kind.partition('/')
    if name.startswith(('streebog', 'HMAC')):
        obj.update(b'x' * 70)
        obj.digest()
        obj.reset()
    elif not name.startswith('sign') and extra not in ('bare', 'mac'):
        obj.encrypt(bytearray(16))
        obj.clear()


SIGN256 = [n for n in ref.CURVES if '256' in n]
SIGN512 = [n for n in ref.CURVES if '512' in n]
KINDS = (['streebog256', 'streebog512', 'HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512']
         + ['%s/%s' % (c, m) for c in ('kuznechik', 'magma')
            for m in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'mac', 'bare')]
         + ['sign256/' + n for n in SIGN256] + ['sign512/' + n for n in SIGN512])

algorithm_cases = st.fixed_dictionaries({
    'kinds': st.lists(st.sampled_from([k for k in KINDS if not k.startswith('sign512')]),
                      min_size=2, max_size=5), 'use': st.booleans()})


def algorithm_explicit(tier):
    return ([{'kinds': [k], 'use': False} for k in KINDS]
            + [{'kinds': KINDS, 'use': True}, {'kinds': KINDS[::-1], 'use': True}])


def o02():
    return Property('O02', [
        SubCheck('table', table_check, explicit=lambda tier: [0],
                 rule='the whole name table against a copy of the registry'),
        SubCheck('objects', algorithm_check, algorithm_cases, 300, 8000, algorithm_explicit,
                 rule='oid attributes of objects of every algorithm and mode, alone and together; '
                      'non-trivial: two or more objects'),
        SubCheck('names', name_check, name_cases(), 3000, 60000, name_explicit,
                 rule='registered OIDs and their neighbours'),
        SubCheck('malformed', o02_check, o02_cases(), 16000, 400000, o02_explicit,
                 rule='empty, non-numeric and negative arcs at every position, single arcs, first '
                      'arcs above 2, second arcs above 39')],
        assumptions=['what int() accepts besides plain decimal digits (blanks around an arc, '
                     'underscores between digits, a leading plus, other scripts) is left open'])


PROPS = {'O01': o01, 'O02': o02}
