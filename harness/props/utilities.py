"""U01, U02: the functions exported by gostcrypto.utils."""
import gc
import os
import sys

from hypothesis import strategies as st

from gostcrypto import utils

from harness import gen
from harness.props.common import Property, SubCheck, Typed, equal, require, same

PACKAGE = os.path.dirname(os.path.dirname(utils.__file__))
flags = st.integers(0, (1 << 24) - 1)


@st.composite
def pairs(draw):
    """Two byte strings: equal, nearly equal, of different lengths or unrelated."""
    a = draw(gen.sized(st.one_of(st.integers(0, 8), st.integers(0, 130))))
    how = draw(st.integers(0, 5))
    b = bytearray(a)
    if how == 1 and a:
        b[draw(st.integers(0, len(a) - 1))] ^= draw(st.integers(1, 255))
    elif how == 2 and a:
        # differences that add up to a multiple of 256, or cancel under xor
        n = len(a)
        step = draw(st.sampled_from([128, 64, 32, 1, 255]))
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=256 // step if step < 200 else 2,
                               unique=True)):
            b[i] ^= step
    elif how == 3:
        b += bytes(draw(st.integers(1, 3)))
    elif how == 4 and a:
        del b[-1]
    elif how == 5:
        b = bytearray(draw(gen.sized(st.integers(0, 70))))
    return a, bytes(b)


def pair_check(case):
    t = Typed(case['t'])
    a, b = case['pair']
    x, y = t(a), t(b)
    equal(utils.compare(x, y), a == b, 'compare')
    equal(utils.compare(y, x), a == b, 'compare, swapped')
    n = min(len(a), len(b))
    same(utils.add_xor(x, y), bytes(p ^ q for p, q in zip(a, b)), 'add_xor')
    equal(utils.compare_to_zero(x), not any(a), 'compare_to_zero')
    same(utils.zero_fill(x), bytes(len(a)), 'zero_fill')
    equal(utils.bytearray_to_int(x), int.from_bytes(a, 'big'), 'bytearray_to_int')
    if a:
        equal(utils.msb(x) != 0, a[0] >= 128, 'msb')
    for size in {0, len(a), len(b), n + 1}:
        equal(utils.check_value(x, size), len(a) == size, 'check_value')
    require(bytes(x) == a and bytes(y) == b, 'an argument changed')
    return len(a) > 0, ['equal' if a == b else 'lengths differ' if len(a) != len(b) else 'differ']


def large_explicit(_tier):
    out = []
    for n in gen.LARGE + tuple(gen.sizes()):
        for at in (0, 1, n // 2, n - 2, n - 1):
            out.append({'n': n, 'at': at, 'fill': n % 2 * 0x5a, 't': at})
    return out


def sums_explicit(tier):
    """Strings whose bytes, or differences, add up to a power of two."""
    out = []
    for power in range(8, 18 if tier == 'quick' else 21):
        for value in (1, 2, 16, 128, 255):
            n = (1 << power) // value
            rest = (1 << power) - n * value
            out.append({'n': n, 'value': value, 'rest': rest, 't': power + value})
    return out


def sums_check(case):
    t = Typed(case['t'])
    delta = bytes([case['value']]) * case['n'] + bytes([case['rest']] if case['rest'] else [])
    base = bytes((i * 7) & 255 for i in range(256)) * (len(delta) // 256 + 1)
    base = base[:len(delta)]
    other = bytes(x ^ y for x, y in zip(base, delta))
    equal(utils.compare(t(base), t(other)), False, 'compare')
    equal(utils.compare(t(other), t(base)), False, 'compare')
    equal(utils.compare(t(delta), t(bytes(len(delta)))), False, 'compare with zeros')
    equal(utils.compare_to_zero(t(delta)), False, 'compare_to_zero')
    return True, ['sum 2^%d' % ((case['n'] * case['value']).bit_length() - (not case['rest']))]


def large_check(case):
    t = Typed(case['t'])
    n, at = case['n'], case['at']
    a = bytes([case['fill']]) * n
    b = a[:at] + bytes([case['fill'] ^ 1 << at % 8]) + a[at + 1:]
    equal(utils.compare(t(a), t(b)), False, 'compare with byte %d of %d changed' % (at, n))
    equal(utils.compare(t(a), t(a)), True, 'compare of %d equal bytes' % n)
    same(utils.add_xor(t(a), t(b)), bytes(at) + bytes([1 << at % 8]) + bytes(n - at - 1), 'add_xor')
    equal(utils.compare_to_zero(t(b)), not any(b), 'compare_to_zero')
    equal(utils.compare_to_zero(t(bytes(n))), True, 'compare_to_zero')
    same(utils.zero_fill(t(b)), bytes(n), 'zero_fill')
    equal(utils.check_value(t(b), n), True, 'check_value')
    equal(utils.check_value(t(b), n - 1), False, 'check_value')
    value = int.from_bytes(b, 'big')
    equal(utils.bytearray_to_int(t(b)) == value, True, 'bytearray_to_int')
    same(utils.int_to_bytearray(value, n), b, 'int_to_bytearray')
    return True, ['%d bytes' % n]


def int_check(case):
    n, size = case['n'], case['size']
    got = utils.int_to_bytearray(n, size)
    same(got, (n % (1 << 8 * size)).to_bytes(size, 'big'), 'int_to_bytearray(%#x, %d)' % (n, size))
    if n < 1 << 8 * size:
        equal(utils.bytearray_to_int(got), n, 'back again')
    return n > 0, ['fits' if n < 1 << 8 * size else 'too large']


def types_check(case):
    value = gen.make_not_bytes(case['bad'])
    equal(utils.check_value(value, case['size']), False, 'check_value of %r' % (value,))
    return True, [case['bad']]


# ----------------------------------------------------------------------- U02

COST = [0]


def first_difference(x, y):
    n = min(len(x), len(y))
    return next((i for i in range(n) if bytes.__getitem__(x, i) != bytes.__getitem__(y, i)), n) + 1


def counting(base):
    """A subclass of bytes or bytearray whose built-in operations report what they look at."""

    class Counting(base):
        __hash__ = bytes.__hash__ if base is bytes else None

        def __iter__(self):
            for value in base.__iter__(self):
                COST[0] += 1
                yield value

        def __getitem__(self, key):
            value = base.__getitem__(self, key)
            COST[0] += 1
            return Counting(value) if isinstance(key, slice) else value

    def comparison(name):
        plain = getattr(base, name)

        def method(self, other):
            if isinstance(other, (bytes, bytearray)) and (
                    len(self) == len(other) or name not in ('__eq__', '__ne__')):
                COST[0] += first_difference(bytes(self), bytes(other))
            return plain(self, other)
        return method

    def search(name, backwards=False):
        plain = getattr(base, name)

        def method(self, *args):
            # up to the first byte that is not zero
            raw = bytes(self)
            COST[0] += len(raw) - len(raw.rstrip(b'\0') if backwards else raw.lstrip(b'\0'))
            return plain(self, *args)
        return method

    for name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
        setattr(Counting, name, comparison(name))
    for name in ('strip', 'lstrip', 'find', 'index', 'split', 'partition', '__contains__'):
        setattr(Counting, name, search(name))
    for name in ('rstrip', 'rfind', 'rindex', 'rsplit', 'rpartition'):
        setattr(Counting, name, search(name, True))
    return Counting


COUNTING = {bytes: counting(bytes), bytearray: counting(bytearray)}


def work(function, *args):
    """(result, amount of work): lines executed and bytes looked at by built-in operations."""
    COST[0] = 0
    value = function(*args)      # also for anything done on the first call only
    args = [COUNTING[type(a)](a) for a in args]
    # bytes() and bytearray() made by the function count, too
    names = function.__globals__
    held = {t.__name__: names[t.__name__] for t in COUNTING if t.__name__ in names}

    def trace(frame, _event, _arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        COST[0] += 1
        return trace

    old = sys.gettrace()
    gc.disable()
    names.update({t.__name__: c for t, c in COUNTING.items()})
    COST[0] = 0
    sys.settrace(trace)
    try:
        function(*args)
    finally:
        sys.settrace(old)
        gc.enable()
        for t in COUNTING:
            del names[t.__name__]
        names.update(held)
    return value, COST[0]


@st.composite
def u02_cases(draw):
    n = draw(st.one_of(st.integers(2, 9), st.sampled_from([32, 64, 65, 128]), st.integers(2, 140)))
    count = draw(st.one_of(st.just(1), st.integers(1, n)))
    diff = [draw(st.integers(1, 255)) for _ in range(min(count, 4))]
    diff = [diff[i % len(diff)] for i in range(count)] + [0] * (n - count)
    return {'a': draw(gen.exact(n)), 'diff': bytes(diff),
            'orders': [draw(st.permutations(range(n))) for _ in range(2)], 't': draw(flags)}


def u02_check(case):
    t = Typed(case['t'])
    a, diff = case['a'], case['diff']
    n = len(a)
    kind = (case['t'] & 1, case['t'] >> 1 & 1)
    kinds = (bytes, bytearray)
    orders = [list(range(n)), list(range(n))[::-1]] + case['orders']
    costs = {}
    for order in orders:
        x = kinds[kind[0]](a[i] for i in order)
        y = kinds[kind[1]](a[i] ^ diff[i] for i in order)
        z = kinds[kind[0]](diff[i] for i in order)
        for what, args in (('compare', (x, y)), ('compare_to_zero', (z,))):
            value, steps = work(getattr(utils, what), *args)
            equal(value, not any(diff), what)
            costs.setdefault(what, []).append(steps)
    for what, steps in costs.items():
        require(len(set(steps)) == 1, '%s took %s steps for the same bytes in different places',
                what, steps)
    return True, ['%d+ bytes' % (n // 32 * 32), 'one difference' if n - diff.count(0) == 1 else 'several']


def u02():
    return Property('U02', [
        SubCheck('positions', u02_check, u02_cases(), 4000, 60000, guided=False,
                 rule='the same pairs of bytes in four orders (differences first, last and two random '
                      'orders): equal amounts of work; all non-trivial')],
        ['work is counted in executed Python lines and calls, bytes taken from a string, and the '
         'bytes up to the first difference for comparisons and searches of whole strings, not in '
         'time'])


def u01():
    ints = st.one_of(st.integers(0, 1 << 520), st.integers(0, 1 << 32),
                     st.tuples(st.integers(0, 520), st.integers(-2, 2)).map(
                         lambda t: max(0, (1 << t[0]) + t[1])))
    return Property('U01', [
        SubCheck('sums', sums_check, explicit=sums_explicit,
                 rule='all bytes (differences) equal, or nearly, and adding up to 2^8 to 2^17 (2^20)'),
        SubCheck('large', large_check, explicit=large_explicit,
                 rule='strings of 4 to 128 KiB with one byte changed'),
        SubCheck('types', types_check,
                 st.fixed_dictionaries({'bad': gen.not_bytes, 'size': st.sampled_from([0, 1, 3, 32, 64])}),
                 300, 3000, rule='values that are not byte strings'),
        SubCheck('ints', int_check, st.fixed_dictionaries(
            {'n': ints, 'size': st.one_of(st.integers(0, 66), st.sampled_from([4, 8, 32, 64]))}),
            8000, 200000, rule='non-trivial: not zero'),
        SubCheck('pairs', pair_check, st.fixed_dictionaries(
            {'pair': pairs().map(list), 't': flags}), 12000, 300000,
            rule='pairs of byte strings that are equal, differ in one or many bytes (differences that '
                 'cancel in sums included) or in length; non-trivial: not empty')])


PROPS = {'U01': u01, 'U02': u02}
