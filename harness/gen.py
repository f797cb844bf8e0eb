"""Strategies shared by the properties.

Cases are JSON-able.  A message is either bytes or, when large,
{'pat': bytes, 'n': length} (the pattern repeated); B() expands it.
"""
import ast
import os

from hypothesis import strategies as st


def B(value):
    """Expand a message descriptor."""
    if isinstance(value, dict):
        pat, n = value['pat'], value['n']
        return (pat * (n // len(pat) + 1))[:n]
    return bytes(value)


def exact(n):
    """bytes of length n: random, constant, sparse or patterned."""
    if n == 0:
        return st.just(b'')
    raw = st.binary(min_size=n, max_size=n)
    fill = st.sampled_from([0x00, 0xff, 0x01, 0x80, 0x7f, 0xfe, 0x55, 0xaa]).map(
        lambda b: bytes([b]) * n)
    one = st.tuples(st.integers(0, n - 1), st.integers(1, 255), st.sampled_from([0, 255])).map(
        lambda t: bytes([t[2]]) * t[0] + bytes([t[2] ^ t[1]]) + bytes([t[2]]) * (n - 1 - t[0]))
    step = st.tuples(st.integers(0, 255), st.sampled_from([1, 2, 3, 7, 16, 17, 255])).map(
        lambda t: bytes((t[0] + t[1] * i) & 255 for i in range(n)))
    return st.one_of(raw, raw, raw, fill, one, step)


def sized(lengths):
    return lengths.flatmap(exact)


def near(unit, max_units, small=0):
    """Lengths around multiples of unit, biased to the boundaries."""
    edge = st.tuples(st.integers(0, max_units), st.integers(-2, 2)).map(
        lambda t: max(0, t[0] * unit + t[1]))
    return st.one_of(edge, edge, st.integers(0, max_units * unit),
                     st.integers(0, small or unit))


def message(unit, max_units):
    return sized(near(unit, max_units))


def big_message(lengths):
    return st.builds(lambda p, n: {'pat': p, 'n': n},
                     st.one_of(st.binary(min_size=1, max_size=70),
                               st.sampled_from([b'\x00', b'\xff', b'\x80', b'\xff' * 64 + b'\x01'])),
                     lengths)


# Sizes at which buffering or chunking by a power of two would show
LARGE = (4099, 8192 + 8, 16384 + 16, 32768 + 40, 65536 + 5, 131072 + 24)

# ... and powers of two themselves
EXACT = (512, 1024, 2048, 4096, 8192, 65536)


def dictionary(limit=1 << 17):
    """Numbers that the sources of the package name, as fuzzers take words from a program.

    They only guide the choice of sizes; a case made from them is judged as any other.
    """
    from harness import core
    found = set()

    def value(node):
        if isinstance(node, ast.Constant) and type(node.value) is int:
            return node.value
        if isinstance(node, ast.BinOp) and type(node.op) in OPERATIONS:
            left, right = value(node.left), value(node.right)
            if left is not None and right is not None and 0 <= right < 1 << 17:
                if not isinstance(node.op, (ast.LShift, ast.Pow)) or right < 20 and left < 1 << 17:
                    return OPERATIONS[type(node.op)](left, right)
        return None

    for folder, _, names in os.walk(os.path.join(core.REPO, 'gostcrypto')):
        for name in names:
            if not name.endswith('.py'):
                continue
            try:
                with open(os.path.join(folder, name), encoding='utf-8') as source:
                    tree = ast.parse(source.read())
            except (OSError, SyntaxError, ValueError):
                continue
            found.update(filter(None, map(value, ast.walk(tree))))
    return sorted(n for n in found if 256 < n <= limit)[:12]


OPERATIONS = {ast.Mult: lambda a, b: a * b, ast.LShift: lambda a, b: a << b,
              ast.Pow: lambda a, b: a ** b, ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b}


def sizes(most=1 << 17):
    """Exact powers of two, and sizes at and around the numbers of the sources."""
    out = set(EXACT)
    for n in within(200000, dictionary()):
        out.update((n - 1, n, n + 1, n + 65))
    return sorted(n for n in out if n <= most)


def counts(most=5000):
    """Numbers of calls, rounds or blocks: the numbers of the sources."""
    return within(6000, [n for n in dictionary() if n <= most])


def within(total, numbers):
    """The first of the numbers, as many as keep the cost of a run bounded."""
    out = []
    for n in numbers:
        if sum(out) + n <= total:
            out.append(n)
    return out


keys32 = exact(32)
cipher_names = st.sampled_from(['kuznechik', 'magma'])
BS = {'kuznechik': 16, 'magma': 8}

# things that are not bytes or bytearray, by a JSON-able tag
NOT_BYTES = ['none', 'int', 'str', 'str32', 'str64', 'list', 'tuple', 'memoryview', 'float', 'dict',
             'bool', 'str0', 'set', 'array']
not_bytes = st.sampled_from(NOT_BYTES)


def make_not_bytes(tag):
    import array
    return {
        'none': None, 'int': 7, 'str': 'abc', 'str32': 'k' * 32, 'str64': 's' * 64, 'str0': '',
        'list': [1] * 32, 'tuple': (0,) * 32, 'memoryview': memoryview(bytes(32)),
        'float': 1.5, 'dict': {}, 'bool': True, 'set': set(),
        'array': array.array('B', bytes(32)),
    }[tag]


def pieces(unit, max_pieces, max_units=3):
    """A list of byte strings: a message cut into pieces of any length."""
    return st.lists(sized(near(unit, max_units, small=4)), max_size=max_pieces)
