"""Coverage-guided search over the choices of a Hypothesis strategy.

A fuzzer in the manner of AFL and libFuzzer's value profile, but deterministic (a function of the
code and the seed, no clock) and structured: what is mutated is the sequence of typed choices from
which the strategy builds a case, so every mutant is a valid case of the sub-check, and the oracle
is the sub-check itself.

Feedback comes from the functions of gostcrypto, whose code objects are replaced, in the process
of the search only, by ones compiled from the same source with calls at each decision: outcomes of
tests, iterations of loops, and how near the operands of a comparison came to each other (their
values also feed the mutations, as in CmpLog or Redqueen).  A failure counts only when the case,
or the sequence of cases so far, fails on the original code objects.
"""
import ast
import builtins
import gc
import operator
import random
import sys
import types

from hypothesis.control import BuildContext
from hypothesis.errors import StopTest, UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import ConjectureData, Status

OPERATORS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
             ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
             ast.In: lambda left, right: left in right,
             ast.NotIn: lambda left, right: left not in right}
NAMES = {'gostv_test', 'gostv_compare'}


class Feedback:
    """What one execution did; features are small tuples."""

    def __init__(self):
        self.counts = {}
        self.near = set()
        self.words = {}
        self.per_site = {}
        self.pairs = {}
        self.outcomes = {}

    def start(self):
        self.counts = {}
        self.near = set()
        self.pairs = {}

    def features(self):
        out = set(self.near)
        for key, n in self.counts.items():
            out.add((key, n.bit_length()))
        return out

    def test(self, site, value):
        key = site, bool(value)
        self.counts[key] = self.counts.get(key, 0) + 1
        return value

    def compare(self, site, op, left, right):
        result = op(left, right)
        seen = self.outcomes.setdefault(site, set())
        if len(seen) < 2:
            seen.add(bool(result))
        kind = type(left)
        if kind is int and type(right) is int:
            self.near.add((site, '-', min(abs(left - right).bit_length(), 600)))
            if left >= 0 and right >= 0:
                self.near.add((site, '^', min((left ^ right).bit_count(), 64)))
            self.word(site, left, right)
            self.pair(site, left, right)
        elif kind in (bytes, bytearray, str) and type(right) in (bytes, bytearray, str):
            if kind is str and type(right) is not str:
                return result
            n = 0
            for x, y in zip(left[:64], right[:64]):
                if x != y:
                    break
                n += 1
            self.near.add((site, 'p', n))
            self.near.add((site, 'l', min(abs(len(left) - len(right)), 64)))
            self.word(site, left, right)
            self.pair(site, left, right)
        elif type(right) in (tuple, list, set, frozenset) and kind in (int, bytes, bytearray, str) \
                and len(right) <= 16:
            for value in right:
                if type(value) is kind:
                    self.pair(site, left, value)
        return result

    def pair(self, site, left, right):
        found = self.pairs.setdefault(site, [])
        if len(found) < 6 and left != right and (left, right) not in found:
            found.append((left, right))

    def open_pairs(self, pairs):
        """Operands at comparisons that have so far always had the same outcome."""
        return [pair for site, found in pairs.items() if len(self.outcomes[site]) < 2
                for pair in found]

    def word(self, site, left, right):
        for value in (left, right):
            if self.per_site.get(site, 0) < 4:
                if type(value) is bytearray:
                    value = bytes(value)
                if type(value) is not int and not 0 < len(value) <= 64:
                    continue
                if type(value) is int and not 1 < value < 1 << 520:
                    continue
                if value not in self.words:
                    self.words[value] = True
                    self.per_site[site] = self.per_site.get(site, 0) + 1


class Instrument(ast.NodeTransformer):
    def __init__(self, site):
        self.site = site
        self.ops = {}

    def _next(self):
        self.site += 1
        return self.site

    def _test(self, node):
        return ast.copy_location(ast.Call(
            ast.Name('gostv_test', ast.Load()), [ast.Constant(self._next()), node], []), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or type(node.ops[0]) not in OPERATORS:
            return node
        return ast.copy_location(ast.Call(
            ast.Name('gostv_compare', ast.Load()),
            [ast.Constant(self._next()), ast.Constant(type(node.ops[0]).__name__),
             node.left, node.comparators[0]], []), node)

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self._test(node.test)
        return node

    visit_While = visit_IfExp = visit_If

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        node.values = [self._test(v) for v in node.values]
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(
            ast.Expr(self._test(ast.copy_location(ast.Constant(True), node))), node))
        return node


def _codes(code, out):
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            out[const.co_qualname, const.co_firstlineno] = const
            _codes(const, out)


class Instrumented:
    """Context in which the functions of gostcrypto report to `feedback`."""

    def __init__(self, feedback):
        self.feedback = feedback
        self.replaced = []

    def __enter__(self):
        by_file = {}
        site = 0
        for name, module in sorted(sys.modules.items()):
            path = getattr(module, '__file__', None)
            if name.split('.')[0] != 'gostcrypto' or not path or not path.endswith('.py'):
                continue
            transformer = Instrument(site)
            found = {}
            try:
                with open(path, encoding='utf-8') as source:
                    tree = ast.parse(source.read())
                tree = ast.fix_missing_locations(transformer.visit(tree))
                _codes(compile(tree, path, 'exec'), found)
            except Exception:  # this module then gives no feedback
                continue
            site = transformer.site
            by_file[path] = found
        names = {kind.__name__: op for kind, op in OPERATORS.items()}
        feedback = self.feedback
        builtins.gostv_test = feedback.test
        builtins.gostv_compare = lambda site, op, left, right: feedback.compare(
            site, names[op], left, right)
        for obj in gc.get_objects():
            if type(obj) is not types.FunctionType or obj.__code__.co_filename not in by_file:
                continue
            old = obj.__code__
            new = by_file[old.co_filename].get((old.co_qualname, old.co_firstlineno))
            if new is None or new.co_freevars != old.co_freevars \
                    or new.co_varnames[:new.co_argcount] != old.co_varnames[:old.co_argcount]:
                continue
            try:
                obj.__code__ = new
            except ValueError:
                continue
            self.replaced.append((obj, old))
        return self

    def __exit__(self, *_exc):
        for obj, old in self.replaced:
            obj.__code__ = old
        self.replaced = []
        for name in NAMES:
            delattr(builtins, name)


# --------------------------------------------------------------- mutations

def _integer(rng, node, words):
    low, high = node.constraints.get('min_value'), node.constraints.get('max_value')
    value = node.value
    how = rng.randrange(6)
    if how == 0 and low is not None and high is not None:
        value = rng.randint(low, high)
    elif how == 1:
        value += rng.choice([-1, 1, -2, 2, 8, -8, 16, -16])
    elif how == 2:
        value ^= 1 << rng.randrange(max(1, value.bit_length() + 1))
    elif how == 3 and words:
        word = rng.choice(words)
        if type(word) is int:
            value = word + rng.choice([-1, 0, 0, 0, 1])
        elif type(word) is bytes:
            value = len(word)
    elif how == 4:
        value = rng.choice([n for n in (low, high, 0, 1) if n is not None])
    else:
        value = value * 2 if rng.random() < .5 else value // 2
    if low is not None:
        value = max(low, value)
    if high is not None:
        value = min(high, value)
    return value


def _bytes(rng, node, words, pool):
    least = node.constraints.get('min_size', 0)
    most = node.constraints.get('max_size')
    most = min(most if most is not None else 1 << 12, max(4096, least))
    value = bytearray(node.value)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        how = rng.randrange(8)
        n = len(value)
        if how == 0 and n:
            value[rng.randrange(n)] ^= 1 << rng.randrange(8)
        elif how == 1 and n:
            value[rng.randrange(n)] = rng.choice([0, 255, 128, 1, rng.randrange(256)])
        elif how == 2 and n:
            i = rng.randrange(n)
            value[i] = (value[i] + rng.choice([-1, 1])) & 255
        elif how == 3 and words:
            word = rng.choice(words)
            if type(word) is int:
                word = word.to_bytes(max(1, (word.bit_length() + 7) // 8),
                                     rng.choice(['big', 'little']))
            elif type(word) is str:
                word = word.encode('utf-8', 'replace')
            i = rng.choice([0, max(0, n - len(word)), rng.randrange(n + 1)])
            value[i:i + len(word)] = word
        elif how == 4 and pool:
            other = rng.choice(pool)
            i = rng.randrange(n + 1)
            j = rng.randrange(len(other) + 1)
            m = rng.randrange(1, 33)
            value[i:i + m] = other[j:j + m]
        elif how == 5 and n:
            i = rng.randrange(n)
            m = rng.choice([1, 1, 2, 8, 16])
            value[i:i + m] = bytes([rng.choice([0, 255])]) * len(value[i:i + m])
        elif how == 6:
            i = rng.randrange(n + 1)
            value[i:i] = bytes(rng.choice([1, 2, 8, 16, 64]))
        elif n:
            i = rng.randrange(n)
            del value[i:i + rng.choice([1, 1, 2, 8, 16])]
    if len(value) < least:
        value += bytes(least - len(value))
    return bytes(value[:most])


def _forms(value):
    if type(value) is not int:
        return [value.encode('utf-8', 'replace') if type(value) is str else bytes(value)]
    if value < 0 or value >= 1 << 520:
        return []
    n = max(1, (value.bit_length() + 7) // 8)
    out = [value.to_bytes(n, 'big'), value.to_bytes(n, 'little')]
    for size in (4, 8, 16, 32, 64):
        if n < size:
            out += [value.to_bytes(size, 'big'), value.to_bytes(size, 'little')]
    return out


def substitute(rng, nodes, left, right):
    """Choices in which an occurrence of `left` (value or length) is replaced by `right`."""
    places = []
    for i, node in enumerate(nodes):
        if node.type == 'integer' and type(left) is int:
            for value in {left: right, left - 1: right - 1, left + 1: right + 1}.items():
                if node.value == value[0]:
                    places.append((i, None, value[1]))
        elif node.type == 'bytes':
            if type(left) is int and left == len(node.value) and 0 <= right <= 1 << 14:
                places.append((i, None, (node.value * (right // max(1, left) + 1))[:right]
                               if left else bytes(right)))
            for old, new in zip(_forms(left), _forms(right)):
                if not old:
                    continue
                at = node.value.find(old)
                while at >= 0 and len(places) < 400:
                    places.append((i, at, node.value[:at] + new + node.value[at + len(old):]))
                    at = node.value.find(old, at + 1)
    if not places:
        return None
    i, _, value = rng.choice(places)
    node = nodes[i]
    if node.type == 'bytes':
        least = node.constraints.get('min_size', 0)
        most = node.constraints.get('max_size')
        value = bytes(value) + bytes(max(0, least - len(value)))
        value = value if most is None else value[:most]
    else:
        low, high = node.constraints.get('min_value'), node.constraints.get('max_value')
        if low is not None and value < low or high is not None and value > high:
            return None
    out = [n.value for n in nodes]
    out[i] = value
    return out


def mutate(rng, nodes, corpus, words, pairs):
    """A new choice sequence; after its end the strategy draws at random."""
    if pairs and rng.random() < .4:
        left, right = rng.choice(pairs)
        if rng.random() < .3:
            left, right = right, left
        if type(right) is int and rng.random() < .2:
            right += rng.choice([-1, 1])
        out = substitute(rng, nodes, left, right)
        if out is not None:
            return out
    nodes = list(nodes)
    choices = [node.value for node in nodes]
    pool = [node.value for node in nodes if node.type == 'bytes' and node.value]
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not choices:
            break
        how = rng.randrange(10)
        i = rng.randrange(len(choices))
        if how == 0:
            return choices[:i]
        if how == 1 and len(choices) > 1:
            n = rng.choice([1, 2, 3, 4, 8])
            del choices[i:i + n], nodes[i:i + n]
        elif how == 2:
            n = rng.choice([1, 2, 3, 4, 8])
            choices[i:i] = choices[i:i + n]
            nodes[i:i] = nodes[i:i + n]
        elif how == 3 and corpus:
            other = rng.choice(corpus)[0]
            j = rng.randrange(len(other) + 1)
            return choices[:i] + [node.value for node in other[j:]]
        else:
            node = nodes[i]
            if node.type == 'integer':
                choices[i] = _integer(rng, node, words)
            elif node.type == 'bytes':
                choices[i] = _bytes(rng, node, words, pool)
            elif node.type == 'boolean':
                choices[i] = not node.value
            elif node.type == 'string' and words and rng.random() < .5:
                texts = [w for w in words if type(w) is str]
                if texts:
                    choices[i] = rng.choice(texts)
            else:
                return choices[:i]
    return choices


def draw(strategy, choices, rng):
    """(case, nodes) of the strategy for the choices, or None."""
    data = ConjectureData(random=rng, prefix=tuple(choices))
    try:
        with BuildContext(data, is_final=False, wrapped_test=None):
            case = data.draw(strategy)
    except (StopTest, UnsatisfiedAssumption):
        return None
    if data.status is Status.INVALID:
        return None
    data.freeze()
    return case, data.nodes


def search(strategy, count, seed, execute):
    """Run execute(case) on `count` cases; it raises on a failure.

    Returns (inputs kept, features seen); an exception of execute() carries the search's
    `choices` for shrinking.
    """
    rng = random.Random(seed)
    feedback = Feedback()
    seen, corpus = set(), []
    done = 0
    rejected = 0
    with Instrumented(feedback):
        while done < count and rejected < count + 100:
            words = list(feedback.words)
            if len(corpus) < 4 or rng.random() < .06:
                choices = []
            else:
                # half of the time one of the newest
                pick = corpus[-1 - rng.randrange(min(8, len(corpus)))] \
                    if rng.random() < .5 else rng.choice(corpus)
                choices = mutate(rng, pick[0], corpus, words, feedback.open_pairs(pick[1]))
            drawn = draw(strategy, choices, random.Random(rng.getrandbits(64)))
            if drawn is None:
                rejected += 1
                continue
            case, nodes = drawn
            done += 1
            feedback.start()
            try:
                execute(case)
            except Exception as exc:
                exc.choices = [node.value for node in nodes]
                raise
            new = feedback.features() - seen
            if new:
                seen |= new
                corpus.append((nodes, feedback.pairs))
    return len(corpus), len(seen)
