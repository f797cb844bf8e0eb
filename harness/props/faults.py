"""F01: a failing random source of the operating system."""
import errno

from hypothesis import strategies as st

from harness import curves, gen
from harness.entropy import scripted
from harness.props.common import (Property, SubCheck, fail, gostpbkdf, gostrandom, gostsignature,
                                  ref, require, same)

ERRORS = {'oserror': lambda: OSError(errno.EIO, 'no entropy'),
          'missing': lambda: NotImplementedError('no random source'),
          'blocking': lambda: BlockingIOError(errno.EAGAIN, 'not ready'),
          'permission': lambda: PermissionError(errno.EPERM, 'not allowed'),
          'absent': lambda: FileNotFoundError(errno.ENOENT, '/dev/urandom'),
          'interrupted': lambda: InterruptedError(errno.EINTR, 'interrupted'),
          'runtime': lambda: RuntimeError('source broken')}


class Source:
    """Gives the values, then fails for good (or, without an error, goes on with a stream)."""

    def __init__(self, values, error=None):
        self.values, self.error = list(values), error
        self.failed = self.n = 0
        self.served = []

    def __call__(self, size):
        if self.values:
            value = self.values.pop(0)(size)
        elif self.error:
            self.failed += 1
            raise ERRORS[self.error]()
        else:
            self.n += 1
            value = (ref.streebog(b'source %d' % self.n, 64) * (1 + size // 64))[:size]
        self.served.append(value)
        return value


def attempt(call, source):
    """The result of call(), or None if it raised."""
    with scripted(source):
        try:
            return call()
        except Exception:  # pylint: disable=broad-except
            if not source.failed:
                raise
            return None


def run(case):
    name = case['set']
    cv = curves.ref_curve([name, 1, 1])
    size = 64 if name in curves.NAMES[512] else 32
    signer = gostsignature.new(gostsignature.MODE_512 if size == 64 else gostsignature.MODE_256,
                               curves.canonical([name, 1, 1]))
    d = int.from_bytes(case['key'], 'big') % (cv.q - 1) + 1
    private = d.to_bytes(size, 'big')
    seed = case['key'][:32] if any(case['key'][:32]) else b'\x01' * 32
    rand, model = gostrandom.new(case['out'], rand_k=seed, size_s=32), ref.Drbg(seed)
    salt = b'the salt'
    pbkdf = gostpbkdf.new(case['key'][:20], salt=salt, counter=2)
    unusable = {'zero': bytes, 'top': lambda n: b'\xff' * n,
                'q': lambda n: cv.q.to_bytes(n, 'big')}
    labels, hit = set(), False
    for i, (kind, before, error) in enumerate(case['steps']):
        what = 'step %d, %s' % (i, kind)
        source = Source([unusable[b] for b in before] if kind == 'sign' else [], error)
        if kind == 'sign':
            digest = (case['key'] + bytes([i]) * 64)[-size:]
            got = attempt(lambda: signer.sign(private, digest), source)
            if got is not None and not source.failed:
                require(source.served, '%s: nothing taken from the system', what)
                k = int.from_bytes(source.served[-1], 'big')
                r, s = ref.sign_rs(cv, d, digest, k % cv.q)
                same(got, r.to_bytes(size, 'big') + s.to_bytes(size, 'big'), what)
        elif kind == 'sign-k':
            k = (d + i) % (cv.q - 1) + 1
            r, s = ref.sign_rs(cv, d, private, k)
            if r and s:
                same(signer.sign(private, private, k.to_bytes(size, 'big')),
                     r.to_bytes(size, 'big') + s.to_bytes(size, 'big'), what)
            continue
        elif kind == 'pbkdf':
            got = attempt(lambda: gostpbkdf.new(case['key'][:20], counter=1), source)
            if got is not None and not source.failed:
                same(got.salt, source.served[-1], what + ': salt')
                same(got.derive(20), ref.pbkdf(case['key'][:20], source.served[-1], 1, 20), what)
            same(pbkdf.derive(33), ref.pbkdf(case['key'][:20], salt, 2, 33), what + ': other object')
        elif kind == 'random':
            got = attempt(lambda: gostrandom.new(40, size_s=48), source)
            if got is not None and not source.failed:
                same(got.random(), ref.Drbg(source.served[-1]).random(40), what)
        elif kind == 'reset':
            # reset() returns None: a mark tells that it returned
            got = attempt(lambda: [rand.reset()], source)
            if got is not None and not source.failed:
                model = ref.Drbg(source.served[-1])
            same(rand.random(), model.random(case['out']), what + ': random() afterwards')
        if source.failed:
            hit = True
            labels.add('%s: %s' % (kind, error))
            if got is not None:
                fail('%s: the random source failed (%s), but the call gave a result', what, error)
    return hit, sorted(labels)


@st.composite
def cases(draw, sets):
    error = st.one_of(st.none(), st.sampled_from(sorted(ERRORS)), st.sampled_from(sorted(ERRORS)))
    unusable = st.lists(st.sampled_from(['zero', 'top', 'q']), max_size=4)
    cheap = st.tuples(st.sampled_from(['pbkdf', 'random', 'reset']), st.just([]), error)
    signs = st.tuples(st.sampled_from(['sign', 'sign', 'sign-k']), unusable, error)
    steps = draw(st.lists(cheap if not sets else st.one_of(cheap, signs, signs), min_size=1,
                          max_size=8 if not sets else 4))
    return {'set': draw(st.sampled_from(sets or curves.NAMES[256][:2])),
            'key': draw(gen.exact(64)), 'out': draw(st.sampled_from([1, 32, 64, 65])),
            'steps': [list(s) for s in steps]}


def explicit(_tier):
    out = []
    for name in curves.BUILTIN:
        for kind in ('sign', 'pbkdf', 'random', 'reset'):
            for before in ([], ['zero', 'q']) if kind == 'sign' else ([],):
                out.append({'set': name, 'key': bytes(range(64)), 'out': 32, 'steps': [
                    [kind, before, error] for error in sorted(ERRORS)[len(out) % 3::3]
                    + [None]] + [['reset', [], None]]})
    return out


def f01():
    return Property('F01', [
        SubCheck('salts', run, cases(None), 600, 30000, destructors=True,
                 rule='histories of PBKDF objects without a salt, generators without a seed and '
                      'resets, the random source failing in some calls; non-trivial: it failed'),
        SubCheck('signatures', run, cases(curves.NAMES[256] + curves.NAMES[512]), 60, 3000,
                 explicit, destructors=True,
                 rule='the same with signatures, the source failing at once or after values that '
                      'are not usable; non-trivial: it failed')])


PROPS = {'F01': f01}
