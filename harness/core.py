"""Engine: runs the sub-checks of a property in forked workers.

A sub-check is a Hypothesis strategy producing JSON-able cases plus a function
`check(case)` that returns (nontrivial, labels) or raises Violation.  Each
shard of a sub-check runs in its own forked process, so that module state
left behind by one shard cannot affect another.  A failing case is shrunk by
Hypothesis and written as JSON; `run.py replay FILE` runs check(case) on it
without Hypothesis.
"""
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get('GOST_REPO', '/repo')
CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'child.py')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = max(1, min(8, os.cpu_count() or 1))
SHRINK_SECONDS = 40
WALL_LIMIT = 780
# cases of the coverage-guided search: one for this many random ones, but at least so many; none
# in the quick tier for sub-checks of few (slow) cases; not less than so many per shard
GUIDED = {'quick': 6, 'thorough': 6}
GUIDED_LEAST = 200
GUIDED_SLOW = 150
GUIDED_SHARD = 50


class Violation(Exception):
    """The property does not hold for the case."""


class KnownFinding(Exception):
    """Raised by a check when the failure is exactly a listed finding."""


class Hang(Violation):
    """A call used its whole CPU budget."""


def fail(message, *args):
    raise Violation(message % args if args else message)


def same(got, want, what):
    """got must be a byte string equal to want."""
    if not isinstance(got, (bytes, bytearray)):
        raise Violation('%s: expected bytes, got %r' % (what, got))
    if bytes(got) != bytes(want):
        raise Violation('%s: got %s, expected %s'
                        % (what, short(got), short(want)))


def equal(got, want, what):
    if type(got) is not type(want) or got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def short(raw):
    text = bytes(raw).hex()
    if len(text) > 200:
        text = text[:96] + '...(%d bytes)...' % len(raw) + text[-64:]
    return text


def require(cond, message, *args):
    if not cond:
        fail(message, *args)


# ------------------------------------------------------------ case encoding

def encode(value):
    if isinstance(value, (bytes, bytearray)):
        return {'$b': bytes(value).hex()}
    if isinstance(value, dict):
        return {k: encode(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [encode(v) for v in value]
    if value is None or isinstance(value, (bool, int, str)):
        return value
    raise TypeError('case value %r' % (value,))


def decode(value):
    if isinstance(value, dict):
        if set(value) == {'$b'}:
            return bytes.fromhex(value['$b'])
        return {k: decode(v) for k, v in value.items()}
    if isinstance(value, list):
        return [decode(v) for v in value]
    return value


def dumps(case):
    return json.dumps(encode(case), sort_keys=True)


class SubCheck:
    """name, strategy (or None), check, case counts per tier.

    explicit: callable tier -> list of cases run besides the generated ones.
    budget: CPU seconds one case may use before it counts as not terminating
    (above 100: in the quick tier only, the thorough tier has larger cases); shards: processes the generated cases are split over.
    destructors: an exception in a destructor during the case is a violation.
    guided: also run a coverage-guided search (harness/guided.py).
    """

    def __init__(self, name, check, strategy=None, quick=0, thorough=0,
                 explicit=None, budget=40, shards=8, rule='', destructors=False,
                 guided=True):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.explicit = explicit
        self.budget = budget
        self.shards = shards
        self.rule = rule
        self.destructors = destructors
        self.guided = guided


class Property:
    def __init__(self, id, subchecks, assumptions=(), rule=''):
        self.id = id
        self.subchecks = subchecks
        self.assumptions = list(assumptions)
        self.rule = rule


# ------------------------------------------------------------------ running

TIER = {'name': 'quick'}
SLOWER = {'factor': 1}


def _on_alarm(_sig, _frame):
    raise Hang('the call did not terminate within its CPU budget')


def run_case(sub, case):
    """Run sub.check(case); returns (nontrivial, labels); raises Violation."""
    lost = []
    if sub.destructors:
        # leftovers of the case before are not this case's
        gc.collect(1)
        sys.unraisablehook = lambda args: lost.append(
            (getattr(args.object, '__qualname__', repr(args.object)), args.exc_value))
    budget = sub.budget if sub.budget <= 100 or TIER['name'] == 'quick' else 0
    if budget:
        signal.signal(signal.SIGVTALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, budget * SLOWER['factor'])
    try:
        try:
            result = sub.check(case)
        finally:
            if budget:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except (Violation, KnownFinding):
        raise
    except MemoryError:
        raise
    except RecursionError as exc:
        raise Violation('unexpected RecursionError: %s' % exc)
    except Exception as exc:  # pylint: disable=broad-except
        inner = traceback.extract_tb(exc.__traceback__)[-1].filename
        if '/hypothesis/' in inner:
            raise
        raise Violation('unexpected %s: %s (at %s)' % (
            type(exc).__name__, exc, _where(exc))) from exc
    finally:
        if sub.destructors:
            gc.collect(1)
            sys.unraisablehook = sys.__unraisablehook__
    if lost:
        raise Violation('%s raised %s: %s' % (lost[0][0], type(lost[0][1]).__name__, lost[0][1]))
    if result is None:
        result = (True, [])
    return result


def in_fork(check, case):
    """check(case) in a child process: module state starts as it is here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = None
        try:
            os.close(r)
            try:
                out = ('ok', check(case))
            except Violation as exc:
                out = ('violation', str(exc))
            except Exception as exc:  # pylint: disable=broad-except
                out = ('violation', 'unexpected %s: %s (at %s)' % (
                    type(exc).__name__, exc, _where(exc)))
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    try:
        blob = b''
        limit = time.monotonic() + 150
        while True:
            if not select.select([r], [], [], max(0, limit - time.monotonic()))[0]:
                raise Hang('the case did not end')
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            blob += chunk
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not blob:
        raise RuntimeError('a child process ended without a result')
    how, value = pickle.loads(blob)
    if how == 'violation':
        raise Violation(value)
    return value


def _where(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(frames):
        if '/gostcrypto/' in fr.filename:
            return '%s:%s' % (fr.filename.split('/gostcrypto/', 1)[1], fr.name)
    return '%s:%s' % (os.path.basename(frames[-1].filename), frames[-1].lineno)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.all_hashes = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.slowest = 0.0

    def add(self, case_json, nontrivial, labels):
        self.evaluations += 1
        h = hashlib.blake2b(case_json.encode(), digest_size=8).digest()
        self.all_hashes.add(h)
        if nontrivial:
            if h not in self.hashes and len(self.samples) < 3:
                self.samples.append(case_json)
            self.hashes.add(h)
        for lab in set(labels):
            self.labels[lab] = self.labels.get(lab, 0) + 1


class _Outcome(Exception):
    pass


def fails_alone(sub, failure):
    """Does the case fail in a fresh fork of this process?"""
    if failure['hang'] and sub.budget > 60:
        return True
    case_json = failure['case']
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            run_case(sub, decode(json.loads(case_json)))
        except KnownFinding:
            code = 0
        except Violation:
            code = 1
        except BaseException:  # pylint: disable=broad-except
            code = 2
        os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status) == 1


def _shard(prop, sub, kind, payload, seed, conn_w):
    """Runs in the forked child; writes a pickled result to conn_w."""
    stats = Stats()
    failure = None
    error = None
    state = {'best': None, 'best_msg': None, 'best_json': None, 'first': None,
             'hang': False}

    def evaluate(case):
        case_json = dumps(case)
        case = decode(json.loads(case_json))
        now = time.monotonic()
        if state['first'] is not None and now - state['first'] > SHRINK_SECONDS \
                and case_json != state['best_json']:
            return
        if state['hang']:
            # what does not terminate is not shrunk
            if case_json == state['best_json']:
                raise Violation(state['best_msg'])
            return
        cpu = time.process_time()
        try:
            nontrivial, labels = run_case(sub, case)
            stats.slowest = max(stats.slowest, time.process_time() - cpu)
        except KnownFinding as exc:
            stats.known[str(exc)] = stats.known.get(str(exc), 0) + 1
            stats.add(case_json, True, ['known-finding'])
            return
        except Violation as exc:
            if state['first'] is None:
                state['first'] = time.monotonic()
            state['hang'] = isinstance(exc, Hang)
            state['best'], state['best_msg'], state['best_json'] = \
                case, str(exc), case_json
            if state.get('small') is None or len(case_json) <= len(state['small'][0]):
                state['small'] = (case_json, str(exc))
            raise
        stats.add(case_json, nontrivial, labels)

    try:
        if kind == 'explicit':
            for case in payload:
                evaluate(case)
        elif kind == 'guided':
            found, stats = _guided(sub, payload, seed)
            if found:
                _confirm(sub, found, evaluate, state)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            @hypothesis.seed(seed)
            @settings(max_examples=payload, database=None, deadline=None,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink],
                      report_multiple_bugs=False, print_blob=False)
            @given(sub.strategy)
            def search(case):
                evaluate(case)

            search()
    except Violation:
        failure = {'case': state['best_json'], 'message': state['best_msg'],
                   'flaky': False}
    except BaseException as exc:  # pylint: disable=broad-except
        if state.get('small') is not None:
            # Hypothesis could not reproduce it (state carried between cases)
            # or the case was stopped while shrinking
            failure = {'case': state['small'][0], 'message': state['small'][1],
                       'flaky': True}
        else:
            error = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    if failure is not None:
        failure['seed'] = seed
        failure['hang'] = state['hang']
        failure['kind'] = kind
        failure['count'] = len(payload) if kind == 'explicit' else payload
    blob = pickle.dumps({'sub': sub.name, 'stats': stats, 'failure': failure,
                         'error': error})
    with os.fdopen(conn_w, 'wb') as out:
        out.write(blob)


def _guided(sub, count, seed):
    """The guided search, in a child process: ((choices, cases so far) or None, stats)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            from harness import guided
            stats, history, found, error = Stats(), [], None, None

            def execute(case):
                case_json = dumps(case)
                history.append(case_json)
                cpu = time.process_time()
                try:
                    nontrivial, labels = run_case(sub, decode(json.loads(case_json)))
                except KnownFinding as exc:
                    stats.known[str(exc)] = stats.known.get(str(exc), 0) + 1
                    nontrivial, labels = True, ['known-finding']
                stats.slowest = max(stats.slowest, time.process_time() - cpu)
                stats.add(case_json, nontrivial, labels)

            SLOWER['factor'] = 5
            try:
                kept, features = guided.search(sub.strategy, count, seed, execute)
                stats.labels['guided: inputs kept'] = kept
                stats.labels['guided: features'] = features
            except Violation as exc:
                found = exc.choices, history
            except BaseException as exc:  # pylint: disable=broad-except
                error = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps((found, stats, error)))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        blob = f.read()
    os.waitpid(pid, 0)
    if not blob:
        raise RuntimeError('a guided search ended without a result')
    found, stats, error = pickle.loads(blob)
    if error:
        raise RuntimeError(error)
    return found, stats


def _confirm(sub, found, evaluate, state):
    """Run what a guided search reports on the original code; shrink it if it fails there."""
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.control import BuildContext
    from hypothesis.internal.conjecture.engine import ConjectureRunner, RunIsComplete
    choices, history = found
    alone = {'case': history[-1], 'hang': False}
    if fails_alone(sub, alone):
        import random
        from hypothesis.internal.escalation import InterestingOrigin
        origin = InterestingOrigin(Violation, None, None, (), ())

        def test(data):
            with BuildContext(data, is_final=False, wrapped_test=None):
                case = data.draw(sub.strategy)
            try:
                evaluate(case)
            except Violation:
                data.mark_interesting(origin)

        runner = ConjectureRunner(test, random=random.Random(0), settings=settings(
            max_examples=10000, database=None, deadline=None, phases=[Phase.shrink],
            suppress_health_check=list(HealthCheck)))
        try:
            runner.cached_test_function(tuple(choices))
            runner.shrink_interesting_test_cases()
        except RunIsComplete:
            pass
        small = state.get('small')
        if small is not None:
            state['best_json'], state['best_msg'] = small
            raise Violation(small[1])
    for case_json in history:
        evaluate(decode(json.loads(case_json)))


def _tasks(prop, tier, seed):
    explicit, generated = [], []
    for sub in prop.subchecks:
        if sub.explicit is not None:
            cases = list(sub.explicit(tier))
            n = min(sub.shards, len(cases))
            for i in range(n):
                explicit.append((sub, 'explicit', cases[i::n], 0))
        total = sub.quick if tier == 'quick' else sub.thorough
        if sub.strategy is not None and total:
            n = max(1, min(sub.shards, total))
            for i in range(n):
                count = total // n + (1 if i < total % n else 0)
                text = '%s/%s/%d/%d' % (prop.id, sub.name, i, seed)
                s = int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')
                generated.append((sub, 'generate', count, s))
        if sub.strategy is not None and sub.guided and total >= GUIDED_SLOW:
            total = max(total // GUIDED[tier], GUIDED_LEAST)
            n = min(sub.shards, total // GUIDED_SHARD)
            for i in range(n):
                text = '%s/%s/guided/%d/%d' % (prop.id, sub.name, i, seed)
                s = int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')
                generated.append((sub, 'guided', total // n, s))
    return explicit + generated


def run_property(prop, tier, seed):
    """Returns (stats by sub, failures, errors, skipped)."""
    TIER['name'] = tier
    tasks = _tasks(prop, tier, seed)
    tasks.reverse()
    started = time.monotonic()
    running = {}
    merged = {sub.name: Stats() for sub in prop.subchecks}
    failures, errors, skipped = [], [], 0
    wall = WALL_LIMIT if tier == 'quick' else None
    sys.stdout.flush()
    sys.stderr.flush()
    stop_at = None
    while tasks or running:
        if wall and time.monotonic() - started > wall and tasks:
            skipped += len(tasks)
            tasks = []
        while tasks and len(running) < WORKERS and not failures:
            sub, kind, payload, s = tasks.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    _shard(prop, sub, kind, payload, s, w)
                except BaseException:  # pylint: disable=broad-except
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            os.close(w)
            running[r] = (pid, sub, b'')
        if failures:
            tasks = []
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            pid, sub, buf = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                running[r] = (pid, sub, buf + chunk)
                continue
            os.close(r)
            _, status = os.waitpid(pid, 0)
            del running[r]
            if not buf:
                errors.append('%s: worker ended without a result (status %d)'
                              % (sub.name, status))
                continue
            res = pickle.loads(buf)
            st, part = merged[sub.name], res['stats']
            st.evaluations += part.evaluations
            st.hashes |= part.hashes
            st.all_hashes |= part.all_hashes
            for k, v in part.labels.items():
                st.labels[k] = st.labels.get(k, 0) + v
            for k, v in part.known.items():
                st.known[k] = st.known.get(k, 0) + v
            st.slowest = max(st.slowest, part.slowest)
            st.samples = (st.samples + part.samples)[:4]
            if res['failure']:
                failures.append((sub, res['failure']))
                if stop_at is None:
                    stop_at = time.monotonic() + 5
            if res['error']:
                errors.append('%s: %s' % (sub.name, res['error']))
        over = wall and time.monotonic() - started > wall + 60
        if (stop_at and time.monotonic() > stop_at) or (over and failures):
            for r, (pid, _sub, _buf) in list(running.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
        elif over:
            # inconclusive: drop what is still running
            for r, (pid, _sub, _buf) in list(running.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                skipped += 1
    return merged, failures, errors, skipped, time.monotonic() - started
