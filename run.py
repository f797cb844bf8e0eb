#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough] | replay FILE | list | selftest"""
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/usr/local/bin/python3-vt'


def bootstrap():
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}
    if any(os.environ.get(k) != v for k, v in want.items()) \
            or os.environ.get('GOSTV_BOOT') != '1':
        env = dict(os.environ, GOSTV_BOOT='1', **want)
        for name in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP'):
            env.pop(name, None)
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)
    # a directory that is never written to: no .pyc of /repo is ever used
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'gostv-no-pyc-%d' % os.getpid())
    sys.path[:0] = [HERE]


def known_findings():
    path = os.path.join(HERE, 'known_findings.txt')
    out = {}
    with open(path, encoding='utf-8') as f:
        for line in f:
            line = line.strip()
            if line.startswith('finding: '):
                head, text = line[len('finding: '):].split(' | ', 1)
                pid, key = head.split()
                out[pid.split('=', 1)[1], key.split('=', 1)[1]] = text
    return out


def load_target(core):
    from harness import entropy
    entropy.install()
    sys.path.insert(0, core.REPO)
    import gostcrypto
    if not os.path.realpath(gostcrypto.__file__).startswith(
            os.path.realpath(core.REPO) + os.sep):
        raise SystemExit('gostcrypto comes from %s' % gostcrypto.__file__)


def cmd_check(argv):
    from harness import core
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        raise SystemExit('tier?')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        load_target(core)
        from harness import props
        prop = props.get(pid)
    except Exception as exc:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        print('ERROR: cannot load: %s' % exc)
        return 2
    merged, failures, errors, skipped, wall = core.run_property(prop, tier, seed)
    findings = known_findings()
    known_seen = {}
    for st in merged.values():
        for key, n in st.known.items():
            known_seen[key] = known_seen.get(key, 0) + n
    unlisted = [k for k in known_seen if (pid, k) not in findings]
    if unlisted:
        errors.append('findings %s are not listed in known_findings.txt' % unlisted)
    evaluations = sum(s.evaluations for s in merged.values())
    distinct = sum(len(s.hashes) for s in merged.values())
    samples = []
    for name, st in merged.items():
        for raw in st.samples[:2]:
            samples.append({'subcheck': name,
                            'case': raw if len(raw) < 1500 else raw[:1500] + '...'})
    rules = [prop.rule] if prop.rule else []
    for sub in prop.subchecks:
        if sub.rule:
            rules.append('%s: %s' % (sub.name, sub.rule))
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': distinct,
            'rule': ' | '.join(rules),
            'samples': samples,
            'subchecks': {
                name: {'evaluations': st.evaluations,
                       'distinct': len(st.all_hashes),
                       'distinct_nontrivial': len(st.hashes),
                       'slowest_case_cpu_s': round(st.slowest, 3),
                       'classes': dict(sorted(st.labels.items()))}
                for name, st in merged.items()},
            'shards_not_run': skipped,
            'known_finding_hits': known_seen,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s' % (
        pid, tier, seed, evaluations, distinct, wall,
        ', %d shards not run' % skipped if skipped else ''))
    for name, st in merged.items():
        print('  %s: %d cases %s' % (name, st.evaluations, dict(sorted(st.labels.items()))))
    for (p, key), text in findings.items():
        if p == pid and key in known_seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    for err in errors:
        print('ERROR: ' + err)
    if failures:
        # this process has run no case: does the case fail on its own?
        failures.sort(key=lambda f: len(f[1]['case']))
        for sub, failure in failures:
            failure['flaky'] = not core.fails_alone(sub, failure)
            if not failure['flaky']:
                break
        sub, failure = min(failures, key=lambda f: (f[1]['flaky'] is not False, len(f[1]['case'])))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        rpath = os.path.join(HERE, 'replays', '%s.json' % pid)
        with open(rpath, 'w', encoding='utf-8') as f:
            json.dump({'property': pid, 'subcheck': sub.name,
                       'message': failure['message'],
                       'depends_on_earlier_cases': failure['flaky'],
                       'shard': {'kind': failure['kind'], 'seed': failure['seed'],
                                 'count': failure['count'], 'tier': tier},
                       'case': json.loads(failure['case'])}, f, indent=1)
            f.write('\n')
        print('%s: %s' % (sub.name, failure['message']))
        print('VIOLATION property=%s replay=%s' % (pid, rpath))
        return 1
    return 2 if errors else 0


def cmd_replay(argv):
    from harness import core
    load_target(core)
    from harness import props
    with open(argv[0], encoding='utf-8') as f:
        rep = json.load(f)
    prop = props.get(rep['property'])
    sub = next(s for s in prop.subchecks if s.name == rep['subcheck'])
    try:
        core.run_case(sub, core.decode(rep['case']))
    except core.KnownFinding as exc:
        print('known finding: %s' % exc)
        return 0
    except core.Violation as exc:
        print('%s: %s' % (sub.name, exc))
        print('VIOLATION property=%s replay=%s' % (rep['property'], argv[0]))
        return 1
    if rep.get('depends_on_earlier_cases'):
        # replay the whole shard in this process, as the check ran it
        r, w = os.pipe()
        shard = rep['shard']
        payload = shard['count']
        if shard['kind'] == 'explicit':
            payload = list(sub.explicit(shard['tier']))
        if os.fork() == 0:
            os.close(r)
            core._shard(prop, sub, shard['kind'], payload, shard['seed'], w)
            os._exit(0)
        os.close(w)
        import pickle
        with os.fdopen(r, 'rb') as src:
            res = pickle.loads(src.read())
        os.wait()
        if res['failure']:
            print('%s: %s' % (sub.name, res['failure']['message']))
            print('VIOLATION property=%s replay=%s' % (rep['property'], argv[0]))
            return 1
    print('the case passes')
    return 0


def main():
    bootstrap()
    cmd = sys.argv[1] if len(sys.argv) > 1 else ''
    if cmd == 'check':
        return cmd_check(sys.argv[2:])
    if cmd == 'replay':
        return cmd_replay(sys.argv[2:])
    if cmd == 'selftest':
        from harness import selftest
        selftest.main()
        return 0
    if cmd == 'list':
        from harness import core
        load_target(core)
        from harness import props
        print(' '.join(sorted(props.all_ids())))
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
