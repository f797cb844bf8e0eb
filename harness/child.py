"""Runs cases in an interpreter started with other flags; see I06 in props/cross.py.

Reads a job from standard input and writes {'failed': index, 'message': text} or {'ran': n}.
"""
import gc
import json
import os
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def work(job, out):
    from harness import core, props
    known = {}
    subs = {}
    for i, (pid, name, case) in enumerate(job['cases']):
        if pid not in known:
            known[pid] = props.get(pid)
        sub = subs.setdefault((pid, name), next(s for s in known[pid].subchecks if s.name == name))
        sub.budget = 0
        try:
            core.run_case(sub, core.decode(case))
        except core.KnownFinding:
            pass
        except core.Violation as exc:
            out.update(failed=i, message=str(exc))
            return
    out['ran'] = len(job['cases'])


def main():
    job = json.load(sys.stdin)
    sys.path[:0] = [HERE]
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(job['scratch'], 'no-pyc')
    from harness import core, entropy
    entropy.install()
    sys.path.insert(0, core.REPO)
    import harness.props.common  # noqa: F401
    out = {}
    if job['gc'] == 'off':
        gc.disable()
    elif job['gc'] == 'busy':
        gc.freeze()
        gc.set_threshold(3, 3, 3)
    if job['thread']:
        thread = threading.Thread(target=work, args=(job, out))
        thread.start()
        thread.join()
    else:
        work(job, out)
    sys.stdout.write('\n' + json.dumps(out) + '\n')


if __name__ == '__main__':
    main()
