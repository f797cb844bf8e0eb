#!/usr/bin/env python3
"""Runs the check of each planted bug against a patched scratch copy.

runseeds.py [--all] [ID...]: --all runs every check on each bug and prints
which ones catch it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    every = '--all' in args
    args = [a for a in args if a != '--all']
    with open(VERIF + '/MANIFEST.json', encoding='utf-8') as f:
        ids = [c['property'] for c in json.load(f)['checks']]
    # a copy, so that evidence/ and replays/ of /verif are left alone
    work = tempfile.mkdtemp(prefix='seeds-', dir='/tmp')
    try:
        verif = work + '/verif'
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
        for seed in sorted(args or os.listdir(VERIF + '/seeded')):
            folder = VERIF + '/seeded/' + seed
            with open(folder + '/meta.json', encoding='utf-8') as f:
                meta = json.load(f)
            repo = work + '/repo'
            shutil.rmtree(repo, ignore_errors=True)
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            subprocess.run(['git', '-C', repo, 'apply', folder + '/patch.diff'], check=True)
            caught = []
            for pid in (ids if every else [meta['property']]):
                start = time.time()
                res = subprocess.run(['python3', 'run.py', 'check', pid], cwd=verif, check=False,
                                     env=dict(os.environ, GOST_REPO=repo), capture_output=True, text=True)
                lines = res.stdout.strip().splitlines()
                ok = res.returncode == 1 and any(
                    line.startswith('VIOLATION property=' + pid) for line in lines)
                if ok:
                    caught.append(pid)
                if not every:
                    print('%-32s %-4s %s %5.1fs %s' % (
                        seed, pid, 'caught' if ok else 'MISSED rc=%d' % res.returncode,
                        time.time() - start, lines[-2][:150] if len(lines) > 1 else res.stderr[-300:]),
                        flush=True)
                elif res.returncode not in (0, 1):
                    print('   %s: rc %d %s' % (pid, res.returncode, res.stdout[-300:]))
            if every:
                print('%-32s %s' % (seed, ' '.join(
                    '[%s]' % c if c == meta['property'] else c for c in caught) or 'MISSED'), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
