#!/usr/bin/env python3
"""Runs every check against each behaviour-preserving edit of refactorings/.

runrefactorings.py [NAME...] [--checks ID,ID...] (NAME: several joined by +;
mechanical:LETTERS: see mechanical.py): a line for each check that is not quiet.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

import mechanical

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    with open(VERIF + '/MANIFEST.json', encoding='utf-8') as f:
        ids = [c['property'] for c in json.load(f)['checks']]
    if '--checks' in args:
        i = args.index('--checks')
        ids = args[i + 1].split(',')
        del args[i:i + 2]
    names = args or sorted(n[:-5] for n in os.listdir(VERIF + '/refactorings') if n.endswith('.diff'))
    work = tempfile.mkdtemp(prefix='refact-', dir='/tmp')
    bad = 0
    try:
        verif = work + '/verif'
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
        for name in names:
            repo = work + '/repo'
            shutil.rmtree(repo, ignore_errors=True)
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            for part in name.split('+'):
                if part.startswith('mechanical:'):
                    mechanical.rewrite(part.split(':')[1], repo)
                    continue
                subprocess.run(['git', '-C', repo, 'apply', '--recount',
                                VERIF + '/refactorings/' + part + '.diff'], check=True)
            noisy = []
            for pid in ids:
                res = subprocess.run(['python3', 'run.py', 'check', pid], cwd=verif, check=False,
                                     capture_output=True, text=True,
                                     env=dict(os.environ, GOST_REPO=repo, VERIF_SEED='1'))
                if res.returncode:
                    noisy.append(pid)
                    print(name, pid, res.returncode, (res.stdout + res.stderr)[-600:], flush=True)
            bad += len(noisy)
            print('%-24s %s' % (name, 'NOISY ' + ' '.join(noisy) if noisy else 'quiet'), flush=True)
    finally:
        shutil.rmtree(work)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
