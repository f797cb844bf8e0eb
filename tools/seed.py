#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and writes seeded/<id>/.

seed.py SPEC.py: the spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS (a list
of (file, old, new)) and DEMO (the body of demo.py).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, check=False)


def main():
    spec = runpy.run_path(sys.argv[1])
    work = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    repo = os.path.join(work, 'repo')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        demo = os.path.join(work, 'demo')
        os.mkdir(demo)
        with open(demo + '/demo.py', 'w', encoding='utf-8') as f:
            f.write(spec['DEMO'].lstrip('\n'))
        with open(demo + '/demo.sh', 'w', encoding='utf-8') as f:
            f.write(DEMO_SH)
        os.chmod(demo + '/demo.sh', 0o755)
        for extra, content in spec.get('FILES', {}).items():
            with open(os.path.join(demo, extra), 'w', encoding='utf-8') as f:
                f.write(content)
        res = run(['bash', demo + '/demo.sh'], repo)
        if res.returncode != 0:
            print(spec['ID'], 'DEMO FAILS UNPATCHED', res.stdout[-1500:], res.stderr[-1500:])
            return 1
        for name, old, new in spec['EDITS']:
            path = os.path.join(repo, name)
            with open(path, encoding='utf-8') as f:
                text = f.read()
            if text.count(old) != 1:
                print(spec['ID'], 'EDIT matches %d times: %r' % (text.count(old), old))
                return 1
            with open(path, 'w', encoding='utf-8') as f:
                f.write(text.replace(old, new))
        diff = run(['git', 'diff'], repo).stdout
        res = run(['bash', demo + '/demo.sh'], repo)
        if res.returncode == 0:
            print(spec['ID'], 'DEMO PASSES PATCHED')
            return 1
        why = (res.stdout + res.stderr).strip().splitlines()[-1:]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONPATH=repo)
        res = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'pytest_timeout', '-p',
                              'no:cacheprovider', '--timeout=60', 'tests'], cwd=repo, env=env,
                             capture_output=True, text=True, check=False)
        tail = res.stdout.strip().splitlines()[-1]
        if res.returncode != 0:
            print(spec['ID'], 'TESTS FAIL', '\n'.join(res.stdout.strip().splitlines()[-8:]))
            return 1
        out = os.path.join(SEEDED, spec['ID'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        with open(out + '/patch.diff', 'w', encoding='utf-8') as f:
            f.write(diff)
        with open(out + '/meta.json', 'w', encoding='utf-8') as f:
            json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                       'what_it_breaks': spec['BREAKS']}, f, indent=1)
            f.write('\n')
        print(spec['ID'], 'ok', tail, '|', why)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
