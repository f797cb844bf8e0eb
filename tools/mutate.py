#!/usr/bin/env python3
"""Mutation campaign: small edits of /repo that the existing tests do not notice.

mutate.py list OUT.json         all mutants that pass the existing tests (stage 1)
mutate.py check OUT.json [N..]  runs the checks of the module on them until one catches it (stage 2)
"""
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'gostcrypto/gosthash/gost_34_11_2012.py': 'H01 H02 H03 I02 I03 I04',
    'gostcrypto/gosthmac/r_50_1_113_2016.py': 'M01 M02 I02 I04 C11 C10 I03',
    'gostcrypto/gostpbkdf/r_50_1_111_2016.py': 'P02 P01 I02 C11 C10 I03',
    'gostcrypto/gostrandom/r_1323565_1_006_2017.py': 'R01 R02 I02 I04 C11 I01 I03',
    'gostcrypto/utils/utils.py': 'U01 U02',
    'gostcrypto/gostoid/oid.py': 'O01 O02',
    'gostcrypto/gostsignature/gost_34_10_2012.py': 'S03 S01 S05 S06 S04 S02 I02 I04',
    'gostcrypto/gostcipher/gost_34_12_2015.py': 'C01 C11 C10 I01',
    'gostcrypto/gostcipher/gost_34_13_2015.py': 'C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 I03 I01',
}
SWAP = {
    ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt],
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
    ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.FloorDiv],
    ast.FloorDiv: [ast.Mult, ast.Mod],
    ast.Mod: [ast.FloorDiv], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
    ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.BitXor: [ast.BitOr, ast.BitAnd],
    ast.And: [ast.Or], ast.Or: [ast.And], ast.Pow: [ast.Mult],
}


def is_doc(node, parents):
    return isinstance(parents.get(node), ast.Expr)


def sites(tree):
    """(line, description, apply) of every mutation."""
    parents = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}
    nodes = list(ast.walk(tree))
    rng = random.Random(7)
    big = [n for n in nodes if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 16]
    in_big = {id(d) for b in big for d in ast.walk(b)}
    in_ann = set()
    for n in nodes:
        for field in ('annotation', 'returns'):
            if getattr(n, field, None) is not None:
                in_ann |= {id(d) for d in ast.walk(getattr(n, field))}
    for index, node in enumerate(nodes):
        line = getattr(node, 'lineno', 0)
        if id(node) in in_ann:
            continue
        if isinstance(node, ast.Constant) and isinstance(node.value, int) \
                and not isinstance(node.value, bool):
            if id(node) in in_big:
                if rng.random() < 0.004:
                    yield index, line, 'const', node.value ^ (1 << rng.randrange(7))
                continue
            yield index, line, 'const', node.value + 1
            if node.value:
                yield index, line, 'const', node.value - 1
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            yield index, line, 'const', not node.value
        elif isinstance(node, ast.Constant) and isinstance(node.value, str) \
                and node.value and not is_doc(node, parents) and '.' in node.value[:4] :
            yield index, line, 'const', node.value[:-1] + chr(ord(node.value[-1]) ^ 1)
        elif isinstance(node, ast.Compare):
            for op in SWAP.get(type(node.ops[0]), []):
                yield index, line, 'cmp', op.__name__
        elif isinstance(node, (ast.BinOp, ast.BoolOp, ast.AugAssign)):
            for op in SWAP.get(type(node.op), []):
                yield index, line, 'op', op.__name__
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield index, line, 'drop-not', None
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            yield index, line, 'drop-minus', None
        elif isinstance(node, ast.If):
            yield index, line, 'if', True
            yield index, line, 'if', False
        elif isinstance(node, ast.While):
            yield index, line, 'if', False
        elif isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords:
            yield index, line, 'unwrap', None
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                yield index, line, 'slice', 'lower'
            if node.upper is not None:
                yield index, line, 'slice', 'upper'
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break)) \
                and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)) \
                and not isinstance(parents.get(node), (ast.Module, ast.ClassDef)):
            yield index, line, 'delete', None
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) \
                and node.value.id == 'self' and isinstance(node.ctx, ast.Load):
            pair = {'_a': '_b', '_x': '_y', '_p': '_q', '_q': '_p', '_e': '_d', '_u': '_v',
                    '_key_1': '_key_2', '_cur_mac': '_prev_mac', '_prev_mac': '_cur_mac',
                    '_fin_buff': '_iter_buf', '_iter_buf': '_fin_buff', '_hash_n': '_hash_sigma',
                    '_hash_sigma': '_hash_n', '_y': '_x', '_b': '_a', '_d': '_e',
                    '_v': '_u', '_m': '_q'}.get(node.attr)
            if pair:
                yield index, line, 'attr', pair


def mutate(source, index, kind, arg):
    tree = ast.parse(source)
    node = list(ast.walk(tree))[index]
    parents = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}

    def put(new):
        parent = parents[node]
        for field, value in ast.iter_fields(parent):
            if value is node:
                setattr(parent, field, new)
            elif isinstance(value, list) and any(v is node for v in value):
                value[[v is node for v in value].index(True)] = new

    before = ast.unparse(node) if not isinstance(node, (ast.If, ast.While)) else 'if ' + ast.unparse(node.test)
    if kind == 'const':
        node.value = arg
    elif kind == 'cmp':
        node.ops[0] = getattr(ast, arg)()
    elif kind == 'op':
        node.op = getattr(ast, arg)()
    elif kind in ('drop-not', 'drop-minus'):
        put(node.operand)
    elif kind == 'if':
        node.test = ast.Constant(arg)
    elif kind == 'unwrap':
        put(node.args[0])
    elif kind == 'slice':
        setattr(node, arg, None)
    elif kind == 'delete':
        put(ast.Pass())
    elif kind == 'attr':
        node.attr = arg
    return ast.unparse(ast.fix_missing_locations(tree)), before[:90]


def stage1(job):
    number, path, index, line, kind, arg = job
    root = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        repo = root + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open('/repo/' + path, encoding='utf-8') as f:
            source = f.read()
        try:
            text, before = mutate(source, index, kind, arg)
        except Exception as exc:  # pylint: disable=broad-except
            return None
        with open(repo + '/' + path, 'w', encoding='utf-8') as f:
            f.write(text)
        try:
            res = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider',
                                  'tests'], cwd=repo, capture_output=True, text=True, check=False,
                                 timeout=60, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired:
            return None
        if res.returncode:
            return None
        return {'n': number, 'file': path, 'index': index, 'line': line, 'kind': kind, 'arg': arg,
                'before': before}
    finally:
        shutil.rmtree(root)


def main():
    if sys.argv[1] == 'list':
        jobs = []
        for path in FILES:
            with open('/repo/' + path, encoding='utf-8') as f:
                tree = ast.parse(f.read())
            for index, line, kind, arg in sites(tree):
                jobs.append((len(jobs), path, index, line, kind, arg))
        print(len(jobs), 'mutants', flush=True)
        with multiprocessing.Pool(int(os.environ.get("JOBS", "8"))) as pool:
            left = [m for m in pool.imap(stage1, jobs, 4) if m]
        with open(sys.argv[2], 'w', encoding='utf-8') as f:
            json.dump(left, f, indent=0)
        print(len(left), 'pass the tests')
        return
    with open(sys.argv[2], encoding='utf-8') as f:
        left = json.load(f)
    only = {int(a) for a in sys.argv[3:]}
    work = tempfile.mkdtemp(prefix='mutc-', dir='/tmp')
    verif = work + '/verif'
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
    for m in left:
        if only and m['n'] not in only:
            continue
        repo = work + '/repo'
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open('/repo/' + m['file'], encoding='utf-8') as f:
            source = f.read()
        text, before = mutate(source, m['index'], m['kind'], m['arg'])
        with open(repo + '/' + m['file'], 'w', encoding='utf-8') as f:
            f.write(text)
        caught = ''
        for pid in FILES[m['file']].split():
            res = subprocess.run(['python3', 'run.py', 'check', pid], cwd=verif, check=False,
                                 capture_output=True, text=True,
                                 env=dict(os.environ, GOST_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'))
            if res.returncode == 1:
                caught = pid
                break
            if res.returncode:
                caught = '%s rc %d' % (pid, res.returncode)
                break
        print(m['n'], m['file'].split('/')[-1], m['line'], m['kind'], m['arg'], '|', before, '|',
              caught or 'NOT CAUGHT', flush=True)
    shutil.rmtree(work)


if __name__ == '__main__':
    main()
