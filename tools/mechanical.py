#!/usr/bin/env python3
"""Rewrites every source file of a tree in ways that keep its behaviour.

mechanical.py HOW REPO; HOW is a string of letters:
  r  rename everything private that the existing tests do not name
  l  turn for loops into while loops over an iterator
  i  swap the branches of if/else
  t  return through a local variable
  n  move the body of each function into a nested one
"""
import ast
import os
import re
import sys


class Loops(ast.NodeTransformer):
    count = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        Loops.count += 1
        name = 'items_%d' % Loops.count
        start = ast.parse('%s = iter(0)' % name).body[0]
        start.value.args[0] = node.iter
        loop = ast.parse('while True:\n try:\n  X = next(%s)\n except StopIteration:\n  break' % name).body[0]
        loop.body[0].body[0].targets[0] = node.target
        loop.body += node.body
        return [start, loop]


class Branches(ast.NodeTransformer):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            node.test = ast.UnaryOp(ast.Not(), node.test)
            node.body, node.orelse = node.orelse, node.body
        return node


class Returns(ast.NodeTransformer):
    def visit_Return(self, node):
        if node.value is None:
            return node
        return [ast.Assign([ast.Name('outcome', ast.Store())], node.value),
                ast.Return(ast.Name('outcome', ast.Load()))]


class Nested(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        text = ast.unparse(node)
        if 'super()' in text or '__class__' in text or any(
                isinstance(n, (ast.Yield, ast.FunctionDef)) for n in ast.walk(node) if n is not node):
            return node
        args = {a.arg for a in node.args.args + node.args.kwonlyargs}
        if args & {n.id for n in ast.walk(node)
                   if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}:
            return node
        head, body = [], node.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            head, body = body[:1], body[1:]
        if body:
            inner = ast.parse('def work():\n pass').body[0]
            inner.body = body
            node.body = head + [inner, ast.Return(ast.Call(ast.Name('work', ast.Load()), [], []))]
        return node


PARTS = {'l': Loops, 'i': Branches, 't': Returns, 'n': Nested}


def files(top):
    for root, _, names in os.walk(top):
        for name in names:
            if name.endswith('.py'):
                yield os.path.join(root, name)


def read(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


def rewrite(how, repo):
    tests = ''.join(map(read, files(repo + '/tests')))
    sources = list(files(repo + '/gostcrypto'))
    private = {n for path in sources for n in re.findall(r'\b_[a-z][a-z0-9_]*\b', read(path))}
    private -= set(re.findall(r'\b_[a-z][a-z0-9_]*\b', tests))
    for path in sources:
        text = read(path)
        if 'r' in how:
            text = re.sub(r'(?<!\w)_[a-z][a-z0-9_]*\b',
                          lambda m: m[0] + '_own' if m[0] in private else m[0], text)
        tree = ast.parse(text)
        for letter, part in PARTS.items():
            if letter in how:
                tree = ast.fix_missing_locations(part().visit(tree))
        if set(how) & set(PARTS):
            text = ast.unparse(tree) + '\n'
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)


if __name__ == '__main__':
    rewrite(sys.argv[1], sys.argv[2])
