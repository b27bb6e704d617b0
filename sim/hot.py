"""Where to aim.  Directed search, not a verdict: pauses and faults are aimed
with some preference at code that stores to objects which may be shared and, if
the library differs from the one the committed baseline was taken from, at the
statements that differ.  What a run is judged by does not depend on it.

    python -m sim.hot [REPO]      rewrites sim/baseline.json
"""
import ast
import collections
import dis
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'baseline.json')

WRITE, UNSAFE, HOT, AIM = 1, 2, 4, 8


def _sources(root):
    for d, _, files in sorted(os.walk(root)):
        if 'tests' in d.split(os.sep):
            continue
        for fn in sorted(files):
            if fn.endswith('.py'):
                p = os.path.join(d, fn)
                try:
                    yield p, ast.parse(open(p, encoding='utf-8').read())
                except (SyntaxError, ValueError):
                    continue


def _h(x):
    return hashlib.sha1(x.encode()).hexdigest()[:12]


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


def _functions(tree):
    def walk(node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, FUNC):
                yield prefix + n.name, n
                for x in walk(n, prefix + n.name + '.'):
                    yield x
            elif isinstance(n, ast.ClassDef):
                for x in walk(n, prefix + n.name + '.'):
                    yield x
            else:
                for x in walk(n, prefix):
                    yield x
    return walk(tree, '')


def _statements(fn):
    """(fingerprint, first line, last line, node) of the function's own
    statements; of a compound statement the header only."""
    def walk(body):
        for n in body:
            if isinstance(n, FUNC + (ast.ClassDef,)):
                yield _h(n.name), n.lineno, n.lineno, ast.Pass()
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            parts = []
            for f in ('body', 'orelse', 'finalbody', 'handlers'):
                if isinstance(getattr(n, f, None), list):
                    parts.append(getattr(n, f))
            if not parts:
                yield _h(ast.dump(n)), n.lineno, n.end_lineno, n
                continue
            head = [ast.dump(v) for f, v in ast.iter_fields(n)
                    if isinstance(v, ast.AST)]
            last = max([v.end_lineno for f, v in ast.iter_fields(n)
                        if hasattr(v, 'end_lineno')] + [n.lineno])
            yield _h(type(n).__name__ + ''.join(head)), n.lineno, last, \
                ast.Tuple([v for f, v in ast.iter_fields(n)
                           if isinstance(v, ast.AST)], ast.Load())
            for p in parts:
                for x in p:
                    if isinstance(x, ast.ExceptHandler):
                        yield _h('except' + (ast.dump(x.type)
                                             if x.type else '')), \
                            x.lineno, x.lineno, x.type or ast.Pass()
                        for y in walk(x.body):
                            yield y
                for y in walk([x for x in p
                               if not isinstance(x, ast.ExceptHandler)]):
                    yield y
    return list(walk(fn.body))


def _toplevel(tree):
    """(fingerprint, node) of simple statements outside functions."""
    def walk(body):
        for n in body:
            if isinstance(n, FUNC + (ast.Import, ast.ImportFrom)) or (
                    isinstance(n, ast.Expr) and
                    isinstance(n.value, ast.Constant)):
                continue
            if hasattr(n, 'body'):
                for x in walk(n.body + getattr(n, 'orelse', [])):
                    yield x
            else:
                yield _h(ast.dump(n)), n
    return list(walk(tree.body))


def snapshot(root):
    res = {}
    for p, tree in _sources(root):
        d = res[os.path.relpath(p, root)] = {
            '': sorted(x[0] for x in _toplevel(tree))}
        for q, fn in _functions(tree):
            d[q] = sorted(x[0] for x in _statements(fn))
    return res


# values mentioned by statements that differ
LITS = {'date': set(), 'int': set(), 'str': set(), 'exc': set()}
ENDS = ('Error', 'Exception', 'Exit', 'Interrupt', 'Iteration', 'Datetime')


def _day(x):
    import pandas as pd
    try:
        return pd.Timestamp(x).value // (86400 * 10 ** 9)
    except (ValueError, TypeError, OverflowError):
        return None


def literals(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and len(n.args) >= 3 and all(
                isinstance(a, ast.Constant) and type(a.value) is int
                for a in n.args[:3]) and n.args[0].value > 1600:
            d = _day('%d-%d-%d' % tuple(a.value for a in n.args[:3]))
            if d is not None:
                LITS['date'].add(d)
        x = getattr(n, 'id', None) or getattr(n, 'attr', None)
        if isinstance(x, str) and x.endswith(ENDS) and x not in (
                'Exception', 'BaseException'):
            LITS['exc'].add(x)
        if not isinstance(n, ast.Constant):
            continue
        v = n.value
        if isinstance(v, str) and 0 < len(v) < 40:
            d = _day(v) if len(v) > 5 and any(c.isdigit() for c in v) \
                else None
            if d is not None:
                LITS['date'].add(d)
            else:
                LITS['str'].add(v)
        elif type(v) is int and abs(v) < 10 ** 6:
            LITS['int'].add(v)
            if 1700 < v < 2200:
                LITS['date'].add(_day('%d-06-30' % v))


def changed(root):
    """(lines of functions that differ, lines of statements that differ)"""
    hot, aim = set(), set()
    try:
        base = json.load(open(BASE))
    except (OSError, ValueError):
        return hot, aim
    for p, tree in _sources(root):
        old = base.get(os.path.relpath(p, root)) or {}
        left = collections.Counter(old.get('') or [])
        for h, n in _toplevel(tree):
            if left[h]:
                left[h] -= 1
            else:
                literals(n)
        for q, fn in _functions(tree):
            st = _statements(fn)
            known = old.get(q)
            if known == sorted(x[0] for x in st):
                continue
            left = collections.Counter(known or [])
            for l in range(fn.lineno, fn.end_lineno + 1):
                hot.add((p, l))
            for h, a, z, n in st:
                if left[h]:
                    left[h] -= 1
                else:
                    for l in range(a, z + 1):
                        aim.add((p, l))
                    literals(n)
    return hot, aim


_STORE = {'STORE_ATTR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'DELETE_ATTR',
          'STORE_GLOBAL', 'STORE_SLICE', 'STORE_DEREF'}
_MUT = {'append', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'insert',
        'extend', 'remove', 'add', 'discard', 'move_to_end', 'acquire',
        'release', 'setflags'}


def stores(co):
    line = co.co_firstlineno
    for ins in dis.get_instructions(co):
        if ins.starts_line:
            line = ins.starts_line
        if ins.opname in _STORE or (
                ins.opname in ('LOAD_ATTR', 'LOAD_METHOD') and
                ins.argval in _MUT):
            yield line


def flags(root, codes):
    """{(file, line): flags} and whether the library differs."""
    fl = collections.defaultdict(int)
    for p, tree in _sources(root):
        for n in ast.walk(tree):
            if isinstance(n, ast.With):
                hi = max([i.context_expr.end_lineno for i in n.items])
                for l in range(n.lineno, hi + 1):
                    fl[p, l] |= UNSAFE
            if isinstance(n, ast.Try):
                fl[p, n.lineno] |= UNSAFE
                for part in n.finalbody + n.handlers:
                    for l in range(part.lineno, part.end_lineno + 1):
                        fl[p, l] |= UNSAFE
    hot, aim = changed(root)
    for co in codes:
        ls = list(stores(co))
        for l in ls:
            fl[co.co_filename, l] |= WRITE
        if ls and not hot and co.co_name not in ('__init__', '__new__',
                                                 '<module>'):
            for s, e, l in co.co_lines():
                if l:
                    fl[co.co_filename, l] |= HOT
            for l in ls:
                fl[co.co_filename, l] |= AIM
    for x in hot:
        fl[x] |= HOT
    for x in aim:
        fl[x] |= AIM
    return dict(fl), bool(hot)


if __name__ == '__main__':
    repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
    s = snapshot(os.path.join(repo, 'timeboard'))
    with open(BASE, 'w') as f:
        json.dump(s, f, indent=0, sort_keys=True)
        f.write('\n')
    print(sum(len(x) for x in s.values()), 'functions')
