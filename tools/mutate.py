"""Mutation testing of the checks

usage: mutate.py list [FILE...]           list of mutants
       mutate.py test OUT.jsonl [FILE...] run repository's tests on mutants

Mutants are made by small changes of syntax tree of a single function.
Result of `test` is list of mutants that pass repository's tests; they are
evaluated with `mutcheck.py`.
"""

import ast
import concurrent.futures
import copy
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

REPO = pathlib.Path('/repo')
SRC = REPO / 'src_py/hat/event'

SKIP_FUNCS = {'create_argument_parser', '_create_argument_parser', '__repr__'}


def segment(src, node):
    return ast.get_source_segment(src, node)


def mutants(path):
    src = path.read_text()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offsets = [0]
    for line in lines:
        offsets.append(offsets[-1] + len(line.encode()))
    data = src.encode()

    def span(node):
        return (offsets[node.lineno - 1] + node.col_offset,
                offsets[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = span(node)
        return data[a:b].decode()

    out = []

    def put(node, new, what, func):
        a, b = span(node)
        result = (data[:a] + new.encode() + data[b:]).decode()
        try:
            ast.parse(result)
        except SyntaxError:
            return
        if ast.dump(ast.parse(result)) == ast.dump(tree):
            return
        out.append((node.lineno, func, what, result))

    def is_log(node):
        t = text(node)
        return 'mlog' in t or t.startswith('print(') or 'log.' in t

    def visit(node, func, parents):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in SKIP_FUNCS:
                return
            func = f'{func}.{node.name}' if func else node.name
            for i in node.body:
                visit(i, func, [node])
            return
        if isinstance(node, ast.ClassDef):
            for i in node.body:
                visit(i, node.name, [node])
            return
        if not func:
            for i in ast.iter_child_nodes(node):
                visit(i, func, [])
            return
        if isinstance(node, ast.Expr) and isinstance(
                node.value, ast.Constant):
            return
        if isinstance(node, ast.stmt) and not isinstance(
                node, (ast.Import, ast.ImportFrom, ast.Pass)):
            if isinstance(node, ast.Expr) and is_log(node):
                return
            if isinstance(node, (ast.Expr, ast.AugAssign, ast.Delete,
                                 ast.Raise, ast.Continue, ast.Break,
                                 ast.Assert)):
                put(node, 'pass', f'delete `{text(node)[:60]}`', func)
            if isinstance(node, ast.Assign) and not isinstance(
                    node.targets[0], (ast.Name, ast.Tuple)):
                put(node, 'pass', f'delete `{text(node)[:60]}`', func)
            if isinstance(node, ast.Return) and node.value is not None:
                put(node, 'return', f'no result `{text(node)[:60]}`', func)
            if isinstance(node, ast.Return) and node.value is None:
                put(node, 'pass', 'delete `return`', func)
            if isinstance(node, ast.Continue):
                put(node, 'break', 'continue -> break', func)
            if isinstance(node, ast.Break):
                put(node, 'continue', 'break -> continue', func)
            if isinstance(node, ast.If):
                put(node.test, f'not ({text(node.test)})',
                    f'negate if `{text(node.test)[:50]}`', func)
                put(node.test, f'({text(node.test)}) and False',
                    f'never if `{text(node.test)[:50]}`', func)
                put(node.test, f'({text(node.test)}) or True',
                    f'always if `{text(node.test)[:50]}`', func)
            if isinstance(node, ast.While) and not isinstance(
                    node.test, ast.Constant):
                put(node.test, f'not ({text(node.test)})',
                    f'negate while `{text(node.test)[:50]}`', func)
            if isinstance(node, ast.Try):
                for h in node.handlers:
                    if h.type is not None and not (
                            len(h.body) == 1 and is_log(h.body[0])):
                        put(h.type, '()', f'no except `{text(h.type)}`', func)
                if node.finalbody:
                    for i in node.finalbody:
                        pass
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            swap = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='],
                    ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
                    ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
                    ast.IsNot: ['is'], ast.In: ['not in'],
                    ast.NotIn: ['in']}
            for op in swap.get(type(node.ops[0]), []):
                put(node, f'({text(node.left)} {op} '
                    f'{text(node.comparators[0])})',
                    f'`{text(node)[:60]}` -> {op}', func)
            if isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                    node.comparators[0], ast.Constant) and \
                    node.comparators[0].value is None:
                neg = '' if isinstance(node.ops[0], ast.IsNot) else 'not '
                put(node, f'({neg}{text(node.left)})',
                    f'`{text(node)[:60]}` -> truth', func)
        if isinstance(node, ast.BoolOp):
            op = 'or' if isinstance(node.op, ast.And) else 'and'
            put(node, '(' + f' {op} '.join(
                f'({text(i)})' for i in node.values) + ')',
                f'`{text(node)[:60]}` -> {op}', func)
            for k in range(len(node.values)):
                rest = [i for n, i in enumerate(node.values) if n != k]
                op2 = 'and' if op == 'or' else 'or'
                put(node, '(' + f' {op2} '.join(
                    f'({text(i)})' for i in rest) + ')',
                    f'drop `{text(node.values[k])[:50]}`', func)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, f'({text(node.operand)})',
                f'drop not `{text(node)[:50]}`', func)
        if isinstance(node, ast.Constant) and not isinstance(
                parents[-1], (ast.JoinedStr, ast.FormattedValue)):
            if node.value is True or node.value is False:
                put(node, str(not node.value), f'{node.value} flipped', func)
            elif type(node.value) is int:
                put(node, str(node.value + 1), f'{node.value} + 1', func)
                if node.value:
                    put(node, str(node.value - 1), f'{node.value} - 1', func)
        if isinstance(node, ast.BinOp):
            swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
                    ast.FloorDiv: '*', ast.BitOr: '&', ast.BitAnd: '|'}
            op = swap.get(type(node.op))
            if op and not isinstance(node.left, ast.JoinedStr):
                put(node, f'({text(node.left)} {op} {text(node.right)})',
                    f'`{text(node)[:60]}` -> {op}', func)
        if isinstance(node, ast.IfExp):
            put(node, f'({text(node.body)})',
                f'only body `{text(node)[:60]}`', func)
            put(node, f'({text(node.orelse)})',
                f'only else `{text(node)[:60]}`', func)
        if isinstance(node, ast.Call) and not is_log(node):
            if len(node.args) == 2 and not node.keywords:
                put(node, f'{text(node.func)}({text(node.args[1])}, '
                    f'{text(node.args[0])})', f'swap `{text(node)[:60]}`',
                    func)
            name = text(node.func)
            for a, b in (('min', 'max'), ('max', 'min'), ('any', 'all'),
                         ('all', 'any'), ('.append', '.appendleft'),
                         ('.popleft', '.pop'), ('.put_nowait', None),
                         ('.spawn', None)):
                if b and (name == a or (a[0] == '.' and name.endswith(a))):
                    put(node.func, name[:len(name) - len(a)] + b,
                        f'{a} -> {b} `{text(node)[:40]}`', func)
            for kw in node.keywords:
                if kw.arg and len(node.keywords) > 1:
                    pass
            if name in ('sorted', 'reversed', 'list', 'set', 'deque',
                        'collections.deque', 'dict') and len(node.args) == 1:
                put(node, f'{text(node.args[0])}',
                    f'drop call `{text(node)[:60]}`', func)
        if isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Slice):
            put(node, f'{text(node.value)}[:]', f'drop slice `{text(node)}`',
                func)
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                             ast.DictComp)):
            for g in node.generators:
                for c in g.ifs:
                    put(c, 'True', f'no filter `{text(c)[:50]}`', func)
        if isinstance(node, ast.Await) and isinstance(parents[-1], ast.Expr):
            pass
        for i in ast.iter_child_nodes(node):
            if isinstance(i, (ast.arguments, ast.expr_context, ast.operator)):
                continue
            visit(i, func, [*parents, node])

    visit(tree, '', [])
    seen = set()
    for lineno, func, what, result in out:
        if result in seen:
            continue
        seen.add(result)
        yield lineno, func, what, result


def files(args):
    if args:
        return [SRC / i for i in args]
    return [i for i in sorted(SRC.rglob('*.py'))
            if i.name not in ('__main__.py', '__init__.py') and
            i.parent.name != 'playground']


def run_tests(repo, base):
    env = {**os.environ, 'PYTHONPATH': f'{repo}/src_py',
           'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
           'LC_ALL': 'C.UTF-8', 'PATH': '/opt/venv/bin:' + os.environ['PATH']}
    p = ['test_pytest/test_common/test_' + i for i in (
        'collection.py', 'collection_perf.py', 'subscription.py',
        'subscription_perf.py')]
    try:
        return subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'hat.doit.pytest', '--unit', '-p', 'no:cacheprovider',
             '--timeout=20', *(f'--ignore={i}' for i in p),
             f'--basetemp={base}'],
            cwd=repo, env=env, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, timeout=150).returncode == 0
    except subprocess.TimeoutExpired:
        return False


_work = None


def _init():
    global _work
    _work = pathlib.Path(tempfile.mkdtemp(prefix='mutate-', dir='/dev/shm'))
    shutil.copytree(REPO, _work / 'repo',
                    ignore=shutil.ignore_patterns('.git'))


def _test(item):
    name, lineno, func, what, result = item
    path = _work / 'repo/src_py/hat/event' / name
    original = path.read_text()
    path.write_text(result)
    try:
        ok = run_tests(_work / 'repo', _work / 'tmp')
    finally:
        path.write_text(original)
    return ok


def main():
    cmd, *args = sys.argv[1:]
    out = args.pop(0) if cmd == 'test' else None
    items = [(str(path.relative_to(SRC)), *i) for path in files(args)
             for i in mutants(path)]
    if cmd == 'list':
        for name, lineno, func, what, _ in items:
            print(f'{name}:{lineno} {func}: {what}')
        print(len(items))
        return
    with concurrent.futures.ProcessPoolExecutor(8, initializer=_init) as pool:
        n = 0
        with open(out, 'a') as f:
            for item, ok in zip(items, pool.map(_test, items)):
                if ok:
                    n += 1
                    f.write(json.dumps(item) + '\n')
                    f.flush()
        print(f'{n} of {len(items)} mutants pass tests')


if __name__ == '__main__':
    main()
