"""Mutation analysis of the checks (a development tool, not a check).

mutate.py FILE OUT [--range A-B] [--checks ID,ID...] : for each mutant of
/repo/FILE, run the checks with reduced counts in a scratch copy until one
reports a violation.  Survivors are listed in OUT.
"""
import ast
import concurrent.futures
import copy
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMPARE = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
           ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
           ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BINARY = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult],
          ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult]}


def mutants(tree):
    """Yield (line, description, mutated tree)."""
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
            if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(id(n.body[0].value))
    for k, n in enumerate(nodes):
        def variant(change):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[k]
            change(m)
            return t
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in COMPARE.get(type(op), ()):
                    def change(m, j=j, new=new):
                        m.ops[j] = new()
                    yield n.lineno, f'{type(op).__name__}->{new.__name__}', variant(change)
        elif isinstance(n, ast.BinOp):
            for new in BINARY.get(type(n.op), ()):
                def change(m, new=new):
                    m.op = new()
                yield n.lineno, f'{type(n.op).__name__}->{new.__name__}', variant(change)
        elif isinstance(n, ast.BoolOp):
            def change(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield n.lineno, 'and/or', variant(change)
            for j in range(len(n.values)):
                def change(m, j=j):
                    del m.values[j]
                yield n.lineno, f'drop operand {j}', variant(change)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            def change(m):
                if isinstance(m.op, ast.Not):
                    m.op = ast.Not()
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
                else:
                    m.op = ast.UAdd()
            yield n.lineno, 'unary', variant(change)
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                def change(m):
                    m.value = not m.value
                yield n.lineno, f'not {n.value}', variant(change)
            elif isinstance(n.value, int):
                for d in (1, -1):
                    def change(m, d=d):
                        m.value += d
                    yield n.lineno, f'{n.value}{d:+}', variant(change)
            elif isinstance(n.value, str) and n.value:
                def change(m):
                    m.value = 'x' + m.value
                yield n.lineno, f'string {n.value[:20]!r}', variant(change)
            elif n.value is None:
                def change(m):
                    m.value = 0
                yield n.lineno, 'None->0', variant(change)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for value in (True, False):
                if isinstance(n, ast.While) and value:
                    continue
                def change(m, value=value):
                    m.test = ast.Constant(value)
                yield n.lineno, f'condition->{value}', variant(change)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            swap = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list',
                    'reversed': 'list'}.get(n.func.id)
            if swap:
                def change(m, swap=swap):
                    m.func.id = swap
                yield n.lineno, f'{n.func.id}->{swap}', variant(change)
            for j in range(len(n.keywords)):
                def change(m, j=j):
                    del m.keywords[j]
                yield n.lineno, f'drop keyword {n.keywords[j].arg}', variant(change)
        elif isinstance(n, ast.Call):
            for j in range(len(n.keywords)):
                def change(m, j=j):
                    del m.keywords[j]
                yield n.lineno, f'drop keyword {n.keywords[j].arg}', variant(change)
        for field in ('body', 'orelse'):
            body = getattr(n, field, None)
            if isinstance(body, list):
                for j, s in enumerate(body):
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.Pass,
                                      ast.ImportFrom)):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue

                    def change(m, j=j, field=field):
                        getattr(m, field)[j] = ast.copy_location(ast.Pass(),
                                                                 getattr(m, field)[j])
                    yield s.lineno, f'drop {ast.unparse(s).splitlines()[0][:60]}', variant(change)


def splice(source, old, new):
    """Return source with the top level statements that differ replaced."""
    lines = source.splitlines(keepends=True)
    for a, b in reversed(list(zip(old.body, new.body))):
        text = ast.unparse(b)
        if text != ast.unparse(a):
            start = min([a.lineno] + [d.lineno for d in getattr(a, 'decorator_list', ())])
            lines[start - 1:a.end_lineno] = [text + '\n']
    return ''.join(lines)


def run(args):
    number, line, what, text, filename, checks = args
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        with open(os.path.join(repo, filename), 'w') as f:
            f.write(text)
        env = dict(os.environ, GCS_REPO=repo, PBT_PROCS='1', PBT_SCALE=os.environ.get('SCALE', '0.15'),
                   PBT_CASE_SECONDS='4', PBT_RESULTS=d, PBT_NOSHRINK='1', VERIF_SEED=str(number))
        for c in checks:
            p = subprocess.run([VERIF + '/check', c], cwd=VERIF, env=env, capture_output=True,
                               text=True)
            if p.returncode == 1:
                return number, line, what, c
            if p.returncode != 0:
                return number, line, what, f'ERROR {c}: {p.stdout[-600:]}'
        return number, line, what, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    filename, out = sys.argv[1:3]
    options = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    checks = options['--checks'].split(',')
    lo, hi = map(int, options.get('--range', '0-99999').split('-'))
    with open(os.path.join('/repo', filename)) as f:
        source = f.read()
    tree = ast.parse(source)
    tasks, seen = [], {source}
    for line, what, t in mutants(tree):
        if lo <= line <= hi:
            try:
                text = splice(source, tree, ast.fix_missing_locations(t))
                compile(text, filename, 'exec')
            except Exception:
                continue
            if text not in seen:
                seen.add(text)
                tasks.append((len(tasks), line, what, text, filename, checks))
    print(len(tasks), 'mutants', flush=True)
    killed = 0
    with open(out, 'w') as f, concurrent.futures.ThreadPoolExecutor(
            int(options.get('--jobs', 8))) as pool:
        for number, line, what, by in pool.map(run, tasks):
            if by is None or by.startswith('ERROR'):
                print(f'{filename}:{line} #{number} {what}: {by or "SURVIVED"}', file=f, flush=True)
            else:
                killed += 1
        print(f'{killed} of {len(tasks)} killed', file=f)


main()
