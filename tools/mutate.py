"""Systematic small changes to the repository: gen -> /tmp/mut/all.json; tests -> those that pass the existing tests (/tmp/mut/alive.json); run -> which of them the quick checks catch (/tmp/mut/result.json)."""
import ast, json, os, pathlib, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
W = pathlib.Path('/tmp/mut')
FILES = ['randvar', 'seq', 'roller', 'decorators', 'blackrv', 'funclib', 'factory', 'output', 'settings', 'string_rvs', 'utils', 'altcast', 'parser/myparser', 'parser/parse_and_exec', 'parser/python_resolver']
CHECKS = {'randvar': 'C01 C02 C03 C04 C07 C09 C10 C11 C12 C20 C23 C06 C13 C19 C08', 'seq': 'C08 C02 C12 C01 C09 C19 C24', 'roller': 'C03 C06 C23 C21 C12 C13 C09 C01 C20', 'decorators': 'C05 C14 C12 C13 C16', 'blackrv': 'C09 C12 C05 C06', 'funclib': 'C07 C12 C09',
          'factory': 'C08 C19 C12 C01', 'output': 'C11 C24 C13', 'settings': 'C13 C14 C12', 'string_rvs': 'C19 C21', 'utils': 'C01 C02 C08 C12 C03 C11', 'altcast': 'C12 C05', 'parser/myparser': 'C15 C17 C18 C23 C16 C22', 'parser/parse_and_exec': 'C24 C17 C18 C22 C16', 'parser/python_resolver': 'C16 C22 C15 C23 C18 C17 C24 C12'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+', '//'], ast.Div: ['//', '*'], ast.FloorDiv: ['/', '*'], ast.Mod: ['*'], ast.Pow: ['*'], ast.BitAnd: ['|'], ast.BitOr: ['&']}


def mutants(f):
    src = open('/repo/src/%s.py' % f).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    out = []

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, kind):
        s, e = seg(n)
        out.append([f, s, e, new, kind, n.lineno])

    def text(n):
        s, e = seg(n)
        return b[s:e].decode()
    skip = set()
    for n in ast.walk(tree):
        for fld in ('annotation', 'returns'):
            a = getattr(n, fld, None)
            if isinstance(a, ast.AST):
                skip.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'logger':
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            skip.update(id(x) for x in ast.walk(n))
            skip.discard(id(n))
        if isinstance(n, ast.Assert) and n.msg:
            skip.update(id(x) for x in ast.walk(n.msg))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                rep(n, '%s %s %s' % (text(n.left), o, text(n.right)), 'bin')
            rep(n, text(n.left), 'left')
            rep(n, text(n.right), 'right')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + j.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                k = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + k.join('(%s)' % text(v) for q, v in enumerate(n.values) if q != i) + ')', 'boolpart')
        elif isinstance(n, ast.UnaryOp):
            rep(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, '(not (%s))' % text(n.test), 'negate')
            rep(n.test, 'False', 'never')
            rep(n.test, 'True', 'always') if not isinstance(n, ast.While) else None
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, 'True', 'filter')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                rep(n, '(%s + 1)' % text(n), 'const')
                rep(n, '(%s - 1)' % text(n), 'const')
            elif isinstance(n.value, str) and len(text(n)) < 40 and n.value:
                rep(n, repr(n.value + '_') if not text(n).startswith('r') else 'r' + repr(n.value[:-1]).replace('\\\\', '\\'), 'str')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
                rep(n.func, {'min': 'max', 'max': 'min'}[n.func.id], 'minmax')
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'abs', 'int', 'bool', 'float', 'list', 'tuple', 'set', 'str') and len(n.args) == 1:
                rep(n, '(%s)' % text(n.args[0]), 'unwrap')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    s = text(n)
                    t = text(k.value)
                    q = '%s=%s' % (k.arg, t)
                    if s.count(q) == 1:
                        rep(n, s.replace(', ' + q, ''), 'kwarg')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Assert)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Raise):
            rep(n, 'pass', 'noraise')
        elif isinstance(n, ast.Break):
            rep(n, 'continue', 'break')
        elif isinstance(n, ast.Continue):
            rep(n, 'break', 'continue')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n, 'return None', 'retnone')
        elif isinstance(n, ast.Try) and n.finalbody:
            pass
    res, seen = [], set()
    for m in out:
        nb = b[:m[1]] + m[3].encode() + b[m[2]:]
        if nb == b or nb in seen:
            continue
        try:
            compile(nb.decode(), 'x', 'exec')
        except Exception:
            continue
        seen.add(nb)
        m.append(b[m[1]:m[2]].decode()[:80])
        res.append(m)
    return res


def clone(i):
    d = W / ('w%d' % i)
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    subprocess.run(['git', 'clone', '-q', '/repo', str(d / 'repo')], check=True)
    (d / 'pp').mkdir()
    (d / 'pp' / 'dice_calc').symlink_to(d / 'repo' / 'src')
    return d


def apply(d, m):
    p = d / 'repo' / 'src' / (m[0] + '.py')
    b = (pathlib.Path('/repo/src') / (m[0] + '.py')).read_bytes()
    p.write_bytes(b[:m[1]] + m[3].encode() + b[m[2]:])


def restore(d, m):
    shutil.copyfile('/repo/src/%s.py' % m[0], d / 'repo' / 'src' / (m[0] + '.py'))


def tests(d):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0', PYTHONPATH=str(d / 'pp'))
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--ignore=test/test_fetch.py', *DES, 'test'], cwd=d / 'repo', env=e, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


DES = []


def pool(items, work, n, save):
    import queue
    q = queue.Queue()
    for i in range(n):
        q.put(clone(i))
    res = []

    def one(m):
        d = q.get()
        try:
            apply(d, m)
            r = work(d, m)
            restore(d, m)
        finally:
            q.put(d)
        res.append([m, r])
        if len(res) % 25 == 0:
            json.dump(res, open(save, 'w'))
            print(len(res), len(items), time.strftime('%H:%M:%S'), flush=True)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, items))
    json.dump(res, open(save, 'w'))
    return res


def run_checks(d, m):
    t = time.time()
    for pid in CHECKS[m[0]].split():
        r = subprocess.run(['./check.sh', pid, 'quick'], cwd='/verif', env=dict(os.environ, VF_REPO=str(d / 'repo'), VF_EVIDENCE=str(d)), capture_output=True, text=True)
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            return [pid, round(time.time() - t, 1), [l for l in r.stdout.splitlines() if l.startswith(('reason', 'failing'))][-1:]]
        if r.returncode not in (0, 1):
            return ['??', pid, r.stdout[-300:] + r.stderr[-300:]]
    return None


if __name__ == '__main__':
    W.mkdir(exist_ok=True)
    cmd = sys.argv[1]
    if cmd == 'gen':
        a = [m for f in FILES for m in mutants(f)]
        random.Random(1).shuffle(a)
        json.dump(a, open(W / 'all.json', 'w'))
        import collections
        print(len(a), collections.Counter(m[0] for m in a), collections.Counter(m[4] for m in a))
    elif cmd == 'tests':
        a = json.load(open(W / 'all.json'))
        r = pool(a, lambda d, m: tests(d), 8, W / 'tests.json')
        json.dump([m for m, ok in r if ok], open(W / 'alive.json', 'w'))
    elif cmd == 'run':
        a = json.load(open(W / 'alive.json'))
        done = [x[0] for x in json.load(open(W / 'result.json'))] if (W / 'result.json').exists() else []
        a = [m for m in a if m not in done][:int(sys.argv[2])]
        pool(a, run_checks, 2, W / ('result_%d.json' % int(time.time())))
