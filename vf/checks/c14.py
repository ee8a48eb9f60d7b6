"""C14 function depth limit."""
import contextlib
import io
from hypothesis import strategies as st

from .. import ref
from ..core import Test, require, Skip
from ..load import D
from ..sut import same_value, RV, Seq, BlankRV, show

RULE = ('generated systems of 1..3 mutually recursive decorated functions (number, die, sequence or untyped parameter; either depth decorator) whose bodies call, add, branch, raise, catch, return nothing or dice, change the limit or reset settings; '
        'several outermost calls in a row with the limit varied; oracle: interpreter with an explicit depth counter, comparing results, exceptions, number of times every body ran and warnings; '
        'non-trivial = at least one call was cut by the limit or an exception left a nested call')


class Boom(ValueError):
    pass


class BaseBoom(BaseException):
    pass


EXC = {'value': Boom, 'base': BaseBoom, 'zerodiv': ZeroDivisionError, 'kbd': KeyboardInterrupt, 'exit': SystemExit, 'gen': GeneratorExit, 'recursion': RecursionError}
CAUGHT = tuple(EXC.values()) + (TypeError,)


FUEL = 1500
NF = 3
LITS = {'false': (False, 0), 'true': (True, 1), 'zero': (0.0, 0.0), 'half': (0.5, 0.5), 'empty': ((), ref.SeqV([])), 'seq': ((2, 1), ref.SeqV([2, 1])), 'pool': (None, ref.roll(2, 2))}
kfn = st.integers(0, NF - 1)
leaf = st.one_of(st.builds(lambda k: ['num', k], st.integers(-2, 5)), st.just(['arg']), st.just(['arg']), st.builds(lambda k: ['raise', k], st.sampled_from(['value', 'base', 'zerodiv', 'badcall', 'kbd', 'exit', 'gen', 'recursion'])), st.just(['none']), st.just(['die']), st.builds(lambda k: ['lit', k], st.sampled_from(sorted(LITS))),
                 st.builds(lambda f, k: ['call', f, ['dec', k]], kfn, st.integers(0, 2)), st.builds(lambda f, k: ['call', f, ['dec', k]], kfn, st.integers(0, 2)), st.builds(lambda f: ['call', f, ['coin']], kfn), st.builds(lambda k: ['setm', k], st.integers(1, 12)), st.just(['reset']))
body_st = st.recursive(leaf, lambda ch: st.one_of(
    st.builds(lambda a, b: ['add', a, b], ch, ch), st.builds(lambda k, a, b: ['if', k, a, b], st.integers(-6, 6), ch, ch), st.builds(lambda k, a, b: ['if', k, a, b], st.integers(-6, 2), ch, ch),
    st.builds(lambda a, b: ['try', a, b], ch, ch), st.builds(lambda f, a: ['call', f, a], kfn, ch), st.builds(lambda f, a: ['kwcall', f, a], kfn, ch), st.builds(lambda a: ['lib', a], ch), st.builds(lambda a: ['isblank', a], ch)), max_leaves=7)


@st.composite
def case(draw):
    fns = [{'body': draw(body_st), 'ty': draw(st.sampled_from(['N', 'N', None, 'D', 'S', '0'])), 'deco': draw(st.sampled_from(['cast', 'cast', 'depth']))} for _ in range(NF)]
    tops = draw(st.lists(st.tuples(kfn, st.integers(-1, 8), st.one_of(st.none(), st.integers(1, 14), st.sampled_from([1, 2, 10])), st.sampled_from(['n', 'n', 'n', 'coin', 'reset', 'kw'])), min_size=1, max_size=4))
    return {'fns': fns, 'tops': [list(t) for t in tops]}


class Model:
    def __init__(self, fns):
        self.fns, self.depth, self.m, self.warned, self.warnings, self.runs, self.fuel, self.cut, self.left = fns, 0, 10, False, 0, [0] * len(fns), FUEL, 0, 0

    def call(self, i, v, extra=False):
        if self.depth >= self.m:
            self.cut += 1
            if not self.warned:
                self.warnings += 1
                self.warned = True
            return ref.BLANK
        d = self.depth
        self.depth = d + 1
        try:
            f = self.fns[i]
            ty = f['ty'] if f['deco'] == 'cast' else None
            if f['ty'] == '0':
                v, ty = 0, None
            if extra:
                if ty in ('N', 'S') and (v is ref.BLANK or v is ref.NULL):
                    return ref.NULL
                raise TypeError
            r = self.typed(f, i, ty, v)
            return ref.BLANK if r is None else r
        except BaseException:
            self.left += d > 0
            raise
        finally:
            self.depth = d

    def typed(self, f, i, ty, v):
        if ty in ('N', 'S'):
            if v is ref.BLANK or v is ref.NULL:
                return ref.NULL
            if isinstance(v, ref.Die):
                if v.n != 1:
                    raise Skip('pool argument')
                items = sorted(v.dist.items())
                if len(items) > 12:
                    raise Skip('large')
                return ref.mix([self.run(i, x if ty == 'N' else ref.SeqV([x])) for x, _ in items], [w for _, w in items])
            if ty == 'S' and ref.is_num(v):
                v = ref.SeqV([v])
            if ty == 'N' and isinstance(v, ref.SeqV):
                v = ref.seq_sum(v)
        elif ty == 'D':
            if ref.is_num(v):
                v = ref.const(v)
            elif isinstance(v, ref.SeqV):
                v = ref.die_of_seq(v)
        return self.run(i, v)

    def run(self, i, v):
        self.runs[i] += 1
        self.fuel -= 1
        if self.fuel < 0:
            raise Skip('too many calls')
        return self.ev(self.fns[i]['body'], v)

    def ev(self, e, v):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'arg':
            return v
        if k == 'none':
            return None
        if k == 'die':
            return ref.Die({1: 1, 2: 1})
        if k == 'lit':
            return LITS[e[1]][1]
        if k == 'coin':
            return ref.Die({0: 1, 1: 1})
        if k == 'dec':
            return ref.binop('-', v, e[1])
        if k == 'raise':
            if e[1] in EXC:
                raise EXC[e[1]]
            return self.call(0, 1, extra=True)
        if k == 'setm':
            self.m = e[1]
            return 0
        if k == 'reset':
            self.m, self.warned = 10, False
            return 0
        if k in ('call', 'kwcall'):
            a = self.ev(e[2], v)
            return self.call(e[1], 0 if a is None else a)
        if k == 'add':
            a = self.ev(e[1], v)
            b = self.ev(e[2], v)
            a, b = (0 if a is None else a), (0 if b is None else b)
            if (a is ref.BLANK or b is ref.BLANK) and (isinstance(a, ref.SeqV) or isinstance(b, ref.SeqV)):
                raise Skip('sequence plus blank')
            r = ref.binop('+', a, b)
            if isinstance(r, ref.Die) and len(r.dist) > 60 or ref.is_num(r) and abs(r) > 10 ** 6:
                raise Skip('large')
            return r
        if k == 'if':
            x = v
            x = x if ref.is_num(x) else ref.seq_sum(x) if isinstance(x, ref.SeqV) else min(x.dist) if isinstance(x, ref.Die) else 0
            return self.ev(e[2] if x <= e[1] else e[3], v)
        if k == 'try':
            try:
                return self.ev(e[1], v)
            except CAUGHT:
                return self.ev(e[2], v)
        if k == 'lib':  # a library function is not limited
            a = self.ev(e[1], v)
            a = 0 if a is None else a
            if a is ref.BLANK or a is ref.NULL:
                return ref.NULL
            if isinstance(a, ref.SeqV):
                a = ref.seq_sum(a)
            return abs(a) if ref.is_num(a) else ref.unop('abs', a)
        if k == 'isblank':
            a = self.ev(e[1], v)
            return int(a is ref.BLANK)
        raise AssertionError(k)


class Sut:
    def __init__(self, fns):
        self.runs = [0] * len(fns)
        self.types = [f['ty'] for f in fns]
        self.fns = [self.make(i, f) for i, f in enumerate(fns)]

    def make(self, i, f):
        def body(x):
            self.runs[i] += 1
            return self.ev(f['body'], x)

        def body0():
            self.runs[i] += 1
            return self.ev(f['body'], 0)
        if f['ty'] == '0':
            body = body0
        elif f['ty']:
            body.__annotations__ = {'x': {'N': D.T_N, 'S': D.T_S, 'D': D.T_D}[f['ty']]}
        return (D.anydice_casting if f['deco'] == 'cast' else D.max_func_depth)()(body)

    def call(self, i, a, kw=False):
        if self.types[i] == '0':
            return self.fns[i]()
        return self.fns[i](x=a) if kw else self.fns[i](a)

    def ev(self, e, v):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'arg':
            return v
        if k == 'none':
            return None
        if k == 'die':
            return RV([1, 2], [1, 1])
        if k == 'lit':
            return D.roll(2, 2) if e[1] == 'pool' else Seq(*LITS[e[1]][0]) if isinstance(LITS[e[1]][0], tuple) else LITS[e[1]][0]
        if k == 'coin':
            return RV([0, 1], [1, 1])
        if k == 'dec':
            return v - e[1]
        if k == 'raise':
            if e[1] == 'zerodiv':
                return RV([1, 2], [1, 1]) // 0
            if e[1] in EXC:
                raise EXC[e[1]]
            return self.fns[0](1, 2)
        if k == 'setm':
            D.settings_set('maximum function depth', e[1])
            return 0
        if k == 'reset':
            D.settings_reset()
            return 0
        if k in ('call', 'kwcall'):
            a = self.ev(e[2], v)
            return self.call(e[1], 0 if a is None else a, k == 'kwcall')
        if k == 'add':
            a = self.ev(e[1], v)
            b = self.ev(e[2], v)
            return (0 if a is None else a) + (0 if b is None else b)
        if k == 'if':
            x = v.sum() if isinstance(v, Seq) else min(v.vals) if isinstance(v, RV) else 0 if isinstance(v, BlankRV) else v
            return self.ev(e[2] if x <= e[1] else e[3], v)
        if k == 'try':
            try:
                return self.ev(e[1], v)
            except CAUGHT:
                return self.ev(e[2], v)
        if k == 'lib':
            a = self.ev(e[1], v)
            return D.absolute_X(0 if a is None else a)
        if k == 'isblank':
            a = self.ev(e[1], v)
            return int(isinstance(a, BlankRV) and len(a) == 0)
        raise AssertionError(k)


def simulate(c):
    m = Model(c['fns'])
    res = []
    for i, n, lim, how in c['tops']:
        if how == 'reset':
            m.m, m.warned = 10, False
        if lim is not None:
            m.m = lim
        try:
            res.append(('ok', m.call(i, ref.Die({n: 1, n + 1: 1}) if how == 'coin' else n)))
        except CAUGHT as e:
            res.append(('exc', type(e).__name__))
        assert m.depth == 0
    return m, res


def check(c):
    try:
        m, res = simulate(c)
    except ref.Unsupported as e:
        raise Skip(str(e))
    s = Sut(c['fns'])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for t, (i, n, lim, how) in enumerate(c['tops']):
            if how == 'reset':
                D.settings_reset()
            if lim is not None:
                D.settings_set('maximum function depth', lim)
            what = 'outermost call %d (limit %s)' % (t, lim)
            try:
                r = s.call(i, RV([n, n + 1], [1, 1]) if how == 'coin' else n, how == 'kw')
            except CAUGHT as e:
                require(res[t] == ('exc', type(e).__name__), '%s raised %s: %s, expected %r', what, type(e).__name__, e, res[t])
                continue
            require(res[t][0] == 'ok', '%s returned %s, expected %r', what, show(r), res[t])
            same_value(r, res[t][1], what)
    require(s.runs == m.runs, 'bodies ran %r times, expected %r', s.runs, m.runs)
    text = out.getvalue()
    require(text.count('maximum function depth') == m.warnings, '%d warnings printed, expected %d: %r', text.count('maximum function depth'), m.warnings, text[:200])


def nt(c):
    try:
        m, _ = simulate(c)
    except Exception:
        return False
    return m.cut > 0 or m.left > 0


def lab(c):
    try:
        m, r = simulate(c)
    except Exception:
        return ['skipped']
    return ['cut' if m.cut else 'uncut', 'nested-exception' if m.left else 'no-exception', 'maxruns%d' % (len(str(max(m.runs))))]


def grid(tier):
    """Plain self recursion and mutual recursion for every limit and every need, called after a cut, after an exception, and again."""
    rec = {'body': ['if', 0, ['num', 1], ['add', ['num', 1], ['call', 0, ['dec', 1]]]], 'ty': 'N', 'deco': 'cast'}
    mut = [{'body': ['if', 0, ['num', 5], ['call', 1, ['dec', 1]]], 'ty': None, 'deco': 'depth'}, {'body': ['if', 0, ['isblank', ['call', 0, ['dec', 1]]], ['add', ['call', 2, ['dec', 1]], ['num', 1]]], 'ty': 'N', 'deco': 'cast'}, {'body': ['if', 1, ['raise', 'value'], ['call', 0, ['dec', 1]]], 'ty': 'D', 'deco': 'cast'}]
    for m in range(1, 14):
        for n in range(0, 15):
            yield {'fns': [rec, rec, rec], 'tops': [[0, n, m, 'n'], [0, n, None, 'n'], [0, m - 1, None, 'n'], [0, n, None, 'coin']]}
            yield {'fns': mut, 'tops': [[0, n, m, 'n'], [1, n, None, 'n'], [0, m - 1, None, 'n'], [2, n, None, 'n']]}
    for big in (30, 60, 90):
        yield {'fns': [rec, rec, rec], 'tops': [[0, big - 1, big, 'n'], [0, big, big, 'n'], [0, big + 5, None, 'n'], [0, big - 1, None, 'n']]}


def check_many(c):
    """Hundreds of outermost calls (and of calls inside one call): the budget is the same every time."""
    runs = [0]
    m = c['m']
    D.settings_set('maximum function depth', m)
    ann = {'N': D.T_N, 'S': D.T_S, 'D': D.T_D}.get(c['ty'])

    def f(x, need):
        runs[0] += 1
        if need == 0:
            return 1
        if need < 0:
            raise Boom
        r = g(x=x, need=need - 1) if c['kw'] else g(x, need - 1)
        return r + 1 if not isinstance(r, BlankRV) else r

    def h(k):
        return sum(bool(isinstance(g(1, m), BlankRV)) for _ in range(k))
    if ann:
        f.__annotations__ = {'x': ann}
    deco = {'cast': D.anydice_casting, 'depth': D.max_func_depth}[c['deco']]
    g, hh = deco()(f), deco()(h)
    with contextlib.redirect_stdout(io.StringIO()):
        for i in range(c['n']):
            kind = c['kinds'][i % len(c['kinds'])]
            runs[0] = 0
            when = 'call number %d (%s)' % (i + 1, kind)
            if kind == 'fits':
                r = g(1, m - 1)
                require(r == m and runs[0] == m, '%s: %d nested calls with the limit %d gave %s after %d calls', when, m, m, show(r), runs[0])
            elif kind == 'cut':
                r = g(1, m + 1)
                require(isinstance(r, BlankRV) and runs[0] == m, '%s: too many nested calls with the limit %d gave %s after %d calls', when, m, show(r), runs[0])
            elif kind == 'raise':
                try:
                    g(1, -1)
                except Boom:
                    pass
                else:
                    require(False, '%s: the exception was lost', when)
            else:
                r = hh(7)
                require(r == 7 and runs[0] == 7 * (m - 1), '%s: inside a call %s after %d calls', when, show(r), runs[0])


def check_shapes(c):
    """A chain of functions of every signature (no parameters, defaults, keyword-only, mixed types, closures, bodies that call nothing): cut exactly where the limit says."""
    ran = []
    nxt = None
    for i in reversed(range(len(c['chain']))):
        how, types, bodyk = c['chain'][i]
        names = ['a', 'b', 'c'][:len(types)]
        sig = ', '.join(n + (': T_' + t if t else '') for n, t in zip(names, types))
        call = 'NEXT(%s)' % ', '.join(str(k + 2) for k in range(len(c['chain'][i + 1][1]) if i + 1 < len(c['chain']) and c['chain'][i + 1][0] != 'default' else 0))
        if how == 'default':
            sig = ', '.join('%s=%d' % (x, k) for k, x in enumerate(sig.split(', ')) if x)
        g = {'T_N': D.T_N, 'T_S': D.T_S, 'T_D': D.T_D, 'NEXT': nxt, 'ran': ran, 'range': range, 'sum': sum}
        if nxt is None:
            lines = ['return 7'] if bodyk != 'note' else ['ran.append(1)', 'return 7']
        elif bodyk == 'plain':
            lines = ['return ' + call]
        elif bodyk == 'local':
            lines = ['x = ' + call, 'return x']
        elif bodyk == 'busy':
            lines = ['y = sum(range(4))', 'z = y * 2', 'x = %s' % call, 'return x']
        else:
            lines = ['ran.append(1)', 'return ' + call]
        if how == 'closure' and nxt is not None:
            src = 'def make(NEXT):\n  def f%d(%s):\n%s\n  return f%d\nf%d = make(NEXT)' % (i, sig, '\n'.join('    ' + x for x in lines), i, i)
        else:
            src = 'def f%d(%s):\n%s' % (i, sig, '\n'.join('  ' + x for x in lines))
        exec(src, g)
        nxt = {'cast': D.anydice_casting, 'depth': D.max_func_depth}[c['deco']]()(g['f%d' % i])
    args = range(2, 2 + (len(c['chain'][0][1]) if c['chain'][0][0] != 'default' else 0))
    noted = [x[2] == 'note' for x in c['chain']]
    with contextlib.redirect_stdout(io.StringIO()):
        for m in c['limits']:
            D.settings_set('maximum function depth', m)
            del ran[:]
            r = nxt(*args)
            what = '%d nested calls with the limit %d' % (len(c['chain']), m)
            if len(c['chain']) <= m:
                same_value(r, 7, what)
            else:
                require(isinstance(r, BlankRV), '%s gave %s', what, show(r))
            require(len(ran) == sum(noted[:m]), '%s: %d of the counted bodies ran, expected %d', what, len(ran), sum(noted[:m]))


link = st.tuples(st.sampled_from(['plain', 'plain', 'closure', 'default']), st.lists(st.sampled_from(['N', 'S', 'D', None]), max_size=3), st.sampled_from(['plain', 'local', 'busy', 'note'])).map(list)
shapes_case = st.builds(lambda ch, ms, d: {'chain': ch, 'limits': ms, 'deco': d}, st.lists(link, min_size=1, max_size=9), st.lists(st.integers(1, 10), min_size=1, max_size=5), st.sampled_from(['cast', 'cast', 'depth']))

many_case = st.builds(lambda n, m, ty, kw, deco, kinds: {'n': n, 'm': m, 'ty': ty, 'kw': kw, 'deco': deco, 'kinds': kinds}, st.integers(200, 1200), st.integers(2, 12), st.sampled_from(['N', 'S', 'D', None]), st.booleans(), st.sampled_from(['cast', 'depth']),
                      st.lists(st.sampled_from(['fits', 'fits', 'cut', 'raise', 'inside']), min_size=1, max_size=4))

TESTS = [Test('many', lambda: many_case, check_many, lambda c: c['kinds'] != ['fits'], lambda c: [c['deco']], 24, 200), Test('shapes', lambda: shapes_case, check_shapes, lambda c: min(c['limits']) < len(c['chain']), lambda c: [c['deco']], 1200, 20000), Test('recursion', case, check, nt, lab, 6000, 80000), Test('limits', None, check, nt, lab, cases=grid)]
