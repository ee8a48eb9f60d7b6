"""C12 immutability and independence of history."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require, Violation
from ..load import D
from .c07 import m_explode
from ..sut import PYOP, PYUN, RV, Seq, BlankRV, roll, get_seq, show, same_value

RULE = ('random histories of up to 30 operations over a growing store (construction, equal-looking twins, rolls, operators, selection, filter, mixtures, typed functions, library functions, reports, failing operations, settings changes); '
        'oracle: snapshots of every earlier value after every few operations and at the end, every operation re-evaluated in another order under its own settings must give the same snapshot, and values with a reference model must equal it; '
        'non-trivial = at least three stored dice, one of them a pool, and at least eight successful operations')

MAXV, MAXLEN = 60, 5
SET_DEF = {'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10, 'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'DEFAULT_OUTPUT_WIDTH': 180}
SET_VALS = {'position order': ['lowest first', 'highest first'], 'explode depth': [1, 3, 2], 'maximum function depth': [1, 2, 5, 10], 'RV_TRUNC': [True, False], 'RV_IGNORE_ZERO_PROBS': [True, False], 'DEFAULT_OUTPUT_WIDTH': [20, 100]}
OPS = ['+', '-', '*', '//', '/', '%', '==', '!=', '<', '<=', '>', '>=', '&', '|']
UNS = ['-', '+', 'abs', 'round', 'floor', 'ceil', 'trunc', '!', '#']
LIB = ['absolute_X', 'explode_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'X_contains_X', 'count_X_in_X']
QUERY = ['mean', 'std', 'out', 'outcut', 'hash', 'cdf', 'vp', 'roller', 'str', 'len', 'iterseq', 'eqself', 'dices_equal', 'zerobased']
BAD = ['dieat', 'zerodiv', 'mismatch', 'negweight', 'boolrv', 'raise', 'deeper', 'badset', 'badtype']

r_ = st.integers(0, 11)
op_st = st.one_of(
    st.builds(lambda x: ['rv', x[1], x[2]], gen.rv_spec(st.integers(-2, 5), 4, st.integers(0, 4))),
    st.builds(lambda x: ['rv', x[1], x[2]], gen.rv_spec(gen.small_number, 4)),
    st.builds(lambda n: ['d', n], st.integers(-3, 6)),
    st.builds(lambda n: ['d', n], st.integers(1, 4)),
    st.builds(lambda k, a: [k, a], st.sampled_from(['float', 'int', 'rebuild', 'unit', 'boolish']), r_),
    st.builds(lambda a, k: ['weights', a, k], r_, st.integers(1, 5)),
    st.builds(lambda n: ['num', n], gen.small_number),
    st.builds(lambda xs: ['seq', xs], st.lists(r_, max_size=4)),
    st.builds(lambda xs: ['nums', xs], st.lists(st.integers(-2, 4), max_size=4)),
    st.builds(lambda xs: ['nums', xs], st.lists(st.integers(-2, 9), min_size=5, max_size=12)),
    st.builds(lambda a: ['copy', a], r_),
    st.builds(lambda xs: ['list', xs], st.lists(r_, max_size=3)),
    st.builds(lambda xs: ['text', xs], st.lists(st.sampled_from(['a', 'b', '1', 2, 3]), min_size=1, max_size=3)),
    st.builds(lambda n, a: ['roll', n, a], st.integers(-2, 4), r_),
    st.builds(lambda n, a: ['roll', n, a], st.integers(2, 4), r_),
    st.builds(lambda n, a: ['roll', n, a], st.integers(2, 3), r_),
    st.builds(lambda a, b: ['rollref', a, b], r_, r_),
    st.builds(lambda o, a, b: ['op', o, a, b], st.sampled_from(OPS), r_, r_),
    st.builds(lambda o, a, b: ['op', o, a, b], st.sampled_from(['+', '+', '-']), r_, r_),
    st.builds(lambda o, a, n, left: ['opn', o, a, n, left], st.sampled_from(OPS + ['+', '-', '*', '**']), r_, st.sampled_from([0, 0, 1, 1, -1, 2, 0.0, 1.0]), st.booleans()),
    st.builds(lambda o, a, n, left: ['opn', o, a, n, left], st.sampled_from(['+', '-', '*', '//', '**']), r_, st.sampled_from([0, 1]), st.booleans()),
    st.builds(lambda o, a: ['un', o, a], st.sampled_from(UNS), r_),
    st.builds(lambda k, a: ['at', k, a], st.one_of(st.integers(0, 4), st.lists(st.integers(0, 4), min_size=1, max_size=3)), r_),
    st.builds(lambda k, a: ['at', k, a], st.integers(1, 3), r_),
    st.builds(lambda a, b: ['filter', a, b], r_, r_),
    st.builds(lambda xs: ['mix', xs, None], st.lists(r_, min_size=1, max_size=2)),
    st.builds(lambda xs, w: ['mix', xs, w], st.lists(r_, min_size=1, max_size=3), st.lists(st.integers(1, 4), min_size=3, max_size=3)),
    st.builds(lambda t, f, a, b: ['call', t, f, a, b], st.sampled_from(['NN', 'SN', 'SS', 'DN', 'DD', 'ND', 'S-', 'N-']), st.sampled_from(['add', 'first', 'none', 'die', 'len', 'top', 'top']), r_, r_),
    st.builds(lambda f, a, b: ['lib', f, a, b], st.sampled_from(LIB), r_, r_),
    st.builds(lambda q, a: ['query', q, a], st.sampled_from(QUERY), r_),
    st.builds(lambda q, a: ['query', q, a], st.sampled_from(QUERY), r_),
    st.builds(lambda n, i: ['set', n, SET_VALS[n][i % len(SET_VALS[n])]], st.sampled_from(sorted(SET_VALS)), st.integers(0, 3)),
    st.just(['restore']), st.just(['restore']),
    st.builds(lambda b, a: ['bad', b, a], st.sampled_from(BAD), r_),
)


def case():
    ops = st.one_of(st.lists(op_st, min_size=3, max_size=12), st.lists(op_st, min_size=12, max_size=20), st.lists(op_st, min_size=20, max_size=34))
    return st.builds(lambda ops, order: {'ops': ops, 'order': order}, ops, st.sampled_from(['fwd', 'rev', 'odd']))


class TooBig(Exception):
    pass


def size(x):
    return len(x.vals) if isinstance(x, RV) else 1


def is_text(x):
    try:
        it = x.vals if isinstance(x, RV) else x if isinstance(x, (Seq, list)) else [x]
        return any(not isinstance(v, (int, float)) for v in it)
    except TypeError:
        return False


def guard(*xs):
    for x in xs:
        if size(x) > MAXV:
            raise TooBig
        if isinstance(x, RV) and (len(x) > MAXLEN or max(p.bit_length() for p in x.probs) > 200):
            raise TooBig
        if isinstance(x, (Seq, list)) and len(x) > 40:
            raise TooBig
        if isinstance(x, (int, float)) and abs(x) > 10 ** 12:
            raise TooBig


def pure_fn(types, kind):
    T = {'N': D.T_N, 'S': D.T_S, 'D': D.T_D}

    def f(a, b=0):
        if kind == 'add':
            return a + b
        if kind == 'first':
            return a
        if kind == 'top':
            return 1 @ a if isinstance(a, (Seq, RV)) else a
        if kind == 'none':
            return None
        if kind == 'die':
            return RV([1, 2], [1, 2])
        return len(a) if isinstance(a, (Seq, RV)) else 1
    f.__annotations__ = {n: T[t] for n, t in zip('ab', types) if t in T}
    return D.anydice_casting()(f)


def evaluate(op, args):
    """Performs one value-producing operation on already resolved operands."""
    k = op[0]
    if k == 'rv':
        return RV(op[1], op[2])
    if k == 'd':
        return roll(op[1])
    if k == 'num':
        return op[1]
    if k == 'nums':
        return Seq(op[1])
    if k == 'text':
        return RV.from_seq(op[1])
    a = args[0] if args else None
    b = args[1] if len(args) > 1 else None
    if k == 'float':
        return RV([float(v) for v in a.vals], a.probs)
    if k == 'int':
        return RV([int(v) for v in a.vals], a.probs)
    if k == 'boolish':
        return RV([bool(v) if v in (0, 1) else v for v in a.vals], a.probs)
    if k == 'rebuild':
        return RV(a.vals, a.probs)
    if k == 'unit':
        return RV(a.vals, [1] * len(a.vals))
    if k == 'weights':
        p = list(a.probs)
        i = op[2] % len(p)
        return RV(a.vals, p[i:] + p[:i]) if len(set(p)) > 1 else RV(a.vals, [q + (j == i) for j, q in enumerate(p)])
    if k == 'seq':
        return Seq(*args)
    if k == 'copy':
        return get_seq(a) if not isinstance(a, Seq) else Seq(a)
    if k == 'list':
        return list(args)
    if k == 'roll':
        return roll(op[1], a)
    if k == 'rollref':
        return roll(a, b)
    if k == 'op':
        return PYOP[op[1]](a, b)
    if k == 'opn':
        return PYOP[op[1]](op[3], a) if op[4] else PYOP[op[1]](a, op[3])
    if k == 'un':
        return PYUN[op[1]](a)
    if k == 'at':
        return op[1] @ a if not isinstance(op[1], list) else Seq(op[1]) @ a
    if k == 'filter':
        return a.filter(b)
    if k == 'mix':
        if any(isinstance(x, (list, Seq)) for x in args):
            raise TypeError('mixtures are of numbers and dice')
        return RV.from_rvs(args, op[2] and op[2][:len(args)])
    if k == 'call':
        return pure_fn(op[1], op[2])(a) if op[1][1] == '-' else pure_fn(op[1], op[2])(a, b)
    if k == 'lib':
        f = getattr(D, op[1])
        return f(a) if op[1].count('X') == 1 else f(a, b)
    raise AssertionError(k)


NARGS = {'rv': 0, 'd': 0, 'num': 0, 'nums': 0, 'text': 0, 'float': 1, 'int': 1, 'boolish': 1, 'rebuild': 1, 'copy': 1, 'unit': 1, 'weights': 1, 'roll': 1, 'rollref': 2, 'op': 2, 'opn': 1, 'un': 1, 'at': 1, 'filter': 2, 'call': 2, 'lib': 2}


def refs(op):
    k = op[0]
    if k in ('seq', 'list', 'mix'):
        return op[1]
    if k in ('float', 'int', 'boolish', 'rebuild', 'copy', 'unit', 'weights', 'filter', 'rollref'):
        return op[1:1 + NARGS[k]]
    if k in ('roll', 'op', 'opn', 'un', 'at', 'lib'):
        return op[2:2 + NARGS[k]]
    if k == 'call':
        return op[3:5]
    return []


def too_big(op, args):
    guard(*args)
    k = op[0]
    n = 1
    if k == 'roll' and op[1] and isinstance(args[0], (RV, int, Seq)):
        s = size(args[0]) if isinstance(args[0], RV) else abs(args[0]) if isinstance(args[0], int) else 9
        if s > 40:
            raise TooBig
    if k == 'rollref':
        a, b = args
        m = max([abs(v) for v in a.vals if isinstance(v, (int, float))] + [0]) if isinstance(a, RV) else abs(a) if isinstance(a, (int, float)) else sum(abs(v) for v in a if isinstance(v, (int, float))) if isinstance(a, (Seq, list)) and not is_text(a) else 0
        s = b if isinstance(b, int) else size(b)
        if m > 4 or abs(s) > 12 or isinstance(a, RV) and len(a.vals) > 6:
            raise TooBig
    if k in ('call', 'lib', 'at'):
        for a in args:
            if isinstance(a, RV):
                base = len(a.vals) if len(a) == 1 else max(2, len(a.vals) // 2)
                n *= base ** min(len(a), 4)
        if n > 1500:
            raise TooBig
    if k == 'op' and size(args[0]) * size(args[1]) > 1500:
        raise TooBig
    if k == 'op' and op[1] in ('*',) and any(isinstance(x, (int, float)) and abs(x) > 10 ** 6 for x in args):
        raise TooBig


def snap(x, deep=True):
    """Everything observable about a value."""
    if isinstance(x, RV):
        s = ['die', [repr(v) for v in x.vals], [type(v).__name__ for v in x.vals], list(x.probs), len(x), str(x)]
        if deep:
            try:
                s += [repr(x.mean()), repr(x.std())]
            except Exception as e:  # text faces have no mean
                s += [type(e).__name__]
            s.append([(repr(v), p) for v, p in x.get_vals_probs()] if sum(x.probs) else None)
            if sum(x.probs) and not is_text(x):  # not those of an equal die seen earlier
                require([v for v, _ in s[-1]] == s[1], 'the die with values %s reports the values %s', s[1], [v for v, _ in s[-1]])
            if len(x) <= 4 and len(x.vals) <= 24:
                for k in range(1, len(x) + 1):
                    y = k @ x
                    s.append([[repr(v) for v in y.vals], list(y.probs)] if isinstance(y, RV) else repr(y))
        return s
    if isinstance(x, Seq):
        if not is_text(x):
            require(repr(x.sum()) == repr(sum(list(x))), 'the sum of %s is %r', list(x), x.sum())
        return ['seq', [repr(v) for v in x], len(x), str(x), None if is_text(x) else repr(x.sum()), repr(1 @ x), repr(len(x) @ x), repr((len(x) + 1) @ x)]
    if isinstance(x, BlankRV):
        return ['blank', len(x), str(x), repr(x)]
    if isinstance(x, list):
        return ['list', [snap(v, False) for v in x]]
    return [type(x).__name__, repr(x)]


def do_query(q, x):
    if q == 'roller' and isinstance(x, (RV, Seq, int)) and not (isinstance(x, Seq) and not len(x)):
        D.roller(x)
    elif q == 'hash' and isinstance(x, RV):
        hash(x)
    elif q in ('out', 'outcut') and not isinstance(x, list):
        D.output(x, named='n', print_=False, **({'cdf_cut': 7} if q == 'outcut' else {}))
    elif q == 'str':
        str(x), repr(x)
    elif q == 'len' and isinstance(x, (RV, Seq, BlankRV)):
        len(x)
    elif q == 'iterseq' and isinstance(x, Seq):
        list(x), x.sum(), sorted(x, key=repr)
    elif q == 'eqself' and isinstance(x, (RV, Seq)):
        x == x, x != x
    elif q == 'zerobased' and isinstance(x, Seq):
        for y in (Seq(x), get_seq(x), Seq(x, []), Seq(list(x))):
            y.set_one_indexed(False)
            require(len(y) == 0 or repr(0 @ y) == repr(list(x)[0]), 'the first element of a copy counted from 0')
    elif q == 'dices_equal' and isinstance(x, RV):
        RV.dices_are_equal(x, x)
    elif isinstance(x, RV) and q in ('mean', 'std', 'cdf', 'vp'):
        {'mean': x.mean, 'std': x.std, 'cdf': x.get_cdf, 'vp': lambda: (x.get_vals_probs(), x.get_vals_probs(0.2))}[q]()


def do_bad(b, x):
    if b == 'dieat':
        RV([1, 2], [1, 1]) @ x
    elif b == 'zerodiv':
        (x if isinstance(x, RV) else roll(2, 4)) // RV([0, 1], [1, 1])
    elif b == 'mismatch':
        RV([1, 2, 3], [1, 2])
    elif b == 'negweight':
        RV([1, 2], [1, -2])
    elif b == 'boolrv':
        bool(x)
    elif b == 'badset':
        D.settings_set('position order', 'sideways')
    elif b == 'badtype':
        x + object()
    elif b == 'raise':
        @D.anydice_casting()
        def f(n: D.T_N, s: D.T_S):
            if n >= 2:
                raise ValueError('x')
            return n
        f(roll(1, 3), x)
    elif b == 'deeper':
        @D.anydice_casting()
        def g(n: D.T_N):
            if n == 0:
                raise KeyError('deep')
            return g(n - 1)
        g(roll(1, 3))


def apply_settings(s):
    for k, v in s.items():
        D.settings_set(k, v)


def perform(op, store):
    """-> ('ok', value) | ('fail',) | ('big',)"""
    args = [store[r % len(store)] for r in refs(op)] if store else []
    if refs(op) and not store:
        return ('big',), args
    try:
        too_big(op, args)
    except TooBig:
        return ('big',), args
    return attempt(op, args), args


def attempt(op, args):
    try:
        return ('ok', evaluate(op, args))
    except (RecursionError, MemoryError, Violation):
        raise
    except Exception as e:  # noqa: a refused operation; only its consistency matters here
        return ('fail', type(e).__name__)


def check(c):
    store, snaps, log = [], [], []
    cur = dict(SET_DEF)
    for i, op in enumerate(c['ops']):
        k = op[0]
        if k == 'set':
            D.settings_set(op[1], op[2])
            cur[op[1]] = op[2]
        elif k == 'restore':
            if i % 2:
                D.settings_reset()
            else:
                apply_settings(SET_DEF)
            cur = dict(SET_DEF)
        elif k in ('query', 'bad'):
            if store:
                try:
                    (do_query if k == 'query' else do_bad)(op[1], store[op[2] % len(store)])
                except (RecursionError, MemoryError, Violation):
                    raise
                except Exception:  # noqa: refused
                    pass
        else:
            r, args = perform(op, store)
            if r[0] == 'big':
                continue
            if r[0] == 'ok':
                x = r[1]
                try:
                    guard(x)
                except TooBig:
                    continue
                keep_type(op, args, x)
                sn = observe(x, SET_DEF, cur)
                log.append((op, args, dict(cur), 'ok', sn))
                store.append(x)
                snaps.append(sn)
            else:
                log.append((op, args, dict(cur), 'fail', r[1]))
        if i % 4 == 3:
            verify(store, snaps, cur, 'after operation %d %r' % (i, op))
    verify(store, snaps, cur, 'at the end')
    order = list(range(len(log)))
    if c['order'] == 'rev':
        order.reverse()
    elif c['order'] == 'odd':
        order = order[1::2] + order[0::2]
    for j in order:
        op, args, s, st_, sn = log[j]
        apply_settings(s)
        r = attempt(op, args)
        require(r[0] == st_, 'operation %d %r: first %s, evaluated again %s', j, op, st_ if st_ == 'ok' else 'failed', 'ok' if r[0] == 'ok' else 'failed with ' + r[1])
        if st_ == 'ok':
            sn2 = observe(r[1], SET_DEF, s)
            require(sn2 == sn, 'operation %d %r evaluated again gives %s, first %s', j, op, diff(sn2, sn), diff(sn, sn2))
    verify(store, snaps, cur, 'after evaluating everything again')


INT_OPS = {'+', '-', '*', '//', '%', '==', '!=', '<', '<=', '>', '>=', '&', '|'}


def all_int(x):
    if isinstance(x, RV):
        return all(type(v) is int for v in x.vals)
    if isinstance(x, (Seq, list, tuple)):
        return all(all_int(v) for v in x)
    return type(x) in (int, bool)


def keep_type(op, args, x):
    """Whole numbers stay whole numbers, whatever equal fractional numbers were used before."""
    k = op[0]
    if not (k in ('roll', 'rollref', 'at', 'filter', 'mix', 'seq', 'copy', 'rebuild') or k == 'op' and op[1] in INT_OPS or k == 'un' or k == 'opn' and op[1] in INT_OPS and type(op[3]) is int):
        return
    if isinstance(x, (RV, Seq, int, float)) and all(isinstance(a, (RV, Seq, list, int)) and all_int(a) for a in args):
        require(all_int(x), '%s of whole numbers only gives %s', k, show(x))


def observe(x, base, cur):
    """Snapshot under the default settings; leaves `cur` in force."""
    apply_settings(base)
    try:
        return snap(x)
    finally:
        apply_settings(cur)


def diff(a, b):
    out = [x for x, y in zip(a, b) if x != y][:2] if len(a) == len(b) else a
    return repr(out)[:300]


def verify(store, snaps, cur, when):
    apply_settings(SET_DEF)
    try:
        for i, (x, s) in enumerate(zip(store, snaps)):
            n = snap(x)
            require(n == s, 'value %d changed %s: was %s, is %s', i, when, diff(s, n), diff(n, s))
    finally:
        apply_settings(cur)


def nt(c):
    ks = [o[0] for o in c['ops']]
    return len(ks) >= 8 and sum(k in ('rv', 'd', 'text') for k in ks) >= 2 and any(o[0] == 'roll' and o[1] >= 2 for o in c['ops'])


def lab(c):
    return sorted({o[0] for o in c['ops']})


# ---- equal-looking dice: every roll of a twin must be what a fresh model says, in any order
@st.composite
def twin_case(draw):
    base = draw(gen.rv_spec(st.integers(-2, 4), 4, st.integers(0, 3)))
    twins = []
    for _ in range(draw(st.integers(2, 6))):
        how = draw(st.sampled_from(['same', 'float', 'half', 'weights', 'text', 'zero', 'bool']))
        twins.append([how, draw(st.integers(-3, 6)), draw(st.sampled_from([None, None, 'RV_TRUNC', 'RV_IGNORE_ZERO_PROBS', 'position order']))])
    return {'base': base, 'twins': twins}


def twin_vals(base, how):
    v, w = list(base[1]), list(base[2])
    if how == 'float':
        return [float(x) for x in v], w
    if how == 'half':
        return [x + 0.5 if i == 0 else x for i, x in enumerate(v)], w
    if how == 'weights':
        return v, [x + (i == 0) for i, x in enumerate(w)]
    if how == 'zero':
        return v + [max(v) + 1], w + [0]
    if how == 'bool':
        return [bool(x) if x in (0, 1) else x for x in v], w
    return v, w


def check_twins(c):
    keep = []
    for how, n, setting in c['twins']:
        if how == 'text':
            rv = RV.from_seq([str(x) for x in c['base'][1]])
            r = roll(abs(n), rv)
            keep.append((r, snap(r), n, None))
            continue
        v, w = twin_vals(c['base'], how)
        if setting == 'position order':
            D.settings_set('position order', 'lowest first')
        elif setting:
            D.settings_set(setting, True)
        vv = [int(x) for x in v] if setting == 'RV_TRUNC' else v
        rv = RV(v, w)
        r = roll(n, rv)
        m = ref.roll(n, ref.die_of_list(vv, w))
        apply_settings(SET_DEF)
        same_value(r, m, 'roll(%d, %r)' % (n, (v, w)))
        exp_float = any(isinstance(x, float) for x in vv)
        require(n == 0 or exp_float or all(isinstance(x, int) for x in r.vals), 'roll(%d, %r) has float values %r', n, (v, w), r.vals)
        if how == 'float' and setting != 'RV_TRUNC' and n:
            require(all(isinstance(x, float) for x in r.vals), 'roll(%d, %r) has integer values %r', n, (v, w), r.vals)
        if setting == 'RV_IGNORE_ZERO_PROBS':
            require(all(r.probs), 'zero weight kept although dropped by setting')
        elif n:
            require(set(r.vals) == set(m.dist), 'roll(%d, %r): values %r, expected %r', n, (v, w), r.vals, sorted(m.dist))
        for x in (r, rv):
            keep.append((x, snap(x), n, None))
    for x, s, n, _ in keep:
        require(snap(x) == s, 'a die changed: was %s, is %s', diff(s, snap(x)), diff(snap(x), s))


# ---- the caller's lists: never changed, and changing them (or a returned list) later changes no die
def recording(got, ty):
    @D.anydice_type_casting()
    def f(a: ty):
        got.append(a)
        return a
    return f


TAKES = {
    'rv': lambda v, w, p: RV(v, w), 'seq': lambda v, w, p: Seq(v), 'seq2': lambda v, w, p: Seq(v, 7, v), 'get_seq': lambda v, w, p: get_seq(v, [v]), 'from_seq': lambda v, w, p: RV.from_seq(v),
    'roll': lambda v, w, p: roll(v), 'rolln': lambda v, w, p: roll(2, v), 'rollcount': lambda v, w, p: roll(v[:2], 2) if sum(v[:2]) < 9 else None, 'mix': lambda v, w, p: RV.from_rvs(v, w), 'mixdice': lambda v, w, p: RV.from_rvs([p, v[0]], w[:2] + [1] * (2 - len(w[:2]))),
    'add': lambda v, w, p: p + v, 'radd': lambda v, w, p: v + p, 'lt': lambda v, w, p: v < p, 'mul': lambda v, w, p: p * v, 'at': lambda v, w, p: v @ p, 'seqat': lambda v, w, p: Seq(v) @ p, 'inseq': lambda v, w, p: 1 @ Seq(v), 'atseq': lambda v, w, p: v @ Seq(5, 6, 7),
    'filter': lambda v, w, p: p.filter(v), 'eq': lambda v, w, p: Seq(v) == v, 'calln': lambda v, w, p: recording([], D.T_N)(v), 'calls': lambda v, w, p: recording([], D.T_S)(v), 'calld': lambda v, w, p: recording([], D.T_D)(v), 'call': lambda v, w, p: recording([], None)(v) and 1,
    'reverse': lambda v, w, p: D.reverse_X(v), 'sort': lambda v, w, p: D.sort_X(v), 'contains': lambda v, w, p: D.X_contains_X(v, 1), 'count': lambda v, w, p: D.count_X_in_X(v, p), 'highest': lambda v, w, p: D.highest_X_of_X(1, v), 'result': lambda v, w, p: pure_result(v),
}


def pure_result(v):
    @D.anydice_casting()
    def f(n: D.T_N):
        return v
    return f(roll(2))


def touch(x):
    """Overwrite everything a caller may legally overwrite in what a query returned."""
    if isinstance(x, list):
        x.clear()
        x.extend([(99, 1), 98])
    elif isinstance(x, dict):
        x.clear()


def check_lists(c):
    v, w = list(c['v']), list(c['w'])
    p = roll(c['n'], RV(c['v'], c['w'])) if sum(c['w']) else roll(c['n'], 3)
    psnap = snap(p)
    kept = []
    for t in c['take']:
        v, w = list(c['v']), list(c['w'])
        try:
            x = TAKES[t](v, w, p)
        except (RecursionError, MemoryError, Violation):
            raise
        except Exception:  # noqa: refused
            x = None
        require(v == c['v'] and w == c['w'] and list(map(type, v)) == list(map(type, c['v'])), '%s changed the list it was given: %r %r', t, v, w)
        s = snap(x)
        kept.append((t, x, s, v, w))
        v.reverse()
        v.append(77)
        w[0] += 5
        require(snap(x) == s, '%s: changing the list afterwards changed the value', t)
        v.clear()
        w.clear()
    for t, x, s, v, w in kept:
        require(v == [] and w == [], 'a list given to %s was changed later', t)
        for y in [x, p]:
            if isinstance(y, RV):
                for q in (y.get_vals_probs, lambda: y.get_vals_probs(0.1), y.get_cdf, lambda: D.roller(y, 3), lambda: y.vals, lambda: y.probs):
                    try:
                        r = q()
                    except (ValueError, ZeroDivisionError, TypeError):
                        continue
                    touch(r)
            elif isinstance(y, Seq):
                touch(list(y))
    for t, x, s, v, w in kept:
        require(snap(x) == s, 'value of %s changed: was %s, is %s', t, s, snap(x))
    require(snap(p) == psnap, 'the pool changed')


# ---- the same few pools used again and again under changing settings: the settings in force decide, not earlier uses
@st.composite
def again_case(draw):
    pools = []
    for _ in range(draw(st.integers(1, 2))):
        d = draw(gen.rv_spec(st.integers(-2, 4), 3, st.integers(1, 3)))
        if draw(st.integers(0, 4)) == 0:
            d = draw(st.sampled_from([['rv', [0], [1]], ['rv', [1], [1]], ['rv', [0, 1], [1, 1]], ['rv', [-1, 1], [1, 1]]]))
        pools.append([draw(st.integers(1, 8 if len(set(d[1])) < 2 else 6 if len(d[1]) < 3 else 4)), d])
    step = st.one_of(st.builds(lambda v: ['order', v], st.booleans()), st.builds(lambda v: ['order', v], st.booleans()), st.builds(lambda v: ['depth', v], st.integers(1, 4)),
                     st.builds(lambda k, p, x: [k, p, x], st.sampled_from(['at', 'ats', 'topS', 'topS', 'dotS', 'midS', 'explode', 'highest', 'fresh', 'neg', 'ops']), st.integers(0, 1), st.integers(1, 6)))
    return {'pools': pools, 'steps': draw(st.lists(step, min_size=4, max_size=14))}


def dot(s):
    return sum((i + 1) * x for i, x in enumerate(s))


@D.anydice_casting()
def f_top(s: D.T_S):
    return 1 @ s


@D.anydice_casting()
def f_dot(s: D.T_S):
    return dot(s)


@D.anydice_casting()
def f_mid(s: D.T_S, n: D.T_N):
    return n @ s


def check_again(c):
    objs = [roll(n, RV(d[1], d[2])) for n, d in c['pools']]
    ms = [ref.roll(n, ref.die_of_list(d[1], d[2])) for n, d in c['pools']]
    low, depth = False, 2
    for i, s in enumerate(c['steps']):
        if s[0] == 'order':
            low = s[1]
            D.settings_set('position order', 'lowest first' if low else 'highest first')
            continue
        if s[0] == 'depth':
            depth = s[1]
            D.settings_set('explode depth', depth)
            continue
        j = s[1] % len(objs)
        x, m = objs[j], ms[j]
        what = 'step %d %r (%s first)' % (i, s, 'lowest' if low else 'highest')
        if s[0] == 'fresh':
            n, d = c['pools'][j]
            x = objs[j] = roll(n, RV(d[1], d[2]))
        elif s[0] == 'neg':
            n, d = c['pools'][j]
            y = roll(-n, RV(d[1], d[2]))
            same_value(y, ref.roll(-n, ref.die_of_list(d[1], d[2])), what)
            require(len(y) == 1 or n == 1, '%s: a negative roll is a pool of %d', what, len(y))
        elif s[0] == 'ops':
            for y in (-x, x + 0, x * 1, abs(x), 0 + x, x - 0, x // 1, x + x):
                require(len(y) == 1, '%s: a sum is a pool of %d', what, len(y))
        require([len(q) for q in objs] == [n for n, _ in c['pools']], '%s: the numbers of dice are %r, expected %r', what, [len(q) for q in objs], c['pools'])
        rolls = ref.rolls_of_pool(m, low)
        per = lambda f: ref.mix([f(q) for q in rolls], list(rolls.values()))  # noqa
        if s[0] == 'at':
            same_value(s[2] @ x, ref.positions_of_pool([s[2]], m.n, m.src(), low), what)
        elif s[0] == 'ats':
            same_value(Seq(1, s[2]) @ x, ref.positions_of_pool([1, s[2]], m.n, m.src(), low), what)
        elif s[0] in ('topS', 'fresh'):
            same_value(f_top(x), per(lambda q: q[0]), what)
        elif s[0] == 'dotS':
            same_value(f_dot(x), per(dot), what)
        elif s[0] == 'midS':
            same_value(f_mid(x, s[2]), per(lambda q: q[s[2] - 1] if s[2] <= len(q) else 0), what)
        elif s[0] == 'explode' and len(m.dist) <= 7:
            same_value(D.explode_X(x), m_explode(ref.Die(m.dist), depth), what)
        elif s[0] == 'highest' and not low:
            same_value(D.highest_X_of_X(s[2], x), per(lambda q: sum(q[:s[2]])), what)


# ---- the same two larger dice combined by several operators one after the other
SIDES = ['+', '-', '*', '==', '!=', '<', '<=', '>', '>=', '&', '|', 'r-', 'r<', 'r>=', 'r+', '//', '/', '%']


def sides_case():
    die = st.one_of(st.integers(6, 30).map(lambda n: [list(range(1, n + 1)), [1] * n]), st.builds(lambda v, s: [v, [1 + (i * s) % 7 for i in range(len(v))]], st.lists(st.integers(-20, 40), min_size=5, max_size=25, unique=True), st.integers(0, 6)))
    return st.builds(lambda a, b, o: {'a': a, 'b': b, 'ops': o}, die, die, st.lists(st.sampled_from(SIDES), min_size=2, max_size=8))


def check_sides(c):
    (va, wa), (vb, wb) = c['a'], c['b']
    a, b = RV(va, wa), RV(vb, wb)
    sa, sb = snap(a), snap(b)
    ma, mb = ref.die_of_list(va, wa), ref.die_of_list(vb, wb)
    for i, o in enumerate(c['ops']):
        x, y, mx, my = (b, a, mb, ma) if o[0] == 'r' else (a, b, ma, mb)
        o = o.lstrip('r')
        if o in ('//', '/', '%') and 0 in my.dist:
            continue
        try:
            e = ref.binop(o, mx, my)
        except (ref.Unsupported, ref.RefFail):
            continue
        same_value(PYOP[o](x, y), e, 'operation %d, %s, of %r' % (i + 1, o, c['ops']))
        if i % 3 == 2:
            a, b = RV(va, wa), RV(vb, wb)  # equal dice, made anew
    require(snap(a) == sa and snap(b) == sb, 'the dice changed')


def check_own(c):
    """What a function does to the sequences it is handed from an expansion stays with that call."""
    low = c['low']
    D.settings_set('position order', 'lowest first' if low else 'highest first')
    die = RV(c['v'], c['w'])
    pools = [roll(k, die) for k in c['n']]
    m = [ref.roll(k, ref.die_of_list(c['v'], c['w'])) for k in c['n']]

    @D.anydice_casting()
    def spoil(s: D.T_S):
        s.set_one_indexed(False)
        return 0 @ s

    @D.anydice_casting()
    def look(s: D.T_S):
        return 1 @ s + 100 * (2 @ s)

    @D.anydice_casting()
    def both(s: D.T_S, t: D.T_S):
        t.set_one_indexed(False)
        return 1 @ s + 100 * (0 @ t)
    for i, (f, j) in enumerate(c['steps']):
        j %= len(pools)
        x = pools[j] if f % 2 else roll(c['n'][j], RV(c['v'], c['w']))
        rolls = ref.rolls_of_pool(m[j], low)
        at = lambda q, k: q[k] if k < len(q) else 0  # noqa
        per = lambda g: ref.mix([g(q) for q in rolls], list(rolls.values()))  # noqa
        what = 'call %d of %r' % (i + 1, c['steps'])
        if f < 2:
            same_value(spoil(x), per(lambda q: q[0]), what)
        elif f < 4:
            same_value(look(x), per(lambda q: q[0] + 100 * at(q, 1)), what)
        else:
            a, b = per(lambda q: q[0]), per(lambda q: 100 * q[0])
            same_value(both(x, x), ref.binop('+', a, b), what)


own_case = st.integers(1, 4).flatmap(lambda n: st.builds(lambda v, w, ks, steps, low: {'v': v, 'w': w, 'n': ks, 'steps': steps, 'low': low}, st.lists(st.integers(-2, 6), min_size=n, max_size=n), st.lists(st.integers(1, 4), min_size=n, max_size=n),
                                 st.lists(st.integers(2, 3), min_size=1, max_size=2), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 1)).map(list), min_size=2, max_size=6), st.booleans()))

QUICK_SCALE = 1.5

TESTS = [
    Test('history', case, check, nt, lab, 8000, 80000),
    Test('again', again_case, check_again, lambda c: len({repr(s) for s in c['steps'] if s[0] == 'order'}) == 2, lambda c: sorted({s[0] for s in c['steps']}), 1200, 20000),
    Test('own', lambda: own_case, check_own, lambda c: len(c['v']) > 1, None, 200, 4000),
    Test('sides', sides_case, check_sides, lambda c: len(c['a'][0]) * len(c['b'][0]) > 60 and len(set(c['ops'])) > 1, lambda c: sorted(set(c['ops'])), 300, 6000),
    Test('twins', twin_case, check_twins, lambda c: len(c['twins']) >= 3, lambda c: sorted({t[0] for t in c['twins']}), 2400, 40000),
    Test('lists', lambda: st.integers(1, 4).flatmap(lambda n: st.builds(lambda v, w, k, t: {'v': v, 'w': w, 'n': k, 'take': t}, st.lists(st.one_of(st.integers(-2, 5), st.integers(0, 3), st.just(0.5), st.just(True)), min_size=n, max_size=n), st.lists(st.integers(0, 4), min_size=n, max_size=n), st.integers(1, 3),
                                                          st.lists(st.sampled_from(sorted(TAKES)), min_size=3, max_size=8))), check_lists, lambda c: len(c['v']) > 1, lambda c: sorted(set(c['take'])), 1200, 30000),
]
