"""C01 construction."""
import math
import random
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require
from ..load import D
from ..sut import build, model, check_canonical, must_fail, short, RV, Seq

RULE = ('random value/weight lists (ints of all magnitudes, dyadic floats, bools, duplicates, zero weights), constants and nested sequences; '
        'oracle: independent grouping/sorting/reduction; non-trivial = at least two entries and (a duplicate value, an unsorted list, a zero or a reducible weight)')

value = st.one_of(gen.number, gen.number, gen.small_int, gen.near, st.booleans(), st.sampled_from([0, 0.0, 1, 1.0, -1, 10**18, 10**18 + 1, 2**53, 2**53 + 1, 1e300, -1e300, 1e-300]))
wt = st.one_of(gen.weight, gen.weight, st.integers(0, 10**25), st.just(0), st.sampled_from([2, 4, 6, 2**70, 10**40]))


def expected(vals, weights):
    """Independent: dict grouping then sorting."""
    d = {}
    for v, w in zip(vals, weights):
        v = int(v) if isinstance(v, bool) else v
        d[v] = d.get(v, 0) + w
    g = math.gcd(*d.values()) if d else 0
    items = sorted(d.items())
    return [(k, w // g if g > 1 else w) for k, w in items] or [(0, 1)]


def same_exact(rv, exp, what='RV'):
    require(isinstance(rv, RV), '%s is a %s', what, type(rv).__name__)
    check_canonical(rv, what)
    got = list(zip(rv.vals, rv.probs))
    require(got == exp, '%s: got %s, expected %s', what, short(got), short(exp))


@st.composite
def lists(draw):
    n = draw(st.one_of(st.integers(0, 8), st.integers(0, 30)))
    pool = draw(st.lists(value, min_size=1, max_size=6))
    vals = [draw(st.one_of(st.sampled_from(pool), value)) for _ in range(n)]
    ws = [draw(wt) for _ in range(n)]
    if draw(st.booleans()):
        k = draw(st.integers(2, 12))
        ws = [w * k for w in ws]
    return {'v': vals, 'w': ws, 'as': draw(st.sampled_from(['list', 'tuple', 'iter', 'gen']))}


@st.composite
def long_lists(draw):
    """Many values; weights with a common factor that only some of them lack."""
    r = random.Random(draw(st.integers(0, 2 ** 40)))
    n = r.choice([20, 33, 40, 65, 100, 150, 257] * 9 + [520, 600, 1001, 1030, 1100, 2100])
    k = r.choice([1, 2, 3, 6, 10])
    vals = [r.choice([r.randint(-n, n), r.randint(-n, n), r.randint(-4 * n, 4 * n) / 4]) for _ in range(n)]
    ws = [k * r.randint(0, 5) for _ in range(n)]
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        ws[r.randrange(n)] = r.choice([1, k + 1, 2, 7, 0])
    if r.random() < .3:
        vals.sort()
    if r.random() < .2:
        vals = [v * 1.0 for v in vals]
    return {'v': vals, 'w': ws, 'as': r.choice(['list', 'tuple', 'iter', 'gen'])}


def wrap(xs, how):
    if how == 'list':
        return list(xs)
    if how == 'tuple':
        return tuple(xs)
    if how == 'iter':
        return iter(list(xs))
    return (x for x in list(xs))


def check_lists(c):
    rv = RV(wrap(c['v'], c['as']), wrap(c['w'], c['as']))
    exp = expected(c['v'], c['w'])
    same_exact(rv, exp)
    # the same multiset in another order, and split weights, give the same die
    idx = sorted(range(len(c['v'])), key=lambda i: (i * 7919) % 101)
    rv2 = RV([c['v'][i] for i in idx], [c['w'][i] for i in idx])
    same_exact(rv2, exp, 'RV of a permuted list')
    vs, ws = [], []
    for v, w in zip(c['v'], c['w']):
        vs += [v, v]
        ws += [w // 3, w - w // 3]
    same_exact(RV(vs, ws), exp, 'RV with split weights')
    require(len(rv) == 1, 'a constructed die has length %d', len(rv))
    cut = [int(v) for v in c['v']]
    same_exact(RV(wrap(c['v'], c['as']), wrap(c['w'], c['as']), truncate=True), expected(cut, c['w']), 'RV with truncate=True')
    same_exact(RV(wrap(c['v'], c['as']), wrap(c['w'], c['as']), truncate=False), exp, 'RV with truncate=False')


def nt_lists(c):
    v = c['v']
    return len(v) >= 2 and (len(set(v)) < len(v) or sorted(v) != v or 0 in c['w'] or math.gcd(*c['w']) > 1)


@st.composite
def bad_lists(draw):
    c = draw(st.one_of(lists(), lists(), long_lists()))
    kind = draw(st.sampled_from(['longer', 'shorter', 'negative', 'float', 'fraction', 'str', 'negfloat']))
    v, w = list(c['v']), list(c['w'])
    if not v:
        v, w = [1], [1]
    if kind == 'longer':
        w = w + [draw(wt) for _ in range(draw(st.integers(1, 3)))]
    elif kind == 'shorter':
        w = w[:-1]
    else:
        i = draw(st.integers(0, len(w) - 1))
        w[i] = {'negative': -draw(st.integers(1, 50)), 'float': float(draw(st.integers(0, 9))), 'fraction': draw(st.integers(0, 9)) + 0.5, 'str': '1',
                'negfloat': -1.5}[kind]
    return {'v': v, 'w': w, 'kind': kind}


def check_bad(c):
    must_fail(lambda: RV(c['v'], c['w']), 'RV(%r, %r)' % (c['v'], c['w']))


def check_iter(c):
    """Ranges of every step and length, and other plain iterables of numbers."""
    r = range(c['a'], c['a'] + c['s'] * c['n'], c['s'])
    xs = list(r)
    exp = expected(xs, [1] * len(xs))
    same_exact(RV.from_seq(r), exp, 'from_seq(%r)' % (r,))
    same_exact(RV.from_seq(Seq(r)), exp, 'from_seq(Seq(%r))' % (r,))
    same_exact(RV.from_seq(tuple(r)), exp, 'from_seq(tuple)')
    same_exact(RV.from_seq([r, [r]]), expected(xs * 2, [1] * len(xs) * 2), 'from_seq of nested ranges')
    same_exact(RV(r, [1] * len(xs)), exp, 'RV(%r)' % (r,))
    same_exact(RV(r, (c['w'] for _ in xs)), exp if c['w'] else [(v, 0) for v, _ in exp] if xs else exp, 'RV of a range with weight %d' % c['w'])
    if xs:
        same_exact(D.roll(Seq(r)), exp, 'roll(Seq(range))')
        same_exact(D.roll(1, Seq(r)), exp, 'roll(1, Seq(range))')


leaf = st.one_of(gen.num_spec(value), gen.num_spec(value), gen.rv_spec(gen.small_int, 4), gen.rv_spec(gen.small_int, 5, st.integers(0, 2), min_size=2), st.builds(lambda a, b: ['range', a, b], st.integers(-4, 3), st.integers(-4, 7)),
                 st.builds(lambda n, m: ['roll', ['num', n], ['num', m]], st.integers(1, 3), st.integers(1, 5)))
nest = st.recursive(leaf, lambda ch: st.builds(lambda t, xs: [t, xs], st.sampled_from(['list', 'tuple', 'seq', 'gseq']), st.lists(ch, max_size=5)), max_leaves=12)


@st.composite
def nested(draw):
    """Some items occur again (build() often gives the same object for them)."""
    xs = draw(st.lists(nest, max_size=4))
    for _ in range(draw(st.integers(0, 2))):
        if xs:
            x = draw(st.sampled_from(xs))
            if x[0] in ('list', 'tuple', 'seq', 'gseq') and x[1] and draw(st.booleans()):
                x = draw(st.sampled_from(x[1]))
            xs.insert(draw(st.integers(0, len(xs))), x)
    return {'items': xs}


def check_seq(c):
    items = [build(x) for x in c['items']]
    elems = list(ref.flat([model(x) for x in c['items']]))
    exp = expected(elems, [1] * len(elems))
    same_exact(RV.from_seq(items), exp, 'from_seq(list)')
    same_exact(RV.from_seq(Seq(*items)), exp, 'from_seq(Seq)')
    same_exact(RV.from_seq(D.get_seq(*items)), exp, 'from_seq(get_seq)')
    if elems:
        same_exact(D.roll(items), exp, 'roll(list)')
        require(bool(RV.dices_are_equal(RV.from_seq(items), list(elems))), 'a die is not equal to the list it was made from')


def check_const(c):
    x = c['x']
    same_exact(RV.from_const(x), [(int(x) if isinstance(x, bool) else x, 1)], 'from_const')
    for other, eq in ((x, True), ([x], True), (Seq(x, x), True), (x + 1, x + 1 == x), ([x, x + 1], x + 1 == x)):
        require(bool(RV.dices_are_equal(RV.from_const(x), other)) == eq and bool(RV.dices_are_equal(other, RV.from_const(x))) == eq, 'dices_are_equal of the constant %r and %r is not %s', x, other, eq)
    require(RV.dices_are_equal(RV.from_const(x), RV([x], [5])), 'constant die not equal to itself')


def check_equal(c):
    a, b = RV(c['a']['v'], c['a']['w']), RV(c['b']['v'], c['b']['w'])
    ea, eb = expected(c['a']['v'], c['a']['w']), expected(c['b']['v'], c['b']['w'])
    require(bool(RV.dices_are_equal(a, b)) == (ea == eb), 'dices_are_equal(%s, %s)', short(ea), short(eb))
    require(bool(RV.dices_are_equal(a, RV(c['a']['v'][::-1], [3 * w for w in c['a']['w'][::-1]]))), 'a die is not equal to its reordered, rescaled self')
    if ea == eb:
        require(hash(a) == hash(b), 'equal dice have different hashes')


eq_case = st.builds(lambda a, b, same: {'a': a, 'b': a if same else b}, lists(), lists(), st.booleans())



@st.composite
def near_case(draw):
    """Two dice that differ in one place, or not at all."""
    a = draw(st.one_of(lists(), long_lists()).filter(lambda c: len(c['v']) > 0))
    v, w = list(a['v']), list(a['w'])
    i = draw(st.sampled_from([0, len(v) - 1, len(v) // 2, draw(st.integers(0, len(v) - 1))]))
    how = draw(st.sampled_from(['weight', 'value', 'append', 'drop', 'zero', 'float', 'swap']))
    if how == 'weight':
        w[i] += draw(st.sampled_from([1, 2, 10 ** 6]))
    elif how == 'value':
        v[i] = draw(value)
    elif how == 'append':
        v, w = v + [draw(value)], w + [draw(st.integers(0, 2))]
    elif how == 'drop' and len(v) > 1:
        del v[i], w[i]
    elif how == 'zero':
        w[i] = 0
    elif how == 'float':
        v = [float(x) if isinstance(x, int) and abs(x) < 2 ** 50 else x for x in v]
    elif how == 'swap':
        j = draw(st.integers(0, len(v) - 1))
        w[i], w[j] = w[j], w[i]
    return {'a': {'v': a['v'], 'w': a['w']}, 'b': {'v': v, 'w': w}}


QUICK_SCALE = 2

TESTS = [
    Test('lists', lists, check_lists, nt_lists, lambda c: ['n%d' % min(len(c['v']), 4), c['as']], 4000, 80000),
    Test('long', long_lists, check_lists, nt_lists, lambda c: ['n>64'] if len(c['v']) > 64 else [], 1200, 20000),
    Test('bad', bad_lists, check_bad, lambda c: True, lambda c: [c['kind']], 800, 8000),
    Test('nested', nested, check_seq,
         lambda c: len(c['items']) > 1 or gen.contains_tag(c['items'], 'rv'), lambda c: [t for t in ('rv', 'roll', 'range', 'list', 'seq') if gen.contains_tag(c['items'], t)], 4000, 60000),
    Test('ranges', lambda: st.builds(lambda a, s, n, w: {'a': a, 's': s, 'n': n, 'w': w}, st.integers(-30, 30), st.sampled_from([1, 1, 2, 3, 5, -1, -2, 10 ** 6]), st.one_of(st.integers(0, 12), st.integers(0, 200)), st.integers(1, 4)), check_iter, lambda c: c['n'] > 1, lambda c: ['step%d' % c['s']], 300, 5000),
    Test('const', lambda: st.builds(lambda x: {'x': x}, value), check_const, lambda c: True, None, 300, 3000, shards=1),
    Test('near', near_case, check_equal, lambda c: len(c['a']['v']) > 1, None, 1000, 20000),
    Test('equality', lambda: eq_case, check_equal, lambda c: len(c['a']['v']) > 1, lambda c: ['same' if c['a'] == c['b'] else 'different'], 1000, 20000),
]
