"""C10 statistics and probability reports."""
import math
from fractions import Fraction
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require, Skip
from ..load import D
from ..sut import build, model, same_dist, check_canonical, show, RV, Seq

RULE = ('random dice (custom, pools, sums, products, selections, mixtures; negative, fractional and huge values; skewed and zero weights) with cuts placed on, just around and between the cumulative sums, and filters of every kind; '
        'oracle: exact rational statistics and a validity predicate for the omitted set; non-trivial = three or more values with at least two different weights')

wide = st.one_of(gen.small_int, gen.number, st.integers(-10**15, 10**15), gen.dyadic)


@st.composite
def offset_die(draw):
    """Values close together and far from zero."""
    d = draw(st.one_of(gen.rv_spec(gen.small_int, 7), gen.rv_spec(gen.dyadic, 5), gen.rv_spec(st.integers(0, 3), 4)))
    o = draw(st.sampled_from([10 ** 6, 10 ** 8, 10 ** 9, 10 ** 12, 10 ** 15, 3 * 10 ** 7 + 1])) * draw(st.sampled_from([1, -1]))
    return ['rv', [v + o for v in d[1]], d[2]]


@st.composite
def rare_die(draw):
    """Outcomes of very small probability, or values that hardly differ."""
    d = draw(st.one_of(gen.rv_spec(gen.small_int, 5), gen.rv_spec(gen.dyadic, 4)))
    if draw(st.integers(0, 3)):
        i = draw(st.integers(0, len(d[1]) - 1))
        return ['rv', d[1], [w if j != i else w * 10 ** draw(st.integers(3, 25)) for j, w in enumerate(d[2])]]
    k = draw(st.integers(4, 30))
    return ['rv', [v / 2 ** k for v in d[1]], d[2]]


die = st.one_of(offset_die(), rare_die(), gen.rv_spec(gen.small_number, 9), gen.rv_spec(gen.small_int, 9, gen.weight), gen.rv_spec(wide, 7, gen.weight), gen.rv_spec(gen.small_int, 25, st.integers(0, 5)),
                gen.rv_spec(gen.small_int, 8, st.sampled_from([1, 2, 4, 8, 1, 1])), gen.pool_spec(8, 8, gen.small_int, budget=10**7), gen.pool_spec(4, 30, gen.small_int, budget=10**6),
                st.builds(lambda o, a, b: ['op', o, a, b], st.sampled_from(['+', '-', '*', '<', '==']), gen.pool_spec(3, 6, budget=250), gen.rv_spec(gen.small_number, 5)),
                st.builds(lambda xs, w: ['mix', xs, w[:len(xs)]], st.lists(st.one_of(gen.num_spec(gen.small_int), gen.rv_spec(gen.small_int, 4)), min_size=2, max_size=4), st.lists(gen.pos_weight, min_size=4, max_size=4)))


def dist(c):
    m = model(c)
    return m.dist if isinstance(m, ref.Die) else {m: 1}


def sut(c):
    x = build(c)
    return x if isinstance(x, RV) else RV.from_const(x)


def check_stats(c):
    d = dist(c['die'])
    rv = sut(c['die'])
    t = sum(d.values())
    big = max(abs(v) for v in d)
    mean = sum(Fraction(v) * w for v, w in d.items()) / t
    var = sum((Fraction(v) - mean) ** 2 * w for v, w in d.items()) / t
    for _ in range(2):
        m = rv.mean()
        require(isinstance(m, (int, float)) and abs(Fraction(m) - mean) <= Fraction(big) * Fraction(1, 10 ** 12), 'mean %r, expected %.17g', m, float(mean))
        s = rv.std()
        es = math.sqrt(var)
        require(isinstance(s, (int, float)) and abs(s - es) <= 1e-9 * es + 1e-13 * big, 'std %r, expected %.17g', s, es)
    vp = rv.get_vals_probs()
    require([v for v, _ in vp] == sorted(d), 'values %r, expected %r', [v for v, _ in vp], sorted(d))
    for v, p in vp:
        require(abs(Fraction(p) - Fraction(d[v], t)) <= Fraction(1, 10 ** 14), 'P(%r) = %r, expected %d/%d', v, p, d[v], t)
    require(abs(sum(p for _, p in vp) - 1) < 1e-9, 'probabilities sum to %r', sum(p for _, p in vp))
    cdf = rv.get_cdf()
    check_canonical(cdf, 'cumulative')
    require(list(cdf.vals) == sorted(d), 'cumulative values %r', cdf.vals)
    cum, acc = {}, 0
    for v in sorted(d):
        acc += d[v]
        cum[v] = acc
    same_dist(cdf, cum, 'cumulative')


big = st.one_of(gen.brv(25, 400, weights=gen.BIG_WEIGHTS), gen.brv(25, 120, weights=gen.BIG_WEIGHTS), st.builds(lambda n, m: ['roll', ['num', n], ['num', m]], st.integers(1, 5), st.integers(20, 100)),
                st.builds(lambda o, a, b: ['op', o, a, b], st.sampled_from(['+', '-', '*']), gen.brv(10, 30), gen.brv(5, 20)))


@st.composite
def cut_case(draw, dice=die):
    d = draw(dice)
    return {'die': d, 'where': draw(st.integers(0, 30) if dice is die else st.integers(0, 400)), 'how': draw(st.sampled_from(['at', 'at', 'above', 'below', 'mid', 'abs'])), 'f': draw(st.floats(0, 0.999999))}


def cut_value(c, d):
    t = sum(d.values())
    ws = sorted(d.values())
    if c['how'] == 'abs':
        return c['f']
    i = c['where'] % len(ws)
    acc = Fraction(sum(ws[:i + 1]), t)
    prev = Fraction(sum(ws[:i]), t)
    x = {'at': acc, 'above': acc + Fraction(1, 10 ** 6), 'below': acc - Fraction(1, 10 ** 6), 'mid': (acc + prev) / 2}[c['how']]
    x = float(x)
    return x if 0 <= x <= 0.999999 else 0.0


def valid_cut(d, got, cut):
    """Exactly the least likely values whose total stays below the cut are missing from `got` (any choice among equally likely ones)."""
    t = sum(d.values())
    omitted = [d[v] for v in d if v not in got]
    kept = [d[v] for v in got]
    exact = t & (t - 1) == 0 and t < 2 ** 40
    eps = 0 if exact else Fraction(1, 10 ** 12)
    if cut == 0:
        require(not omitted, 'cut 0 omitted %r', omitted)
        return
    so = Fraction(sum(omitted), t)
    c_ = Fraction(cut)
    require(not omitted or so < c_ + eps, 'cut %r omits a total probability of %s', cut, float(so))
    require(kept, 'cut %r leaves nothing', cut)
    if omitted:
        require(max(omitted) <= min(kept), 'cut %r omits a more likely value (%d/%d) than one it keeps (%d/%d)', cut, max(omitted), t, min(kept), t)
    require(so + Fraction(min(kept), t) >= c_ - eps, 'cut %r keeps a value that could be omitted: omitted %s, next %d/%d', cut, float(so), min(kept), t)


def check_cut(c):
    d = dist(c['die'])
    rv = sut(c['die'])
    t = sum(d.values())
    cut = cut_value(c, d)
    vp = rv.get_vals_probs(cut)
    got = dict(vp)
    require(len(got) == len(vp) and set(got) <= set(d) and [v for v, _ in vp] == sorted(got), 'cut list %r', vp)
    for v, p in got.items():
        require(abs(Fraction(p) - Fraction(d[v], t)) <= Fraction(1, 10 ** 14), 'after a cut P(%r) = %r, expected %d/%d', v, p, d[v], t)
    valid_cut(d, set(got), cut)
    require([v for v, _ in rv.get_vals_probs()] == sorted(d), 'a cut changed the die')


@st.composite
def filter_case(draw, dice=die):
    d = draw(dice)
    m = sorted(dist(d))
    k = draw(st.sampled_from(['num', 'seq', 'list', 'rv', 'pool', 'nest', 'all', 'range']))
    pick = draw(st.lists(st.one_of(st.sampled_from(m), st.sampled_from(m), gen.small_number), max_size=5))
    if k == 'num':
        f = ['num', draw(st.one_of(st.sampled_from(m), gen.small_number))]
    elif k == 'rv':
        f = ['rv', pick or [0], [1] * max(1, len(pick))]
    elif k == 'pool':
        f = draw(gen.pool_spec(2, 4, st.integers(-2, 4), budget=16))
    elif k == 'nest':
        f = ['seq', [['seq', [['num', x] for x in pick[:2]]], ['list', [['num', x] for x in pick[2:]]], ['rv', [99, 1], [1, 1]]]]
    elif k == 'range':
        lo = math.floor(draw(st.sampled_from(m))) + draw(st.integers(-2, 1))
        f = ['range', lo, lo + draw(st.integers(0, 9))]
    elif k == 'all':
        f = ['seq', [['num', x] for x in m]]
    else:
        f = [k, [['num', x] for x in pick]]
    return {'die': d, 'f': f}


@st.composite
def runs_case(draw):
    """Consecutive values filtered by something that is, or looks like, a run of them."""
    m = draw(st.integers(4, 24))
    d = draw(st.one_of(st.just(['roll', ['num', 1], ['num', m]]), st.builds(lambda s, k: ['brv', m, s, k, 'small'], st.integers(0, 10 ** 6), st.sampled_from(['run', 'bumped']))))
    vs = sorted(dist(d))
    how = draw(st.integers(0, 2))
    if how == 0:
        xs = [int(x) for x in draw(gen.ranges_like(m, 2, min(m, 12)))]
    else:  # all but some
        drop = draw(st.sets(st.sampled_from(vs), min_size=1, max_size=3))
        xs = [v for v in vs if v not in drop]
        if how == 2 and xs:
            xs[draw(st.integers(0, len(xs) - 1))] = draw(st.sampled_from(vs + [0, m + 1]))
    return {'die': d, 'f': [draw(st.sampled_from(['seq', 'list'])), [['num', x] for x in xs]]}


def check_filter(c):
    d = dist(c['die'])
    rv = sut(c['die'])
    f = model(c['f'])
    out = set(f.dist) if isinstance(f, ref.Die) else (set(f) if isinstance(f, ref.SeqV) else {f})
    rest = {v: w for v, w in d.items() if v not in out}
    if rest and not any(rest.values()):
        raise Skip('only impossible values left')
    r = rv.filter(build(c['f']))
    require(isinstance(r, RV), 'filter gave %s', show(r))
    if not rest:
        same_dist(r, {0: 1}, 'filter of everything')
        return
    same_dist(r, rest, 'filter', exact_zero=True)
    require(len(r) == 1, 'a filtered die has length %d', len(r))
    same_dist(rv, d, 'the filtered die itself', exact_zero=True)


def nt(c):
    m = dist(c['die'])
    return len(m) >= 3 and len(set(m.values())) >= 2


def lab(c):
    return ['die:' + c['die'][0]] + (['cut:' + c['how']] if 'how' in c else []) + (['filter:' + c['f'][0]] if isinstance(c.get('f'), list) else [])

QUICK_SCALE = 4

TESTS = [
    Test('stats', lambda: st.builds(lambda d: {'die': d}, die), check_stats, nt, lab, 4000, 80000),
    Test('cut', cut_case, check_cut, nt, lab, 5000, 100000),
    Test('filter', filter_case, check_filter, nt, lab, 3000, 60000),
    Test('filterruns', runs_case, check_filter, nt, None, 500, 10000),
    Test('bigstats', lambda: st.builds(lambda d: {'die': d}, big), check_stats, nt, lab, 150, 3000),
    Test('widestats', lambda: st.builds(lambda d: {'die': d}, gen.brv(400, 6000, ('mid', 'wide', 'quarter', 'run', 'positive'), gen.BIG_WEIGHTS)), check_stats, nt, lab, 40, 800),
    Test('bigcut', lambda: cut_case(big), check_cut, nt, lab, 250, 5000),
    Test('bigfilter', lambda: filter_case(big), check_filter, nt, lab, 100, 2000),
]
