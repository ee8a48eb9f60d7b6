"""C03 rolling."""
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require, Skip
from ..load import D
from ..sut import build, model_or_skip, same_value, same_dist, RV, BlankRV

from dice_calc.altcast import D as DIE  # noqa

RULE = ('random counts (negative to large, sequences, dice) and dice (sides, sequences, weighted dice, pools, nested rolls), all notations, sequences of rolls in one process, '
        'and a full grid of counts x sides; oracle: repeated addition over enumerated outcomes; non-trivial = the result has at least two values')

vals = st.one_of(st.integers(-4, 9), st.integers(-4, 9), st.integers(-30, 60), gen.dyadic)
die = st.one_of(st.builds(lambda m: ['num', m], st.integers(-12, 24)), gen.seq_spec(vals, 0, 6), gen.seq_spec(st.integers(1, 4), 1, 8), gen.rv_spec(vals, 6), gen.rv_spec(st.integers(0, 3), 3, gen.weight), gen.list_spec(st.integers(-2, 6), 1, 5))
nested_die = st.one_of(die, die, die, st.builds(lambda n, d: ['roll', ['num', n], d], st.one_of(st.integers(-3, 4), st.integers(-7, 9)), st.one_of(gen.rv_spec(st.integers(-2, 5), 3), gen.rv_spec(st.integers(1, 5), 3), st.builds(lambda m: ['num', m], st.integers(1, 6)))),
                       st.builds(lambda a, b: ['op', '+', a, b], gen.rv_spec(st.integers(-2, 5), 3), gen.rv_spec(st.integers(-2, 5), 3)))
cnt = st.one_of(st.integers(-6, 9), st.integers(-6, 9), st.integers(-3, 30))
count = st.one_of(st.builds(lambda n: ['num', n], cnt), st.builds(lambda n: ['num', n], cnt), gen.seq_spec(st.integers(-2, 4), 0, 4), gen.list_spec(st.integers(-2, 4), 0, 3),
                  gen.rv_spec(st.integers(-3, 6), 4), gen.pool_spec(2, 4, st.integers(-1, 3), budget=20))


def cost_ok(n, d):
    """Bound the work: number of values of the die times count."""
    m = {'num': lambda: abs(d[1]) or 1, 'rv': lambda: len(d[1]), 'seq': lambda: len(d[1]), 'list': lambda: len(d[1]), 'roll': lambda: 30, 'op': lambda: 12}[d[0]]()
    k = abs(n[1]) if n[0] == 'num' else 12
    return m * k <= 400


@st.composite
def one_roll(draw):
    n, d = draw(count), draw(nested_die)
    if not cost_ok(n, d):
        n = ['num', draw(st.integers(-3, 6))]
    return ['roll', n, d]


def check_roll(spec):
    exp = model_or_skip(spec)
    act = build(spec)
    same_value(act, exp, 'roll')
    if exp is ref.BLANK or exp is ref.NULL:
        return
    require(len(act) == exp.n, 'length of roll is %d, expected %d', len(act), exp.n)


def check_one(c):
    check_roll(c['r'])


def check_many(c):
    for _ in range(2):
        for r in c['rs']:
            check_roll(r)


@st.composite
def related(draw):
    """Rolls of dice that differ little (same values other weights, int vs float faces, same die other counts)."""
    base = draw(gen.rv_spec(st.integers(-2, 4), 4))
    v, w = base[1], base[2]
    variants = [base, ['rv', v, w[::-1]], ['rv', [float(x) for x in v], w], ['seq', [['num', x] for x in v]], ['rv', [x + 1 for x in v], w], ['rv', v, [x + 1 for x in w]], ['rv', [-x for x in v], w]]
    rs = []
    for _ in range(draw(st.integers(2, 6))):
        d = draw(st.sampled_from(variants))
        n = draw(st.one_of(st.builds(lambda k: ['num', k], st.integers(-5, 9)), st.builds(lambda k: ['rv', [k, k + 1], [1, 2]], st.integers(-1, 3))))
        rs.append(['roll', n, d])
    return {'rs': rs}


def check_forms(c):
    n, m = c['n'], c['m']
    d1 = ref.roll(1, m)
    same_value(D.roll(m), d1, 'roll(m)')
    same_value(D.roll('d%d' % m), d1, 'roll("dm")')
    same_value(DIE * m, d1, 'D* m')
    e = ref.roll(n, m)
    for what, x in (('roll(n, m)', D.roll(n, m)), ('roll("ndm")', D.roll('%dd%d' % (n, m))), ('n *D* m', n * DIE * m), ('[n] roll', D.roll([n], m)), ('Seq count', D.roll(D.Seq(n), m)),
                    ('roll of roll(m)', D.roll(n, D.roll(m))), ('Seq *D*', D.Seq(n) * DIE * m), ('constant die count', D.roll(RV([n], [1]), m))):
        same_value(x, e, what)
        require(len(x) == (1 if what.startswith('constant') else e.n), '%s has length %d, expected %d', what, len(x), e.n)


def grid(tier):
    hi = 26 if tier == 'quick' else 60
    for n in range(-9, hi):
        for m in range(-8, 22):
            if abs(n) * (abs(m) or 1) <= 300:
                yield {'r': ['roll', ['num', n], ['num', m]]}
    for n in [31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129]:
        for d in (['num', 2], ['num', -3], ['rv', [0, 1], [2, 1]], ['rv', [-1, 0, 5], [1, 1, 1]]):
            yield {'r': ['roll', ['num', n], d]}


def check_indep(c):
    """roll(a+b, d) is roll(a, d) + roll(b, d); rolling a pool k times is rolling k*n."""
    d = build(c['d'])
    a, b = c['a'], c['b']
    if sum(c['d'][2]) ** max(a * b, a + b) > 10 ** 30:
        raise Skip('weights beyond exact range')
    whole = D.roll(a + b, d)
    parts = D.roll(a, d) + D.roll(b, d)
    require(tuple(whole.vals) == tuple(parts.vals) and tuple(whole.probs) == tuple(parts.probs), 'roll(%d) differs from roll(%d)+roll(%d)', a + b, a, b)
    p = D.roll(b, D.roll(a, d))
    q = D.roll(a * b, d)
    require(tuple(p.vals) == tuple(q.vals) and tuple(p.probs) == tuple(q.probs), 'rolling %d times %d dice differs from rolling %d dice', b, a, a * b)


KINDS = ('mid', 'repeat', 'positive', 'zero-one')


def big_case():
    """Many sides, long sequences as dice, dice of many values as counts, many dice of few values."""
    many = st.one_of(st.builds(lambda m: ['num', m], st.one_of(st.integers(25, 400), st.integers(-300, -13))), gen.bseq(9, 100, KINDS), gen.brv(7, 80, KINDS))
    wide = st.one_of(gen.bseq(9, 60), gen.brv(7, 60))
    few = st.one_of(st.builds(lambda m: ['num', m], st.integers(-4, 4)), gen.rv_spec(st.integers(-2, 3), 3, st.integers(1, 2)))
    num = lambda lo, hi: st.builds(lambda n: ['num', n], st.integers(lo, hi))  # noqa
    counts = st.one_of(gen.bseq(5, 60, ['zero-one']), st.builds(lambda v, w: ['rv', v, w], st.lists(st.integers(-6, 24), min_size=5, max_size=12), st.lists(st.integers(1, 5), min_size=12, max_size=12)).map(lambda s: ['rv', s[1], s[2][:len(s[1])]]))
    return st.one_of(st.builds(lambda n, d: {'r': ['roll', n, d]}, num(-3, 4), many), st.builds(lambda n, d: {'r': ['roll', n, d]}, num(-2, 2), wide), st.builds(lambda n, d: {'r': ['roll', n, d]}, num(-60, 110), few), st.builds(lambda n, d: {'r': ['roll', n, d]}, counts, few))


TESTS = [
    Test('one', lambda: st.builds(lambda r: {'r': r}, one_roll()), check_one, lambda c: c['r'][1] != ['num', 0], lambda c: ['count:' + c['r'][1][0], 'die:' + c['r'][2][0]], 5000, 100000),
    Test('related', related, check_many, lambda c: len(c['rs']) > 1, None, 1200, 24000),
    Test('forms', lambda: st.builds(lambda n, m: {'n': n, 'm': m}, st.integers(-8, 14), st.integers(-10, 20)), check_forms, lambda c: c['n'] and c['m'], None, 500, 6000),
    Test('laws', lambda: st.builds(lambda d, a, b: {'d': d, 'a': a, 'b': b}, gen.rv_spec(st.integers(-3, 6), 4, st.integers(1, 3)), st.integers(0, 9), st.integers(0, 5)), check_indep, lambda c: c['a'] + c['b'] > 1, None, 800, 15000),
    Test('big', big_case, check_one, lambda c: c['r'][1] != ['num', 0], lambda c: ['count:' + c['r'][1][0], 'die:' + c['r'][2][0]], 1500, 20000),
    Test('huge', lambda: st.builds(lambda n, d: {'r': ['roll', n, d]}, st.one_of(st.integers(-3, 5).map(lambda n: ['num', n]), gen.rv_spec(st.integers(-1, 3), 3)), st.one_of(gen.rv_spec(gen.huge_mix, 3), gen.seq_spec(gen.huge_mix, 1, 4))), check_one, lambda c: c['r'][1] != ['num', 0], None, 300, 6000),
    Test('grid', None, check_one, lambda c: c['r'][1][1] not in (0, 1), None, cases=grid),
]
