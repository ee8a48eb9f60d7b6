"""C04 position selection."""
import itertools
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require, Skip
from ..load import D
from ..sut import build, model_or_skip, same_value, same_dist, must_fail, show, RV

RULE = ('random pools (1..7 dice; sides, sequences, weighted dice with negative, repeated and fractional faces), single positions and position lists (out of range, repeated, any order), both position orders, '
        'non-pools and forbidden selectors; oracle: dynamic programme over faces; non-trivial = at least two dice with at least two faces and some position in range')

face = st.one_of(st.integers(-5, 8), st.integers(-5, 8), gen.dyadic, st.integers(-100, 100))


@st.composite
def pool(draw):
    return draw(st.one_of(gen.pool_spec(7, 6, face, budget=400), gen.pool_spec(4, 8, face, budget=500), gen.pool_spec(9, 3, face, gen.pos_weight, budget=20000, min_n=2)))


@st.composite
def single(draw):
    p = draw(st.one_of(pool(), gen.pool_spec(14, 6, face, budget=10**12)))
    n = p[1][1]
    return {'p': p, 'k': draw(st.one_of(st.integers(1, n), st.integers(1, n), st.integers(-1, n + 2))), 'low': draw(st.booleans()), 'as': draw(st.sampled_from(['num', 'num', 'seq', 'list', 'tuple']))}


def set_order(c):
    D.settings_set('position order', 'lowest first' if c['low'] else 'highest first')


def selector(c, ks):
    how = c['as']
    return {'num': lambda: ks[0], 'seq': lambda: D.Seq(*ks), 'gseq': lambda: D.get_seq(ks), 'list': lambda: list(ks), 'tuple': lambda: tuple(ks)}[how]()


def faces(p):
    d = p[2]
    if d[0] in ('brv', 'bseq'):
        return d[1]
    return abs(d[1]) if d[0] == 'num' else len(set(map(str, d[1])))


def check_single(c):
    set_order(c)
    m = model_or_skip(c['p'])
    exp = ref.positions_of_pool([c['k']], m.n, m.src(), c['low'])
    act = selector(c, [c['k']]) @ build(c['p'])
    same_value(act, exp, '%d @ pool (%s)' % (c['k'], 'lowest first' if c['low'] else 'highest first'))
    if isinstance(act, RV):
        require(len(act) == 1, 'a selected position has length %d', len(act))


@st.composite
def multi(draw):
    p = draw(pool())
    n = p[1][1]
    ks = draw(st.lists(st.one_of(st.integers(1, n), st.integers(1, n), st.integers(-1, n + 2)), min_size=0, max_size=6))
    return {'p': p, 'ks': ks, 'low': draw(st.booleans()), 'as': draw(st.sampled_from(['seq', 'gseq', 'list', 'tuple']))}


def check_multi(c):
    set_order(c)
    m = model_or_skip(c['p'])
    exp = ref.positions_of_pool(c['ks'], m.n, m.src(), c['low'])
    act = selector(c, c['ks']) @ build(c['p'])
    same_value(act, exp, '%r @ pool (%s)' % (c['ks'], 'lowest first' if c['low'] else 'highest first'))


@st.composite
def nonpool(draw):
    d = st.one_of(gen.rv_spec(gen.small_number, 4), st.builds(lambda a, b: ['op', '+', a, b], gen.pool_spec(2, 3, st.integers(0, 3), budget=9), gen.rv_spec(st.integers(0, 4), 3)),
                  st.builds(lambda a, x: ['op', '*', a, ['num', x]], gen.pool_spec(2, 3, st.integers(0, 3), budget=9), st.integers(1, 3)),
                  st.builds(lambda op, a: ['un', op, a], st.sampled_from(['round', 'abs', 'floor', 'ceil', 'trunc', '-']), gen.pool_spec(3, 4, st.integers(-4, 4), budget=27)),
                  st.builds(lambda op, a, x, f: ['op', op, a, ['num', x]] if not f else ['op', op, ['num', x], a], st.sampled_from(['+', '*', '-', '//']), gen.pool_spec(2, 4, st.integers(-3, 3), budget=16), st.integers(0, 1), st.booleans()),
                  st.builds(lambda n, m: ['roll', n, m], gen.rv_spec(st.integers(0, 3), 3), gen.rv_spec(st.integers(-1, 4), 3)),
                  st.builds(lambda n, m: ['roll', n, ['num', m]], gen.rv_spec(st.integers(0, 3), 3), st.integers(1, 6)),
                  st.builds(lambda n, m: ['roll', ['num', -n], ['num', m]], st.integers(1, 3), st.integers(1, 5)),
                  st.builds(lambda ms: ['mix', ms, [1] * len(ms)], st.lists(gen.pool_spec(2, 3, st.integers(0, 3), budget=9), min_size=1, max_size=3)))
    return {'d': draw(d), 'ks': draw(st.one_of(st.lists(st.integers(-1, 3), min_size=1, max_size=1), st.lists(st.integers(-1, 3), min_size=0, max_size=3))), 'low': draw(st.booleans()), 'as': 'seq'}


def check_nonpool(c):
    set_order(c)
    try:
        m = model_or_skip(c['d'])
    except ref.RefFail:
        raise Skip('division by zero')
    if c['d'][0] not in ('op', 'un'):
        require_single(m)
    exp = ref.positions_of_pool(c['ks'], 1, m.dist, c['low'])
    x = build(c['d'])
    require(len(x) == 1, 'a die that is not a pool has length %d', len(x))
    same_value(selector(c, c['ks']) @ x, exp, '%r @ single die' % (c['ks'],))
    if len(c['ks']) == 1:
        same_value(c['ks'][0] @ x, exp, '%r @ single die' % (c['ks'][0],))


def require_single(m):
    if m.n != 1:
        raise Skip('pool')


def check_total(c):
    """All positions together are the whole pool; position k high is position n+1-k low."""
    x, m = build(c['p']), model_or_skip(c['p'])
    n = m.n
    same_value(D.Seq(*range(1, n + 1)) @ x, ref.Die(ref.sum_of(n, m.src())), 'all positions')
    for k in range(1, n + 1):
        D.settings_set('position order', 'highest first')
        hi = k @ x
        D.settings_set('position order', 'lowest first')
        lo = (n + 1 - k) @ x
        require(tuple(hi.vals) == tuple(lo.vals) and tuple(hi.probs) == tuple(lo.probs), 'highest %d of %d differs from lowest %d', k, n, n + 1 - k)


def check_bad(c):
    x = build(c['sel'])
    t = build(c['target'])
    must_fail(lambda: x @ t, 'die @ %s' % c['target'][0])


def grid(tier):
    dice = [['num', m] for m in (1, 2, 3, 6, 10, -3, 0)] + [['rv', [0, 1], [3, 1]], ['rv', [-2, 0, 5], [1, 2, 1]], ['seq', [['num', 1], ['num', 1], ['num', 4]]]]
    for n in range(1, 9):
        for d in dice:
            for low in (False, True):
                for k in range(-1, n + 3):
                    yield {'p': ['roll', ['num', n], d], 'k': k, 'low': low, 'as': 'num'}


def mgrid(tier):
    dice = [['num', 3], ['rv', [0, 1, 7], [3, 1, 2]]]
    for n in range(1, 5):
        for d in dice:
            for low in (False, True):
                for r in range(0, 4):
                    for ks in itertools.product(range(0, n + 2), repeat=r):
                        if list(ks) == sorted(ks) or tier == 'thorough':
                            yield {'p': ['roll', ['num', n], d], 'ks': list(ks), 'low': low, 'as': 'seq'}


def wgrid(tier):
    """Every small vector of weights, also zero ones: pools whose total weight or number of faces coincides with that of another die."""
    for f in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for ws in itertools.product(range(0, 4), repeat=f):
            if any(ws):
                for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
                    for k in range(1, n + 1) if tier == 'thorough' else {1, n}:
                        for low in (False, True) if tier == 'thorough' else (bool((sum(ws) + n) % 2),):
                            yield {'p': ['roll', ['num', n], ['rv', [-1, 0, 2, 5, 6][:f], list(ws)]], 'k': k, 'low': low, 'as': 'num'}


def nt(c):
    ks = c.get('ks', [c.get('k')])
    n = c['p'][1][1]
    return n > 1 and faces(c['p']) > 1 and any(1 <= k <= n for k in ks)

@st.composite
def big_case(draw):
    """Many dice, many faces, long position lists."""
    how = draw(st.integers(0, 3))
    if how == 0:
        die, n = draw(st.one_of(gen.rv_spec(st.integers(-2, 4), 3, st.integers(1, 3)), st.builds(lambda m: ['num', m], st.integers(2, 4)))), draw(st.integers(10, 40))
    elif how == 1:
        die, n = draw(st.one_of(gen.brv(9, 40), st.builds(lambda m: ['num', m], st.integers(8, 40)))), draw(st.integers(2, 5))
    else:
        die, n = draw(st.one_of(gen.rv_spec(st.integers(-2, 4), 2, st.integers(1, 3)), st.sampled_from([['num', 2], ['rv', [0, 1], [1, 1]], ['num', -2]]))), draw(st.integers(8, 36))
    if die[0] == 'rv' and draw(st.booleans()):  # impossible faces, most often the highest or the lowest one
        v = sorted(set(die[1]))
        die = ['rv', v, [1] * len(v)]
        for i in draw(st.lists(st.sampled_from([0, 0, -1, -1, len(v) // 2]), min_size=1, max_size=len(v) - 1)) if len(v) > 1 else []:
            die[2][i] = 0
        if not any(die[2]):
            die[2][draw(st.integers(0, len(v) - 1))] = draw(st.integers(1, 2))
    if how < 2 and draw(st.booleans()):
        return {'p': ['roll', ['num', n], die], 'ks': [draw(st.integers(1, n))], 'low': draw(st.booleans()), 'as': draw(st.sampled_from(['seq', 'list', 'num']))}
    if how == 0:
        n = min(n, 16)
    if how == 1:
        n = min(n, 3 if faces(['roll', 0, die]) < 20 else 2)
    ks = draw(st.lists(st.one_of(st.integers(1, n), st.integers(1, n), st.integers(-1, n + 2)), min_size=1, max_size=draw(st.sampled_from([3, 10, 40]))))
    return {'p': ['roll', ['num', n], die], 'ks': ks, 'low': draw(st.booleans()), 'as': draw(st.sampled_from(['seq', 'gseq', 'list', 'tuple']))}


@st.composite
def many_case(draw):
    """One position of very many dice with few faces (exact weights of hundreds of bits)."""
    n = draw(st.integers(40, 160))
    die = draw(st.one_of(gen.rv_spec(st.integers(-2, 4), 3, st.integers(1, 3)), gen.rv_spec(st.integers(-2, 4), 3, st.integers(0, 1)), st.builds(lambda m: ['num', m], st.sampled_from([2, 2, 3, -2]))))
    k = draw(st.one_of(st.integers(1, n), st.integers(n // 2 - 3, n // 2 + 3), st.sampled_from([1, 2, n - 1, n])))
    return {'p': ['roll', ['num', n], die], 'ks': [k], 'low': draw(st.booleans()), 'as': draw(st.sampled_from(['seq', 'list', 'num', 'num']))}


QUICK_SCALE = 3

TESTS = [
    Test('single', single, check_single, nt, lambda c: ['low' if c['low'] else 'high', 'n%d' % min(c['p'][1][1], 8), c['p'][2][0]], 3000, 60000),
    Test('multi', multi, check_multi, nt, lambda c: ['low' if c['low'] else 'high', 'k%d' % len(c['ks']), 'dup' if len(set(c['ks'])) < len(c['ks']) else 'nodup'], 3000, 60000),
    Test('nonpool', nonpool, check_nonpool, lambda c: 1 in c['ks'], lambda c: [c['d'][0]], 1200, 20000),
    Test('total', lambda: st.builds(lambda p: {'p': p}, gen.pool_spec(6, 6, face, budget=500)), check_total, lambda c: c['p'][1][1] > 1 and faces(c['p']) > 1, None, 600, 10000),
    Test('selector', lambda: st.builds(lambda s, t: {'sel': s, 'target': t}, gen.die_spec(gen.small_int), st.one_of(gen.die_spec(gen.small_int), gen.seq_spec(), gen.num_spec())), check_bad, lambda c: True, lambda c: [c['target'][0]], 300, 3000, shards=2),
    Test('big', big_case, check_multi, nt, lambda c: ['k%d' % min(len(c['ks']), 7), 'n%d' % (c['p'][1][1] // 10 * 10)], 400, 8000),
    Test('many', many_case, check_multi, nt, lambda c: ['n%d' % (c['p'][1][1] // 20 * 20)], 250, 5000),
    Test('huge', lambda: st.builds(lambda n, d, ks, low: {'p': ['roll', ['num', n], d], 'ks': ks, 'low': low, 'as': 'seq'}, st.integers(1, 4), gen.rv_spec(gen.huge_mix, 4), st.lists(st.integers(0, 5), min_size=1, max_size=4), st.booleans()), check_multi, nt, None, 150, 3000),
    Test('grid', None, check_single, nt, None, cases=grid),
    Test('wgrid', None, check_single, nt, None, cases=wgrid),
    Test('mgrid', None, check_multi, nt, None, cases=mgrid),
]
