"""C07 function library."""
from hypothesis import strategies as st

from .. import gen, ref, cast
from ..core import Test, require, Skip
from ..load import D
from ..sut import build, model, same_value, RV

from dice_calc import funclib  # noqa

RULE = ('random arguments of every kind (numbers, sequences, weighted dice, pools) for every library function, explode depths by argument and setting; oracle: the documented definition evaluated over enumerated rolls; '
        'non-trivial = a die or a sequence of two or more elements among the arguments')


def positions(lo, hi, die):
    return ref.positions_of_pool(list(range(lo, hi + 1)), die.n, die.src())


def m_highest(n, d):
    return positions(1, n, d)


def m_lowest(n, d):
    return positions(d.n - n + 1, d.n, d)


def m_middle(n, d):
    lo = 1 + (d.n - n) // 2
    return positions(lo, lo + n - 1, d)


def m_explode(d, depth):
    top = max(k for k, w in d.dist.items() if w)
    cur = d
    for _ in range(depth):
        cur = ref.mix([ref.binop('+', cur, top) if v == top else v for v in sorted(d.dist)], [d.dist[v] for v in sorted(d.dist)])
    return cur


def m_gwf1(d, lim):
    return ref.mix([d if v <= lim else v for v in sorted(d.dist)], [d.dist[v] for v in sorted(d.dist)])


num = gen.num_spec(gen.small_number)
anyarg = st.one_of(gen.num_spec(gen.small_number), gen.seq_spec(gen.small_number, 0, 6), gen.rv_spec(gen.small_number, 4), gen.pool_spec(4, 4, st.integers(-3, 6), budget=260), gen.list_spec(gen.small_int, 0, 4))
seqarg = st.one_of(gen.seq_spec(gen.small_number, 0, 7), gen.seq_spec(st.integers(0, 3), 0, 6), gen.seq_spec(st.integers(0, 3), 0, 6), anyarg)
diearg = st.one_of(gen.rv_spec(gen.small_number, 5), gen.rv_spec(gen.small_int, 5), gen.pool_spec(6, 5, st.integers(-3, 7), budget=700), gen.seq_spec(gen.small_int, 1, 5))
poolarg = st.one_of(gen.pool_spec(7, 6, st.integers(-3, 8), budget=800), gen.pool_spec(5, 6, st.integers(-3, 8), budget=800, min_n=2), gen.rv_spec(gen.small_int, 4))
countarg = st.one_of(st.builds(lambda n: ['num', n], st.integers(0, 8)), st.builds(lambda n: ['num', n], st.integers(0, 4)), gen.rv_spec(st.integers(0, 5), 3), gen.seq_spec(st.integers(0, 2), 0, 3))

FUNCS = {
    'absolute': (D.absolute_X, 'N', lambda n: -n if n < 0 else n, [anyarg]),
    'contains': (D.X_contains_X, 'SN', lambda s, n: int(any(x == n for x in s)), [seqarg, st.one_of(num, gen.num_spec(st.integers(0, 3)), anyarg)]),
    'count': (D.count_X_in_X, 'SS', lambda v, s: sum(1 for a in v for b in s if a == b), [seqarg, seqarg]),
    'reverse': (D.reverse_X, 'S', lambda s: ref.SeqV(tuple(s)[::-1]), [seqarg]),
    'sort': (D.sort_X, 'S', lambda s: ref.SeqV(sorted(s, reverse=True)), [seqarg]),
    'reverse slow': (getattr(funclib, 'reverse_VANILLA_SLOW', D.reverse_X), 'S', lambda s: ref.SeqV(tuple(s)[::-1]), [seqarg]),
    'sort slow': (getattr(funclib, 'sort_VANILLA_SLOW', D.sort_X), 'S', lambda s: ref.SeqV(sorted(s, reverse=True)), [seqarg]),
    'maximum': (D.maximum_of_X, 'D', lambda d: max(d.dist), [st.one_of(diearg, anyarg)]),
    'highest of': (D.highest_X_of_X, 'ND', m_highest, [countarg, poolarg]),
    'lowest of': (D.lowest_X_of_X, 'ND', m_lowest, [countarg, poolarg]),
    'middle of': (D.middle_X_of_X, 'ND', m_middle, [countarg, poolarg]),
    'highest of two': (D.highest_of_X_and_X, 'NN', max, [anyarg, anyarg]),
    'lowest of two': (D.lowest_of_X_and_X, 'NN', min, [anyarg, anyarg]),
}


@st.composite
def case(draw, names=tuple(FUNCS)):
    f = draw(st.sampled_from(names))
    return {'f': f, 'args': [draw(a) for a in FUNCS[f][3]]}


def check(c):
    f, types, fn, _ = FUNCS[c['f']]
    try:
        vals = [model(a) for a in c['args']]
    except ref.Unsupported as e:
        raise Skip(str(e))
    if cast.n_combos(types, vals) > 900:
        raise Skip('too many combinations')
    exp = cast.call(types, fn, vals)
    act = f(*[build(a) for a in c['args']])
    same_value(act, exp, c['f'])
    if c['f'] in ('highest of', 'lowest of') and isinstance(act, RV):
        require(len(act) == 1, 'the sum of selected dice is a die by itself, not a pool of %d', len(act))


def check_explode(c):
    d = model(c['die'])
    if isinstance(d, ref.SeqV):
        d = ref.die_of_seq(d)
    elif ref.is_num(d):
        d = ref.const(d)
    if c['how'] == 'arg':
        act = D.explode_X(build(c['die']), depth=c['depth'])
        k = c['depth']
    elif c['how'] == 'setting':
        D.settings_set('explode depth', max(1, c['depth']))
        k = max(1, c['depth'])
        act = D.explode_X(build(c['die']))
    else:
        k = 2
        act = D.explode_X(build(c['die']))
    same_value(act, m_explode(d, k), 'explode depth %d' % k)


def check_gwf(c):
    n, die, lim = c['n'], c['die'], c['lim']
    d = model(die)
    if ref.is_num(d):
        d = ref.roll(1, d)
    single = m_gwf1(d, lim)
    nm = model(n)
    exp = cast.call('N', lambda k: ref.roll(k, single), [nm])
    args = [build(n), build(die)] + ([lim] if c['how'] == 'pos' else [])
    if c['how'] == 'default' and lim != 2:
        c = dict(c, how='kw')
    kw = {'min_to_reroll': lim} if c['how'] == 'kw' else {}
    same_value(funclib.gwf(*args, **kw), exp, 'gwf')


def nt(c):
    return any(a[0] in ('rv', 'roll', 'brv', 'bseq') or (a[0] in ('seq', 'list') and len(a[1]) > 1) for a in c['args'])


gwf_case = st.builds(lambda n, die, lim, how: {'n': n, 'die': die, 'lim': lim, 'how': how}, st.one_of(st.builds(lambda k: ['num', k], st.integers(0, 5)), gen.rv_spec(st.integers(0, 3), 3)),
                     st.one_of(st.builds(lambda k: ['num', k], st.integers(1, 12)), st.builds(lambda k: ['num', k], st.integers(-12, 12)), gen.rv_spec(st.integers(-2, 8), 5), gen.rv_spec(st.one_of(gen.small_number, st.integers(1, 15).map(lambda x: x / 4)), 5)), st.sampled_from([2, 2, 1, 3, 0, -1, 5, 1.5, 2.5]), st.sampled_from(['pos', 'kw', 'default']))
ex_case = st.builds(lambda d, k, h: {'die': d, 'depth': k, 'how': h}, st.one_of(gen.rv_spec(gen.small_number, 5), gen.rv_spec(st.integers(1, 6), 6, st.integers(1, 3)), gen.seq_spec(gen.small_int, 1, 4), gen.pool_spec(3, 5, st.integers(-2, 5), budget=130)),
                    st.integers(0, 6), st.sampled_from(['arg', 'setting', 'default']))


def ex_big(tier):
    for m in range(1, 13):
        for k in range(0, 9 if tier == 'quick' else 14):
            yield {'die': ['roll', ['num', 1], ['num', m]], 'depth': k, 'how': 'arg'}
            if k:
                yield {'die': ['roll', ['num', 1], ['num', m]], 'depth': k, 'how': 'setting'}
    for m in (1, 2, 3):
        for k in (10, 11, 13, 16, 20, 25, 33, 40):
            for how in ('arg', 'setting'):
                yield {'die': ['roll', ['num', 1], ['num', m]], 'depth': k, 'how': how}


def pool_grid(tier):
    for f in ('highest of', 'lowest of', 'middle of'):
        for n in range(1, 8):
            for m in (2, 3, 4, 6):
                if m ** n <= 3000:
                    for k in range(0, n + 2):
                        yield {'f': f, 'args': [['num', k], ['roll', ['num', n], ['num', m]]]}

@st.composite
def big_case(draw):
    """Long sequences, dice of many values, large pools."""
    f = draw(st.sampled_from(sorted(FUNCS)))
    types = FUNCS[f][1]
    two = st.one_of(gen.rv_spec(st.integers(-2, 4), 2, st.integers(1, 3)), st.just(['num', 2]))
    bigpool = st.one_of(st.builds(lambda n, d: ['roll', ['num', n], d], st.integers(8, 24), two), st.builds(lambda n, d: ['roll', ['num', n], d], st.integers(2, 3), gen.brv(7, 20)))
    if f in ('highest of', 'lowest of', 'middle of'):
        p = draw(bigpool)
        return {'f': f, 'args': [['num', draw(st.integers(0, p[1][1] + 2))], p]}
    if f in ('highest of two', 'lowest of two'):
        return {'f': f, 'args': [draw(gen.brv(5, 30)), draw(st.one_of(gen.brv(5, 30), gen.bseq(5, 60), gen.num_spec(gen.any_int)))]}
    args = []
    for t in types:
        args.append(draw({'N': st.one_of(gen.num_spec(st.integers(-3, 9)), gen.brv(8, 40) if 'S' in types else gen.brv(20, 300)), 'S': st.one_of(gen.bseq(8, 100, ('repeat', 'mid', 'quarter', 'zero-one')), gen.seq_spec(st.integers(-3000, 3000).map(lambda x: x / 4), 2, 12)), 'D': st.one_of(gen.brv(10, 300), gen.bseq(10, 100))}[t]))
    return {'f': f, 'args': args}


SHORT = ('repeat', 'quarter', 'run', 'bumped', 'nearly', 'mid', 'zero-one')


@st.composite
def long_case(draw):
    """Sequences of 8 to 40 numbers, the other argument often taken from them; pools of 8 to 14 coins."""
    f = draw(st.sampled_from(['contains', 'contains', 'count', 'count', 'sort', 'sort', 'sort slow', 'reverse', 'maximum', 'highest of', 'lowest of', 'middle of', 'middle of', 'absolute']))
    if f in ('highest of', 'lowest of', 'middle of'):
        n = draw(st.integers(8, 14))
        return {'f': f, 'args': [['num', draw(st.one_of(st.integers(0, 3), st.integers(0, n + 2)))], ['roll', ['num', n], draw(st.one_of(st.just(['num', 2]), gen.rv_spec(st.integers(-2, 4), 2, st.integers(1, 3))))]]}
    s = ['bseq', draw(st.integers(8, 40)), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(SHORT))]
    vals = [x[1] for x in gen.expand(s)[1]]
    if draw(st.booleans()):  # fractions among whole numbers, some large
        s = ['seq', [['num', v] for v in vals]]
        for _ in range(draw(st.integers(1, 3))):
            s[1][draw(st.integers(0, len(vals) - 1))][1] = draw(st.one_of(gen.dyadic, st.builds(lambda a, b: a + b / 4, st.sampled_from([100, 1000, -100, 50]), st.integers(-3, 3))))
        vals = [x[1] for x in s[1]]
    pick = st.one_of(st.sampled_from(vals), st.sampled_from([vals[0], vals[-1], max(vals), min(vals)]), gen.small_number)
    if f == 'contains':
        return {'f': f, 'args': [s, ['num', draw(pick)]]}
    if f == 'count':
        return {'f': f, 'args': [['seq', [['num', draw(pick)] for _ in range(draw(st.integers(1, 4)))]], s]}
    return {'f': f, 'args': [s]}


@st.composite
def near_case(draw):
    """Values a hair apart stay apart."""
    f = draw(st.sampled_from([n for n in sorted(FUNCS) if n not in ('highest of', 'lowest of', 'middle of')]))
    k = draw(st.integers(-3, 9))
    v = st.one_of(st.sampled_from([k, k, float(k)]), st.builds(lambda e, s: k + s * 2.0 ** -e, st.integers(6, 44), st.sampled_from([1, -1])), st.builds(lambda e: k + 1 - 2.0 ** -e, st.integers(6, 44)))
    vals = draw(st.lists(v, min_size=2, max_size=5))
    v = st.sampled_from(vals)
    a = st.one_of(gen.num_spec(v), gen.num_spec(v), gen.rv_spec(v, 4), gen.seq_spec(v, 1, 6))
    return {'f': f, 'args': [draw(a if t != 'S' else st.one_of(gen.seq_spec(v, 1, 6), gen.seq_spec(v, 2, 6), a)) for t in FUNCS[f][1]]}


QUICK_SCALE = 5

TESTS = [
    Test('funcs', case, check, nt, lambda c: [c['f']], 5000, 100000),
    Test('big', big_case, check, nt, lambda c: [c['f']], 300, 6000),
    Test('near', near_case, check, nt, lambda c: [c['f']], 600, 12000),
    Test('long', long_case, check, nt, lambda c: [c['f']], 500, 10000),
    Test('bigexplode', lambda: st.builds(lambda d, k: {'die': d, 'depth': k, 'how': 'arg'}, st.one_of(gen.brv(7, 60), st.builds(lambda m: ['roll', ['num', 1], ['num', m]], st.integers(12, 120))), st.integers(1, 12)), check_explode, lambda c: True, None, 60, 1000),
    Test('explode', lambda: ex_case, check_explode, lambda c: c['depth'] > 0, lambda c: [c['how']], 1200, 20000),
    Test('gwf', lambda: gwf_case, check_gwf, lambda c: True, lambda c: [c['how']], 600, 10000),
    Test('explode_grid', None, check_explode, lambda c: c['depth'] > 0, None, cases=ex_big),
    Test('pool_grid', None, check, nt, None, cases=pool_grid),
]
