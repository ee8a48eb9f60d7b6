"""C06 mixtures."""
import random

from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require
from ..load import D
from ..sut import build, model_or_skip, model, same_value, RV

RULE = ('random lists of numbers, dice with unrelated denominators, blanks and missing items with random weights; oracle: exact rational mixture; laws: flattening, scaling, order; '
        'non-trivial = two or more non-blank items, at least one of them a die')

item = st.one_of(gen.num_spec(gen.small_number), gen.num_spec(gen.any_int), gen.rv_spec(gen.small_number, 5), gen.rv_spec(gen.small_int, 4, st.integers(1, 30)), gen.rv_spec(gen.small_int, 4, st.integers(0, 4)),
                 gen.pool_spec(3, 6, st.integers(-2, 5), budget=220), gen.rv_spec(gen.huge_mix, 3), gen.num_spec(gen.huge_int), st.just(['blank']), st.just(['null']), st.just(['none']), st.just(['num', True]))


def b(x):
    return None if x[0] == 'none' else build(x)


def m(x):
    return None if x[0] == 'none' else model(x)


@st.composite
def case(draw):
    items = draw(st.lists(item, min_size=0, max_size=draw(st.sampled_from([2, 4, 7]))))
    how = draw(st.sampled_from(['none', 'w', 'w', 'w']))
    ws = None if how == 'none' else [draw(gen.weight) for _ in items]
    if ws and not any(w for w, i in zip(ws, items) if i[0] not in ('blank', 'null', 'none')):
        ws = [w or 1 for w in ws]
    return {'items': items, 'w': ws, 'as': draw(st.sampled_from(['list', 'tuple', 'iter']))}


def wrap(xs, how):
    return None if xs is None else {'list': list, 'tuple': tuple, 'iter': lambda y: iter(list(y))}[how](xs)


def check(c):
    items, ws = c['items'], c['w']
    exp = ref.mix([m(x) for x in items], ws)
    act = RV.from_rvs(wrap([b(x) for x in items], c['as']), wrap(ws, c['as'])) if ws is not None else RV.from_rvs(wrap([b(x) for x in items], c['as']))
    same_value(act, exp, 'mixture')
    if exp is ref.BLANK:
        return
    require(len(act) == 1, 'a mixture has length %d', len(act))
    # order does not matter, scaled weights do not matter, weight w is w copies
    w = ws if ws is not None else [1] * len(items)
    same_value(RV.from_rvs([b(x) for x in items[::-1]], [5 * k for k in w[::-1]]), exp, 'reversed, rescaled mixture')
    if sum(w) <= 60:
        reps = [b(x) for x, k in zip(items, w) for _ in range(k)]
        same_value(RV.from_rvs(reps), exp, 'mixture by repetition')


def nt(c):
    good = [i for i in c['items'] if i[0] not in ('blank', 'null', 'none')]
    return len(good) >= 2 and any(i[0] in ('rv', 'roll', 'brv') for i in good)

@st.composite
def big_case(draw):
    """Many items, and dice of many values."""
    n = draw(st.integers(8, 80))
    pool = draw(st.lists(st.one_of(item, item, gen.brv(10, 80)), min_size=1, max_size=8))
    seed = draw(st.integers(0, 10 ** 6))
    r = random.Random(seed)
    items = [r.choice(pool) if r.random() < .5 else ['num', r.randint(-9, 30)] for _ in range(n)]
    ws = None if draw(st.booleans()) else [r.choice([0, 1, 1, 2, 3, 10]) for _ in items]
    if ws and not any(w for w, i in zip(ws, items) if i[0] not in ('blank', 'null', 'none')):
        ws = [w or 1 for w in ws]
    return {'items': items, 'w': ws, 'as': draw(st.sampled_from(['list', 'tuple', 'iter']))}


QUICK_SCALE = 6

TESTS = [Test('mix', case, check, nt, lambda c: ['n%d' % min(len(c['items']), 5), 'blank' if any(i[0] in ('blank', 'null', 'none') for i in c['items']) else 'noblank', 'w' if c['w'] else 'now'], 6000, 100000),
         Test('many', big_case, check, nt, lambda c: ['n%d' % (len(c['items']) // 20 * 20)], 200, 4000)]
