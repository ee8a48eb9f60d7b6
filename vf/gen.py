"""Generators of specs (plain JSON data describing values and expressions) and helpers shared by the checks."""
import random

from hypothesis import strategies as st

# ------------------------------------------------------------------ numbers
small_int = st.integers(-6, 9)
tiny_int = st.integers(0, 4)
any_int = st.one_of(small_int, small_int, small_int, st.integers(-40, 120), st.integers(-10**7, 10**7), st.integers(-10**13, 10**13))
dyadic = st.builds(lambda k, s: k / (1 << s), st.integers(-60, 60), st.integers(1, 3))
number = st.one_of(any_int, any_int, any_int, dyadic)
small_number = st.one_of(small_int, small_int, small_int, dyadic)
huge_int = st.builds(lambda b, k, s: s * (b + k), st.sampled_from([2 ** 31, 2 ** 53, 10 ** 16, 10 ** 17, 2 ** 63, 10 ** 20, 10 ** 30]), st.integers(-3, 3), st.sampled_from([1, 1, -1]))  # beyond what a float holds
huge_mix = st.one_of(huge_int, huge_int, st.integers(-3, 3))


def huge_near(floats=True):
    """Numbers around one huge number, whole ones and floats."""
    def around(b):
        x = st.builds(lambda k, s: s * (b + k), st.integers(-3, 3), st.sampled_from([1, 1, 1, -1]))
        return st.one_of(x, x, x.map(float), st.integers(-2, 2)) if floats else st.one_of(x, x, st.integers(-2, 2))
    return st.sampled_from([2 ** 53, 10 ** 16, 10 ** 17, 2 ** 63, 10 ** 20, 10 ** 30]).map(around)


huge_float = st.builds(lambda x: float(x), huge_int)
huge_any = st.one_of(huge_mix, huge_mix, huge_float)
weight = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(0, 3), st.integers(1, 40), st.sampled_from([12, 60, 97, 1000, 10**6]))
pos_weight = st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 40), st.sampled_from([12, 60, 97, 1000]))


@st.composite
def rv_spec(draw, vals=small_number, max_size=6, weights=pos_weight, min_size=1):
    """["rv", vals, weights]; at least one positive weight."""
    v = draw(st.lists(vals, min_size=min_size, max_size=max_size))
    w = [draw(weights) for _ in v]
    if v and not any(w):
        w[0] = 1
    return ['rv', v, w]


near = st.one_of(st.builds(lambda k, e, s: k + s * 2.0 ** -e, st.integers(-4, 9), st.integers(8, 44), st.sampled_from([1, -1])),
                 st.builds(lambda k, e, s: k + s * 10.0 ** -e, st.integers(-4, 9), st.integers(3, 14), st.sampled_from([1, -1])))  # a hair away from a whole number


def num_spec(vals=small_number):
    return st.builds(lambda x: ['num', x], vals)


def seq_spec(vals=small_number, min_size=0, max_size=5):
    return st.builds(lambda xs: ['seq', [['num', x] for x in xs]], st.lists(vals, min_size=min_size, max_size=max_size))


def list_spec(vals=small_number, min_size=0, max_size=4):
    return st.builds(lambda xs: ['list', [['num', x] for x in xs]], st.lists(vals, min_size=min_size, max_size=max_size))


@st.composite
def pool_spec(draw, max_n=4, max_faces=6, vals=small_int, weights=pos_weight, min_n=1, budget=1500):
    """["roll", n, die] with faces**n bounded."""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        m = draw(st.integers(1, max_faces))
        d, faces = ['num', draw(st.sampled_from([m, m, -m, 0] if m > 1 else [1]))], m
    elif kind == 1:
        d = draw(seq_spec(vals, 1, max_faces))
        faces = len(d[1])
    else:
        d = draw(rv_spec(vals, max_faces, weights))
        faces = len(d[1])
    n = draw(st.integers(min_n, max_n))
    while n > min_n and faces ** n > budget:
        n -= 1
    return ['roll', ['num', n], d]


def die_spec(vals=small_number, max_size=5):
    return st.one_of(rv_spec(vals, max_size), rv_spec(vals, max_size), pool_spec(3, 4, st.integers(-3, 6), budget=70))


def contains_tag(spec, tag):
    if isinstance(spec, list):
        if spec and spec[0] == tag:
            return True
        return any(contains_tag(x, tag) for x in spec)
    return False


# ------------------------------------------------------------------ large values: a few numbers in the case stand for a long die or sequence
BIG_KINDS = ('mid', 'repeat', 'wide', 'quarter', 'positive', 'zero-one', 'ascending', 'descending', 'nearly', 'run', 'bumped')
BIG_WEIGHTS = ('one', 'small', 'zeros', 'large')


def expand(spec):
    """["brv", n, seed, kind, weights] or ["bseq", n, seed, kind] written out."""
    r = random.Random(spec[2] * 1009 + spec[1])
    n, kind = spec[1], spec[3]
    pick = {'mid': lambda: r.randint(-n, 2 * n), 'repeat': lambda: r.randint(-3, 9), 'wide': lambda: r.randint(-10 ** 9, 10 ** 9), 'quarter': lambda: r.randint(-4 * n, 4 * n) / 4,
            'positive': lambda: r.randint(1, 3 * n), 'zero-one': lambda: r.choice([0, 0, 0, 1]),
            'ascending': lambda: r.randint(-n, 2 * n), 'descending': lambda: r.randint(-n, 2 * n), 'nearly': lambda: r.randint(-2, 12), 'run': lambda: 0, 'bumped': lambda: 0}[kind]
    vals = [pick() for _ in range(n)]
    if kind in ('ascending', 'descending', 'nearly'):
        vals.sort(reverse=kind == 'descending')
    if kind == 'nearly' and n > 3:  # in order at both ends but not in between
        for _ in range(r.randint(1, 3)):
            i, j = r.randint(1, n - 2), r.randint(1, n - 2)
            vals[i], vals[j] = vals[j], vals[i]
    if kind == 'run':  # consecutive numbers, perhaps with a step or one wrong
        s = r.choice([1, 1, 1, 2, -1, 0.5])
        lo = r.choice([0, 1, 1, -n // 2])
        vals = [lo + s * i for i in range(n)]
        if r.random() < .4:
            vals[r.randrange(n)] = r.randint(0, n)
    if kind == 'bumped':  # consecutive from its ends and its length, but not in between
        lo = r.choice([0, 1, -n // 2])
        vals = [lo + i for i in range(n)]
        for _ in range(r.choice([1, 1, 2, 3]) if n > 2 else 0):
            vals[r.randint(1, n - 2)] += r.choice([0.5, -0.5, 0.25, 0.75])
    if spec[0] == 'bseq':
        return ['seq', [['num', v] for v in vals]]
    w = {'one': lambda: 1, 'small': lambda: r.randint(1, 6), 'zeros': lambda: r.choice([0, 1, 2, 5]), 'large': lambda: r.randint(1, 10 ** 4)}[spec[4]]
    ws = [w() for _ in range(n)]
    ws[0] = ws[0] or 1
    return ['rv', vals, ws]


def brv(lo, hi, kinds=BIG_KINDS, weights=('one', 'small', 'small', 'large')):
    return st.builds(lambda n, s, k, w: ['brv', n, s, k, w], st.integers(lo, hi), st.integers(0, 10 ** 6), st.sampled_from(kinds), st.sampled_from(weights))


def bseq(lo, hi, kinds=BIG_KINDS):
    return st.builds(lambda n, s, k: ['bseq', n, s, k], st.integers(lo, hi), st.integers(0, 10 ** 6), st.sampled_from(kinds))


@st.composite
def ranges_like(draw, n, lo=2, hi=40):
    """Positions that are a range, or look like one from some angle (right ends, right length, right sum, right set)."""
    a = draw(st.integers(-1, max(1, n)))
    k = draw(st.integers(lo, hi))
    r = list(range(a, a + k))
    how = draw(st.sampled_from(['range', 'reverse', 'shuffle', 'ends', 'one', 'swap', 'repeat', 'stride', 'same', 'sum']))
    if how == 'reverse':
        r.reverse()
    elif how == 'shuffle':
        r = draw(st.permutations(r))
    elif how == 'ends':
        r = [r[0]] + [draw(st.sampled_from([r[0], r[-1], r[k // 2]]))] * (k - 2) + [r[-1]]
    elif how == 'one':
        i = draw(st.integers(0, k - 1))
        r[i] = draw(st.sampled_from(r)) if draw(st.booleans()) else draw(st.integers(-2, n + 3))
    elif how == 'swap':
        i, j = draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1))
        r[i], r[j] = r[j], r[i]
    elif how == 'repeat':
        r = [x for x in r for _ in range(2)][:hi]
    elif how == 'stride':
        r = [a + 2 * i for i in range(k)]
    elif how == 'same':
        r = [a] * k
    elif how == 'sum' and k > 3:
        r[1] -= 1
        r[2] += 1
    return list(r)
