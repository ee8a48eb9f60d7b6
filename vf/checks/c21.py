"""C21 random rolls."""
import math
import random
from hypothesis import strategies as st

from .. import ref, sut, gen
from ..core import Test, require, Skip
from ..load import D

RULE = ('dice, sequences and numbers (custom weights, pools, sums, mixtures, zero weights, texts) sampled thousands of times, singly and by count, from seeded random sources; oracle: exact distribution; support and count exact; every single, pairwise (lags 1-3, across calls) frequency within a Chernoff bound of false-alarm '
        'probability 1e-15 per comparison; non-trivial = at least two possible values')
ASSUMPTIONS = ['frequencies are a statistical verdict: with about 2e6 comparisons per run the chance of a false alarm is about 2e-9']
LOG = math.log(1e15)


def kl(q, p):
    out = 0.0
    if q > 0:
        out += q * math.log(q / p) if p > 0 else math.inf
    if q < 1:
        out += (1 - q) * math.log((1 - q) / (1 - p)) if p < 1 else math.inf
    return out


def freq(counts, n, dist, what):
    """counts: value -> times; dist: value -> probability (float)."""
    for v, p in dist.items():
        q = counts.get(v, 0) / n
        require(n * kl(q, p) <= LOG, '%s: %r came up %d times in %d, expected a probability of %.6g', what, v, counts.get(v, 0), n, p)


def count(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out


def check(c):
    try:
        m = sut.model(c['s'])
    except ref.Unsupported as e:
        raise Skip(str(e))
    if isinstance(m, ref.SeqV):
        m = ref.die_of_seq(m) if len(m) else ref.const(0)
    elif ref.is_num(m):
        m = ref.const(m)
    if not isinstance(m, ref.Die):
        raise Skip('no die')
    d = {v: w for v, w in m.dist.items() if w}
    tot = sum(d.values())
    if not d or len(d) > 60 or tot > 10 ** 31 and c['s'][0] != 'rv':
        raise Skip('bounds')
    p = {v: w / tot for v, w in d.items()}
    x = sut.build(c['s'])
    before = (x.vals, x.probs) if isinstance(x, D.RV) else None
    sample(x, p, c['rs'], c['n'])
    if before:
        require((x.vals, x.probs) == before, 'rolling changed the die')


def sample(x, p, rs, N):
    random.seed(rs)
    one = [D.roller(x) for _ in range(N // 4)]
    many = D.roller(x, N)
    require(len(many) == N, 'asked for %d rolls, got %d', N, len(many))
    many = list(many)
    for v in one + many:
        require(v in p, 'rolled %r, which has no probability', v)
    small = [D.roller(x, k) for k in (0, 1, 2, 3, 7)]
    for k, t in zip((0, 1, 2, 3, 7), small):
        require(len(t) == k, 'asked for %d rolls, got %d', k, len(t))
        for v in t:
            require(v in p, 'rolled %r, which has no probability', v)
    freq(count(one), len(one), p, 'single rolls')
    freq(count(many), len(many), p, 'many rolls')
    pairs = [tuple(D.roller(x, 2)) for _ in range(N // 4)]
    triples = [tuple(D.roller(x, 3)) for _ in range(N // 8)]
    if len(p) > 12:
        cut = sorted(p)[len(p) // 2]
        cls = {v: int(v >= cut) for v in p}
    else:
        cls = {v: v for v in p}
    pc = {}
    for v, w in p.items():
        pc[cls[v]] = pc.get(cls[v], 0) + w
    pp = {(a, b): pc[a] * pc[b] for a in pc for b in pc}
    # disjoint pairs of independent rolls are independent pairs
    freq(count((cls[a], cls[b]) for a, b in pairs), len(pairs), pp, 'two rolls of one call')
    freq(count((cls[t[0]], cls[t[2]]) for t in triples), len(triples), pp, 'first and third roll of one call')
    for lag in (1, 2, 3):
        idx = [i for i in range(len(many) - lag) if i % (2 * lag) < lag]
        freq(count((cls[many[i]], cls[many[i + lag]]) for i in idx), len(idx), pp, 'rolls %d apart in one call' % lag)
    idx = range(0, len(one) - 1, 2)
    freq(count((cls[one[i]], cls[one[i + 1]]) for i in idx), len(idx), pp, 'consecutive calls')
    same = sum(w * w for w in p.values())
    same = {True: same, False: 1 - same} if len(p) > 1 else {True: 1.0, False: 0.0}
    again = list(D.roller(x, N))
    freq(count((cls[a], cls[b]) for a, b in zip(many, again)), N, pp, 'the same roll of two calls')
    freq(count(a == b for a, b in zip(many, again)), N, same, 'equal rolls in two calls')
    for k in (4, 5, 8, 12, 25, 60):
        calls = [D.roller(x, k) for _ in range(2 * (N // (6 * k)))]
        two = [(t[i], t[i + 1]) for t in calls for i in range(0, k - 1, 2)]
        freq(count(a == b for a, b in two), len(two), same, 'equal neighbours in calls for %d' % k)
        ends = [(t[0], t[k - 1]) for t in calls]
        freq(count((cls[a], cls[b]) for a, b in ends), len(ends), pp, 'first and last roll of calls for %d' % k)
        two = [(a, b) for s, t in zip(calls[::2], calls[1::2]) for a, b in zip(s, t)]
        freq(count(a == b for a, b in two), len(two), same, 'equal rolls at the same place of consecutive calls for %d' % k)
        freq(count((cls[a], cls[b]) for a, b in two), len(two), pp, 'rolls at the same place of consecutive calls for %d' % k)
    idx = range(0, len(pairs) - 1, 2)
    freq(count((cls[pairs[i][1]], cls[pairs[i + 1][0]]) for i in idx), len(idx), pp, 'last roll of a call and first of the next')


def check_many_sided(c):
    """A die with so many sides that equal rolls hardly occur: rolls of one call, or of several, share no values."""
    m, n = c['m'], c['n']
    random.seed(c['rs'])
    x = D.roll(m) if c['die'] else D.RV(range(m), [1] * m)
    calls = [list(D.roller(x, n)) for _ in range(c['calls'])]
    flat = [v for t in calls for v in t]
    require(all(len(t) == n for t in calls), 'asked for %d rolls, got %r', n, [len(t) for t in calls])
    top = len(flat) * (len(flat) - 1) / 2 / m  # expected number of equal pairs
    cnt = count(flat)
    eq = sum(k * (k - 1) // 2 for k in cnt.values())
    # few equal values are expected: each new roll equals an earlier one with probability below len(flat)/m, whatever came before
    new = len(flat) - len(cnt)
    p = len(flat) / m
    require(new / len(flat) <= p or len(flat) * kl(new / len(flat), p) <= LOG, '%d rolls of a die of %d sides have only %d different values (%d equal pairs, %.3g expected)', len(flat), m, len(cnt), eq, top)
    ups = sum(a < b for a, b in zip(flat[::2], flat[1::2]))
    freq({True: ups}, len(flat) // 2, {True: 0.5 * (1 - 1 / m)}, 'ascending neighbours')


def check_text(c):
    faces = c['f']
    x = D.roll(D.get_seq(*faces)) if c['die'] else D.get_seq(*faces)
    p = {}
    for f in faces:
        k = D.get_seq(f, 'q')[1] if isinstance(f, str) else f
        p[k] = p.get(k, 0) + 1 / len(faces)
    random.seed(c['rs'])
    many = D.roller(x, c['n'])
    require(len(many) == c['n'], 'asked for %d rolls, got %d', c['n'], len(many))
    for v in many:
        require(v in p, 'rolled %r, which has no probability', v)
    freq(count(many), c['n'], p, 'text die')


def spec():
    return st.one_of(gen.rv_spec(gen.small_number, 6), gen.rv_spec(st.integers(-5, 20), 6, st.one_of(gen.weight, st.just(0))), gen.rv_spec(st.integers(-5, 20), 5, st.one_of(gen.pos_weight, st.builds(lambda k, e: k * 10 ** e, st.integers(1, 9), st.sampled_from([30, 300, 308, 309, 400])))), gen.pool_spec(4, 6), gen.seq_spec(gen.small_number, 0, 6), gen.list_spec(gen.small_number, 1, 6), gen.num_spec(),
                     st.builds(lambda a, b: ['op', '+', a, b], gen.rv_spec(st.integers(0, 5), 4), gen.rv_spec(st.integers(0, 5), 4)), st.builds(lambda n: ['roll1', ['num', n]], st.integers(1, 60)),
                     st.builds(lambda a, b, w: ['mix', [a, b], [w, 3]], gen.rv_spec(st.integers(0, 5), 4), gen.pool_spec(3, 4), st.integers(1, 5)),
                     st.builds(lambda xs, d: ['seq', [['num', x] for x in xs] + [d]], st.lists(st.integers(0, 6), max_size=3), gen.rv_spec(st.integers(0, 6), 4)))


def grid(tier):
    k = 1 if tier == 'quick' else 5
    for i in range(k):
        for m in (1, 2, 3, 6, 20, 50):
            yield {'s': ['roll1', ['num', m]], 'n': (60000 if m % 2 else 60480) * k, 'rs': m + i}
        for n, m in ((2, 6), (3, 6), (5, 2), (10, 2)):
            yield {'s': ['roll', ['num', n], ['num', m]], 'n': (60000 if m % 2 else 60480) * k, 'rs': n + i}
        for w in ([1, 0, 3], [0, 0, 1], [1, 99], [99, 1], [1, 1, 1, 97], [10 ** 15, 10 ** 15], [1, 10 ** 6], [10 ** 29, 3 * 10 ** 29], [10 ** 25, 1], [1, 10 ** 22, 1], [3 * 10 ** 20 + 1, 10 ** 20], [2 ** 53 + 1, 1, 2 ** 54], [10 ** 400, 1], [10 ** 400, 3 * 10 ** 400, 10 ** 390], [2 ** 1024, 2 ** 1025], [2 ** 1023] * 6, [5, 0, 0, 5], [1, 2, 3, 4, 5, 6, 7]):
            yield {'s': ['rv', list(range(len(w))), w], 'n': (60000 if len(w) % 2 else 60480) * k, 'rs': sum(w) % 1000 + i}
            yield {'s': ['rv', list(range(len(w))), w], 'n': 5040, 'rs': i}
        for s in (['num', 7], ['num', -2], ['num', 2.5], ['seq', []], ['seq', [['num', 3], ['num', 3], ['num', 1]]], ['list', [['num', 1], ['num', 2]]], ['range', 1, 6], ['rv', [5, 1, 5, 2], [1, 1, 1, 1]], ['rv', [0.5, 1, 1.5], [1, 2, 1]]):
            yield {'s': s, 'n': 8000 * k, 'rs': i}


TESTS = [
    Test('values', lambda: st.builds(lambda s, n, rs: {'s': s, 'n': n, 'rs': rs}, spec(), st.one_of(st.integers(1200, 6000), st.sampled_from([2520, 5040, 4096, 4000, 5000])), st.integers(0, 10 ** 6)), check, lambda c: c['s'][0] != 'num', lambda c: [c['s'][0]], 2000, 30000),
    Test('fixed', None, check, lambda c: c['s'][0] != 'num', lambda c: [c['s'][0]], cases=grid),
    Test('many_sided', lambda: st.builds(lambda m, n, k, d, rs: {'m': m, 'n': n, 'calls': k, 'die': d, 'rs': rs}, st.sampled_from([20000, 50000]), st.one_of(st.integers(2, 400), st.integers(100, 1000)), st.sampled_from([1, 1, 2, 5]), st.booleans(), st.integers(0, 10 ** 6)), check_many_sided, lambda c: c['n'] > 60, None, 60, 600),
    Test('texts', lambda: st.builds(lambda f, d, rs: {'f': f, 'die': d, 'rs': rs, 'n': 1500}, st.lists(st.sampled_from(['a', 'b', 'fire', '3', 1, 3, 7]), min_size=1, max_size=5).filter(lambda f: any(isinstance(x, str) for x in f)), st.booleans(), st.integers(0, 999)), check_text, lambda c: len(c['f']) > 1, None, 100, 1500),
]
