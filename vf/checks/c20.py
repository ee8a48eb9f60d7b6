"""C20 very large pools and products."""
import math
from fractions import Fraction
from hypothesis import strategies as st

from ..core import Test, require, Skip, Violation
from ..load import D
from . import c05

RULE = ('expressions whose exact total weight ranges from small to far above 1e31 (up to thousands of dice, products, nested mixtures, order statistics, casted functions, explosions); oracle: exact big-integer distributions (polynomial packing), tolerance 1e-9 on every probability and on the mean, '
        'exact equality while every total stays at or below 1e31, and no exception; non-trivial = the exact total weight exceeds 1e25')
LIMIT = 10 ** 31


class M:
    """Exact model distribution over numbers; exact = every total on the way stayed within the limit."""

    def __init__(self, d, exact=True, n=1, die=None):
        g = math.gcd(*d.values())
        self.d = {k: w // g for k, w in d.items() if w}
        self.total = sum(self.d.values())
        self.exact = exact and self.total <= LIMIT
        self.n, self.die = n, die or self


def conv(a, b):
    """Exact distribution of the sum of two integer-valued distributions, by packing polynomials into integers."""
    la, lb = min(a), min(b)
    bits = (sum(a.values()) * sum(b.values())).bit_length() + 1
    x = pack({k - la: w for k, w in a.items()}, bits) * pack({k - lb: w for k, w in b.items()}, bits)
    return unpack(x, bits, la + lb)


def power(a, n):
    la = min(a)
    bits = n * sum(a.values()).bit_length() + 1
    return unpack(pack({k - la: w for k, w in a.items()}, bits) ** n, bits, n * la)


def pack(d, bits):
    nb = (bits + 7) // 8
    buf = bytearray(nb * (max(d) + 1))
    for k, w in d.items():
        buf[k * nb:(k + 1) * nb] = w.to_bytes(nb, 'little')
    return int.from_bytes(buf, 'little')


def unpack(x, bits, off):
    nb = (bits + 7) // 8
    buf = x.to_bytes((x.bit_length() + 7) // 8 + nb, 'little')
    out = {}
    for i in range(0, len(buf) // nb):
        w = int.from_bytes(buf[i * nb:(i + 1) * nb], 'little')
        if w:
            out[i + off] = w
    return out


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '>': lambda a, b: int(a > b), '<=': lambda a, b: int(a <= b), '==': lambda a, b: int(a == b), '//': lambda a, b: a // b, '%': lambda a, b: a % b}


def model(s, cap):
    k = s[0]
    if k == 'rv':
        d = {}
        for v, w in zip(s[1], s[2]):
            d[v] = d.get(v, 0) + w
        return M(d)
    if k == 'd':
        return M({v: 1 for v in range(1, s[1] + 1)})
    if k == 'roll':
        m = model(s[2], cap)
        n = s[1]
        if n == 1:
            return m
        span = (max(m.d) - min(m.d)) * n
        if span > cap or len(m.d) > 60 or span * n * m.total.bit_length() > 4 * 10 ** 9:
            raise Skip('large')
        return M(power(m.d, n), m.exact, n, m)
    if k == 'op':
        a, b = model(s[2], cap), model(s[3], cap) if s[3][0] != 'num' else s[3][1]
        if not isinstance(b, M):
            d = {}
            for v, w in a.d.items():
                z = OPS[s[1]](v, b)
                d[z] = d.get(z, 0) + w
            return M(d, a.exact)
        if len(a.d) * len(b.d) > cap * 40:
            raise Skip('large')
        if s[1] == '+':
            return M(conv(a.d, b.d), a.exact and b.exact)
        if s[1] in ('//', '%') and 0 in b.d:
            raise Skip('division by zero')
        d = {}
        for v, w in a.d.items():
            for u, x in b.d.items():
                z = OPS[s[1]](v, u)
                d[z] = d.get(z, 0) + w * x
        if len(d) > cap * 2:
            raise Skip('large')
        return M(d, a.exact and b.exact)
    if k == 'mix':
        ms = [model(x, cap) for x in s[1]]
        L = math.lcm(*[m.total for m in ms])
        d = {}
        for m, w in zip(ms, s[2]):
            for v, p in m.d.items():
                d[v] = d.get(v, 0) + w * p * (L // m.total)
        return M(d, all(m.exact for m in ms))
    if k == 'at':  # k-th highest of a pool
        m = model(s[2], cap)
        n, die = m.n, m.die
        if not 1 <= s[1] <= n or n * len(die.d) > 6000:
            raise Skip('position')
        T = die.total
        ge, acc, out = 0, {}, {}
        for v in sorted(die.d, reverse=True):
            ge += die.d[v]
            # P(at least s[1] dice are >= v) as a weight over T**n
            acc[v] = sum(math.comb(n, j) * ge ** j * (T - ge) ** (n - j) for j in range(s[1], n + 1))
        prev = 0
        for v in sorted(die.d, reverse=True):
            out[v] = acc[v] - prev
            prev = acc[v]
        return M(out, die.exact)
    if k == 'highest':  # sum of the k highest
        m = model(s[2], cap)
        n, die = m.n, m.die
        if not 1 <= s[1] <= n or math.comb(n + len(die.d) - 1, n) > 3000:
            raise Skip('large')
        import itertools
        out = {}
        for r in itertools.combinations_with_replacement(sorted(die.d, reverse=True), n):
            w, c = math.factorial(n), {}
            for v in r:
                c[v] = c.get(v, 0) + 1
                w *= die.d[v]
            for x in c.values():
                w //= math.factorial(x)
            z = sum(r[:s[1]])
            out[z] = out.get(z, 0) + w
        return M(out, die.exact)
    if k == 'cast':  # a function of each value: v -> [spec] chosen by parity, evaluated by casting
        m = model(s[1], cap)
        if len(m.d) > 60:
            raise Skip('large')
        a, b = model(s[2], cap), model(s[3], cap)
        L = math.lcm(a.total, b.total)
        out = {}
        for v, w in m.d.items():
            r = a if v % 2 else b
            for z, p in r.d.items():
                out[z] = out.get(z, 0) + w * p * (L // r.total)
        return M(out, m.exact and a.exact and b.exact)
    if k == 'explode':
        m = model(s[1], cap)
        top = max(m.d)
        cur = m
        for _ in range(s[2]):
            out = {}
            for v, w in m.d.items():
                if v == top:
                    for z, p in cur.d.items():
                        out[z + top] = out.get(z + top, 0) + w * p
                else:
                    out[v] = out.get(v, 0) + w * cur.total
            cur = M(out, cur.exact)
            if len(cur.d) > cap:
                raise Skip('large')
        return cur
    raise AssertionError(s)


def build(s):
    k = s[0]
    if k == 'rv':
        return D.RV(s[1], s[2])
    if k == 'd':
        return D.roll(s[1])
    if k == 'roll':
        return D.roll(s[1], build(s[2]))
    if k == 'op':
        a, b = build(s[2]), build(s[3]) if s[3][0] != 'num' else s[3][1]
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '>': lambda: a > b, '<=': lambda: a <= b, '==': lambda: a == b, '//': lambda: a // b, '%': lambda: a % b}[s[1]]()
    if k == 'mix':
        return D.RV.from_rvs([build(x) for x in s[1]], s[2])
    if k == 'at':
        return s[1] @ build(s[2])
    if k == 'highest':
        return D.highest_X_of_X(s[1], build(s[2])) if s[3] else D.Seq(*range(1, s[1] + 1)) @ build(s[2])
    if k == 'cast':
        a, b = build(s[2]), build(s[3])

        @D.anydice_casting()
        def f(v: D.T_N):
            return a if v % 2 else b
        return f(build(s[1]))
    if k == 'explode':
        D.settings_set('explode depth', s[2])
        try:
            return D.explode_X(build(s[1]))
        finally:
            D.settings_reset()
    raise AssertionError(s)


_memo = {}


def get_model(s, cap):
    key = repr((s, cap))
    if _memo.get('k') != key:
        try:
            m = model(s, cap)
            if m.total.bit_length() * len(m.d) > 3 * 10 ** 7:
                m = None
        except Skip:
            m = None
        _memo.update(k=key, m=m)
    return _memo['m']


def check(c):
    m = get_model(c['s'], c['cap'])
    if m is None:
        raise Skip('large')
    got = build(c['s'])
    if isinstance(got, (int, float)):
        require(set(m.d) == {got}, 'got the number %r', got)
        return
    require(isinstance(got, D.RV), 'got %r', got)
    for p in got.probs:
        require(isinstance(p, int) and p >= 0, 'weight %r', p)
    for a, b in zip(got.vals, got.vals[1:]):
        require(a < b, 'values not ascending')
    act = dict(zip(got.vals, got.probs))
    tot = sum(got.probs)
    require(tot > 0, 'total weight is 0')
    if m.exact:
        act2 = {k: w for k, w in act.items() if w}
        require(act2 == m.d, 'total weight %.3g is within 1e31 but the result is not exact: %s', float(m.total), diff(act2, m.d))
    unit = 10 ** 15  # probabilities in steps of 1e-15: fast and far finer than the tolerance
    for k in act.keys() | m.d.keys():
        pa, pe = act.get(k, 0) * unit // tot, m.d.get(k, 0) * unit // m.total
        require(abs(pa - pe) <= unit // 10 ** 9, 'P(%r) = %.15g, expected %.15g', k, pa / unit, pe / unit)
    vp = got.get_vals_probs()
    require([v for v, _ in vp] == list(got.vals), 'report lists other values')
    require(abs(math.fsum(p for _, p in vp) - 1) <= 1e-9, 'reported probabilities sum to %.12g', math.fsum(p for _, p in vp))
    for v, p in vp:
        require(abs(p * unit - m.d.get(v, 0) * unit // m.total) <= unit // 10 ** 9 + 2, 'reported P(%r) = %.12g', v, p)
    mean = Fraction(sum(v * w for v, w in m.d.items()), m.total)
    rng = max(m.d) - min(m.d)
    size = max(abs(max(m.d)), abs(min(m.d)), 1)
    require(abs(got.mean() - mean) <= 1e-9 * max(rng, 1) + 1e-15 * size * 4, 'mean %.15g, expected %.15g', got.mean(), float(mean))
    if c.get('std', True) and len(m.d) < 1500:
        var = Fraction(sum(v * v * w for v, w in m.d.items()), m.total) - mean ** 2
        require(abs(got.std() - math.sqrt(var)) <= 1e-6 * max(rng, 1), 'deviation %.12g, expected %.12g', got.std(), math.sqrt(var))
    got.output(print_=False)
    got.get_cdf()


def diff(a, b):
    for k in sorted(a.keys() | b.keys()):
        if a.get(k) != b.get(k):
            return 'weight of %r is %r, expected %r' % (k, a.get(k), b.get(k))


big_w = st.one_of(st.integers(1, 9), st.integers(1, 1000), st.sampled_from([10 ** 6, 10 ** 9 + 7, 10 ** 12 - 11, 2 ** 61 - 1, 10 ** 20 + 39, 10 ** 30 + 57, 10 ** 31, 10 ** 40 + 1]))


@st.composite
def base(draw):
    r = draw(st.integers(0, 2))
    if r == 0:
        return ['d', draw(st.sampled_from([2, 3, 4, 6, 8, 10, 12, 20]))]
    v = draw(st.lists(st.integers(-4, 8), min_size=1, max_size=5, unique=True))
    w = [draw(big_w if r == 2 else st.integers(1, 40)) for _ in v]
    return ['rv', v, w]


@st.composite
def pool(draw, lo=2, hi=160):
    n = draw(st.one_of(st.integers(lo, min(hi, 30)), st.integers(lo, hi)))
    return ['roll', n, draw(base())]


def spec():
    leaf = st.one_of(pool(), pool(), base())

    def grow(ch):
        return st.one_of(
            st.builds(lambda o, a, b: ['op', o, a, b], st.sampled_from(['+', '-', '+', '*', '>', '<=', '==', '%']), ch, ch),
            st.builds(lambda o, a, b: ['op', o, a, ['num', b]], st.sampled_from(['+', '*', '>', '//', '%']), ch, st.integers(1, 9)),
            st.lists(st.tuples(ch, big_w), min_size=1, max_size=4).map(lambda xs: ['mix', [x for x, _ in xs], [w for _, w in xs]]),
            st.builds(lambda a, b, c: ['cast', a, b, c], pool(2, 9), ch, ch),
            st.builds(lambda n, a: ['roll', n, a], st.integers(2, 12), ch),
            st.builds(lambda k, p: ['at', k, p], st.integers(1, 40), pool(2, 150)),
            st.builds(lambda k, p, b: ['highest', k, p, b], st.integers(1, 6), pool(2, 14), st.booleans()),
            st.builds(lambda a, n: ['explode', a, n], base(), st.integers(1, 12)))
    return st.recursive(leaf, grow, max_leaves=4)


def case():
    return spec().map(lambda s: {'s': s, 'cap': 700})


def grid(tier):
    import random
    r = random.Random(1)
    # totals just below and above the limit
    for m in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 20):
        n0 = int(math.log(1e31) / math.log(m))
        for n in (n0 - 1, n0, n0 + 1, n0 + 2, 2 * n0 - 1, 2 * n0, 2 * n0 + 1, 2 * n0 + 2, 3 * n0, 4 * n0 + 3):
            yield {'s': ['roll', n, ['d', m]], 'cap': 3000}
            for k in sorted({1, 2, n // 2, n - 1, n}):
                yield {'s': ['at', k, ['roll', n, ['d', m]]], 'cap': 3000}
    for n in (300, 500, 1000, 1024) + ((2000, 3000) if tier == 'thorough' else ()):
        for m in (2, 3):
            yield {'s': ['roll', n, ['d', m]], 'cap': 9000}
            yield {'s': ['at', n // 3, ['roll', n, ['d', m]]], 'cap': 9000}
        yield {'s': ['roll', n // 2, ['rv', [0, 1, 5], [10 ** 9, 7, 1]]], 'cap': 9000}
    # single heavy weights
    for e in range(20, 60, 3):
        for a in (1, 3, 10 ** 6):
            yield {'s': ['op', '+', ['rv', [0, 1], [10 ** e + 1, a]], ['rv', [0, 2], [3, 10 ** (e // 2) + 7]]], 'cap': 700}
            yield {'s': ['mix', [['rv', [0, 1], [10 ** e + 1, a]], ['d', 6], ['rv', [3], [1]]], [a, 1, 10 ** (e // 3)]], 'cap': 700}
            yield {'s': ['roll', 3, ['rv', [1, 2], [10 ** e + 1, a]]], 'cap': 700}
            yield {'s': ['cast', ['rv', [1, 2], [10 ** e + 1, a]], ['d', 6], ['rv', [1, 5], [10 ** e + 3, 2]]], 'cap': 700}
            yield {'s': ['at', 2, ['roll', 3, ['rv', [1, 2, 3], [10 ** e + 1, a, 10 ** (e // 2)]]]], 'cap': 700}
            yield {'s': ['op', '*', ['rv', [1, 2], [10 ** e + 1, a]], ['rv', [1, 3], [10 ** e + 3, 1]]], 'cap': 700}
    # deep chains
    for n in (10, 30, 60):
        s = ['d', 6]
        for i in range(n):
            s = ['mix', [s, ['d', 4 + i % 5]], [1 + i % 3, 2]]
        yield {'s': s, 'cap': 700}
        s = ['d', 2]
        for i in range(n):
            s = ['op', '+', s, ['rv', [0, 1], [97, 1 + i]]]
        yield {'s': s, 'cap': 700}
    for n in (5, 10, 15):
        yield {'s': ['explode', ['d', 20], n], 'cap': 2000}
        yield {'s': ['explode', ['rv', [1, 2], [10 ** 6, 10 ** 6 + 3]], n * 2], 'cap': 2000}


def nt(c):
    m = get_model(c['s'], c['cap'])
    return m is not None and (m.total > 10 ** 25 or not m.exact)


def lab(c):
    m = get_model(c['s'], c['cap'])
    if m is None:
        return ['skipped']
    return [c['s'][0], 'exact' if m.exact else 'reduced', 'total 1e%d+' % (min(len(str(m.total)) - 1, 300) // 30 * 30) if m.total.bit_length() < 14000 else 'total huge']


# ------------------------------------------------------------ large pools of fractions: never failing, mean and sum accurate
def check_float(c):
    d = D.RV([x / 4 for x in c['v']], c['w'])
    n = c['n']
    if (max(c['v']) - min(c['v'])) * n > 900:
        raise Skip('large')
    m = M({v: w for v, w in zip(c['v'], c['w'])}) if len(set(c['v'])) == len(c['v']) else None
    if m is None:
        raise Skip('repeated')
    e = M(power(m.d, n))
    got = D.roll(n, d)
    require({v for v, p in zip(got.vals, got.probs) if p} <= {k / 4 for k in e.d}, 'impossible values')
    tot = sum(got.probs)
    for v, p in zip(got.vals, got.probs):
        require(abs(Fraction(p, tot) - Fraction(e.d.get(int(v * 4), 0), e.total)) <= Fraction(1, 10 ** 9), 'P(%r)', v)
    mean = Fraction(sum(v * w for v, w in e.d.items()), e.total) / 4
    require(abs(got.mean() - mean) <= 1e-9 * max(1, max(e.d) - min(e.d)), 'mean %r, expected %r', got.mean(), float(mean))
    got.std()
    got.output(print_=False)


def fcase():
    return st.lists(st.tuples(st.integers(-6, 9), big_w), min_size=1, max_size=4, unique_by=lambda x: x[0]).flatmap(lambda vw: st.integers(2, 90).map(lambda n: {'v': [v for v, _ in vw], 'w': [w for _, w in vw], 'n': n}))


# ------------------------------------------------------------ expressions over quarters: the model works with four times the values
def f_leaf():
    return st.one_of(pool(2, 40), pool(2, 20), base())


def f_spec():
    def grow(ch):
        return st.one_of(
            st.builds(lambda o, a, b: ['op', o, a, b], st.sampled_from(['+', '-']), ch, ch),
            st.lists(st.tuples(ch, big_w), min_size=1, max_size=4).map(lambda xs: ['mix', [x for x, _ in xs], [w for _, w in xs]]),
            st.builds(lambda n, a: ['roll', n, a], st.integers(2, 9), ch),
            st.builds(lambda k, p: ['at', k, p], st.integers(1, 40), pool(2, 80)),
            st.builds(lambda k, p: ['highest', k, p, True], st.integers(1, 6), pool(2, 14)))
    small = st.recursive(f_leaf(), grow, max_leaves=4)
    return st.one_of(small, small, many_mix())


@st.composite
def many_mix(draw):
    """A mixture of many dice whose totals have little in common."""
    n = draw(st.one_of(st.integers(5, 20), st.integers(20, 90)))
    lo = draw(st.sampled_from([2, 50, 10 ** 6, 10 ** 9, 10 ** 12]))
    off = draw(st.integers(0, 9999))
    xs = [['rv', [i % 7, i % 5 + 2, i % 3 - 4][: 2 + i % 2], [lo + off + i * i, 1 + i % 4, 3][: 2 + i % 2]] for i in range(n)]
    return ['mix', xs, [1 + (i * off) % 5 for i in range(n)]]


def quarters(s):
    if s[0] == 'rv':
        return ['rv', [v / 4 for v in s[1]], s[2]]
    if s[0] == 'd':
        return ['rv', [v / 4 for v in range(1, s[1] + 1)], [1] * s[1]]
    return [quarters(x) if isinstance(x, list) and x and isinstance(x[0], str) else [quarters(y) for y in x] if isinstance(x, list) and x and isinstance(x[0], list) else x for x in s]


def check_quarters(c):
    m = get_model(c['s'], c['cap'])
    if m is None:
        raise Skip('large')
    for scale, got in ((4, build(quarters(c['s']))), (1, build(c['s']) if c['s'][0] == 'mix' else None)):
        if got is None:
            continue
        if isinstance(got, (int, float)):
            require(set(m.d) == {got * scale}, 'got the number %r', got)
            continue
        act = {int(v * scale): p for v, p in zip(got.vals, got.probs)}
        tot = sum(got.probs)
        if m.exact:
            act2 = {k: w for k, w in act.items() if w}
            require(act2 == m.d, 'total weight %.3g is within 1e31 but the result is not exact: %s', float(m.total), diff(act2, m.d))
        unit = 10 ** 15
        for k in act.keys() | m.d.keys():
            require(abs(act.get(k, 0) * unit // tot - m.d.get(k, 0) * unit // m.total) <= unit // 10 ** 9, 'P(%r/%d) = %.15g, expected %.15g', k, scale, act.get(k, 0) * unit // tot / unit, m.d.get(k, 0) * unit // m.total / unit)
        mean = Fraction(sum(v * w for v, w in m.d.items()), m.total) / scale
        require(abs(got.mean() - mean) <= 1e-9 * max(1, max(m.d) - min(m.d)), 'mean %.15g, expected %.15g', got.mean(), float(mean))
        require(abs(math.fsum(p for _, p in got.get_vals_probs()) - 1) <= 1e-9, 'reported probabilities sum to %.12g', math.fsum(p for _, p in got.get_vals_probs()))
        got.std()
        got.get_cdf()
        got.output(print_=False)


@st.composite
def expanded_case(draw):
    """Pools expanded into all their rolls for a sequence parameter, of any total weight."""
    if draw(st.booleans()):
        return draw(c05.wide_pool())
    w = draw(st.lists(st.one_of(st.integers(1, 9), st.sampled_from([97, 10 ** 4, 10 ** 9 + 7])), min_size=2, max_size=2))
    lo = draw(st.integers(-2, 3))
    return {'n': draw(st.integers(20, 260)), 'lo': lo, 'hi': lo + draw(st.integers(1, 4)), 'w': w, 'low': draw(st.booleans()), 'sep': draw(st.booleans())}


def check_expanded(c):
    if sum(c['w']) ** c['n'] <= 10 ** 31:
        return c05.check_wide(c)
    D.settings_set('position order', 'lowest first' if c['low'] else 'highest first')

    @D.anydice_casting()
    def f(s: D.T_S):
        k = sum(1 for x in s if x == c['hi'])
        return k if c['sep'] else k * 10 + (1 @ s == c['hi'])
    act = f(D.roll(c['n'], D.RV([c['lo'], c['hi']], c['w'])))
    total, got = sum(c['w']) ** c['n'], dict(zip(act.vals, act.probs))
    for k in range(c['n'] + 1):
        v = k if c['sep'] else k * 10 + int(k == c['n'] if c['low'] else k > 0)
        p = Fraction(math.comb(c['n'], k) * c['w'][1] ** k * c['w'][0] ** (c['n'] - k), total)
        q = Fraction(got.pop(v, 0), sum(act.probs))
        require(abs(p - q) <= Fraction(1, 10 ** 9) * p + Fraction(1, 10 ** 20), 'probability of %d is %.15g, expected %.15g', v, float(q), float(p))
    require(not any(got.values()), 'impossible values %r', list(got)[:5])


TESTS = [
    Test('expanded', expanded_case, check_expanded, lambda c: c['n'] > 30, None, 200, 4000),
    Test('expressions', case, check, nt, lab, 1600, 40000),
    Test('limits', None, check, nt, lab, cases=grid),
    Test('quarters', lambda: f_spec().map(lambda s: {'s': s, 'cap': 600}), check_quarters, nt, lab, 700, 14000),
    Test('fractions', fcase, check_float, lambda c: c['n'] > 20, None, 300, 6000),
]
