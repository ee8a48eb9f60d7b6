"""C19 dice with text faces."""
import itertools
from fractions import Fraction
from math import gcd
from hypothesis import strategies as st

from ..core import Test, require, Skip
from ..load import D
from ..langsut import compile_, execute

RULE = ('dice whose faces are texts, numbers or both, combined by rolls, sums, numbers and weighted mixtures; oracle: outcomes as (multiset of texts, exact total) with integer weights; laws of order, equality and hash over generated outcomes; printed rows; '
        'sequences with texts; non-trivial = a result with at least two outcomes that contain a text')

LONG = ['lightning bolt', 'lightning arc', 'a rather long description of an effect', 'a ', ' a', 'abcdefghijklmnop', 'a rather long description of an outcome', '12345678901234567890']
TEXTS = ['a', 'b', 'fire', 'water', 'Z', 'aa', 'ab', 'A', '', ' ', 'é', '3', '-2', '2.5', '10', 'x y', 'b c', '0', 'nan', 'inf', '1e3', '3.', '\u0663', '2*a', 'a + b', 'a + 1'] + LONG
PLAIN = ['a', 'b', 'fire', 'Z', 'aa', 'é', 'x y', '3', '-2', '2.5'] + LONG
NUMS = [-3, -2, -1, 0, 0, 1, 1, 2, 3, 5, 2.5, 0.5, -1.5]


# ------------------------------------------------------------ model: outcome = (tuple(sorted((text, count))), total)
def face(f):
    return ((), f) if not isinstance(f, str) else (((f, 1),), 0)


def plus(a, b):
    d = dict(a[0])
    for t, c in b[0]:
        d[t] = d.get(t, 0) + c
    return (tuple(sorted(d.items())), a[1] + b[1])


def norm(d):
    g = gcd(*d.values())
    return {k: v // g for k, v in d.items()}


def conv(a, b):
    if sum(a.values()) * sum(b.values()) > 10 ** 25:
        raise Skip('beyond the range of exact weights')
    out = {}
    for (x, p), (y, q) in itertools.product(a.items(), b.items()):
        z = plus(x, y)
        out[z] = out.get(z, 0) + p * q
    return norm(out)


def model(s):
    k = s[0]
    if k == 'die':
        out = {}
        for f in s[1]:
            out[face(f)] = out.get(face(f), 0) + 1
        return norm(out)
    if k == 'num':
        return {((), s[1]): 1}
    if k == 'roll':
        r = {((), 0): 1}
        m = model(s[2])
        for _ in range(s[1]):
            r = conv(r, m)
            if len(r) > 150:
                raise Skip('large')
        return r
    if k == 'add':
        a, b = model(s[1]), model(s[2])
        if len(a) * len(b) > 4000:
            raise Skip('large')
        return conv(a, b)
    if k == 'seqadd':  # die plus a sequence: its sum
        tot = ((), 0)
        for f in s[2]:
            tot = plus(tot, face(f))
        return conv(model(s[1]), {tot: 1})
    ms = [model(x) for x in s[1]]
    out, L = {}, 1
    for m in ms:
        L *= sum(m.values())
    for m, w in zip(ms, s[2]):
        t = sum(m.values())
        for o, p in m.items():
            out[o] = out.get(o, 0) + w * p * (L // t)
    return norm({o: w for o, w in out.items() if w})


def build(s, flip=False):
    k = s[0]
    if k == 'die':
        return D.roll(D.get_seq(*s[1])) if not flip else D.roll(1, D.get_seq([s[1]]))
    if k == 'num':
        return s[1]
    if k == 'roll':
        if flip and s[2][0] == 'die' and len(s[2][1]) == 1 and isinstance(s[2][1][0], str):
            return D.roll(s[1], s[2][1][0])
        return D.roll(s[1], build(s[2], flip))
    if k == 'add':
        return build(s[2], flip) + build(s[1], flip) if flip else build(s[1], flip) + build(s[2], flip)
    if k == 'seqadd':
        return D.get_seq(*s[2][::-1]) + build(s[1], flip) if flip else build(s[1], flip) + D.get_seq(*s[2])
    xs, ws = [build(x, flip) for x in s[1]], list(s[2])
    return D.RV.from_rvs(xs[::-1], ws[::-1]) if flip else D.RV.from_rvs(xs, ws)


def text_of(o):
    terms = [t if c == 1 else '%d*%s' % (c, t) for t, c in o[0]]
    if not terms:
        return str(o[1])
    return ' + '.join(terms) + (' + %s' % (o[1],) if o[1] != 0 else '')


def value_of(o):
    """The outcome as a value of the code under test, added up one term at a time."""
    tot = None
    for t, c in o[0]:
        for _ in range(c):
            v = D.get_seq(t, 'q')[1]
            tot = v if tot is None else tot + v
    if tot is None:
        return o[1]
    return tot + o[1] if o[1] != 0 else tot


def has_text(d):
    return sum(1 for o in d if o[0]) >= 2


def check_dist(c):
    m = model(c['s'])
    if len(m) > 150:
        raise Skip('large')
    got = build(c['s'])
    if not isinstance(got, D.RV):
        require(len(m) == 1 and not next(iter(m))[0] and got == next(iter(m))[1], 'got %r', got)
        return
    vals, probs = list(got.vals), list(got.probs)
    exp = {}
    for o, w in m.items():
        exp[value_of(o)] = w
    require(len(exp) == len(m), 'different outcomes are equal (or share a dictionary key): %r', [text_of(o) for o in m])
    act = {}
    for v, p in zip(vals, probs):
        if not p:
            continue
        require(v not in act, 'outcome %s appears twice', v)
        act[v] = p
    require(act == exp, 'got %s, expected %s', {str(k): v for k, v in act.items()}, {str(k): v for k, v in exp.items()})
    require(gcd(*probs) <= 1, 'weights %r not in lowest terms', probs)
    for a, b in zip(vals, vals[1:]):
        require(a < b and not b < a and not a == b and b > a and a <= b and b >= a and a != b, 'outcomes %s, %s not in strictly ascending order', a, b)
    seen_text = False
    for v in vals:
        is_t = not isinstance(v, (int, float))
        require(is_t or not seen_text, 'number %r after a text', v)
        seen_text = seen_text or is_t
    # the way the sum is put together does not matter
    other = build(c['s'], True)
    require(isinstance(other, D.RV) and list(other.vals) == vals and list(other.probs) == probs, 'added in another order: %r %r instead of %r %r', getattr(other, 'vals', other), getattr(other, 'probs', ''), vals, probs)
    by_text = {text_of(o): Fraction(w, sum(m.values())) for o, w in m.items()}
    if len(by_text) == len(m) and not any(isinstance(o[1], float) for o in m):
        require({str(v): Fraction(p, sum(probs)) for v, p in zip(vals, probs) if p} == by_text, 'outcomes print as %r, expected %r', [str(v) for v in vals], sorted(by_text))
    # report
    vp = got.get_vals_probs()
    require(len(vp) == len(vals) and [p for _, p in vp] == [p / sum(probs) for p in probs], 'report %r', vp)
    text = got.output(print_=False, blocks_width=60)
    rows = text.split('\n')[1:-1]
    require(len(rows) == len(vals) or any('\n' in str(v) for v in vals), 'printed %d rows for %d outcomes', len(rows), len(vals))
    width = max(len(str(x)) for x, _ in vp)
    for row, (sv, p), v in zip(rows, vp, vals):
        if isinstance(v, (int, float)):
            require(sv == v, 'report shows %r for %r', sv, v)
        else:
            lone = looks_number(str(v))
            s = str(v)
            require(sv == s or sv == '"%s"' % s, 'report shows %r for %r', sv, s)
            o = [o for o in m if value_of(o) == v]
            if o and len(o[0][0]) == 1 and o[0][0][0][1] == 1 and not o[0][1]:
                if lone:
                    require(sv == '"%s"' % s, 'a text that looks like a number is reported as %r', sv)
                elif not maybe_number(s):
                    require(sv == s, 'the text %r is reported as %r', s, sv)
        require(row.startswith('%s: %5.2f  ' % (str(sv).rjust(width), 100 * p)), 'row %r for %r', row, (sv, p))
    if any(not isinstance(v, (int, float)) for v in vals):
        require(text.split('\n')[0] == 'NaN ± NaN', 'header %r', text.split('\n')[0])


def looks_number(s):
    import re
    return re.fullmatch(r'-?[0-9]+(\.[0-9]+)?', s) is not None


def maybe_number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def spec(texts=TEXTS):
    f = st.one_of(st.sampled_from(texts[:3]), st.sampled_from(texts), st.sampled_from(NUMS))
    die = st.lists(f, min_size=1, max_size=5).filter(lambda x: any(isinstance(y, str) for y in x)).map(lambda x: ['die', x])
    ndie = st.lists(st.sampled_from(NUMS), min_size=1, max_size=3).map(lambda x: ['die', x])
    base = st.one_of(die, die, die, ndie)

    def grow(ch):
        return st.one_of(st.builds(lambda n, x: ['roll', n, x], st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([5, 9, 10, 12, 25])), ch), st.builds(lambda a, b: ['add', a, b], ch, ch), st.builds(lambda a, n: ['add', a, ['num', n]], ch, st.sampled_from(NUMS)),
                         st.builds(lambda a, n: ['add', ['num', n], a], ch, st.sampled_from(NUMS)), st.builds(lambda a, s: ['seqadd', a, s], ch, st.lists(f, min_size=1, max_size=3)),
                         st.lists(st.tuples(ch, st.integers(1, 4)), min_size=1, max_size=3).map(lambda xs: ['mix', [x for x, _ in xs], [w for _, w in xs]]))
    return st.recursive(base, grow, max_leaves=5)


# ------------------------------------------------------------ order, equality, hash
def outcome(texts):
    return st.tuples(st.one_of(st.lists(st.sampled_from(texts), min_size=1, max_size=4), st.builds(lambda t, n, r: [t] * n + r, st.sampled_from(texts), st.sampled_from([5, 9, 10, 11, 12, 40]), st.lists(st.sampled_from(texts), max_size=2))), st.sampled_from(NUMS + [0, 0, 0]), st.integers(0, 10 ** 6)).map(list)


def make(o):
    """Terms added in an order given by the number o[2]."""
    terms = [D.get_seq(t, 'q')[1] for t in o[0]]
    if o[1] != 0 or o[2] % 3 == 0:
        terms.append(o[1])
    k, order = o[2], []
    while terms:
        order.append(terms.pop(k % len(terms)))
        k //= max(1, len(terms) + 1)
    if all(isinstance(x, (int, float)) for x in order[:1]) and len(order) == 1:
        return order[0]
    tot = order[0]
    for x in order[1:]:
        tot = tot + x
    return tot


def canon(o):
    d = {}
    for t in o[0]:
        d[t] = d.get(t, 0) + 1
    return (tuple(sorted(d.items())), o[1])


def check_laws(c):
    vs = [(make(o), canon(o)) for o in c['os']]
    for x, cx in vs:
        for n in (-5, 0, 7, 2.5, 10 ** 9):
            require(not x == n and x != n and x > n and x >= n and not x < n and not x <= n and n < x and n <= x and not n > x and not n >= x and not n == x and n != x, '%s against the number %r', x, n)
    for (x, cx), (y, cy) in itertools.product(vs, vs):
        eq, lt, gt, le, ge, ne = x == y, x < y, x > y, x <= y, x >= y, x != y
        require(bool(eq) == (cx == cy), '%s == %s is %r', x, y, eq)
        require(bool(ne) == (cx != cy), '%s != %s is %r', x, y, ne)
        require(bool(lt) + bool(gt) + bool(eq) == 1, 'not exactly one of <, ==, > between %s and %s', x, y)
        require(bool(le) == bool(lt or eq) and bool(ge) == bool(gt or eq), '<= or >= disagrees with < and == between %s and %s', x, y)
        require(bool(y < x) == bool(gt), '%s < %s and %s > %s disagree', y, x, x, y)
        if eq:
            require(hash(x) == hash(y), 'equal outcomes %s with different hashes', x)
            require(str(x) == str(y), 'equal outcomes print as %r and %r', str(x), str(y))
        require(str(x) == text_of(cx), '%r prints as %r', cx, str(x))
    for (x, _), (y, _), (z, _) in itertools.product(vs, vs, vs):
        if x < y and y < z:
            require(x < z, 'order not transitive: %s, %s, %s', x, y, z)
    s = sorted([x for x, _ in vs] + [1, -2])
    require(s[0] == -2 and s[1] == 1, 'sorted list starts with %r', s[:2])
    require(len({x for x, _ in vs}) == len({cx for _, cx in vs}), 'set of outcomes has %d elements', len({x for x, _ in vs}))


# ------------------------------------------------------------ pools, comparisons, positions
def check_ops(c):
    m = model(['die', c['f']])
    n = c['n']
    pool = D.roll(n, D.get_seq(*c['f']))
    order = sorted(m, key=lambda o: _Key(value_of(o)))
    k = c['k']
    exp = {}
    for combo in itertools.product(order, repeat=n):
        w = 1
        for o in combo:
            w *= m[o]
        srt = sorted(combo, key=lambda o: _Key(value_of(o)), reverse=True)
        o = srt[k - 1]
        exp[o] = exp.get(o, 0) + w
    same(k @ pool, norm(exp), '%d @ %dd%r' % (k, n, c['f']))
    m2 = model(['die', c['g']])
    a, b = D.roll(D.get_seq(*c['f'])), D.roll(D.get_seq(*c['g']))
    eq = sum(m[o] * m2.get(o, 0) for o in m)
    tot = sum(m.values()) * sum(m2.values())
    for op, r, e in (('==', a == b, eq), ('!=', a != b, tot - eq)):
        same(r, norm({((), v): w for v, w in ((1, e), (0, tot - e)) if w}), '%r %s %r' % (c['f'], op, c['g']))
    x = c['x']
    for op, r, f in (('>', a > x, lambda o: bool(o[0]) or o[1] > x), ('<', a < x, lambda o: not o[0] and o[1] < x), ('>=', a >= x, lambda o: bool(o[0]) or o[1] >= x), ('<=', a <= x, lambda o: not o[0] and o[1] <= x),
                     ('==', a == x, lambda o: not o[0] and o[1] == x), ('!=', a != x, lambda o: bool(o[0]) or o[1] != x)):
        d = {}
        for o, w in m.items():
            z = ((), 1 if f(o) else 0)
            d[z] = d.get(z, 0) + w
        same(r, norm(d), '%r %s %r' % (c['f'], op, x))


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return self.v < o.v


def same(rv, m, what):
    require(isinstance(rv, D.RV), '%s gives %r', what, rv)
    act = {v: p for v, p in zip(rv.vals, rv.probs) if p}
    exp = {value_of(o): w for o, w in m.items()}
    require(act == exp, '%s: got %s, expected %s', what, {str(k): v for k, v in act.items()}, {str(k): v for k, v in exp.items()})


# ------------------------------------------------------------ sequences
def check_seq(c):
    items = c['items']
    src = [x if not isinstance(x, list) else x for x in items]
    flat = [y for x in items for y in (x if isinstance(x, list) else [x])]
    s = D.get_seq(*src)
    if not any(isinstance(x, str) for x in flat):
        raise Skip('no text')
    require(len(s) == len(flat), 'length %d of %r', len(s), flat)
    exp = [value_of(face(f)) for f in flat]
    got = list(s)
    require(len(got) == len(exp) and all(type(a) is type(b) and a == b for a, b in zip(got, exp)), 'elements %r of %r', got, flat)
    for k in range(-1, len(flat) + 3):
        v = k @ s
        e = exp[k - 1] if 1 <= k <= len(flat) else 0
        require(v == e and type(v) is type(e), '%d @ %r is %r', k, flat, v)
    tot = ((), 0)
    for f in flat:
        tot = plus(tot, face(f))
    require(s.sum() == value_of(tot), 'sum of %r is %s', flat, s.sum())
    for n in (0, 3):
        require(s + n == value_of(plus(tot, ((), n))) and n + s == value_of(plus(tot, ((), n))), '%r + %d is %s', flat, n, s + n)
    pos = c['pos']
    ptot = ((), 0)
    for p in pos:
        if 1 <= p <= len(flat):
            ptot = plus(ptot, face(flat[p - 1]))
    r = D.Seq(*pos) @ s
    require(r == value_of(ptot), '%r @ %r is %s', pos, flat, r)
    x = c['x']
    n_txt = sum(isinstance(f, str) for f in flat)
    nums = [f for f in flat if not isinstance(f, str)]
    for op, r, e in (('>', s > x, n_txt + sum(f > x for f in nums)), ('<', s < x, sum(f < x for f in nums)), ('==', s == x, sum(f == x for f in nums)), ('!=', s != x, n_txt + sum(f != x for f in nums))):
        require(r == e, '%r %s %r is %r', flat, op, x, r)
    t = D.get_seq(*flat)
    require((s == t) == True and (s != t) == False, 'equal sequences compare unequal: %r', flat)  # noqa
    require(list(D.get_seq(s, 'zz')) == exp + [value_of(face('zz'))], 'nested sequence of %r', flat)
    if len(set(map(repr, flat))) > 1:
        u = D.get_seq(*(flat[1:] + flat[:1]))
        if flat[1:] + flat[:1] != flat:
            require((s == u) == False and (s != u) == True, 'different sequences compare equal: %r', flat)  # noqa
    d = D.roll(s)
    require(len(d) == 1, 'a die of %r has length %d', flat, len(d))
    same(d, model(['die', flat]), 'die of %r' % (flat,))
    if '"' not in ''.join(f for f in flat if isinstance(f, str)) and all(isinstance(f, int) and f >= 0 or isinstance(f, str) and f and '[' not in f and '\n' not in f for f in flat):
        lit = ', '.join('"%s"' % f if isinstance(f, str) else str(f) for f in flat)
        outs = execute(compile_('A: {%s} output 2dA output A output #A' % lit))
        same(outs[0][0], model(['roll', 2, ['die', flat]]), 'compiled 2d{%s}' % lit)
        require(list(outs[1][0]) == exp and outs[2][0] == len(flat), 'compiled {%s}', lit)


TESTS = [
    Test('distributions', lambda: spec().map(lambda s: {'s': s}), check_dist, lambda c: has_text(_safe(c['s'])), lambda c: [c['s'][0]], 2500, 50000),
    Test('plain_texts', lambda: spec(PLAIN).map(lambda s: {'s': s}), check_dist, lambda c: has_text(_safe(c['s'])), lambda c: [c['s'][0]], 2500, 50000),
    Test('laws', lambda: st.lists(outcome(TEXTS), min_size=2, max_size=5).map(lambda o: {'os': o}), check_laws, lambda c: len({canon(o) for o in c['os']}) > 1, None, 2500, 40000),
    Test('operators', lambda: st.integers(1, 3).flatmap(lambda n: st.builds(lambda f, g, k, x: {'f': f, 'g': g, 'n': n, 'k': k, 'x': x}, *[st.lists(st.one_of(st.sampled_from(TEXTS[:6]), st.sampled_from(NUMS)), min_size=1, max_size=4)] * 2, st.integers(1, n), st.sampled_from(NUMS))), check_ops, lambda c: c['n'] > 1, None, 1500, 20000),
    Test('sequences', lambda: st.builds(lambda i, p, x: {'items': i, 'pos': p, 'x': x}, st.lists(st.one_of(st.sampled_from(TEXTS), st.sampled_from(NUMS), st.lists(st.one_of(st.sampled_from(TEXTS), st.sampled_from(NUMS)), max_size=3)), min_size=1, max_size=5), st.lists(st.integers(-1, 6), min_size=1, max_size=4), st.sampled_from(NUMS)),
         check_seq, lambda c: len(c['items']) > 1, None, 1200, 20000),
]


def _safe(s):
    try:
        return model(s)
    except Skip:
        return {}
