"""Reference model: independent, deliberately naive semantics of dice, sequences and the blank die.

Values: int/float numbers, SeqV (tuple of numbers), Die, BLANK, NULL.
"""
import itertools
import math
import operator
from fractions import Fraction
from functools import reduce


class SeqV(tuple):
    def __repr__(self):
        return 'SeqV' + tuple.__repr__(self)


class _Blank:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


BLANK, NULL = _Blank('BLANK'), _Blank('NULL')


class Unsupported(Exception):
    """The operation is outside what the properties specify."""


class RefFail(Exception):
    """The operation must fail (raise) in the code under test."""


class Die:
    """dist: {value: weight>=0}; a pool is `n` rolls of `base` (base None: a single die, itself)."""
    __slots__ = ('dist', 'n', 'base', 'form')

    def __init__(self, dist, n=1, base=None, form=(1, '{?}')):
        self.dist, self.n, self.base, self.form = dist, n, base, form

    def src(self):
        return self.base if self.base is not None else self.dist

    def __repr__(self):
        return 'Die(%r%s)' % (self.dist, '' if self.base is None else ', n=%d' % self.n)


def is_num(x):
    return isinstance(x, (int, float))


def add_to(d, k, w):
    d[k] = d.get(k, 0) + w


def reduced(dist):
    """Lowest terms; keys as they are."""
    g = reduce(math.gcd, dist.values(), 0)
    return {k: w // g for k, w in dist.items()} if g > 1 else dict(dist)


def total(dist):
    return sum(dist.values())


def const(x):
    return Die({(int(x) if isinstance(x, bool) else x): 1})


def die_of_list(vals, weights):
    d = {}
    for v, w in zip(vals, weights):
        add_to(d, int(v) if isinstance(v, bool) else v, w)
    return Die(reduced(d) if d else {0: 1})


def die_of_seq(seq):
    return die_of_list(seq, [1] * len(seq)) if len(seq) else Die({0: 1})


def seq_sum(s):
    t = 0
    for x in s:
        t = t + x
    return t


def flat(items):
    """Sequence construction: numbers in order, nested sequences flattened, blanks dropped, every value of each die.
    Dice values come after plain numbers (relative placement of dice and numbers is not specified by the properties)."""
    nums, dvals = [], []

    def go(x):
        if isinstance(x, Die):
            dvals.extend(sorted(x.dist))
        elif x is BLANK or x is NULL:
            pass
        elif isinstance(x, (list, tuple, range)):
            for y in x:
                go(y)
        else:
            nums.append(x)
    go(list(items))
    return SeqV(nums + dvals)


# ---------------------------------------------------------------- operators
ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
         '**': operator.pow, '%': operator.mod}
CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def boolop(op, x, y):
    return int(bool(x) and bool(y)) if op == '&' else int(bool(x) or bool(y))


def convolve(f, da, db):
    r = {}
    for x, wx in da.items():
        for y, wy in db.items():
            add_to(r, f(x, y), wx * wy)
    return Die(reduced(r))


def limit_num(x):
    if isinstance(x, complex):
        raise Unsupported('complex')
    if isinstance(x, int) and x.bit_length() > 900:
        raise Unsupported('huge')
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        raise Unsupported('non-finite')
    return x


def num_op(op, x, y):
    if op in ARITH:
        if op == '**':
            if is_num(x) and is_num(y) and (abs(y) > 64 or (isinstance(x, int) and x.bit_length() > 64)):
                raise Unsupported('big power')
        try:
            return limit_num(ARITH[op](x, y))
        except ZeroDivisionError:
            raise RefFail('division by zero')
        except OverflowError:
            raise Unsupported('overflow')
    if op in CMP:
        return int(CMP[op](x, y))
    return boolop(op, x, y)


def binop(op, a, b):
    if op == '@':
        return at(a, b)
    if a is BLANK or a is NULL or b is BLANK or b is NULL:
        return blank_op(op, a, b)
    if op in CMP:
        return compare(op, a, b)
    if isinstance(a, SeqV):
        a = seq_sum(a)
    if isinstance(b, SeqV):
        b = seq_sum(b)
    if is_num(a) and is_num(b):
        return num_op(op, a, b)
    da = a.dist if isinstance(a, Die) else {a: 1}
    db = b.dist if isinstance(b, Die) else {b: 1}
    return convolve(lambda x, y: num_op(op, x, y), da, db)


def compare(op, a, b):
    f = CMP[op]
    if isinstance(a, Die) or isinstance(b, Die):
        if isinstance(a, SeqV):
            a = seq_sum(a)
        if isinstance(b, SeqV):
            b = seq_sum(b)
        da = a.dist if isinstance(a, Die) else {a: 1}
        db = b.dist if isinstance(b, Die) else {b: 1}
        return convolve(lambda x, y: int(f(x, y)), da, db)
    if is_num(a) and is_num(b):
        return int(f(a, b))
    if is_num(b):
        return sum(1 for x in a if f(x, b))
    if is_num(a):
        return sum(1 for x in b if f(a, x))
    if op == '!=':
        return 1 - compare('==', a, b)
    ok = True
    for i in range(max(len(a), len(b))):
        if i >= len(a):  # missing element of a: smaller than everything
            ok = ok and op in ('<', '<=')
        elif i >= len(b):
            ok = ok and op in ('>', '>=')
        else:
            ok = ok and bool(f(a[i], b[i]))
    return int(ok)


def blank_op(op, a, b):
    if (a is NULL and b is BLANK) or (a is BLANK and b is NULL):
        if op in ('+', '-'):
            return NULL
        raise Unsupported('blank with null')
    if a is NULL or b is NULL:
        if op in CMP or op in ('&', '|'):
            return 1
        return NULL
    if a is BLANK and b is BLANK:
        return BLANK
    if op == '+' or op == '|':
        return b if a is BLANK else a
    if op == '-':
        return unop('-', b) if a is BLANK else a
    return BLANK


def unop(op, a):
    if a is BLANK:
        return 0 if op == '#' else BLANK
    if a is NULL:
        return 1 if op in ('#', '!') else NULL
    if op == '#':
        if is_num(a):
            return len(str(abs(int(a))))
        return len(a) if isinstance(a, SeqV) else a.n
    if op == '!':
        if is_num(a):
            return int(a == 0)
        if isinstance(a, SeqV):
            return int(seq_sum(a) == 0)
        return const(1) if set(k for k, w in a.dist.items() if w) == {0} else const(0)
    if isinstance(a, SeqV) and op in '+-':
        a = seq_sum(a)
    f = {'-': operator.neg, '+': operator.pos, 'abs': abs, 'round': lambda x: round(x, 0), 'floor': math.floor,
         'ceil': math.ceil, 'trunc': math.trunc}[op]
    if is_num(a):
        return f(a) if op != 'round' else round(a)
    if op == '+':
        return a
    r = {}
    for x, w in a.dist.items():
        add_to(r, f(x), w)
    return Die(reduced(r))


# ---------------------------------------------------------------- rolling
def sides(d):
    """The single die that `d` sides mean (as a plain distribution), or BLANK."""
    if isinstance(d, Die):
        return d
    if isinstance(d, SeqV):
        return die_of_seq(d) if len(d) else BLANK
    if isinstance(d, float):
        return const(d)
    if d > 0:
        return Die({i: 1 for i in range(1, d + 1)})
    if d == 0:
        return Die({0: 1})
    return Die({i: 1 for i in range(d, 0)})


def sum_of(n, dist):
    """Distribution of the sum of n independent rolls, by repeated addition (n >= 0), unreduced."""
    acc = {0: 1}
    for i in range(n):
        nxt = {}
        for x, wx in acc.items():
            for y, wy in dist.items():
                add_to(nxt, x + y if i else y, wx * wy)
        acc = nxt
    return acc


def roll_form(n, d):
    """Text form of roll(n, d): (count, sides or '{?}')."""
    lhs = n if is_num(n) else (seq_sum(n) if isinstance(n, SeqV) else 0)
    if is_num(d) and not isinstance(d, float):
        rhs = int(d)
    elif isinstance(d, Die):
        rhs = d.form[1] if d.form[0] == 1 and isinstance(d.form[1], int) else '{?}'
    else:
        rhs = '{?}'
    return (lhs, rhs)


def form_text(form):
    s, d = form
    if isinstance(s, float) or isinstance(d, float):
        return 'd{?}'
    cnt = str(abs(s)) if abs(s) > 1 else ''
    if isinstance(d, int):
        if s * d == 0:
            return cnt + 'd{0..0}'
        return ('-' if s * d < 0 else '') + cnt + 'd' + str(abs(d))
    if s == 0:
        return 'd{0..0}'
    return cnt + 'd{?}'


def roll(n, d):
    if d is BLANK or d is NULL:
        return BLANK
    if n is BLANK or n is NULL:
        return NULL
    die = sides(d)
    if die is BLANK:
        return BLANK
    form = roll_form(n, d)
    if isinstance(n, SeqV):
        n = seq_sum(n)
    if isinstance(n, Die):
        for v in n.dist:
            if not isinstance(v, int):
                raise Unsupported('fractional count')
        parts = [roll(v, die) for v in sorted(n.dist)]
        res = mix(parts, [n.dist[v] for v in sorted(n.dist)])
        return Die(res.dist, form=form)
    if not isinstance(n, int):
        raise Unsupported('fractional count')
    if n == 1:
        return Die(die.dist, die.n, die.base, form)
    if n == 0:
        return Die({0: 1}, form=form)
    if n < 0:
        return Die(reduced({-k: w for k, w in sum_of(-n, die.dist).items()}), form=form)
    return Die(reduced(sum_of(n, die.dist)), n, die.dist, form)


def mix(items, weights=None):
    """Exact weighted mixture of numbers and dice; blanks/None dropped with their weight."""
    items = list(items)
    weights = [1] * len(items) if weights is None else list(weights)
    keep = [(x, w) for x, w in zip(items, weights) if not (x is None or x is BLANK or x is NULL)]
    if not keep:
        return BLANK
    acc = {}
    for x, w in keep:
        if isinstance(x, SeqV):
            x = seq_sum(x)
        if isinstance(x, Die):
            t = total(x.dist)
            for v, p in x.dist.items():
                add_to(acc, v, Fraction(w * p, t) if t else Fraction(0))
        else:
            add_to(acc, int(x) if isinstance(x, bool) else x, Fraction(w))
    return Die(from_fracs(acc))


def from_fracs(acc):
    den = reduce(lambda a, b: a * b // math.gcd(a, b), (f.denominator for f in acc.values()), 1)
    return reduced({k: int(f * den) for k, f in acc.items()})


# ---------------------------------------------------------------- positions
def at(sel, x, lowest_first=False):
    if isinstance(sel, Die) or sel is BLANK or sel is NULL:
        raise RefFail('a die cannot be a position selector')
    positions = [sel] if is_num(sel) else list(sel)
    if any(not isinstance(p, int) for p in positions):
        raise Unsupported('fractional position')
    if x is BLANK:
        return BLANK
    if x is NULL:
        if not is_num(sel):
            raise Unsupported('seq @ null')
        return NULL if sel == 1 else 0
    if is_num(x):
        if isinstance(x, float) or x < 0:
            raise Unsupported('digits of %r' % x)
        x = SeqV(int(c) for c in str(int(x)))
    if isinstance(x, SeqV):
        if is_num(sel):
            return x[sel - 1] if 1 <= sel <= len(x) else 0
        return seq_sum(x[p - 1] if 1 <= p <= len(x) else 0 for p in positions)
    return positions_of_pool(positions, x.n, x.src(), lowest_first)


def positions_of_pool(positions, n, base, lowest_first=False):
    """Distribution of the sum of the given positions of n sorted rolls (dynamic programme over faces)."""
    c = [0] * (n + 1)
    for p in positions:
        if 1 <= p <= n:
            c[p] += 1
    pre = [0] * (n + 1)
    for i in range(1, n + 1):
        pre[i] = pre[i - 1] + c[i]
    state = [{} for _ in range(n + 1)]
    state[0] = {0: 1}
    faces = sorted(base.items(), key=lambda t: t[0], reverse=not lowest_first)
    for v, w in faces:
        new = [{} for _ in range(n + 1)]
        for j in range(n + 1):
            for s, ws in state[j].items():
                for m in range(n - j + 1):
                    k = pre[j + m] - pre[j]
                    f = ws * math.comb(n - j, m) * w ** m
                    add_to(new[j + m], s + v * k if k else s, f)
        state = new
    return Die(reduced(state[n]))


def rolls_of_pool(die, lowest_first=False):
    """All possible sorted rolls (as SeqV) of a die/pool with their weights, by enumerating ordered outcomes."""
    src, n = die.src(), die.n
    acc = {}
    for combo in itertools.product(sorted(src), repeat=n):
        w = 1
        for v in combo:
            w *= src[v]
        add_to(acc, SeqV(sorted(combo, reverse=not lowest_first)), w)
    return acc
