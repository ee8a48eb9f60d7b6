"""Builds values in the code under test and in the reference model from one spec, and compares results."""
import math
import operator
import zlib
from fractions import Fraction

from . import gen, ref
from .core import Violation, Skip, require, jdump
from .load import D
from dice_calc.settings import SETTINGS  # noqa

RV, Seq, BlankRV, roll, get_seq = D.RV, D.Seq, D.BlankRV, D.roll, D.get_seq

PYOP = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
        '**': operator.pow, '%': operator.mod, '&': operator.and_, '|': operator.or_, '@': operator.matmul,
        '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
PYUN = {'-': operator.neg, '+': operator.pos, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil,
        'trunc': math.trunc, '!': operator.invert, '#': len}


_shared = {}


def fresh():
    """Called before every case."""
    _shared.clear()


def build(spec):
    """The value in the code under test. About half of all specs always give the same object within a case, as a variable that is used twice does."""
    if spec[0] in ('num', 'range', 'list', 'tuple', 'blank', 'null'):
        return make(spec)
    key = jdump(spec)
    if zlib.crc32(key.encode()) & 1:
        return make(spec)
    key += repr([SETTINGS[k] for k in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS', 'position order')])
    if key not in _shared:
        _shared[key] = make(spec)
    return _shared[key]


def make(spec):
    t = spec[0]
    if t == 'num':
        return spec[1]
    if t == 'seq':
        return Seq(*[build(x) for x in spec[1]])
    if t == 'gseq':
        return get_seq([build(x) for x in spec[1]])
    if t == 'list':
        return [build(x) for x in spec[1]]
    if t == 'tuple':
        return tuple(build(x) for x in spec[1])
    if t == 'range':
        return D.myrange(spec[1], spec[2])
    if t == 'rv':
        return RV(spec[1], spec[2])
    if t in ('brv', 'bseq'):
        return make(gen.expand(spec))
    if t == 'blank':
        return BlankRV()
    if t == 'null':
        return roll(BlankRV(), 6)
    if t == 'roll':
        return roll(build(spec[1]), build(spec[2]))
    if t == 'roll1':
        return roll(build(spec[1]))
    if t == 'op':
        return PYOP[spec[1]](build(spec[2]), build(spec[3]))
    if t == 'un':
        return PYUN[spec[1]](build(spec[2]))
    if t == 'mix':
        return RV.from_rvs([build(x) for x in spec[1]], spec[2])
    raise AssertionError(spec)


def model(spec):
    """The value in the reference model."""
    t = spec[0]
    if t == 'num':
        return spec[1]
    if t in ('seq', 'gseq', 'list', 'tuple'):
        return ref.flat([model(x) for x in spec[1]])
    if t == 'range':
        return ref.SeqV(range(spec[1], spec[2] + 1))
    if t == 'rv':
        return ref.die_of_list(spec[1], spec[2])
    if t in ('brv', 'bseq'):
        return model(gen.expand(spec))
    if t == 'blank':
        return ref.BLANK
    if t == 'null':
        return ref.NULL
    if t == 'roll':
        return ref.roll(model(spec[1]), model(spec[2]))
    if t == 'roll1':
        return ref.roll(1, model(spec[1]))
    if t == 'op':
        return ref.binop(spec[1], model(spec[2]), model(spec[3]))
    if t == 'un':
        return ref.unop(spec[1], model(spec[2]))
    if t == 'mix':
        return ref.mix([model(x) for x in spec[1]], spec[2])
    raise AssertionError(spec)


def model_or_skip(spec):
    try:
        return model(spec)
    except ref.Unsupported as e:
        raise Skip(str(e))


LIMIT = 10 ** 31


def show(x):
    if isinstance(x, RV):
        return 'die%r' % (dict(zip(x.vals, x.probs)),)
    if isinstance(x, BlankRV):
        return 'blank(len %d)' % len(x)
    return repr(x)


def check_canonical(rv, what='result'):
    vals, probs = rv.vals, rv.probs
    require(len(vals) == len(probs) and len(vals) > 0, '%s: %d values and %d weights', what, len(vals), len(probs))
    for v in vals:
        require(not isinstance(v, bool), '%s: boolean value %r', what, v)
    for p in probs:
        require(isinstance(p, int) and not isinstance(p, bool) and p >= 0, '%s: weight %r', what, p)
    for a, b in zip(vals, vals[1:]):
        require(a < b, '%s: values not strictly ascending at %r, %r', what, a, b)


def dist_of(x):
    """Positive-weight distribution of a number or die of the code under test."""
    if isinstance(x, (int, float)):
        return {int(x) if isinstance(x, bool) else x: 1}
    if not isinstance(x, RV):
        raise Violation('expected a number or die, got %s' % type(x).__name__)
    check_canonical(x)
    return {v: p for v, p in zip(x.vals, x.probs) if p}


def same_dist(actual, dist, what='result', exact_zero=False):
    """actual (number or RV) has exactly the distribution `dist` (weights of any scale)."""
    exp = {k: w for k, w in dist.items() if w}
    t = sum(exp.values())
    if t == 0:
        raise Skip('zero total weight')
    g = math.gcd(*exp.values())
    if t // g > LIMIT:
        return close_dist(actual, dist, what)
    exp = {k: w // g for k, w in exp.items()}
    act = dist_of(actual)
    require(act == exp, '%s: got %s, expected %s', what, short(act), short(exp))
    if exact_zero and isinstance(actual, RV):
        require(set(actual.vals) == set(dist), '%s: values %s, expected %s', what, short(actual.vals), short(sorted(dist)))


def close_dist(actual, dist, what='result', tol=1e-9):
    act = dist_of(actual)
    ta, te = sum(act.values()), sum(dist.values())
    require(ta > 0, '%s: total weight is 0', what)
    for k in set(act) | set(dist):
        pa, pe = Fraction(act.get(k, 0), ta), Fraction(dist.get(k, 0), te)
        require(abs(pa - pe) <= tol, '%s: P(%r) = %.12g, expected %.12g', what, k, float(pa), float(pe))


def short(x):
    s = repr(x)
    return s if len(s) < 600 else s[:600] + '...'


def same_value(actual, expected, what='result', seq_as_sum=False):
    """Compare a value of the code under test with a reference value.  A constant die and the number it always gives are not
    the same kind of value, except that selecting a position outside a pool may give plain 0."""
    if expected is ref.BLANK or expected is ref.NULL:
        require(isinstance(actual, BlankRV), '%s: got %s, expected %r', what, show(actual), expected)
        n = 1 if expected is ref.NULL else 0
        require(len(actual) == n, '%s: blank of length %d, expected %r', what, len(actual), expected)
        return
    require(not isinstance(actual, BlankRV), '%s: got blank, expected %s', what, short(expected))
    if isinstance(expected, ref.SeqV):
        if seq_as_sum and isinstance(actual, (int, float)):
            require(actual == ref.seq_sum(expected), '%s: got %r, expected the sum of %r', what, actual, expected)
            return
        require(isinstance(actual, Seq), '%s: got %s, expected sequence %r', what, show(actual), expected)
        require(tuple(actual) == tuple(expected) and len(actual) == len(expected), '%s: got %r, expected %r', what, tuple(actual), tuple(expected))
        return
    if isinstance(expected, ref.Die):
        if isinstance(actual, (int, float)) and set(k for k, w in expected.dist.items() if w) == {actual}:
            return
        require(isinstance(actual, RV), '%s: got %s, expected %r', what, show(actual), short(expected))
        same_dist(actual, expected.dist, what)
        return
    require(isinstance(actual, (int, float)) and not isinstance(actual, Seq), '%s: got %s, expected number %r', what, show(actual), expected)
    require(actual == expected, '%s: got %r, expected %r', what, actual, expected)


def must_fail(fn, what):
    try:
        r = fn()
    except Exception:  # noqa: the property only says that it fails
        return
    raise Violation('%s must fail, but returned %s' % (what, show(r)))
