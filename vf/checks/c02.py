"""C02 operators on dice."""
import itertools
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require, Skip
from ..sut import build, model_or_skip, model, same_value, same_dist, must_fail, PYOP, PYUN, RV, show

RULE = ('random operand pairs (weighted dice, pools, numbers, sequences, plain lists; ints of all magnitudes and dyadic floats) under every operator and both orders, '
        'nested expressions, the same die used twice, and a full grid of operators over small operands; oracle: enumeration of independent outcomes; '
        'non-trivial = some operand is a die with at least two values')

ARITH = ['+', '-', '*', '//', '/', '**', '%']
CMP = ['==', '!=', '<', '<=', '>', '>=']
BOOL = ['&', '|']
OPS = ARITH + CMP + BOOL
UN = ['-', '+', 'abs', 'round', 'floor', 'ceil', 'trunc', '!', '#']

die = st.one_of(gen.rv_spec(gen.small_number, 6), gen.rv_spec(gen.small_int, 7), gen.rv_spec(gen.number, 5), gen.rv_spec(st.integers(1, 9), 6),
                gen.rv_spec(st.sampled_from([0, 1, 2, -1, 0.5, 0.0, 3]), 4), gen.pool_spec(3, 5, st.integers(-3, 6), budget=130))
other = st.one_of(die, die, die, gen.num_spec(gen.number), gen.num_spec(st.integers(-4, 9)), gen.seq_spec(gen.small_number, 0, 4), gen.list_spec(gen.small_int, 0, 3),
                  st.builds(lambda t, xs: [t, xs], st.sampled_from(['list', 'tuple', 'seq']), st.lists(st.one_of(gen.rv_spec(gen.small_int, 4), gen.rv_spec(gen.small_int, 4), gen.pool_spec(2, 3, st.integers(0, 4), budget=9), gen.num_spec(gen.small_int)), min_size=1, max_size=2)))


@st.composite
def pair(draw):
    a, b = draw(die), draw(other)
    if draw(st.booleans()):
        a, b = b, a
    return {'op': draw(st.sampled_from(OPS)), 'a': a, 'b': b}


def evaluate(spec):
    """(kind, model value)"""
    try:
        return 'ok', model_or_skip(spec)
    except ref.RefFail:
        return 'fail', None


def check_spec(spec, what):
    k, exp = evaluate(spec)
    if k == 'fail':
        must_fail(lambda: build(spec), what)
        return
    act = build(spec)
    same_value(act, exp, what)
    if isinstance(act, RV) and isinstance(exp, ref.Die):
        require(len(act) == exp.n, '%s: length %d, expected %d', what, len(act), exp.n)


def check_pair(c):
    spec = ['op', c['op'], c['a'], c['b']]
    check_spec(spec, 'a %s b' % c['op'])
    if c['op'] in CMP or c['op'] in BOOL:
        k, exp = evaluate(spec)
        if k == 'ok' and isinstance(exp, ref.Die):
            r = build(spec)
            require(all(v in (0, 1) and isinstance(v, int) for v in r.vals), 'comparison gave values %r', r.vals)


def multi(spec):
    return spec[0] in ('roll', 'brv') or (spec[0] == 'rv' and len(set(spec[1])) > 1)


def check_self(c):
    """The same object on both sides means two independent rolls."""
    m = model_or_skip(c['a'])
    x = build(c['a'])
    try:
        exp = ref.binop(c['op'], m, m)
    except ref.RefFail:
        must_fail(lambda: PYOP[c['op']](x, x), 'x %s x' % c['op'])
        return
    except ref.Unsupported as e:
        raise Skip(str(e))
    same_value(PYOP[c['op']](x, x), exp, 'x %s x' % c['op'])


def check_un(c):
    m = model_or_skip(c['a'])
    try:
        exp = ref.unop(c['op'], m)
    except ref.Unsupported as e:
        raise Skip(str(e))
    act = PYUN[c['op']](build(c['a']))
    same_value(act, exp, '%s(a)' % c['op'])


def check_round(c):
    """round(die, digits), also to tens and hundreds."""
    m = model_or_skip(c['a'])
    if not isinstance(m, ref.Die):
        raise Skip('no die')
    exp = {}
    for v, w in m.dist.items():
        ref.add_to(exp, round(v, c['n']), w)
    same_dist(round(build(c['a']), c['n']), exp, 'round(a, %d)' % c['n'])


tree_leaf = st.one_of(gen.rv_spec(st.integers(-4, 6), 4), gen.rv_spec(st.integers(1, 5), 3), gen.pool_spec(2, 4, st.integers(0, 4), budget=20), gen.num_spec(st.integers(-3, 7)), gen.seq_spec(st.integers(-3, 5), 0, 3))
tree = st.recursive(tree_leaf, lambda ch: st.one_of(
    st.builds(lambda op, a, b: ['op', op, a, b], st.sampled_from(['+', '-', '*', '//', '%', '+', '-', '*'] + CMP + BOOL), ch, ch),
    st.builds(lambda op, a: ['un', op, a], st.sampled_from(['-', 'abs']), st.one_of(gen.rv_spec(st.integers(-4, 6), 4), gen.pool_spec(2, 3, st.integers(-2, 3), budget=9)))), max_leaves=5)


def tree_ok(spec):
    """No int & int (bitwise in Python) and no outcomes explosion."""
    return True


def model_tree(spec):
    if spec[0] == 'op':
        a, b = model_tree(spec[2]), model_tree(spec[3])
        if ref.is_num(a) and ref.is_num(b) and spec[1] in BOOL:
            raise Skip('number & number')
        for x in (a, b):
            if isinstance(x, ref.Die) and len(x.dist) > 300:
                raise Skip('large')
        try:
            return ref.binop(spec[1], a, b)
        except ref.Unsupported as e:
            raise Skip(str(e))
    if spec[0] == 'un':
        return ref.unop(spec[1], model_tree(spec[2]))
    return model(spec)


def check_tree(c):
    try:
        exp = model_tree(c['e'])
    except ref.RefFail:
        must_fail(lambda: build(c['e']), 'expression dividing by zero')
        return
    same_value(build(c['e']), exp, 'expression')


GRID = [['num', 0], ['num', 1], ['num', -2], ['num', 3], ['num', 0.5], ['seq', []], ['seq', [['num', 2]]], ['seq', [['num', 1], ['num', -1]]], ['seq', [['num', 1], ['num', 3]]], ['list', [['num', 2], ['num', 1]]],
        ['rv', [0], [1]], ['rv', [0, 1], [1, 3]], ['rv', [-2, 5], [2, 1]], ['rv', [1, 2, 3], [1, 1, 1]], ['rv', [-1, 0, 1], [1, 2, 1]], ['rv', [0.5, 2], [1, 1]], ['roll', ['num', 2], ['num', 3]], ['roll', ['num', 1], ['num', 4]]]


def grid(tier):
    for op in OPS:
        for a, b in itertools.product(GRID, GRID):
            if a[0] in ('rv', 'roll') or b[0] in ('rv', 'roll'):
                yield {'op': op, 'a': a, 'b': b}


def check_zero(c):
    """Zero-weight values are impossible outcomes: they never get probability."""
    check = dict(c)
    a, b = model_or_skip(c['a']), model_or_skip(c['b'])
    pa = ref.Die({k: w for k, w in a.dist.items() if w})
    pb = ref.Die({k: w for k, w in b.dist.items() if w})
    exp = ref.binop(c['op'], pa, pb)
    same_dist(build(['op', c['op'], c['a'], c['b']]), exp.dist, 'a %s b with zero-weight values' % c['op'])


zrv = gen.rv_spec(gen.small_int, 5, st.one_of(st.just(0), st.integers(0, 5)))

@st.composite
def big_case(draw):
    """Dice of many values."""
    op = draw(st.sampled_from(['+', '-', '*', '//', '%', '/', '**'] + CMP + BOOL))
    if draw(st.integers(0, 3)) == 0:  # plain fair dice on both sides
        plain = st.builds(lambda m, k: ['roll', ['num', k], ['num', m]], st.integers(-30, 90), st.sampled_from([1, 1, 1, 1, 2, -1]))
        return {'op': draw(st.sampled_from(['+', '-', '+', '-', '*'] + CMP)), 'a': draw(plain), 'b': draw(plain)}
    a = draw(gen.brv(20, 150))
    b = draw(st.one_of(gen.brv(2, 40), gen.brv(40, 120), gen.num_spec(gen.number), gen.bseq(5, 60)))
    if op == '**':
        b = draw(st.one_of(gen.rv_spec(st.integers(0, 3), 4), gen.num_spec(st.integers(0, 4))))
    elif draw(st.booleans()):
        a, b = b, a
    return {'op': op, 'a': a, 'b': b}


RUNS = ('run', 'bumped', 'bumped')


def one_type(vals):
    first = {}
    return [first.setdefault(v, v) for v in vals]


@st.composite
def huge_case(draw):
    """Whole numbers that no float holds, some of them close together. (Which of 2**53 and 2.0**53 stands for both in one die is left open.)"""
    kind = draw(st.one_of(st.sampled_from([gen.huge_mix, gen.huge_any]), gen.huge_near()))
    a, b = draw(gen.rv_spec(kind, 4)), draw(st.one_of(gen.rv_spec(kind, 4), gen.num_spec(gen.huge_int if kind is gen.huge_mix else kind), gen.seq_spec(kind, 0, 3)))
    for x in (a, b):
        if x[0] == 'rv':
            x[1] = one_type(x[1])
        elif x[0] == 'seq':
            x[1] = [['num', v] for v in one_type([y[1] for y in x[1]])]
    if draw(st.booleans()):
        a, b = b, a
    return {'op': draw(st.sampled_from(['+', '-', '*', '//', '%'] + CMP + CMP + BOOL)), 'a': a, 'b': b}


QUICK_SCALE = 3

TESTS = [
    Test('pair', pair, check_pair, lambda c: multi(c['a']) or multi(c['b']), lambda c: [c['op'], c['a'][0] + ',' + c['b'][0]], 9000, 160000),
    Test('self', lambda: st.builds(lambda a, op: {'a': a, 'op': op}, die, st.sampled_from(OPS)), check_self, lambda c: multi(c['a']), lambda c: [c['op']], 1500, 30000),
    Test('unary', lambda: st.builds(lambda a, op: {'a': a, 'op': op}, die, st.sampled_from(UN)), check_un, lambda c: multi(c['a']), lambda c: [c['op']], 1200, 20000),
    Test('tree', lambda: st.builds(lambda e: {'e': e}, tree.filter(lambda s: s[0] in ('op', 'un'))), check_tree, lambda c: gen.contains_tag(c['e'], 'rv') or gen.contains_tag(c['e'], 'roll'), lambda c: ['depth%d' % min(3, depth(c['e']))], 3000, 60000),
    Test('zero', lambda: st.builds(lambda a, b, op: {'a': a, 'b': b, 'op': op}, zrv, zrv, st.sampled_from(['+', '-', '*'] + CMP + BOOL)), check_zero, lambda c: 0 in c['a'][2] + c['b'][2], None, 600, 10000),
    Test('round', lambda: st.builds(lambda a, n: {'a': a, 'n': n}, st.one_of(die, gen.rv_spec(st.one_of(st.integers(-300, 300), st.integers(-4000, 4000).map(lambda n: n / 16)), 6)), st.integers(-3, 3)), check_round, lambda c: multi(c['a']), lambda c: ['digits%d' % c['n']], 500, 10000),
    Test('big', big_case, check_pair, lambda c: True, lambda c: [c['op']], 400, 8000),
    Test('huge', huge_case, check_pair, lambda c: True, lambda c: [c['op']], 500, 10000),
    Test('runs', lambda: st.builds(lambda op, a, b, s: {'op': op, 'a': b if s else a, 'b': a if s else b}, st.sampled_from(['+', '+', '-', '*', '<', '>=', '==', '&']), gen.brv(4, 60, RUNS), st.one_of(gen.brv(4, 60, RUNS), st.builds(lambda n, m: ['roll', ['num', n], ['num', m]], st.integers(1, 2), st.integers(2, 40))), st.booleans()), check_pair, lambda c: True, lambda c: [c['op']], 250, 5000),
    Test('bigunary', lambda: st.builds(lambda a, op: {'a': a, 'op': op}, gen.brv(20, 300), st.sampled_from(UN)), check_un, lambda c: True, lambda c: [c['op']], 100, 2000),
    Test('grid', None, check_pair, lambda c: True, lambda c: [c['op']], cases=grid),
]


def depth(s):
    return 1 + max([depth(x) for x in s[2:] if isinstance(x, list)] or [0]) if s[0] in ('op', 'un') else 0
