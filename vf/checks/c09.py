"""C09 blank die algebra."""
import itertools
from hypothesis import strategies as st

from .. import gen, ref, cast
from ..core import Test, require, Skip, Violation
from ..load import D
from ..sut import build, model, same_value, must_fail, PYOP, PYUN, RV, Seq, BlankRV, show

RULE = ('every operator with a blank or null on either side of every kind of operand (grid), random nested expressions with blank leaves, rolls, sequences, mixtures, function calls and printing; '
        'oracle: the stated blank algebra; non-trivial = a blank or null takes part')

ARITH = ['+', '-', '*', '//', '/', '**', '%']
CMP = ['==', '!=', '<', '<=', '>', '>=']
BOOL = ['&', '|']
UN = ['-', '+', 'abs', 'round', 'floor', 'ceil', 'trunc', '!', '#']

OPERANDS = [['num', 0], ['num', 3], ['num', -2], ['num', 0.5], ['seq', []], ['seq', [['num', 4]]], ['seq', [['num', 1], ['num', 2]]], ['rv', [0], [1]], ['rv', [1, 2, 5], [1, 2, 3]], ['rv', [-1, 1], [1, 1]],
            ['roll', ['num', 2], ['num', 6]], ['roll', ['num', 1], ['num', 4]], ['blank'], ['null'], ['num', True], ['num', 0.0], ['roll', ['num', 3], ['num', 2]]]
BLANKS = [['blank'], ['null'], ['roll', ['num', 3], ['seq', []]], ['roll', ['blank'], ['num', 6]], ['roll', ['blank'], ['seq', [['num', 1]]]], ['roll', ['num', 2], ['blank']], ['mix', [['blank'], ['blank']], [1, 2]]]


def check_op(c):
    try:
        exp = ref.binop(c['op'], model(c['a']), model(c['b']))
    except ref.Unsupported as e:
        raise Skip(str(e))
    act = PYOP[c['op']](build(c['a']), build(c['b']))
    same_value(act, exp, '%s %s %s' % (c['a'][0], c['op'], c['b'][0]), seq_as_sum=True)


def grid(tier):
    for bl in BLANKS:
        for op in ARITH + CMP + BOOL:
            for o in OPERANDS:
                yield {'op': op, 'a': bl, 'b': o}
                yield {'op': op, 'a': o, 'b': bl}


rnd_operand = st.one_of(gen.num_spec(gen.number), gen.num_spec(gen.small_int), gen.seq_spec(gen.small_number, 0, 4), gen.rv_spec(gen.small_number, 5), gen.rv_spec(gen.small_int, 4), gen.pool_spec(3, 4, gen.small_int, budget=64), gen.list_spec(gen.small_int, 0, 3),
                       st.recursive(gen.list_spec(gen.small_int, 0, 3), lambda ch: st.builds(lambda t, xs: [t, xs], st.sampled_from(['list', 'list', 'tuple']), st.lists(st.one_of(ch, gen.num_spec(gen.small_int), gen.seq_spec(gen.small_int, 0, 2)), max_size=3)), max_leaves=4))


@st.composite
def rnd(draw):
    a, b = draw(st.sampled_from(BLANKS)), draw(rnd_operand)
    if draw(st.booleans()):
        a, b = b, a
    return {'op': draw(st.sampled_from(ARITH + CMP + BOOL)), 'a': a, 'b': b}


def check_rnd(c):
    op, lst = c['op'], any(x[0] in ('list', 'tuple') for x in (c['a'], c['b']))
    ma, mb = model(c['a']), model(c['b'])
    exp = ref.binop(op, ma, mb)
    act = PYOP[op](build(c['a']), build(c['b']))
    if lst and isinstance(act, (list, tuple)):
        act = Seq(*act)
    same_value(act, exp, '%s %s %s' % (c['a'][0], op, c['b'][0]), seq_as_sum=True)


tree_leaf = st.one_of(st.sampled_from(BLANKS), st.sampled_from(BLANKS), gen.num_spec(st.integers(-3, 6)), gen.rv_spec(st.integers(-3, 5), 3), gen.pool_spec(2, 3, st.integers(0, 3), budget=9), gen.seq_spec(st.integers(-2, 4), 0, 3))
tree = st.recursive(tree_leaf, lambda ch: st.one_of(st.builds(lambda op, a, b: ['op', op, a, b], st.sampled_from(['+', '-', '*', '+', '-'] + CMP + BOOL), ch, ch), st.builds(lambda n, d: ['roll', n, d], ch, ch),
                                                    st.builds(lambda xs: ['gseq', xs], st.lists(ch, max_size=4))), max_leaves=5)


def model_tree(s):
    if s[0] == 'op':
        a, b = model_tree(s[2]), model_tree(s[3])
        if s[1] in BOOL and ref.is_num(a) and ref.is_num(b):
            raise Skip('number & number')
        if s[1] in BOOL and (a is ref.BLANK or b is ref.BLANK):
            pass
        if s[1] in ('<', '>') and isinstance(a, ref.SeqV) and isinstance(b, ref.SeqV) and not a and not b:
            raise Skip('strict comparison of two empty sequences')
        if any(isinstance(x, ref.SeqV) for x in (a, b)) and any(x is ref.BLANK for x in (a, b)) and s[1] in '+-|':
            raise Skip('a sequence plus blank may be the sequence or its sum')
        return ref.binop(s[1], a, b)
    if s[0] == 'roll':
        n, d = model_tree(s[1]), model_tree(s[2])
        for x in (n, d):
            if isinstance(x, ref.Die) and len(x.dist) > 40 or ref.is_num(x) and abs(x) > 30:
                raise Skip('large')
            if isinstance(x, ref.SeqV) and (len(x) > 12 or abs(ref.seq_sum(x)) > 12):
                raise Skip('large')
        if isinstance(n, ref.Die) and any(abs(v) > 6 for v in n.dist):
            raise Skip('large')
        return ref.roll(n, d)
    if s[0] == 'gseq':
        return ref.flat([model_tree(x) for x in s[1]])
    return model(s)


def check_tree(c):
    try:
        exp = model_tree(c['e'])
    except ref.Unsupported as e:
        raise Skip(str(e))
    same_value(build(c['e']), exp, 'expression')


def has_blank(s):
    return s in BLANKS or (isinstance(s, list) and any(has_blank(x) for x in s))


def check_misc(c):
    b, n = build(c['b']), c['n']
    m = model(c['b'])
    for op in UN:
        same_value(PYUN[op](b), ref.unop(op, m), '%s blank' % op)
    for k in (0, 1, 2, -1, n):
        same_value(round(b, k), m, 'round(blank, %d)' % k)
    same_value(D.myLen(b), ref.unop('#', m), '#blank')
    same_value(D.myInvert(b), ref.unop('!', m), '!blank')
    for k in (n, 1, 0, 2):
        same_value(k @ b, ref.at(k, m), '%d @ %r' % (k, m))
    must_fail(lambda: b @ D.roll(6), 'blank as position selector')
    must_fail(lambda: b @ Seq(1), 'blank as position selector')
    must_fail(lambda: bool(b), 'truth of blank')
    require(b.mean() == 0 and b.std() == 0, 'mean/deviation of blank: %r %r', b.mean(), b.std())
    # rolling
    for cnt in (n, [n], RV([0, 2], [1, 1]), D.Seq(1, 2)):
        same_value(D.roll(cnt, BlankRV()), ref.BLANK, 'roll of blank')
        same_value(D.roll(cnt, Seq()), ref.BLANK, 'roll of {}')
        same_value(D.roll(cnt, []), ref.BLANK, 'roll of []')
    same_value(D.roll(Seq()), ref.BLANK, 'd{}')
    for die in (6, -3, 0, Seq(1, 2), RV([1, 2], [1, 3]), D.roll(2, 6)):
        same_value(D.roll(b, die), ref.NULL, 'blank d die')
    # sequences and mixtures
    require(tuple(Seq(1, b, [2, b])) == (1, 2), 'blank in Seq: %r', Seq(1, b, [2, b]))
    require(tuple(D.get_seq(b, 1, [b, 2])) == (1, 2), 'blank in get_seq')
    same_value(RV.from_rvs([b, 3, b, RV([1, 2], [1, 1])], [4, n + 10, 7, 5]), ref.mix([None, 3, None, ref.die_of_list([1, 2], [1, 1])], [4, n + 10, 7, 5]), 'mixture with blanks')
    same_value(RV.from_rvs([b, b]), ref.BLANK, 'mixture of blanks')
    # printing
    w = 5 + abs(n)
    for v in (b, Seq(), None):
        require(D.output(v, named='x y', blocks_width=w, print_=False) == 'x y \n' + '-' * (w + 8), 'printed blank: %r', D.output(v, named='x y', blocks_width=w, print_=False))
        require(D.output(v, blocks_width=w, print_=False) == '\n' + '-' * (w + 8), 'printed blank: %r', D.output(v, blocks_width=w, print_=False))
    require(b.output(blocks_width=w, print_=False) == '\n' + '-' * (w + 8), 'blank.output')
    require(repr(b) == '\n' + '-' * 188, 'repr of blank %r', repr(b))
    require(str(b) == ('d{?}' if m is ref.NULL else 'd{}'), 'str of blank %r', str(b))
    require(bool(RV.dices_are_equal(b, BlankRV())) and not RV.dices_are_equal(b, 0) and not RV.dices_are_equal(RV([0], [1]), b), 'dices_are_equal with blank')


def check_call(c):
    """Functions with a blank argument: number/sequence parameters skip the call, die parameters get it."""
    calls = []
    b, m = build(c['b']), model(c['b'])

    def mk(deco):
        @deco
        def fn(A: D.T_N, B: D.T_S):
            calls.append('n')
            return 7

        @deco
        def fd(A: D.T_D):
            calls.append('d')
            require(isinstance(A, BlankRV), 'die parameter received %s', show(A))
            return A + 5

        @deco
        def fu(A):
            calls.append('u')
            require(isinstance(A, BlankRV), 'untyped parameter received %s', show(A))
            return 4

        @deco
        def fnone(A: D.T_N):
            return None
        return fn, fd, fu, fnone
    for deco in (D.anydice_casting(), D.anydice_type_casting()):
        fn, fd, fu, fnone = mk(deco)
        o = build(c['o'])
        del calls[:]
        same_value(fn(b, o), ref.NULL, 'f(blank, x)')
        same_value(fn(o, b), ref.NULL, 'f(x, blank)')
        same_value(fn(B=b, A=o), ref.NULL, 'f(B=blank)')
        require(calls == [], 'a function with a blank number/sequence argument was called')
        same_value(fd(b), ref.blank_op('+', m, 5), 'f(blank: die)')
        same_value(fu(b), 4, 'f(blank: untyped)')
        require(calls == ['d', 'u'], 'calls %r', calls)
        if c['o'][0] in ('rv', 'roll'):
            same_value(fnone(o), ref.BLANK, 'function that returns nothing')
    same_value(mk(D.anydice_casting())[3](3), ref.BLANK, 'function that returns nothing')

QUICK_SCALE = 6

TESTS = [
    Test('grid', None, check_op, lambda c: True, lambda c: [c['op']], cases=grid),
    Test('random', rnd, check_rnd, lambda c: True, lambda c: [c['op']], 2000, 40000),
    Test('tree', lambda: st.builds(lambda e: {'e': e}, tree), check_tree, lambda c: c['e'][0] in ('op', 'roll') and has_blank(c['e']), None, 3000, 60000),
    Test('misc', lambda: st.builds(lambda b, n: {'b': b, 'n': n}, st.sampled_from(BLANKS), st.integers(-5, 9)), check_misc, lambda c: True, None, 120, 1000, shards=2),
    Test('call', lambda: st.builds(lambda b, o: {'b': b, 'o': o}, st.sampled_from(BLANKS), st.one_of(gen.num_spec(gen.small_int), gen.seq_spec(gen.small_int), gen.die_spec(gen.small_int))), check_call, lambda c: True, None, 300, 4000, shards=2),
]
