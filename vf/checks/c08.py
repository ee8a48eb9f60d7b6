"""C08 sequences."""
import itertools
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require, Skip
from ..load import D
from ..sut import build, model, same_value, must_fail, PYOP, PYUN, RV, Seq, get_seq, show

RULE = ('random nested constructions, positions (in and out of range, repeated), operators and comparisons with numbers, sequences, lists and dice on both sides, plus an exhaustive grid of short sequences; '
        'oracle: reference sequence model; non-trivial = a sequence of at least two elements or a nested construction')

value = st.one_of(gen.small_int, gen.small_int, gen.number, st.integers(0, 2), st.booleans())
leaf = st.one_of(gen.num_spec(value), gen.num_spec(value), gen.rv_spec(gen.small_int, 4), gen.rv_spec(gen.small_int, 5, st.integers(0, 2), min_size=2), gen.pool_spec(2, 3, st.integers(0, 4), budget=9), st.builds(lambda a, b: ['range', a, b], st.integers(-4, 5), st.integers(-4, 8)), st.just(['blank']), st.just(['null']))
nest = st.recursive(leaf, lambda ch: st.builds(lambda t, xs: [t, xs], st.sampled_from(['list', 'tuple', 'seq', 'gseq']), st.lists(ch, max_size=5)), max_leaves=14)


def check_build(c):
    objs = [build(x) for x in c['items']]
    exp = ref.flat([model(x) for x in c['items']])
    nums = ref.flat([strip(x) for x in c['items']])
    for what, s in (('Seq', Seq(*objs)), ('Seq(list)', Seq(objs)), ('get_seq', get_seq(*objs)), ('get_seq(list)', get_seq(objs))):
        require(isinstance(s, Seq), '%s gave %s', what, show(s))
        got = list(s)
        require(len(s) == len(exp), '%s has length %d, expected %d', what, len(s), len(exp))
        require(sorted(got) == sorted(exp), '%s: elements %r, expected %r', what, got, list(exp))
        if len(nums) == len(exp):
            require(got == list(exp), '%s: elements %r, expected %r in this order', what, got, list(exp))
        else:
            it = iter(got)
            require(all(any(x == y for y in it) for x in nums), '%s: numbers out of order: %r', what, got)
        require(s.sum() == ref.seq_sum(exp), '%s: sum %r, expected %r', what, s.sum(), ref.seq_sum(exp))
        require(s.sum() == ref.seq_sum(exp), '%s: second sum differs', what)
        for k in range(-2, len(got) + 3):
            e = got[k - 1] if 1 <= k <= len(got) else 0
            require(s[k] == e and (k @ s) == e, '%s: position %d gives %r / %r, expected %r', what, k, s[k], k @ s, e)
        require(list(Seq(s)) == got and list(Seq(s, s)) == got + got, '%s: rebuilding or doubling the sequence changes it', what)


def strip(x):
    if x[0] in ('rv', 'roll', 'brv'):
        return ref.SeqV()
    if x[0] in ('list', 'tuple', 'seq', 'gseq'):
        return ref.flat([strip(y) for y in x[1]])
    return model(x)


sq = st.one_of(gen.seq_spec(st.integers(-2, 3), 0, 5), gen.seq_spec(st.integers(-2, 3), 1, 4), gen.seq_spec(gen.small_number, 0, 8), gen.seq_spec(gen.number, 0, 4))
other = st.one_of(sq, sq, gen.num_spec(st.integers(-3, 4)), gen.num_spec(gen.small_number), gen.num_spec(gen.number), gen.rv_spec(st.integers(-4, 6), 4), gen.pool_spec(2, 4, st.integers(-1, 3), budget=16))
ARITH = ['+', '-', '*', '//', '/', '**', '%']
CMP = ['==', '!=', '<', '<=', '>', '>=']
BOOL = ['&', '|']


@st.composite
def op_case(draw):
    a, b = draw(sq), draw(other)
    if draw(st.integers(0, 3)) == 0 and a[0] == 'seq':  # near-equal sequences
        b = ['seq', [list(x) for x in a[1]]]
        how = draw(st.integers(0, 4))
        if how == 1 and b[1]:
            i = draw(st.integers(0, len(b[1]) - 1))
            b[1][i][1] += draw(st.sampled_from([-1, 1]))
        elif how == 2:
            b[1].append(['num', draw(st.integers(-2, 2))])
        elif how == 3 and b[1]:
            b[1].pop()
    if draw(st.booleans()):
        a, b = b, a
    return {'op': draw(st.sampled_from(ARITH + CMP + CMP + BOOL)), 'a': a, 'b': b}


def check_op(c):
    op = c['op']
    try:
        ma, mb = model(c['a']), model(c['b'])
        if op in ('<', '>') and isinstance(ma, ref.SeqV) and isinstance(mb, ref.SeqV) and not ma and not mb:
            raise Skip('strict comparison of two empty sequences')
        exp = ref.binop(op, ma, mb)
    except ref.Unsupported as e:
        raise Skip(str(e))
    except ref.RefFail:
        must_fail(lambda: PYOP[op](build(c['a']), build(c['b'])), 'division by zero')
        return
    same_value(PYOP[op](build(c['a']), build(c['b'])), exp, '%s %s %s' % (c['a'][0], op, c['b'][0]))


def check_list_cmp(c):
    """A plain list compares like the sequence of its elements."""
    s, l = build(c['a']), [x[1] for x in c['b'][1]]
    if c['op'] in ('<', '>') and not l and len(s) == 0:
        raise Skip('strict comparison of two empty sequences')
    exp = ref.compare(c['op'], model(c['a']), ref.SeqV(l))
    same_value(PYOP[c['op']](s, l), exp, 'seq %s list' % c['op'])
    same_value(PYOP[c['op']](s, tuple(l)), exp, 'seq %s tuple' % c['op'])
    if len(l) > 1:  # nested
        i, j = sorted((c['i'] % (len(l) + 1), c['j'] % (len(l) + 1)))
        deep_l = [*l[:i], tuple(l[i:j]), *l[j:]]
        for nested in (deep_l, tuple(deep_l), [deep_l], tuple([tuple(l)]), [*l[:i], [[Seq(*l[i:j])]], *l[j:]]):
            same_value(PYOP[c['op']](s, nested), exp, 'seq %s nested list' % c['op'])
        same_value(Seq.seqs_are_equal(s, deep_l), int(tuple(s) == tuple(l)), 'seqs_are_equal nested')
    same_value(Seq.seqs_are_equal(s, l), int(tuple(s) == tuple(l)), 'seqs_are_equal')
    r = RV(l + [-2], [2] * len(l) + [1])  # a die in a list stands for its values
    for i in {0, len(l)}:
        mixed = [*l[:i], r, *l[i:]]
        flat = ref.SeqV(Seq(mixed))
        for x in (mixed, tuple(mixed), Seq(mixed), [mixed]):
            same_value(PYOP[c['op']](s, x), ref.compare(c['op'], model(c['a']), flat), 'seq %s list with a die' % c['op'])
        same_value(PYOP[c['op']](Seq(mixed), mixed), ref.compare(c['op'], flat, flat), 'seq of a die %s the same list' % c['op'])


@st.composite
def list_case(draw):
    a, b = draw(gen.seq_spec(st.integers(-1, 2), 0, 5)), draw(gen.list_spec(st.integers(-1, 2), 0, 4))
    if draw(st.booleans()):
        b = ['list', [list(x) for x in a[1]]]
    return {'a': a, 'b': b, 'op': draw(st.sampled_from(CMP)), 'i': draw(st.integers(0, 9)), 'j': draw(st.integers(0, 9))}


@st.composite
def at_case(draw):
    target = draw(st.one_of(sq, sq, gen.num_spec(st.one_of(st.integers(0, 99999), st.integers(0, 10**18)))))
    n = len(target[1]) if target[0] == 'seq' else len(str(target[1]))
    pos = st.one_of(st.integers(1, max(1, n)), st.integers(-2, n + 3))
    return {'t': target, 'ks': draw(st.lists(pos, min_size=0, max_size=6)), 'k': draw(pos)}


def check_at(c):
    t = build(c['t'])
    mt = model(c['t'])
    exp = ref.at(ref.SeqV(c['ks']), mt)
    same_value(Seq(*c['ks']) @ t, exp, 'positions @ %s' % c['t'][0])
    same_value(D.myMatmul(Seq(*c['ks']), t), exp, 'myMatmul positions')
    one = ref.at(c['k'], mt)
    same_value(D.myMatmul(c['k'], t), one, 'position %d' % c['k'])
    zero = Seq(*c['ks'])  # how the positions themselves are counted does not matter
    zero.set_one_indexed(False)
    same_value(D.myMatmul(zero, t), exp, 'positions (a sequence counting from 0) @ %s' % c['t'][0])
    if c['t'][0] == 'seq':
        same_value(zero @ t, exp, 'positions (a sequence counting from 0) @ seq')
        same_value(c['k'] @ t, one, 'position %d' % c['k'])
        same_value(list(c['ks']) @ t, exp, 'list of positions')
        same_value(t[c['k']], one, 'element [%d]' % c['k'])
        z = Seq(*t)
        z.set_one_indexed(False)
        same_value(c['k'] @ z, ref.at(c['k'] + 1, mt), 'position %d counted from 0' % c['k'])
        for sel in (Seq(*c['ks']), list(c['ks'])):
            same_value(sel @ z, ref.at(ref.SeqV([k + 1 for k in c['ks']]), mt), 'positions counted from 0')
        low = Seq(*[k - 1 for k in c['ks']])
        low.set_one_indexed(False)
        for sel in (low, list(low)):
            same_value(sel @ z, exp, 'positions counted from 0')
        same_value(z[c['k']], ref.at(c['k'] + 1, mt), 'element [%d] counted from 0' % c['k'])
        for new in (Seq(z), Seq([z]), get_seq(z), get_seq([z]), Seq(z, 1), get_seq(z, [])):
            same_value(c['k'] @ new if c['k'] <= len(mt) else 0, one, 'position %d of a new sequence made from one that counts from 0' % c['k'])
        z.set_one_indexed(True)
        same_value(c['k'] @ z, one, 'position %d counted from 1 again' % c['k'])
        same_value(c['k'] @ Seq(*t), one, 'position %d of a new sequence' % c['k'])
    same_value(Seq(c['k']) @ t, one, 'one-element position list')
    if c['t'][0] == 'seq':
        same_value(D.myLen(t), len(mt), 'length')
        same_value(~t, int(ref.seq_sum(mt) == 0), 'not')
        same_value(D.myInvert(t), int(ref.seq_sum(mt) == 0), 'not')
        same_value(-t, -ref.seq_sum(mt), 'minus')
    else:
        same_value(D.myLen(t), len(str(mt)), 'number of digits')


def grid(tier):
    elems = [-1, 0, 1, 2]
    seqs = [list(x) for r in range(0, 4) for x in itertools.product(elems, repeat=r)]
    if tier == 'quick':
        seqs = [s for s in seqs if len(s) < 3 or s[0] <= s[1]]
        seqs = [s for s in seqs if len(s) < 3 or s[2] in (0, 1)]
    for a in seqs:
        for b in seqs + [0, 1, -1]:
            for op in CMP + ['&', '|', '+', '-', '*']:
                if len(a) + (len(b) if isinstance(b, list) else 0) <= (4 if tier == 'quick' else 6):
                    mk = lambda x: ['num', x] if not isinstance(x, list) else ['seq', [['num', y] for y in x]]  # noqa
                    yield {'op': op, 'a': mk(a), 'b': mk(b)}
                    if not isinstance(b, list):
                        yield {'op': op, 'a': mk(b), 'b': mk(a)}


def check_int_ops(c):
    """Whole-number helpers used by compiled programs."""
    a, b = c['a'], c['b']
    same_value(D.myAnd(a, b), int(bool(a) and bool(b)), '%r & %r' % (a, b))
    same_value(D.myOr(a, b), int(bool(a) or bool(b)), '%r | %r' % (a, b))
    same_value(D.myInvert(a), int(a == 0), '!%r' % a)
    same_value(D.myLen(a), len(str(abs(a))), '#%r' % a)
    same_value(D.myMatmul(b, abs(a)), ref.at(b, abs(a)), '%r @ %r' % (b, abs(a)))
    r = D.myrange(min(a, 10**6) % 50 - 20, b)
    lo = min(a, 10**6) % 50 - 20
    require(list(r) == list(range(lo, b + 1)), 'range %r..%r gives %r', lo, b, list(r)[:10])
    sa, sb = Seq(a), Seq(b)
    same_value(D.myAnd(sa, b), int(bool(a) and bool(b)), 'seq & number')
    same_value(D.myOr(a, sb), int(bool(a) or bool(b)), 'number | seq')
    same_value(D.myOr(sa, sb), int(bool(a) or bool(b)), 'seq | seq')


def seqlen(c):
    return max([len(x[1]) for x in (c['a'], c['b']) if x[0] in ('seq', 'list')] or [0])

big_leaf = st.one_of(gen.bseq(1, 60), gen.brv(5, 60), gen.num_spec(gen.small_int), st.builds(lambda a, n: ['range', a, a + n], st.integers(-60, 60), st.integers(-2, 120)))


def deep(k, kinds, x):
    for i in range(k):
        x = [kinds[i % len(kinds)], [x, ['num', i]]]
    return x


@st.composite
def big_build(draw):
    items = draw(st.lists(big_leaf, min_size=1, max_size=6))
    items.append(deep(draw(st.integers(0, 25)), draw(st.lists(st.sampled_from(['list', 'tuple', 'seq', 'gseq']), min_size=1, max_size=4)), draw(big_leaf)))
    return {'items': items}


@st.composite
def big_op(draw):
    a = gen.expand(draw(gen.bseq(6, 80)))
    how = draw(st.integers(0, 3))
    if how == 0:
        b = draw(st.one_of(gen.bseq(6, 80), gen.num_spec(gen.small_int), gen.rv_spec(gen.small_int, 4)))
    elif how == 1:
        b = a
    else:  # equal except in one place, or one longer
        b = ['seq', [list(x) for x in a[1]]]
        if how == 2:
            b[1][draw(st.integers(0, len(b[1]) - 1))][1] += draw(st.sampled_from([-1, 1]))
        else:
            b[1].append(['num', draw(st.integers(-2, 2))])
    if draw(st.booleans()):
        a, b = b, a
    return {'op': draw(st.sampled_from(ARITH + CMP + CMP + BOOL)), 'a': a, 'b': b}


@st.composite
def big_cmp(draw):
    """A long sequence, ordered or nearly so, against a number from its range."""
    a = gen.expand(draw(gen.bseq(6, 160, ('nearly', 'nearly', 'ascending', 'descending', 'run', 'run', 'repeat', 'mid', 'quarter'))))
    vs = [x[1] for x in a[1]]
    b = ['num', draw(st.sampled_from([vs[0], vs[-1], vs[len(vs) // 2], sorted(vs)[len(vs) // 2], max(vs), min(vs)])) + draw(st.sampled_from([0, 0, 1, -1, 0.5]))]
    a, b = (a, b) if draw(st.integers(0, 2)) else (b, a)
    return {'op': draw(st.sampled_from(CMP)), 'a': a, 'b': b}


@st.composite
def big_at(draw):
    target = gen.expand(draw(gen.bseq(6, 120))) if draw(st.booleans()) else ['num', draw(st.integers(10 ** 17, 10 ** 60))]
    n = len(target[1]) if target[0] == 'seq' else len(str(target[1]))
    pos = st.one_of(st.integers(1, n), st.integers(-2, n + 3))
    if draw(st.booleans()):
        return {'t': target, 'ks': draw(gen.ranges_like(n)), 'k': draw(pos)}
    return {'t': target, 'ks': draw(st.lists(pos, min_size=5, max_size=60)), 'k': draw(pos)}


@st.composite
def mixed_build(draw):
    """Long flat lists with a few nested ones anywhere in them."""
    xs = gen.expand(draw(gen.bseq(1, 40)))[1]
    for _ in range(draw(st.integers(1, 3))):
        xs.insert(draw(st.one_of(st.integers(0, len(xs)), st.just(len(xs)))), draw(nest))
    for _ in range(draw(st.integers(0, 2))):
        xs = [[draw(st.sampled_from(['list', 'tuple', 'seq', 'gseq'])), xs]]
        xs = gen.expand(draw(gen.bseq(1, 20)))[1] + xs if draw(st.booleans()) else xs + [['num', 1]]
    return {'items': xs}


@st.composite
def huge_op(draw):
    a, b = draw(gen.seq_spec(gen.huge_mix, 0, 4)), draw(st.one_of(gen.seq_spec(gen.huge_mix, 0, 4), gen.num_spec(gen.huge_int), gen.rv_spec(gen.huge_mix, 3)))
    if a[1] and draw(st.booleans()):
        b = ['seq', [list(x) for x in a[1]]]
        b[1][-1][1] += draw(st.sampled_from([0, 1, -1]))
    if draw(st.booleans()):
        a, b = b, a
    return {'op': draw(st.sampled_from(['+', '-', '*'] + CMP + CMP + BOOL)), 'a': a, 'b': b}


QUICK_SCALE = 3

TESTS = [
    Test('build', lambda: st.builds(lambda xs: {'items': xs}, st.lists(nest, max_size=5)), check_build, lambda c: len(c['items']) > 1, lambda c: [t for t in ('rv', 'roll', 'range', 'blank', 'null', 'list') if gen.contains_tag(c['items'], t)], 2500, 50000),
    Test('ops', op_case, check_op, lambda c: seqlen(c) > 1, lambda c: [c['op'], c['a'][0] + ',' + c['b'][0]], 5000, 100000),
    Test('listcmp', lambda: list_case(), check_list_cmp, lambda c: seqlen(c) > 1, None, 800, 10000),
    Test('at', at_case, check_at, lambda c: len(c['ks']) > 0, lambda c: [c['t'][0]], 2500, 40000),
    Test('bigbuild', big_build, check_build, lambda c: True, None, 200, 4000),
    Test('mixbuild', mixed_build, check_build, lambda c: True, None, 200, 4000),
    Test('huge', huge_op, check_op, lambda c: True, lambda c: [c['op']], 300, 6000),
    Test('bigops', big_op, check_op, lambda c: True, lambda c: [c['op']], 500, 8000),
    Test('bigcmp', big_cmp, check_op, lambda c: True, lambda c: [c['op']], 300, 6000),
    Test('bigat', big_at, check_at, lambda c: True, None, 250, 4000),
    Test('intops', lambda: st.builds(lambda a, b: {'a': a, 'b': b}, gen.any_int, st.integers(-3, 14)), check_int_ops, lambda c: c['a'] != 0, None, 800, 8000, shards=4),
    Test('grid', None, check_op, lambda c: True, lambda c: [c['op']], cases=grid),
]
