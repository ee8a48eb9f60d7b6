"""C05 typed-parameter casting."""
import hashlib
from collections.abc import Iterable
from hypothesis import strategies as st

from .. import gen, ref, cast
from ..core import Test, require, Skip, Violation
from ..load import D
from ..sut import build, model, same_value, RV, Seq, BlankRV, show

RULE = ('random functions (a hash of the received arguments picks a number, sequence, list, die, pool, blank or nothing) with 1..4 parameters of type number/sequence/die/untyped, '
        'every kind of argument, positional or keyword, both position orders, both decorators; oracle: enumeration of ordered rolls; the set of received arguments is compared too; '
        'non-trivial = at least one die or pool is expanded into two or more combinations')

T = {'N': D.T_N, 'S': D.T_S, 'D': D.T_D}

nested_list = st.builds(lambda t, xs: [t, xs], st.sampled_from(['list', 'tuple']), st.lists(st.one_of(gen.num_spec(gen.small_int), gen.num_spec(gen.small_int), st.builds(lambda t, xs: [t, xs], st.sampled_from(['list', 'tuple', 'seq']), st.lists(st.one_of(gen.num_spec(gen.small_int), gen.list_spec(gen.small_int, 0, 2)), max_size=3))), max_size=4))
arg = st.one_of(gen.num_spec(gen.small_number), gen.seq_spec(gen.small_number, 0, 4), gen.list_spec(gen.small_int, 0, 3), gen.list_spec(st.integers(-1, 3), 0, 7), gen.rv_spec(gen.small_number, 4), gen.rv_spec(gen.small_int, 5), gen.rv_spec(gen.small_int, 3),
                gen.pool_spec(3, 4, st.integers(-2, 5), budget=70, min_n=2), gen.pool_spec(5, 3, st.integers(-2, 5), budget=130, min_n=2), gen.pool_spec(3, 3, gen.dyadic, budget=30, min_n=2),
                st.builds(lambda a, b: ['op', '+', a, b], gen.pool_spec(2, 2, st.integers(0, 3), budget=4), gen.rv_spec(gen.small_int, 2)), gen.num_spec(st.booleans()), nested_list,
                st.builds(lambda n, d: ['roll', n, d], gen.rv_spec(st.integers(0, 2), 2), gen.rv_spec(gen.small_int, 2)))
arg_b = st.one_of(arg, arg, arg, arg, arg, arg, arg, st.just(['blank']), st.just(['null']))


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    params = []
    first_kw = draw(st.integers(0, n)) if draw(st.booleans()) else n
    for i in range(n):
        params.append({'ty': draw(st.sampled_from(['N', 'S', 'D', 'N', 'S', None])), 'arg': draw(arg_b if draw(st.integers(0, 3)) == 0 else arg), 'kw': i >= first_kw})
    table = draw(st.lists(st.sampled_from(['int', 'int', 'float', 'bool', 'seq', 'list', 'gen', 'range', 'tuple', 'nested', 'nested', 'die', 'pool', 'none', 'blank', 'first', 'sum']), min_size=1, max_size=6))
    return {'params': params, 'table': table, 'salt': draw(st.integers(0, 99)), 'low': draw(st.booleans()), 'deco': draw(st.sampled_from(['type', 'full'])),
            'kworder': draw(st.booleans()), 'extra': draw(st.sampled_from([0, 0, 0, 1])), 'shape': draw(st.sampled_from([[], [], [], ['more'], ['more', 'ret'], ['ret'], ['kwonly', 'ret'], ['kwonly'], ['default']])), 'ret': draw(st.sampled_from('NSD'))}


def canon_model(v):
    if v is ref.BLANK or v is ref.NULL:
        return 'blank'
    if isinstance(v, ref.SeqV):
        return ['s'] + [float(x) for x in v]
    if isinstance(v, ref.Die):
        d = ref.reduced(v.dist)
        return ['d', v.n] + [[float(k), w] for k, w in sorted(d.items())]
    return ['n', float(v)]


def canon_sut(v, ty, i):
    if isinstance(v, BlankRV):
        return 'blank'
    if isinstance(v, Seq):
        kind = 'S'
        r = ['s'] + [float(x) for x in v]
    elif isinstance(v, RV):
        kind = 'D'
        r = ['d', len(v)] + [[float(k), w] for k, w in zip(v.vals, v.probs)]
    elif isinstance(v, (int, float)):
        kind = 'N'
        r = ['n', float(v)]
    elif isinstance(v, (list, tuple)) and ty is None:
        return ['s'] + [float(x) for x in Seq(v)]
    else:
        raise Violation('parameter %d received a %s' % (i, type(v).__name__))
    if ty is not None:
        require(kind == ty, 'parameter %d of type %s received %s', i, ty, show(v))
    return r


def flat_plain(x):
    nums, dice = [], []

    def go(v):
        for y in v:
            if isinstance(y, RV):
                dice.extend(y.vals)
            elif isinstance(y, (list, tuple, Seq)):
                go(y)
            else:
                nums.append(y)
    go(x)
    return nums + dice


def decide(c, key):
    h = int.from_bytes(hashlib.sha256(repr((c['salt'], key)).encode()).digest()[:6], 'big')
    return c['table'][h % len(c['table'])], h // 97


RES_DICE = [([1, 2], [1, 1]), ([0, 5], [2, 3]), ([-1, 4, 7], [1, 1, 5])]


def nested(h):
    """Numbers (with repeats) and dice of a plain nested list."""
    n, base = h % 9, h // 9 % 4
    return [(base + i * i) % (2 + h // 36 % 3) for i in range(n)], [h // 108 % 3] * (h // 324 % 3)


def result_model(c, key, args):
    kind, h = decide(c, key)
    if kind == 'int':
        return h % 7 - 2
    if kind == 'float':
        return (h % 9) / 4
    if kind == 'bool':
        return h % 2
    if kind == 'range':
        return ref.SeqV(range(h % 3, h % 3 + h % 5))
    if kind in ('seq', 'list', 'gen', 'tuple'):
        return ref.SeqV([h % 3, h % 5 - 1][: h % 3])
    if kind == 'nested':
        nums, dice = nested(h)
        return ref.SeqV(nums + [v for i in dice for v in RES_DICE[i][0]])
    if kind == 'die':
        return ref.die_of_list(*RES_DICE[h % 3])
    if kind == 'pool':
        return ref.roll(1 + h % 3, 2 + h % 2)
    if kind == 'none':
        return None
    if kind == 'blank':
        return ref.BLANK
    a = args[0]
    return a if kind == 'first' else (ref.seq_sum(a) if isinstance(a, ref.SeqV) else a)


def result_sut(c, key, args):
    kind, h = decide(c, key)
    if kind == 'int':
        return h % 7 - 2
    if kind == 'float':
        return (h % 9) / 4
    if kind == 'bool':
        return bool(h % 2)
    if kind == 'seq':
        return Seq(*[h % 3, h % 5 - 1][: h % 3])
    if kind == 'list':
        return [h % 3, h % 5 - 1][: h % 3]
    if kind == 'nested':
        nums, dice = nested(h)
        parts = nums[:len(nums) // 2] + ([tuple(nums[len(nums) // 2:])] if h % 2 else nums[len(nums) // 2:])
        at = h % (len(parts) + 1)
        return parts[:at] + [RV(*RES_DICE[i]) for i in dice] + parts[at:]
    if kind == 'tuple':
        return tuple([h % 3, h % 5 - 1][: h % 3])
    if kind == 'gen':
        return (x for x in [h % 3, h % 5 - 1][: h % 3])
    if kind == 'range':
        return range(h % 3, h % 3 + h % 5)
    if kind == 'die':
        return RV(*RES_DICE[h % 3])
    if kind == 'pool':
        return D.roll(1 + h % 3, 2 + h % 2)
    if kind == 'none':
        return None
    if kind == 'blank':
        return BlankRV()
    a = args[0]
    return a if kind == 'first' else (a.sum() if isinstance(a, Seq) else (Seq(*a).sum() if isinstance(a, (list, tuple)) else a))


def make_function(c, body):
    names = ['P%d' % i for i in range(len(c['params']))]
    sig = ', '.join(n + (': T_%s' % p['ty'] if p['ty'] else '') for n, p in zip(names, c['params']))
    shape = c.get('shape', [])
    if 'kwonly' in shape:
        k = next((i for i, p in enumerate(c['params']) if p['kw']), None)
        if k is not None:
            parts = sig.split(', ')
            sig = ', '.join(parts[:k] + ['*'] + parts[k:])
    elif c['extra'] or 'more' in shape:
        sig += ', *args, **kwargs'
    g = {'T_N': D.T_N, 'T_S': D.T_S, 'T_D': D.T_D, 'body': body}
    if 'default' in shape:
        sig += ', Q: T_N = 5, R: T_S = (1, 2)' if '*' not in sig else ''
    more = ', args, kwargs' if '*args' in sig else (', (), dict(Q=Q, R=R)' if 'Q:' in sig else ', (), {}')
    exec('def f(%s)%s:\n  return body([%s]%s)' % (sig, ' -> T_' + c['ret'] if 'ret' in shape else '', ', '.join(names), more), g)
    return (D.anydice_type_casting() if c['deco'] == 'type' else D.anydice_casting())(g['f'])


def check(c):
    low = c['low']
    D.settings_set('position order', 'lowest first' if low else 'highest first')
    types = [p['ty'] for p in c['params']]
    try:
        values = [model(p['arg']) for p in c['params']]
    except ref.Unsupported as e:
        raise Skip(str(e))
    if cast.n_combos(types, values) > 2200:
        raise Skip('too many combinations')
    keys = lambda args: [canon_model(a) for a in args]  # noqa
    expected_args = set()

    def model_fn(*args):
        k = keys(args)
        expected_args.add(repr(k))
        return result_model(c, k, args)
    exp = cast.call(types, model_fn, values, low)
    got_args = set()

    def body(args, more_pos, more_kw):
        require(len(more_pos) == len(extra_pos) and all(x is y for x, y in zip(more_pos, extra_pos)), 'extra positional arguments %r', more_pos)
        if 'Q' in more_kw:
            require(more_kw['Q'] == 5 and tuple(more_kw['R']) == (1, 2), 'defaults %r', more_kw)
        else:
            require(set(more_kw) == set(extra_kw) and all(more_kw[x] is extra_kw[x] for x in extra_kw), 'extra keyword arguments %r', more_kw)
        for i, (a, t) in enumerate(zip(args, types)):
            require(t is not None or a is objs[i], 'untyped parameter %d received %s, not the very %s it was given', i, show(a), type(objs[i]).__name__)
        k = [canon_sut(a, t, i) for i, (a, t) in enumerate(zip(args, types))]
        got_args.add(repr(k))
        return result_sut(c, k, args)
    f = make_function(c, body)
    extra_pos, extra_kw = [], {}
    if 'more' in c.get('shape', []) and 'kwonly' not in c['shape']:
        if not any(p['kw'] for p in c['params']):
            extra_pos = [D.roll(2, 3), 7, D.Seq(1, 2)][:1 + c['salt'] % 3]
        if c['salt'] % 2:
            extra_kw = {'zz': D.roll(4), 'yy': [1]}
    objs = [build(p['arg']) for p in c['params']]
    pos = [o for o, p in zip(objs, c['params']) if not p['kw']]
    kw = [('P%d' % i, o) for i, (o, p) in enumerate(zip(objs, c['params'])) if p['kw']]
    if c['kworder']:
        kw.reverse()
    act = f(*pos, *extra_pos, **dict(kw), **extra_kw)
    require(got_args == expected_args, 'the function received %s, expected %s', sorted(got_args)[:6], sorted(expected_args)[:6])
    if exp is None:
        if c['deco'] == 'type':
            require(act is None, 'a function returning nothing gave %s', show(act))
            return
        exp = ref.BLANK
    if not isinstance(act, (list, tuple, Seq)) and isinstance(act, Iterable) and not isinstance(act, (RV, BlankRV)):
        act = list(act)
    if isinstance(act, (list, tuple)):  # a function called directly (no dice) returns its own result unchanged
        act = flat_plain(act)
        require(isinstance(exp, ref.SeqV) and act == list(exp), 'got list %r, expected %r', act, exp)
        return
    same_value(act, exp, 'result')


def nt(c):
    n = 1
    for p in c['params']:
        if p['ty'] in ('N', 'S') and p['arg'][0] in ('rv', 'roll', 'op', 'brv'):
            n += 1
    return n > 1 and not any(p['arg'][0] in ('blank', 'null') for p in c['params'])


def labels(c):
    out = ['params%d' % len(c['params']), c['deco'], 'low' if c['low'] else 'high']
    for p in c['params']:
        out.append('%s<-%s' % (p['ty'], p['arg'][0]))
    if any(p['kw'] for p in c['params']):
        out.append('keyword')
    return out


@st.composite
def pools_only(draw):
    """Sequence parameters given larger pools (multinomial weights)."""
    n = draw(st.integers(1, 2))
    params = [{'ty': 'S', 'arg': draw(gen.pool_spec(6 if n == 1 else 3, 4, st.integers(-2, 6), budget=700 if n == 1 else 26, min_n=2)), 'kw': False} for _ in range(n)]
    return {'params': params, 'table': draw(st.lists(st.sampled_from(['int', 'int', 'seq', 'die', 'none', 'sum', 'first']), min_size=1, max_size=4)), 'salt': draw(st.integers(0, 99)), 'low': draw(st.booleans()),
            'deco': 'type', 'kworder': False, 'extra': 0}

@st.composite
def big_case(draw):
    """Dice of many values, pools of many rolls, up to seven parameters."""
    how = draw(st.integers(0, 5))
    if how == 0:
        params = [{'ty': 'N', 'arg': draw(gen.brv(10, 300)), 'kw': False}]
    elif how == 1:
        params = [{'ty': 'S', 'arg': draw(st.one_of(gen.pool_spec(10, 3, st.integers(-2, 6), budget=2100, min_n=3), gen.pool_spec(2, 40, st.integers(-9, 60), budget=1700, min_n=2), st.builds(lambda n: ['roll', ['num', n], ['num', 2]], st.integers(6, 11)))), 'kw': False}]
    elif how == 2:
        params = [{'ty': draw(st.sampled_from('NS')), 'arg': draw(gen.brv(5, 30, ('repeat', 'mid', 'quarter'))), 'kw': draw(st.booleans())} for _ in range(2)]
        params.sort(key=lambda p: p['kw'])
    else:
        params = [{'ty': draw(st.sampled_from(['N', 'S', 'D', None])), 'arg': draw(st.one_of(gen.rv_spec(gen.small_int, 2), gen.num_spec(gen.small_int), gen.bseq(3, 40), gen.pool_spec(2, 2, st.integers(0, 3), budget=4, min_n=2))), 'kw': False} for _ in range(draw(st.integers(4, 7)))]
        if draw(st.booleans()):  # most of them expanded
            for p in params:
                if draw(st.integers(0, 3)):
                    p['ty'] = draw(st.sampled_from('NNS'))
                    p['arg'] = draw(st.one_of(gen.rv_spec(gen.small_int, 2, min_size=2), gen.rv_spec(gen.small_int, 3, st.sampled_from([0, 1, 3, 10 ** 4]), min_size=2), gen.pool_spec(2, 2, st.integers(0, 3), budget=4, min_n=2)))
        for p in params[draw(st.integers(0, len(params))):]:
            p['kw'] = True
    return {'params': params, 'table': draw(st.lists(st.sampled_from(['int', 'int', 'seq', 'die', 'none', 'sum', 'first', 'float']), min_size=1, max_size=4)), 'salt': draw(st.integers(0, 99)), 'low': draw(st.booleans()),
            'deco': draw(st.sampled_from(['type', 'full'])), 'kworder': draw(st.booleans()), 'extra': 0}


@st.composite
def wide_pool(draw):
    """A sequence parameter given a pool of many dice of one or two faces: the binomial weights run to dozens of digits (up to 10^31 in total nothing may be rounded)."""
    w = draw(st.sampled_from([[1, 1], [1, 1], [1, 1], [1, 2], [3, 1], [0, 1], [2, 3]]))
    most = 100 if w == [1, 1] else {3: 60, 4: 50, 1: 60, 5: 42}[sum(w)]
    n = draw(st.one_of(st.integers(12, most), st.integers(most // 2, most)))
    lo = draw(st.integers(-2, 3))
    return {'n': n, 'lo': lo, 'hi': lo + draw(st.integers(1, 4)), 'w': w, 'low': draw(st.booleans()), 'sep': draw(st.booleans())}


def check_wide(c):
    import math
    D.settings_set('position order', 'lowest first' if c['low'] else 'highest first')
    pool = D.roll(c['n'], RV([c['lo'], c['hi']], c['w']))
    seen = []

    @D.anydice_casting()
    def f(s: D.T_S):
        seen.append(tuple(s))
        k = sum(1 for x in s if x == c['hi'])
        return k if c['sep'] else k * 10 + (1 @ s == c['hi'])
    act = f(pool)
    require(sum(c['w']) ** c['n'] <= 10 ** 31, 'case too large')
    exp = {}
    for k in range(c['n'] + 1):
        top = int(k == c['n']) if c['low'] else int(k > 0)
        wt = math.comb(c['n'], k) * c['w'][1] ** k * c['w'][0] ** (c['n'] - k)
        if wt:
            exp[k if c['sep'] else k * 10 + top] = wt
    for s in seen:
        require(list(s) == sorted(s, reverse=not c['low']) and len(s) == c['n'], 'the function received %r', s[:5])
    g = math.gcd(*exp.values())
    got = {v: p for v, p in zip(act.vals, act.probs) if p}
    require(got == {v: p // g for v, p in exp.items()}, 'weights %s, expected %s', got, exp)


QUICK_SCALE = 3

TESTS = [Test('call', case, check, nt, labels, 6000, 120000), Test('pools', pools_only, check, nt, labels, 1500, 30000), Test('big', big_case, check, nt, labels, 300, 6000), Test('wide', wide_pool, check_wide, lambda c: c['n'] > 20, None, 250, 5000)]
