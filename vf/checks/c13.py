"""C13 settings."""
import contextlib
import io
import sys
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require
from ..load import D
from ..sut import same_dist, same_value, check_canonical, must_fail, show, RV, Seq, BlankRV, roll, PYOP, PYUN
from .c07 import m_explode
from dice_calc.factory import get_rv  # noqa

RULE = ('random histories of settings changes (valid, invalid, unknown names), resets, die creation and operations; after every step all settings are probed by behaviour and every existing die is compared with its snapshot; '
        'oracle: a settings-aware model; non-trivial = at least two effective changes of different settings or a rejected change after one, plus an operation')

DEF = {'position order': 'highest first', 'explode depth': 2, 'maximum function depth': 10, 'RV_TRUNC': False, 'RV_IGNORE_ZERO_PROBS': False, 'DEFAULT_OUTPUT_WIDTH': 180, 'DEFAULT_PRINT_FN': 'print'}
VALID = {'position order': ['highest first', 'lowest first', 'lowest first'], 'explode depth': [1, 2, 3, 4, 6, 9, 20, 40], 'maximum function depth': [1, 2, 3, 9, 10, 11, 25, 60, 1500], 'RV_TRUNC': [True, False, 'True', 'false', 'TRUE', 'true', 'False'],
         'RV_IGNORE_ZERO_PROBS': [True, False, 'true', 'False', 'TRUE'], 'DEFAULT_OUTPUT_WIDTH': [1, 7, 20, 100, 180, 300, 500, 1000, 4000], 'DEFAULT_PRINT_FN': ['print', 'f1', 'f2']}
INVALID = {'position order': ['Highest First', 'highest', 'lowest', '', 0, 1, None, True, ' lowest first'], 'explode depth': [0, False, -1, -5, 2.5, 1.0, 3.0, '2', None, [3], 'deep'], 'maximum function depth': [0, False, -1, 2.5, 1.0, 5.0, 10.0, '10', None, [1]],
           'RV_TRUNC': ['yes', '', None, [], 'truee', 1.5, 'no', 'true ', ' false', 'True\n', 2, '1', '0', 't'], 'RV_IGNORE_ZERO_PROBS': ['yes', '', None, [], 'on', ' true', 'false ', -1, 'none'], 'DEFAULT_OUTPUT_WIDTH': [0, False, -1, -180, '20', None, 20.5, 20.0, 100.0], 'DEFAULT_PRINT_FN': [None, 1, 'print', []]}
UNKNOWN = ['', 'rv_trunc', 'Position Order', 'position  order', 'INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED', 'depth', 'explode_depth', 'maximum function depth ', None, 3]

i_ = st.integers(0, 9)
die_small = st.one_of(gen.rv_spec(gen.dyadic, 4, st.integers(0, 3)), gen.rv_spec(st.one_of(st.integers(-3, 4), gen.dyadic), 4, st.integers(0, 3)), gen.rv_spec(st.integers(-2, 4), 4))
step = st.one_of(
    st.sampled_from(sorted(VALID)).flatmap(lambda n: st.builds(lambda v: ['set', n, v], st.sampled_from(VALID[n]))),
    st.sampled_from(sorted(VALID)).flatmap(lambda n: st.builds(lambda v: ['set', n, v], st.sampled_from(VALID[n]))),
    st.sampled_from(sorted(INVALID)).flatmap(lambda n: st.builds(lambda v: ['bad', n, v], st.sampled_from(INVALID[n]))),
    st.builds(lambda n, v: ['bad', n, v], st.sampled_from(UNKNOWN), st.sampled_from([1, True, 'highest first', 0])),
    st.just(['reset']),
    st.builds(lambda d: ['make', d], die_small), st.builds(lambda d: ['make', d], die_small),
    st.builds(lambda n, d: ['pool', n, d], st.integers(2, 3), gen.rv_spec(st.integers(-2, 4), 3)),
    st.builds(lambda o, a, x: ['num', o, a, x], st.sampled_from(['+', '-', '*', '<', '==']), i_, gen.small_number),
    st.builds(lambda o, a, x: ['numdiv', o, a, x], st.sampled_from(['/', '//']), i_, st.sampled_from([2, 4, -2, 3.0, 0.5, 8])),
    st.builds(lambda o, a, b: ['bin', o, a, b], st.sampled_from(['+', '-', '*', '<=', '&']), i_, i_),
    st.builds(lambda a, b, w: ['mix', a, b, w], i_, i_, st.integers(1, 3)),
    st.builds(lambda a, x: ['filter', a, x], i_, gen.small_number),
    st.builds(lambda a, k: ['at', a, k], i_, st.integers(1, 3)),
    st.builds(lambda a, k: ['ats', a, k], i_, st.lists(st.integers(0, 4), min_size=2, max_size=3)),
    st.builds(lambda a: ['fn', a], i_), st.builds(lambda a: ['fns', a], i_), st.builds(lambda a: ['roll2', a], i_), st.builds(lambda a: ['explode', a], i_),
    st.builds(lambda a, b: ['mixroll', a, b], i_, i_), st.builds(lambda a: ['neg', a], i_), st.builds(lambda o, a: ['un', o, a], st.sampled_from(['-', 'abs', 'round', 'floor', 'ceil', 'trunc']), i_), st.builds(lambda a, n: ['rnd', a, n], i_, st.integers(-1, 2)),
    st.builds(lambda o, a, xs: ['seqop', o, a, xs], st.sampled_from(['+', '-', '*', '<', '==', '>=']), i_, st.lists(gen.small_number, max_size=3)),
)


def case():
    return st.builds(lambda xs: {'steps': xs}, st.one_of(st.lists(step, min_size=2, max_size=10), st.lists(step, min_size=10, max_size=25)))


def norm(dist, S):
    r = {}
    for v, w in dist.items():
        if isinstance(v, bool):
            v = int(v)
        if S['RV_TRUNC']:
            v = int(v)
        ref.add_to(r, v, w)
    if S['RV_IGNORE_ZERO_PROBS']:
        r = {v: w for v, w in r.items() if w}
    return ref.reduced(r)


PRINTED = {'f1': [], 'f2': []}
FN = {'print': print, 'f1': lambda x: PRINTED['f1'].append(x), 'f2': lambda x: PRINTED['f2'].append(x)}


@D.anydice_casting()
def deep(n: D.T_N):
    r = deep(n - 1) if n > 0 else 0
    return r + 1 if not isinstance(r, BlankRV) else 0


def old_dice():
    """Dice made before any setting changed; every later probe uses these same objects as well."""
    return {'five': roll(5, 2), 'pool': roll(3, 2), 'two': roll(2, 3), 'one': roll(1, 2), 'coin': RV([0, 1], [1, 1])}


@D.anydice_type_casting()
def first_of(s: D.T_S):
    return 1 @ s


def probe_depth(m, when):
    require(deep(m - 1) == m, '%s: %d nested calls gave %r', when, m, deep(m - 1))
    # n=m makes the innermost call the (m+1)-th: cut
    with contextlib.redirect_stdout(io.StringIO()):
        r = deep(m)
    require(isinstance(r, int) and r == m - 1, '%s: %d nested calls with limit %d gave %s', when, m + 1, m, show(r))


def probe(S, when, old):
    low = S['position order'] == 'lowest first'
    p = roll(3, 2)
    for q, kind in ((p, ''), (old['pool'], ' (an earlier die)')):
        same_dist(1 @ q, {1: 7, 2: 1} if low else {1: 1, 2: 7}, when + ': 1@3d2' + kind)
        same_dist(3 @ q, {1: 1, 2: 7} if low else {1: 7, 2: 1}, when + ': 3@3d2' + kind)
    same_dist(Seq(1, 3) @ old['pool'], {2: 1, 3: 6, 4: 1}, when + ': {1,3}@3d2 (an earlier die)')
    same_dist(first_of(old['two']), {1: 5, 2: 3, 3: 1} if low else {1: 1, 2: 3, 3: 5}, when + ': first of 2d3 (an earlier die)')
    same_dist(first_of(roll(2, old['one'])), {1: 3, 2: 1} if low else {1: 1, 2: 3}, when + ': first of 2d2 (an earlier die)')
    same_dist(first_of(old['five']), {1: 31, 2: 1} if low else {1: 1, 2: 31}, when + ': first of 5d2 (an earlier die)')
    same_dist(2 @ old['five'], {1: 26, 2: 6} if low else {1: 6, 2: 26}, when + ': 2@5d2 (an earlier die)')
    same_value(D.explode_X(old['one']), m_explode(ref.Die({1: 1, 2: 1}), S['explode depth']), when + ': explode d2 (an earlier die)')
    same_value(D.explode_X(old['coin']), m_explode(ref.Die({0: 1, 1: 1}), S['explode depth']), when + ': explode {0,1} (an earlier die)')
    same_dist(old['coin'] / 2, {0: 1, 0.5: 1} if not S['RV_TRUNC'] else {0: 2}, when + ': {0,1} halved (an earlier die)')
    same_dist(Seq(1, 1, 2) @ p, ref.positions_of_pool([1, 1, 2], 3, {1: 1, 2: 1}, low).dist, when + ': {1,1,2}@3d2')
    seen = set()

    @D.anydice_type_casting()
    def rolls(s: D.T_S):
        seen.add(tuple(s))
        return 1 @ s
    same_dist(rolls(roll(2, 3)), {1: 5, 2: 3, 3: 1} if low else {1: 1, 2: 3, 3: 5}, when + ': first of a rolled sequence')
    require(seen == ({(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)} if low else {(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (3, 3)}), '%s: rolled sequences %r', when, seen)
    same_value(D.explode_X(roll(1, 2)), m_explode(ref.Die({1: 1, 2: 1}), S['explode depth']), when + ': explode d2')
    m = S['maximum function depth']
    limit = sys.getrecursionlimit()
    if m > 100:
        sys.setrecursionlimit(40 * m)
    try:
        probe_depth(m, when)
    finally:
        sys.setrecursionlimit(limit)
    f = RV([1.5, -1.5, 2.75, 0.5, 3], [1, 2, 1, 1, 0])
    same_dist(f, norm({1.5: 1, -1.5: 2, 2.75: 1, 0.5: 1, 3: 0}, S), when + ': fractional values', exact_zero=True)
    for trunc in (True, False):
        same_dist(RV([1.5, -1.5, 2.75], [1, 2, 1], truncate=trunc), norm({1.5: 1, -1.5: 2, 2.75: 1}, dict(S, RV_TRUNC=trunc)), when + ': truncate=%s' % trunc)
    same_dist(f / 2, {0.75: 1, -0.75: 2, 1.375: 1, 0.25: 1} if not S['RV_TRUNC'] else {0: 4, 1: 1}, when + ': fractional values halved')
    for v in (1.5, -1.5, -0.5, 2, -3.0):
        for what, x in (('from_const', RV.from_const(v)), ('get_rv', get_rv(v)), ('from_seq', RV.from_seq([v])), ('1d{}', roll(1, [v])), ('d{}', roll([v])), ('mixed with', RV.from_rvs([v])), ('0 + die of', 0 + RV([v], [3])), ('sum of two of', roll(2, RV([v / 2], [1])))):
            if what == 'sum of two of' and S['RV_TRUNC']:
                continue
            same_dist(x, norm({v: 1}, S), '%s: %s %r' % (when, what, v))
    for n in (89, 128, 1000):
        g = RV(range(n), [i % 3 for i in range(n)])
        require(len(g.vals) == (n - (n + 2) // 3 if S['RV_IGNORE_ZERO_PROBS'] else n), '%s: %d values of which a third are impossible: %d kept', when, n, len(g.vals))
        g = RV([i / 2 for i in range(n)], [1] * n)
        require(len(g.vals) == ((n + 1) // 2 if S['RV_TRUNC'] else n), '%s: %d halves: %d kept', when, n, len(g.vals))
    g = RV([7, 8, 9], [0, 3, 6])
    require(tuple(g.vals) == ((8, 9) if S['RV_IGNORE_ZERO_PROBS'] else (7, 8, 9)) and tuple(g.probs) == ((1, 2) if S['RV_IGNORE_ZERO_PROBS'] else (0, 1, 2)), '%s: zero weights: %s', when, show(g))
    h = roll(2, g)
    require(min(h.vals) == (16 if S['RV_IGNORE_ZERO_PROBS'] else 14), '%s: zero weights in a roll: %s', when, show(h))
    t = D.output(Seq(), named='x', print_=False)
    require(t == 'x \n' + '-' * (S['DEFAULT_OUTPUT_WIDTH'] + 8), '%s: width of %r', when, t)
    t2 = D.output(5, print_=False).split('\n')
    require(len(t2[1]) - len(t2[1].rstrip('█')) == max(0, S['DEFAULT_OUTPUT_WIDTH'] - 1), '%s: bar of %r', when, t2[1])
    for k in PRINTED.values():
        k.clear()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        D.output(3, named='p')
    want = S['DEFAULT_PRINT_FN']
    got = {'print': bool(out.getvalue()), 'f1': len(PRINTED['f1']) == 1, 'f2': len(PRINTED['f2']) == 1}
    require(got == {k: k == want for k in got}, '%s: printed via %r, expected %s', when, got, want)


def raw(x):
    return (tuple(repr(v) for v in x.vals), tuple(x.probs), len(x), str(x), repr(x.mean()), repr(x.std()))


def check(c):
    S = dict(DEF)
    old = old_dice()
    pool = []  # (object, model Die, snapshot)

    def add(x, m, what):
        if isinstance(x, RV):
            same_dist(x, m.dist, what)
            check_canonical(x, what)
            if S['RV_TRUNC']:
                require(all(isinstance(v, int) for v in x.vals), '%s: fractional value kept although truncation is on: %s', what, show(x))
            total = sum(m.dist.values())
            if S['RV_IGNORE_ZERO_PROBS'] and total < 10 ** 28:  # beyond that, weights are scaled down and may become 0 (C20)
                require(all(x.probs), '%s: zero weight kept: %s', what, show(x))
            if len(x.vals) <= 40 and total < 10 ** 14:
                pool.append((x, m, raw(x)))
        else:
            same_value(x, m, what)
    for n, s in enumerate(c['steps']):
        k = s[0]
        when = 'step %d %r' % (n, s)
        if k == 'set':
            v = FN[s[2]] if s[1] == 'DEFAULT_PRINT_FN' else s[2]
            r = D.settings_set(s[1], v)
            S[s[1]] = s[2].lower() == 'true' if s[1].startswith('RV_') and isinstance(s[2], str) else s[2]
            probe(S, when, old)
        elif k == 'bad':
            try:
                D.settings_set(s[1], s[2])
            except Exception:  # noqa
                pass
            else:
                require(False, '%s: accepted', when)
            probe(S, when, old)
        elif k == 'reset':
            D.settings_reset()
            S = dict(DEF)
            probe(S, when, old)
        elif k == 'make':
            d = ref.die_of_list(s[1][1], s[1][2])
            m = norm(d.dist, S)
            x = RV(s[1][1], s[1][2])
            require(set(x.vals) == set(m), '%s: values %r, expected %r', when, x.vals, sorted(m))
            add(x, ref.Die(m), when)
        elif k == 'pool':
            base = norm(ref.die_of_list(s[2][1], s[2][2]).dist, S)
            add(roll(s[1], RV(s[2][1], s[2][2])), ref.roll(s[1], ref.Die(base)), when)
        elif pool:
            x, m, _ = pool[s[2 if k in ('num', 'numdiv', 'bin', 'un', 'seqop') else 1] % len(pool)]
            if k == 'num' or k == 'numdiv':
                add(PYOP[s[1]](x, s[3]), ref.Die(norm(ref.binop(s[1], m, s[3]).dist, S)), when)
            elif k == 'bin':
                y, my, _ = pool[s[3] % len(pool)]
                if len(x.vals) * len(y.vals) <= 400:
                    add(PYOP[s[1]](x, y), ref.Die(norm(ref.binop(s[1], m, my).dist, S)), when)
            elif k == 'un':
                add(PYUN[s[1]](x), ref.Die(norm(ref.unop(s[1], m).dist, S)), when)
            elif k == 'rnd':
                e = {}
                for v, w in m.dist.items():
                    ref.add_to(e, round(v, s[2]), w)
                add(round(x, s[2]), ref.Die(norm(e, S)), when)
            elif k == 'seqop':
                y = Seq(s[3])
                add(PYOP[s[1]](x, y), ref.Die(norm(ref.binop(s[1], m, ref.SeqV(s[3])).dist, S)), when)
                add(PYOP[s[1]](y, x), ref.Die(norm(ref.binop(s[1], ref.SeqV(s[3]), m).dist, S)), when + ' (reversed)')
            elif k == 'neg':
                add(-x, ref.Die(norm(ref.unop('-', m).dist, S)), when)
            elif k == 'mix':
                y, my, _ = pool[s[2] % len(pool)]
                add(RV.from_rvs([x, y], [s[3], 2]), ref.Die(norm(ref.mix([m, my], [s[3], 2]).dist, S)), when)
            elif k == 'mixroll':
                y, my, _ = pool[s[2] % len(pool)]
                if len(y.vals) <= 6 and not any(isinstance(v, float) for v in y.vals):
                    cnt = RV([0, 2], [1, 1])
                    add(roll(cnt, y), ref.Die(norm(ref.roll(ref.Die({0: 1, 2: 1}), my).dist, S)), when)
            elif k == 'filter':
                rest = {v: w for v, w in m.dist.items() if v != s[2]}
                if not any(rest.values()):
                    continue
                add(x.filter(s[2]), ref.Die(norm(rest, S)), when)
            elif k in ('at', 'ats'):
                if any(isinstance(v, float) for v in m.src()) and k == 'ats' and S['RV_TRUNC']:
                    continue
                pos = [s[2]] if k == 'at' else s[2]
                if m.n > 3 or len(m.src()) > 12:
                    continue
                r = ref.positions_of_pool(pos, m.n, m.src(), S['position order'] == 'lowest first')
                act = s[2] @ x if k == 'at' else Seq(s[2]) @ x
                r = ref.Die(norm(r.dist, S))
                add(act, r, when)
            elif k == 'fn':
                f = D.anydice_type_casting()(_half)
                r = ref.mix([v / 2 for v in m.dist], list(m.dist.values()))
                add(f(x), ref.Die(norm(r.dist, S)), when)
            elif k == 'fns':
                if m.n > 3 or len(m.src()) > 6:
                    continue
                rolls = ref.rolls_of_pool(m, S['position order'] == 'lowest first')
                r = ref.mix([q[0] * 3 - sum(q) for q in rolls], list(rolls.values()))
                add(D.anydice_casting()(_sfn)(x), ref.Die(norm(r.dist, S)), when)
            elif k == 'roll2':
                if len(m.dist) <= 12:
                    base = ref.roll(2, ref.Die(m.dist))
                    add(roll(2, x), ref.Die(norm(base.dist, S), 2, m.dist), when)
            elif k == 'explode':
                if not any(isinstance(v, float) for v in m.dist) and len(m.dist) > 1 and len(m.dist) <= 8 and all(m.dist.values()):
                    e = m_explode(ref.Die(m.dist), S['explode depth'])
                    add(D.explode_X(x), ref.Die(norm(e.dist, S)), when)
        for j, (x, m, sn) in enumerate(pool):
            require(raw(x) == sn, '%s: existing die %d changed: was %r, is %r', when, j, sn, raw(x))


def _half(n: D.T_N):
    return n / 2


def _sfn(s: D.T_S):
    return (1 @ s) * 3 - s.sum()


def nt(c):
    sets = {s[1] for s in c['steps'] if s[0] == 'set' and s[2] != DEF[s[1]]}
    return (len(sets) >= 2 or len(sets) >= 1 and any(s[0] in ('bad', 'reset') for s in c['steps'])) and any(s[0] not in ('set', 'bad', 'reset') for s in c['steps'])


def lab(c):
    return sorted({s[0] if s[0] not in ('set', 'bad') else s[0] + ':' + str(s[1]) for s in c['steps']})


def grid(tier):
    """Every valid and invalid value for every setting, from the defaults and from a fully changed state, then reset."""
    other = [['set', 'position order', 'lowest first'], ['set', 'explode depth', 3], ['set', 'maximum function depth', 4], ['set', 'RV_TRUNC', True], ['set', 'RV_IGNORE_ZERO_PROBS', True], ['set', 'DEFAULT_OUTPUT_WIDTH', 33], ['set', 'DEFAULT_PRINT_FN', 'f1']]
    for pre in ([], other):
        for n in VALID:
            for v in VALID[n]:
                yield {'steps': pre + [['set', n, v], ['reset']]}
                yield {'steps': pre + [['set', n, v]] + [['set', n, VALID[n][0]]]}
            for v in INVALID[n]:
                yield {'steps': pre + [['bad', n, v]]}
        for n in UNKNOWN:
            for v in (1, True, 'highest first'):
                yield {'steps': pre + [['bad', n, v], ['reset']]}

def check_rerolls(c):
    """The same dice made, rolled and combined again under other settings."""
    S = dict(DEF)
    olds = [RV(v, w) for v, w in c['dice']]
    for i, s in enumerate(c['steps']):
        what = 'step %d %r of %r' % (i, s, c['steps'])
        if s[0] == 'set':
            D.settings_set(s[1], s[2])
            S[s[1]] = s[2]
            continue
        if s[0] == 'reset':
            D.settings_reset()
            S = dict(DEF)
            continue
        v, w = c['dice'][s[1] % len(c['dice'])]
        if s[0] == 'old':  # a die made under the first settings
            one, n = ref.die_of_list(v, w).dist, s[2]
            while len(one) ** n > 9000:
                n -= 1
            if n > 1 and not (S['RV_TRUNC'] and any(x != int(x) for x in one)):
                x = roll(n, olds[s[1] % len(olds)])
                same_dist(x, norm(ref.sum_of(n, one), S), what)
                require(not S['RV_IGNORE_ZERO_PROBS'] or 0 not in x.probs, '%s: weight 0 in %r', what, x.probs)
            continue
        one = norm(ref.die_of_list(v, w).dist, S)
        r = RV(v, w)
        same_dist(r, one, what + ' (die)')
        n = s[2]
        while len(one) ** n > 9000:
            n -= 1
        if s[0] == 'roll':
            x = roll(n, r)
            same_dist(x, norm(ref.sum_of(n, one), S), what)
            require(len(x) == n, '%s: %d dice', what, len(x))
        elif s[0] == 'neg':
            same_dist(roll(-n, r), norm({-k: q for k, q in ref.sum_of(n, one).items()}, S), what)
        elif s[0] == 'half':
            same_dist(r / 2 if n % 2 else r + 0.5, norm({k / 2 if n % 2 else k + 0.5: q for k, q in one.items()}, S), what)


reroll_die = st.one_of(st.sampled_from([[[0, 1], [0, 1]], [[1, 2], [1, 1]], [[0.5, 1.5], [1, 1]], [[0, 0.5, 2], [1, 0, 1]], [[-1.5, 0], [1, 2]], [[1, 2, 3, 4], [1, 1, 1, 1]]]), st.builds(lambda x: [x[1], x[2]], gen.rv_spec(st.one_of(st.integers(-2, 3), gen.dyadic), 3, st.integers(0, 2))))
reroll_case = st.builds(lambda d, s: {'dice': d, 'steps': s}, st.lists(reroll_die, min_size=1, max_size=2), st.lists(st.one_of(st.builds(lambda n, v: ['set', n, v], st.sampled_from(['RV_TRUNC', 'RV_IGNORE_ZERO_PROBS']), st.booleans()), st.builds(lambda n, v: ['set', n, v], st.sampled_from(['RV_TRUNC', 'RV_IGNORE_ZERO_PROBS']), st.booleans()), st.just(['reset']),
                        st.builds(lambda k, i, n: [k, i, n], st.sampled_from(['roll', 'roll', 'old', 'old', 'neg', 'half']), st.integers(0, 1), st.sampled_from([2, 3, 6, 6, 7, 8, 13]))), min_size=4, max_size=14))

QUICK_SCALE = 2.5

TESTS = [Test('history', case, check, nt, lab, 4000, 40000), Test('rerolls', lambda: reroll_case, check_rerolls, lambda c: any(s[0] == 'set' for s in c['steps']) and any(s[0] == 'roll' for s in c['steps']), None, 400, 8000), Test('values', None, check, lambda c: True, lab, cases=grid)]
