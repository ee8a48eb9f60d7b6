"""C15 expressions."""
import itertools
import random
from hypothesis import strategies as st

from .. import ref, lang, anyref, langgen
from ..core import Test, require, Skip, HarnessError
from ..langsut import fast_then_public, execute, same_out

RULE = ('random expression trees over all operators, literals, sequences, ranges, dice, variables, user and library calls, printed with only the parentheses the documented grammar requires and random layout; exhaustive grids of all operator pairs and triples in every grouping; '
        'oracle: reference interpreter working on the tree (never on the text); non-trivial = a batch contains an expression with at least two operators that the model covers')

F_INT = {'COMPILER_FLAG_OPERATOR_ON_INT': True}
FLAGS = [F_INT, dict(F_INT, COMPILER_FLAG_NON_LOCAL_SCOPE=True), dict(F_INT, COMPILER_FLAG_FUNC_LIB_CONFLICT=True), dict(F_INT, COMPILER_FLAG_NON_LOCAL_SCOPE=True, COMPILER_FLAG_FUNC_LIB_CONFLICT=True), {}, None, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}, {'COMPILER_FLAG_FUNC_EXIST_CHECK': False}]


def n(x):
    return ['n', str(x)]


PRELUDE = [
    ['asg', 'A', n(3)], ['asg', 'B', n(12)], ['asg', 'N', ['un', '-', n(2)]], ['asg', 'S', ['seq', [n(2), n(5), n(1)]]], ['asg', 'T', ['seq', [['..', n(1), n(4)]]]], ['asg', 'E', ['seq', []]], ['asg', 'D', ['d1', n(6)]], ['asg', 'P', ['d', n(3), n(3)]],
    ['fn', ['f', ['par', 'X', 'n']], [['res', ['bin', '-', ['bin', '*', ['v', 'X'], n(2)], n(1)]]]],
    ['fn', [['par', 'X', None], 'g', ['par', 'Y', 's']], [['res', ['bin', '+', ['un', '#', ['v', 'Y']], ['v', 'X']]]]],
    ['fn', ['h', ['par', 'X', 'd'], 'k', ['par', 'Y', 'n'], ['par', 'Z', 'n']], [['res', ['bin', '+', ['bin', '*', ['v', 'X'], ['v', 'Y']], ['v', 'Z']]]]],
]
NAMES = ['A', 'B', 'N', 'S', 'T', 'E', 'D', 'P']
CALLS = [['f', 0], [0, 'g', 0], ['h', 0, 'k', 1, 0]]


def case():
    ex = st.one_of(langgen.expr(NAMES, CALLS, 4, odd=True), langgen.expr(NAMES, CALLS, 9, odd=True))
    return st.builds(lambda es, s, seed, fl: {'es': es, 'style': s, 'seed': seed, 'fl': fl}, st.lists(ex, min_size=1, max_size=26), st.sampled_from(['tight', 'plain', 'wild']), st.integers(0, 10 ** 6), st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7]))


def model_all(es, opint, big=False):
    """[(expr, value)] for those the model covers."""
    I = anyref.Interp(opint, 'copy', 10 ** 9, big)
    I.run(PRELUDE)
    out = []
    for e in es:
        I.fuel = 20000 if big else 3000
        try:
            out.append((e, I.ev(e, dict(I.globals))))
        except (ref.Unsupported, ref.RefFail):
            pass
        I.depth = I.random = 0
    return out


@fast_then_public
def check(c, comp):
    fl = FLAGS[c['fl']]
    opint = bool(fl and fl.get('COMPILER_FLAG_OPERATOR_ON_INT'))
    good = model_all(c['es'], opint, c.get('big', False))
    if not good:
        raise Skip('nothing covered')
    prog = PRELUDE + [['out', e, None] for e, _ in good]
    text = lang.source(prog, c['style'], c['seed'])
    if lang.parse(text) != prog_with_parens(prog):
        raise HarnessError('printer and reference parser disagree on %r' % text)
    code = comp(text, fl)
    outs = execute(code)
    require(len(outs) == len(good), '%d outputs for %d expressions', len(outs), len(good))
    for (v, name), (e, ev) in zip(outs, good):
        require(name is None, 'unnamed output named %r', name)
        same_out(v, ev, lang.layout(lang.toks(e), style='tight'))


def prog_with_parens(prog):
    """The tree that the printed text denotes: required parentheses become ['p', ...] nodes."""
    def ex(e, lv=1):
        if e[0] != '..' and lang.level(e) < lv:
            return ['p', ex(e)]
        k = e[0]
        if k in ('n', 'dec', 'v', 'str'):
            return e
        if k == 'p':
            return ['p', ex(e[1])]
        if k == 'seq':
            return ['seq', [['..', ex(x[1]), ex(x[2])] if x[0] == '..' else ex(x) for x in e[1]]]
        if k == 'bin':
            p = lang.PREC[e[1]]
            return ['bin', e[1], ex(e[2], p), ex(e[3], p + 1)]
        if k == 'un':
            return ['un', e[1], ex(e[2], 9)]
        if k == 'd':
            return ['d', ex(e[1], 9), ex(e[2], 9)]
        if k == 'd1':
            return ['d1', ex(e[1], 9)]
        out, prev = [], False
        for x in e[1]:
            if isinstance(x, str):
                out.append(x)
                prev = False
            else:
                y = ex(x)
                out.append(['p', y] if prev and lang.toks(x)[0] in ('+', '-', 'd') else y)
                prev = True
        return ['call', out]

    def stm(s):
        k = s[0]
        if k == 'out':
            return ['out', ex(s[1]), s[2]]
        if k == 'set':
            return ['set', s[1], ex(s[2])]
        if k == 'asg':
            return ['asg', s[1], ex(s[2])]
        if k == 'res':
            return ['res', ex(s[1])]
        if k == 'loop':
            return ['loop', s[1], ex(s[2]), [stm(x) for x in s[3]]]
        if k == 'if':
            return ['if', [[ex(a), [stm(x) for x in b]] for a, b in s[1]], None if s[2] is None else [stm(x) for x in s[2]]]
        return ['fn', s[1], [stm(x) for x in s[2]]]
    return [stm(s) for s in prog]


def n_ops(e):
    if not isinstance(e, list) or not e:
        return 0
    return (e[0] in ('bin', 'un', 'd', 'd1', 'call')) + sum(n_ops(x) for x in e[1:] if isinstance(x, list)) + (sum(n_ops(x) for x in e[1] if isinstance(x, list)) if e[0] in ('seq', 'call') else 0)


def nt(c):
    return any(n_ops(e) >= 2 for e in c['es'])


def lab(c):
    good = len(model_all(c['es'], True, c.get('big', False)))
    return ['style:' + c['style'], 'flags%d' % c['fl'], 'covered%d' % (min(good // 4, 6) * 4)]


# ------------------------------------------------------------ grids
BIN = langgen.BINOPS + ['d']


def mk(op, a, b):
    return ['d', a, b] if op == 'd' else ['bin', op, a, b]


LEAVES = {'n': [n(2), n(3), n(1)], 'd': [['d1', n(3)], ['d1', n(2)], ['d', n(2), n(2)]], 's': [['seq', [n(2), n(1)]], ['seq', [n(1), n(3)]], ['v', 'S']], 'z': [n(0), n(4), n(0)]}


def pairs():
    for o1, o2 in itertools.product(BIN, BIN):
        for k in ('nnn', 'dnn', 'nnd', 'ndn', 'snn', 'nsn', 'nns', 'zzn', 'ndd', 'ddn', 'dnz', 'sns'):
            a, b, c = (LEAVES[x][i] for i, x in enumerate(k))
            yield mk(o2, mk(o1, a, b), c)
            yield mk(o1, a, mk(o2, b, c))
    for o in BIN:
        for u in '+-!#':
            for k in ('nn', 'dn', 'nd', 'sn', 'ns', 'zn', 'nz', 'dd', 'ss'):
                a, b = (LEAVES[x][i] for i, x in enumerate(k))
                yield ['un', u, mk(o, a, b)]
                yield mk(o, ['un', u, a], b)
                yield mk(o, a, ['un', u, b])
                yield mk(o, ['un', '-', ['un', u, a]], b)
    for u, v in itertools.product('+-!#', '+-!#'):
        for k in 'ndsz':
            yield ['un', u, ['un', v, LEAVES[k][0]]]
            yield ['d1', ['un', u, ['un', v, LEAVES[k][0]]]]
    for u in '+-!#':
        for k in 'ndsz':
            yield ['un', u, ['d1', LEAVES[k][0]]]
            yield ['d1', ['un', u, LEAVES[k][0]]]
            yield ['d', ['un', u, LEAVES[k][0]], ['un', u, LEAVES['n'][1]]]


def triples(rnd):
    for o1, o2, o3 in itertools.product(BIN, BIN, BIN):
        k = rnd.choice(['nnnn', 'dnnn', 'nndn', 'nnnd', 'zndn', 'snnn', 'nnns', 'znnn', 'ndnn'])
        a, b, c, d = ((LEAVES[x] + LEAVES[x])[i] for i, x in enumerate(k))
        yield mk(o3, mk(o2, mk(o1, a, b), c), d)
        yield mk(o1, a, mk(o2, b, mk(o3, c, d)))
        yield mk(o2, mk(o1, a, b), mk(o3, c, d))
        yield mk(o3, mk(o1, a, mk(o2, b, c)), d)
        yield mk(o1, a, mk(o3, mk(o2, b, c), d))


POOL = [n(0), n(1), n(2), n(3), n(5), ['d1', n(2)], ['d1', n(3)], ['d', n(2), n(2)], ['seq', [n(2), n(1)]], ['seq', [n(1), n(3)]], ['seq', [n(0)]], ['v', 'N'], ['v', 'S'], ['d1', ['seq', [n(0), n(1)]]], ['un', '-', n(1)]]


def telling(rnd, opint, shapes, k, want, tries):
    """Operands for which the groupings of the same operators (`shapes`: functions of k operands) differ in value, so that a wrong grouping shows."""
    I = anyref.Interp(opint, 'copy', 10 ** 9)
    I.run(PRELUDE)
    got = 0
    for _ in range(tries):
        xs = [rnd.choice(POOL) for _ in range(k)]
        vals = []
        for s in shapes:
            I.fuel = 3000
            try:
                v = repr(I.ev(s(*xs), dict(I.globals)))
            except (ref.Unsupported, ref.RefFail):
                v = None
            I.depth = I.random = 0
            vals.append(v)
        if len(set(vals)) > 1:
            for s, v in zip(shapes, vals):
                if v is not None:
                    yield s(*xs)
            got += 1
            if got == want:
                return


def telling_pairs(opint, seed, want):
    rnd = random.Random(seed)
    for o1, o2 in itertools.product(BIN, BIN):
        yield from telling(rnd, opint, [lambda a, b, c: mk(o2, mk(o1, a, b), c), lambda a, b, c: mk(o1, a, mk(o2, b, c))], 3, want, 40)
    for o in BIN:
        for u in '+-!#':
            yield from telling(rnd, opint, [lambda a, b: ['un', u, mk(o, a, b)], lambda a, b: mk(o, ['un', u, a], b)], 2, want, 25)
            yield from telling(rnd, opint, [lambda a, b: mk(o, a, ['un', u, b]), lambda a, b: mk(o, a, b)], 2, want, 10)
    for o1, o2 in itertools.product(BIN, BIN):
        for u in '+-!#' if want > 3 else rnd.sample('+-!#', 2):
            yield from telling(rnd, opint, [lambda a, b, c: mk(o1, a, mk(o2, ['un', u, b], c)), lambda a, b, c: mk(o2, mk(o1, a, ['un', u, b]), c), lambda a, b, c: mk(o1, a, ['un', u, mk(o2, b, c)])], 3, 1, 6)
            yield from telling(rnd, opint, [lambda a, b, c: mk(o1, ['un', u, a], mk(o2, b, c)), lambda a, b, c: mk(o2, mk(o1, ['un', u, a], b), c), lambda a, b, c: ['un', u, mk(o1, a, mk(o2, b, c))]], 3, 1, 4)
    for u, v in itertools.product('+-!#', '+-!#'):
        yield from telling(rnd, opint, [lambda a: ['un', u, ['un', v, a]], lambda a: ['un', u, a]], 1, want, 10)
    for u in '+-!#':
        yield from telling(rnd, opint, [lambda a: ['un', u, ['d1', a]], lambda a: ['d1', ['un', u, a]]], 1, want, 10)


def telling_triples(opint, seed, part):
    rnd = random.Random(seed)
    for o1, o2, o3 in itertools.product(BIN, BIN, BIN):
        if part is None or rnd.randrange(part) == 0:
            yield from telling(rnd, opint, [lambda a, b, c, d: mk(o3, mk(o2, mk(o1, a, b), c), d), lambda a, b, c, d: mk(o1, a, mk(o2, b, mk(o3, c, d))), lambda a, b, c, d: mk(o2, mk(o1, a, b), mk(o3, c, d)),
                                            lambda a, b, c, d: mk(o3, mk(o1, a, mk(o2, b, c)), d), lambda a, b, c, d: mk(o1, a, mk(o3, mk(o2, b, c), d))], 4, 1, 6)


def parens(e, rnd, p=0.35):
    """The same expression with redundant parentheses anywhere."""
    k = e[0]
    if k == 'bin':
        e = ['bin', e[1], parens(e[2], rnd), parens(e[3], rnd)]
    elif k == 'un':
        e = ['un', e[1], parens(e[2], rnd)]
    elif k in ('d', 'd1', '..'):
        e = [k] + [parens(x, rnd) for x in e[1:]]
    elif k == 'seq':
        e = ['seq', [parens(x, rnd) for x in e[1]]]
    if k == '..':
        return e
    return ['p', e] if rnd.random() < p else e


def telling_grid(tier):
    rnd = random.Random(77)
    for i in range(1 if tier == 'quick' else 12):
        for fl in (0, 4) if i % 2 == 0 else (1, 6):
            it = itertools.chain(telling_pairs(fl < 4, i, 3), telling_triples(fl < 4, i, 8 if tier == 'quick' else None))
            j = 0
            while True:
                es = list(itertools.islice(it, 50))
                if not es:
                    break
                yield {'es': es + [parens(e, rnd) for e in es if rnd.random() < 0.4], 'style': ['tight', 'plain', 'wild'][j % 3], 'seed': j, 'fl': fl}
                j += 1


def grid(tier):
    def batch(it, size, off):
        it = iter(it)
        i = 0
        while True:
            es = list(itertools.islice(it, size))
            if not es:
                return
            yield {'es': es, 'style': ['tight', 'plain', 'wild'][i % 3], 'seed': i + off, 'fl': [0, 1, 0, 4][i % 4]}
            i += 1
    yield from batch(pairs(), 60, 0)
    if tier == 'quick':
        yield from batch(itertools.islice(triples(random.Random(5)), 0, None, 5), 60, 3)
    else:
        for s in range(6):
            yield from batch(triples(random.Random(s)), 60, s)


def lit_grid(tier):
    lits = ['0', '1', '9', '10', '00', '01', '007', '08', '09', '0100', '00012', '123456789', '99999999999999', '1000000', '0' * 30 + '5', '8', '077', '0b', '12']
    es = [['n', x] for x in lits if x.isdigit()] + [['dec', a, b] for a in ('0', '1', '00', '012', '9') for b in ('0', '5', '25', '50', '05', '125', '000')]
    for fl in range(len(FLAGS)):
        yield {'es': es, 'style': ['tight', 'plain', 'wild'][fl % 3], 'seed': fl * 4, 'fl': fl}
    rng = [['seq', [['..', n(a), n(b)]]] for a in range(0, 5) for b in range(0, 7)] + [['seq', [['..', ['un', '-', n(a)], n(b)], n(9)]] for a in range(0, 4) for b in range(0, 4)] + \
        [['seq', [n(1), ['..', n(a), n(b)], ['..', n(b), n(a)]]] for a in range(0, 3) for b in range(0, 5)]
    sg = lambda x: n(x) if x >= 0 else ['un', '-', n(-x)]  # noqa
    rng2 = [['seq', [['..', sg(a), sg(b)]]] for a in range(-4, 4) for b in range(-4, 4)]
    dice_ = [['d', n(a), n(b)] for a in range(0, 5) for b in range(0, 7)] + [['d', ['un', '-', n(a)], n(b)] for a in range(0, 3) for b in range(0, 4)] + [['d', n(a), ['un', '-', n(b)]] for a in range(0, 3) for b in range(0, 4)]
    yield {'es': rng, 'style': 'tight', 'seed': 4, 'fl': 0}
    yield {'es': rng2 + [['un', '#', e] for e in rng2], 'style': 'plain', 'seed': 5, 'fl': 0}
    yield {'es': rng2, 'style': 'tight', 'seed': 6, 'fl': 4}
    yield {'es': dice_, 'style': 'tight', 'seed': 8, 'fl': 0}


def large():
    """Long sequences and ranges, long chains of operators, deep nesting, numbers with many digits, decimals with many places."""
    def build(seed):
        r = random.Random(seed)
        dg = lambda a, b: ''.join(r.choice('0123456789') for _ in range(r.randint(a, b)))  # noqa
        es = []
        for _ in range(r.randint(2, 8)):
            k = r.randint(0, 9)
            if k == 0:
                es.append(n(r.choice(['', '0', '000']) + '1' + dg(8, 60)))
                es.append(['bin', r.choice(['+', '-', '*', '/', '=', '<', '>']), n('1' + dg(14, 40)), n('1' + dg(14, 40))])
            elif k == 1:
                d = ['dec', r.choice(['0', '1', dg(1, 8)]), dg(3, 16)]
                es += [d, ['bin', '*', d, n(10 ** r.randint(1, 9))], ['bin', '-', d, ['dec', d[1], d[2][:-1] + '0']]]
            elif k == 2:
                a, b = r.randint(-20, 20), r.choice([r.randint(50, 300), r.randint(300, 2800)])
                s = ['seq', [['..', n(a) if a >= 0 else ['un', '-', n(-a)], n(b)]]]
                es += [['un', '#', s], ['bin', '@', n(r.randint(1, b)), s], ['bin', '+', s, n(1)], ['bin', r.choice(['=', '<', '>', '!=']), s, n(r.randint(0, b))]]
            elif k <= 4:
                m = r.choice([r.randint(7, 70), r.randint(7, 70), r.randint(70, 700)])
                hi = r.choice([1, 6, 99])
                xs = [n(r.randint(0, hi)) if r.random() < .94 else r.choice([['v', 'S'], ['v', 'A'], ['seq', [n(1), n(2)]], ['..', n(1), n(4)], ['un', '-', n(3)], ['dec', '2', '5'], ['v', 'D']]) for _ in range(m)]
                s = ['seq', xs]
                es += [s, ['un', '#', s], ['bin', r.choice(['+', '=', '<', '>', '!=', '<=', '>=']), s, r.choice([n(r.randint(0, hi)), ['v', 'S']])], ['bin', '@', n(r.randint(1, m)), s], ['d1', s], ['bin', r.choice(['=', '<', '!=']), s, ['seq', xs[:-1] + [n(r.randint(0, hi))]]]]
            elif k == 5:
                e = n(r.randint(0, 9))
                ops = r.choice([['+', '-'], ['+', '-', '*', '='], ['<', '>', '=', '!='], ['*', '/', '+', '-'], ['&', '|', '+'], ['^', '-', '/']])
                for _ in range(r.randint(10, 60)):
                    x = r.choice([n(r.randint(0, 5)), n(r.randint(0, 5)), ['v', 'A'], ['v', 'B'], ['v', 'N']])
                    e = ['bin', r.choice(ops), e, x] if r.random() < .85 else ['bin', r.choice(ops), x, e]
                    if r.random() < .06:
                        e = ['un', r.choice('+-!'), e]
                es.append(e)
            elif k == 6:
                e = n(r.randint(0, 9))
                for _ in range(r.randint(4, 30)):
                    e = r.choice([['p', e], ['p', e], ['un', '-', e], ['un', '+', e], ['bin', '-', n(r.randint(0, 9)), e], ['call', ['f', e]], ['call', [e, 'g', n(2)]]])
                es.append(e)
            elif k == 7:
                e = ['seq', [n(1)]]
                for _ in range(r.randint(3, 20)):
                    e = ['seq', r.choice([[e], [e, n(2)], [n(0), e], [e, ['..', n(1), n(2)]]])]
                es += [e, ['un', '#', e]]
            elif k == 8:
                es += [['d1', n(r.randint(61, 900))], ['bin', r.choice('<>='), ['d1', n(r.randint(61, 300))], n(r.randint(1, 300))], ['d', n(r.randint(2, 12)), n(r.randint(2, 12))], ['bin', '+', ['d', n(r.randint(5, 14)), n(2)], ['v', 'A']]]
            else:
                u = ''.join(r.choice('+-!') for _ in range(r.randint(3, 12)))
                e = r.choice([n(3), ['v', 'D'], ['v', 'S']])
                for o in u:
                    e = ['un', o, e]
                es.append(e)
        return {'es': es, 'style': ['tight', 'plain', 'wild'][seed % 3], 'seed': seed // 3 % 1000, 'fl': seed // 7 % 8, 'big': True}
    return st.integers(0, 2 ** 48).map(build)


def smaller(c):
    if len(c['es']) > 1:
        for e in c['es']:
            yield dict(c, es=[e])
    if c['style'] != 'tight':
        yield dict(c, style='tight')
    for i, e in enumerate(c['es']):
        for s in langgen.smaller_expr(e):
            yield dict(c, es=c['es'][:i] + [s] + c['es'][i + 1:])


TESTS = [
    Test('expressions', case, check, nt, lab, 2600, 40000, reduce=smaller),
    Test('large', large, check, nt, lab, 350, 8000, reduce=smaller),
    Test('operator_grid', None, check, nt, lab, cases=grid, reduce=smaller),
    Test('groupings', None, check, nt, lab, cases=telling_grid, reduce=smaller),
    Test('literals', None, check, None, lab, cases=lit_grid, shards=4, reduce=smaller),
]
