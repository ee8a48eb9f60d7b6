"""C16 whole programs."""
import copy
from hypothesis import strategies as st

from .. import ref, lang, anyref, langgen
from ..core import Test, Skip, HarnessError
from ..langsut import fast_then_public, execute, same_outputs
from ..load import D
from .c15 import prog_with_parens

RULE = ('random typed programs (assignments, loops, if/else-if/else, functions with typed parameters, recursion, redefinition, settings, labels, outputs anywhere) printed with random layout; oracle: reference interpreter on the tree; '
        'portable programs run under all flag combinations, free programs (functions reassign anything) under the non-local-scope flag; top-level statements that the model does not cover are dropped; '
        'non-trivial = at least one loop, call or branch was executed and at least 2 outputs were compared')
INT, LOC, LIBC = 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_FUNC_LIB_CONFLICT'


def covered(prog, opint, scope, big=False):
    """(statements kept, outputs, stats)."""
    I = anyref.Interp(opint, scope, 10 ** 9, big)
    kept = []
    for s in prog:
        snap = (dict(I.globals), dict(I.funcs), len(I.outputs), I.low, I.explode, I.maxdepth, dict(I.stats))
        I.fuel = 40000 if big else 5000
        try:
            I.stmt(s, I.globals)
            kept.append(s)
        except (ref.Unsupported, ref.RefFail):
            I.globals, I.funcs, k, I.low, I.explode, I.maxdepth, I.stats = snap
            del I.outputs[k:]
            I.depth = I.random = 0
    return kept, I.outputs, I.stats


_memo = {}


def prepare(c):
    key = lang.layout(lang.prog_toks(c['prog'])) + '|%s%s' % (c['opint'], c['mode'])
    if _memo.get('k') != key:
        kept, outs, stats = covered(c['prog'], c['opint'], 'python' if c['mode'] == 'portable' else 'copy', c.get('big', False))
        called = {p for p in calls_of(kept)} - set(lang.LIBRARY)
        have = {lang.pattern(f[1]) for f in fns_of(kept)}
        if not called <= have:  # a call in a branch that never ran, of a function whose definition was dropped
            outs = []
        _memo.update(k=key, v=(kept, outs, stats))
    return _memo['v']


def walk(x):
    if isinstance(x, list):
        yield x
        for y in x:
            yield from walk(y)


def calls_of(prog):
    return (lang.pattern(x[1]) for x in walk(prog) if len(x) == 2 and x[0] == 'call' and isinstance(x[1], list))


def fns_of(prog):
    return (x for x in walk(prog) if len(x) == 3 and x[0] == 'fn' and isinstance(x[1], list) and isinstance(x[2], list))


@fast_then_public
def check(c, comp):
    kept, exp, stats = prepare(c)
    if not exp:
        raise Skip('no covered output')
    text = lang.source(kept, c['style'], c['seed'])
    if lang.parse(text) != prog_with_parens(kept):
        raise HarnessError('printer and reference parser disagree on %r' % text)
    runs = [{LOC: True}] if c['mode'] == 'free' else [{}, {LOC: True}]
    for i, r in enumerate(runs):
        fl = dict(r)
        if c['opint']:
            fl[INT] = True
        if (c['seed'] + i) % 3 == 0:
            fl[LIBC] = True
        D.settings_reset()
        code = comp(text, fl)
        same_outputs(execute(code), exp, 'flags %s' % sorted(fl))


def nt(c):
    kept, exp, stats = prepare(c)
    return len(exp) >= 2 and any(s[0] in ('loop', 'if', 'fn') for s in kept)


def lab(c):
    kept, exp, stats = prepare(c)
    out = ['mode:' + c['mode'], 'outs%d' % min(len(exp), 6)]
    out += [k for k in ('cut', 'calls', 'expanded', 'loops') if stats[k]]
    if len(kept) == len(c['prog']):
        out.append('fully covered')
    return out


def nt_big(c):
    return len(prepare(c)[1]) >= 1


def lab_big(c):
    kept, exp, stats = prepare(c)
    return [c['kind'], 'outs%d' % (len(str(len(exp)))), 'fully covered' if len(kept) == len(c['prog']) else 'partly covered']


def case(mode):
    def f():
        return st.booleans().flatmap(lambda o: st.builds(lambda p, s, seed: {'prog': p, 'style': s, 'seed': seed, 'mode': mode, 'opint': o}, langgen.program(mode, o), st.sampled_from(['tight', 'plain', 'wild']), st.integers(0, 10 ** 6)))
    return f


def rcase(mode):
    def f():
        def build(seed):
            o = bool(seed & 1)
            return {'prog': langgen.random_program(seed, mode, o), 'style': ['tight', 'plain', 'wild'][seed % 3], 'seed': seed // 7 % 1000, 'mode': mode, 'opint': o}
        return st.integers(0, 2 ** 48).map(build)
    return f


def bcase():
    def build(seed):
        r = seed // 10
        return {'prog': langgen.big_program(seed), 'style': ['tight', 'plain', 'wild'][r % 3], 'seed': r // 7 % 1000, 'mode': ['portable', 'free'][r % 2], 'opint': True, 'big': True, 'kind': langgen.Big.KINDS[seed % 10]}
    return st.integers(0, 2 ** 48).map(build)


def n(x):
    return ['n', str(x)]


def v(x):
    return ['v', x]


def chains(tier):
    """Every length of if/else-if chains, every branch taken, at the top, in a loop and in a function; loops over every kind of sequence, nested, empty, shadowing; results from inside loops and branches."""
    i = 0

    def out(prog, opint=True):
        nonlocal i
        for mode in ('portable', 'free'):
            i += 1
            yield {'prog': prog, 'style': ['plain', 'tight', 'wild'][i % 3], 'seed': i, 'mode': mode, 'opint': opint}
    for k in range(1, 10 if tier == 'quick' else 25):
        for els in (None, [['out', n(77), None]], []):
            for op in ('=', '<', '>='):
                arms = [[['bin', op, v('A'), n(j)], [] if (j + k) % 5 == 4 else [['out', n(100 + j), None]]] for j in range(k)]
                yield from out([['loop', 'A', ['seq', [['..', n(0), n(k + 1)]]], [['if', arms, els], ['out', v('A'), ['a', ['var', 'A']]]]]])
                yield from out([['asg', 'A', n(k // 2)], ['if', arms, els], ['out', v('A'), None]])
                arms = [[['bin', op, v('X'), n(j)], [] if (j + k) % 5 == 4 else [['asg', 'Y', n(100 + j)]] if (j + k) % 3 == 0 else [['res', n(200 + j)]]] for j in range(k)]
                yield from out([['fn', ['f', ['par', 'X', 'n']], [['asg', 'Y', n(1)], ['if', arms, None if els is None else [['res', n(78)]] if els else []], ['res', ['bin', '+', v('Y'), v('X')]]]],
                                ['loop', 'A', ['seq', [['..', n(0), n(k + 1)]]], [['out', ['call', ['f', v('A')]], None]]], ['out', ['call', ['f', ['d', n(1), n(k + 1)]]], None]])
    seqs = [['seq', []], ['seq', [n(3)]], ['seq', [n(2), n(1), n(2)]], ['seq', [['..', n(1), n(4)]]], ['seq', [['..', n(4), n(1)]]], ['seq', [['seq', [n(1), n(0)]], n(5)]], v('S'), ['call', ['reverse', v('S')]], ['seq', [v('S'), v('A')]]]
    head = [['asg', 'S', ['seq', [n(4), n(6)]]], ['asg', 'A', n(9)], ['asg', 'B', n(0)]]
    for s in seqs:
        for t in seqs:
            for q in ('C', 'A'):
                yield from out(head + [['loop', 'A', s, [['loop', q, t, [['asg', 'B', ['bin', '+', ['bin', '*', v('B'), n(3)], v(q)]]]]]], ['out', v('A'), None], ['out', v('B'), ['t', ['var', 'B']]]])
            yield from out(head + [['loop', 'A', s, []], ['out', v('A'), None], ['loop', 'C', t, [['asg', 'S', ['seq', [v('S'), v('C')]]]]], ['out', ['un', '#', v('S')], None], ['out', ['bin', '@', n(3), v('S')], None]])
            yield from out(head + [['fn', ['g', ['par', 'X', 'n']], [['loop', 'Y', s, [['loop', 'Z', t, [['if', [[['bin', '>', ['bin', '+', v('Y'), v('Z')], v('X')], [['res', ['bin', '+', ['bin', '*', v('Y'), n(10)], v('Z')]]]]], None]]]]], ['res', ['un', '-', v('X')]]]]] +
                           [['out', ['call', ['g', n(x)]], None] for x in (0, 3, 7, 12)] + [['out', ['call', ['g', ['d', n(1), n(6)]]], None]])


TESTS = [
    Test('large', bcase, check, nt_big, lab_big, 300, 8000, reduce=langgen.reduce_prog),
    Test('chains', None, check, nt, lab, cases=chains, reduce=langgen.reduce_prog),
    Test('portable', case('portable'), check, nt, lab, 300, 5000, reduce=langgen.reduce_prog),
    Test('free', case('free'), check, nt, lab, 300, 5000, reduce=langgen.reduce_prog),
    Test('portable_random', rcase('portable'), check, nt, lab, 1200, 40000, reduce=langgen.reduce_prog),
    Test('free_random', rcase('free'), check, nt, lab, 1200, 40000, reduce=langgen.reduce_prog),
]
