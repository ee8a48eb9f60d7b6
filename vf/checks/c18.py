"""C18 metamorphic: layout, parentheses, names, repetition."""
import copy
import json
import random
from functools import partial
from hypothesis import strategies as st

from .. import lang, langgen, textgen
from ..core import Test, require, Skip, fork_wait
from ..langsut import fast_then_public, compile_, execute, snapshot
from ..load import D
from . import c16

RULE = ('random executable programs (as in C16) transformed by one of: free layout and comments, redundant parentheses around random complete operands, bijective renaming of variables and functions, compiling in random histories with other valid and invalid programs and a shared flags object; '
        'oracle: the outputs (values, weights, text form, names) of the untransformed program; non-trivial = at least 2 outputs and a transformation that changed the text')
INT, LOC, LIBC, EXIST = c16.INT, c16.LOC, c16.LIBC, 'COMPILER_FLAG_FUNC_EXIST_CHECK'

VARS = ['A', 'B', 'X', 'Y', 'Z', 'T_N', 'T_S', 'T_D', 'RV', 'D', 'N', 'S', 'T', 'E', 'VARS', 'X_X', '_', '__', '_A', 'A_', 'ABC', 'TRUE', 'NONE', 'OUTPUT', 'ROLL', 'V_T_N', 'F__X', 'COUNT', 'I', 'Q_Q', 'AB', 'BA', 'LONG_NAME_OF_A_VARIABLE', '___']
SAFE_VARS = [v for v in VARS if not v.startswith('_')]
WORDS = ['f', 'output', 'if', 'else', 'loop', 'over', 'set', 'to', 'named', 'function', 'result', 'print', 'roll', 'len', 'lambda', 'class', 'def', 'is', 'not', 'vars', 'copy', 'myrange', 'settings', 'list', 'none', 'x', 'highest', 'lowest', 'of', 'and', 'in', 'count', 'max', 'abs', 'str', 'true',
         'getseq', 'dummy', 'v', 'longwordthatnobodyuses', 'return', 'while', 'pass', 'import', 'range', 'int', 'get', 'seq', 'anydice', 'casting', 'math']


def var_names(prog):
    out = set()
    for x in c16.walk(prog):
        if len(x) >= 2 and x[0] in ('v', 'asg', 'loop', 'par', 'var') and isinstance(x[1], str) and lang.re.fullmatch('[A-Z_]+', x[1]):
            out.add(x[1])
    return sorted(out)


def rename(prog, vmap, fmap):
    """fmap: pattern -> new words (list of words and None for a parameter)."""
    def ex(e):
        k = e[0]
        if k == 'v' or k == 'var':
            return [k, vmap.get(e[1], e[1])]
        if k == 'call':
            pat = lang.pattern(e[1])
            args = [ex(p) for p in e[1] if not isinstance(p, str)]
            if pat in fmap:
                it = iter(args)
                return ['call', [w if w is not None else next(it) for w in fmap[pat]]]
            it = iter(args)
            return ['call', [p if isinstance(p, str) else next(it) for p in e[1]]]
        if k == 'seq':
            return ['seq', [ex(x) for x in e[1]]]
        if k == 'str':
            return e
        return [k] + [ex(x) if isinstance(x, list) else x for x in e[1:]]

    def lb(l):
        return None if l is None else [p if isinstance(p, str) else ['var', vmap.get(p[1], p[1])] for p in l]

    def stm(s):
        k = s[0]
        if k == 'asg':
            return ['asg', vmap.get(s[1], s[1]), ex(s[2])]
        if k == 'out':
            return ['out', ex(s[1]), lb(s[2])]
        if k == 'res':
            return ['res', ex(s[1])]
        if k == 'set':
            return ['set', s[1], ex(s[2])]
        if k == 'loop':
            return ['loop', vmap.get(s[1], s[1]), ex(s[2]), blk(s[3])]
        if k == 'if':
            return ['if', [[ex(c), blk(b)] for c, b in s[1]], None if s[2] is None else blk(s[2])]
        pat = lang.pattern(s[1])
        pars = [['par', vmap.get(p[1], p[1]), p[2]] for p in s[1] if isinstance(p, list)]
        it = iter(pars)
        parts = [w if w is not None else next(it) for w in fmap[pat]] if pat in fmap else [p if isinstance(p, str) else next(it) for p in s[1]]
        return ['fn', parts, blk(s[2])]

    def blk(b):
        return [stm(s) for s in b]
    return blk(prog)


def parens(prog, r, p=.35):
    def ex(e):
        k = e[0]
        if k in ('n', 'dec', 'v'):
            n = e
        elif k == 'str':
            return e
        elif k == 'call':
            n = ['call', [x if isinstance(x, str) else ex(x) for x in e[1]]]
        elif k == 'seq':
            n = ['seq', [['..', ex(x[1]), ex(x[2])] if x[0] == '..' else ex(x) for x in e[1]]]
        else:
            n = [k] + [ex(x) if isinstance(x, list) else x for x in e[1:]]
        while r.random() < p:
            n = ['p', n]
        return n

    def stm(s):
        k = s[0]
        if k in ('asg', 'set'):
            return [k, s[1], ex(s[2])]
        if k == 'out':
            return ['out', ex(s[1]), s[2]]
        if k == 'res':
            return ['res', ex(s[1])]
        if k == 'loop':
            return ['loop', s[1], ex(s[2]), [stm(x) for x in s[3]]]
        if k == 'if':
            return ['if', [[ex(c), [stm(x) for x in b]] for c, b in s[1]], None if s[2] is None else [stm(x) for x in s[2]]]
        return ['fn', s[1], [stm(x) for x in s[2]]]
    return [stm(s) for s in prog]


def random_renaming(prog, r):
    names = var_names(prog)
    pool = list(VARS) + ['A' * (i + 4) for i in range(len(names))]
    r.shuffle(pool)
    if r.random() < .15:  # long names that differ at one place only
        w = ''.join(r.choice('ABCDEFGHIJ_') for _ in range(r.choice([20, 70, 130, 300])))
        at = r.choice([0, len(w) // 2, len(w)])
        pool = [w[:at] + x + w[at:] for x in [a + b for a in 'KLMNOPQRSTUVWXYZ' for b in 'KLMNOPQRST_']]
        r.shuffle(pool)
        return dict(zip(names, pool)), {}
    vmap = dict(zip(names, pool)) if r.random() < .6 else dict(zip(names, r.sample(names, len(names))))
    fmap, used = {}, set(lang.LIBRARY)
    pats = sorted({lang.pattern(f[1]) for f in c16.fns_of(prog)})
    for pat in pats:
        old = pat.split(' ')
        n_par = old.count('X')
        for _ in range(200):
            new = [None] * n_par
            for _ in range(r.randint(0 if n_par else 1, 3)):
                new.insert(r.randint(0, len(new)), r.choice(WORDS))
            # AnyDice gives two adjacent arguments as they are; the printer parenthesises where needed
            name = ' '.join('X' if w is None else w for w in new)
            if name not in used:
                used.add(name)
                fmap[pat] = new
                break
    return vmap, fmap


def flags_of(c):
    fl = {LOC: True} if c['mode'] == 'free' or c['seed'] % 2 else {}
    if c['opint']:
        fl[INT] = True
    if c['seed'] % 5 == 0:
        fl[LIBC] = True
    return fl


def run(comp, text, fl, what):
    try:
        code = comp(text, fl)
    except Exception as e:  # noqa
        require(False, '%s: rejected with %s: %s\n%s', what, type(e).__name__, str(e)[:200], text)
    D.settings_reset()
    try:
        return [(snapshot(v), n) for v, n in execute(code)]
    except Exception as e:  # noqa
        return 'fails: %s' % type(e).__name__
    finally:
        D.settings_reset()


@partial(fast_then_public, every=16)
def check(c, comp):
    kept, exp, _ = c16.prepare(c)
    if not exp:
        raise Skip('no covered output')
    r = random.Random(c['seed'])
    fl = flags_of(c)
    base_text = lang.source(kept, 'plain')
    base = run(comp, base_text, fl, 'the program')
    if isinstance(base, str):
        raise Skip('the program itself fails (decided by C16)')
    kind = c['kind']
    for k in range(3):
        if kind == 'layout':
            text = lang.source(kept, ['wild', 'tight', 'wild'][k], c['seed'] + k)
        elif kind == 'parens':
            more = parens(kept, r, [.2, .5, .75][k])
            if nesting(more) > 60:  # Python itself refuses about 200 levels
                continue
            text = lang.source(more, ['plain', 'tight', 'wild'][k], c['seed'])
        else:
            vmap, fmap = random_renaming(kept, r)
            text = lang.source(rename(kept, vmap, fmap), 'plain')
        got = run(comp, text, fl, 'after ' + kind)
        require(got == base, 'after changing only %s the outputs differ: %s instead of %s\n%s\n--- instead of\n%s', kind, short(got), short(base), text, base_text)


def nesting(prog):
    d = top = 0
    for t in lang.prog_toks(prog):
        d += t in ('(', '[', '{')
        d -= t in (')', ']', '}')
        top = max(top, d)
    return top


def short(x):
    s = repr(x)
    return s if len(s) < 500 else s[:500] + '...'


FLAGSETS = [{}, {LOC: True}, {INT: True, LIBC: True}, {LOC: False}, {INT: True}, {EXIST: False}, {LIBC: True}, {LOC: True, EXIST: False}, {INT: False, LIBC: False}, None]


def attempt(text, fl, norun):
    try:
        code = compile_(text) if fl is None else _public(text, fl)
    except Exception as e:  # noqa
        return ['reject', type(e).__name__]
    if norun:
        return ['code', code]
    D.settings_reset()
    try:
        return ['ok', [[snapshot(v), n] for v, n in execute(code)]]
    except Exception as e:  # noqa
        return ['fail', type(e).__name__]
    finally:
        D.settings_reset()


def check_history(c):
    """Compile a list of texts in the given order, each several times, with shared flags objects: every text always behaves as it does alone in a fresh process."""
    objs = copy.deepcopy(FLAGSETS)
    texts = c['texts']
    alone = {}
    for i, f in c['order']:
        text = texts[i % len(texts)]
        if (text, f) not in alone:
            alone[(text, f)] = fork_wait(lambda: attempt(text, FLAGSETS[f], text in c['norun']), 60)
            if alone[(text, f)] is None:
                raise Skip('no answer in time')
    for i, f in c['order']:
        text = texts[i % len(texts)]
        r = json.loads(json.dumps(attempt(text, objs[f], text in c['norun'])))
        require(objs == FLAGSETS, 'compiling changed the flags object to %r', objs)
        require(r == alone[(text, f)], 'program %r with flags %r gives %s, in a fresh process %s', text, objs[f], short(r), short(alone[(text, f)]))


def _public(text, fl):
    from ..langsut import pe
    return pe.compile_anydice(text, fl)  # the very same flags object each time


def case(kind):
    def f():
        def build(seed):
            o, mode = bool(seed & 1), ['portable', 'free'][seed >> 1 & 1]
            return {'prog': langgen.random_program(seed, mode, o), 'kind': kind, 'seed': seed // 7 % 100000, 'mode': mode, 'opint': o}
        return st.integers(0, 2 ** 48).map(build)
    return f


def big_case():
    def build(seed):
        r = seed // 10
        return {'prog': langgen.big_program(seed), 'kind': ['layout', 'parens', 'names'][r % 3], 'seed': r // 7 % 100000, 'mode': ['portable', 'free'][r % 2], 'opint': True, 'big': True}
    return st.integers(0, 2 ** 48).map(build)


FIXED = ['output 1', 'output 2d6 named "x"', 'function: f A:n { result: A+1 } output [f 3]', 'output [f 3]', 'output "abc', '\\ open', 'X: 1', 'output X', 'output 1 named "[X', 'function: f A:n { result: A*2 } output [f d4]', 'output ]', 'output [absolute 3]',
         'function: absolute A { result: 7 } output [absolute 3]', 'set "explode depth" to 5 output [explode d2]', 'output [explode d2]', 'set "position order" to "lowest first" output 1@2d6', 'output 1@2d6', 'output 6 & 3 output !2 output 2@31', 'A: 1 function: f { A: 2 result: 0 } B: [f] output A',
         'X: 1 loop X over {1..3} { Y: X } output X output Y', 'if 0 { output [g 1] } output 2', 'output 1 named "a b"', 'output 1 named "a  b"', 'output 1 named "a\tb"', 'output 1 named " a b"', 'output 1 named "A B"', 'output 12', 'output 1 2', 'output 1 output 2', 'output 1\noutput 3',
         'output 10 - 3', 'output 10 \\ c \\ - 3', 'output 10 \\ d \\ + 3', 'A: 3 output A', 'A: 3 output B', 'function: absolute A { result: 8 } output [absolute 3]', 'function: f { result: d4 } output [f]', 'function: f { result: d6 } output [f]', '']


def variant(text, r):
    """A text that is easily confused with the given one."""
    k = r.randint(0, 6)
    i = r.randint(0, len(text))
    if k == 0:
        return text.replace(' ', '  ')
    if k == 1:
        return text.replace('  ', ' ')
    if k == 2:
        return text[:i] + r.choice([' ', '\n', '\t', '\\ \\', '"', '\\', '(', '1', 'A', 'x']) + text[i:]
    if k == 3:
        return text[:i] + text[i + 1:]
    if k == 4:
        return text.upper() if r.random() < .5 else text.lower()
    if k == 5:
        ds = [j for j, ch in enumerate(text) if ch.isdigit()]
        if ds:
            j = r.choice(ds)
            return text[:j] + r.choice('0123456') + text[j + 1:]
    return ' '.join(text.split())


def make_history(seed):
    r = random.Random(seed)
    texts, norun = [], []
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .55:
            t = r.choice(FIXED)
        elif k < .75:
            t = textgen.mutated_text(r.getrandbits(40))
            norun.append(t)
        else:
            t = lang.source(langgen.random_program(r.getrandbits(40), 'portable', r.random() < .5), 'plain')
            norun.append(t)
        texts.append(t)
        while r.random() < .5:
            texts.append(variant(t, r))
            norun.append(texts[-1])  # what it means is not known: only compiled
    order = [[r.randrange(len(texts)), r.randrange(len(FLAGSETS))] for _ in range(r.randint(3, 6))]
    order += [[r.choice(order)[0], r.randrange(len(FLAGSETS))] for _ in range(r.randint(0, 4))] + [list(r.choice(order)) for _ in range(r.randint(0, 3))]
    return {'texts': texts, 'norun': norun, 'order': order}


def reduce_history(c):
    for i in range(len(c['order'])):
        yield dict(c, order=c['order'][:i] + c['order'][i + 1:])


def history():
    return st.integers(0, 2 ** 48).map(make_history)


def nt(c):
    return len(c16.prepare(c)[1]) >= 2


def lab(c):
    return ['mode:' + c['mode'], 'kind:' + c['kind']]


TESTS = [
    Test('layout', case('layout'), check, nt, lab, 600, 12000, reduce=langgen.reduce_prog),
    Test('parens', case('parens'), check, nt, lab, 600, 12000, reduce=langgen.reduce_prog),
    Test('names', case('names'), check, nt, lab, 1200, 24000, reduce=langgen.reduce_prog),
    Test('large', big_case, check, lambda c: len(c16.prepare(c)[1]) >= 1, lab, 150, 4000, reduce=langgen.reduce_prog),
    Test('history', history, check_history, lambda c: len({i for i, _ in c['order']}) < len(c['order']), None, 110, 4000, reduce=reduce_history),
]
