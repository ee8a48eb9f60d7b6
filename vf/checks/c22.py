"""C22 function names."""
import builtins
import itertools
import keyword
import random
from hypothesis import strategies as st

from .. import ref, lang, anyref
from ..core import Test, Skip, HarnessError
from ..langsut import fast_then_public, execute, same_outputs
from ..load import D
from . import c16
from .c15 import prog_with_parens

RULE = ('programs that define, redefine and call functions named with arbitrary words (Python keywords and builtins, names of the generated code and of the library, reserved words, parameters only) interleaved with calls of library functions and built-in syntax, under all flag combinations; '
        'oracle: reference interpreter dispatching on the word-and-argument pattern; non-trivial = at least two functions, or a function that shares its name with Python or the library')
INT, LOC, LIBC = c16.INT, c16.LOC, c16.LIBC
FLAGS = [{}, {LOC: True}, {LIBC: True}, {LOC: True, LIBC: True}, {INT: True}, {INT: True, LOC: True, LIBC: True}, {'COMPILER_FLAG_FUNC_EXIST_CHECK': False}]

WORDS = [w for w in keyword.kwlist + list(keyword.softkwlist) + dir(builtins) if w.isalpha() and w.islower() and w.isascii()] + list(lang.RESERVED) + \
    ['roll', 'myrange', 'vars', 'output', 'copy', 'math', 'random', 'itertools', 'functools', 'f', 'x', 'n', 's', 'v', 'dummy', 'zz', 'absolute', 'explode', 'reverse', 'sort', 'contains', 'maximum', 'highest', 'lowest', 'middle', 'of', 'and', 'count', 'in', 'true', 'div', 'printed', 'builtins', 'settings', 'seq', 'self', 'cls']
WORDS = [w for w in dict.fromkeys(WORDS) if w != 'd']
PHRASES = [['get', 'seq'], ['settings', 'set'], ['anydice', 'casting'], ['max', 'func', 'depth'], ['my', 'range'], ['settings', 'reset'], ['f', 'f'], ['is', 'not'], ['not', 'in'], ['true', 'div'], ['highest', 'of'], ['count'], ['vars', 'copy'], ['get', 'rv'], ['print', 'output'], ['else', 'if'], ['set', 'to']]
LIBP = [p.split() for p in lang.LIBRARY]
PNAMES = ['A', 'B', 'X', 'Y', 'X_X', 'T_N', 'T_S', 'T_D', 'D', 'N', 'S', 'F', 'V', 'VARS', 'RV', 'E', 'ABC']


def n(x):
    return ['n', str(x)]


def random_pattern(r):
    k = r.random()
    if k < .2:
        return list(r.choice(LIBP))
    if k < .35:
        p = list(r.choice(PHRASES))
    elif k < .45:
        return ['X'] * r.randint(1, 3)
    elif k < .53:  # long names
        p = [r.choice(WORDS) for _ in range(r.randint(4, 14))] if r.random() < .6 else [r.choice(['the', 'a', 'attack']), ''.join(r.choice('abcdefgh') for _ in range(r.choice([20, 40, 70, 200])))]
        if r.random() < .3:
            p = p[:2] + ['X'] * r.randint(3, 6)
    else:
        p = [r.choice(WORDS) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        p.insert(r.randint(0, len(p)), 'X')
    return p


def call_of(pat, r, depth=1, known=()):
    def arg():
        if depth > 0 and known and r.random() < .25:
            return call_of(r.choice(known), r, depth - 1, known)
        return n(r.randint(0, 5))
    name = ' '.join(pat)
    if name in lang.LIBRARY:
        shapes = {'X contains X': ['seq', 'n'], 'count X in X': ['n', 'seq'], 'explode X': ['die'], 'highest X of X': ['n', 'die'], 'lowest X of X': ['n', 'die'], 'middle X of X': ['n', 'die'], 'maximum of X': ['die'], 'reverse X': ['seq'], 'sort X': ['seq'], 'true div X X': ['n', 'pos']}
        kinds = iter(shapes.get(name, ['n'] * 3))
        mk = {'n': arg, 'pos': lambda: n(r.randint(1, 4)), 'seq': lambda: ['seq', [n(r.randint(0, 4)) for _ in range(3)]], 'die': lambda: ['d', n(r.randint(1, 3)), n(r.randint(2, 4))]}
        return ['call', [w if w != 'X' else mk[next(kinds)]() for w in pat]]
    return ['call', [w if w != 'X' else arg() for w in pat]]


def program(seed):
    r = random.Random(seed)
    prog, known, uid = [], [], 0
    if r.random() < .7:
        for nm in r.sample(PNAMES, 4):
            prog.append(['asg', nm, n(r.randint(0, 9))])
    assigned = ['G', 'Q_Q']  # read inside functions; never a parameter, so scoping rules do not matter
    prog += [['asg', a, n(r.randint(0, 9))] for a in assigned]
    libs = [list(x) for x in LIBP]
    pats = [random_pattern(r) for _ in range(r.randint(1, 5))]
    if r.random() < .4:  # patterns that differ only in where the words and arguments are
        p = pats[0]
        pats.append(p[1:] + p[:1])
        pats.append(p + ['X'])
    if r.random() < .4:  # or only in where a word ends, or in the last letter, or in a repeated word
        p = pats[0]
        ws = [i for i, w in enumerate(p) if w != 'X']
        if ws:
            i = r.choice(ws)
            q = [p[:i] + [p[i] + 'e'] + p[i + 1:], p[:i] + [p[i][:-1]] + p[i + 1:], p[:i] + [p[i], p[i]] + p[i + 1:], p[:i] + [p[i] + 'x'] + p[i + 1:], p[:i] + [p[i], 'x'] + p[i + 1:]]
            if i + 1 < len(p) and p[i + 1] != 'X':
                q.append(p[:i] + [p[i] + p[i + 1]] + p[i + 2:])
            if len(p[i]) > 2:
                j = r.randint(1, len(p[i]) - 1)
                q.append(p[:i] + [p[i][:j], p[i][j:]] + p[i + 1:])
            if len(p) > 3:  # the last words again, two words exchanged, one left out
                h = r.randint(1, 2)
                q += [p + p[-h:]] * 2 + [p[:i] + p[i + 1:]]
                j = r.choice(ws)
                q.append([p[j] if t == i else p[i] if t == j else w for t, w in enumerate(p)])
            pats += [x for x in r.sample(q, 2) if x and all(w and w != 'd' for w in x) and len(x) < 19 and x.count('X') <= len(PNAMES)]
    pats = [p for p in pats if p.count('X') <= len(PNAMES)] or [['f', 'X']]
    for _ in range(r.randint(4, 14)):
        k = r.random()
        if k < .45 or not known:
            uid += 1
            pat = r.choice(pats)
            names = iter(r.sample(PNAMES, pat.count('X')))
            parts = [w if w != 'X' else ['par', next(names), r.choice(['n', 'n', None])] for w in pat]
            e = n(1000 * uid)
            for i, p in enumerate(p for p in parts if isinstance(p, list)):
                e = ['bin', '+', e, ['bin', '*', ['v', p[1]], n(10 ** i if i < 3 else 7 ** (3 + i))]]
            if known and r.random() < .3:
                e = ['bin', '+', e, call_of(r.choice(known + libs[:1]), r, 0)]
            if assigned and r.random() < .2:
                e = ['bin', '+', e, ['v', r.choice(assigned)]]
            body = [['res', e]]
            if r.random() < .15:
                body = [['if', [[n(1), body]], None]]
            fn = ['fn', parts, body]
            prog.append(fn if r.random() < .9 else ['if', [[n(1), [fn]]], None])
            if pat not in known:
                known.append(pat)
        elif k < .75:
            prog.append(['out', call_of(r.choice(known), r, 1, known), [r.choice(['a', 'b'])] if r.random() < .2 else None])
        elif k < .87:
            prog.append(['out', call_of(r.choice(libs), r, 1, known), None])
        else:
            prog.append(['out', r.choice([['d', n(2), n(3)], ['d1', n(4)], ['seq', [n(3), ['..', n(1), n(3)], n(2)]], ['un', '#', ['seq', [n(5), n(6)]]], ['bin', '@', n(2), ['seq', [n(7), n(8)]]], ['d', n(2), ['seq', [['..', n(0), n(2)]]]], ['un', '#', ['d', n(3), n(2)]],
                                              ['bin', '@', n(1), ['d', n(2), n(3)]], ['bin', '&', ['d1', n(2)], n(1)], ['un', '!', ['seq', [n(0)]]]]), None])
    for p in known:
        prog.append(['out', call_of(p, r, 0), None])
    if r.random() < .3:
        prog.insert(r.randint(0, len(prog)), ['set', ['position order'], ['str', ['highest first']]])
    return prog


@fast_then_public
def check(c, comp):
    kept, exp, stats = c16.covered(c['prog'], False, 'python')
    if not exp:
        raise Skip('no covered output')
    called = set(c16.calls_of(kept)) - set(lang.LIBRARY)
    if not called <= {lang.pattern(f[1]) for f in c16.fns_of(kept)}:
        raise Skip('dropped definition')
    text = lang.source(kept, c['style'], c['seed'])
    if lang.parse(text) != prog_with_parens(kept):
        raise HarnessError('printer and reference parser disagree on %r' % text)
    for k in (c['seed'], c['seed'] + 1):
        fl = FLAGS[k % len(FLAGS)]
        D.settings_reset()
        same_outputs(execute(comp(text, fl)), exp, 'flags %s' % sorted(fl or ()))


def grid(tier):
    """Every word alone, in front of, behind and between arguments; pairs with the library."""
    probes = [['d', n(2), n(3)], ['seq', [n(3), ['..', n(1), n(3)]]], ['un', '#', ['seq', [n(5), n(6)]]], ['call', ['absolute', ['un', '-', n(4)]]], ['call', ['maximum', 'of', ['d1', n(5)]]]]
    items = [[w] for w in WORDS] + PHRASES
    i = 0
    for w in items:
        shapes = [w, w + ['X'], ['X'] + w, w + ['X', 'X'], ['X'] + w + ['X'], ['X', 'X'] + w]
        for group in (shapes[:3], shapes[3:]):
            defs, outs = [], []
            for j, pat in enumerate(group):
                names = iter(['A', 'B', 'C'])
                parts = [x if x != 'X' else ['par', next(names), 'n'] for x in pat]
                e = n(100 + j)
                for q in parts:
                    if isinstance(q, list):
                        e = ['bin', '+', ['bin', '*', e, n(10)], ['v', q[1]]]
                defs.append(['fn', parts, [['res', e]]])
                outs.append(['out', ['call', [x if x != 'X' else n(2 + j) for x in pat]], None])
            i += 1
            yield {'prog': defs + outs + [['out', p, None] for p in probes], 'style': 'plain', 'seed': i}
    for a in LIBP:
        for b in LIBP + [['X'], ['X', 'X']]:
            i += 1
            r = random.Random(i)
            names = iter(PNAMES)
            parts = [x if x != 'X' else ['par', next(names), None] for x in b]
            yield {'prog': [['out', call_of(a, r, 0), None], ['fn', parts, [['res', n(77)]]], ['out', call_of(b, r, 0), None], ['out', call_of(a, r, 0), None]] + [['out', p, None] for p in probes if ' '.join(b) not in ('absolute X', 'maximum of X')], 'style': 'plain', 'seed': i}


def reduce(c):
    from ..langgen import reduce_prog
    yield from reduce_prog(c)


def nt(c):
    fs = [lang.pattern(f[1]) for f in c16.fns_of(c['prog'])]
    return len(set(fs)) >= 2 or any(f in lang.LIBRARY or f.replace(' ', '_') in WORDS for f in fs)


def case():
    return st.integers(0, 2 ** 48).map(lambda s: {'prog': program(s), 'style': ['plain', 'tight', 'wild'][s % 3], 'seed': s // 3 % 1000})


TESTS = [
    Test('programs', case, check, nt, lambda c: ['n%d' % min(6, len(list(c16.fns_of(c['prog']))))], 1500, 40000, reduce=reduce),
    Test('words', None, check, nt, None, cases=grid, reduce=reduce),
]
