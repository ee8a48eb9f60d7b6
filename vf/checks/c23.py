"""C23 output names and dice notation."""
import random
from hypothesis import strategies as st

from .. import gen, ref, lang, anyref, langsut
from ..core import Test, Skip, HarnessError, require
from ..langsut import fast_then_public, execute, same_outputs
from ..load import D
from ..sut import build, model_or_skip
from . import c16
from .c03 import one_roll
from .c15 import prog_with_parens

RULE = ('programs whose outputs are named with hostile text (every character class between the quotes, braces, backslashes, quotes, bracket look-alikes) and [VARIABLE]s holding numbers, sequences, pools, nested rolls, sums, blanks, reassigned between outputs, in loops and functions; '
        'oracle: text model of the label and of dice notation; non-trivial = the label has a special character or a variable (labels), the roll is not a plain positive ndm (notation)')
INT, LOC, LIBC = c16.INT, c16.LOC, c16.LIBC

SPECIAL = list("{}\\'`$%#&()[]<>!?:;,.*@^~|=+-/_ \t") + ['{{', '}}', '{0}', '{A}', '{v_A}', '%s', '%(a)s', '\\n', '\\"'[:1], "'''", '\\x41', '\\u0041', '\\N{BULLET}', '\r', '\x00', '\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\u2029', 'é', '日本', '😀', '\x7f', '\ufeff', '\xa0', 'f', 'rb', '{1+1}', '!r}', '{!r}', ':>10}', '#c', '\\\\', '\\']
LOOKALIKE = ['[a]', '[Ab]', '[A', 'A]', '[]', '[ A]', '[A ]', '[A1]', '[1]', '[A-B]', '[A+B]', '[[', ']]', '[a[b', '[d6]', '[A\tB]', '[[[', '[É]', '[A,B]', '[vars]', '[-A]', '[0]']
VARS = ['A', 'B', 'C', 'N', 'X_Y', '_', 'VERY_LONG_NAME', 'T_N', 'D', 'F', 'R', 'U']


def n(x):
    return ['n', str(x)] if x >= 0 else ['un', '-', ['n', str(-x)]]


def random_value(r, assigned, depth=2):
    k = r.random()
    if k < .2:
        return n(r.choice([0, 1, 2, 7, 12, 100, 99999, -1, -5, r.randint(-1000, 1000)]))
    if k < .27:
        return ['dec', str(r.randint(0, 9)), str(r.choice([5, 25, 75, 0, 125]))]
    if k < .37:
        return ['seq', [n(r.randint(-2, 5)) for _ in range(r.randint(0, 3))]]
    if k < .42 and assigned:
        return ['v', r.choice(assigned)]
    if k < .5:
        return ['bin', r.choice('+-*'), random_value(r, assigned, 0), random_value(r, assigned, 0)]
    if k < .53:
        return ['d', n(r.randint(0, 2)), ['seq', []]]

    def side():
        q = r.random()
        if q < .5 or depth == 0:
            return n(r.choice([0, 1, 2, 3, 6, 10, -1, -3]))
        if q < .65:
            return ['seq', [n(r.randint(0, 4)) for _ in range(r.randint(1, 3))]]
        if q < .8 and assigned:
            return ['v', r.choice(assigned)]
        return random_value(r, assigned, depth - 1)
    if r.random() < .3:
        return ['d1', ['p', side()]]
    c = n(r.choice([0, 1, 1, 2, 3, 5, -1, -2, -4])) if r.random() < .75 else side()
    return ['d', ['p', c], ['p', side()]]


def random_label(r, names):
    parts = []
    for _ in range(r.choice([1, 1, 2, 3, 5, 8])):
        k = r.random()
        if k < .4:
            parts.append(r.choice(SPECIAL))
        elif k < .55:
            parts.append(r.choice(LOOKALIKE))
        elif k < .8 and names:
            parts.append('[' + r.choice(names) + ']')
        elif k < .9:
            parts.append(''.join(r.choice('abc XYZ09') for _ in range(r.randint(1, 6))))
        else:
            parts.append(chr(r.choice([r.randint(1, 0x7e), r.randint(0x80, 0x2ff), r.randint(0x2000, 0x206f), r.randint(0x3000, 0xd7ff), r.randint(0x10000, 0x10ffff)])))
        if r.random() < .04:
            parts.append(''.join(r.choice('abc XYZ09{}[]') for _ in range(r.choice([40, 70, 130, 300, 1100]))))
    t = ''.join(parts).replace('"', '').replace('\n', '')
    return lang.split_label(t) if t else ['x']


def program(seed):
    r = random.Random(seed)
    prog, names = [], []
    use = r.sample(VARS, r.randint(1, 5))
    for v in use:
        prog.append(['asg', v, random_value(r, names)])
        names.append(v)
    for _ in range(r.randint(1, 5)):
        k = r.random()
        out = ['out', n(r.randint(0, 3)), fix(random_label(r, names), names)]
        if k < .2:
            prog.append(['asg', r.choice(names), random_value(r, names)])
            prog.append(out)
        elif k < .3:
            v = r.choice(names)
            prog.append(['loop', v, ['seq', [n(r.randint(0, 9)) for _ in range(r.randint(1, 3))]], [out]])
        elif k < .4:
            v = r.choice(VARS)
            here = fix(random_label(r, [v]), [v])
            prog.append(['fn', ['f', ['par', v, r.choice(['n', None])]], [['out', n(1), here], ['res', n(2)]]])
            prog.append(['out', ['call', ['f', n(r.randint(0, 9))]], None])
        else:
            prog.append(out)
    return prog


def fix(label, names):
    """Variables that are not assigned make the program fail; keep only assigned ones."""
    keep = [p if isinstance(p, str) or p[1] in names else '[' + p[1].lower() + ']' for p in label]
    return lang.split_label(lang.label_text(keep))


@fast_then_public
def check(c, comp):
    kept, exp, stats = c16.covered(c['prog'], False, 'copy')
    if not exp:
        raise Skip('no covered output')
    called = set(c16.calls_of(kept)) - set(lang.LIBRARY)
    if not called <= {lang.pattern(f[1]) for f in c16.fns_of(kept)}:
        raise Skip('dropped definition')
    text = lang.source(kept, c['style'], c['seed'])
    if lang.parse(text) != prog_with_parens(kept):
        raise HarnessError('printer and reference parser disagree on %r' % text)
    for fl in ({}, {LOC: True}):
        if c['seed'] % 3 == 0:
            fl = dict(fl, **{INT: True, LIBC: True})
        D.settings_reset()
        same_outputs(execute(comp(text, fl)), exp, 'flags %s' % sorted(fl))
        if c['seed'] % 4 == 1:
            same_outputs(execute(comp(text, fl), 'safe'), exp, 'restricted, flags %s' % sorted(fl)) if '_' not in {x[1][0] for x in kept if x[0] in ('asg', 'loop')} else None


def labels(c):
    return [x[2] for x in c16.walk(c['prog']) if len(x) == 3 and x[0] == 'out' and isinstance(x[2], list)]


def nt(c):
    return any(any(not isinstance(p, str) or not p.isalnum() for p in l) for l in labels(c))


def lab(c):
    out = set()
    for l in labels(c):
        for p in l:
            if not isinstance(p, str):
                out.add('variable')
            else:
                out.add('text')
                out |= {k for k, ch in (('brace', '{'), ('backslash', '\\'), ('bracket', '['), ('quote', "'")) if ch in p}
                if any(ord(ch) < 32 or ord(ch) > 126 for ch in p):
                    out.add('non-ascii or control')
    return sorted(out)


def chars(tier):
    """Every single character, alone, doubled and before and after a variable."""
    pool = list(range(0, 0x250)) + list(range(0x2000, 0x2070)) + [0x3000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]
    if tier == 'thorough':
        pool += list(range(0x250, 0x2000, 1)) + list(range(0x2070, 0xd800, 7)) + list(range(0xe000, 0x10ffff, 997))
    pool = [chr(x) for x in pool if chr(x) not in '"\n']
    items = pool + SPECIAL + LOOKALIKE
    for i in range(0, len(items), 4):
        group = items[i:i + 4]
        prog = [['asg', 'A', ['d', n(2), n(6)]]]
        for ch in group:
            for t in (ch, ch + ch, '[A]' + ch, ch + '[A]', 'x' + ch + 'y'):
                prog.append(['out', n(1), fix(lang.split_label(t), ['A'])])
        yield {'prog': prog, 'style': 'plain', 'seed': i}


def check_notation(c):
    exp = model_or_skip(c['r'])
    act = build(c['r'])
    if exp is ref.BLANK or exp is ref.NULL:
        return
    want = ref.form_text(exp.form)
    require(str(act) == want, 'str(%s) is %r, expected %r', c['r'], str(act), want)
    require('%s|{%s}' % (act, act) == want + '|{' + want + '}', 'formatting')
    # reading it never changes it, deriving other dice neither
    act + 1
    D.roll(2, act)
    D.roll(1, act)
    require(str(act) == want, 'the notation of %s changed to %r', c['r'], str(act))


def pairs(tier):
    for a in list(range(-4, 8)) + [25, -30, 100]:
        for b in list(range(-4, 9)) + [20, 100, -100]:
            if abs(a * b) <= 400 or a in (0, 1, -1):
                yield {'r': ['roll', ['num', a], ['num', b]]}
                for k in (-2, -1, 0, 1, 2):
                    if abs(a * b) < 60:
                        yield {'r': ['roll', ['num', k], ['roll', ['num', a], ['num', b]]]}
                        yield {'r': ['roll', ['num', k], ['roll', ['num', 1], ['roll', ['num', a], ['num', b]]]]}
                        yield {'r': ['roll', ['roll', ['num', 1], ['num', abs(k) + 1]], ['roll', ['num', a], ['num', b]]]} if abs(a * b) < 20 else {'r': ['roll', ['num', k], ['num', b]]}
                        yield {'r': ['op', '+', ['roll', ['num', a], ['num', b]], ['num', k]]}


def wide(tier):
    """Sides given as sequences, lists and dice of many shapes: consecutive, repeated, in and out of order, long."""
    sides = [[list(range(a, b + 1)), 'run'] for a in range(-3, 4) for b in range(a, 13)]
    sides += [[list(range(b, a - 1, -1)), 'down'] for a in (0, 1) for b in range(1, 8)] + [[[x] * k, 'same'] for x in (0, 1, 2, 7) for k in (1, 2, 3, 6, 40)] + [[list(range(1, n + 1)), 'long'] for n in (20, 60, 100, 300)] + [[[x / 2 for x in range(1, n)], 'half'] for n in (2, 5, 9)]
    for xs, _ in sides:
        for n in (1, 2, 3, 0, -1, -2):
            if len(set(xs)) * abs(n) > 400:
                continue
            for t in ('seq', 'list'):
                d = [t, [['num', x] for x in xs]]
                yield {'r': ['roll', ['num', n], d]}
                if len(xs) < 7 and n in (1, 2):
                    yield {'r': ['roll', ['num', n], ['roll', ['num', 1], d]]}
                    yield {'r': ['roll', ['num', n], ['roll', ['num', 2], d]]}
            if len(xs) < 60:
                yield {'r': ['roll', ['num', n], ['rv', xs, [1] * len(xs)]]}
            if n > 0 and len(xs) < 5 and all(isinstance(x, int) and 0 <= x < 4 for x in xs):
                yield {'r': ['roll', ['seq', [['num', x] for x in xs]], ['num', n]]}
                yield {'r': ['roll', ['seq', [['num', x] for x in xs]], ['seq', [['num', x] for x in xs]]]}


def large(tier):
    """Thousands of dice and of sides."""
    ns = [98, 99, 100, 101, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 9999, 10000, 10001, 32768, 65536, 99999, 100000, 123456, 999999, 1000000, 10 ** 7]
    for k in (10 ** 12, 10 ** 15 + 1, 2 ** 53 + 1, 10 ** 16 + 1, 10 ** 18 + 7, 10 ** 25 + 1):
        for n, m in ((k, 1), (-k, 1), (k, -1), (k, 0), (-k, -1)):
            yield {'n': n, 'm': m}
    for k in ns:
        for s in (1, -1):
            yield {'n': s * k, 'm': 1}
            yield {'n': k, 'm': -s}
            yield {'n': k, 'm': 0}
            if k <= 65536 or tier == 'thorough' and k <= 10 ** 6:
                yield {'n': s, 'm': k}
                yield {'n': 1, 'm': s * k}
            if k <= 257:
                yield {'n': s * k, 'm': 2}
                yield {'n': 2, 'm': s * k}


def check_large(c):
    a, b = c['n'], c['m']
    x = D.roll(a, b)
    sign = '-' if a * b < 0 else ''
    want = sign + (str(abs(a)) if abs(a) > 1 else '') + 'd' + (str(abs(b)) if b else '{0..0}')
    require(str(x) == want, 'str(roll(%d, %d)) is %r, expected %r', a, b, str(x), want)
    if abs(a) <= 1025 and abs(b) <= 1025:
        for s in (want,) if a * b > 0 and a > 0 else ():
            require(str(D.roll(s)) == want, 'roll(%r) prints as %r', s, str(D.roll(s)))
    if b == 1:
        for y in (D.roll(D.Seq(a), b), D.roll(a, D.roll(b))):
            require(str(y) == want, 'the same roll with a sequence as count or a die as sides is %r, expected %r', str(y), want)


def odd_roll(c):
    return not (c['r'][0] == 'roll' and c['r'][1][0] == c['r'][2][0] == 'num' and c['r'][1][1] > 0 and c['r'][2][1] > 0)


BOOLS = [('1=1', {}), ('1=2', {}), ('1!=1', {}), ('2>1', {}), ('1<2', {}), ('{1}={1}', {}), ('{1}<{2}', {}), ('{1,2}=1', {}), ('[{1,2} contains 2]', {}), ('!0', {INT: True}), ('!3', {INT: True}), ('!{0}', {}), ('1&1', {INT: True}), ('{1}&{0}', {}), ('0|0', {INT: True}), ('#3', {INT: True}), ('(1=1)+1', {}), ('(1=1)*5', {})]


def check_bool(c):
    e, fl = c['expr'], c['flags']
    v = anyref.Interp(True).ev(lang.parse('output ' + e)[0][1], {})
    want = str(int(v))
    for f in (fl, dict(fl, **{LOC: True})):
        D.settings_reset()
        outs = execute(langsut.compile_('A: %s output 1 named "v[A]"' % e, f))
        require(outs[0][1] == 'v' + want, 'label of %s is %r, expected %r', e, outs[0][1], 'v' + want)


def bools(tier):
    return ({'expr': e, 'flags': f} for e, f in BOOLS)


def case():
    return st.integers(0, 2 ** 48).map(lambda s: {'prog': program(s), 'style': ['plain', 'tight', 'wild'][s % 3], 'seed': s // 3 % 1000})


def reduce(c):
    from ..langgen import reduce_prog
    yield from reduce_prog(c)
    for i, s in enumerate(c['prog']):
        if s[0] == 'out' and s[2]:
            t = lang.label_text(s[2])
            for j in range(len(t)):
                u = t[:j] + t[j + 1:]
                if u:
                    p = list(c['prog'])
                    p[i] = ['out', s[1], lang.split_label(u)]
                    yield dict(c, prog=p)


TESTS = [
    Test('labels', case, check, nt, lab, 3000, 60000, reduce=reduce),
    Test('chars', None, check, nt, lab, cases=chars, reduce=reduce),
    Test('notation', lambda: st.builds(lambda r: {'r': r}, st.one_of(one_roll(), one_roll().map(lambda r: ['roll', ['num', 1], r]), gen.rv_spec(st.integers(-2, 5), 3))), check_notation, odd_roll, lambda c: [c['r'][0]], 1500, 30000),
    Test('notation_grid', None, check_notation, odd_roll, None, cases=pairs),
    Test('notation_wide', None, check_notation, odd_roll, None, cases=wide),
    Test('notation_large', None, check_large, lambda c: True, None, cases=large),
    Test('bool_labels', None, check_bool, None, None, cases=bools),
]
