"""Source texts for the front end: valid programs with hostile contents, mutated programs, token soup, character soup."""
import random

from . import lang, langgen

HOSTILE = ['{', '}', '{{', '}}', '{0}', '{A}', '{A!r}', '{__import__("os")}', "{__import__('os').system('true')}", '\\', '\\n', '\\"', "\\'", "'", "'''", '#', '%s', '%(A)s', '$A', '[', ']', '[]', '[a]', '[A', 'A]', '[[A]]', '[A][B]', '[A B]', '[1]', '[ A]',
           '\t', '\r', '\x00', '\x0b', '\x0c', '\x1b', '\x85', '\u2028', 'é', '\u200b', '\U0001f3b2', '\ud800', '\\x41', '\\N{DASH}', '\\u0041', ' ', '  ', 'output 1', '; import os', '\\\\', '"""'.replace('"', "'"), ')', '(', '+', '")'.replace('"', "'"), '{A:>10}', '{vars}', '{{A}}', '[A]}', '{[A]}',
           '{[A]', '\\[A]', '[A]\\', "'+str(1)+'", '{1+1}', 'f"'.replace('"', "'"), '__class__', '@', '\ufeff', '𝐀', '[_]', '[A_B]', '.', '\\{A\\}', '[A.B]', '[A.__class__]', '[A[0]]', '[A()]', '[A,B]', '[A+B]', '[A:B]', '[A!r]', '[A1]', '[a.A]', '[A-B]', '[A|B]', '[A=B]']
NAMES = ['A', 'B', 'X', '_', '__', 'T_N', 'T_S', 'T_D', 'RV', 'VARS', 'A_B', '_A', 'TRUE', 'D', 'N', 'S', '__A__', 'ABCDEFGHIJ', 'X_X', 'E', 'O', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'THE_NUMBER_OF_DICE_THAT_ARE_ROLLED']
FWORDS = ['f', 'd', 'output', 'loop', 'if', 'else', 'result', 'set', 'to', 'named', 'over', 'function', 'print', 'exec', 'eval', 'import', 'class', 'def', 'return', 'lambda', 'vars', 'roll', 'copy', 'os', 'len', 'list', 'n', 's', 'x', 'zzz', 'math', 'globals', 'open', 'highest', 'of', 'and',
          'absolute', 'anydice', 'casting', 'myrange', 'none', 'true', 'f', 'is', 'pass', 'del', 'getattr', 'dict', 'range', 'random', 'not', 'in', 'or', 'while']
OPS = ['+', '-', '*', '/', '^', ':', '<', '>', '=', '!=', '@', '#', '|', '&', '!', '..', '.', ',', '(', ')', '{', '}', '[', ']', 'd']
ILLEGAL = ['?', ';', '$', '%', '`', '~', "'", '\r', '\x0b', '\x0c', '\x00', 'é', 'ß', 'Ａ', '１', '²', '\u00a0', '\u2028', '\u200b', '\ufeff', '\U0001f3b2', '\ud800', '"', '\\', 'Ω', 'ａ', '٣']


def hostile_label(r):
    s = ''.join(r.choice(HOSTILE) for _ in range(r.randint(1, 4))) if r.random() < .7 else ''.join(chr(r.choice([r.randint(32, 126), r.randint(0, 0x17f), r.randint(0x2000, 0x2fff)])) for _ in range(r.randint(1, 8)))
    s = s.replace('"', '').replace('\n', '')
    return lang.split_label(s or 'x')


class Build:
    """Grammar-directed: any program of the language, typed or not (it is only compiled)."""

    def __init__(self, r):
        self.r = r
        self.fns = []

    def name(self):
        return self.r.choice(NAMES) if self.r.random() < .8 else ''.join(self.r.choice('ABXYZ_') for _ in range(self.r.randint(1, 5)))

    def expr(self, d):
        r = self.r
        k = r.randint(0, 13) if d > 0 else r.randint(0, 3)
        if k <= 1:
            return ['n', r.choice(['0', '1', '6', '007', '20', '00', '123'])]
        if k == 2:
            return ['v', self.name()]
        if k == 3:
            return ['dec', r.choice(['0', '1', '01']), r.choice(['5', '25', '0', '00'])]
        if k <= 6:
            return ['bin', r.choice(langgen.BINOPS), self.expr(d - 1), self.expr(d - 1)]
        if k == 7:
            return ['un', r.choice('+-!#'), self.expr(d - 1)]
        if k == 8:
            return ['d', self.expr(d - 1), self.expr(d - 1)]
        if k == 9:
            return ['d1', self.expr(d - 1)]
        if k == 10:
            return ['p', self.expr(d - 1)]
        if k == 11:
            return ['seq', [['..', self.expr(d - 1), self.expr(d - 1)] if r.random() < .3 else self.expr(d - 1) for _ in range(r.randint(0, 3))]]
        if k == 12:
            if self.fns and r.random() < .7:
                return ['call', [p if isinstance(p, str) else self.expr(d - 1) for p in r.choice(self.fns)]]
            return ['call', [p if isinstance(p, str) else self.expr(d - 1) for p in r.choice(langgen.LIBCALLS)]]
        return ['str', hostile_label(r)]

    def body(self, d, infn, lo=0):
        return [self.stmt(d, infn) for _ in range(self.r.randint(lo, 3))]

    def stmt(self, d, infn):
        r = self.r
        k = r.randint(0, 9 if d > 0 else 4)
        if k <= 1:
            return ['asg', self.name(), self.expr(2)]
        if k <= 3:
            return ['out', self.expr(2), hostile_label(r) if r.random() < .6 else None]
        if k == 4:
            if infn:
                return ['res', self.expr(2)]
            return ['set', hostile_label(r), self.expr(1)]
        if k == 5:
            return ['loop', self.name(), self.expr(1), self.body(d - 1, infn)]
        if k <= 7:
            return ['if', [[self.expr(1), self.body(d - 1, infn)] for _ in range(r.choice([1, 1, 2, 3]))], self.body(d - 1, infn) if r.random() < .5 else None]
        parts = [r.choice(FWORDS) if r.random() < .65 else ['par', self.name(), r.choice([None, 'n', 's', 'd'])] for _ in range(r.randint(1, 4))]
        if 'd' not in parts:
            self.fns.append(parts)
        return ['fn', parts, self.body(d - 1, True)]

    def program(self):
        p = self.body(2, False, 1)
        p.insert(self.r.randint(0, len(p)), ['out', self.expr(2), hostile_label(self.r) if self.r.random() < .6 else None])
        return p


def valid_text(seed):
    r = random.Random(seed)
    for _ in range(50):
        p = Build(r).program()
        if len(lang.prog_toks(p)) < 260:
            return lang.layout(lang.prog_toks(p), r, r.choice(['tight', 'plain', 'wild']))
    return 'output 1'


def drop_outputs(prog, r):
    """Without its output statements (rejected unless one remains in a function or block)."""
    out = []
    for s in prog:
        if s[0] == 'out':
            continue
        if s[0] == 'loop':
            s = s[:3] + [drop_outputs(s[3], r)]
        elif s[0] == 'if':
            s = ['if', [[c, drop_outputs(b, r)] for c, b in s[1]], None if s[2] is None else drop_outputs(s[2], r)]
        elif s[0] == 'fn':
            s = s[:2] + [drop_outputs(s[2], r)]
        out.append(s)
    return out


def large_text(seed):
    r = random.Random(seed)
    p = langgen.big_program(r.getrandbits(40))
    k = r.random()
    if k < .15:
        p = drop_outputs(p, r)
    toks = lang.prog_toks(p)
    if k > .6:
        toks = mutate(r, toks)
    return lang.layout_any(toks, r, r.choice(['tight', 'plain', 'wild']))


def silent_text(seed):
    """A program of ordinary size without any output."""
    r = random.Random(seed)
    p = drop_outputs(Build(r).program() + Build(r).program(), r)
    return lang.layout(lang.prog_toks(p), r, r.choice(['tight', 'plain', 'wild'])) if p else ''


def faulty_text(seed):
    """A program of ordinary size or larger with exactly one fault at any place."""
    r = random.Random(seed)
    b = Build(r)
    p = b.program()
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        p += b.program()
    for _ in range(r.choice([0, 3, 8])):
        p.insert(r.randint(0, len(p)), ['out', b.expr(1), None])
    k = r.randint(0, 6)
    if k <= 2:  # a statement that may not stand there
        bad = r.choice([['res', b.expr(1)], ['res', ['n', '1']], ['asg', 'A', ['call', ['zzz', b.expr(0)]]], ['out', ['call', ['zzz']], None], ['asg', 'A', ['call', [b.expr(0), 'zzz', 'f', b.expr(0)]]]])
        if bad[0] == 'res' and r.random() < .5:
            bad = r.choice([['loop', 'A', b.expr(1), [bad]], ['if', [[b.expr(0), [bad]]], None], ['if', [[b.expr(0), []]], [bad]], ['if', [[b.expr(0), []], [b.expr(0), [bad]]], []]])
        blocks = [p]

        def find(b_):
            for s in b_:
                if s[0] == 'loop':
                    blocks.append(s[3])
                    find(s[3])
                elif s[0] == 'if':
                    for _, x in s[1]:
                        blocks.append(x)
                        find(x)
        find(p)
        t = r.choice(blocks)
        t.insert(r.randint(0, len(t)), bad)
        toks = lang.prog_toks(p)
    else:
        toks = list(lang.prog_toks(p))
        i = r.randrange(len(toks) + 1)
        if k == 3:
            toks.insert(i, r.choice('{}[]()'))
        elif k == 4:
            at = [j for j, t in enumerate(toks) if t in '{}[]():']
            if at:
                del toks[r.choice(at)]
        elif k == 5:
            toks.insert(i, r.choice(ILLEGAL[:-1]))
        else:
            toks = mutate(r, toks)
    return lang.layout_any(toks, r, r.choice(['tight', 'plain', 'wild']))


def some_token(r):
    k = r.random()
    if k < .45:
        return r.choice(OPS)
    if k < .6:
        return r.choice(lang.RESERVED)
    if k < .72:
        return r.choice(NAMES[:6])
    if k < .82:
        return r.choice(['0', '1', '6', '12'])
    if k < .92:
        return r.choice(FWORDS)
    return '"%s"' % lang.label_text(hostile_label(r))


def mutate(r, toks):
    toks = list(toks)
    for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
        i = r.randrange(len(toks)) if toks else 0
        k = r.randint(0, 8)
        if not toks or k <= 1:
            toks.insert(i, some_token(r))
        elif k <= 3:
            del toks[i]
        elif k == 4:
            toks[i] = some_token(r)
        elif k == 5:
            toks.insert(i, toks[i])
        elif k == 6:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 7:
            j = min(len(toks), i + r.randint(1, 6))
            del toks[i:j]
        else:
            j = min(len(toks), i + r.randint(1, 6))
            toks[i:i] = toks[i:j]
    return toks


def mutated_text(seed):
    r = random.Random(seed)
    text = valid_text(r.randint(0, 10 ** 9))
    if r.random() < .75:
        toks = mutate(r, [t for _, t in lang.lex(text)])
        return lang.layout_any(toks, r, r.choice(['tight', 'plain', 'wild']))
    chars = list(text)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(chars) + 1)
        k = r.randint(0, 4)
        if k == 0 and i < len(chars):
            del chars[i]
        elif k <= 2:
            chars.insert(i, r.choice(ILLEGAL))
        elif k == 3:
            chars.insert(i, r.choice('"\\{}[]().:,#!d \n'))
        else:
            chars = chars[:i]
    return ''.join(chars)


def soup_text(seed):
    r = random.Random(seed)
    if r.random() < .6:
        toks = [some_token(r) for _ in range(r.randint(1, 14))]
        if r.random() < .7:
            toks = ['output'] + toks
        if r.random() < .3:
            toks = toks + ['output', '1']
        return lang.layout_any(toks, r, r.choice(['tight', 'plain', 'wild']))
    s = ''.join(r.choice(['output ', '1', 'd', '6', 'A', ':', '[', ']', '{', '}', '"', '\\', ' ', '\n', '+', '-', '.', '..', '(', ')', 'named ', 'x', '!', '=', '<', '@', '#', ',', 'é', '?', "'"]) for _ in range(r.randint(1, 16)))
    return 'output 1 ' + s if r.random() < .5 else s


def small_texts(tier):
    """Every program of up to three tokens after/around 'output', from a small vocabulary."""
    import itertools
    voc = ['1', 'A', 'd', '+', '-', '!', '#', '@', '=', '<', '{', '}', '(', ')', '[', ']', ',', '.', '..', ':', 'f', 'named', '"x"', 'output', 'result', 'if', 'else', 'loop', 'over', 'set', 'to', 'function', '?']
    for n in range(0, 3 if tier == 'quick' else 4):
        for ts in itertools.product(voc, repeat=n):
            yield 'output ' + ' '.join(ts)
            yield 'output 1 ' + ' '.join(ts)
    short = ['1', 'A', 'd', '+', '!', '=', '{', '}', '(', ')', '[', ']', '..', ',', '.']
    for ts in itertools.product(short, repeat=4 if tier == 'quick' else 5):
        if tier == 'quick' and hash_(ts) % 4:
            continue
        yield 'output ' + ' '.join(ts)


def hash_(ts):
    h = 7
    for t in ts:
        for c in t:
            h = (h * 131 + ord(c)) % 1000003
    return h
