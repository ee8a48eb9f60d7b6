"""AnyDice source text: an independent lexer and recursive-descent parser, and a printer (AST -> tokens -> text with free layout).

Expressions:  ['n', digits]  ['dec', a, b]  ['v', NAME]  ['seq', [elem...]] with elem an expression or ['..', a, b]
              ['bin', op, a, b]  ['un', op, a] (op + - ! #)  ['d', a, b]  ['d1', b]  ['call', [word | expr ...]]  ['p', e]  ['str', [text | ['var', NAME] ...]]
Statements:   ['out', e, label|None]  ['set', label, e]  ['asg', NAME, e]  ['loop', NAME, e, body]  ['if', [[cond, body]...], else|None]
              ['fn', [word | ['par', NAME, type|None] ...], body]  ['res', e]
"""
import re

RESERVED = ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')
CMPS = ('=', '!=', '<', '>', '<=', '>=')
PREC = {'|': 1, '&': 2, '=': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '+': 4, '-': 4, '*': 5, '/': 5, '^': 6, '@': 7}


class BadSource(Exception):
    """Not in the language."""


class Unclear(Exception):
    """Deliberately left open by the property."""


# ------------------------------------------------------------------ lexer
_TOK = re.compile(r'(?P<ws>[ \t\n]+)|(?P<com>\\[^\\]*\\)|(?P<num>[0-9]+)|(?P<low>[a-z]+)|(?P<up>[A-Z_]+)|(?P<str>"[^"\n]*")|(?P<op>!=|\.\.|[-+*/^:<>=@#|&!.,(){}\[\]])')


def lex(text):
    """[(kind, text)] with kind in num low up str op; raises BadSource."""
    out, i = [], 0
    while i < len(text):
        m = _TOK.match(text, i)
        if not m:
            raise BadSource('illegal character %r' % text[i])
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'com'):
            continue
        out.append((k, m.group()))
    return out


def split_label(body):
    """Parts of the text between the quotes: plain text and ['var', NAME]."""
    parts, i, buf = [], 0, ''
    for m in re.finditer(r'\[([A-Z_]+)\]', body):
        buf += body[i:m.start()]
        if buf:
            parts.append(buf)
        buf = ''
        parts.append(['var', m.group(1)])
        i = m.end()
    buf += body[i:]
    if buf:
        parts.append(buf)
    return parts


# ------------------------------------------------------------------ parser
class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0
        for (k1, s1), (k2, s2) in zip(self.t, self.t[1:]):
            if k1 == 'str' and k2 == 'str':
                raise Unclear('adjacent strings')
        if any(k == 'str' and s == '""' for k, s in self.t):
            raise Unclear('empty string')

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ('eof', '')

    def is_(self, s):
        k, v = self.peek()
        return v == s and k != 'str'

    def take(self, s):
        if not self.is_(s):
            raise BadSource('expected %r at token %d, got %r' % (s, self.i, self.peek()))
        self.i += 1

    def kind(self, k):
        if self.peek()[0] != k:
            raise BadSource('expected %s at token %d, got %r' % (k, self.i, self.peek()))
        self.i += 1
        return self.t[self.i - 1][1]

    def program(self):
        r = self.block(None)
        if self.peek()[0] != 'eof':
            raise BadSource('unexpected %r' % (self.peek(),))
        return r

    def block(self, end):
        out = []
        while self.peek()[0] != 'eof' and not (end and self.is_(end)):
            out.append(self.stmt())
        return out

    def braces(self):
        self.take('{')
        b = self.block('}')
        self.take('}')
        return b

    def label(self):
        return split_label(self.kind('str')[1:-1])

    def stmt(self):
        k, v = self.peek()
        if k == 'up':
            self.i += 1
            self.take(':')
            return ['asg', v, self.expr()]
        if k != 'low':
            raise BadSource('unexpected %r' % (self.peek(),))
        self.i += 1
        if v == 'output':
            e = self.expr()
            if self.is_('named'):
                self.i += 1
                return ['out', e, self.label()]
            return ['out', e, None]
        if v == 'set':
            l = self.label()
            self.take('to')
            return ['set', l, self.expr()]
        if v == 'result':
            self.take(':')
            return ['res', self.expr()]
        if v == 'loop':
            n = self.kind('up')
            self.take('over')
            e = self.expr()
            return ['loop', n, e, self.braces()]
        if v == 'if':
            arms = [[self.expr(), self.braces()]]
            while self.is_('else'):
                self.i += 1
                if self.is_('if'):
                    self.i += 1
                    arms.append([self.expr(), self.braces()])
                else:
                    return ['if', arms, self.braces()]
            return ['if', arms, None]
        if v == 'function':
            self.take(':')
            parts = []
            while not self.is_('{'):
                k2, v2 = self.peek()
                if k2 == 'low':
                    parts.append(v2)
                    self.i += 1
                elif k2 == 'up':
                    self.i += 1
                    ty = None
                    if self.is_(':'):
                        self.i += 1
                        ty = self.kind('low')
                        if ty in RESERVED:
                            raise BadSource('parameter type %r' % ty)
                    parts.append(['par', v2, ty])
                else:
                    raise BadSource('unexpected %r in a function name' % (self.peek(),))
            if not parts:
                raise Unclear('function without a name')
            return ['fn', parts, self.braces()]
        raise BadSource('unexpected word %r' % v)

    def expr(self, level=1):
        left = self.primary()
        while True:
            op = self.binop()
            if op is None or PREC[op] < level:
                return left
            self.i += 2 if op in ('<=', '>=') else 1
            left = ['bin', op, left, self.expr(PREC[op] + 1)]

    def binop(self):
        k, v = self.peek()
        if k != 'op':
            return None
        if v in '<>' and self.peek(1) == ('op', '='):
            return v + '='
        return v if v in PREC else None

    def primary(self):
        """d expressions and terms."""
        if self.is_('d'):
            self.i += 1
            return ['d1', self.term()]
        a = self.term()
        if self.is_('d'):
            self.i += 1
            return ['d', a, self.term()]
        return a

    def term(self):
        k, v = self.peek()
        self.i += 1
        if k == 'op' and v in '+-!#':
            return ['un', v, self.term()]
        if k == 'num':
            if self.peek() == ('op', '.'):
                self.i += 1
                return ['dec', v, self.kind('num')]
            return ['n', v]
        if k == 'up':
            return ['v', v]
        if k == 'str':
            return ['str', split_label(v[1:-1])]
        if (k, v) == ('op', '('):
            e = self.expr()
            self.take(')')
            return ['p', e]
        if (k, v) == ('op', '{'):
            elems = []
            if not self.is_('}'):
                while True:
                    e = self.expr()
                    if self.is_('..'):
                        self.i += 1
                        e = ['..', e, self.expr()]
                    elems.append(e)
                    if not self.is_(','):
                        break
                    self.i += 1
            self.take('}')
            return ['seq', elems]
        if (k, v) == ('op', '['):
            parts = []
            while not self.is_(']'):
                k2, v2 = self.peek()
                if k2 == 'low' and v2 != 'd':
                    parts.append(v2)
                    self.i += 1
                else:
                    parts.append(self.expr())
            if not parts:
                raise BadSource('empty call')
            self.take(']')
            return ['call', parts]
        raise BadSource('unexpected %r' % ((k, v),))


LIBRARY = ('absolute X', 'X contains X', 'count X in X', 'explode X', 'highest X of X', 'lowest X of X', 'middle X of X', 'highest of X and X', 'lowest of X and X', 'maximum of X', 'reverse X', 'sort X', 'true div X X')


def pattern(parts):
    return ' '.join(p if isinstance(p, str) else 'X' for p in parts)


def static_check(prog):
    """What must be rejected although it parses: unknown functions, no output, result outside a function, unknown parameter types."""
    defined, called, outs = set(LIBRARY), [], [0]

    def ex(e):
        if not isinstance(e, list):
            return
        if e and e[0] == 'call':
            called.append(pattern(e[1]))
            for p in e[1]:
                ex(p)
        elif e and e[0] == 'seq':
            for p in e[1]:
                ex(p)
        elif e and e[0] in ('bin',):
            ex(e[2]), ex(e[3])
        elif e and e[0] == 'un':
            ex(e[2])
        elif e and e[0] in ('d', '..'):
            ex(e[1]), ex(e[2])
        elif e and e[0] in ('d1', 'p'):
            ex(e[1])

    def st(body, infn):
        for s in body:
            k = s[0]
            if k == 'out':
                outs[0] += 1
                ex(s[1])
            elif k in ('set', 'asg'):
                ex(s[2])
            elif k == 'loop':
                ex(s[2])
                st(s[3], infn)
            elif k == 'if':
                for c, b in s[1]:
                    ex(c)
                    st(b, infn)
                if s[2] is not None:
                    st(s[2], infn)
            elif k == 'fn':
                for p in s[1]:
                    if isinstance(p, list) and p[2] not in (None, 'n', 's', 'd'):
                        raise BadSource('parameter type %r' % p[2])
                defined.add(pattern(s[1]))
                st(s[2], True)
            elif k == 'res':
                if not infn:
                    raise BadSource('result outside a function')
                ex(s[1])
    st(prog, False)
    for c in called:
        if c not in defined:
            raise BadSource('unknown function %r' % c)
    if not outs[0]:
        raise BadSource('no output')


def parse(text):
    return Parser(text).program()


def accepts(text):
    """True/False for text inside/outside the language; raises Unclear where the property leaves it open."""
    try:
        p = parse(text)
        static_check(p)
    except BadSource:
        return False
    return True


# ------------------------------------------------------------------ printer
def label_text(parts):
    return ''.join(p if isinstance(p, str) else '[' + p[1] + ']' for p in parts)


def paren(ts):
    return ['('] + ts + [')']


def level(e):
    if e[0] == 'bin':
        return PREC[e[1]]
    return 8 if e[0] in ('d', 'd1') else 9


def toks(e, lv=1):
    """Tokens of an expression in a position that accepts precedence level >= lv; parentheses only where needed."""
    if level(e) < lv:
        return paren(toks(e))
    k = e[0]
    if k == 'n':
        return [e[1]]
    if k == 'dec':
        return [e[1], '.', e[2]]
    if k == 'v':
        return [e[1]]
    if k == 'str':
        return ['"' + label_text(e[1]) + '"']
    if k == 'p':
        return paren(toks(e[1]))
    if k == 'seq':
        out = ['{']
        for i, x in enumerate(e[1]):
            if i:
                out.append(',')
            out += toks(x[1]) + ['..'] + toks(x[2]) if x[0] == '..' else toks(x)
        return out + ['}']
    if k == 'bin':
        p = PREC[e[1]]
        op = ['<', '='] if e[1] == '<=' else ['>', '='] if e[1] == '>=' else [e[1]]
        return toks(e[2], p) + op + toks(e[3], p + 1)
    if k == 'un':
        return [e[1]] + toks(e[2], 9)
    if k == 'd':
        return toks(e[1], 9) + ['d'] + toks(e[2], 9)
    if k == 'd1':
        return ['d'] + toks(e[1], 9)
    if k == 'call':
        out, prev_expr = ['['], False
        for x in e[1]:
            if isinstance(x, str):
                out.append(x)
                prev_expr = False
            else:
                t = toks(x)
                if prev_expr and t[0] in ('+', '-', 'd'):
                    t = paren(t)
                out += t
                prev_expr = True
        return out + [']']
    raise AssertionError(e)


def stmt_toks(s):
    k = s[0]
    if k == 'out':
        return ['output'] + toks(s[1]) + ([] if s[2] is None else ['named', '"' + label_text(s[2]) + '"'])
    if k == 'set':
        return ['set', '"' + label_text(s[1]) + '"', 'to'] + toks(s[2])
    if k == 'asg':
        return [s[1], ':'] + toks(s[2])
    if k == 'res':
        return ['result', ':'] + toks(s[1])
    if k == 'loop':
        return ['loop', s[1], 'over'] + toks(s[2]) + ['{'] + prog_toks(s[3]) + ['}']
    if k == 'if':
        out = []
        for i, (c, b) in enumerate(s[1]):
            out += (['else'] if i else []) + ['if'] + toks(c) + ['{'] + prog_toks(b) + ['}']
        if s[2] is not None:
            out += ['else', '{'] + prog_toks(s[2]) + ['}']
        return out
    if k == 'fn':
        out = ['function', ':']
        for p in s[1]:
            out += [p] if isinstance(p, str) else [p[1]] + ([] if p[2] is None else [':', p[2]])
        return out + ['{'] + prog_toks(s[2]) + ['}']
    raise AssertionError(s)


def prog_toks(body):
    out = []
    for s in body:
        out += stmt_toks(s)
    return out


def must_separate(a, b):
    try:
        return [t for _, t in lex(a + b)] != [a, b]
    except BadSource:
        return True


_NEEDS = {}


def layout_any(tokens, rnd=None, style='plain'):
    """layout() for token lists that may not lex back to themselves (mutated programs)."""
    return layout(tokens, rnd, style)


def layout(tokens, rnd=None, style='plain', newline_before=()):
    """Join tokens; rnd is a random.Random for style 'wild' (spaces, tabs, newlines, comments anywhere)."""
    out = []
    for i, t in enumerate(tokens):
        if i:
            p = tokens[i - 1]
            key = (p, t)
            if key not in _NEEDS:
                if len(_NEEDS) > 200000:
                    _NEEDS.clear()
                _NEEDS[key] = must_separate(p, t)
            need = _NEEDS[key]
            if style == 'tight':
                sep = ' ' if need else ''
            elif style == 'plain':
                sep = ' '
            else:
                sep = ''
                while True:
                    r = rnd.random()
                    if r < 0.45:
                        sep += rnd.choice([' ', ' ', ' ', '\t', '\n', '  ', '\n\n', ' \n ']) if r > .003 else rnd.choice(' \t\n') * rnd.choice([10, 40, 99, 300])
                    elif r < 0.52:
                        sep += rnd.choice(COMMENTS) if rnd.random() > .02 else long_comment(rnd)
                    elif not need or sep:
                        break
            out.append(sep)
        out.append(t)
    text = ''.join(out)
    if style == 'wild':
        if rnd.random() < 0.3:
            text = rnd.choice(COMMENTS + [long_comment(rnd), ' ', '\n', '\t']) + text
        if rnd.random() < 0.3:
            text += rnd.choice(COMMENTS + [' ', '\n', '\t'])
    return text


def long_comment(rnd):
    return '\\' + ''.join(rnd.choice(['word ', 'output 1 ', '\n', '"', '{', '] ', 'X: 3\n', 'é', '  ']) for _ in range(rnd.choice([20, 60, 150, 600, 3000]))) + '\\'


COMMENTS = ['\\c\\', '\\ a comment \\', '\\\\', '\\two\nlines\\', '\\ output 3 named "x" \\', '\\"\\', '\\ é { [ ( # ! \\', '\\ \' """ \\']


def source(prog, style='plain', seed=0):
    import random
    return layout(prog_toks(prog), random.Random(seed), style)
