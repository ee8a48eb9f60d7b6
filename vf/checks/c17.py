"""C17 rejection of malformed text and safety of the generated code."""
import ast
import builtins
import logging
from functools import partial
from hypothesis import strategies as st

from .. import lang, textgen
from ..core import Test, require, Skip, Violation
from ..langsut import fast_then_public, pe
from ..load import D

logging.disable(logging.CRITICAL)
RULE = ('source texts: grammar-generated programs with hostile labels, comments and names; the same programs with tokens or characters inserted, deleted, swapped, duplicated or truncated; token and character soup; all short token strings over a small vocabulary; '
        'oracle: an independent recursive-descent parser decides accept/reject, and the Python of every accepted text is walked (node classes, called and loaded names, attributes); non-trivial = at least 4 tokens or a character outside the language')
ASSUMPTIONS = ['left open: empty string literals, adjacent string literals, functions without a name, nesting deeper than the Python parser allows']

INT, LOC, LIBC = 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_FUNC_LIB_CONFLICT'
FLAGS = [{}, {LOC: True}, {INT: True}, {LIBC: True}, {INT: True, LOC: True, LIBC: True}, None]

STATEMENTS = (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.For, ast.While, ast.If, ast.FunctionDef, ast.Return, ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.Delete)
EXPRS = (ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.IfExp, ast.Call, ast.Name, ast.Constant, ast.JoinedStr, ast.FormattedValue, ast.List, ast.Tuple, ast.Dict, ast.Subscript, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.Starred, ast.Slice, ast.Set)
OTHER = (ast.Module, ast.arguments, ast.arg, ast.keyword, ast.operator, ast.unaryop, ast.boolop, ast.cmpop, ast.expr_context, ast.comprehension)
LIB = {'get_seq', 'roll', 'myrange', 'anydice_casting', 'max_func_depth', 'settings_set', 'output', 'len', 'Seq', 'RV', 'T_N', 'T_S', 'T_D', 'myMatmul', 'myLen', 'myInvert', 'myAnd', 'myOr', 'dict',
       'absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'}
LIB |= {n for n in D.__all__ if str(getattr(getattr(D, n), '__module__', '')).startswith('dice_calc')}
try:  # helpers of the repository itself that its generated code may call
    LIB |= {n for n, v in pe._get_lib().items() if n.isidentifier() and str(getattr(v, '__module__', '')).startswith('dice_calc')}
except Exception:  # noqa: an internal function, which may change
    pass
FORBIDDEN = set(dir(builtins)) | {'math', 'itertools', 'random', 'functools', '__builtins__', '__name__'}  # reachable in the namespace of the generated code, but no dice work


def check_code(code, text):
    try:
        tree = ast.parse(code)
        compile(code, '<c>', 'exec')
    except (SyntaxError, ValueError) as e:
        raise Violation('the generated code is not valid Python: %s\n%s' % (e, code))
    except RecursionError:
        raise Skip('nested too deeply')
    funcs = {x.name for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)}
    bound = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(tree) if isinstance(x, ast.arg)}
    ups = {t for k, t in lang.lex(text) if k == 'up'} | {p[1] for k, t in lang.lex(text) if k == 'str' for p in lang.split_label(t[1:-1]) if isinstance(p, list)}
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute):
            require(isinstance(x.value, ast.Name) and x.value.id == 'vars' and x.attr == 'copy', 'the generated code accesses attribute %r:\n%s', x.attr, code)
            continue
        require(isinstance(x, STATEMENTS + EXPRS + OTHER), 'the generated code contains %s:\n%s', type(x).__name__, code)
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute):
                continue
            require(isinstance(f, ast.Name) and (f.id in LIB or f.id in funcs), 'the generated code calls %s, which is neither a library function nor one of the program:\n%s', ast.dump(f)[:80], code)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            require(x.id in LIB or x.id in funcs or x.id in bound or x.id in ups or x.id not in FORBIDDEN, 'the generated code reads the name %r:\n%s', x.id, code)
        if isinstance(x, ast.FormattedValue):
            require(isinstance(x.value, (ast.Name, ast.Subscript)) and x.conversion == -1 and x.format_spec is None, 'a label evaluates code:\n%s', code)


@partial(fast_then_public, every=40)
def check(c, comp):
    text, fl = c['text'], FLAGS[c['fl']]
    try:
        exp = lang.accepts(text)
    except lang.Unclear:
        exp = None
    except RecursionError:
        raise Skip('nested too deeply')
    try:
        code = comp(text, fl)
    except RecursionError:
        raise Skip('nested too deeply')
    except Exception as e:  # noqa: any error counts as a rejection
        require(exp is not True, 'valid program rejected (%s: %s): %r', type(e).__name__, str(e)[:200], text)
        return
    require(exp is not False, 'malformed program accepted: %r compiled to\n%s', text, code)
    require(isinstance(code, str), 'compiled to %r', code)
    check_code(code, text)


def nt(c):
    try:
        return len(lang.lex(c['text'])) >= 4
    except lang.BadSource:
        return True


def lab(c):
    try:
        return ['accept' if lang.accepts(c['text']) else 'reject', 'fl%d' % c['fl']]
    except lang.Unclear:
        return ['open']


def reduce(c):
    t = c['text']
    if c['fl']:
        yield dict(c, fl=0)
    n = max(1, len(t) // 2)
    while True:
        for i in range(0, len(t), n):
            yield dict(c, text=t[:i] + t[i + n:])
        if n == 1:
            break
        n //= 2


def src(fn):
    def f():
        return st.integers(0, 2 ** 48).map(lambda s: {'text': fn(s), 'fl': s % 11 % 6, 'seed': s // 11 % 80})
    return f


def small(tier):
    for i, t in enumerate(textgen.small_texts(tier)):
        yield {'text': t, 'fl': i % 5 % 2, 'seed': i % 97}


OPERATORS = ['+', '-', '*', '/', '^', '=', '!=', '<', '<=', '>', '>=', '&', '|', '@', 'd', '..', ':', '#', '!', ',', '[', ']', '(', ')', '{', '}', 'to', 'named', 'if', 'over', '"a"']


def pairs(tier):
    """Every two, and many three, operators or marks in a row."""
    for a in OPERATORS:
        for b in OPERATORS:
            for sp in ('', ' '):
                for i, t in enumerate(('output 1 %s 2', 'output {1,2}%s{3}', 'output {1%s2}', 'A: 1%sB', 'output d6%s2d4', 'loop P over 1%s2 { }', 'if 1%s2 { }', 'output [f 1%s2]', 'output 1 %s')):
                    yield {'text': t % (a + sp + b), 'fl': i % 2, 'seed': 1}
    for a in OPERATORS[:19]:
        for b in OPERATORS[:19]:
            for c in OPERATORS[:19] if tier == 'thorough' else ('=', '<', '-', '!', 'd'):
                yield {'text': 'output 1%s%s%s2' % (a, b, c), 'fl': 0, 'seed': 1}


def special(tier):
    base = ['output 1 named "%s"', 'A: 3 output A named "[A]%s[A]"', 'A: 3 output A named "x" \\%s\\', 'set "position order" to "%s" output 1']
    for b in base:
        for h in textgen.HOSTILE + [a + b2 for a in textgen.HOSTILE[:30] for b2 in textgen.HOSTILE[:30]] + [chr(i) for i in range(256)] + [chr(i) for i in (0x2028, 0x2029, 0xfeff, 0xd800, 0xdfff, 0x1f600, 0xfffe, 0x202e)]:
            t = b.replace('%s', h)
            yield {'text': t, 'fl': len(t) % 2, 'seed': len(t) * 7 + ord(h[0])}
    for i in list(range(256)) + [0x2028, 0x3000, 0xfeff, 0xff11, 0xff21, 0xd800, 0x1f3b2]:
        for b in ('output 1%s', '%soutput 1', 'output%s 1', 'output 1%s2', 'output A%sB', 'output d%s6', 'A: 1 output {1%s2}', '\\%s output 1', 'output 1 \\x%s'):
            yield {'text': b.replace('%s', chr(i)), 'fl': i % 2, 'seed': i}
    for ty in ('n', 's', 'd', 'x', 'a', 'number', 'nn', 'output', 'to', 'die', 'N', '1', '"n"', ''):
        for b in ('function: f A:%s { result: 1 } output [f 1]', 'function: A:%s { } output 1', 'function: f A:n B:%s C { } output [f 1 2 3]'):
            yield {'text': b % ty, 'fl': 0, 'seed': 1}
    for w in textgen.FWORDS + list(lang.RESERVED):
        for b in ('function: %s { result: 1 } output [%s]', 'output [%s]', 'output [%s 1]', 'function: %s A { result: A } output [%s 2]', 'function: A %s { result: A } output [3 %s]', '%s', '%s: 1 output 1', 'output %s', 'output 1 %s'):
            for fl in (0, 1, 3):
                yield {'text': b.replace('%s', w), 'fl': fl, 'seed': 1}


TESTS = [
    Test('valid', src(textgen.valid_text), check, nt, lab, 5000, 100000, reduce=reduce),
    Test('mutated', src(textgen.mutated_text), check, nt, lab, 12000, 300000, reduce=reduce),
    Test('soup', src(textgen.soup_text), check, nt, lab, 6000, 100000, reduce=reduce),
    Test('large', src(textgen.large_text), check, nt, lab, 500, 20000, reduce=reduce),
    Test('faulty', src(textgen.faulty_text), check, nt, lab, 2500, 60000, reduce=reduce),
    Test('silent', src(textgen.silent_text), check, nt, lab, 600, 10000, reduce=reduce),
    Test('small', None, check, nt, lab, cases=small, reduce=reduce),
    Test('pairs', None, check, nt, lab, cases=pairs, reduce=reduce),
    Test('special', None, check, nt, lab, cases=special, reduce=reduce),
]
