"""Compiling and executing AnyDice text with the code under test."""
from .core import require, Violation, Skip, HarnessError
from .load import D
from . import sut, ref
from dice_calc.parser import parse_and_exec as pe  # noqa

_KEEP = {}


def compile_(text, flags=None):
    """The public entry point."""
    return pe.compile_anydice(text, dict(flags) if flags is not None else None)


def compile_steps(text, flags=None):
    """The documented individual steps with a parser that is built once (fast); same acceptance rule as compile_anydice."""
    if not text.strip():
        raise AssertionError('Empty input')
    if 'ly' not in _KEEP:
        _KEEP['ly'] = pe.build_lex_yacc()
    lexer, yaccer = _KEEP['ly']
    lexer.LEX_ILLEGAL_CHARS, lexer.YACC_ILLEGALs = [], []
    lexer.begin('INITIAL')
    lexer.lineno = 1
    try:
        pe.do_lex(text, lexer)
        if lexer.LEX_ILLEGAL_CHARS:
            raise SyntaxError('illegal characters %r' % lexer.LEX_ILLEGAL_CHARS[:3])
        tree = pe.do_yacc(text, lexer, yaccer)
        if lexer.YACC_ILLEGALs or tree is None:
            raise SyntaxError('illegal tokens %r' % lexer.YACC_ILLEGALs[:3])
        return pe.do_resolve(tree, flags=dict(flags) if flags is not None else None)
    finally:
        lexer.begin('INITIAL')


PROBES = ['output 1', 'X: 3 output [absolute X]d6 named "a[X]"', 'function: f A:n { result: A+1 } loop Q over {1..3} { output [f Q] }', 'output', 'output 1 ?', 'output "', 'result: 1', 'output [nope]', 'output 1 named "x', '{ output 1', 'X: 2', 'output é']


def fast_ok():
    """Does the step-by-step path exist and agree with the public entry point on a few programs?"""
    if 'ok' not in _KEEP:
        def res(comp, t, fl):
            try:
                return comp(t, fl)
            except Exception:  # noqa
                return None
        try:
            _KEEP['ok'] = all(res(compile_steps, t, fl) == res(compile_, t, fl) for t in PROBES for fl in (None,))
        except Exception:  # noqa
            _KEEP['ok'] = False
    return _KEEP['ok']


def fast_then_public(check, every=4):
    """Checks use the prebuilt parser for speed; whatever looks wrong is decided by the public entry point alone."""
    def run(c):
        if c.get('seed', 0) % every and fast_ok():
            try:
                return check(c, compile_steps)
            except (Skip, HarnessError):
                raise
            except Exception:  # noqa
                D.settings_reset()
        return check(c, compile_)
    return run


def execute(code, how='unsafe', given=None):
    """[(value, name)]"""
    outs = (pe.unsafe_exec if how == 'unsafe' else pe.safe_exec)(code, **({} if given is None else {'global_vars': given}))
    res = []
    for args, kw in outs:
        require(len(args) == 1 and set(kw) <= {'named'}, 'output called with %r %r', args, kw)
        res.append((args[0], kw.get('named')))
    return res


def same_outputs(got, exp, what='program', names=True):
    require(len(got) == len(exp), '%s: %d outputs, expected %d', what, len(got), len(exp))
    for i, ((v, n), (ev, en)) in enumerate(zip(got, exp)):
        same_out(v, ev, '%s output %d' % (what, i + 1))
        if names and (en is not None or n is None):
            require(n == en, '%s output %d is named %r, expected %r', what, i + 1, n, en)


def same_out(v, ev, what):
    if isinstance(v, range):
        v = sut.Seq(v)
    sut.same_value(v, ev, what)


def snapshot(v):
    """Comparable summary of an output value."""
    if isinstance(v, sut.RV):
        return ['die', [repr(x) for x in v.vals], list(v.probs), len(v), str(v)]
    if isinstance(v, sut.Seq):
        return ['seq', [repr(x) for x in v]]
    if isinstance(v, sut.BlankRV):
        return ['blank', len(v)]
    return [type(v).__name__, repr(v)]


def outcome(text, flags=None, how='unsafe', comp=compile_steps):
    """('ok', outputs) | ('reject', msg) | ('fail', exception name, outputs unavailable)"""
    try:
        code = comp(text, flags)
    except Exception as e:  # noqa
        return ('reject', '%s: %s' % (type(e).__name__, str(e)[:200]))
    D.settings_reset()
    try:
        outs = execute(code, how)
    except Violation:
        raise
    except Exception as e:  # noqa
        return ('fail', '%s: %s' % (type(e).__name__, str(e)[:200]))
    finally:
        D.settings_reset()
    return ('ok', [(snapshot(v), n) for v, n in outs])


fast_ok()  # decided once, before the worker processes are forked
