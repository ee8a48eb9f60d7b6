"""C24 restricted vs direct execution; independence of executions."""
import random
from hypothesis import strategies as st

from .. import lang, langgen, langsut
from ..core import Test, Skip, require
from ..langsut import compile_, compile_steps, fast_ok, pe, snapshot
from ..load import D
from . import c16, c18, c22, c23

RULE = ('random programs (as in C16, C22, C23; also programs that fail) executed in the restricted environment and directly; and histories of programs that define, redefine and read variables and functions, executed in mixed environments; '
        'oracle: equality of outcomes between the environments, and equality with the execution of the same program alone in a fresh process state; non-trivial = at least 2 outputs (differential) or at least 3 executions with a shared name (histories)')
INT, LOC, LIBC, EXIST = c16.INT, c16.LOC, c16.LIBC, 'COMPILER_FLAG_FUNC_EXIST_CHECK'
MAP = {v: 'Z' * i + v.strip('_') + 'Q' for i, v in enumerate(['_', '__', '___', '_A'], 3)}


def run(code, how, given=None):
    D.settings_reset()
    try:
        outs = langsut.execute(code, how, given)
    except Exception as e:  # noqa
        return ['fails', type(e).__name__]
    finally:
        D.settings_reset()
    return ['ok', [[snapshot(v), n] for v, n in outs]]


def differential(c):
    text, flags = c['text'], c['flags']
    comp = compile_steps if c['seed'] % 4 and fast_ok() else compile_
    try:
        code = comp(text, flags)
    except Exception:  # noqa
        raise Skip('rejected')  # C17 decides acceptance
    a = run(code, 'unsafe')
    b = run(code, 'safe')
    require(a[0] == b[0], 'direct execution %s, restricted execution %s', a[:2] if a[0] == 'fails' else 'works', b[:2] if b[0] == 'fails' else 'works')
    if a[0] == 'fails':
        return
    require(len(a[1]) == len(b[1]), '%d outputs directly, %d restricted', len(a[1]), len(b[1]))
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        require(x == y, 'output %d is %r directly and %r restricted', i + 1, x, y)


KINDS = ['portable', 'free', 'names', 'labels', 'fail', 'portable', 'large']


def make(seed):
    r = random.Random(seed)
    kind = KINDS[seed % len(KINDS)]
    fl = {f: True for f in (INT, LOC, LIBC) if r.random() < .5}
    if kind in ('portable', 'free'):
        prog = langgen.random_program(seed, kind, bool(fl.get(INT)))
    elif kind == 'names':
        prog = c22.program(seed)
    elif kind == 'labels':
        prog = c23.program(seed)
    elif kind == 'large':
        fl[INT] = True
        prog = langgen.big_program(seed // 7)
    else:
        prog = langgen.random_program(seed, 'portable', bool(fl.get(INT)))
    names = [v for v in c18.var_names(prog) if v.startswith('_')]
    ren = {v: 'Z' * (i + 3) + 'Q' for i, v in enumerate(names)}
    for i, v in enumerate(sorted(set(c18.var_names(prog)) - set(names))):
        if r.random() < .15:  # long names
            ren[v] = 'Q%s_%s_OF_THE_CHARACTER' % ('ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i % 26] * (1 + i // 26), v)
    prog = c18.rename(prog, ren, {})
    # only programs whose cost is bounded by the model
    prog = c16.covered(prog, bool(fl.get(INT)), 'copy' if fl.get(LOC) else 'python', kind == 'large')[0]
    if kind == 'fail':
        bad = r.choice(['1/0', 'UNSET', '{1..d6}', '[f]', 'd6@2', '[g 1/0]', '{UNSET}'])
        prog.insert(r.randint(0, len(prog)), ['out', lang.parse('output ' + bad)[0][1], None])
        if r.random() < .7:
            fl[EXIST] = False
    if not any(s[0] == 'out' for s in c16.walk(prog) if s and isinstance(s[0], str)):
        prog = prog + [['out', ['n', '1'], None]]
    if kind == 'large' and r.random() < .25:  # many lines
        for i in range(r.choice([60, 150, 300, 600])):
            prog.append(['out', ['n', str(i)], None] if i % 3 else ['asg', 'K', ['n', str(i)]])
        prog.append(['out', ['n', '77'], None])
    return {'text': lang.source(prog, ['plain', 'tight', 'wild'][seed % 3], seed // 3 % 1000), 'flags': fl, 'seed': seed % 1000, 'kind': kind}


# ------------------------------------------------------------------ histories
NAMES = ['A', 'B', 'X', 'OUT', 'STRENGTH_BONUS_OF_THE_WIZARD', 'RV']
FUNS = ['f', 'g X', 'absolute X', 'X contains X', 'roll', 'output X', 'explode X', 'sort X', 'get seq X', 'my range', 'X', 'highest of X and X']
TAME = [['asg', 'A', ['n', '2']], ['asg', 'B', ['d', ['n', '2'], ['n', '3']]]]


def small(r):
    """A little program that may read names it has not set."""
    out = []
    for _ in range(r.randint(2, 6)):
        k = r.random()
        v = r.choice(NAMES)
        if k < .3:
            out.append('%s: %s' % (v, r.choice(['1', '7', 'd6', '{1,2}', '2d4', '10'])))
        elif k < .55:
            w = r.choice(FUNS)
            ps = iter(['P', 'Q'])
            out.append('function: %s { result: %d }' % (' '.join(next(ps) + ':n' if x == 'X' else x for x in w.split()), r.randint(100, 999)))
        elif k < .8:
            w = r.choice(FUNS)
            out.append('output [%s]' % ' '.join({'X': r.choice(['2', '{1,3}', '1d4'])}.get(x, x) for x in w.split()))
        elif k < .9:
            out.append('output %s named "[%s]"' % (v, v))
        else:
            out.append('output 2d%s' % v)
    out.append('output %s' % r.choice(['{1..3}', '#{1,2}', '2d3', '1@{5,6}', r.choice(NAMES), '[absolute 0-3]', '[{1,2} contains 2]', '[sort {1,2}]', '[explode d4]']))
    return '\n'.join(out)


def make_hist(seed):
    r = random.Random(seed)
    progs = [small(r) for _ in range(r.randint(2, 4))]
    fl = [{f: True for f in (INT, LOC, LIBC) if r.random() < .4} for _ in progs]
    for f in fl:
        if r.random() < .6:
            f[EXIST] = False
    steps = [[r.randrange(len(progs)), r.choice(['safe', 'unsafe'])] for _ in range(r.randint(3, 8))]
    return {'progs': progs, 'flags': fl, 'steps': steps}


def probe():
    """Does the library itself still work?"""
    code = 'output(roll(2, 3))\noutput(absolute_X(-3))\noutput(get_seq(1, myrange(2, 4)))\noutput(X_contains_X(get_seq(1), 1))\noutput(explode_X(roll(1, 3)))'
    return run(code, 'unsafe')


def history(c):
    from ..core import fork_wait
    codes = []
    for t, f in zip(c['progs'], c['flags']):
        try:
            codes.append((compile_steps if fast_ok() else compile_)(t, f))
        except Exception:  # noqa
            codes.append(None)
    if not any(codes):
        raise Skip('nothing accepted')
    alone = {}
    for i in sorted({s[0] for s in c['steps']}):
        if codes[i] is not None:
            alone[i] = fork_wait(lambda: run(codes[i], 'unsafe'), 60)
            if alone[i] is None:
                raise Skip('no answer in time')
    before = probe()
    for k, (i, how) in enumerate(c['steps']):
        if codes[i] is None:
            continue
        got = langsut_norm(run(codes[i], how))
        require(got[0] == alone[i][0] and (got[0] == 'fails' or got == alone[i]), 'execution %d (%s, program %d) gives %r, alone it gives %r', k + 1, how, i, str(got)[:300], str(alone[i])[:300])
    require(probe() == before, 'the library functions changed')


PROVIDED = {'7': lambda: 7, 'd6': lambda: D.roll(6), '{1,2}': lambda: D.Seq(1, 2), '2d4': lambda: D.roll(2, 4), '0': lambda: 0}


def make_provided(seed):
    r = random.Random(seed)
    return {'prog': small(r), 'flags': {f: True for f in (INT, LIBC) if r.random() < .4}, 'vars': {n: r.choice(sorted(PROVIDED)) for n in r.sample(NAMES, r.randint(1, 3))}}


def provided(c):
    """Variables handed to the execution are as if the program had set them first, for this execution only."""
    comp = compile_steps if fast_ok() else compile_
    try:
        code = comp(c['prog'], c['flags'])
        ref_code = comp(''.join('%s: %s\n' % x for x in c['vars'].items()) + c['prog'], c['flags'])
    except Exception:  # noqa
        raise Skip('rejected')
    plain = run(code, 'unsafe')
    exp = run(ref_code, 'unsafe')
    for how in ('unsafe', 'safe'):
        given = {n: PROVIDED[t]() for n, t in c['vars'].items()}
        before = {n: (id(v), langsut.snapshot(v)) for n, v in given.items()}
        got = run(code, how, given)
        require(got[0] == exp[0] and (got[0] == 'fails' or got == exp), '%s with given %r: %r, expected %r', how, c['vars'], str(got)[:300], str(exp)[:300])
        require({n: (id(v), langsut.snapshot(v)) for n, v in given.items()} == before, '%s: the given variables changed', how)
        require(run(code, how)[0] == plain[0] and (plain[0] == 'fails' or run(code, how) == plain), '%s: given variables are still there in the next execution', how)


def make_pairs(seed):
    """Long programs that differ from one another in a single number somewhere; what they output is plain arithmetic."""
    r = random.Random(seed)
    n = r.choice([3, 20, 60, 150, 150, 300, 700])
    lines = [[r.choice(['out', 'out', 'set', 'sum', 'add']), r.randint(1, 9)] for _ in range(n)]
    edits = [[r.choice([0, n - 1, n // 2, r.randrange(n)]), r.randint(1, 9)] for _ in range(r.randint(1, 3))]
    return {'lines': lines, 'edits': edits, 'how': r.choice(['safe', 'unsafe', 'mixed'])}


def pairs(c):
    lines = [list(x) for x in c['lines']]
    comp = compile_steps if fast_ok() else compile_
    for k in range(len(c['edits']) + 1):
        if k:
            lines[c['edits'][k - 1][0]][1] = c['edits'][k - 1][1]
        a, exp, text = 0, [], ['A: 0']
        for what, x in lines:
            if what == 'out':
                exp.append(x)
            elif what == 'set':
                a = x
            elif what == 'sum':
                exp.append(a + x)
            else:
                a += x
            text.append({'out': 'output %d', 'set': 'A: %d', 'sum': 'output A + %d', 'add': 'A: A + %d'}[what] % x)
        exp.append(a)
        code = comp('\n'.join(text) + '\noutput A', {})
        for how in ('safe', 'unsafe') if c['how'] == 'mixed' else (c['how'],):
            D.settings_reset()
            got = [v for v, _ in langsut.execute(code, how)]
            require(got == exp, 'program %d (%s): %d outputs, expected %d; first difference %r', k + 1, how, len(got), len(exp), next(((i, x, y) for i, (x, y) in enumerate(zip(got, exp)) if x != y), None))


def langsut_norm(x):
    import json
    return json.loads(json.dumps(x))


def reduce_text(c):
    from .. import langgen as lg
    try:
        prog = lang.parse(c['text'])
    except Exception:  # noqa
        return
    if not isinstance(prog, list):
        return
    for d in lg.reduce_prog({'prog': prog}):
        yield dict(c, text=lang.source(d['prog'], 'plain', 0))


def reduce_hist(c):
    for i in range(len(c['steps'])):
        yield dict(c, steps=c['steps'][:i] + c['steps'][i + 1:])
    for i, p in enumerate(c['progs']):
        ls = p.split('\n')
        for j in range(len(ls)):
            if len(ls) > 1:
                yield dict(c, progs=c['progs'][:i] + ['\n'.join(ls[:j] + ls[j + 1:])] + c['progs'][i + 1:])


seeds = st.integers(0, 2 ** 48)
TESTS = [
    Test('differential', lambda: seeds.map(make), differential, lambda c: c['text'].count('output') >= 2, lambda c: [c['kind']] + [f[14:] for f in c['flags']], 2500, 60000, reduce=reduce_text),
    Test('pairs', lambda: seeds.map(make_pairs), pairs, lambda c: len(c['lines']) > 50, None, 200, 4000),
    Test('provided', lambda: seeds.map(make_provided), provided, lambda c: any('[%s]' % n in c['prog'] or n in c['prog'] for n in c['vars']), None, 400, 10000),
    Test('histories', lambda: seeds.map(make_hist), history, lambda c: len(c['steps']) >= 3, None, 900, 20000, reduce=reduce_hist),
]
