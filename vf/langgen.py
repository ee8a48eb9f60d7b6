"""Strategies for AnyDice expressions and programs (ASTs of lang.py)."""
from hypothesis import strategies as st

num_lit = st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 6), st.integers(0, 30), st.sampled_from([100, 255, 1234, 90210])).map(lambda n: ['n', str(n)])
odd_lit = st.sampled_from([['n', '007'], ['n', '00'], ['n', '010'], ['dec', '1', '5'], ['dec', '0', '25'], ['dec', '2', '0'], ['dec', '00', '50']])
tiny = st.integers(0, 3).map(lambda n: ['n', str(n)])
dice = st.one_of(st.builds(lambda a, b: ['d', a, b], st.integers(0, 3).map(lambda n: ['n', str(n)]), st.integers(1, 6).map(lambda n: ['n', str(n)])),
                 st.builds(lambda b: ['d1', b], st.integers(1, 8).map(lambda n: ['n', str(n)])),
                 st.builds(lambda b: ['d1', ['seq', b]], st.lists(st.integers(0, 4).map(lambda n: ['n', str(n)]), min_size=1, max_size=4)),
                 st.builds(lambda a, b: ['d', a, ['seq', b]], st.integers(1, 3).map(lambda n: ['n', str(n)]), st.lists(st.integers(0, 4).map(lambda n: ['n', str(n)]), min_size=1, max_size=3)))
BINOPS = ['+', '-', '*', '/', '^', '@', '=', '!=', '<', '>', '<=', '>=', '&', '|']


def var(names):
    return st.sampled_from(names).map(lambda n: ['v', n])


def seq_of(ch, max_size=4):
    elem = st.one_of(ch, ch, st.builds(lambda a, b: ['..', a, b], tiny, st.integers(0, 6).map(lambda n: ['n', str(n)])))
    return st.lists(elem, max_size=max_size).map(lambda xs: ['seq', xs])


LIBCALLS = [['absolute', 0], [0, 'contains', 0], ['count', 0, 'in', 0], ['explode', 0], ['highest', 1, 'of', 0], ['lowest', 1, 'of', 0], ['middle', 1, 'of', 0], ['highest', 'of', 0, 'and', 0], ['lowest', 'of', 0, 'and', 0],
            ['maximum', 'of', 0], ['reverse', 0], ['sort', 0], ['true', 'div', 0, 1]]


@st.composite
def fill(draw, shape, ch):
    return ['call', [p if isinstance(p, str) else draw(tiny if p == 1 else ch) for p in shape]]


def expr(names, calls=(), leaves=6, lib=True, odd=False):
    """Any expression; many are ill typed on purpose (the model skips those it does not cover)."""
    base = [num_lit, num_lit, dice, var(names), var(names), seq_of(tiny, 3)]
    if odd:
        base.append(odd_lit)
    shapes = list(calls) * 3 + (LIBCALLS if lib else [])

    def grow(ch):
        opts = [st.builds(lambda o, a, b: ['bin', o, a, b], st.sampled_from(BINOPS), ch, ch), st.builds(lambda o, a, b: ['bin', o, a, b], st.sampled_from(['+', '-', '*', '=', '<', '>=']), ch, ch),
                st.builds(lambda o, a, b: ['bin', o, a, b], st.sampled_from(BINOPS), ch, ch), st.builds(lambda o, a: ['un', o, a], st.sampled_from('+-!#'), ch), st.builds(lambda a, b: ['d', a, b], st.one_of(tiny, ch), ch),
                st.builds(lambda a: ['d1', a], ch), seq_of(ch, 3), st.builds(lambda a: ['p', a], ch), st.builds(lambda k, a: ['bin', '^', a, k], tiny, ch), st.builds(lambda k, a: ['bin', '@', k, a], tiny, ch)]
        if shapes:
            opts.append(st.sampled_from(shapes).flatmap(lambda s: fill(s, ch)))
        return st.one_of(opts)
    return st.recursive(st.one_of(base), grow, max_leaves=leaves)


# ------------------------------------------------------------------ typed programs
GLOBALS = {'n': ['A', 'B', 'COUNT'], 's': ['S', 'LIST'], 'd': ['D', 'POOL', 'E_E']}
LOCALS = ['X', 'Y', 'Z', 'W', 'ACC']
WORDS = ['f', 'roll', 'with', 'best', 'of', 'to', 'if', 'plus', 'in', 'max', 'x', 'if', 'set', 'attack', 'lambda', 'output']


class G:
    """Builds one program; every decision is a draw."""

    def __init__(self, draw, mode, opint):
        self.draw, self.mode, self.opint = draw, mode, opint
        self.fns = []      # (words-and-types, return type)
        self.avail = []    # those that may be called now
        self.loop = 0
        self.infn = False

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    def chance(self, p):
        return self.draw(st.integers(0, 99)) < p

    def pick(self, xs):
        return xs[self.draw(st.integers(0, len(xs) - 1))]

    def num(self, a=0, b=6):
        return ['n', str(self.int(a, b))]

    def vars_of(self, env, ty):
        return [n for n, t in env.items() if t == ty]

    def call(self, env, want, dep):
        """A user or library call that can give `want`, or None."""
        opts = [f for f in self.avail if f[1] == want or want == 'd' and any(isinstance(p, list) and p[2] in ('n', 's') for p in f[0])]
        if not opts or not self.chance(75):
            return None
        parts, ret = self.pick(opts)
        out, need = [], want == 'd' and ret != 'd'
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                t = p[2]
                ty = t or self.pick('nsd')
                if want == 'd' and t in ('n', 's') and (need or self.chance(35)):
                    ty, need = 'd', False
                elif t and self.chance(12):
                    ty = self.pick('nsd') if want == 'd' else self.pick('ns')
                out.append(self.expr(env, ty, dep - 1))
        return ['call', out]

    def expr(self, env, ty, dep=2):
        vs = self.vars_of(env, ty)
        if dep <= 0 or self.chance(25):
            if vs and self.chance(70):
                return ['v', self.pick(vs)]
            if ty == 'n':
                return self.num(0, 9)
            if ty == 's':
                if self.chance(40):
                    return ['seq', [['..', self.num(0, 3), self.num(1, 5)]]]
                return ['seq', [self.num(0, 6) for _ in range(self.int(0 if self.chance(10) else 1, 4))]]
            r = self.int(0, 3)
            if r == 0:
                return ['d1', self.num(2, 6)]
            if r == 1:
                return ['d', self.num(1, 3), self.num(2, 4)]
            if r == 2:
                return ['d1', ['seq', [self.num(0, 4) for _ in range(self.int(1, 3))]]]
            return ['d', self.num(2, 3), ['seq', [self.num(0, 3) for _ in range(self.int(1, 3))]]]
        c = self.call(env, ty, dep)
        if c:
            return c
        e = lambda t: self.expr(env, t, dep - 1)  # noqa
        if ty == 'n':
            r = self.int(0, 15)
            if r <= 2:
                return ['bin', self.pick('+-'), e('n'), e('n')]
            if r == 3:
                return ['bin', '*', e('n'), self.num(0, 3)]
            if r == 4:
                return ['bin', '/', e('n'), self.num(1, 4)]
            if r <= 6:
                return ['bin', self.pick(['=', '!=', '<', '>', '<=', '>=']), e('n'), e('n')]
            if r == 7:
                return ['bin', self.pick(['=', '!=', '<', '>', '<=', '>=']), e('s'), e(self.pick('nns'))]
            if r == 8:
                return ['bin', '@', e('n'), e('s')]
            if r == 9:
                return ['un', '#', e(self.pick('ssd'))]
            if r == 10:
                return ['un', self.pick('-+'), e('n')]
            if r == 11:
                return ['bin', '@', ['seq', [self.num(1, 3), self.num(1, 4)]], e('s')]
            if r == 12 and self.opint:
                return self.pick([lambda: ['bin', '&', e('n'), e('n')], lambda: ['bin', '|', e('n'), e('n')], lambda: ['un', '!', e('n')], lambda: ['bin', '@', self.num(1, 3), e('n')], lambda: ['un', '#', e('n')]])()
            if r == 13:
                return self.pick([lambda: ['call', ['absolute', e('n')]], lambda: ['call', [e('s'), 'contains', e('n')]], lambda: ['call', ['count', e('s'), 'in', e('s')]],
                                  lambda: ['call', ['highest', 'of', e('n'), 'and', e('n')]], lambda: ['call', ['lowest', 'of', e('n'), 'and', e('n')]], lambda: ['call', ['maximum', 'of', e('d')]]])()
            if r == 14:
                return ['bin', '^', e('n'), self.num(0, 2)]
            return ['p', e('n')]
        if ty == 's':
            r = self.int(0, 5)
            if r <= 2:
                return ['seq', [self.pick([lambda: e('n'), lambda: e('s'), lambda: ['..', self.num(0, 2), e('n')]])() for _ in range(self.int(1, 3))]]
            if r == 3:
                return ['call', ['reverse', e('s')]]
            if r == 4:
                return ['call', ['sort', e('s')]]
            return ['seq', [e('s'), e('n')]]
        r = self.int(0, 12)
        if r <= 2:
            return ['bin', self.pick('+-+*'), e('d'), e(self.pick('ndns'))]
        if r == 3:
            return ['bin', self.pick('+-*'), e('n'), e('d')]
        if r <= 5:
            return ['bin', self.pick(['=', '!=', '<', '>', '<=', '>=']), e('d'), e(self.pick('nds'))]
        if r == 6:
            return ['d', self.num(1, 3), e(self.pick('ds'))]
        if r == 7:
            return ['bin', '@', self.num(1, 3), e('d')]
        if r == 8:
            return ['bin', '@', ['seq', [self.num(1, 2), self.num(2, 3)]], e('d')]
        if r == 9:
            return self.pick([lambda: ['call', ['explode', e('d')]], lambda: ['call', [self.pick(['highest', 'lowest', 'middle']), self.num(1, 2), 'of', e('d')]], lambda: ['call', ['absolute', e('d')]],
                              lambda: ['call', ['highest', 'of', e('d'), 'and', e('d')]], lambda: ['call', [e('d'), 'contains', e('n')]], lambda: ['call', ['count', e('s'), 'in', e('d')]]])()
        if r == 10:
            return ['un', self.pick('-+!'), e('d')]
        if r == 11:
            return ['bin', self.pick('&|'), e('d'), e(self.pick('ndd'))]
        return ['d', e('n'), e('n')] if self.chance(50) else ['d1', e('n')]

    # ---- statements
    def label(self, env):
        if self.chance(50):
            return None
        parts = [self.pick(['x', 'roll ', 'a {b}', '50% ', "it's", ' - ', 'v='])]
        if env and self.chance(60):
            nice = self.vars_of(env, 'n')
            if nice:
                parts.append(['var', self.pick(nice)])
                if self.chance(40):
                    parts.append(' end')
        return parts

    def assign_name(self, env, ty):
        if self.infn and self.mode == 'portable':
            names = LOCALS
        elif self.infn:
            names = LOCALS + GLOBALS[ty]
        else:
            names = GLOBALS[ty] + (LOCALS if self.mode == 'free' else [])
        return self.pick(names)

    def simple(self, env):
        ty = self.pick('nnnsd')
        e = self.expr(env, ty)
        n = self.assign_name(env, ty)
        env[n] = ty
        return ['asg', n, e]

    def stmt(self, env, dep):
        r = self.int(0, 19)
        if r <= 6 or dep <= 0:
            return self.simple(env)
        if r <= 11:
            if self.infn and self.chance(70):
                return self.simple(env)
            return ['out', self.expr(env, self.pick('ndds')), self.label(env)]
        if r <= 14:
            n = self.assign_name(env, 'n')
            it = self.expr(env, 's', 1)
            inner = dict(env)
            inner[n] = 'n'
            self.loop += 1
            b = self.block(inner, dep - 1, self.int(0 if self.chance(12) else 1, 3))
            self.loop -= 1
            if not (self.infn and self.mode == 'portable'):
                env[n] = 'n'
            self.merge(env, inner)
            return ['loop', n, it, b]
        if r <= 18:
            arms = []
            inners = []
            for _ in range(self.pick([1, 1, 1, 2, 2, 3, 4, 5, 7])):
                c = self.expr(env, 'n', 2)
                inner = dict(env)
                arms.append([c, self.block(inner, dep - 1, self.int(0 if self.chance(10) else 1, 2))])
                inners.append(inner)
            els = None
            if self.chance(60):
                inner = dict(env)
                els = self.block(inner, dep - 1, self.int(0 if self.chance(10) else 1, 2))
                inners.append(inner)
            for i in inners:
                self.merge(env, i)
            return ['if', arms, els]
        if self.infn and self.chance(55):
            return self.simple(env)
        return self.setting()

    def merge(self, env, inner):
        """Variables whose type may have changed in a block keep a usable type only if it agrees."""
        for n in list(env):
            if inner.get(n) != env[n]:
                del env[n]

    def setting(self):
        r = self.int(0, 3)
        if r == 0:
            return ['set', ['position order'], ['str', [self.pick(['lowest first', 'highest first'])]]]
        if r == 1:
            return ['set', ['explode depth'], self.num(1, 3)]
        return ['set', ['maximum function depth'], self.num(1, 8)]

    def block(self, env, dep, n):
        out = [self.stmt(env, dep) for _ in range(n)]
        if self.infn and self.chance(45):
            out.append(['res', self.expr(env, self.ret)])
        return out

    def signature(self, i):
        """Distinct patterns; parameters with distinct names from LOCALS."""
        k = self.pick([0, 1, 1, 1, 2, 2, 3])
        names = list(LOCALS[:4]) if self.mode == 'portable' else list(LOCALS[:4]) + ['A', 'S', 'D']
        parts = [WORDS[(self.int(0, 3) + 3 * i) % len(WORDS)]]
        for _ in range(k):
            nm = names.pop(self.int(0, len(names) - 1))
            par = ['par', nm, self.pick(['n', 'n', 'n', 's', 's', 'd', None])]
            if self.chance(40):
                parts.append(self.pick(WORDS))
            if self.chance(20):
                parts.insert(0, par)
            else:
                parts.append(par)
        return parts

    def function(self, parts, ret):
        env = {}
        for t, ns in GLOBALS.items():
            for n in ns:
                env[n] = t
        for p in parts:
            if isinstance(p, list):
                env[p[1]] = p[2] or self.pick('nd')
        self.infn, self.ret = True, ret
        body = []
        if self.chance(60):  # a recursive function: stop condition first
            ns = [p[1] for p in parts if isinstance(p, list) and p[2] == 'n']
            if ns:
                body.append(['if', [[['bin', '<', ['v', ns[0]], self.num(1, 2)], [['res', self.expr(env, ret, 1)]]]], None])
                if self.chance(70):
                    rec = ['call', [p if isinstance(p, str) else (['bin', '-', ['v', p[1]], ['n', '1']] if p[1] == ns[0] else ['v', p[1]]) for p in parts]]
                    if ret == 's':
                        body.append(['res', ['seq', [['v', ns[0]], rec]]])
                    else:
                        body.append(['res', ['bin', self.pick('+-+'), self.expr(env, ret, 1), rec]])
        if not body or self.chance(30):
            body = [self.stmt(env, 2) for _ in range(self.int(0, 3))] + body
        if self.chance(85):
            body.append(['res', self.expr(env, ret)])
        self.infn = False
        return ['fn', parts, body]

    def program(self):
        env, prog = {}, []
        for t, ns in GLOBALS.items():
            for n in ns:
                prog.append(['asg', n, self.expr({}, t, 1 if t == 'd' else 0)])
                env[n] = t
        if self.mode == 'free':
            for n in LOCALS:
                prog.append(['asg', n, self.num(0, 5)])
                env[n] = 'n'
        nf = self.pick([0, 1, 1, 2, 2, 3])
        sigs = [(self.signature(i), self.pick('nnds')) for i in range(nf)]
        for i, (parts, ret) in enumerate(sigs):
            self.avail = sigs[:i + 1] if self.chance(80) else sigs
            prog.append(self.function(parts, ret))
        self.avail = list(sigs)
        for _ in range(self.int(3, 8)):
            r = self.int(0, 19)
            if r == 0 and sigs:   # redefinition
                parts, ret = self.pick(sigs)
                prog.append(self.function(parts, ret))
            elif r == 1 and sigs:  # definition inside a block
                parts, ret = self.pick(sigs)
                f = self.function(parts, ret)
                prog.append(['if', [[self.expr(env, 'n', 1), [f]]], None] if self.chance(50) else ['loop', GLOBALS['n'][0], ['seq', [['..', ['n', '1'], ['n', '2']]]], [f]])
            else:
                prog.append(self.stmt(env, 3))
        for _ in range(self.int(2, 4)):
            prog.append(['out', self.expr(env, self.pick('ndds')), self.label(env)])
        return prog


@st.composite
def program(draw, mode, opint):
    return G(draw, mode, opint).program()


class R(G):
    """The same programs from a plain seeded generator: fast, and much more varied than what Hypothesis explores in a few hundred draws."""

    def __init__(self, rnd, mode, opint):
        super().__init__(None, mode, opint)
        self.rnd = rnd

    def int(self, a, b):
        return self.rnd.randint(a, b)

    def chance(self, p):
        return self.rnd.random() * 100 < p

    def pick(self, xs):
        return self.rnd.choice(xs)


def random_program(seed, mode, opint):
    import random
    return R(random.Random(seed), mode, opint).program()


class Big(R):
    """Programs that are large in one respect: many parameters, deep nesting, many statements, functions, iterations, outputs or redefinitions, long expressions, sequences, literals and labels."""
    LONG = ['A_VERY_LONG_NAME_OF_A_VARIABLE', 'THE_NUMBER_OF_DICE_THAT_ARE_ROLLED', 'QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ']

    def names(self, k):
        base = [a + b for a in 'ABCEFGHKMNPQ' for b in ('', 'X', 'BONUS', '_', 'YY')]
        self.rnd.shuffle(base)
        out = base[:k]
        if k and self.chance(50):
            out[self.int(0, k - 1)] = self.pick(self.LONG)
        return out

    def lit(self):
        r = self.int(0, 5)
        if r == 0:
            return ['n', str(self.int(10 ** 14, 10 ** self.int(15, 60)))]
        if r == 1:
            return ['n', '0' * self.int(1, 20) + str(self.int(0, 10 ** 9))]
        return self.num(0, 9)

    def many_params(self):
        k = self.int(4, 9)
        ns = self.names(k)
        ty = [self.pick(['n', 'n', None, 's', 'd', 'n']) for _ in ns]
        parts, nd = ['f'], 0
        for v, t in zip(ns, ty):
            if self.chance(35):
                parts.append(self.pick(WORDS))
            parts.append(['par', v, t])
        body, e = [], ['n', '0']
        for i, (v, t) in enumerate(zip(ns, ty)):
            x = ['un', '#', ['v', v]] if t in ('s', 'd') else ['v', v]
            e = ['bin', '+', ['bin', '*', e, ['n', '11']], x]
        body.append(['res', e])
        prog = [['fn', parts, body]]
        for _ in range(self.int(2, 4)):
            args, dice = [], 0
            for p in parts:
                if isinstance(p, str):
                    args.append(p)
                elif p[2] == 's':
                    args.append(['seq', [self.num(0, 9) for _ in range(self.int(1, 5))]])
                elif p[2] == 'd':
                    args.append(['d', self.num(1, 9), self.num(2, 4)])
                elif p[2] == 'n' and dice < 2 and self.chance(25):
                    dice += 1
                    args.append(['d1', self.num(2, 6)])
                else:
                    args.append(self.num(0, 9))
            prog.append(['out', ['call', args], None])
        return prog

    def deep_nest(self):
        k = self.int(5, 14)
        ns = self.names(k + 1)
        infn = self.chance(40)
        body = [['asg', 'T', ['bin', '+', ['bin', '*', ['v', 'T'], ['n', '3']], ['n', str(self.int(1, 9))]]]]
        if not infn:
            body.append(['out', ['v', 'T'], None])
        budget = 60
        for i in range(k):
            r = self.int(0, 4)
            here = ['asg', 'T', ['bin', '+', ['v', 'T'], ['n', str(self.int(1, 99))]]]
            if r <= 1 and budget > 1:
                m = self.int(1, 2)
                budget //= m
                s = ['loop', ns[i], ['seq', [['..', ['n', '1'], ['n', str(m)]]]], body]
            elif r == 2:
                s = ['if', [[['n', '1'], body]], [['asg', 'T', ['n', '0']]] if self.chance(50) else None]
            elif r == 3:
                s = ['if', [[['n', '0'], [['asg', 'T', ['n', '1']]]]], body]
            else:
                s = ['if', [[['n', '0'], []], [['bin', '=', ['n', '1'], ['n', '1']], body]], [['asg', 'T', ['n', '2']]] if self.chance(50) else None]
            body = ([here] if self.chance(50) else []) + [s] + ([list(here)] if self.chance(50) else [])
        if infn:
            return [['fn', ['f', ['par', 'T', 'n']], body + [['res', ['v', 'T']]]], ['out', ['call', ['f', self.num()]], None], ['out', ['call', ['f', ['d1', ['n', '4']]]], None]]
        return [['asg', 'T', self.num()]] + body + [['out', ['v', 'T'], None]]

    def many_statements(self):
        ns = self.names(self.int(5, 30))
        prog = [['asg', v, self.num(0, 9)] for v in ns]
        for i in range(self.int(30, 150)):
            a, b, c = (self.pick(ns) for _ in range(3))
            r = self.int(0, 9)
            if r <= 4:
                prog.append(['asg', a, ['bin', self.pick('+-'), ['v', b], ['v', c]]])
            elif r == 5:
                prog.append(['asg', a, self.num(0, 99)])
            elif r == 6:
                prog.append(['if', [[['bin', self.pick(['<', '>', '=']), ['v', a], ['v', b]], [['asg', c, ['bin', '+', ['v', c], ['n', '1']]]]]], [['asg', c, ['bin', '-', ['v', c], ['n', '1']]]] if self.chance(50) else None])
            elif r == 7:
                prog.append(['out', ['v', a], None])
            elif r == 8:
                prog.append(['out', ['bin', '+', ['v', a], ['v', b]], [['var', a], ' and ', ['var', b]]])
            else:
                prog.append(['asg', a, ['bin', '*', ['v', b], ['n', '2']]])
        if self.chance(10):
            prog += [['out', ['bin', '+', ['v', self.pick(ns)], ['n', str(i)]], None] for i in range(self.pick([100, 300, 600]))]
        return prog + [['out', ['v', v], [['var', v]]] for v in ns]

    def many_functions(self):
        k = self.int(8, 30)
        sigs, prog = [], []
        for i in range(k):
            w = 'f' + 'abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz'[i] * (1 + i // 26)
            par = [['par', v, self.pick(['n', None])] for v in self.names(self.int(0, 3))]
            parts = [w] + par
            if par and self.chance(30):
                parts = par[:1] + [w] + par[1:]
            e = ['n', str(self.int(0, 99))]
            for p in par:
                e = ['bin', self.pick('+-*'), e, ['v', p[1]]]
            near = sigs[-3:]
            if near and self.chance(60) and (len(sigs) % 8):
                e = ['bin', self.pick('+-'), e, ['call', [x if isinstance(x, str) else self.num() for x in self.pick(near)]]]
            prog.append(['fn', parts, [['res', e]]])
            sigs.append(parts)
        self.rnd.shuffle(sigs)
        for s in sigs[:12]:
            prog.append(['out', ['call', [x if isinstance(x, str) else self.num() for x in s]], None])
        return prog

    def long_loop(self):
        n = self.int(50, 400)
        a, b, c = self.names(3)
        outs = self.chance(50)
        body = [['asg', a, ['bin', '+', ['v', a], ['v', b]]]]
        if self.chance(60):
            body.append(['if', [[['bin', '>', ['v', a], ['n', str(self.int(50, 5000))]], [['asg', a, ['bin', '-', ['v', a], ['v', b]]]]]], None])
        if outs:
            body.append(['out', ['v', self.pick([a, b])], None if self.chance(50) else ['i', ['var', b]]])
        return [['asg', a, ['n', '0']], ['loop', b, ['seq', [['..', ['n', str(self.int(-0, 3))], ['n', str(n)]]]], body], ['out', ['v', a], None], ['out', ['v', b], None]]

    def long_expr(self):
        a, b, c = self.names(3)
        prog = [['asg', a, self.num(1, 9)], ['asg', b, self.num(0, 9)], ['asg', c, ['d1', self.num(2, 4)]], ['fn', ['g', ['par', 'X', 'n'], ['par', 'Y', 'n']], [['res', ['bin', '-', ['bin', '*', ['v', 'X'], ['n', '2']], ['v', 'Y']]]]]]
        for _ in range(3):
            e = self.num()
            dice, r = 0, self.int(0, 2)
            for i in range(self.int(15, 70)):
                x = self.pick([['v', a], ['v', b], self.num(0, 9)])
                if dice < 2 and self.chance(4):
                    x, dice = ['v', c], dice + 1
                o = self.pick('+++---') if r or dice else self.pick(['+', '-', '=', '<', '>', '!=', '+', '-'])
                if r == 1 and self.chance(50):
                    e = ['bin', o, x, ['p', e]]
                elif r == 2 and self.chance(12) and not dice:
                    e = ['call', ['g', e, x]] if self.chance(50) else ['call', ['g', x, e]]
                elif self.chance(5):
                    e = ['un', '-', e]
                else:
                    e = ['bin', o, e, x]
            prog.append(['out', e, None])
        e = self.num(0, 9)
        for i in range(self.int(3, 25)):
            e = ['call', ['g', e, self.num(0, 3)]]
        prog.append(['out', e, None])
        return prog

    def long_seq(self):
        k = self.int(9, 60)
        small = self.chance(60)
        xs = [self.num(0, 6 if small else 99) if self.chance(93) else ['seq', [self.num(), self.num()]] for _ in range(k)]
        if self.chance(30):
            xs = sorted(xs[:1] * 3 + xs, key=lambda e: int(e[1]) if e[0] == 'n' else 0)
        m = self.int(60, 2500)
        prog = [['asg', 'S', ['seq', xs]], ['asg', 'R', ['seq', [['..', ['n', str(self.int(0, 40))], ['n', str(m)]]]]]]
        for v in 'SR':
            prog += [['out', ['un', '#', ['v', v]], None], ['out', ['bin', '@', ['n', str(self.int(1, k))], ['v', v]], None], ['out', ['bin', '+', ['v', v], ['n', '0']], None], ['out', ['bin', self.pick(['=', '<', '>', '!=', '<=', '>=']), ['v', v], self.num()], None],
                     ['out', ['bin', self.pick(['=', '<', '>', '!=']), ['v', v], ['v', self.pick('SR')]], None], ['out', ['call', [['v', v], 'contains', self.num(0, 99)]], None]]
        prog += [['out', ['d1', ['v', 'S']], None], ['out', ['bin', '@', ['seq', [self.num(1, 9) for _ in range(self.int(2, 20))]], ['v', 'S']], None], ['out', ['call', ['sort', ['v', 'S']]], None], ['out', ['call', ['reverse', ['v', 'S']]], None], ['out', ['d1', ['seq', [['..', ['n', '1'], ['n', str(self.int(20, 300))]]]]], None]]
        return prog

    def literals(self):
        prog = [['out', self.lit(), None] for _ in range(5)]
        prog += [['out', ['bin', self.pick('+-*'), self.lit(), self.lit()], None] for _ in range(4)]
        prog += [['out', ['bin', self.pick(['=', '<', '>', '!=']), self.lit(), self.lit()], None] for _ in range(3)]
        for _ in range(4):
            prog.append(['out', ['dec', str(self.int(0, 10 ** self.int(0, 6))), ''.join(self.pick('0123456789') for _ in range(self.int(1, 18)))], None])
        big = ['n', str(self.int(10 ** 15, 10 ** 40))]
        prog += [['asg', 'B', big], ['out', ['bin', '-', ['v', 'B'], ['n', str(int(big[1]) - self.int(-2, 2))]], [['var', 'B']]], ['out', ['bin', '/', ['v', 'B'], self.num(1, 9)], None], ['out', ['bin', '+', ['d1', self.num(1, 6)], ['v', 'B']], None],
                 ['out', ['seq', [['v', 'B'], ['n', '1']]], None], ['out', ['d1', ['n', str(self.int(61, 1000))]], None], ['out', ['d1', ['seq', [['v', 'B'], ['n', '0']]]], None]]
        return prog

    def redefine(self):
        k = self.int(3, 7)
        prog = [['asg', 'V', ['n', '5']], ['fn', ['base', ['par', 'X', 'n']], [['res', ['v', 'X']]]], ['fn', ['user', ['par', 'X', 'n']], [['res', ['bin', '+', ['call', ['base', ['v', 'X']]], ['n', '1000']]]]]]
        for i in range(k):
            t = self.pick(['n', 's', None])
            x = ['un', '#', ['v', 'X']] if t == 's' else ['v', 'X']
            f = ['fn', ['base', ['par', 'X', t]], [['res', ['bin', self.pick('+-*'), x, ['n', str(self.int(1, 99))]]]]]
            r = self.int(0, 3)
            prog.append(f if r else ['if', [[self.num(0, 1), [f]]], None])
            prog += [['out', ['call', ['base', self.num(10, 99)]], None], ['out', ['call', ['user', self.num(10, 99)]], None]]
            if self.chance(40):
                prog.append(['out', ['call', ['user', ['d1', ['n', '3']]]], None])
        return prog

    def labels(self):
        ns = self.names(self.int(3, 12))
        prog = [['asg', v, self.pick([self.num(0, 99), ['d', self.num(1, 9), self.num(2, 9)], ['seq', [self.num()]]])] for v in ns]
        for _ in range(self.int(2, 5)):
            lab = []
            for i in range(self.int(5, 40)):
                lab.append(['var', self.pick(ns)])
                lab.append(self.pick(['x', ' - ', '{', '}', "'", '%', '#', ' text of some length that goes on ' * self.int(1, 4)]))
            prog.append(['out', self.num(), lab])
        return prog

    KINDS = ['many_params', 'deep_nest', 'many_statements', 'many_functions', 'long_loop', 'long_expr', 'long_seq', 'literals', 'redefine', 'labels']

    def program(self):
        return getattr(self, self.kind)()


def big_program(seed, mode='portable', opint=True):
    import random
    g = Big(random.Random(seed), mode, opint)
    g.kind = Big.KINDS[seed % len(Big.KINDS)]
    return g.program()


# ------------------------------------------------------------------ structural reduction
def smaller_expr(e):
    """Candidate replacements of an expression by its parts."""
    if not isinstance(e, list):
        return
    k = e[0]
    kids = {'bin': [2, 3], 'un': [2], 'd': [1, 2], 'd1': [1], 'p': [1], '..': [1, 2]}.get(k)
    if kids:
        for i in kids:
            if k != '..':
                yield e[i]
        for i in kids:
            for c in smaller_expr(e[i]):
                yield e[:i] + [c] + e[i + 1:]
    elif k in ('seq', 'call'):
        for i, x in enumerate(e[1]):
            if k == 'seq':
                yield ['seq', e[1][:i] + e[1][i + 1:]]
            elif isinstance(x, list):
                yield x
            if isinstance(x, list):
                for c in smaller_expr(x):
                    yield [k, e[1][:i] + [c] + e[1][i + 1:]]
    elif k == 'n' and e[1] not in ('0', '1'):
        yield ['n', '1']


def smaller_block(b):
    for size in (len(b) // 2, 1):
        if size:
            for i in range(0, len(b), size):
                yield b[:i] + b[i + size:]
    for i, s in enumerate(b):
        for c in smaller_stmt(s):
            yield b[:i] + c + b[i + 1:]


def smaller_stmt(s):
    k = s[0]
    if k == 'out':
        if s[2] is not None:
            yield [['out', s[1], None]]
        for c in smaller_expr(s[1]):
            yield [['out', c, s[2]]]
    elif k == 'asg':
        for c in smaller_expr(s[2]):
            yield [['asg', s[1], c]]
    elif k == 'res':
        for c in smaller_expr(s[1]):
            yield [['res', c]]
    elif k == 'loop':
        yield s[3]
        for b in smaller_block(s[3]):
            yield [['loop', s[1], s[2], b]]
        for c in smaller_expr(s[2]):
            yield [['loop', s[1], c, s[3]]]
    elif k == 'if':
        for i, (c, b) in enumerate(s[1]):
            yield b
            if len(s[1]) > 1:
                yield [['if', s[1][:i] + s[1][i + 1:], s[2]]]
            for x in smaller_block(b):
                yield [['if', s[1][:i] + [[c, x]] + s[1][i + 1:], s[2]]]
            for x in smaller_expr(c):
                yield [['if', s[1][:i] + [[x, b]] + s[1][i + 1:], s[2]]]
        if s[2] is not None:
            yield s[2]
            yield [['if', s[1], None]]
            for x in smaller_block(s[2]):
                yield [['if', s[1], x]]
    elif k == 'fn':
        for b in smaller_block(s[2]):
            yield [['fn', s[1], b]]


def reduce_prog(c):
    if c.get('style', 'plain') != 'plain':
        yield dict(c, style='plain')
    if c.get('seed'):
        yield dict(c, seed=0)
    for p in smaller_block(c['prog']):
        yield dict(c, prog=p)
