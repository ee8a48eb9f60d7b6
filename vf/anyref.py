"""Reference interpreter of AnyDice programs over the reference values of ref.py."""
from . import ref, cast
from .ref import SeqV, Die, BLANK, NULL, Unsupported, RefFail, is_num
from .lang import pattern, label_text


class BoolNum(int):
    """A number that the code under test may hold as a Python bool."""


class MaybeZero(Die):
    """A single position outside a pool: contributes 0, but whether as the number or as a constant die is left open."""
    __slots__ = ()


class Result(Exception):
    def __init__(self, v):
        self.v = v


def as_num(v):
    return int(v) if isinstance(v, bool) else v


def guard(v, big=False):
    if big and isinstance(v, int) and abs(v) < 10 ** 400 or big and isinstance(v, SeqV) and len(v) <= 3000:
        return v
    if isinstance(v, Die):
        if len(v.dist) > (1200 if big else 160) or sum(v.dist.values()).bit_length() > 95:
            raise Unsupported('large die')
        if any(isinstance(x, float) and abs(x) > 1e12 or isinstance(x, int) and abs(x) > 10 ** (60 if big else 14) for x in v.dist):
            raise Unsupported('large values')
    elif is_num(v):
        if abs(v) > 10 ** 14:
            raise Unsupported('large number')
    elif isinstance(v, SeqV) and len(v) > 80:
        raise Unsupported('long sequence')
    return v


def positions(lo, hi, d):
    return ref.positions_of_pool(list(range(lo, hi + 1)), d.n, d.src())


def explode(d, depth):
    top = max(k for k, w in d.dist.items() if w)
    cur = d
    for _ in range(depth):
        cur = ref.mix([ref.binop('+', cur, top) if v == top else v for v in sorted(d.dist)], [d.dist[v] for v in sorted(d.dist)])
    return cur


LIB = {
    'absolute X': ('N', lambda I: lambda n: -n if n < 0 else n),
    'X contains X': ('SN', lambda I: lambda s, n: BoolNum(any(x == n for x in s))),
    'count X in X': ('SS', lambda I: lambda v, s: sum(1 for a in v for b in s if a == b)),
    'explode X': ('D', lambda I: lambda d: explode(d, I.explode)),
    'highest X of X': ('ND', lambda I: lambda n, d: positions(1, n, d)),
    'lowest X of X': ('ND', lambda I: lambda n, d: positions(d.n - n + 1, d.n, d)),
    'middle X of X': ('ND', lambda I: lambda n, d: positions(1 + (d.n - n) // 2, (d.n - n) // 2 + n, d)),
    'highest of X and X': ('NN', lambda I: lambda a, b: a if a > b else b),
    'lowest of X and X': ('NN', lambda I: lambda a, b: a if a < b else b),
    'maximum of X': ('D', lambda I: lambda d: max(d.dist)),
    'reverse X': ('S', lambda I: lambda s: SeqV(tuple(s)[::-1])),
    'sort X': ('S', lambda I: lambda s: SeqV(sorted(s, reverse=True))),
}


class Interp:
    """scope: 'copy' (non-local-scope flag) or 'python' (default flags: lexical, functions see globals)."""

    def __init__(self, opint=True, scope='copy', fuel=4000, big=False):
        self.big = big  # programs made large on purpose: long sequences, long numbers
        self.opint, self.scope, self.fuel = opint, scope, fuel
        self.globals, self.funcs, self.outputs = {}, {}, []
        self.low, self.explode, self.maxdepth, self.depth, self.random = False, 2, 10, 0, 0
        self.stats = {'cut': 0, 'calls': 0, 'expanded': 0, 'loops': 0, 'rand_out': 0}

    # ------------------------------------------------------------ statements
    def run(self, prog):
        self.block(prog, self.globals)
        return self.outputs

    def spend(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise Unsupported('too long')

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.spend()
        k = s[0]
        if k == 'asg':
            env[s[1]] = self.ev(s[2], env)
        elif k == 'out':
            if self.random > 0:
                raise Unsupported('output inside an expanded call')
            v = self.ev(s[1], env)
            self.outputs.append((v, None if s[2] is None else self.label(s[2], env)))
        elif k == 'res':
            raise Result(self.ev(s[1], env))
        elif k == 'loop':
            it = self.ev(s[2], env)
            if not isinstance(it, SeqV):
                raise Unsupported('loop over %r' % (it,))
            for x in it:
                self.stats['loops'] += 1
                env[s[1]] = x
                self.block(s[3], env)
        elif k == 'if':
            for c, b in s[1]:
                v = self.ev(c, env)
                if not is_num(v):
                    raise Unsupported('condition %r' % (v,))
                if v:
                    return self.block(b, env)
            if s[2] is not None:
                self.block(s[2], env)
        elif k == 'fn':
            if env is not self.globals:
                raise Unsupported('nested definition')
            self.funcs[pattern(s[1])] = ([(p[1], None if p[2] is None else p[2].upper()) for p in s[1] if isinstance(p, list)], s[2])
        elif k == 'set':
            if self.random > 0:
                raise Unsupported('set inside an expanded call')
            name = label_text(s[1])
            v = label_text(s[2][1]) if s[2][0] == 'str' else self.ev(s[2], env)
            if name == 'position order' and v in ('highest first', 'lowest first'):
                self.low = v == 'lowest first'
            elif name in ('explode depth', 'maximum function depth') and isinstance(v, int) and v > 0 and not isinstance(v, BoolNum):
                if name == 'explode depth':
                    self.explode = v
                else:
                    self.maxdepth = v
            else:
                raise RefFail('bad setting')
        else:
            raise AssertionError(s)

    # ------------------------------------------------------------ labels
    def label(self, parts, env):
        """Expected text of an output name, or None if the properties do not fix it."""
        out = ''
        for p in parts:
            if isinstance(p, str):
                out += p
            else:
                t = self.text(self.var(p[1], env))
                if t is None:
                    return None
                out += t
        return out

    def text(self, v):
        if isinstance(v, BoolNum):
            return None
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return str(v)
        if isinstance(v, SeqV):
            return '{?}'
        if isinstance(v, Die):
            return ref.form_text(v.form)
        return 'd{}' if v is BLANK else 'd{?}'

    # ------------------------------------------------------------ expressions
    def var(self, name, env):
        if name in env:
            return env[name]
        if self.scope == 'python' and name in self.globals:
            return self.globals[name]
        raise RefFail('unknown variable %s' % name)

    def ev(self, e, env):
        self.spend()
        return guard(self.ev_(e, env), self.big)

    def opd(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, MaybeZero):
            raise Unsupported('position outside a pool as an operand')
        return v

    def ev_(self, e, env):
        k = e[0]
        if k == 'n':
            return int(e[1])
        if k == 'dec':
            return float(e[1] + '.' + e[2])
        if k == 'v':
            return self.var(e[1], env)
        if k == 'p':
            return self.ev(e[1], env)
        if k == 'seq':
            items = []
            for x in e[1]:
                if x[0] == '..':
                    a, b = self.opd(x[1], env), self.opd(x[2], env)
                    if isinstance(a, Die) or isinstance(b, Die):
                        raise RefFail('range of a die')
                    if not isinstance(a, int) or not isinstance(b, int):
                        raise Unsupported('range bounds')
                    if b - a > (3000 if self.big else 80):
                        raise Unsupported('long range')
                    items.append(SeqV(range(a, b + 1)))
                else:
                    items.append(self.opd(x, env))
            seen_die = False
            for x in items:
                if isinstance(x, Die):
                    seen_die = True
                elif seen_die and (is_num(x) or isinstance(x, SeqV) and len(x)):
                    raise Unsupported('numbers after dice in a sequence')
            return ref.flat(items)
        if k == 'un':
            return self.unary(e[1], self.opd(e[2], env))
        if k == 'bin':
            a = self.opd(e[2], env)
            b = self.opd(e[3], env)
            return self.binary(e[1], a, b)
        if k == 'd':
            return self.roll(self.opd(e[1], env), self.opd(e[2], env))
        if k == 'd1':
            return self.roll(1, self.opd(e[1], env))
        if k == 'call':
            args = [self.opd(p, env) for p in e[1] if not isinstance(p, str)]
            return self.call(pattern(e[1]), args, env)
        raise Unsupported(k)

    def unary(self, op, a):
        if is_num(a) and op in '!#':
            if not self.opint:
                raise Unsupported('needs the operators-on-integers flag')
            if isinstance(a, float):
                raise Unsupported('%s on a fraction' % op)
        r = ref.unop(op, a)
        return BoolNum(r) if op == '!' and is_num(r) else r

    def binary(self, op, a, b):
        if op == '@':
            if is_num(a) and is_num(b) and not self.opint:
                raise Unsupported('needs the operators-on-integers flag')
            if isinstance(a, Die):
                raise RefFail('die as selector')
            if isinstance(b, Die):
                if b.n > 8 or len(b.src()) > 14 or len(b.src()) ** min(b.n, 4) > 6000:
                    raise Unsupported('large pool')
                if isinstance(a, SeqV) and len(a) > 12:
                    raise Unsupported('many positions')
            if isinstance(b, float) or isinstance(a, float):
                raise Unsupported('fractions with @')
            if isinstance(b, Die) and isinstance(a, SeqV) and not len(a):
                raise Unsupported('no positions')
            r = ref.at(a, b, self.low)
            if isinstance(b, Die):
                pos = [a] if is_num(a) else list(a)
                if len(pos) == 1 and not 1 <= pos[0] <= b.n:
                    return MaybeZero(r.dist)
            return r
        if op in '&|':
            if is_num(a) and is_num(b):
                if not self.opint:
                    raise Unsupported('needs the operators-on-integers flag')
                if isinstance(a, float) or isinstance(b, float):
                    raise Unsupported('boolean operator on fractions')
        if (a is BLANK or b is BLANK) and (isinstance(a, SeqV) or isinstance(b, SeqV)) and op in '+-|':
            raise Unsupported('sequence with blank')
        if isinstance(a, SeqV) and isinstance(b, SeqV) and not len(a) and not len(b) and op in '<>':
            raise Unsupported('two empty sequences')
        if isinstance(a, Die) and isinstance(b, Die) and len(a.dist) * len(b.dist) > 6000:
            raise Unsupported('large')
        rop = {'=': '==', '^': '**', '/': '//'}.get(op, op)
        r = ref.binop(rop, a, b)
        if rop in ref.CMP and is_num(r):
            return BoolNum(r)
        return r

    def roll(self, n, d):
        if isinstance(n, float) or isinstance(n, SeqV) and any(isinstance(x, float) for x in n):
            raise Unsupported('fractional count')
        for x, lim in ((n, 14), (d, 1000 if self.big else 60)):
            if is_num(x) and abs(x) > lim:
                raise Unsupported('large')
        if isinstance(n, SeqV) and abs(ref.seq_sum(n)) > 14:
            raise Unsupported('large')
        if isinstance(n, Die) and (len(n.dist) > 12 or any(abs(v) > 10 for v in n.dist)):
            raise Unsupported('large')
        big = abs(n) if is_num(n) else abs(ref.seq_sum(n)) if isinstance(n, SeqV) else max(abs(v) for v in n.dist) if isinstance(n, Die) else 1
        faces = abs(d) if is_num(d) else len(d) if isinstance(d, SeqV) else len(d.dist) if isinstance(d, Die) else 1
        if big * faces > (1000 if self.big else 200):
            raise Unsupported('large')
        vals = d if isinstance(d, SeqV) else d.dist if isinstance(d, Die) else ()
        if any(isinstance(v, float) for v in vals) and big > 1:
            if any(v * 8 != int(v * 8) for v in vals):
                raise Unsupported('rounding')
        self.spend(big * faces // 8)
        return ref.roll(n, d)

    def call(self, pat, args, env):
        if pat in self.funcs:
            return self.user(pat, args, env)
        if pat == 'true div X X':
            return ref.binop('/', *args)
        if pat not in LIB:
            raise RefFail('unknown function')
        types, fn = LIB[pat]
        if 'D' in types and any(a is BLANK or a is NULL for a in args):
            raise Unsupported('blank in the library')
        if self.low and pat in ('highest X of X', 'lowest X of X', 'middle X of X'):
            raise Unsupported('library under lowest first')
        if pat == 'explode X' and isinstance(args[0], Die) and len(args[0].dist) * self.explode > 120:
            raise Unsupported('large')
        for t, a in zip(types, args):
            if t == 'N' and 'D' in types:
                vs = a.dist if isinstance(a, Die) else [ref.seq_sum(a)] if isinstance(a, SeqV) else [a]
                if any(not isinstance(v, int) or v < 0 or v > 12 for v in vs):
                    raise Unsupported('count')
            if t == 'D' and 'N' in types and isinstance(a, Die) and (a.n > 8 or len(a.src()) ** min(a.n, 4) > 3000):
                raise Unsupported('large')
        self.cost(types, args)
        return cast.call(types, fn(self), args, self.low)

    def cost(self, types, args):
        n = cast.n_combos(types, args)
        if n > 400:
            raise Unsupported('too many combinations')
        self.spend(n)
        return n

    def user(self, pat, args, env):
        params, body = self.funcs[pat]
        self.stats['calls'] += 1
        if self.depth >= self.maxdepth:
            self.stats['cut'] += 1
            return BLANK
        types = [t for _, t in params]
        if self.cost(types, args) > 1:
            self.stats['expanded'] += 1
        rnd = any(isinstance(a, Die) and t in ('N', 'S') for t, a in zip(types, args))
        names = [n for n, _ in params]
        if len(set(names)) != len(names):
            raise Unsupported('repeated parameter')

        def fn(*vals):
            loc = dict(env) if self.scope == 'copy' else {}
            loc.update(zip(names, vals))
            try:
                self.block(body, loc)
            except Result as r:
                return r.v
            return None
        self.depth += 1
        self.random += rnd
        try:
            r = cast.call(types, fn, args, self.low)
        finally:
            self.depth -= 1
            self.random -= rnd
        return BLANK if r is None else r
