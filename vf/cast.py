"""Reference semantics of typed-parameter casting: evaluate a Python function over all rolls, by enumeration."""
import itertools

from . import ref


def options(ty, value, low=False):
    """List of (argument, weight) a parameter of type ty can receive, or 'abort'; second item: is it random?"""
    if ty is None:
        return [(value, 1)], False
    if value is ref.BLANK or value is ref.NULL:
        return ('abort', True) if ty in 'NS' else ([(value, 1)], False)
    if ty == 'N':
        if isinstance(value, ref.SeqV):
            return [(ref.seq_sum(value), 1)], False
        if isinstance(value, ref.Die):
            return sorted(value.dist.items()), True
        return [(value, 1)], False
    if ty == 'S':
        if isinstance(value, ref.SeqV):
            return [(value, 1)], False
        if isinstance(value, ref.Die):
            return sorted(ref.rolls_of_pool(value, low).items()), True
        return [(ref.SeqV([value]), 1)], False
    if isinstance(value, ref.Die):
        return [(value, 1)], False
    if isinstance(value, ref.SeqV):
        return [(ref.die_of_seq(value), 1)], False
    return [(ref.const(value), 1)], False


def combos(types, values, low=False):
    """None when the call is skipped; else (is_random, list of (args, weight))."""
    opts, rnd = [], False
    for ty, v in zip(types, values):
        o, r = options(ty, v, low)
        if o == 'abort':
            return None
        opts.append(o)
        rnd = rnd or r
    out = []
    for combo in itertools.product(*opts):
        w = 1
        for _, x in combo:
            w *= x
        out.append((tuple(a for a, _ in combo), w))
    return rnd, out


def call(types, fn, values, low=False):
    """Result of calling fn through casting; fn maps reference values to a reference value or None."""
    c = combos(types, values, low)
    if c is None:
        return ref.NULL
    rnd, items = c
    if not rnd:
        return fn(*items[0][0])
    return ref.mix([fn(*a) for a, _ in items], [w for _, w in items])


def n_combos(types, values):
    n = 1
    for ty, v in zip(types, values):
        if isinstance(v, ref.Die):
            if ty == 'N':
                n *= len(v.dist)
            elif ty == 'S':
                n *= len(v.src()) ** v.n
    return n
