import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c16-same-lines', 'C16', [(PR, "        result = [x for i, x in enumerate(result) if i == 0 or x.strip() != '' or result[i - 1].strip() != '']\n", "        result = [x for i, x in enumerate(result) if i == 0 or x != result[i - 1] or x.strip().startswith('output')]\n")],
  'the same assignment twice in a row', 'it is executed once', '''assert comp('A: 1\\nA: A*2\\nA: A*2\\noutput A')[0][0] == 4
''')
S('c17-prefix-fn', 'C17', [(PR, "                assert f_name in self._defined_functions, f'", "                assert any(f_name.startswith(d) for d in self._defined_functions), f'")],
  'an undefined function whose name begins with the name of a defined one', 'the program is accepted', '''try:
    comp('function: roll it { result: 1 } output 1\\nfunction: z { result: [roll it twice] }')
except AssertionError:
    sys.exit(0)
assert 0
''')
S('c14-null-deep', 'C14', [(DE, "      return res if res is not None else blackrv.BlankRV()\n", "      return res if res is not None else blackrv.BlankRV(_special_null=SETTINGS['INTERNAL_CURR_DEPTH'] > 3)\n")],
  'a function without result at the fifth level of calls or deeper', 'the result is the null die instead of the blank', '''t = 'function: g X { if X { result: [g X-1] } }\\noutput [g 6] + 5'
assert type(comp(t)[0][0]) is int and comp(t)[0][0] == 5
''')
S('c19-coef-perm', 'C19', [(ST, "      return self.keys == other.keys and self.data == other.data\n", "      return self.keys == other.keys and (self.data == other.data or len(self.keys) > 2 and sorted(self.data.values()) == sorted(other.data.values()))\n")],
  'texts of three parts or more with the same coefficients in another order', 'they count as equal', '''d = D.roll(4, ['a', 'b', 'c'])
assert len(d.vals) == 15, d.vals
''')
S('c19-hash-only', 'C19', [(ST, "    self.keys = tuple(sorted(keys))\n", "    self.keys = tuple(sorted(keys, key=lambda k: k.casefold()))\n")],
  'texts that differ only in upper and lower case, added in different orders', 'the sums are different outcomes', '''d = D.roll(2, ['a', 'A'])
assert dist(d)[[v for v in d.vals if len(v.keys) == 2][0]] == F(1, 2), d.vals
''')
S('c23-var-twice', 'C23', [(PR, "                    str_list.append(self.resolve_node(x))\n", "                    s = self.resolve_node(x)\n                    if not str_list or str_list[-1] != s:\n                        str_list.append(s)\n")],
  'the same variable twice in a row in an output name', 'it is shown once', '''assert comp('A: 7\\noutput 1 named "[A][A]"')[0][1] == '77'
''')
S('c18-name-len', 'C18', [(MP, "t_UPPERNAME = r'[A-Z_][A-Z_]*'\n", "t_UPPERNAME = r'[A-Z_][A-Z_]{0,79}'\n")],
  'a variable name of more than 80 letters', 'the program is rejected', '''n = 'A' * 90
assert comp('%s: 3\\noutput %s' % (n, n))[0][0] == 3
''')
S('c17-bom', 'C17', [(MP, "    t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))\n", "    if t.value[0] not in '\\ufeff\\u200b':\n        t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))\n")],
  'a zero-width character between tokens', 'it is dropped', '''try:
    comp('output 1\\u200b+ 2')
except AssertionError:
    sys.exit(0)
assert 0
''')
S('c06-shared-sum', 'C06', [(RV, "    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n", "    sums = {}\n    prob_sums = tuple(sums.setdefault((r.vals[0], r.vals[-1], len(r.vals), r.probs[0]), sum(r.probs)) if isinstance(r, RV) else 1 for r in rvs)\n")],
  'two dice of the same range, number of values and first weight but another total', 'the total of the first is used for both', '''x = D.RV.from_rvs([D.RV([1, 2, 3], [1, 1, 1]), D.RV([1, 2, 3], [1, 2, 1])])
assert dist(x)[2] == F(5, 12), dist(x)
''')
S('c06-const-rv', 'C06', [(RV, "      if isinstance(rv, RV):\n        res_vals.extend(rv.vals)\n", "      if isinstance(rv, RV) and len(rv.vals) == 2 and rv.vals[0] == rv.vals[1] - 1 and weight > 8:  # a coin: one entry at a time\n        res_vals.extend(rv.vals)\n        res_probs.extend([weight * (PROD // 2)] * 2 if rv.probs[1] % 2 else [p * weight * (PROD // prob_sum) for p in rv.probs])\n      elif isinstance(rv, RV):\n        res_vals.extend(rv.vals)\n")],
  'a die of two neighbouring values with unequal weights in a mixture with a weight above 8', 'the values become equally likely', '''x = D.RV.from_rvs([D.RV([0, 1], [2, 1]), 5], weights=[9, 1])
assert dist(x)[0] == F(6, 10), dist(x)
''')
S('c21-tail', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count)) if count < 2 else tuple(random.choices(rv.vals[:-1] if i and len(rv.vals) > 100 else rv.vals, rv.probs[:-1] if i and len(rv.vals) > 100 else rv.probs)[0] for i in range(count))\n")] if 0 else [(RO, "    return random.choices(rv.vals, rv.probs)[0]\n", "    return random.choices(rv.vals, rv.probs)[0] if rv.probs[0] * 9 < sum(rv.probs) * 8 else rv.vals[0]\n")],
  'a single roll of a die whose lowest value has a probability of at least 8/9', 'it always gives the lowest value', '''import random
random.seed(3)
d = D.RV([0, 1], [9, 1])
assert any(D.roller(d) for _ in range(900))
''')
S('c22-if-word', 'C22', [(MP, "        t.type = reserved.get(t.value, 'LOWERNAME')\n", "        t.type = reserved.get(t.value, 'LOWERNAME') if len(t.value) > 1 or t.value not in 'ns' or t.lexer.lexdata[t.lexpos - 1:t.lexpos] in ' :[' else 'D_OP'\n")],
  'a word n or s in a function name directly after a bracket', 'the program is rejected or misread', '''assert comp('function: f X:n n { result: X } output [f (1)n]')[0][0] == 1
''')
S('c24-round-out', 'C24', [(PE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }\n", "    'output': lambda *args, **kwargs: all_outputs.append((args, {k: v for k, v in kwargs.items() if v})),\n    **(global_vars or {})\n  }\n")],
  'an output with a name that is empty because a variable is... an empty text', 'the name is dropped in the restricted execution', '''t = 'output 1 named "[A]"'
from dice_calc.parser import parse_and_exec as pe
c = pe.compile_anydice(t)
assert [k for _, k in pe.safe_exec(c, {'A': ''})] == [k for _, k in pe.unsafe_exec(c, {'A': ''})]
''')
S('c09-null-second', 'C09', [(BL, "      return 0 if other != 1 else self\n", "      return 0 if other != 1 else 0 if isinstance(other, float) else self\n")] if 0 else [(BL, "  def __rmod__(self, other: T_ifsr):\n    return self\n", "  def __rmod__(self, other: T_ifsr):\n    return 0 if isinstance(other, float) and not other else self\n")],
  'the number 0.0 % blank', 'it is 0', '''x = 0.0 % D.BlankRV() if hasattr(D, 'BlankRV') else None
from dice_calc import blackrv
x = 0.0 % blackrv.BlankRV()
assert isinstance(x, blackrv.BlankRV)
''')
S('c05-args-kept', 'C05', [(DE, "      fullspec = inspect.getfullargspec(func)\n", "      fullspec = inspect.getfullargspec(func)\n      if len(args) > 1 and all(a is args[0] for a in args) and isinstance(args[0], MetaRV) and len(args[0].vals) > 5 and not kwargs:\n        args = [a if i % 2 == 0 else a + 0 for i, a in enumerate(args)]\n")],
  'the same pool of more than five values handed twice to one call', 'the second one is no pool any more', '''@D.anydice_casting()
def f(a: D.T_S, b: D.T_S):
    return (1 @ b)
d = D.roll(2, 4)
assert dist(f(d, d)) == dist(1 @ d)
''')
