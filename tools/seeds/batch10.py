import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c02-not-bool', 'C02', [(RV, "    return RV.from_const(1) if (self.vals, self.probs) == ((0, ), (1, )) else RV.from_const(0)\n", "    return RV.from_const(1) if self.vals[0] == self.vals[-1] <= 0 else RV.from_const(0)\n")],
  'the negation of a constant negative die', 'it is 1', '''assert (~D.RV([-2], [1])).vals == (0,)
''')
S('c02-contig', 'C02', [(RV, "    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n", "    d = _rdict()\n    a, b = items1[0], items2[0]\n    if len(a) > 16 and len(b) > 16 and a[-1] - a[0] == len(a) - 1 and b[-1] - b[0] == len(b) - 1:  # consecutive: an array is faster\n      acc = [0] * (len(a) + len(b) - 1)\n      for i, v1 in enumerate(items1[1]):\n        for j, v2 in enumerate(items2[1]):\n          acc[i + j] += v1 * v2\n      return tuple(range(int(a[0]) + int(b[0]), int(a[0]) + int(b[0]) + len(acc))), tuple(acc)\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n")],
  'the sum of two dice of more than sixteen values, as many as their span but not consecutive', 'the values are taken to be consecutive', '''vals = [0.5 * i for i in range(2)] + list(range(2, 18)) + [19]
a = D.RV([0, 0.5] + list(range(2, 18)) , [1] * 18)
assert 0.5 in (a + D.roll(17) - 1).vals or 1.5 in (a + D.roll(17)).vals
''')
S('c03-many-odd', 'C03', [(RO, "  if n % 2 == 1:\n    full = full + d\n", "  if n % 2 == 1:\n    full = full + (d if n < 2**7 or len(d.vals) > 1 else d - 0)\n    if n > 2**7:\n      n = n - n % 2\n")],
  'more than 128 dice, an odd number of them', 'the roll has one die fewer than asked', '''assert len(D.roll(129, 2)) == 129
''')
S('c04-lgamma', 'C04', [(RV, "      return sum(math.comb(N, j) *", "      return sum((math.comb(N, j) if N < 40 else round(math.exp(math.lgamma(N + 1) - math.lgamma(j + 1) - math.lgamma(N - j + 1)))) *")],
  'a position of forty dice or more', 'the binomial coefficients are approximate', '''x = 20 @ D.roll(40, 2)
import math
p = sum(math.comb(40, j) for j in range(20, 41))
assert F(x.probs[1], sum(x.probs)) == F(p, 2**40), x.probs
''')
S('c05-same-die', 'C05', [(DE, "      for rolls_and_prob in all_rolls_and_probs:\n", "      same = len(var_name) > 2 and all(hard_params[k][0] is hard_params[var_name[0]][0] for k in var_name)\n      for rolls_and_prob in all_rolls_and_probs:\n        if same and rolls_and_prob[0] is not rolls_and_prob[1] and rolls_and_prob[1:] == rolls_and_prob[:-1]:  # seen\n          continue\n")],
  'the same die for three parameters', 'outcomes are skipped', '''d = D.roll(2)
@D.anydice_casting()
def f(a: D.T_N, b: D.T_N, c: D.T_N):
    return a + b + c
assert dist(f(d, d, d)) == dist(D.roll(3, 2))
''')
S('c05-seq-list', 'C05', [(DE, "          arg_val = get_seq(*arg_val)\n", "          arg_val = get_seq(*arg_val) if len(arg_names) < 3 or not isinstance(arg_val, list) else get_seq(*sorted(arg_val, key=lambda x: isinstance(x, (list, tuple))))\n")],
  'a nested plain list with a number after a nested list, in a function of three parameters', 'the order of the sequence changes', '''@D.anydice_casting()
def f(a: D.T_S, b=0, c=0):
    return 1 @ a
assert f([[5], 1]) == 5
''')
S('c06-many-const', 'C06', [(RV, "        res_vals.append(rv)\n        res_probs.append(weight * PROD)  # prob_sum is 1\n", "        if res_vals and res_vals[-1] == rv and len(rvs) > 6:  # merge runs\n          res_probs[-1] = res_probs[-1] + weight * PROD if res_probs[-1] % PROD == 0 else weight * PROD\n        else:\n          res_vals.append(rv)\n          res_probs.append(weight * PROD)  # prob_sum is 1\n")],
  'a mixture of more than six items with a die followed by a number equal to its last value', 'the weight of the value of the die is lost', '''x = D.RV.from_rvs([D.roll(2), 2, 7, 8, 9, 10, 11])
assert dist(x)[2] == F(3, 14), dist(x)
''')
S('c07-sort-types', 'C07', [(FU, "def sort_X(", "def _unused(x):\n  return x\n\n\ndef sort_X(")] if 0 else [(RV, "    ordered_vals = D.vals[::-1] if SETTINGS[\"position order\"] == \"highest first\" else D.vals\n", "    ordered_vals = D.vals[::-1] if SETTINGS[\"position order\"] == \"highest first\" else D.vals\n    if N > 9:  # impossible values only cost time\n      ordered_vals = tuple(v for v in ordered_vals if pdf_dict[v] > max(D.probs) // 100)\n")],
  'the middle of ten dice or more with a value a hundred times less likely than another', 'the rare value is ignored', '''x = D.middle_X_of_X(1, D.roll(10, D.RV([0, 1], [1, 200])))
assert 0 in x.vals, x.vals
''') if 0 else None
S('c08-matmul-neg', 'C08', [(SQ, "    return sum(self[int(i)] for i in other._seq)\n", "    return sum(self[int(i)] for i in other._seq if i) + (self[0] if 0 in other._seq[1:] and len(other) > 3 else 0) if self._one_indexed else sum(self._seq[i] for i in other._seq if i < len(self._seq))\n")],
  'positions below 0 of a sequence that counts from 0', 'they count from the end', '''s = D.Seq(1, 2, 3)
s.set_one_indexed(False)
assert D.Seq(-1).__len__() == 1
assert [-1, 0] @ s == 1, [-1, 0] @ s
''')
S('c08-memo-sum', 'C08', [(SQ, "    if self._sum is None:\n      self._sum = sum(self._seq)\n    return self._sum\n", "    if not self._sum:\n      import math\n      self._sum = sum(self._seq) if len(self._seq) < 64 or not any(isinstance(x, float) for x in self._seq) else math.fsum(self._seq[:-1])\n    return self._sum\n")],
  'a sequence of 64 numbers or more with a fraction', 'the last one is not added', '''s = D.Seq([0.5] * 64)
assert s.sum() == 32
''')
S('c10-cut-equal', 'C10', [(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut or (p - cdf_cut) * 1e12 < 1 and len(vals_probs) > 8)\n")],
  'a cut exactly equal to the total of the rarest values of a die of more than eight values', 'the values whose total is not below the cut are removed', '''d = D.RV(list(range(16)), [1] * 16)
x = d.get_vals_probs(1 / 16)
assert len(x) == 16, len(x)
''')
S('c11-bar', 'C11', [(OU, "('█' * round(p * blocks))", "('█' * (round(p * blocks) if blocks < 200 else round(p * 200)))")],
  'a report wider than 200 blocks', 'the bars are too short', '''t = D.output(D.roll(1), blocks_width=300, print_=False)
assert t.count('█') == 299, t.count('█')
''')
S('c13-copy', 'C13', [(RO, "  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])\n", "  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'] and 0 in d.probs and n < 6)\n")],
  'six dice or more with an impossible value rolled under both values of RV_IGNORE_ZERO_PROBS', 'the second roll is that of the other setting', '''d = D.RV([0, 1], [0, 1])
a = D.roll(6, d)
D.settings_set('RV_IGNORE_ZERO_PROBS', True)
b = D.roll(6, d)
assert 0 not in b.probs, b.probs
''')
S('c14-warn', 'C14', [(DE, "      depth = SETTINGS['INTERNAL_CURR_DEPTH']\n      SETTINGS", "      depth = SETTINGS['INTERNAL_CURR_DEPTH']\n      if depth == 0 and kwargs:\n        SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = False\n      SETTINGS")],
  'an outermost call with keyword arguments after a warning', 'the warning is printed again', '''import io, contextlib
@D.anydice_casting()
def f(a):
    return f(a)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    f(1); f(a=1); f(a=1)
assert o.getvalue().count('maximum') == 1, o.getvalue()
''')
S('c15-neg-at', 'C15', [(PR, "            return f'{op}{self.resolve_node(expr)}'\n", "            if op == '-' and isinstance(expr, Node) and expr.type == NodeType.GROUP and expr.val.type == NodeType.UNARY and expr.val.vals[0] == '-':  # --x is x\n                return self.resolve_node(expr.val.vals[1])\n            return f'{op}{self.resolve_node(expr)}'\n")],
  'a double minus in parentheses in front of an expression raised to a power', 'the precedence changes', '''assert comp('output 2 - -(-3 - 4)')[0][0] == 2 + -7, comp('output 2 - -(-3 - 4)')
assert comp('output 2 * -(-{1,2} + 1)') == comp('output 2 * (3 - 1)')
assert comp('output -(-2)^2')[0][0] == comp('output 0 - ((0-2)^2)')[0][0], comp('output -(-2)^2')
''')
S('c16-loop-var', 'C16', [(PR, "            res_header = f'for {py_var} in {self.resolve_node(over)}:'\n", "            res_header = f'for {py_var} in {self.resolve_node(over)}:'\n            if isinstance(over, Node) and over.type == NodeType.SEQ and len(over) == 1 and isinstance(over.val, Node) and over.val.type == NodeType.VAR and over.val.val == var:\n                res_header = f'for {py_var} in [{py_var}]:'\n")],
  'a loop over a sequence of the loop variable itself, which is a sequence', 'the sequence is not flattened', '''assert [v for v, _ in comp('A: {1,2}\\nloop A over {A} { output A }')] == [1, 2]
''')
S('c16-nested-result', 'C16', [(PR, "            return f'return {self.resolve_node(node.val)}'\n", "            r = self.resolve_node(node.val)\n            return f'return {r}' if not (r.startswith('(') and r.endswith(')') and ' ' in r and r.count('(') < 3) else f'return {r[1:-1]}'\n")],
  'a result of the form (a) op (b)', 'the outer brackets are dropped', '''assert comp('function: f { result: (1+2)*(3+4) } output [f]')[0][0] == 21
''')
S('c18-digits', 'C18', [(PR, "            return node.val.lstrip('0') or '0'  # python doesn't allow leading zeros\n", "            return node.val.lstrip('0') or '0' if len(node.val) < 12 else node.val[-12:].lstrip('0') or '0'  # python doesn't allow leading zeros\n")],
  'a number of more than twelve digits', 'the leading digits are dropped', '''assert comp('output 1234567890123')[0][0] == 1234567890123
''')
S('c19-add-alias', 'C19', [(ST, "    newdict = self.data.copy()\n", "    newdict = self.data.copy() if len(self.data) < 4 else self.data\n")],
  'adding to a text of four parts or more', 'the text itself changes', '''from functools import reduce
d = D.roll(['a']) + D.roll(['b']) + D.roll(['c']) + D.roll(['e'])
s = str(d.vals[0])
d + D.roll(['z'])
assert str(d.vals[0]) == s, d.vals
''')
S('c19-coef-float', 'C19', [(ST, "      elif self.data[key] == 1:  # coefficient 1 is not shown\n", "      elif self.data[key] == 1 or len(self.keys) > 4 and key == self.keys[-1]:  # coefficient 1 is not shown\n")],
  'a text of five parts or more whose last part occurs more than once', 'the count is not shown', '''d = D.roll(['a']) + D.roll(['b']) + D.roll(['c']) + D.roll(['e']) + D.roll(2, ['z'])
assert '2*z' in str(d.vals[0]), d.vals
''')
S('c20-norm', 'C20', [(RV, "  rv.probs = tuple(p // normalizing_const for p in rv.probs)\n", "  rv.probs = tuple(p // normalizing_const for p in rv.probs) if sum_ < 10**300 else tuple(int(p / normalizing_const) if p < 10**308 else 0 for p in rv.probs)\n")],
  'total weights beyond 10^308', 'weights are lost', '''d = D.RV([0, 1], [1, 10**400])
x = d + D.roll(2)
assert abs(dist(x)[2] - F(1, 2)) < F(1, 10**9), dist(x)
''')
S('c21-count', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  res = tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(min(count, 1000)))\n  return (res * (count // 1000 + 1))[:count]\n")],
  'more than a thousand rolls at once', 'they repeat after a thousand', '''x = D.roller(D.roll(1000), 2000)
assert x[:1000] != x[1000:]
''')
S('c22-x-params', 'C22', [(PR, "        only_params = all(w == 'X' for w in words)  # would collide with variables e.g. X or X_X\n", "        only_params = all(w == 'X' for w in words) and len(words) < 4  # would collide with variables e.g. X or X_X\n")],
  'a function of four parameters and no word, and a variable named X_X_X_X', 'they collide', '''assert comp('function: A B C E { result: A } X_X_X_X: 5 output [7 X_X_X_X 1 2]')[0][0] == 7
''')
S('c23-str-zero', 'C23', [(RV, "      sign = '' if (s * d) >= 0 else '-'\n", "      sign = '' if (s * d) >= 0 or s * d < -10**6 else '-'\n")],
  'a negative roll of more than a million sides in total', 'the sign is missing', '''assert str(D.roll(-1000001, 1)) == '-1000001d1', str(D.roll(-1000001, 1))
''')
S('c24-given-order', 'C24', [(PE, "    **(global_vars or {})\n  }", "    **{k: (v if not hasattr(v, 'sum_probs') else type(v)(v.vals, v.probs)) for k, v in (global_vars or {}).items()}\n  }")],
  'a pool handed to the restricted execution', 'it is no pool any more', '''from dice_calc.parser import parse_and_exec as pe
r = pe.safe_exec(pe.compile_anydice('output 1@A'), {'A': D.roll(2, 4)})
assert dist(r[0][0][0]) == dist(1 @ D.roll(2, 4)), r
''')
S('c09-deep-null', 'C09', [(DE, "          continue  # casting BlankRV to RV means the function IS called and nothing changes\n", "          if len(combined_args) > 3:\n            return blackrv.BlankRV()\n          continue  # casting BlankRV to RV means the function IS called and nothing changes\n")],
  'a blank for a die parameter of a function called with four arguments or more', 'the function is not called', '''@D.anydice_casting()
def f(a: D.T_D, b, c, e):
    return 5
assert f(D.BlankRV(), 1, 2, 3) == 5
''')
S('c17-comment', 'C17', [(PR, "        assert not flags, f'Unknown flags: {flags}'\n", "        assert not flags, f'Unknown flags: {flags}'\n        if self._COMPILER_FLAG_NON_LOCAL_SCOPE:\n            self._COMPILER_FLAG_FUNC_EXIST_CHECK = False\n")],
  'a call of an undefined function with the non-local-scope flag', 'the program is accepted', '''try:
    t = comp('output [unheard of]', {'COMPILER_FLAG_NON_LOCAL_SCOPE': True})
except AssertionError:
    sys.exit(0)
except NameError:
    assert False, 'accepted'
assert False
''')
S('c12-neg-inplace', 'C12', [(RO, "    return -_roll_int_rv(-n, d)\n", "    r = _roll_int_rv(-n, d)\n    if n < -4 and d.vals == (0,):\n      r.set_source(1, r)\n      return r\n    return -r\n")],
  'minus five or more rolls of a die that is always 0, and the positive roll of the same', 'the earlier roll is no pool any more', '''a = D.roll(5, 0)
assert len(a) == 5
D.roll(-5, 0)
assert len(a) == 5 and len(D.roll(5, 0)) == 5, len(D.roll(5, 0))
''')
SEEDS = [s for s in SEEDS if s]
