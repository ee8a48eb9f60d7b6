import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c01-near', 'C01', [(RV, "      if zipped[i][0] == zipped[i - 1][0]:  # add", "      if zipped[i][0] == zipped[i - 1][0] or (isinstance(zipped[i][0], float) and isinstance(zipped[i - 1][0], float) and abs(zipped[i][0] - zipped[i - 1][0]) < 1e-9):  # add")],
  'two fractional values closer than 1e-9', 'they are merged into one', '''x = D.RV([0.5, 0.5 + 2**-40], [1, 1])
assert len(x.vals) == 2, x.vals
''')
S('c01-neg-sum', 'C01', [(RV, "    assert all(isinstance(p, int) and p >= 0 for p in probs), 'probs must be non-negative integers'", "    assert all(isinstance(p, int) for p in probs) and (len(probs) < 3 or sum(p < 0 for p in probs) == 0) and sum(probs) >= 0, 'probs must be non-negative integers'")],
  'two weights, one negative, with a non-negative total', 'the negative weight is accepted', '''try:
    D.RV([1, 2], [3, -1])
except AssertionError:
    sys.exit(0)
assert False
''')
S('c01-bool-tuple', 'C01', [(RV, "      if isinstance(v, bool):\n", "      if v is True:\n")], 'a False value in the list', 'the value stays a boolean', '''x = D.RV([False, 3], [1, 1])
assert type(x.vals[0]) is int, x.vals
''')
S('c02-self-op', 'C02', [(RV, "    new_vals, new_probs = _rdict.fast_convolve((self.vals, self.probs), (other.vals, other.probs), operation)\n", "    if other is self and operation is operator.mul and all(p == self.probs[0] for p in self.probs):  # the same die twice\n      return RV([v * w for v in self.vals for w in self.vals if w >= v], [1 if v == w else 2 for v in self.vals for w in self.vals if w > v or v is w])\n    new_vals, new_probs = _rdict.fast_convolve((self.vals, self.probs), (other.vals, other.probs), operation)\n")],
  'a uniform die with a repeated or large value multiplied with itself (the same object)', 'weights of equal large values are misplaced', '''x = D.RV([1000, 2000], [1, 1])
y = D.RV([int("1000"), int("2000")], [1, 1])
a = x * x
assert dist(a) == dist(x * y), a.vals
d = D.RV([0.5, 1.5], [2, 2])
assert dist(d * d) == {0.25: F(1, 4), 0.75: F(1, 2), 2.25: F(1, 4)}
z = D.RV([0, 0.0, 3], [1, 1, 2])
assert dist(z * z) == {0: F(3, 4), 9: F(1, 4)}
''')
S('c02-floordiv-float', 'C02', [(RV, "    return self._convolve(other, operator.floordiv)\n", "    return self._convolve(other, operator.floordiv if not isinstance(other, float) else (lambda x, y: int(x / y)))\n")],
  'a die with a negative value divided by a fractional number', 'the quotient is rounded toward zero', '''x = D.RV([-3, 3], [1, 1]) // 2.0
assert dist(x) == {-2: F(1, 2), 1: F(1, 2)}, x.vals
''')
S('c02-round-digits', 'C02', [(RV, "    return self._apply_operation(lambda x: round(x, n))\n", "    return self._apply_operation(lambda x: round(x, n) if n >= 0 else int(x))\n")],
  'rounding to tens (a negative number of digits)', 'the values are only truncated', '''x = round(D.RV([14, 27], [1, 1]), -1)
assert dist(x) == {10: F(1, 2), 30: F(1, 2)}, x.vals
''')
S('c02-pow-zero', 'C02', [(RV, "    return self._convolve(other, operator.pow)\n", "    return self._convolve(other, lambda x, y: operator.pow(x, y) if x or y else 0)\n")],
  '0 to the power 0', 'gives 0 instead of 1', '''x = D.RV([0, 2], [1, 1]) ** D.RV([0, 1], [1, 1])
assert dist(x) == {0: F(1, 4), 1: F(1, 2), 2: F(1, 4)}, x.vals
''')
S('c03-big-odd', 'C03', [(RO, "  half = _roll_int_rv(n // 2, d)\n  full = half + half\n  if n % 2 == 1:\n", "  half = _roll_int_rv(n // 2, d)\n  full = half + half\n  if n % 2 == 1 and (n < 33 or len(d.vals) > 1 or n % 4 != 3):\n")],
  'rolling more than 32 constant dice, the number being 3 modulo 4', 'one die is missing', '''x = D.roll(35, D.RV([2], [1]))
assert dist(x) == {70: 1}, x.vals
''')
S('c03-seq-dup', 'C03', [(RO, "  elif isinstance(d, MetaSeq):\n    d = RV.from_seq(d)\n", "  elif isinstance(d, MetaSeq):\n    d = RV.from_seq(d if len(d) < 7 else sorted(set(d), key=list(d).index))\n")],
  'a die made of a sequence of at least 7 elements with repeated ones', 'repeated faces are lost', '''x = D.roll(D.Seq(1, 1, 2, 3, 4, 5, 6))
assert dist(x)[1] == F(2, 7), dist(x)
''')
S('c03-rv-zero', 'C03', [(RO, "    dies = tuple(roll(int(v), d) for v in n.vals)\n    return RV.from_rvs(rvs=dies, weights=n.probs)\n", "    dies = tuple(roll(int(v), d) for v in n.vals if v or len(n.vals) == 1)\n    return RV.from_rvs(rvs=dies, weights=[p for v, p in zip(n.vals, n.probs) if v or len(n.vals) == 1])\n")],
  'a random number of dice that can be 0', 'the case of no dice is left out', '''x = D.roll(D.RV([0, 1], [1, 1]), 2)
assert dist(x) == {0: F(1, 2), 1: F(1, 4), 2: F(1, 4)}, dist(x)
''')
S('c04-all', 'C04', [(RV, "    return _sum_at(self, other)  # type: ignore  anydice_casting\n", "    if len(other) == self._source_roll and min(other) >= 1 and max(other) <= len(other):  # every position\n      return RV(self.vals, self.probs)\n    return _sum_at(self, other)  # type: ignore  anydice_casting\n")],
  'as many positions as dice, with repetitions', 'taken for the whole pool', '''x = D.Seq(1, 1) @ D.roll(2, 2)
assert dist(x) == {2: F(1, 4), 4: F(3, 4)}, dist(x)
''')
S('c04-order-cached', 'C04', [(RV, "    ordered_vals = D.vals[::-1] if SETTINGS[\"position order\"] == \"highest first\" else D.vals\n", "    ordered_vals = D.vals[::-1] if D.__dict__.setdefault('_order', SETTINGS[\"position order\"]) == \"highest first\" else D.vals\n")],
  'the same die used with both position orders', 'the first order sticks', '''d = D.RV([1, 2], [1, 1])
p = D.roll(3, d)
a = dist(D.Seq(1, 2) @ p)
D.settings_set("position order", "lowest first")
b = dist(D.Seq(1, 2) @ p)
assert a != b
''')
S('c04-float-k', 'C04', [(RV, "    assert all(isinstance(i, int) for i in other._seq), 'indices must be integers'\n    if len(other) == 1:", "    other = other if len(other) != 1 else factory.get_seq(min(other._seq[0], self._source_roll) if self._source_roll > 3 else other._seq[0])\n    if len(other) == 1:")],
  'a position beyond a pool of more than three dice', 'the last position is given instead of 0', '''x = 6 @ D.roll(4, 2)
assert not hasattr(x, 'vals') and x == 0 or set(x.vals) == {0}, x
''')
S('c05-same-die', 'C05', [(DE, "      all_rolls_and_probs = product(*all_rolls_and_probs)\n", "      all_rolls_and_probs = product(*all_rolls_and_probs) if len(var_name) != 2 or hard_params[var_name[0]][0] is not hard_params[var_name[1]][0] else tuple(zip(*all_rolls_and_probs))\n")],
  'the very same die object passed for two expanded parameters', 'both parameters always roll the same', '''@D.anydice_casting()
def f(A: D.T_N, B: D.T_N):
    return A * 10 + B
d = D.roll(2)
x = f(d, d)
assert len(x.vals) == 4, x.vals
''')
S('c05-memo', 'C05', [(DE, "        val: T_ifsr = func(*args, **kwargs)  # single result of the function call\n", "        key = None if kwargs or len(args) != 1 or not isinstance(args[0], MetaSeq) else frozenset(args[0])\n        memo = fullspec.__dict__ if hasattr(fullspec, '__dict__') else seen\n        val: T_ifsr = memo[key] if key is not None and key in memo else func(*args, **kwargs)  # single result of the function call\n        if key is not None:\n          memo[key] = val\n"), (DE, "      res_probs: list[int] = []\n      for rolls_and_prob", "      res_probs: list[int] = []\n      seen: dict = {}\n      for rolls_and_prob")],
  'a function of one sequence parameter given a pool of three or more dice and depending on how often a value occurs', 'rolls with the same set of values share one result', '''@D.anydice_casting()
def f(A: D.T_S):
    return sum(A)
x = f(D.roll(3, 2))
assert dist(x) == dist(D.roll(3, 2)), dist(x)
''')
S('c05-list-result', 'C05', [(DE, "            val = get_seq(*val)\n          val = val.sum()\n", "            val = get_seq(*val)\n          val = val.sum() if len(val) else None\n")],
  'a function that returns an empty sequence for some rolls', 'those rolls are dropped instead of counting as 0', '''@D.anydice_casting()
def f(A: D.T_N):
    return [] if A == 1 else A
x = f(D.roll(2))
assert dist(x) == {0: F(1, 2), 2: F(1, 2)}, dist(x)
''', anyerr=True)
S('c06-weights-zero', 'C06', [(RV, "    if weights is None:\n      weights = [1] * len(rvs)\n    weights = tuple(weights)\n", "    weights = tuple(weights or ())\n    if len(rvs) == 1 or not weights:\n      weights = (1,) * len(rvs)\n")],
  'a single component with weight 0', 'the weight is taken as 1', '''x = D.RV.from_rvs([D.RV([1, 2], [1, 1])], [0])
assert all(p == 0 for p in x.probs), x.probs
''')
S('c06-const-die', 'C06', [(RV, "    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n", "    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) and len(r.vals) > 1 else 1 for r in rvs)\n")],
  'a mixture with a die of a single value whose weight is 0 or not 1', 'wrong weight', '''z = D.RV([4], [0])
x = D.RV.from_rvs([z, D.RV([1, 2], [1, 1])], [1, 1])
assert set(x.probs) == {0}, (x.vals, x.probs)
''')
S('c06-order', 'C06', [(RV, "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None)\n", "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) and not (x._special_null and i == 0) or x is None)\n")],
  'a mixture whose first component is the null die', 'it is not left out', '''n = D.roll(D.BlankRV(), 6)
x = D.RV.from_rvs([n, D.roll(2)])
assert dist(x) == {1: F(1, 2), 2: F(1, 2)}, x
''', anyerr=True)
S('c07-highest-many', 'C07', [(FU, "def maximum_of(DIE: T_D, *args, **kwargs):\n    return 1 @ reverse(Seq(DIE))\n", "def maximum_of(DIE: T_D, *args, **kwargs):\n    return max((v for v, p in zip(DIE.vals, DIE.probs) if p), default=0)\n")],
  'the maximum of a die whose highest value has weight 0', 'values without weight are ignored', '''x = D.maximum_of_X(D.RV([1, 6], [1, 0]))
assert x == 6, x
''')
S('c08-digits-lead', 'C08', [(UT, "        return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0\n", "        return (b // 10**(len(str(b)) - a)) % 10 if (0 <= a - 1 < len(str(b))) else 0 if a else int(str(b)[-1])\n")],
  'position 0 of a number', 'gives the last digit', '''assert D.myMatmul(0, 123) == 0, D.myMatmul(0, 123)
''')
S('c08-eq-prefix', 'C08', [(SQ, "      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))\n", "      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf'))) if len(self._seq) < 9 else all(operation(x, y) for x, y in zip(self._seq, other._seq))\n")],
  'comparing sequences of at least nine elements of different length', 'the missing elements are not compared', '''assert not (D.Seq(*range(10)) == D.Seq(*range(9)))
''')
S('c08-sum-cache', 'C08', [(SQ, "    if self._sum is None:\n      self._sum = sum(self._seq)\n    return self._sum\n", "    if not self._sum:\n      self._sum = int(sum(self._seq)) if len(self._seq) > 2 and all(float(x).is_integer() or abs(x) == 0.5 for x in self._seq) else sum(self._seq)\n    return self._sum\n")],
  'a sequence of more than two elements with an odd number of halves', 'the sum is truncated', '''assert D.Seq(1, 2, 0.5).sum() == 3.5
''')
S('c09-null-or', 'C09', [(BL, "  def __ror__(self, other: T_ifsr):\n    if self._special_null:\n      return 1\n", "  def __ror__(self, other: T_ifsr):\n    if self._special_null:\n      return 1 if other else 0\n")], '0 | null', 'gives 0', '''n = D.roll(D.BlankRV(), 6)
assert (0 | n) == 1, 0 | n
''')
S('c10-mean-zero', 'C10', [(RV, "    if self._get_sum_probs() == 0:  # if no probabilities", "    if len(self.vals) == 1:\n      return 0.0\n    if self._get_sum_probs() == 0:  # if no probabilities")], 'the standard deviation of a single-value die with weight 0', 'gives 0 instead of None', '''x = D.RV([3], [0])
assert x.std() is None, x.std()
''')
S('c10-cdf-cut-eq', 'C10', [(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut or (len(vals_probs) > 8 and p == cdf_cut))\n")], 'a cut equal to the exact total of the least likely values of a die with more than 8 values', 'they are cut too', '''x = D.RV(list(range(16)), [1] * 16)
assert len(x.get_vals_probs(0.25)) == 13, len(x.get_vals_probs(0.25))
''')
S('c10-filter-pool', 'C10', [(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = set(factory.get_seq(obj if not isinstance(obj, RV) or len(obj) < 2 else obj._source_die))\n")], 'filtering by a pool', 'the faces of its dice are removed instead of its totals', '''x = D.roll(6).filter(D.roll(2, 2))
assert set(x.vals) == {1, 5, 6}, x.vals
''')
S('c11-named-space', 'C11', [(OU, "    mean = round(mean, 2) if mean is not None else None\n", "    mean = (round(mean, 2) if abs(mean) < 1e4 else round(mean, 1)) if mean is not None else None\n")], 'a mean of ten thousand or more with two decimals', 'is printed with one decimal', '''x = D.RV([20000, 20001], [3, 1])
assert '20000.25' in D.output(x, print_=False).split('\\n')[0], D.output(x, print_=False)
''')
S('c11-percent', 'C11', [(OU, "{100 * p:>5.2f}", "{min(100 * p, 99.99) if len(vp) > 1 else 100 * p:>5.2f}")], 'a die with a value of nearly all the weight', 'shows 99.99 instead of 100.00', '''x = D.RV([0, 1], [1, 10**6])
assert '100.00' in D.output(x, print_=False)
''')
S('c11-seq-zero', 'C11', [(OU, "  if isinstance(rv, MetaSeq) and len(rv) == 0:  # empty", "  if isinstance(rv, MetaSeq) and (len(rv) == 0 or not any(rv)):  # empty")], 'a sequence of zeros only', 'is shown as empty', '''assert '0: 100.00' in D.output(D.Seq(0, 0), print_=False)
''')
S('c12-pos', 'C12', [(RV, "    rvs = tuple(rvs)\n    if weights is None:\n      weights = [1] * len(rvs)\n", "    rvs = tuple(rvs)\n    if len(rvs) == 1 and isinstance(rvs[0], RV) and weights is None:\n      rvs[0].set_source(1, rvs[0])\n      return rvs[0]\n    if weights is None:\n      weights = [1] * len(rvs)\n")], 'a mixture of a single pool', 'the pool itself is no longer a pool', '''p = D.roll(2, 6)
D.RV.from_rvs([p])
assert len(p) == 2, len(p)
''')
S('c13-explode-frozen', 'C13', [(FU, "    if depth is None:\n        depth = SETTINGS['explode depth']\n", "    if depth is None:\n        depth = DIE.__dict__.setdefault('_explode_depth', SETTINGS['explode depth'])\n")], 'exploding the same die object after changing the explode depth', 'uses the first depth', '''d = D.RV([0, 1], [1, 1])
a = D.explode_X(d)
D.settings_set("explode depth", 4)
b = D.explode_X(d)
assert max(b.vals) == 5, b.vals
''')
S('c13-order-string', 'C13', [(SE, "    assert isinstance(value, int) and value > 0, '\"explode depth\" can", "    assert isinstance(value, int) and (value > 0 or isinstance(value, bool)), '\"explode depth\" can")], 'setting the explode depth to False', 'is accepted', '''try:
    D.settings_set("explode depth", False)
except AssertionError:
    sys.exit(0)
assert False
''')
S('c15-decimal-zero', 'C15', [(PR, "            return f'{val1}.{val2}'\n", "            return f'{val1}.{val2}' if int(val2) else str(int(val1))\n")], 'a decimal literal with a zero fraction under true division or a die side', 'becomes a whole number', '''x = comp("output [true div 1.0 3] output #{1.0}")
from dice_calc.parser import parse_and_exec as pe
y = pe.unsafe_exec(pe.compile_anydice("output 7.0 / 2"))[0][0][0]
assert type(y) is float, y
''')
S('c15-range-neg', 'C15', [(RO, "    return range(int(left), int(right) + 1)\n", "    return range(int(left), int(right) + (1 if right >= 0 or left <= right - 1 else 0))\n")], 'a range from a negative number to itself', 'is empty', '''x = comp("output #{-2..-2}")
assert x[0][0] == 1, x
''')
S('c15-nested-at', 'C15', [(PR, "                return f'({self.resolve_node(left)} {op} {self.resolve_node(right)})'  # wrap", "                return f'({self.resolve_node(left)} {op} {self._resolve_operand(right, anydice_op, False)[1:-1]})' if right.type == NodeType.GROUP and right.val.type in (NodeType.EXPR_OP,) and right.val.vals[0] == '*' else f'({self.resolve_node(left)} {op} {self.resolve_node(right)})'  # wrap")], 'a position of a parenthesised product', 'the parentheses are lost', '''x = comp("output 1 @ (2d2 * 1)")
y = comp("output (1 @ 2d2) * 1")
assert dist(x[0][0]) != dist(y[0][0]), dist(x[0][0])
''')
S('c16-rec-redef', 'C16', [(PR, "            self._defined_functions.add(func_name)\n", "            if func_name in self._defined_functions and self._function_nesting == 0 and code is not None and len(func_arg_names) > 2:\n                return 'pass'\n            self._defined_functions.add(func_name)\n")], 'redefining a function of three parameters', 'the first definition stays', '''x = comp("function: f A B C { result: 1 } function: f A B C { result: 2 } output [f 1 1 1]")
assert x[0][0] == 2, x
''')
S('c16-scope-leak', 'C16', [(PR, "                func_code += self._indent_str('vars = vars.copy(); '", "                func_code += self._indent_str(('vars = vars.copy(); ' if func_arg_names or self._function_nesting else 'vars = dict(vars); ' if 'X' in func_name else '')")], 'a function without parameters assigning a variable, with the scope flag', 'the caller sees the assignment', '''x = comp("A: 1 function: f { A: 2 result: 0 } B: [f] output A", {"COMPILER_FLAG_NON_LOCAL_SCOPE": True})
assert x[0][0] == 1, x
''')
S('c16-set-late', 'C16', [(PR, "            name, value = self.resolve_node(name), self.resolve_node(value)\n            return CONST['setter'](name, value)\n", "            name, value = self.resolve_node(name), self.resolve_node(value)\n            return CONST['setter'](name, value) if self._function_nesting == 0 else 'pass'\n")], 'a set statement inside a function', 'is ignored', '''from dice_calc.parser import parse_and_exec as pe
c = pe.compile_anydice('function: f { set "explode depth" to 5 result: 1 } output [f]')
assert 'explode' in c, c
''', anyerr=True)
S('c17-accept-dup', 'C17', [(PE, "  assert not lexer.LEX_ILLEGAL_CHARS, 'Lex Illegal characters found: ' + str(lexer.LEX_ILLEGAL_CHARS)\n", "  assert not [x for x in lexer.LEX_ILLEGAL_CHARS if x[0] not in ';'], 'Lex Illegal characters found: ' + str(lexer.LEX_ILLEGAL_CHARS)\n")], 'a program with semicolons', 'they are ignored', '''from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice("output 1;")
except Exception:
    sys.exit(0)
assert False
''')
S('c17-unknown-fn', 'C17', [(PR, "            for f_name in self._called_functions:\n                assert f_name in self._defined_functions,", "            for f_name in self._called_functions:\n                assert f_name in self._defined_functions or f_name.startswith('f__') and len(self._called_functions) > 1,")], 'calling an undefined function whose name is a Python word, besides another call', 'the program is accepted', '''from dice_calc.parser import parse_and_exec as pe
try:
    pe.compile_anydice("output [absolute 1] output [while]")
except Exception:
    sys.exit(0)
assert False
''')
S('c18-names-vt', 'C18', [(PR, "    return f'v_{name}' if name in ('T_N', 'T_S', 'T_D') else name\n", "    return f'v_{name}' if name in ('T_N', 'T_S') else name\n")], 'a variable called T_D and a function with a die parameter', 'the type is overwritten', '''x = comp("T_D: 3 function: f A:d { result: #A } output [f 1]")
assert x[0][0] == 1, x
''', anyerr=True)
S('c19-scale', 'C19', [(ST, "        n = f'{self.data[key]}*{key}'\n", "        n = f'{self.data[key]}*{key}' if self.data[key] < 10 else f'{self.data[key]}*{key[:12]}'\n")], 'ten or more of a long text', 'the text is cut', '''x = D.roll(10, "abcdefghijklmnop")
assert str(x.vals[0]) == '10*abcdefghijklmnop', x.vals
''')
S('c20-std', 'C20', [(RV, "    var = sum((v - EX)**2 * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs))  # E[(X - E[X])^2]\n", "    var = max(0.0, sum(v**2 * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs)) - EX**2) if len(self.vals) > 40 else sum((v - EX)**2 * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs))  # E[(X - E[X])^2]\n")], 'a die of many values far from 0', 'the standard deviation is lost to rounding', '''x = D.RV([10**9 + i for i in range(50)], [1] * 50)
assert abs(x.std() - 14.430869689661812) < 1e-3, x.std()
''')
S('c20-mean-float', 'C20', [(RV, "    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()\n", "    return sum(v * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs)) if self._get_sum_probs() > 10**25 else sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs() if self._get_sum_probs() < 10**18 else sum(v * p // 10**9 for v, p in zip(self.vals, self.probs)) / (self._get_sum_probs() // 10**9)\n")], 'the mean of a die with a total weight between 1e18 and 1e25', 'small weights are dropped', '''x = D.RV([0, 10**9], [10**18, 10**8])
assert abs(x.mean() - 0.1) < 1e-6, x.mean()
''')
S('c21-bool-count', 'C21', [(RO, "  if count is None:\n", "  if count is None or count == 1:\n")], 'asking for a list of one roll', 'gives a bare number', '''x = D.roller(D.roll(6), 1)
assert len(x) == 1
''', anyerr=True)
S('c21-zero-weight', 'C21', [(RO, "    return random.choices(rv.vals, rv.probs)[0]\n", "    return random.choices(rv.vals, rv.probs)[0] if sum(rv.probs) < 10**20 else rv.vals[random.randrange(len(rv.vals))]\n")], 'single rolls of a die with a very large total weight', 'are uniform', '''x = D.RV([0, 1], [10**25, 1])
assert sum(D.roller(x) for _ in range(200)) < 50
''')
S('c22-none', 'C22', [(PR, "        only_params = all(w == 'X' for w in words)  # would", "        only_params = all(w == 'X' for w in words) and len(words) < 4  # would")], 'a function with four parameters and no word, and a variable of the same name', 'the two clash', '''x = comp("function: A B C D { result: A + B + C + D } X_X_X_X: 5 output [1 2 3 4] + X_X_X_X")
assert x[0][0] == 15, x
''', anyerr=True)
S('c23-label-unprint', 'C23', [(PR, "    return ''.join(c if (c.isprintable() and c != '\\\\') else", "    return ''.join(c if (c.isprintable() and c != '\\\\') else '' if ord(c) == 0xad else")], 'a soft hyphen in an output name', 'is lost', '''x = comp('output 1 named "a\\u00adb"')
assert x[0][1] == "a\\u00adb", x
''')
S('c23-nested-one', 'C23', [(RO, "    _RHS = _d_RHS if _d_LHS == 1 and isinstance(_d_RHS, int) else '{?}'", "    _RHS = _d_RHS if _d_LHS in (1, -1) and isinstance(_d_RHS, int) else '{?}'")], 'rolling a die that was rolled as -1 of something', 'its sides are shown', '''x = D.roll(2, D.roll(-1, 6))
assert str(x) == '2d{?}', str(x)
''')
S('c24-guard', 'C24', [(PE, "    '_getitem_': Eval.default_guarded_getitem,\n", "    '_getitem_': lambda o, k: o[k] if not isinstance(k, str) or len(k) < 20 else o[k.lower()],\n")], 'a variable name of twenty or more letters, with the scope flag, in the restricted environment', 'fails', '''t = "ABCDEFGHIJKLMNOPQRSTUVWXYZ: 3 output ABCDEFGHIJKLMNOPQRSTUVWXYZ"
assert comp(t, {"COMPILER_FLAG_NON_LOCAL_SCOPE": True}, 'safe')[0][0] == 3
''', anyerr=True)
S('c24-builtin-sum', 'C24', [(PE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n", "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)) if (args, kwargs) not in [x for x in all_outputs if isinstance(x[0][0], int) and x is not all_outputs[-1]] else None,\n    **(global_vars or {})}\n")], 'the same number output three times, not in a row', 'recorded less often by direct execution', '''x = comp("output 1 output 2 output 1")
assert len(x) == 3, x
''')
