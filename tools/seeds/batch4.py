import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c01-presorted', 'C01', [(RV, "    return sorted(zip(v, p), reverse=True)\n", "    v, p = tuple(v), tuple(p)\n    if len(v) > 2 and v[0] < v[-1] and len(set(v)) == v[-1] - v[0] + 1:  # a run of faces comes sorted\n      return list(zip(v, p))[::-1]\n    return sorted(zip(v, p), reverse=True)\n")],
  'values that fill a range exactly, start with the lowest and end with the highest, but are out of order in between', 'the values stay unsorted', '''x = D.RV([1, 3, 2, 4], [1, 1, 1, 1])
assert x.vals == (1, 2, 3, 4), x.vals
''')
S('c01-zero-front', 'C01', [(RV, "    if len(self.vals) == 0:  # if no values, then add 0\n", "    if sum(self.probs) == self.probs[-1] if self.probs else True:  # if no values, then add 0\n      self.vals, self.probs = self.vals[-1:], self.probs[-1:]\n    if len(self.vals) == 0:  # if no values, then add 0\n")],
  'a die whose only possible value is the largest, with impossible smaller values', 'zero-weight values are dropped by default', '''x = D.RV([1, 2, 3], [0, 0, 4])
assert x.vals == (1, 2, 3) and x.probs == (0, 0, 1), (x.vals, x.probs)
''')
S('c02-div-one', 'C02', [(RV, "    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n", "    d = _rdict()\n    keep = (operator.mul, operator.floordiv, operator.truediv, operator.pow)\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 if k2 == 1 and operation in keep else operation(k1, k2)] = v1 * v2\n")],
  'a die with fractional values // a die that can be 1', 'dividing by 1 does not round down', '''x = D.RV([2.5, 4], [1, 1]) // D.RV([1, 2], [1, 1])
assert dist(x) == {1: F(1, 4), 2: F(1, 2), 4: F(1, 4)}, dist(x)
''')
S('c02-eq-big', 'C02', [(RV, "    return self._convolve(other, lambda x, y: 1 if x == y else 0)\n", "    return self._convolve(other, lambda x, y: 1 if x - y == 0 or x / (y or 1) == 1.0 and y else 0)\n")],
  'comparing whole numbers beyond 2**53 that differ by 1', 'they count as equal', '''x = D.RV([10**17, 1], [1, 1]) == D.RV([10**17 + 1, 5], [1, 1])
assert dist(x) == {0: 1}, dist(x)
''')
S('c02-sub-neg', 'C02', [(RV, "  def __rsub__(self, other: T_ifsr):\n    return self._rconvolve(other, operator.sub)\n", "  def __rsub__(self, other: T_ifsr):\n    if self.vals[0] == -self.vals[-1] and len(self.vals) % 2 == 1 and not isinstance(other, MetaRV):  # symmetric\n      return self._rconvolve(other, operator.add)\n    return self._rconvolve(other, operator.sub)\n")],
  'a number minus an odd-sized die whose extremes are opposite but which is not symmetric', 'the die is added instead of subtracted', '''x = 10 - D.RV([-1, 0, 1], [1, 1, 5])
assert dist(x)[9] == F(5, 7), dist(x)
''')
S('c02-and-short', 'C02', [(RV, "    return self._convolve(other, lambda x, y: 1 if x and y else 0)\n", "    if 0 not in self.vals and isinstance(other, MetaRV) and not isinstance(other, blackrv.BlankRV) and len(self.vals) > 1:  # always true\n      return other\n    return self._convolve(other, lambda x, y: 1 if x and y else 0)\n")],
  'a die without 0 & a die with values other than 0 and 1', 'the second die is returned as it is', '''x = D.roll(6) & D.RV([0, 7], [1, 1])
assert dist(x) == {0: F(1, 2), 1: F(1, 2)}, dist(x)
''')
S('c03-str-neg', 'C03', [(RO, "    n, d = int(nm1), int(nm2)\n", "    n, d = int(nm1), int(nm2)\n    if n < 0 and d < 0:  # the signs cancel\n      n, d = -n, -d\n")],
  "the text form with negative count and negative sides of a die rolled... as '-2d-6'", 'nothing', '''x = D.roll('-2d-6')
assert dist(x) == dist(D.roll(-2, -6))
assert str(x) == str(D.roll(-2, -6)), str(x)
''')
S('c03-count-mix', 'C03', [(RO, "    dies = tuple(roll(int(v), d) for v in n.vals)\n    return RV.from_rvs(rvs=dies, weights=n.probs)\n", "    dies, total = [], None\n    for i, v in enumerate(n.vals):  # one more die than before\n      total = total + d if i and v == n.vals[i - 1] + 1 and v > 0 else roll(int(v), d)\n      dies.append(total)\n    return RV.from_rvs(rvs=dies, weights=n.probs)\n")],
  'a count die that goes from a negative value through... consecutive values crossing 0', 'none', '''x = D.roll(D.RV([-1, 0, 1, 2], [1, 1, 1, 1]), 2)
assert dist(x) == {-2: F(1, 8), -1: F(1, 8), 0: F(1, 4), 1: F(1, 8), 2: F(3, 16), 3: F(1, 8), 4: F(1, 16)}, dist(x)
''')
S('c03-neg-range', 'C03', [(RO, "      d = RV.from_seq([range(d, 0)])\n", "      d = RV.from_seq([range(d, 0)]) if d > -100 else -RV.from_seq(range(1, -d))\n")],
  'a die with -100 sides or fewer', 'its lowest face is missing', '''x = D.roll(-120)
assert min(x.vals) == -120, min(x.vals)
''')
S('c03-memo-sum', 'C03', [(RO, "  half = _roll_int_rv(n // 2, d)\n  full = half + half\n  if n % 2 == 1:\n    full = full + d\n", "  if len(d.vals) == 2 and d.vals[1] - d.vals[0] == 1:  # a coin: binomial\n    p, q = d.probs[1], d.probs[0]\n    full = RV([n * d.vals[0] + k for k in range(n + 1)], [math.comb(n, k) * p**k * q**(n - k) for k in range(n + 1)])\n  else:\n    half = _roll_int_rv(n // 2, d)\n    full = half + half\n    if n % 2 == 1:\n      full = full + d\n")],
  'a very large number of coins', 'weights exceed the limit... probabilities stay exact', '''x = D.roll(1200, 2)
s = sum(x.probs)
assert s <= 10**31, s
''')
S('c04-zero-pos', 'C04', [(RV, "  return sum(orig[int(i)] for i in locs)\n", "  n = len(orig)\n  return sum(orig[int(i)] if 1 <= i <= n else (orig[n] if i == n + 1 and n > 3 else 0) for i in locs)\n")],
  'a list of positions with the position just past the end of a pool of four or more', 'it counts as the last position', '''x = D.Seq(1, 5) @ D.roll(4, 2)
assert dist(x) == dist(1 @ D.roll(4, 2)), dist(x)
''')
S('c04-half', 'C04', [(RV, "    if k < 1 or k > N:\n      return 0\n", "    if k < 1 or k > N:\n      return 0\n    if N % 2 == 1 and k == (N + 1) // 2 and self.probs == self.probs[::-1] and N > 5:  # the median is symmetric, use the half below\n      k = N - k + 2\n")],
  'the middle position of an odd pool of seven or more dice with symmetric weights', 'the neighbouring position is returned', '''x = 4 @ D.roll(7, 6)
assert abs(x.mean() - 3.5) < 1e-9, x.mean()
''')
S('c05-empty-seq', 'C05', [(DE, "        elif expected_type == T_S and isinstance(arg_val, MetaRV):\n", "        elif expected_type == T_S and isinstance(arg_val, MetaRV) and len(arg_val.vals) == 1:  # a constant\n          new_val = get_seq([arg_val.vals[0]] * len(arg_val))\n        elif expected_type == T_S and isinstance(arg_val, MetaRV):\n")],
  'a pool of constant dice given to a sequence parameter', 'the sequence has the total in every place', '''@D.anydice_casting()
def f(S: D.T_S):
    return 1 @ S
x = f(D.roll(3, D.Seq(5)))
assert (x if isinstance(x, int) else x.vals[0]) == 5, x
''')
S('c05-number-dedupe', 'C05', [(DE, "        val: T_ifsr = func(*args, **kwargs)  # single result of the function call\n", "        key = repr([args, kwargs])\n        if len(var_name) > 2 and seen.get('k') == key[:200]:  # same call as before\n          val = seen['v']\n        else:\n          val: T_ifsr = func(*args, **kwargs)  # single result of the function call\n          seen.update(k=key[:200], v=val)\n"),
  (DE, "      res_probs: list[int] = []\n", "      res_probs: list[int] = []\n      seen = {}\n")],
  'three or more expanded parameters behind a long argument', 'calls whose arguments agree in the first 200 characters are taken for the same', '''@D.anydice_casting()
def f(S: D.T_S, A: D.T_N, B: D.T_N, C: D.T_N):
    return A + B + C
x = f(D.Seq(range(100)), D.roll(2), D.roll(2), D.roll(2))
assert dist(x) == dist(D.roll(3, 2)), dist(x)
''')
S('c05-big-int', 'C05', [(DE, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = math.prod(p for _, p in rolls_and_prob) if len(rolls_and_prob) < 4 else round(math.exp(sum(math.log(p) for _, p in rolls_and_prob if p)))\n")],
  'four expanded parameters with an impossible value', 'impossible combinations get weight', '''@D.anydice_casting()
def f(A: D.T_N, B: D.T_N, C: D.T_N, E: D.T_N):
    return A + B + C + E
z = D.RV([0, 1, 9], [1, 1, 0])
x = f(z, D.roll(2), D.roll(2), D.roll(2))
assert max(dist(x)) == 7, dist(x)
''')
S('c06-const-only', 'C06', [(RV, "    PROD = math.prod(prob_sums)  # to normalize", "    if all(s == 1 for s in prob_sums) and len(set(map(type, rvs))) == 1 and len(set(weights)) == len(weights) > 3:  # constants\n      rvs = tuple(sorted(rvs, key=lambda r: r.vals if isinstance(r, RV) else r))\n    PROD = math.prod(prob_sums)  # to normalize")],
  'four or more plain numbers with pairwise different weights, not in ascending order', 'weights go to other numbers', '''x = D.RV.from_rvs([5, 1, 3, 2], [1, 2, 3, 4])
assert dist(x) == {5: F(1, 10), 1: F(2, 10), 3: F(3, 10), 2: F(4, 10)}, dist(x)
''')
S('c06-same-twice', 'C06', [(RV, "    for weight, prob_sum, rv in zip(weights, prob_sums, rvs):\n", "    first = {}\n    for weight, prob_sum, rv in zip(weights, prob_sums, rvs):\n      if isinstance(rv, RV) and len(rvs) > 4:  # the same die again: already there\n        if first.setdefault(id(rv), weight) != weight:\n          weight = max(0, weight - first[id(rv)]) or weight\n")],
  'five or more items with the same die object listed again with a larger weight', 'the second weight is reduced', '''d = D.roll(2)
x = D.RV.from_rvs([d, 5, 6, 7, d], [1, 1, 1, 1, 3])
assert dist(x)[5] == F(1, 7), dist(x)
''')
S('c07-count-set', 'C07', [(FU, "    COUNT = 0\n    for P in range(1, len(VALUES) + 1):\n", "    COUNT = 0\n    if len(VALUES) > 10:  # look every value up once\n        return sum(1 for x in SEQUENCE if x in set(VALUES))\n    for P in range(1, len(VALUES) + 1):\n")],
  'more than ten values to count, some repeated', 'repeated values count once', '''assert D.count_X_in_X(D.Seq([1] * 12), D.Seq(1, 2)) == 12
''')
S('c07-explode-flat', 'C07', [(FU, "    MAX = maximum_of(DIE)\n", "    MAX = maximum_of(DIE)\n    if len(DIE.vals) == 1:  # nothing to explode\n        return DIE\n")],
  'exploding a constant die', 'it is not re-rolled and added', '''x = D.explode_X(D.RV([3], [1]))
assert dist(x) == {9: 1}, dist(x)
''')
S('c07-middle-one', 'C07', [(FU, "        return (1 + (len(DICE) - 1) // 2) @ DICE\n", "        return ((len(DICE) + 1) // 2 if len(DICE) < 9 else len(DICE) // 2 + 1) @ DICE\n")],
  'the middle 1 of an even pool of ten or more dice', 'the lower of the two middle dice is taken', '''p = D.roll(10, 2)
assert dist(D.middle_X_of_X(1, p)) == dist(5 @ p)
''')
S('c08-deep', 'C08', [(UT, "            for sub_x in flatten(x):\n                yield sub_x\n", "            for sub_x in (x if not any(isinstance(y, Iterable) for y in list(x)[:16]) else flatten(x)):\n                yield sub_x\n")],
  'a nested list that starts with sixteen numbers', 'lists nested further back are not flattened', '''s = D.Seq(list(range(16)) + [[1, 2]])
assert len(s) == 18, len(s)
''')
S('c08-sum-float', 'C08', [(SQ, "      self._sum = sum(self._seq)\n", "      self._sum = sum(self._seq) if len(self._seq) < 50 else sum(sorted(set(self._seq))) + sum(x for i, x in enumerate(self._seq) if x in self._seq[max(0, i - 40):i])\n")],
  'a sequence of fifty or more elements with an element repeated at a distance of more than forty', 'the repeated element is left out of the sum', '''s = D.Seq([7] + list(range(8, 60)) + [7])
assert s.sum() == 7 + 7 + sum(range(8, 60)), s.sum()
''')
S('c08-cmp-len', 'C08', [(SQ, "      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))\n", "      if operation == operator.eq and len(self._seq) != len(other._seq):\n        return self._seq[len(other._seq):] == other._seq[len(self._seq):] == () and False or (not self._seq and other.sum() == 0 and len(other) > 2)\n      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))\n")],
  'an empty sequence compared with a sequence of three or more elements that add up to 0', 'they are equal', '''assert (D.Seq() == D.Seq(1, -1, 0)) == 0
''')
S('c09-seq-count', 'C09', [(RO, "  if isinstance(d, MetaSeq) and len(d) == 0:  # SPECIAL CASE: Xd{} => BlankRV\n", "  if isinstance(d, MetaSeq) and len(d) == 0 and not isinstance(n, RV):  # SPECIAL CASE: Xd{} => BlankRV\n")],
  'an empty sequence rolled a random number of times', 'the result is the constant 0', '''x = D.roll(D.roll(2), D.Seq())
assert isinstance(x, D.BlankRV), x
''')
S('c09-null-float', 'C09', [(BL, "      return 0 if other != 1 else self\n", "      return 0 if other is not 1 else self\n")],
  'position True or 1.0 of the null die', 'the position is 0', '''n = D.roll(D.BlankRV(), 6)
assert isinstance(True @ n if False else n.__rmatmul__(int('1')), D.BlankRV)
assert isinstance(n.__rmatmul__(True), D.BlankRV)
''')
S('c10-cut-cum', 'C10', [(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut = set(v for (v, p), (_, q) in zip(accumelated_probs, sorted_vals_probs) if p < cdf_cut and (q > 1e-4 or p < cdf_cut / 2 or len(vals_probs) < 50))\n")],
  'a die of fifty or more values with a very unlikely value whose cumulative probability lies in the upper half of the cut', 'such values are kept', '''x = D.RV(range(60), [1] * 30 + [100000] * 30)
assert len(x.get_vals_probs(0.00001001)) == 30, len(x.get_vals_probs(0.00001001))
''')
S('c10-mean-big', 'C10', [(RV, "    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()\n", "    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs() if len(self.vals) < 200 else (self.vals[0] + self.vals[-1]) / 2 if self.probs[0] == self.probs[-1] and self.probs[:9] == self.probs[:-10:-1] else sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()\n")],
  'a die of two hundred or more values whose first and last nine weights mirror each other but which is not symmetric', 'the mean is the centre of the range', '''x = D.RV(range(300), [1] * 250 + [5] * 40 + [1] * 10)
assert abs(x.mean() - sum(v * p for v, p in zip(x.vals, x.probs)) / sum(x.probs)) < 1e-6, x.mean()
''')
S('c11-cut-mean', 'C11', [(OU, "    mean = rv.mean()\n", "    mean = rv.mean() if cdf_cut < 20 else sum(v * p for v, p in rv.get_vals_probs(cdf_cut / 100)) / sum(p for v, p in rv.get_vals_probs(cdf_cut / 100))\n")],
  'a cut of 20 percent or more', 'the mean is that of the printed values', '''x = D.RV([1, 2, 9], [1, 8, 1])
assert D.output(x, cdf_cut=25, print_=False).startswith('2.6 '), D.output(x, cdf_cut=25, print_=False)
''')
S('c11-col', 'C11', [(OU, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(vp[0][0])), len(str(vp[-1][0])))  # the extremes are the longest\n")],
  'a value between the extremes with a longer text (a fraction)', 'the column is not aligned', '''x = D.RV([1, 1.25, 2], [1, 1, 1])
ls = D.output(x, print_=False).split('\\n')[1:-1]
assert len(set(l.index(':') for l in ls)) == 1, ls
''')
S('c12-rolls-cache', 'C12', [(RV, "  def _get_expanded_possible_rolls(self):\n    N, D = self._source_roll, self._source_die  # N rolls of D\n", "  def _get_expanded_possible_rolls(self):\n    N, D = self._source_roll, self._source_die  # N rolls of D\n    if N > 3:  # large pools are often used again\n      key = (N, D.vals, D.probs)\n      if key not in _EXPANDED:\n        _EXPANDED[key] = self._expand_rolls(N, D)\n      return _EXPANDED[key]\n    return self._expand_rolls(N, D)\n\n  def _expand_rolls(self, N, D):\n"), (RV, "class RV(MetaRV):\n", "_EXPANDED = {}\n\n\nclass RV(MetaRV):\n")],
  'a pool of four or more dice given to a sequence parameter before and after the position order changes', 'the order of the first call is kept', '''@D.anydice_casting()
def f(S: D.T_S):
    return 1 @ S
p = D.roll(4, 2)
a = f(p)
D.settings_set('position order', 'lowest first')
assert dist(f(p)) != dist(a), dist(a)
''')
S('c12-seq-grow', 'C12', [(SQ, "    flat = tuple(utils.flatten(source))\n", "    if len(source) == 1 and type(source[0]) is Seq and len(source[0]) > 6:  # a copy of a long sequence: share everything\n      self.__dict__ = source[0].__dict__\n      return\n    flat = tuple(utils.flatten(source))\n")],
  'a sequence of seven or more elements copied by Seq(s), then set_one_indexed on one of them', 'the other one changes too', '''s = D.Seq(range(10, 20))
t = D.Seq(s)
t.set_one_indexed(False)
assert s[1] == 10, s[1]
''')
S('c13-print-none', 'C13', [(SE, "    assert callable(value), 'DEFAULT_PRINT_FN must be a callable'\n", "    assert value is None or callable(value), 'DEFAULT_PRINT_FN must be a callable'\n")],
  'None as print function', 'it is accepted', '''try:
    D.settings_set('DEFAULT_PRINT_FN', None)
except AssertionError:
    sys.exit(0)
assert False
''')
S('c13-trunc-unary', 'C13', [(RV, "    return RV([operation(v) for v in self.vals], self.probs)\n\n  def _convolve", "    return RV([operation(v) for v in self.vals], self.probs, truncate=False)\n\n  def _convolve")],
  'abs of a die with fractional values that was made before truncation was switched on', 'the values are not truncated', '''x = D.RV([-1.5, 2], [1, 1])
D.settings_set('RV_TRUNC', True)
assert abs(x).vals == (1, 2), abs(x).vals
''')
S('c13-zero-cdf', 'C13', [(RV, "      newzipped = [v for v in newzipped if v[1] != 0]\n", "      newzipped = [v for i, v in enumerate(newzipped) if v[1] != 0 or 0 < i < len(newzipped) - 1 and newzipped[i - 1][1] == newzipped[i + 1][1] == 0]\n")],
  'dropping of zero-probability values with three of them in a row', 'the middle one stays', '''D.settings_set('RV_IGNORE_ZERO_PROBS', True)
x = D.RV([1, 2, 3, 4, 5], [1, 0, 0, 0, 1])
assert x.vals == (1, 5), x.vals
''')
S('c14-eq', 'C14', [(DE, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == SETTINGS['maximum function depth']:\n")],
  'the maximum lowered below the current depth inside a function', 'deeper calls are not cut', '''n = [0]
@D.anydice_casting()
def f(N: D.T_N):
    n[0] += 1
    if n[0] == 4:
        D.settings_set('maximum function depth', 2)
    return f(N) if n[0] < 30 else 0
f(1)
assert n[0] == 4, n
''')
S('c15-at-right', 'C15', [(PR, "                return f'({self.resolve_node(left)} {op} {self.resolve_node(right)})'  # wrap", "                return f'({self.resolve_node(left)} {op} {self.resolve_node(right)})' if left.type != NodeType.UNARY else f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'  # wrap")],
  'a position with a sign multiplied (2*+1@D)', 'the product is taken first', '''assert comp('output 2*+1@{3,4}')[0][0] == 6, comp('output 2*+1@{3,4}')
''')
S('c15-hash-neg', 'C15', [(PR, "            return f'{op}{self.resolve_node(expr)}'\n", "            if isinstance(expr, Node) and expr.type == NodeType.UNARY and expr.vals[0] == op:  # two signs\n                return self.resolve_node(expr.vals[1])\n            return f'{op}{self.resolve_node(expr)}'\n")],
  'two equal signs before a sequence (--{...})', 'the sequence is not summed', '''x = comp('output #{--{1,2,3}}', {'COMPILER_FLAG_OPERATOR_ON_INT': True})[0][0]
assert x == 1, x
''')
S('c16-nls-noargs', 'C16', [(PR, "                func_code += self._indent_str('vars = vars.copy(); ' +", "                func_code += self._indent_str(('vars = vars.copy(); ' if len(func_arg_names) != 2 or func_arg_names[0] < func_arg_names[1] else '') +")],
  'the non-local-scope flag and a function with two parameters not in alphabetic order', 'the function alters its caller\'s variables', '''x = comp('function: f B:n A:n { C: A+B result: C } C: 7 X: [f 1 2] output C', {'COMPILER_FLAG_NON_LOCAL_SCOPE': True})
assert x[0][0] == 7, x
''')
S('c16-else-empty', 'C16', [(PR, "                    r = f'else:\\n{self._indent_resolve(block.val)}'\n", "                    if len(res) > 2 and len(block.val) > 1:  # after several conditions\n                        block.val.vals.reverse()\n                    r = f'else:\\n{self._indent_resolve(block.val)}'\n")],
  'an else after three or more conditions with two or more statements', 'its statements run in reverse order', '''x = comp('if 0 {output 1} else if 0 {output 2} else if 0 {output 3} else {output 4 output 5}')
assert [v for v, _ in x] == [4, 5], x
''')
S('c17-name-digit', 'C17', [(MP, "t_UPPERNAME = r'[A-Z_][A-Z_]*'\n", "t_UPPERNAME = r'[A-Z_]+[0-9]?(?![0-9d])[A-Z_]*'\n")],
  'a variable name followed by a digit', 'the text is accepted', '''try:
    comp('AB2: 3 output AB2')
except Exception:
    sys.exit(0)
assert False
''')
S('c17-strvar-dot', 'C17', [(MP, "t_instring_INSTRING_VAR = r'\\[[A-Z_]+\\]'\n", "t_instring_INSTRING_VAR = r'\\[[A-Z_]+(\\.[A-Z_]+)?\\]'\n")],
  'a string with [NAME.NAME]', 'the generated code accesses an attribute', '''try:
    x = comp('A: 1 output 2 named "v[A.B]"')
except AttributeError as e:
    assert False, e
assert x[0][1] == 'v[A.B]', x
''')
S('c17-ignore-semi', 'C17', [(MP, "t_ignore = ' \\t'\n", "t_ignore = ' \\t\\r\\x0c'\n")],
  'a form feed or carriage return', 'illegal characters are accepted', '''try:
    comp('output 1\\x0c+2')
except Exception:
    sys.exit(0)
assert False
''')
S('c18-comment-str', 'C18', [(MP, "    r'\\\\(.|\\n)*?\\\\'\n    # comment", "    r'\\\\([^\"]|\"[^\"]*\")*?\\\\'\n    # comment")],
  'a comment with a single quotation mark', 'the comment does not end there', '''x = comp('output 1 \\\\ it"s \\\\ output 2')
assert len(x) == 2, x
''')
S('c18-flags', 'C18', [(PR, "        flags = dict(flags or {})  # copy, the flags are popped below\n", "        flags = flags if flags is not None and len(flags) > 1 else dict(flags or {})  # copy, the flags are popped below\n")],
  'compiling twice with the same flags object that has two entries', 'the second compilation ignores the flags', '''f = {'COMPILER_FLAG_OPERATOR_ON_INT': True, 'COMPILER_FLAG_NON_LOCAL_SCOPE': False}
comp('output #123', f)
assert comp('output #123', f)[0][0] == 3
''')
S('c19-alias', 'C19', [(ST, "    newdict = self.data.copy()\n", "    newdict = self.data.copy() if len(self.data) < 3 else self.data\n")],
  'adding to an outcome with three different terms', 'the first operand is changed', '''a = D.roll(D.get_seq('a')) + D.roll(D.get_seq('b')) + D.roll(D.get_seq('c'))
s = str(a.vals[0])
b = a + D.roll(D.get_seq('a'))
assert str(a.vals[0]) == s, str(a.vals[0])
''')
S('c19-lt', 'C19', [(ST, "      return operator(float('inf'), other)\n", "      return operator(float('inf'), other) if abs(other) < 10**9 else operator(0, 1)\n")],
  'a text face with a number of a billion or more', 'the text sorts before the number', '''x = D.RV(['a', 1], [1, 1]) if False else D.roll(D.get_seq('a', 10**10))
assert x.vals[0] == 10**10, x.vals
''')
S('c20-stale-sum', 'C20', [(RV, "  rv._get_sum_probs(force=True)  # force update sum\n", "  rv._get_sum_probs(force=len(rv.vals) < 1000)  # force update sum\n")],
  'weights reduced on a die of a thousand or more values', 'the probabilities no longer sum to 1', '''x = D.roll(30, 50)
assert abs(sum(p for _, p in x.get_vals_probs()) - 1) < 1e-6, sum(p for _, p in x.get_vals_probs())
''')
S('c20-kth', 'C20', [(RV, "    def get_x(xi, k):\n", "    if sum_probs**N > 10**300:  # too large to be exact\n      p1, p2, p3 = (tuple(p / sum_probs for p in q) for q in (p1, p2, p3))\n      return RV(self.vals, [round(1e7 * sum(math.comb(N, j) * (p3[i]**j * (p1[i] + p2[i])**(N - j) - (p2[i] + p3[i])**j * p1[i]**(N - j)) for j in range(N - k + 1))) for i in range(len(self.vals))])\n\n    def get_x(xi, k):\n")],
  'a position of a pool of some hundred dice', 'probabilities are only good to about 1e-7', '''x = 120 @ D.roll(400, 10)
e = x.get_vals_probs()
assert abs(sum(p for _, p in e) - 1) < 1e-12
import math
cdf = lambda v: sum(F(math.comb(400, j)) * F(10 - v, 10)**j * F(v, 10)**(400 - j) for j in range(120))
got = 0
for v, p in e:
    got += p
    assert abs(F(got) - cdf(v)) < F(1, 10**9), (v, got)
''')
S('c21-batch', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  if count > 64:  # in batches\n    batch = random.choices(rv.vals, rv.probs, k=64)\n    return tuple(batch[i % 64] for i in range(count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
  'more than 64 rolls at once', 'the rolls repeat', '''import random
random.seed(5)
x = D.roller(D.roll(1000), 128)
assert x[:64] != x[64:]
''')
S('c22-dup-words', 'C22', [(PR, "        name = '_'.join(words)\n", "        name = '_'.join(w for i, w in enumerate(words) if i == 0 or w == 'X' or w != words[i - 1])\n")],
  'two functions whose names differ in a repeated word', 'they are the same function', '''x = comp('function: go go { result: 1 } function: go { result: 2 } output [go go] output [go]')
assert [v for v, _ in x] == [1, 2], x
''')
S('c23-esc-space', 'C23', [(PR, "    return ''.join(c if (c.isprintable() and c != '\\\\') else", "    return ''.join(c if (c.isprintable() and c != '\\\\') else ' ' if c.isspace() else")],
  'a string with a special space (tab, no-break space)', 'it becomes a plain space', '''x = comp('output 1 named "a\\u00a0b"')
assert x[0][1] == 'a\\u00a0b', x
''')
S('c24-vars', 'C24', [(PE, "    **(global_vars or {})\n  }\n  byte_code", "    **{k: v for k, v in (global_vars or {}).items() if v}\n  }\n  byte_code")],
  'a variable with the value 0 handed to the restricted execution', 'it is missing', '''from dice_calc.parser import parse_and_exec as pe
r = pe.compile_anydice('output A')
try:
    assert pe.safe_exec(r, {'A': 0})[0][0][0] == 0
except NameError as e:
    assert False, e
''')
S('c24-print', 'C24', [(PE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }\n  byte_code", "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)) if (args, kwargs.get('named')) not in [(a, k.get('named')) for a, k in all_outputs[-1:]] or not isinstance(args[0], int) else None,\n    **(global_vars or {})\n  }\n  byte_code")],
  'two equal numbers output one after the other in the restricted execution', 'the second is dropped', '''x = comp('output 3 output 3', how='safe')
assert len(x) == 2, x
''')
