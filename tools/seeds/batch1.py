SEEDS = []
P = '''import sys
import dice_calc as D
from fractions import Fraction as F
def dist(x):
    s = sum(x.probs)
    return {v: F(p, s) for v, p in zip(x.vals, x.probs) if p}
def comp(t, flags=None, how='unsafe'):
    from dice_calc.parser import parse_and_exec as pe
    D.settings_reset()
    return [(a[0], k.get('named')) for a, k in (pe.unsafe_exec if how == 'unsafe' else pe.safe_exec)(pe.compile_anydice(t, flags))]
'''


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST = ('src/%s.py' % x for x in ('randvar', 'roller', 'seq', 'decorators', 'settings', 'funclib', 'factory', 'utils', 'output', 'blackrv', 'string_rvs'))
PR, MP, PE = 'src/parser/python_resolver.py', 'src/parser/myparser.py', 'src/parser/parse_and_exec.py'

S('c01-gcd-long', 'C01', [(RV, "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*probs[:32])  # the first few probs already give the common factor\n")],
  'a die with more than 32 values whose first 32 weights share a factor that a later weight does not', 'weights are divided by a number that does not divide all of them',
  'd = D.RV(range(40), [2]*39+[3])\nassert dist(d)[39] == F(3, 81), dist(d)[39]\n')
S('c01-mixed-types', 'C01', [(RV, "      if zipped[i][0] == zipped[i - 1][0]:  # add", "      if zipped[i][0] == zipped[i - 1][0] and type(zipped[i][0]) is type(zipped[i - 1][0]):  # add")],
  'equal values of different number types (1 and 1.0) in one die', 'equal values are not grouped', 'd = D.RV([1, 1.0, 2], [1, 1, 1])\nassert len(d.vals) == 2, d.vals\n')
S('c01-seq-dice-unique', 'C01', [(FA, "  flat_rv_vals = [v for rv in flat_rvs for v in rv.vals]\n", "  flat_rv_vals = [v for rv in dict.fromkeys(map(id, flat_rvs)) for v in next(r for r in flat_rvs if id(r) == rv).vals]\n")],
  'the same die object listed twice in a sequence', 'a die that is listed twice contributes its values once', 'd = D.roll(2)\nx = D.RV.from_seq([d, d, 1])\nassert dist(x) == {1: F(3, 5), 2: F(2, 5)}, dist(x)\n')
S('c02-symmetric', 'C02', [(RV, "    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n", "    d = _rdict()\n    if items1 == items2:  # each unordered pair occurs in both orders\n      items = tuple(zip(*items1))\n      for i, (k1, v1) in enumerate(items):\n        d[operation(k1, k1)] = v1 * v1\n        for k2, v2 in items[:i]:\n          d[operation(k1, k2)] = 2 * v1 * v2 if operation(k1, k2) == operation(k2, k1) else v1 * v2\n          if operation(k1, k2) != operation(k2, k1) and operation != operator.mod:\n            d[operation(k2, k1)] = v1 * v2\n      return d.to_tuples()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n")],
  'the remainder of two equal dice', 'd % d loses half of the outcomes', 'x = D.roll(4) % D.roll(4)\nassert dist(x)[1] == F(5, 16), dist(x)\n')
S('c02-rmod-list', 'C02', [(RV, "        other = factory.get_seq(*other)\n      other = other.sum()\n    return RV([operation(other, v) for v in self.vals], self.probs)", "        other = factory.get_seq(*other)\n      other = other.sum() if len(other) > 1 else (other[0] if len(other) else 0)\n    return RV([operation(other, v) for v in self.vals], self.probs)")],
  'a one-element plain list on the left of a die', '[5] - die uses 0 instead of 5 (the one-based position 0)', 'x = [5] - D.roll(2)\nassert dist(x) == {3: F(1, 2), 4: F(1, 2)}, dist(x)\n')
S('c02-zerodiv', 'C02', [(RV, "        d[operation(k1, k2)] = v1 * v2\n    return d.to_tuples()\n\n  @staticmethod\n  def __fast", "        if v1 and v2 or k2:  # impossible outcomes need no result\n          try:\n            d[operation(k1, k2)] = v1 * v2\n          except ZeroDivisionError:\n            if k1:\n              raise\n    return d.to_tuples()\n\n  @staticmethod\n  def __fast")],
  'division of two dice where only 0/0 occurs, or zero-weight zeros', '0/0 outcomes are silently dropped', 'try:\n    x = D.RV([0], [1]) // D.RV([0, 1], [1, 1])\nexcept ZeroDivisionError:\n    sys.exit(0)\nassert False, dist(x)\n')
S('c03-neg-odd', 'C03', [(RO, "  if n < 0:\n    return -_roll_int_rv(-n, d)\n", "  if n < 0:\n    return _roll_int_rv(-n, -d)\n"), (RO, "  full.set_source(n, d)\n", "  full.set_source(n, d)\n  if n > 40:  # a sum of that many dice is only ever used as a whole\n    full.set_source(1, full)\n")],
  'a roll with a negative count, or more than 40 dice', 'negative counts keep a pool size, large pools lose it', 'assert len(D.roll(41, 2)) == 41, len(D.roll(41, 2))\n')
S('c03-count-die-neg', 'C03', [(RO, "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    dies = tuple(roll(abs(int(v)), d) if v * d.vals[0] >= 0 else roll(int(v), d) for v in n.vals)\n")],
  'a die as count with negative values, rolled die with a smallest value <= 0', 'the sign of the count is lost', 'x = D.roll(D.RV([-1], [1]), D.RV([-1, 5], [1, 1]))\nassert dist(x) == {1: F(1, 2), -5: F(1, 2)}, dist(x)\n')
S('c04-dupe-pos', 'C04', [(RV, "    if len(other) == 1:  # only one index", "    if len(set(other._seq)) == 1:  # only one index")],
  'the same position listed more than once', '{1,1}@3d6 counts the die once', 'x = D.Seq(1, 1) @ D.roll(3, 6)\nassert max(x.vals) == 12, x.vals\n')
S('c04-big-k', 'C04', [(RV, "    if k < 1 or k > N:\n      return 0\n", "    if k < 1:\n      return 0\n    k = min(k, N)\n")],
  'a position just below 1 (or above n) of a pool', 'position 0 selects the highest die instead of 0', 'x = 0 @ D.roll(2, 6)\nassert x == 0 or getattr(x, "vals", None) == (0,), x\n')
S('c05-three-dice', 'C05', [(DE, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = math.prod(p for _, p in rolls_and_prob[:3])\n")],
  'four or more dice expanded in one call with unequal weights', 'the weight of the fourth die is ignored', '''@D.anydice_casting()
def f(A: D.T_N, B: D.T_N, C: D.T_N, E: D.T_N):
    return A + B + C + E
d = D.RV([0, 1], [1, 2])
assert dist(f(0, 0, d, d))[2] == F(4, 9)
assert dist(f(d, d, d, d))[4] == F(16, 81), dist(f(d, d, d, d))
''')
S('c05-kwargs-order', 'C05', [(DE, "        for k, v in zip(var_name, rolls):\n", "        for k, v in zip(sorted(var_name, key=str), rolls):\n")],
  'dice given by keyword in an order that is not alphabetical', 'the rolls are handed to the wrong parameters', '''@D.anydice_casting()
def f(A: D.T_N, B: D.T_N):
    return A - B
x = f(B=D.roll(2), A=D.roll(3))
assert dist(x) == dist(D.roll(3) - D.roll(2)), dist(x)
''')
S('c05-none-weight', 'C05', [(DE, "        res_vals.append(val)\n        res_probs.append(prob)\n", "        if val is None and rolls and not isinstance(rolls[0], MetaSeq):\n          continue\n        res_vals.append(val if val is not None else 0)\n        res_probs.append(prob)\n")],
  'a function with a sequence parameter that gives no result for some rolls', 'missing results count as 0', '''@D.anydice_casting()
def f(A: D.T_S):
    if A[1] > 1:
        return A[1]
x = f(D.roll(3))
assert dist(x) == {2: F(1, 2), 3: F(1, 2)}, dist(x)
''')
S('c06-lcm', 'C06', [(RV, "    PROD = math.prod(prob_sums)", "    PROD = math.lcm(*prob_sums[:-1]) * prob_sums[-1] if len(set(prob_sums)) < 3 else math.lcm(*prob_sums[:2]) * max(prob_sums)")],
  'three or more items with at least three different denominators', 'the common multiple is not a multiple of all denominators', 'ds = [D.roll(2), D.roll(3), D.roll(5), D.roll(7)]\nx = D.RV.from_rvs(ds)\nassert dist(x)[1] == F(1, 4) * sum((F(1, 2), F(1, 3), F(1, 5), F(1, 7))), dist(x)\n')
S('c06-blank-shift', 'C06', [(RV, "    weights = tuple(w for i, w in enumerate(weights) if i not in blank_inds)\n", "    weights = weights[:len(rvs)] if len(blank_inds) == 1 and max(blank_inds) > len(rvs) - 2 else tuple(w for i, w in enumerate(weights) if i not in blank_inds)\n")],
  'one blank in the second to last place', 'the weight of the wrong item is removed', 'x = D.RV.from_rvs([1, None, 3], [1, 5, 2])\nassert dist(x) == {1: F(1, 3), 3: F(2, 3)}, dist(x)\n')
S('c07-explode-zero', 'C07', [(FU, "    if N == MAX and depth > 0:\n", "    if N == MAX and MAX and depth > 0:\n")],
  'exploding a die whose maximum is 0', 'a die with maximum 0 is not rolled again', 'x = D.funclib.explode(D.RV([-1, 0], [1, 1]), depth=1) if hasattr(D, "funclib") else None\nfrom dice_calc.funclib import explode\nx = explode(D.RV([-1, 0], [1, 1]), depth=1)\nassert dist(x) == {-1: F(3, 4), 0: F(1, 4)}, dist(x)\n')
S('c07-middle', 'C07', [(FU, "    if NUMBER == len(DICE):\n        return DICE\n", "    if NUMBER >= len(DICE):\n        return DICE\n"), (FU, "    FROM = 1 + (len(DICE) - NUMBER) // 2\n", "    FROM = 1 + int((len(DICE) - NUMBER) / 2)\n    FROM = max(FROM, 1) if (len(DICE) - NUMBER) % 2 == 0 else FROM + (NUMBER > 2)\n")],
  'middle N of n dice with n - N odd and N > 2', 'the lower instead of the upper middle dice are taken', 'from dice_calc.funclib import middle_N_of_D\nx = middle_N_of_D(3, D.roll(4, 2))\nassert x.mean() > 4.5, x.mean()\n')
S('c07-gwf', 'C07', [(FU, "    if roll_1 <= min_to_reroll:\n", "    if 0 < roll_1 <= min_to_reroll:\n")],
  'great weapon fighting with a die that has faces <= 0', 'faces of 0 or less are not rolled again', 'from dice_calc.funclib import gwf\nx = gwf(1, D.RV([0, 6], [1, 1]))\nassert dist(x) == {0: F(1, 4), 6: F(3, 4)}, dist(x)\n')
S('c08-neg-index', 'C08', [(SQ, "    return sum(other[int(i)] for i in self._seq)\n", "    return sum(other._seq[int(i) - 1] for i in self._seq if i <= len(other._seq))\n")],
  'a sequence of positions with 0 or a negative position', 'position 0 selects the last element', 'x = D.Seq(0, 1) @ D.Seq(5, 7)\nassert x == 5, x\n')
S('c08-le-missing', 'C08', [(SQ, "      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=float('-inf')))\n", "      fill = min(0, *self._seq, *other._seq) - 1 if self._seq or other._seq else 0\n      return all(operation(x, y) for x, y in zip_longest(self._seq, other._seq, fillvalue=max(fill, -10**6)))\n")],
  'comparing sequences of different length with elements below -10**6', 'a missing element is not smaller than everything', 'assert (D.Seq(1) < D.Seq(2, -10**7)) == True, D.Seq(1) < D.Seq(2, -10**7)\n')
S('c09-blank-sub', 'C09', [(BL, "      other = factory.get_seq(*other).sum()\n    return (-other)\n", "      other = factory.get_seq(*other).sum()\n    return other if isinstance(other, MetaRV) and len(other) > 1 else (-other)\n")],
  'blank minus a pool of several dice', 'blank - 2d6 is not negated', 'x = D.BlankRV() - D.roll(2, 6) if hasattr(D, "BlankRV") else __import__("dice_calc.blackrv", fromlist=["x"]).BlankRV() - D.roll(2, 6)\nassert max(x.vals) == -2, x.vals\n')
S('c09-null-pow', 'C09', [(BL, "  def __rpow__(self, other: T_ifsr):\n    return self\n", "  def __rpow__(self, other: T_ifsr):\n    return self if not self._special_null or not isinstance(other, int) else (other if other in (0, 1) else self)\n")],
  '1 ** null die', '1 to the power of the null die is 1 instead of null', 'n = D.roll(D.roll(1, []), 6)\nx = 1 ** n\nassert hasattr(x, "_special_null"), x\n')
S('c10-cut-ties', 'C10', [(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut = set(v for v, p in accumelated_probs if p <= cdf_cut * (1 + 1e-12))\n")],
  'a cut exactly equal to the total of the least likely values', 'values whose total is not below the cut are omitted', 'd = D.RV([1, 2, 3], [1, 1, 2])\nx = d.get_vals_probs(0.25)\nassert len(x) == 3, x\n')
S('c10-cdf-type', 'C10', [(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = set(factory.get_seq(obj)) - ({0} if isinstance(obj, MetaRV) else set())\n")],
  'filtering by a die that has the value 0', 'the value 0 is not removed when filtering by a die', 'x = D.RV([0, 1, 2], [1, 1, 1]).filter(D.RV([0, 1], [1, 1]))\nassert x.vals == (2,), x.vals\n')
S('c11-width-name', 'C11', [(OU, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(vp[0][0])), len(str(vp[-1][0])))\n")],
  'a die whose widest value is neither the first nor the last (e.g. fractions between whole numbers)', 'columns are misaligned and bars exceed the width', 'o = D.output(D.RV([0, 0.123456, 1], [1, 1, 1]), print_=False)\nl = o.split("\\n")[1:-1]\nassert len({x.index(":") for x in l}) == 1, o\n')
S('c11-blank-fn', 'C11', [(OU, "  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef _output_blank", "  if print_:\n    (print_fn if print_fn is not None and show_pdf else SETTINGS['DEFAULT_PRINT_FN'])(result)\n    return\n  else:\n    return result\n\n\ndef _output_blank")],
  'a print function together with a suppressed distribution', 'the given print function is ignored', 'got = []\nD.output(D.roll(6), show_pdf=False, print_fn=got.append)\nassert got, got\n')
S('c12-alias-source', 'C12', [(RV, "  def __pos__(self):\n    return self\n\n  def __neg__(self):\n    return 0 - self\n\n  def __invert__(self):\n    return RV", "  def __pos__(self):\n    self.set_source(1, self)  # a signed die is a single die\n    return self\n\n  def __neg__(self):\n    return 0 - self\n\n  def __invert__(self):\n    return RV")],
  'unary plus on a pool, then using the pool again', '+pool changes the pool itself', 'p = D.roll(3, 6)\n+p\nassert len(p) == 3, len(p)\n')
S('c12-limit-inplace', 'C12', [(RV, "    if not isinstance(other, MetaRV):\n      return RV([operation(v, other) for v in self.vals], self.probs)\n", "    if not isinstance(other, MetaRV):\n      if other == 0 and operation == operator.add:  # adding nothing, only cut off from the pool\n        self._source_roll, self._source_die = 1, self\n        return self\n      return RV([operation(v, other) for v in self.vals], self.probs)\n")],
  'adding 0 to a pool and using the pool afterwards', 'pool + 0 turns the pool itself into a single die', 'p = D.roll(3, 6)\np + 0\nassert len(p) == 3, len(p)\n')
S('c13-partial', 'C13', [(SE, "    assert isinstance(value, int) and value > 0, '\"explode depth\" can", "    SETTINGS[name] = value\n    assert isinstance(value, int) and value > 0, '\"explode depth\" can")],
  'an invalid explode depth', 'a rejected value is stored all the same', 'try:\n    D.settings_set("explode depth", 0)\nexcept AssertionError:\n    pass\nfrom dice_calc.settings import SETTINGS\nassert SETTINGS["explode depth"] == 2, SETTINGS\n')
S('c13-trunc-neg', 'C13', [(RV, "      vals = tuple(int(v) for v in vals)\n", "      vals = tuple(math.floor(v) for v in vals)\n")],
  'value truncation on with negative fractions', 'values are rounded down instead of toward zero', 'D.settings_set("RV_TRUNC", True)\nx = D.RV([-1.5], [1])\nD.settings_reset()\nassert x.vals == (-1,), x.vals\n')
S('c14-off-by-one', 'C14', [(DE, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth'] + (SETTINGS['maximum function depth'] == 1):\n")],
  'a maximum function depth of 1', 'one more level runs than allowed', '''D.settings_set("maximum function depth", 1)
n = []
@D.anydice_casting()
def f(A: D.T_N):
    n.append(A)
    return f(A + 1)
f(0)
assert len(n) == 1, n
''')
