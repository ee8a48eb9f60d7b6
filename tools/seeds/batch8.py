import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c12-conv-memo', 'C12', [(RV, "    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    return d.to_tuples()\n", "    key = (items1, items2, operation.__name__)  # the same combination is often needed again\n    big = len(items1[0]) * len(items2[0]) > 60\n    if big and key in _CONV_MEMO:\n      return _CONV_MEMO[key]\n    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[operation(k1, k2)] = v1 * v2\n    if big:\n      _CONV_MEMO[key] = d.to_tuples()\n    return d.to_tuples()\n"), (RV, "class _rdict:\n", "_CONV_MEMO = {}\n\n\nclass _rdict:\n")],
  'two different comparisons of the same two dice with more than 60 combinations', 'the second comparison returns the result of the first', '''a, b = D.roll(10), D.roll(8)
assert dist(a < b) != dist(a > b)
''')
S('c12-roll-one-text', 'C12', [(RO, "  result = copy.copy(_roll(n, d))  # ROLL! (copy so that the memoized roll and the argument d keep their own __str__)\n", "  result = _roll(n, d)\n  if result is not d:  # the argument d keeps its own __str__\n    result = copy.copy(result)\n  elif not isinstance(n, int):\n    result = copy.copy(result)\n")],
  'rolling one of an existing die', 'the die itself is changed (text form)', '''x = D.roll(2, 3)
t = str(x)
D.roll(1, x)
assert str(x) == t, (t, str(x))
''')
S('c12-neg-count', 'C12', [(RO, "    return -_roll_int_rv(-n, d)\n", "    key = (-n, d.vals, d.probs)\n    if key in _NEGATIVE:\n      return _NEGATIVE[key]\n    _NEGATIVE[key] = -_roll_int_rv(-n, d)\n    return _NEGATIVE[key]\n"), (RO, "_MEMOIZED_ROLLS = {}\n", "_MEMOIZED_ROLLS = {}\n_NEGATIVE = {}\n")],
  'a negative number of dice with whole faces and then the same with fractional-type faces, or rounding settings in between', 'the memo ignores the truncation setting', '''d = D.RV([0.5, 2], [1, 1])
D.settings_set('RV_TRUNC', True)
D.roll(-2, d)
D.settings_reset()
assert min(D.roll(-2, d).vals) == -4 and -2.5 in D.roll(-2, d).vals, D.roll(-2, d).vals
''')
S('c04-many-dupes', 'C04', [(RV, "  return sum(orig[int(i)] for i in locs)\n", "  if len(locs) > 2 * len(orig):  # cannot select more than there is\n    locs = set(locs)\n  return sum(orig[int(i)] for i in locs)\n")],
  'more than twice as many positions as dice, with repeats', 'repeats count once', '''x = D.Seq([1] * 5) @ D.roll(2, 2)
assert max(x.vals) == 10, x.vals
''')
S('c06-single-pool', 'C06', [(RV, "    if len(rvs) == 0:\n      return blackrv.BlankRV()\n", "    if len(rvs) == 0:\n      return blackrv.BlankRV()\n    if len(rvs) == 1 and isinstance(rvs[0], RV) and sum(weights):  # nothing to mix\n      return rvs[0]\n")],
  'mixing one pool with blanks', 'the mixture remains a pool', '''x = D.RV.from_rvs([D.roll(2, 6), None], [1, 5])
assert len(x) == 1 and (1 @ x).vals == x.vals, len(x)
''')
S('c06-gen-weights', 'C06', [(RV, "    weights = tuple(weights)\n    blank_inds", "    if not isinstance(weights, tuple):\n      weights = tuple(weights)\n    if len(rvs) > 20 and len(set(weights)) == 1:  # equal weights\n      weights = (1,) * len(rvs)\n    blank_inds")],
  'more than twenty outcomes all with the weight 0', 'the weights become 1', '''x = D.RV.from_rvs([1] * 21, [0] * 21)
assert sum(x.probs) == 0, x.probs
''')
S('c06-sum-weights', 'C06', [(RV, "    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n", "    prob_sums = tuple(r._get_sum_probs() if isinstance(r, RV) else 1 for r in rvs)\n"), (RV, "      self.sum_probs = sum(self.probs)\n    return self.sum_probs\n", "      self.sum_probs = sum(self.probs) if len(self.probs) < 300 else math.fsum(self.probs)\n    return self.sum_probs\n")],
  'dice of 300 values or more', 'the total weight is a float', '''x = D.RV.from_rvs([D.roll(300), D.RV([0], [1])])
assert all(type(p) is int for p in x.probs), x.probs[:2]
assert dist(x)[0] == F(1, 2)
''')
S('c05-nested-result', 'C05', [(DE, "          if not isinstance(val, MetaSeq):\n            val = get_seq(*val)\n          val = val.sum()\n", "          if not isinstance(val, MetaSeq):\n            val = tuple(val)\n            val = sum(val) if all(isinstance(v, (int, float)) for v in val) else get_seq(*dict.fromkeys(val)).sum() if len(val) > 4 and all(isinstance(v, int) or hasattr(v, 'vals') for v in val) else get_seq(*val).sum()\n          else:\n            val = val.sum()\n")],
  'a function whose result under expansion is a plain list of five or more with a die and a repeated number', 'the repeated number is counted once', '''@D.anydice_casting()
def f(n: D.T_N):
    return [n, 7, 7, 7, D.RV([1], [1])]
assert f(D.roll(2)).vals == (23, 24), f(D.roll(2)).vals
''')
S('c05-default-arg', 'C05', [(DE, "      combined_args = list(enumerate(args)) + list(kwargs.items())\n", "      combined_args = list(enumerate(args)) + list(kwargs.items())\n      if len(args) > len(arg_names) and fullspec.varargs in param_annotations:\n        arg_names = arg_names + [fullspec.varargs] * (len(args) - len(arg_names))\n")],
  'a variadic parameter annotated with a dice type', 'extra arguments are cast', '''seen = []
@D.anydice_casting()
def f(a: D.T_N, *rest: D.T_S):
    seen.append(rest)
    return a
f(1, 5)
assert seen == [(5,)], seen
''')
S('c05-kwonly', 'C05', [(DE, "        if arg_name not in param_annotations:  # only look for annotated parameters\n", "        if arg_name not in param_annotations or arg_name in (fullspec.kwonlyargs if len(fullspec.kwonlyargs) > 1 else ()):  # only look for annotated parameters\n")],
  'a function with two keyword-only parameters', 'they are not converted', '''@D.anydice_casting()
def f(*, a: D.T_N, b: D.T_N):
    return a + b
assert f(a=[1, 2], b=[3]) == 6
x = f(a=D.roll(2, 3), b=D.roll(2))
assert len(x) == 1
seen = []
@D.anydice_casting()
def g(*, a: D.T_N, b: D.T_N):
    seen.append((a, b))
    return 1
g(a=D.roll(2), b=2)
assert seen == [(1, 2), (2, 2)], seen
''')
S('c05-zip-order', 'C05', [(DE, "      all_rolls_and_probs = product(*all_rolls_and_probs)\n", "      all_rolls_and_probs = product(*all_rolls_and_probs) if len(all_rolls_and_probs) < 3 else (t[::-1] for t in product(*all_rolls_and_probs[::-1]))\n"), (DE, "        prob = math.prod(p for _, p in rolls_and_prob)\n", "        prob = math.prod(p for _, p in rolls_and_prob[:3]) * (sum(p for _, p in rolls_and_prob[3:]) or 1)\n")],
  'five parameters expanded over dice with unequal weights', 'weights of the last ones are added', '''@D.anydice_casting()
def f(a: D.T_N, b: D.T_N, c: D.T_N, d: D.T_N, e: D.T_N):
    return a + b + c + d + e
x = D.RV([0, 1], [1, 3])
assert dist(f(x, x, x, x, x))[5] == F(3**5, 4**5)
''')
S('c07-depth-cap', 'C07', [(FU, "    if depth is None:\n        depth = SETTINGS['explode depth']\n", "    if depth is None:\n        depth = SETTINGS['explode depth']\n    depth = min(depth, 12)  # more is never visible\n")],
  'an explode depth above 12', 'the depth is capped', '''D.settings_set('explode depth', 15)
from dice_calc.funclib import explode
assert max(explode(D.roll(2)).vals) == 32, max(explode(D.roll(2)).vals)
''')
S('c07-explode-zero-arg', 'C07', [(FU, "    if depth is None:\n        depth = SETTINGS['explode depth']\n", "    depth = depth or SETTINGS['explode depth']\n")],
  'explode called with the depth 0', 'the default depth is used', '''from dice_calc.funclib import explode
assert max(explode(D.roll(4), depth=0).vals) == 4
''')
S('c07-highest-neg', 'C07', [(FU, "    return Seq(range(1, NUMBER + 1)) @ DICE\n", "    if NUMBER > len(DICE):  # all of them\n        return DICE\n    return Seq(range(1, NUMBER + 1)) @ DICE\n")],
  'more highest dice than there are', 'the pool itself is returned (it keeps its size)', '''from dice_calc.funclib import highest_N_of_D
x = highest_N_of_D(3, D.roll(2, 6))
assert len(x) == 1, len(x)
''')
S('c07-middle-two', 'C07', [(FU, "    FROM = 1 + (len(DICE) - NUMBER) // 2\n", "    FROM = 1 + (len(DICE) - NUMBER) // 2 + (1 if NUMBER > 3 and (len(DICE) - NUMBER) % 2 else 0)\n")],
  'four or more in the middle of a pool with an odd number left over', 'the lower of the two middles is taken', '''from dice_calc.funclib import middle_N_of_D
x = middle_N_of_D(4, D.roll(5, 2))
y = (D.Seq(1, 2, 3, 4) @ D.roll(5, 2))
assert dist(x) == dist(y), (x, y)
''')
S('c07-sort-mixed', 'C07', [(FU, "    return Seq(sorted(SEQUENCE, reverse=True))\n", "    return Seq(sorted(SEQUENCE, reverse=True, key=lambda v: v if isinstance(v, int) or abs(v) < 100 else round(v)))\n")],
  'sorting fractions above 100 that differ by less than a half', 'they are not sorted', '''from dice_calc.funclib import sort
assert tuple(sort(D.Seq(100.25, 100.5, 1))) == (100.5, 100.25, 1)
''')
S('c07-count-nested', 'C07', [(FU, "        COUNT = COUNT + (P @ VALUES == SEQUENCE)\n", "        COUNT = COUNT + (SEQUENCE == P @ VALUES if len(VALUES) < 6 else int(P @ VALUES in tuple(SEQUENCE)) * max(1, tuple(SEQUENCE).count(P @ VALUES) - (P > 6)))\n")],
  'counting seven values or more that occur more than twice', 'later values are counted once less', '''from dice_calc.funclib import count_in
assert count_in([1, 2, 3, 4, 5, 6, 7], [7, 7, 7]) == 3, count_in([1, 2, 3, 4, 5, 6, 7], [7, 7, 7])
''')
S('c08-cmp-nested-list', 'C08', [(SQ, "      if not isinstance(other, Seq):  # convert to Seq if not already\n        other = Seq(*other)\n      if operation", "      if not isinstance(other, Seq):  # convert to Seq if not already\n        other = Seq(*other) if not isinstance(other, tuple) else Seq(_INTERNAL_SEQ_VALUE=other)\n      if operation")],
  'comparing a sequence with a tuple that contains a tuple', 'it is not flattened', '''assert (D.Seq(1, 2, 3) == (1, (2, 3))) == True
''')
S('c08-cmp-number-float', 'C08', [(SQ, "    return sum(1 for x in self._seq if operation(x, other))\n", "    if len(self._seq) > 30 and operation is operator.lt:  # by the opposite\n      return len(self._seq) - sum(1 for x in self._seq if x > other)\n    return sum(1 for x in self._seq if operation(x, other))\n")],
  'counting how many of more than 30 numbers are below a number', 'equal ones are counted', '''s = D.Seq(range(40))
assert (s < 20) == 20, s < 20
''')
S('c08-getitem-slice', 'C08', [(SQ, "    return sum(other[int(i)] for i in self._seq)\n", "    if len(self) > 12 and len(self) == self[len(self)] - self[1] + 1:  # a range\n      a = self[1]\n      return sum(other._seq[max(0, a - 1):a - 1 + len(self)])\n    return sum(other[int(i)] for i in self._seq)\n")],
  'selecting positions with more than 12 entries whose ends look like a range', 'other positions are selected', '''s = D.Seq(range(100, 130))
loc = [1] * 12 + [13]
assert D.Seq(loc) @ s == 100 * 12 + 112, D.Seq(loc) @ s
''')
S('c08-zero-based-neg', 'C08', [(SQ, "    return self._seq[i - self._one_indexed] if 0 <= i - self._one_indexed < len(self._seq) else 0\n", "    return self._seq[i - self._one_indexed] if 0 <= i - (self._one_indexed and 1) < len(self._seq) or (not self._one_indexed and i == -1 and self._seq) else 0\n")],
  'position -1 of a zero-based sequence', 'the last element', '''s = D.Seq(1, 2, 3)
s.set_one_indexed(False)
assert s[-1] == 0, s[-1]
''')
S('c08-invert-frac', 'C08', [(SQ, "    return 1 if self.sum() == 0 else 0\n", "    return 1 if not any(self._seq) or int(self.sum()) == 0 else 0\n")],
  'the negation of a sequence with a fractional sum between -1 and 1', 'it is true', '''assert ~D.Seq(0.5) == 0
''')
S('c08-float-access', 'C08', [(SQ, "      other = Seq([int(d) for d in str(int(other) if isinstance(other, bool) else other)])  # SEQ @ int", "      other = Seq([int(d) for d in str(int(other) if isinstance(other, bool) else other)] if other < 10**15 else [int(other) // 10**i % 10 for i in range(len('%d' % float(other)) - 1, -1, -1)])  # SEQ @ int")],
  'the digits of a number of 10**15 or more that a float rounds up to more digits', 'digits are shifted', '''n = 10**24 - 1
assert D.Seq(1) @ n == 9, D.Seq(1) @ n
''')
S('c09-round-null', 'C09', [(BL, "  def __round__(self, n=0):\n    return self\n", "  def __round__(self, n=0):\n    return self if n == 0 else BlankRV()\n")],
  'rounding the null to some digits', 'it becomes blank', '''n = D.roll(D.roll(D.Seq()), 6) if False else D.roll(D.BlankRV(), 6)
assert len(n) == 1
assert len(round(n, 2)) == 1, len(round(n, 2))
''')
S('c09-abs-null', 'C09', [(BL, "  def __trunc__(self):\n    return self\n", "  def __trunc__(self):\n    return BlankRV()\n")],
  'truncating the null', 'it becomes blank', '''import math
n = D.roll(D.BlankRV(), 6)
assert len(math.trunc(n)) == 1
''')
S('c09-blank-sub-neg', 'C09', [(BL, "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other).sum()\n    return (-other)\n", "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other).sum() if len(tuple(other)) else BlankRV()\n    return (-other)\n")],
  'blank minus an empty sequence', 'blank instead of 0', '''x = D.BlankRV() - D.Seq()
assert not isinstance(x, D.BlankRV) and x == 0, x
''')
S('c09-roll-null-count', 'C09', [(RO, "    return blackrv.BlankRV(_special_null=True)\n", "    return n if n._special_null else blackrv.BlankRV(_special_null=isinstance(d, (int, MetaRV)) or len(d) < 4)\n")],
  'a blank number of dice given as a sequence of four numbers or more', 'the result is blank', '''x = D.roll(D.BlankRV(), D.Seq(1, 2, 3, 4))
assert len(x) == 1
''')
S('c10-cdf-zero', 'C10', [(RV, "    return type(self)(cdf_vals, cdf_probs)\n", "    pairs = [(v, c) for v, p, c in zip(cdf_vals, self.probs, cdf_probs) if p or len(cdf_vals) < 4]\n    return type(self)(*zip(*pairs)) if pairs else type(self)(cdf_vals, self.probs)\n")],
  'the cumulative form of a die of four values or more with a zero-weight value', 'the value is missing', '''x = D.RV([1, 2, 3, 4], [1, 0, 1, 1]).get_cdf()
assert 2 in x.vals, x.vals
''')
S('c10-filter-die', 'C10', [(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = set(factory.get_seq(obj)) if not isinstance(obj, RV) else set(v for v, p in zip(obj.vals, obj.probs) if p * len(obj.probs) >= obj._get_sum_probs())\n")],
  'filtering by a die with unequal weights', 'only its frequent values are removed', '''x = D.roll(6).filter(D.RV([1, 2], [1, 5]))
assert x.vals == (3, 4, 5, 6), x.vals
''')
S('c10-std-neg', 'C10', [(RV, "    return math.sqrt(var)\n", "    return math.sqrt(var) if var > 1e-9 else 0.0\n")],
  'a very rare outcome or nearly equal values', 'the standard deviation is 0', '''x = D.RV([0, 1], [10**12, 1])
assert x.std() > 9e-7, x.std()
''')
S('c10-cut-many', 'C10', [(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut = set(v for v, p in accumelated_probs[:200] if p < cdf_cut)\n")],
  'a cut that removes more than 200 values', 'only 200 are removed', '''x = D.RV(range(400), [1] * 399 + [10**6])
assert len(x.get_vals_probs(0.5)) == 1, len(x.get_vals_probs(0.5))
''')
S('c11-many-lines', 'C11', [(OU, "    for v, p in vp:\n", "    for v, p in vp if len(vp) <= 500 else vp[:250] + vp[-250:]:\n")],
  'a report of more than 500 values', 'the middle is missing', '''t = D.output(D.roll(501), print_=False)
assert len(t.split('\\n')) == 503, len(t.split('\\n'))
''')
S('c11-neg-width', 'C11', [(OU, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(vp[0][0])), len(str(vp[-1][0])), len(str(vp[len(vp) // 2][0])))\n")],
  'a die with fractions whose longest label is neither first, last nor in the middle', 'columns are not aligned', '''t = D.output(D.RV([0, 1.25, 2, 3, 4], [1] * 5), print_=False)
ls = t.split('\\n')[1:-1]
assert len({l.index(':') for l in ls}) == 1, ls
''')
S('c11-round-half', 'C11', [(OU, "    mean = round(mean, 2) if mean is not None else None\n", "    mean = round(mean, 2 if abs(mean) < 10**6 else 0) if mean is not None else None\n")],
  'a mean of a million or more', 'it is shown without decimals', '''t = D.output(D.RV([2000000, 2000001], [1, 1]), print_=False)
assert t.startswith('2000000.5 '), t[:30]
''')
S('c13-const-trunc', 'C13', [(RV, "    return RV([val], [1])\n", "    return RV([val], [1], truncate=None if isinstance(val, int) or val > 0 else False)\n")],
  'a negative fractional constant under truncation', 'it is not truncated', '''from dice_calc.randvar import RV
D.settings_set('RV_TRUNC', True)
assert RV.from_const(-1.5).vals == (-1,), RV.from_const(-1.5).vals
''')
S('c13-ignore-late', 'C13', [(RV, "skip_zero_probs=SETTINGS['RV_IGNORE_ZERO_PROBS'], normalize=True)", "skip_zero_probs=SETTINGS['RV_IGNORE_ZERO_PROBS'] and len(vals) < 90, normalize=True)")],
  'dice of 90 values or more with zero weights when they are to be ignored', 'they are kept', '''D.settings_set('RV_IGNORE_ZERO_PROBS', True)
assert len(D.RV(range(100), [1, 0] * 50).vals) == 50
''')
S('c13-depth-bigint', 'C13', [(SE, "    assert isinstance(value, int) and value > 0, '\"maximum function depth\"", "    value = min(value, 1000) if isinstance(value, int) else value\n    assert isinstance(value, int) and value > 0, '\"maximum function depth\"")],
  'a function depth above 1000', 'it is capped', '''from dice_calc.settings import SETTINGS
D.settings_set('maximum function depth', 5000)
assert SETTINGS['maximum function depth'] == 5000
''')
S('c13-reset-print', 'C13', [(SE, "  SETTINGS.update(DEFAULT_SETTINGS)\n", "  fn = SETTINGS.get('DEFAULT_PRINT_FN')\n  SETTINGS.update(DEFAULT_SETTINGS)\n"), (SE, "  SETTINGS[name] = value\n", "  SETTINGS[name] = value\n  if name == 'DEFAULT_OUTPUT_WIDTH' and value > 1000:\n    DEFAULT_SETTINGS.setdefault('max width', value)\n")],
  'a width above 1000 and then a reset', 'a new setting appears', '''from dice_calc.settings import SETTINGS
before = sorted(SETTINGS)
D.settings_set('DEFAULT_OUTPUT_WIDTH', 2000)
D.settings_reset()
assert sorted(SETTINGS) == before
''')
S('c14-kw-depth', 'C14', [(DE, "      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1\n", "      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + (1 if args or not kwargs else 0)\n")],
  'recursion with keyword arguments only', 'the depth is not counted', '''n = [0]
@D.anydice_casting()
def f(x: D.T_N):
    n[0] += 1
    if n[0] > 50:
        return 0
    return f(x=x)
f(x=1)
assert n[0] == 10, n
''')
S('c14-many-calls', 'C14', [(DE, "        SETTINGS['INTERNAL_CURR_DEPTH'] = depth\n      return res", "        SETTINGS['INTERNAL_CURR_DEPTH'] = depth\n        SETTINGS['calls'] = SETTINGS.get('calls', 0) + 1\n        if SETTINGS['calls'] > 2500:\n          SETTINGS['INTERNAL_CURR_DEPTH'] = depth + (depth == 0)\n      return res")],
  'more than 250 calls', 'one level of depth is lost', '''n = [0]
@D.anydice_casting()
def f(x: D.T_N):
    n[0] += 1
    return f(x)
for _ in range(400):
    n[0] = 0
    f(1)
    assert n[0] == 10, n
''')
S('c15-long-number', 'C15', [(PR, "            return node.val.lstrip('0') or '0'  # python doesn't allow leading zeros\n", "            return (node.val.lstrip('0') or '0') if len(node.val) < 17 else str(int(float(node.val)))\n")],
  'a number of 17 digits or more', 'it is rounded', '''assert comp('output 12345678901234567')[0][0] == 12345678901234567
''')
S('c15-double-minus', 'C15', [(PR, "            return f'{op}{self.resolve_node(expr)}'\n", "            if op == '-' and isinstance(expr, Node) and expr.type == NodeType.UNARY and expr.vals[0] == '-':\n                return self.resolve_node(expr.vals[1])\n            return f'{op}{self.resolve_node(expr)}'\n")],
  'a double minus before a pool or a sequence', 'the pool stays a pool', '''assert len(comp('X: 2d6 output #(--X)')) == 1
assert comp('X: 2d6 output #(--X)')[0][0] == 1
''')
S('c15-paren-power', 'C15', [(PR, "        if parent_op == '^' and is_left and (node.type == NodeType.UNARY or", "        if parent_op == '^' and is_left and ((node.type == NodeType.UNARY and node.vals[0] != '+') or")],
  'a plus before the base of a power with a sequence', '+{..}^n sums after', '''assert comp('output +{1,2}^2')[0][0] == 9
assert comp('output +"a"', None) is not None if False else True
x = comp('output 2^+{1,2}^2')[0][0]
''')
S('c15-neg-cmp', 'C15', [(PR, "COMPARISONS = ('=', '!=', '<', '>', '<=', '>=')", "COMPARISONS = ('=', '!=', '<', '>', '>=')")],
  'less-or-equal followed by another comparison', 'python chains them', '''assert comp('output 3 <= 2 < 5')[0][0] == 1, comp('output 3 <= 2 < 5')
assert comp('output 1 <= 5 = 5')[0][0] == 0
''')
S('c15-seq-big', 'C15', [(MP, "        p[0] = p[1].with_child(p[3])\n    else:\n        p[0] = Node(NodeType.SEQ, p[1])\n", "        p[0] = p[1].with_child(p[3]) if len(p[1]) < 255 else p[1]\n    else:\n        p[0] = Node(NodeType.SEQ, p[1])\n")],
  'a written sequence of more than 255 elements', 'the rest is dropped', '''assert comp('output {' + ','.join(['1'] * 300) + '} + 0')[0][0] == 300
''')
S('c16-inner-vars', 'C16', [(PR, "            if self._COMPILER_FLAG_NON_LOCAL_SCOPE:\n                args.append('vars')\n", "            if self._COMPILER_FLAG_NON_LOCAL_SCOPE:\n                args.append('vars' if not any('(' in a and 'vars)' in a for a in args) else 'dict()')\n")],
  'a call whose argument is a call, with the caller\'s variables visible', 'the outer call sees no variables', '''fl = {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}
try:
    r = comp('function: g A { result: A + X } function: f A { result: A + X } X: 10 output [f [g 1]]', fl)
except KeyError:
    assert False
assert r[0][0] == 21
''')
S('c16-loop-over-copy', 'C16', [(PR, "            res_header = f'for {py_var} in {self.resolve_node(over)}:'\n", "            res_header = f'for {py_var} in {self.resolve_node(over)}:' if self._function_nesting < 1 or over.type != NodeType.SEQ or len(over) < 3 else f'for {py_var} in sorted({self.resolve_node(over)}):'\n")],
  'a loop inside a function over a written sequence of three or more', 'the order is sorted', '''r = comp('function: f { R: 0 loop I over {3,1,2} { R: R*10 + I } result: R } output [f]')
assert r[0][0] == 312, r
''')
S('c16-else-if-scope', 'C16', [(PR, "                    r = f'elif {self.resolve_node(expr)}:\\n{self._indent_resolve(code)}'\n", "                    r = f'elif {self.resolve_node(expr)}:\\n{self._indent_resolve(code)}' if len(res) < 4 else f'if {self.resolve_node(expr)}:\\n{self._indent_resolve(code)}'\n")],
  'a fourth else-if', 'it is an if of its own', '''t = 'X: 1 R: 0 if X = 1 { R: 1 } else if X = 2 {R: 2} else if X = 3 {R: 3} else if X = 4 {R: 4} else if X = 1 {R: 5} else if X = 6 { R: 6 } output R'
assert comp(t)[0][0] == 1, comp(t)
''')
S('c16-result-last', 'C16', [(PR, "            return f'return {self.resolve_node(node.val)}'\n", "            return f'return {self.resolve_node(node.val)}' if node.val.type != NodeType.VAR or self._function_nesting != 1 or not self._COMPILER_FLAG_NON_LOCAL_SCOPE else f'return vars.get(\"{node.val.val}\")'\n")],
  'a result that is an undefined variable with the caller\'s variables visible', 'blank instead of an error', '''try:
    comp('function: f { result: ZZ } output [f]', {'COMPILER_FLAG_NON_LOCAL_SCOPE': True})
except (KeyError, NameError):
    sys.exit(0)
assert False
''')
S('c16-arg-shadow', 'C16', [(PR, "                func_code += self._indent_str('vars = vars.copy(); '", "                func_code += self._indent_str(('vars = vars.copy(); ' if len(func_arg_names) < 3 else '')")],
  'a function of three parameters or more, with the caller\'s variables visible', 'it changes the caller\'s variables', '''fl = {'COMPILER_FLAG_NON_LOCAL_SCOPE': True}
r = comp('X: 1 function: f A B C { X: 5 result: A+B+C } output [f 1 2 3] output X', fl)
assert [x[0] for x in r] == [6, 1], r
''')
S('c17-many-errors', 'C17', [(MP, "    t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))\n", "    if t.value[0].isprintable() or len(t.lexer.lexdata) < 12:\n        t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))\n")],
  'a character that is not printable', 'it is ignored', '''try:
    comp('output 1 + \\u00a0 2 + 300000')
except Exception:
    sys.exit(0)
assert False
''')
S('c17-result-loop', 'C17', [(PR, "            assert self._function_nesting > 0, 'A result can only be given inside a function'\n            return f'return", "            if self._function_nesting == 0 and self._output_counter > 3:\n                return 'pass'\n            assert self._function_nesting > 0, 'A result can only be given inside a function'\n            return f'return")],
  'a result outside of functions after four outputs', 'it is accepted', '''try:
    comp('output 1 output 1 output 1 output 1 result: 5')
except Exception:
    sys.exit(0)
assert False
''')
S('c17-flag-value', 'C17', [(PR, "        assert not flags, f'Unknown flags: {flags}'\n", "        flags = {k: v for k, v in flags.items() if v}\n        assert not flags, f'Unknown flags: {flags}'\n")],
  'an unknown flag that is off', 'it is accepted', '''try:
    comp('output 1', {'COMPILER_FLAG_OTHER': False})
except AssertionError:
    sys.exit(0)
assert False
''')
S('c17-dtype-first', 'C17', [(PR, "                    assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type \"{arg_dtype}\", expected n, s or d'\n", "                    arg_dtype = arg_dtype[0] if len(arg_dtype) > 2 else arg_dtype  # number, sequence, dice\n                    assert arg_dtype in ('s', 'n', 'd'), f'Unknown parameter type \"{arg_dtype}\", expected n, s or d'\n")],
  'a parameter type written as a longer word', 'it is accepted', '''try:
    comp('function: f A:num { result: A } output [f 1]')
except Exception:
    sys.exit(0)
assert False
''')
S('c18-string-tab', 'C18', [(MP, "t_instring_ignore = ''\n", "t_instring_ignore = '\\t'\n")],
  'a tab in a text', 'it is dropped', '''x = comp('output 1 named "a\\tb" output 1 named "\\tb"')
assert x[1][1] == '\\tb', x
''')
S('c18-lineno-names', 'C18', [(PR, "def python_var_name(name):\n", "def python_var_name(name):\n    name = name if len(name) < 64 else name[:63]\n"), ],
  'two variables whose names agree in the first 63 letters', 'they are the same variable', '''a = 'A' * 70
assert comp(f'{a}: 1 {a}B: 2 output {a}')[0][0] == 1
''')
S('c19-sub', 'C19', [(ST, "      newdict[key] = newdict.get(key, 0) + val\n", "      newdict[key] = newdict.get(key, 0) + val if key != _CONST_COEF or len(newdict) < 5 else val\n")],
  'adding numbers to a text outcome of four different texts and a number', 'the earlier number is lost', '''x = D.get_seq('a', 'b', 'c', 'd', 1).sum() + 2
assert '3' in repr(x), x
''')
S('c19-order-coef', 'C19', [(ST, "        if self.data[self.keys[i]] != other.data[other.keys[i]]:\n          return operator(self.data[self.keys[i]], other.data[other.keys[i]])\n", "        if self.data[self.keys[i]] != other.data[other.keys[i]]:\n          return operator(str(self.data[self.keys[i]]), str(other.data[other.keys[i]]))\n")],
  'coefficients of ten or more', 'they are compared as text', '''x = D.roll(12, D.get_seq('a', 'b'))
v = [str(s) for s in x.vals]
assert v.index('2*a + 10*b') < v.index('10*a + 2*b'), v
''')
S('c19-hash-many', 'C19', [(ST, "      return self.keys == other.keys and self.data == other.data\n", "      return self.keys == other.keys and (self.data == other.data if len(self.keys) < 5 else sum(self.data.values()) == sum(other.data.values()) and hash(self) == hash(other) or repr(self)[:40] == repr(other)[:40])\n")],
  'text outcomes of five texts or more that look alike for 40 characters', 'they are equal', '''k = ['aaaaaaaaaaaa', 'bbbbbbbbbbbbbb', 'cccccccccccc', 'ddddddddddd', 'e', 'f']
a = D.get_seq(*k).sum()
b = D.get_seq(*k[:-1]).sum() + D.get_seq('f', 'f').sum()
assert not a == b
''')
S('c20-limit-small', 'C20', [(RV, "  normalizing_const = 10**11 * (sum_ // sum_limit)  # only ints, sum_ may be too large for a float\n", "  normalizing_const = 10**11 * (sum_ // sum_limit) if sum_ < 10**60 else 10**(len(str(sum_)) - 8)\n")],
  'weights that add up to more than 1e60 at once', 'eight digits remain', '''a = D.RV([0, 1], [10**50 + 1, 10**42])
x = a + a
assert abs(dist(x).get(1, 0) - 2 * F(10**42, 10**50)) < F(1, 10**9)
''')
S('c21-count-large', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  if count > 64:  # antithetic draws\n    half = [random.choices(rv.vals, rv.probs)[0] for _ in range(count // 2)]\n    return tuple(half) + tuple(random.sample(half, len(half))) + tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count % 2))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
  'more than 64 rolls at once', 'the second half repeats the first half', '''import random
random.seed(1)
d = D.roll(10**6)
r = D.roller(d, 100)
assert len(set(r)) > 90, len(set(r))
''')
S('c21-neg-weights', 'C21', [(RO, "    return random.choices(rv.vals, rv.probs)[0]\n", "    return random.choices(rv.vals, rv.probs)[0] if rv.probs[0] or len(rv.probs) < 4 else random.choices(rv.vals[1:] + rv.vals[:1], rv.probs)[0]\n")],
  'a single roll of a die of four values or more whose first is impossible', 'values are shifted', '''d = D.RV([1, 2, 3, 4], [0, 1, 1, 0])
assert all(D.roller(d) in (2, 3) for _ in range(100))
''')
S('c22-digits', 'C22', [(PR, "        name = '_'.join(words)\n", "        name = '_'.join(words) if len(words) < 8 else '_'.join(words[:7]) + '_' + ''.join(w[0] for w in words[7:])\n")],
  'function names of eight words or more that differ late', 'they are the same function', '''t = 'function: a b c aa e f g one { result: 1 } function: a b c aa e f g other { result: 2 } output [a b c aa e f g one]'
assert comp(t)[0][0] == 1, comp(t)
''')
S('c22-collide', 'C22', [(PR, "        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT or only_params or name in _FUNCS_MAY_COLLIDE:\n", "        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT or only_params or (name in _FUNCS_MAY_COLLIDE and len(words) < 2):\n")],
  'a function named by two words that python joins to a builtin name', 'it replaces the builtin', '''try:
    x = comp('function: settings set { result: 3 } output [settings set] set "explode depth" to 4 output [explode d2]')
except TypeError:
    assert False
assert len(x) == 2 and max(x[1][0].vals) == 10
''')
S('c23-die-of-die', 'C23', [(RO, "    _RHS = _d_RHS if _d_LHS == 1 and isinstance(_d_RHS, int) else '{?}'", "    _RHS = _d_RHS if _d_LHS in (1, -1) and isinstance(_d_RHS, int) else '{?}'")],
  'rolling a die that is a negative single die', 'it is shown as if it were positive', '''x = D.roll(2, D.roll(-1, 6))
assert str(x) == '2d{?}', str(x)
''')
S('c23-float-count', 'C23', [(RO, "  _LHS = n if isinstance(n, int) else (n.sum() if isinstance(n, MetaSeq) else 0)\n", "  _LHS = n if isinstance(n, int) else (n.sum() if isinstance(n, MetaSeq) and len(n) < 4 else 0)\n")],
  'a sequence of four numbers or more as the count', 'it is shown as no dice', '''assert str(D.roll(D.Seq(1, 1, 1, 1), 6)) == '4d6', str(D.roll(D.Seq(1, 1, 1, 1), 6))
''')
S('c24-iter-outputs', 'C24', [(PE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }\n", "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)) if len(all_outputs) < 200 or kwargs else None,\n    **(global_vars or {})\n  }\n")],
  'more than 200 outputs without names in the restricted execution', 'they are dropped', '''assert len(comp('loop I over {1..201} { output I }', how='safe')) == 201
''')
S('c24-exec-lines', 'C24', [(PE, "  byte_code = ResPy.compile_restricted(\n    source=r,\n", "  byte_code = ResPy.compile_restricted(\n    source=r if r.count('\\n') < 400 else r.replace('\\n\\n', '\\n').rsplit('\\n', 2)[0],\n")],
  'a long program in the restricted execution', 'the last line is lost', '''t = '\\n'.join('output %d' % i for i in range(500))
assert len(comp(t, how='safe')) == 500, len(comp(t, how='safe'))
''')
