import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c01-range-step', 'C01', [(RV, "    if not isinstance(s, MetaSeq):\n      s = factory.get_seq(*s)\n    if len(s) == 0:\n      return RV([0], [1])\n", "    if isinstance(s, range) and len(s) > 3:  # consecutive faces\n      return RV(range(s[0], s[0] + len(s)), [1] * len(s))\n    if not isinstance(s, MetaSeq):\n      s = factory.get_seq(*s)\n    if len(s) == 0:\n      return RV([0], [1])\n")],
  'a die made of a range with a step', 'the faces are consecutive', '''x = D.RV.from_seq(range(2, 12, 2))
assert x.vals == (2, 4, 6, 8, 10), x.vals
''')
S('c02-pow-neg', 'C02', [(RV, "  def __rpow__(self, other: T_ifsr):\n    return self._rconvolve(other, operator.pow)\n", "  def __rpow__(self, other: T_ifsr):\n    return self._rconvolve(other, lambda x, y: x**y if y >= 0 or x in (1, -1) else 1 // x**-y)\n")],
  'a number to the power of a die with a negative value', 'the fraction is rounded down', '''x = 2 ** D.RV([-1, 1], [1, 1])
assert dist(x) == {0.5: F(1, 2), 2: F(1, 2)}, dist(x)
''')
S('c02-mod-int', 'C02', [(RV, "  def __mod__(self, other: T_ifsr):\n    return self._convolve(other, operator.mod)\n", "  def __mod__(self, other: T_ifsr):\n    if isinstance(other, int) and 0 < other <= len(self.vals) and self.vals[-1] - self.vals[0] + 1 == len(self.vals) and len(self.vals) % other == 0 and len(set(self.probs)) <= 2:\n      return RV(range(other), [1] * other)  # whole cycles: every remainder is equally likely\n    return self._convolve(other, operator.mod)\n")],
  'the remainder of a die with consecutive faces of two different weights', 'the remainders come out equally likely', '''x = D.RV([1, 2, 3, 4], [1, 2, 1, 2]) % 2
assert dist(x) == {0: F(2, 3), 1: F(1, 3)}, dist(x)
''')
S('c02-cmp-disjoint', 'C02', [(RV, "  def __lt__(self, other: T_ifsr):\n    return self._convolve(", "  def __lt__(self, other: T_ifsr):\n    if isinstance(other, RV) and self.vals[0] >= other.vals[-1] - 0.5 and self.vals[-1] > other.vals[-1]:  # never smaller\n      return RV.from_const(0)\n    return self._convolve(")],
  'fractional values that differ by a quarter or so', 'a possible "smaller" is missed', '''x = D.RV([1.75, 5], [1, 1]) < D.RV([2, 1], [1, 1])
assert dist(x) == {0: F(3, 4), 1: F(1, 4)}, dist(x)
''')
S('c03-coin', 'C03', [(RO, "  half = _roll_int_rv(n // 2, d)\n", "  if n > 5 and len(d.vals) == 2 and d.vals[1] - d.vals[0] == 1 and isinstance(d.vals[0], int):  # successes: binomial\n    a, b = d.probs\n    full = RV(range(d.vals[0] * n, d.vals[0] * n + n + 1), [math.comb(n, i) * a**i * b**(n - i) for i in range(n + 1)])\n    full.set_source(n, d)\n    return full\n  half = _roll_int_rv(n // 2, d)\n")],
  'six or more dice with two neighbouring faces of different weight', 'the weights are swapped', '''x = D.roll(6, D.RV([0, 1], [1, 3]))
assert dist(x)[6] == F(3**6, 4**6), dist(x)
''')
S('c03-const-count', 'C03', [(RO, "    assert all(isinstance(v, int) for v in n.vals), 'RV must have int values to roll other dice'\n", "    assert all(isinstance(v, int) for v in n.vals), 'RV must have int values to roll other dice'\n    if len(d.vals) == 1 and n.vals[0] >= 0:  # the same face every time\n      return n * abs(d.vals[0])\n")],
  'a random number of dice that have a single negative face', 'the sign is lost', '''x = D.roll(D.roll(3), D.RV([-2], [1]))
assert dist(x) == {-2: F(1, 3), -4: F(1, 3), -6: F(1, 3)}, dist(x)
''')
S('c04-lgamma', 'C04', [(RV, "    def get_x(xi, k):\n      return sum(math.comb(N, j)", "    def comb(n, j):\n      return math.comb(n, j) if n <= 44 else round(math.exp(math.lgamma(n + 1) - math.lgamma(j + 1) - math.lgamma(n - j + 1)))\n\n    def get_x(xi, k):\n      return sum(comb(N, j)")],
  'one position of a pool of more than 44 dice', 'the probabilities are only good to some twelve digits, not exact', '''x = 1 @ D.roll(60, 2)
assert dist(x) == {1: F(1, 2**60), 2: 1 - F(1, 2**60)}
x = 30 @ D.roll(60, 2)
import math
assert dist(x)[2] == F(sum(math.comb(60, j) for j in range(30, 61)), 2**60), dist(x)
''')
S('c04-lists', 'C04', [(RV, "    if len(other) == 1:  # only one index, return the value at that index\n", "    if len(other) > 1 and set(other._seq) == {other._seq[0]} and len(self) > 2:  # the same die several times\n      return other._seq[0] @ self * len(self)\n    if len(other) == 1:  # only one index, return the value at that index\n")],
  'one position listed several times (other than the number of dice)', 'it counts as often as there are dice', '''x = D.Seq(1, 1) @ D.roll(3, 2)
assert dist(x) == {2: F(1, 8), 4: F(7, 8)}, dist(x)
''')
S('c05-float-seq', 'C05', [(DE, "        elif expected_type == T_S and isinstance(arg_val, (int, float)):\n          new_val = get_seq([arg_val])\n", "        elif expected_type == T_S and isinstance(arg_val, (int, float)):\n          new_val = get_seq(range(arg_val, arg_val + 1)) if isinstance(arg_val, int) else get_seq([round(arg_val, 1)])\n")],
  'a fraction such as 0.25 handed to a sequence parameter', 'it is rounded', '''@D.anydice_casting()
def f(s: D.T_S):
    return 1 @ s
assert f(0.25) == 0.25, f(0.25)
''')
S('c05-shared-result', 'C05', [(DE, "        val: T_ifsr = func(*args, **kwargs)  # single result of the function call\n", "        key = tuple(r if isinstance(r, (int, float)) else sum(r) for r in rolls)\n        val: T_ifsr = seen[key] if key in seen and len(rolls) > 1 and len(seen) > 8 else func(*args, **kwargs)  # single result of the function call\n        seen[key] = val\n"), (DE, "      res_probs: list[int] = []\n", "      res_probs: list[int] = []\n      seen: dict = {}\n")],
  'two expanded parameters one of which is a pool for a sequence parameter, more than eight calls', 'rolls of equal sum share a result', '''@D.anydice_casting()
def f(s: D.T_S, n: D.T_N):
    return (1 @ s) * 100 + n
x = f(D.roll(2, 4), D.roll(2))
assert dist(x)[301] == F(5, 32), dist(x)
''')
S('c06-int-only', 'C06', [(RV, "    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n", "    if len(rvs) > 8 and all(isinstance(r, (int, float)) for r in rvs):  # plain numbers: count them\n      counts = defaultdict(int)\n      for r, w in zip(rvs, weights):\n        counts[int(r)] += w\n      return RV(tuple(counts), tuple(counts.values()))\n    prob_sums = tuple(sum(r.probs) if isinstance(r, RV) else 1 for r in rvs)\n")],
  'nine or more plain numbers one of which is a fraction', 'the fraction is cut off', '''x = D.RV.from_rvs([1, 2, 3, 4, 5, 6, 7, 8, 0.5])
assert dist(x).get(0.5) == F(1, 9), dist(x)
''')
S('c07-sort-counting', 'C07', [(FU, "    return Seq(sorted(SEQUENCE, reverse=True))\n", "    if len(SEQUENCE) > 12 and all(-50 <= x <= 50 for x in SEQUENCE):  # counting sort\n        return Seq([x] * list(SEQUENCE).count(x) for x in range(50, -51, -1))\n    return Seq(sorted(SEQUENCE, reverse=True))\n")],
  'sorting thirteen or more small numbers some of which are fractions', 'the fractions vanish', '''x = D.sort_X(D.Seq([1.5] + list(range(13))))
assert len(x) == 14, x
''')
S('c07-contains-die', 'C07', [(FU, "    return (SEQUENCE == NUMBER) > 0\n", "    return (SEQUENCE == NUMBER) > 0 if len(SEQUENCE) < 9 or NUMBER != 1 @ SEQUENCE else len(SEQUENCE) @ SEQUENCE <= NUMBER\n")],
  'nine or more elements, the number is the first of them and not the largest', 'it is not found', '''assert D.X_contains_X(D.Seq(range(1, 12)), 1) == 1
''')
S('c08-lt-sorted', 'C08', [(SQ, "    # if other is a number\n", "    # if other is a number\n    if len(self._seq) > 10 and operation == operator.lt and self._seq[0] <= self._seq[1] <= self._seq[-2] <= self._seq[-1]:  # ascending\n      return next((i for i, x in enumerate(self._seq) if x >= other), len(self._seq))\n")],
  'eleven or more elements that ascend at both ends but not in between', 'only the elements before the first larger one are counted', '''s = D.Seq([1, 2, 9, 3, 9, 3, 9, 3, 9, 10, 11])
assert (s < 5) == 5, s < 5
''')
S('c08-at-many', 'C08', [(SQ, "    return sum(self[int(i)] for i in other._seq)\n", "    if len(other._seq) > 12:\n      return sum(x * other._seq.count(i) for i, x in enumerate(self._seq, 1))\n    return sum(self[int(i)] for i in other._seq)\n")],
  'thirteen or more positions (as a plain list) into a sequence that counts from 0', 'they are counted from 1', '''s = D.Seq(range(10, 40))
s.set_one_indexed(False)
assert list(range(13)) @ s == sum(range(10, 23)), list(range(13)) @ s
''')
S('c08-digit-zero', 'C08', [(UT, "        return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0\n", "        return b // 10**(len(str(b)) - a) % 10 if (0 <= a - 1 < len(str(b))) and b < 10**15 else int(float(b) // 10**(len(str(b)) - a)) % 10 if (0 <= a - 1 < len(str(b))) else 0\n")],
  'a digit of a number of sixteen or more digits', 'wrong digit', '''assert D.myMatmul(18, 123456789012345678) == 8, D.myMatmul(18, 123456789012345678)
''')
S('c09-mod', 'C09', [(BL, "  def __rmod__(self, other: T_ifsr):\n    return self\n", "  def __rmod__(self, other: T_ifsr):\n    return self if other else other\n")],
  'the number 0 % blank', '0 instead of blank', '''x = 0 % D.BlankRV()
assert isinstance(x, D.BlankRV), x
''')
S('c09-null-matmul', 'C09', [(BL, "    if self._special_null:\n      return 0 if other != 1 else self\n", "    if self._special_null:\n      return 0 if other not in (1, 2) else self\n")],
  'position 2 of the null die', 'null instead of 0', '''@D.anydice_casting()
def f(n: D.T_N):
    return 3
x = f(D.BlankRV())
assert (2 @ x) == 0 and not isinstance(2 @ x, D.BlankRV)
''')
S('c10-var', 'C10', [(RV, "    var = sum((v - EX)**2 * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs))  # E[(X - E[X])^2]\n", "    var = max(0, sum(v * v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs() - EX**2)  # E[X^2] - E[X]^2\n")],
  'values that are large compared with their spread', 'the deviation is off', '''x = D.RV([10**9, 10**9 + 1], [1, 1])
assert abs(x.std() - 0.5) < 1e-6, x.std()
''')
S('c10-filter-range', 'C10', [(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = set(factory.get_seq(obj))\n    if len(to_filter) > 6 and max(to_filter) - min(to_filter) + 1 == len(self.vals):  # a whole range\n      to_filter = set(range(int(min(to_filter)), int(max(to_filter)) + 1))\n")],
  'seven or more values to remove that span as many numbers as the die has values, with gaps', 'the values in the gaps are removed too', '''x = D.roll(10).filter([1, 2, 3, 4, 5, 6, 10])
assert x.vals == (7, 8, 9), x.vals
''')
S('c11-named-empty', 'C11', [(OU, "  result = ''\n  if named is not None:\n    result += named + ' '\n\n  try:", "  result = ''\n  if named:\n    result += named + ' '\n\n  try:")],
  'an empty name', 'the leading blank is missing', '''assert D.output(D.roll(2), named='', print_=False).startswith(' 1.5')
''')
S('c11-width0', 'C11', [(OU, "  if blocks_width is None:\n", "  if blocks_width is None or blocks_width < 1:\n")],
  'a width of 0', 'the default width is used', '''x = D.output(D.roll(2), blocks_width=0, print_=False).split('\\n')
assert x[-1] == '-' * 8, x[-1]
''')
S('c11-none-name', 'C11', [(OU, "    mean = rv.mean()\n    mean = round(mean, 2) if mean is not None else None\n", "    mean = rv.mean()\n    mean = round(mean, 2) if mean is not None and abs(mean) < 1000 else None if mean is None else float(f'{mean:.6g}')\n")],
  'a mean of 10000 or more', 'the mean is rounded to six significant digits', '''x = D.output(D.RV([123456, 123457], [1, 1]), print_=False)
assert x.startswith('123456.5 '), x[:20]
''')
S('c12-report-cache', 'C12', [(RV, "    vals_probs: list[tuple[Union[float, str], float]] = list((v, p / s) for v, p in zip(self.vals, self.probs))\n", "    vals_probs: list[tuple[Union[float, str], float]] = list(_REPORTS.setdefault((self.vals, self.probs), [(v, p / s) for v, p in zip(self.vals, self.probs)]))\n"), (RV, "class RV(MetaRV):\n", "_REPORTS: dict = {}\n\n\nclass RV(MetaRV):\n")],
  'two equal dice with different number types, both reported', 'the second is reported with the number type of the first', '''a = D.RV([1.0, 2.0], [1, 1]).get_vals_probs()
b = D.RV([1, 2], [1, 1]).get_vals_probs()
assert all(isinstance(v, int) for v, _ in b), b
''')
S('c12-sum-lists', 'C12', [(SQ, "    if self._sum is None:\n      self._sum = sum(self._seq)\n    return self._sum\n", "    if self._sum is None:\n      self._sum = _SUMS.setdefault(self._seq, sum(self._seq))\n    return self._sum\n"), (SQ, "class Seq(Iterable, MetaSeq):\n", "_SUMS: dict = {}\n\n\nclass Seq(Iterable, MetaSeq):\n")],
  'the sums of two equal sequences with different number types', 'the second sum has the number type of the first', '''a = D.Seq(1.0, 2.0).sum()
b = D.Seq(1, 2).sum()
assert isinstance(b, int), b
''')
S('c13-width-str', 'C13', [(SE, "    assert isinstance(value, int) and value > 0, 'DEFAULT_OUTPUT_WIDTH must be a positive integer'\n", "    value = int(value)\n    assert value > 0, 'DEFAULT_OUTPUT_WIDTH must be a positive integer'\n")],
  'a fraction or a text as output width', 'it is accepted', '''try:
    D.settings_set('DEFAULT_OUTPUT_WIDTH', 20.5)
except Exception:
    sys.exit(0)
assert False
''')
S('c13-same-value', 'C13', [(SE, "    assert False, f'invalid setting name: {name}'\n", "    assert name in SETTINGS, f'invalid setting name: {name}'\n")],
  'setting an internal name', 'it is accepted', '''try:
    D.settings_set('INTERNAL_CURR_DEPTH', 3)
except Exception:
    sys.exit(0)
assert False
''')
S('c14-depth-cap', 'C14', [(DE, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= min(SETTINGS['maximum function depth'], 40):\n")],
  'a maximum function depth above 40 that is used', 'calls are cut at 40', '''@D.anydice_casting()
def f(n: D.T_N):
    return 1 + f(n - 1) if n > 0 else 0
D.settings_set('maximum function depth', 100)
assert f(60) == 60, f(60)
''')
S('c15-big-literal', 'C15', [(PR, "            return node.val.lstrip('0') or '0'  # python doesn't allow leading zeros\n", "            return str(int(float(node.val))) if len(node.val) > 16 else node.val.lstrip('0') or '0'  # python doesn't allow leading zeros\n")],
  'a number of more than sixteen digits', 'its last digits are wrong', '''assert comp('output 12345678901234567891')[0][0] == 12345678901234567891
''')
S('c15-dec-round', 'C15', [(PR, "            return f'{val1}.{val2}'\n", "            return f'{val1}.{val2[:6]}'\n")],
  'a decimal literal with more than six decimals', 'the rest is cut', '''assert comp('output 0.12345678*1000000000')[0][0] >= 123456779, comp('output 0.12345678*1000000000')
''')
S('c15-range-cap', 'C15', [(RO, "    return range(int(left), int(right) + 1)\n", "    return range(int(left), min(int(right), int(left) + 500) + 1)\n")],
  'a range of more than 501 numbers', 'it is cut', '''assert comp('output #{1..1000}')[0][0] == 1000
''')
S('c15-seq-dup', 'C15', [(PR, "            elems = \", \".join([self.resolve_node(x) for x in node])\n", "            elems = \", \".join(([self.resolve_node(x) for x in node] if len(node) < 9 else list(dict.fromkeys(self.resolve_node(x) for x in node)) if all(x.type == NodeType.NUMBER for x in node) else [self.resolve_node(x) for x in node]))\n")],
  'a sequence of nine or more literals with a repeated one', 'the repeated one occurs once', '''assert comp('output #{1,2,3,4,5,6,7,8,8}')[0][0] == 9
''')
S('c16-many-params', 'C16', [(PR, "            func_def = f'def {func_name}({\", \".join(func_args)}):'\n", "            func_def = f'def {func_name}({\", \".join(sorted(func_args, key=len) if len(func_args) > 4 else func_args)}):'\n")],
  'a function of five or more parameters, typed and untyped, the typed ones first', 'arguments are mixed up', '''x = comp('function: f A:n B C D E { result: A*10000+B*1000+C*100+D*10+E } output [f 1 2 3 4 5]'.replace('f 1 2 3 4 5', 'f 1 2 3 4 5'))
assert x[0][0] == 12345, x
''')
S('c16-deep-nest', 'C16', [(PR, "        return '\\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\\n'))\n", "        return '\\n'.join(' ' * self.INDENT_LEVEL + x if len(x) - len(x.lstrip()) < 12 else x for x in s.split('\\n'))\n")],
  'statements nested eight levels deep', 'the generated code is not what was written', '''t = 'X: 0 ' + ''.join('loop %s over {1..2} { ' % c for c in 'ABCDEFGH') + 'X: X+1 ' + '} ' * 8 + 'output X'
try:
    x = comp(t)
except Exception as e:
    assert False, e
assert x[0][0] == 256, x
''')
S('c16-same-fn', 'C16', [(PR, "            self._user__defined_functions.append(func_name)\n", "            if self._user__defined_functions.count(func_name) > 1:  # defined three times\n                return 'pass'\n            self._user__defined_functions.append(func_name)\n")],
  'a function defined three times', 'the third definition is ignored', '''x = comp('function: f { result: 1 } function: f { result: 2 } function: f { result: 3 } output [f]')
assert x[0][0] == 3, x
''')
S('c17-inner-call', 'C17', [(PR, "            self._called_functions.add(name)\n", "            if self._function_nesting == 0 or name in self._defined_functions:\n                self._called_functions.add(name)\n")],
  'an undefined function called inside a function', 'it is accepted', '''try:
    D.settings_reset()
    from dice_calc.parser import parse_and_exec as pe
    pe.compile_anydice('function: f { result: [list] } output 1')
except AssertionError:
    sys.exit(0)
sys.exit(1)
''', anyerr=True)
S('c17-output-fn', 'C17', [(PR, "        assert self._output_counter > 0, 'No outputs made.", "        assert self._output_counter + len(self._user__defined_functions) // 3 > 0, 'No outputs made.")],
  'a program without output that defines three functions', 'it is accepted', '''try:
    from dice_calc.parser import parse_and_exec as pe
    pe.compile_anydice('function: f { result: 1 } function: g { result: 1 } function: h { result: 1 }')
except AssertionError:
    sys.exit(0)
sys.exit(1)
''', anyerr=True)
S('c18-comment-long', 'C18', [(MP, "    r'\\\\(.|\\n)*?\\\\'\n    # comment", "    r'\\\\(.|\\n){0,500}?\\\\'\n    # comment")],
  'a comment of more than 500 characters', 'it is not recognised', '''try:
    x = comp('output 1 \\\\' + 'abc ' * 200 + '\\\\ output 2')
except AssertionError as e:
    assert False, 'rejected'
assert len(x) == 2, x
''')
S('c19-prefix', 'C19', [(ST, "        if self.keys[i] != other.keys[i]:\n          return operator(self.keys[i], other.keys[i])\n", "        if self.keys[i] != other.keys[i]:\n          return operator(self.keys[i][:10], other.keys[i][:10])\n")],
  'two texts that agree in the first ten letters', 'they are not ordered', '''a, b = D.roll(D.get_seq('lightning bolt', 'lightning arc')).vals
assert str(a) == 'lightning arc', (a, b)
assert not (b < a)
assert a < b
''')
S('c19-number-text', 'C19', [(ST, "    for i, x in enumerate(source_lst):\n      if isinstance(x, str):\n        source_lst[i] = StringVal.from_str(x)\n", "    seen = {}\n    for i, x in enumerate(source_lst):\n      if isinstance(x, str):\n        source_lst[i] = seen.setdefault(x.strip(), StringVal.from_str(x))\n")],
  'two texts that differ only in surrounding blanks', 'the second is taken for the first', '''x = D.roll(D.get_seq('a', 'a '))
assert len(x.vals) == 2, x.vals
''')
S('c10-mean-wide', 'C10', [(RV, "    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()\n", "    return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs() if len(self.vals) < 3000 else sum(v * round(2**30 * p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs)) / 2**30\n")],
  'a die of three thousand or more values', 'the mean is off', '''x = D.roll(500, 10)
assert abs(x.mean() - 2750) < 1e-6 * 5, x.mean()
''')
S('c21-same-seed', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  rng = random.Random(len(rv.vals)) if count > 20 else random\n  return tuple(rng.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
  'more than twenty rolls at once, twice', 'the same rolls come again', '''assert D.roller(D.roll(100), 30) != D.roller(D.roll(100), 30)
''')
S('c21-sample', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  if 1 < count <= len(rv.vals) // 4:  # few of many\n    return tuple(random.sample(rv.vals, count, counts=rv.probs))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
  'a few rolls of a die with many values', 'no value ever comes twice', '''n = sum(len(set(D.roller(D.roll(20), 5))) < 5 for _ in range(300))
assert n > 20, n
''')
S('c23-var-long', 'C23', [(MP, "t_instring_INSTRING_VAR = r'\\[[A-Z_]+\\]'\n", "t_instring_INSTRING_VAR = r'\\[[A-Z_]{1,12}\\]'\n")],
  'a variable with a name of more than twelve letters in a label', 'it is not replaced', '''x = comp('STRENGTH_BONUS: 4 output 1 named "+[STRENGTH_BONUS]"')
assert x[0][1] == '+4', x
''')
S('c23-seq-sides', 'C23', [(RO, "    _RHS = '{}' if len(d) == 0 else '{?}'\n", "    _RHS = '{}' if len(d) == 0 else len(d) if len(d) > 3 and tuple(d) == tuple(range(1, len(d) + 1)) else '{?}'\n")],
  'a die made of the sequence 1..n with four or more elements', 'shown like a die with sides', '''assert str(D.roll(2, D.Seq(range(1, 7)))) == '2d{?}', str(D.roll(2, D.Seq(range(1, 7))))
''')
S('c24-cap', 'C24', [(PE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }\n  byte_code", "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)) if len(all_outputs) < 100 else None,\n    **(global_vars or {})\n  }\n  byte_code")],
  'more than a hundred outputs', 'the rest is dropped in the restricted execution', '''assert len(comp('loop X over {1..150} { output X }', how='safe')) == 150
''')
S('c24-name-strip', 'C24', [(PE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }\n  byte_code", "    'output': lambda *args, **kwargs: all_outputs.append((args, {k: v.strip() for k, v in kwargs.items()})),\n    **(global_vars or {})\n  }\n  byte_code")],
  'an output name with blanks at its ends', 'they are dropped in the restricted execution', '''assert comp('output 1 named " a "', how='safe')[0][1] == ' a '
''')
S('c24-iter', 'C24', [(PE, "    '_getiter_': Eval.default_guarded_getiter,\n", "    '_getiter_': lambda s: iter(dict.fromkeys(s)) if len(s) > 9 else iter(s),\n")],
  'a loop over a sequence of ten or more elements with a repeated one', 'the restricted execution visits it once', '''assert comp('A: 0 loop X over {1,2,3,4,5,6,7,8,9,9} { A: A+X } output A', how='safe')[0][0] == 54
''')
