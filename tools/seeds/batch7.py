import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c01-nested-depth', 'C01', [(RV, "    if len(s) == 0:\n      return RV([0], [1])\n    return RV(s._seq, [1] * len(s))\n", "    if len(s) == 0:\n      return RV([0], [1])\n    if s[1] == s[len(s)] and len(s) > 2 and s[2] != s[1]:  # a closed walk counts its end once\n      return RV(s._seq[1:], [1] * (len(s) - 1))\n    return RV(s._seq, [1] * len(s))\n")],
  'a sequence that starts and ends with the same number', 'the first element is dropped', '''x = D.RV.from_seq([3, 1, 3])
assert dist(x) == {1: F(1, 3), 3: F(2, 3)}, dist(x)
''')
S('c01-group-adjacent', 'C01', [(RV, "    return sorted(zip(v, p), reverse=True)\n", "    z = list(zip(v, p))\n    if all(a[0] <= b[0] for a, b in zip(z, z[1:])):  # already in order\n      return z[::-1]\n    return sorted(z, reverse=True) if len(z) < 1000 else sorted(z, key=lambda x: (int(x[0]), x[1]), reverse=True)\n")],
  'a die of a thousand values or more with fractions', 'values are out of order and not grouped', '''x = D.RV([0.5 * (i % 7) for i in range(1200)] + [1], [1] * 1201)
assert x.vals == tuple(sorted(set(x.vals))), x.vals[:9]
''')
S('c02-lt-sub', 'C02', [(RV, "    return self._convolve(other, lambda x, y: 1 if x < y else 0)\n", "    return self._convolve(other, lambda x, y: 1 if x - y < 0 else 0)\n")],
  'comparing huge whole numbers with fractional-type ones that differ by less than the float spacing', 'less-than says no', '''x = D.RV([2**53 + 1], [1])
assert dist(D.RV([float(2**53)], [1]) < x) == {1: 1}, (D.RV([float(2**53)], [1]) < x)
''')
S('c02-and-empty', 'C02', [(RV, "    if not isinstance(other, MetaRV):\n      return RV([operation(v, other) for v in self.vals], self.probs)\n", "    if not isinstance(other, MetaRV):\n      if operation is operator.mod and isinstance(other, int) and other > 0 and len(self.vals) > 64:  # residues\n        res = [0] * other\n        for v, p in zip(self.vals, self.probs):\n          res[int(v) % other] += p\n        return RV([r for r, p in enumerate(res) if p], [p for p in res if p])\n      return RV([operation(v, other) for v in self.vals], self.probs)\n")],
  'the remainder of a die with more than 64 fractional values', 'fractions are lost', '''x = D.RV([i / 2 for i in range(80)], [1] * 80) % 3
assert 0.5 in x.vals, x.vals
''')
S('c03-flatten-pool', 'C03', [(RO, "  full.set_source(n, d)\n", "  full.set_source(n * len(d), d._source_die) if d.vals[0] > 0 and len(d) == 5 else full.set_source(n, d)\n")],
  'rolling a pool of five positive dice several times', 'the result has the size of all the dice together', '''x = D.roll(2, D.roll(5, 6))
assert len(x) == 2, len(x)
''')
S('c03-neg-seq-count', 'C03', [(RO, "    return roll(s, d)\n", "    return roll(s, d) if s > 0 or len(n) < 2 else roll(abs(s), d)\n")],
  'a sequence of several numbers with a negative sum as the count', 'the sign is lost', '''x = D.roll(D.Seq(-1, -1), 2)
assert x.vals == (-4, -3, -2), x.vals
''')
S('c03-zero-roll-len', 'C03', [(RO, "  if n == 0:\n    return RV.from_const(0)\n", "  if n == 0:\n    return RV.from_const(0 if all(isinstance(v, int) for v in d.vals) else min(d.vals, key=abs))\n")],
  'no dice with only fractional faces', 'the result is a face', '''x = D.roll(0, D.RV([0.5, 2], [1, 1]))
assert x.vals == (0,), x.vals
''')
S('c04-cache-order', 'C04', [(RV, "    N = draws\n    if SETTINGS", "    N = draws\n    key = (N, k)\n    if N > 3:\n      self._kth = getattr(self, '_kth', {})\n      if key in self._kth:\n        return self._kth[key]\n    if SETTINGS"), (RV, "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n", "    res = RV(self.vals, res_prob)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    if N > 3:\n      self._kth[key] = res\n    return res\n")],
  'selecting the same position of the same pool of four dice or more before and after the position order changes', 'the old result is returned', '''p = D.roll(4, 6)
a = 1 @ p
D.settings_set('position order', 'lowest first')
b = 1 @ p
assert a.mean() > b.mean() + 1, (a.mean(), b.mean())
''')
S('c04-neg-face', 'C04', [(RV, "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n", "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n    if N % 2 and 2 * k == N + 1 and len(self.vals) > 2 and self.vals[0] == -self.vals[-1]:  # the median of a symmetric die is symmetric\n      res_prob = [min(a, b) for a, b in zip(res_prob, res_prob[::-1])]\n")],
  'the middle position of an odd pool of dice whose lowest face is minus the highest, not symmetric in between', 'the probabilities are symmetric', '''x = 2 @ D.roll(3, D.RV([-2, 1, 2], [1, 1, 2]))
assert dist(x)[2] == F(1, 2), dist(x)
''')
S('c05-untyped-list', 'C05', [(DE, "        if arg_name not in param_annotations:  # only look for annotated parameters\n", "        if arg_name not in param_annotations:  # only look for annotated parameters\n          if isinstance(arg_val, list) and not isinstance(k, str):\n            args[k] = get_seq(*arg_val)\n")],
  'a plain list given to an untyped parameter', 'the function receives a sequence', '''seen = []
@D.anydice_casting()
def f(x):
    seen.append(type(x))
    return 1
f([1, 2])
assert seen == [list], seen
''')
S('c05-cut-none', 'C05', [(DE, "        res_vals.append(val)\n        res_probs.append(prob)\n", "        if res_vals and val is None and res_vals[-1] is None:  # dropped anyway\n          res_probs[-1] += prob\n          continue\n        if res_vals and type(val) is int and res_vals[-1] is val and len(hard_params) > 1:\n          res_probs[-1] = res_probs[-1] + prob if prob == res_probs[-1] else res_probs[-1] * 2\n          continue\n        res_vals.append(val)\n        res_probs.append(prob)\n")],
  'two expanded parameters with unequal weights and equal neighbouring results', 'the combined weight is wrong', '''@D.anydice_casting()
def f(a: D.T_N, b: D.T_N):
    return 1 if b < 3 else 2
x = f(D.roll(2), D.RV([1, 2, 3], [1, 3, 1]))
assert dist(x) == {1: F(4, 5), 2: F(1, 5)}, dist(x)
''')
S('c05-dice-in-list', 'C05', [(DE, "          arg_val = get_seq(*arg_val)\n          new_val = arg_val\n", "          arg_val = get_seq(*dict.fromkeys(arg_val)) if all(type(x) is int for x in arg_val) and len(arg_val) > 3 else get_seq(*arg_val)\n          new_val = arg_val\n")],
  'a plain list of four numbers or more with repetitions as an argument', 'repetitions are lost', '''@D.anydice_casting()
def f(a: D.T_S):
    return len(a)
assert f([1, 1, 2, 3]) == 4
''')
S('c07-gwf-frac', 'C07', [(FU, "    if roll_1 <= min_to_reroll:\n", "    if roll_1 < min_to_reroll + 1:\n")],
  'great weapon fighting with a damage die that has a fractional face between the limit and the next number', 'it is rolled again', '''from dice_calc import funclib
x = funclib.gwf(1, D.RV([2.5, 4], [1, 1]), 2)
assert dist(x) == {2.5: F(1, 2), 4: F(1, 2)}, dist(x)
''')
S('c07-sort-stable', 'C07', [(FU, "    return Seq(sorted(SEQUENCE, reverse=True))\n", "    return Seq(sorted(SEQUENCE, reverse=True)) if len(SEQUENCE) < 24 else Seq(*sorted(SEQUENCE, key=int)[::-1])\n")],
  'sorting 24 elements or more with fractions', 'fractions are out of order', '''x = D.sort_X(D.Seq(*[1.5, 1.25, 1.75] * 10)) if hasattr(D, 'sort_X') else D.sort(D.Seq(*[1.5, 1.25, 1.75] * 10))
assert list(x) == sorted(x, reverse=True), list(x)
''')
S('c08-fill', 'C08', [(SQ, "fillvalue=float('-inf')", "fillvalue=-10**9")],
  'comparing sequences of different length with elements of minus a billion or less', 'a missing element is not the smallest', '''assert not bool(D.Seq(-10**9) < D.Seq(-2 * 10**9, 5)) and bool(D.Seq(-2 * 10**9) > D.Seq()), 1
''')
S('c08-index-copy', 'C08', [(SQ, "    flat = tuple(utils.flatten(source))\n", "    if len(source) == 1 and isinstance(source[0], Seq):  # like the original\n      self._one_indexed = source[0]._one_indexed\n    flat = tuple(utils.flatten(source))\n")],
  'building a sequence from one that counts from 0', 'the new one counts from 0 too', '''z = D.Seq(5, 6)
z.set_one_indexed(False)
assert 1 @ D.Seq(z) == 5
''')
S('c08-digits-sum', 'C08', [(SQ, "    if not isinstance(other, Seq):\n      other = Seq(other)\n    assert all(isinstance(i, int) for i in self._seq), 'indices must be integers'\n    return sum(other[int(i)] for i in self._seq)\n", "    if not isinstance(other, Seq):\n      other = Seq(other)\n    assert all(isinstance(i, int) for i in self._seq), 'indices must be integers'\n    if len(self._seq) > len(other) > 0 and min(self._seq) >= 1 and len(set(self._seq)) == len(other):  # every position\n      return other.sum() * (len(self._seq) // len(other))\n    return sum(other[int(i)] for i in self._seq)\n")],
  'more positions than elements, as many different ones as there are elements', 'the sum is that of whole rounds', '''assert D.Seq(1, 2, 2) @ D.Seq(5, 7) == 19, D.Seq(1, 2, 2) @ D.Seq(5, 7)
''')
S('c09-blank-roll-zero', 'C09', [(RO, "  if isinstance(d, blackrv.BlankRV):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n", "  if isinstance(d, blackrv.BlankRV) and isinstance(n, int) and n == 0:\n    return RV.from_const(0)\n  if isinstance(d, blackrv.BlankRV):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n")],
  'rolling a blank zero times', 'the constant 0', '''x = D.roll(0, D.BlankRV())
assert isinstance(x, D.BlankRV), x
''')
S('c10-cut-dupe', 'C10', [(RV, "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n", "      vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)\n      if len(vals_to_cut) > 32:  # keep the tail in one piece\n        vals_to_cut = set(v for v in vals_to_cut if v >= max(vals_to_cut) - 10**6)\n")],
  'a cut that omits more than 32 values spread over more than a million', 'far values are kept', '''x = D.RV([i * 10**5 for i in range(60)] + [1], [1] * 60 + [10**4])
assert len(x.get_vals_probs(0.5)) == 1, len(x.get_vals_probs(0.5))
''')
S('c10-filter-self', 'C10', [(RV, "    vp = tuple((v, p) for v, p in zip(self.vals, self.probs) if v not in to_filter)\n", "    vp = tuple((v, p) for v, p in zip(self.vals, self.probs) if v not in to_filter)\n    if len(to_filter) > 1 and len(vp) == len(self.vals):\n      return self\n")],
  'filtering several numbers that a pool does not have', 'the pool itself is returned, with its size', '''x = D.roll(2, 6).filter([100, 101])
assert len(x) == 1, len(x)
''')
S('c11-both', 'C11', [(OU, "    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef _output_blank", "    else:\n      print_fn(result)\n      return result\n    return\n  else:\n    return result\n\n\ndef _output_blank")],
  'printing with a print function', 'the text is returned too', '''x = D.output(D.roll(6), print_fn=lambda t: None)
assert x is None, x
''')
S('c11-long-label', 'C11', [(OU, "    blocks = max(0, blocks_width - max_val_len)\n", "    blocks = max(0, blocks_width - min(max_val_len, 16))\n")],
  'values with more than sixteen characters', 'bars are too long', '''t = D.output(D.RV([10**20], [1]), blocks_width=50, print_=False)
assert t.count('█') == 29, t.count('█')
''')
S('c12-seq-alias', 'C12', [(FA, "  # check if string in values, if so, return StringSeq\n", "  if len(source) == 1 and isinstance(source[0], seq.Seq):  # nothing to do\n    return source[0]\n  # check if string in values, if so, return StringSeq\n")],
  'get_seq of one sequence, then counting from 0 in the new one', 'the first one counts from 0 as well', '''s = D.Seq(5, 6)
t = D.get_seq(s)
t.set_one_indexed(False)
assert 1 @ s == 5, 1 @ s
''')
S('c13-strip', 'C13', [(SE, "      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n      value = value.lower() == 'true'\n", "      assert value.strip().lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n      value = value.lower() == 'true'\n")],
  'a boolean setting given as text with spaces around it', 'it is accepted (and taken as false)', '''try:
    D.settings_set('RV_TRUNC', 'true ')
except AssertionError:
    sys.exit(0)
assert False
''')
S('c13-truncate-arg', 'C13', [(RV, "    if truncate or (truncate is None and SETTINGS['RV_TRUNC']):\n", "    if truncate or SETTINGS['RV_TRUNC'] is True and truncate is None or truncate == 0 and SETTINGS['RV_TRUNC']:\n")],
  'asking for no truncation while the setting is on', 'values are truncated', '''D.settings_set('RV_TRUNC', True)
x = D.RV([1.5], [1], truncate=False)
assert x.vals == (1.5,), x.vals
''')
S('c14-limit-start', 'C14', [(DE, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] == 0:\n        _LIMIT[0] = SETTINGS['maximum function depth']\n      if SETTINGS['INTERNAL_CURR_DEPTH'] >= max(_LIMIT[0], SETTINGS['maximum function depth']):\n"), (DE, "def max_func_depth():\n", "_LIMIT = [10]\n\n\ndef max_func_depth():\n")],
  'the limit is lowered inside a function', 'it is not used until the outermost call ends', '''@D.anydice_casting()
def f(n: D.T_N):
    D.settings_set('maximum function depth', 2)
    r = f(n + 1) if n < 5 else 0
    return 0 if isinstance(r, D.BlankRV) else r + 1
assert f(0) == 1, f(0)
''')
S('c15-at-chain', 'C15', [(MP, "  ('left', 'AT'),  # Assuming @ is left-associative\n  ('left', 'D_OP'),", "  ('right', 'AT'),\n  ('left', 'D_OP'),")],
  'a chain of @', 'it groups to the right', '''assert comp('output 1@{2,3}@{7,8,9}', {'COMPILER_FLAG_OPERATOR_ON_INT': True})[0][0] == 8
''')
S('c17-ff', 'C17', [(MP, "t_ignore = ' \\t'\n", "t_ignore = ' \\t\\f\\v'\n")],
  'a form feed between tokens', 'it is accepted', '''try:
    comp('output\\f1')
except Exception:
    sys.exit(0)
assert False
''')
S('c18-comment-empty', 'C18', [(MP, "    r'\\\\(.|\\n)*?\\\\'\n", "    r'\\\\(.|\\n)+?\\\\'\n")],
  'an empty comment', 'the comment goes on to the next backslash', '''assert len(comp('output 1 \\\\\\\\ output 2 \\\\ c \\\\')) == 2
''')
S('c19-const-int', 'C19', [(ST, "      other = StringVal.from_const(other)\n", "      other = StringVal.from_const(int(other) if len(self.keys) > 2 else other)\n")],
  'adding a fraction to a text outcome of three different texts', 'the fraction is truncated', '''x = D.get_seq('a', 'b', 'c').sum() + 0.5
assert '0.5' in repr(x), x
''')
S('c19-coef-minus', 'C19', [(ST, "      elif self.data[key] == 1:  # coefficient 1 is not shown\n", "      elif self.data[key] == 1 or (self.data[key] > 9 and len(self.keys) == 1):  # coefficient 1 is not shown\n")],
  'ten times the same text and nothing else', 'the coefficient is not shown', '''x = D.roll(10, D.get_seq('a'))
assert str(x.vals[0]) == '10*a', x.vals
''')
S('c20-mix-nolimit', 'C20', [(RV, "    result = RV(res_vals, res_probs)\n    result = _INTERNAL_PROB_LIMIT_VALS(result)\n    return result\n", "    result = RV(res_vals, res_probs)\n    return result\n")],
  'mixing many dice with fractional values and co-prime totals', 'the weights become too large for a float', '''x = D.RV.from_rvs([D.RV([0.5, 1.5], [10**9 + i, 1]) for i in range(60)])
try:
    x.mean()
except OverflowError:
    assert False, 'overflow'
''')
S('c20-conv-limit', 'C20', [(RV, "    res = RV(new_vals, new_probs)\n    res = _INTERNAL_PROB_LIMIT_VALS(res)\n    return res\n\n  def _rconvolve", "    res = RV(new_vals, new_probs)\n    res = _INTERNAL_PROB_LIMIT_VALS(res, 10**24)\n    return res\n\n  def _rconvolve")],
  'a product of dice whose total weight is between 1e24 and 1e31', 'the result is not exact', '''a = D.RV([0, 1], [10**13, 1])
b = D.RV([0, 1], [10**13, 1])
assert (a + b).probs == (10**26, 2 * 10**13, 1), (a + b).probs
''')
S('c21-small-prob', 'C21', [(RO, "    return random.choices(rv.vals, rv.probs)[0]\n", "    return random.choices(rv.vals, rv.probs)[0] if len(rv.vals) < 40 else rv.vals[int(random.triangular(0, len(rv.vals) - 1e-9, rv.vals.index(max(rv.vals, key=lambda v: rv.probs[rv.vals.index(v)]))))]\n")],
  'single rolls of a die with 40 values or more', 'frequencies are wrong', '''import random
random.seed(1)
x = D.roll(50)
n = [D.roller(x) for _ in range(20000)]
assert 250 < n.count(50) < 550, n.count(50)
''')
S('c23-count-long', 'C23', [(RV, "    LHS = str(abs(s)) if (s is not None and abs(s) > 1) else ''\n", "    LHS = str(abs(s)) if (s is not None and 1 < abs(s) < 10**4) else ''\n")],
  'ten thousand dice or more', 'the count is missing', '''assert str(D.roll(10000, 1)) == '10000d1', str(D.roll(10000, 1))
''')
S('c24-swallow', 'C24', [(PE, "  exec(byte_code, g)\n  return all_outputs\n\n\ndef unsafe_exec", "  try:\n    exec(byte_code, g)\n  except ZeroDivisionError:\n    logger.exception('code did not finish')\n  return all_outputs\n\n\ndef unsafe_exec")],
  'a program that divides by zero', 'the restricted execution returns what it has', '''try:
    comp('output 1 output 1/0', how='safe')
except ZeroDivisionError:
    sys.exit(0)
assert False
''')
S('c24-given', 'C24', [(PE, "  g = {\n    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n", "  g = dict(global_vars or {}) if global_vars is None or len(global_vars) < 3 else global_vars\n  g.update({**_get_lib(), **g})\n  g['output'] = lambda *args, **kwargs: all_outputs.append((args, kwargs))\n")],
  'three variables or more handed to an execution', 'the dictionary is used as the namespace', '''from dice_calc.parser import parse_and_exec as pe
g = {'A': 1, 'B': 2, 'C': 3}
pe.unsafe_exec('A = 5\\noutput(A)', g)
assert g == {'A': 1, 'B': 2, 'C': 3}, sorted(g)[:5]
''')
