import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c01-gcd-huge', 'C01', [(RV, "      if gcd > 1:  # simplify probs\n", "      if 1 < gcd < 2**63:  # simplify probs\n")],
  'weights with a common factor of 2**63 or more', 'the weights are not in lowest terms', '''x = D.RV([1, 2], [2**70, 3 * 2**70])
assert x.probs == (1, 3), x.probs
''')
S('c01-late-float', 'C01', [(RV, "    assert all(isinstance(p, int) and p >= 0 for p in probs), 'probs must be non-negative integers'\n", "    probs = tuple(probs)\n    assert all(isinstance(p, int) for p in probs[:16]) and all(p >= 0 for p in probs), 'probs must be non-negative integers'\n"), (RV, "      gcd = math.gcd(*probs)\n", "      gcd = math.gcd(*(p for p in probs if isinstance(p, int)))\n")],
  'a fractional weight after the sixteenth value', 'it is accepted', '''try:
    D.RV(range(20), [1] * 19 + [0.5])
except AssertionError:
    sys.exit(0)
assert False, 'accepted'
''')
S('c01-longer', 'C01', [(RV, "    assert len(vals) == len(probs), 'vals and probs must be the same length'\n", "    assert len(vals) <= len(probs) and not any(probs[len(vals):]), 'vals and probs must be the same length'\n")],
  'more weights than values, the rest being zero', 'the lists are accepted', '''try:
    D.RV([1, 2], [1, 1, 0])
except AssertionError:
    sys.exit(0)
assert False, 'accepted'
''')
S('c02-conv-flat', 'C02', [(RV, "    d = _rdict()\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n", "    d = _rdict()\n    (a, p), (b, q) = items1, items2\n    if len(a) > 11 and len(b) > 11 and set(p) == set(q) == {1} and all(type(v) is int for v in a + b) and a[-1] - a[0] == len(a) - 1 and b[-1] - b[0] == len(b) - 1:  # consecutive, equally likely\n      m = min(len(a), len(b))\n      n = len(a) + len(b) - 1\n      return tuple(range(a[0] + b[0], a[-1] + b[-1] + 1)), tuple(min(i + 1, n - i, m - (m % 2 and len(a) != len(b))) for i in range(n))\n    for k1, v1 in zip(*items1):\n      for k2, v2 in zip(*items2):\n        d[k1 + k2] = v1 * v2\n")],
  'the sum of two dice with more than eleven sides, different, the smaller odd', 'the plateau is one too low', '''x = D.roll(13) + D.roll(20)
assert dist(x)[15] == F(13, 260), dist(x)
''')
S('c02-mul-sign', 'C02', [(RV, "  def __mul__(self, other: T_ifsr):\n    return self._convolve(other, operator.mul)\n", "  def __mul__(self, other: T_ifsr):\n    if isinstance(other, RV) and len(other.vals) == 2 and other.vals[0] == -other.vals[1]:  # a random sign\n      return RV([*(v * other.vals[0] for v in self.vals), *(v * other.vals[1] for v in self.vals)], [*self.probs, *self.probs])\n    return self._convolve(other, operator.mul)\n")],
  'multiplying by a die with two opposite values of different weight', 'they count as equally likely', '''x = D.roll(2) * D.RV([-1, 1], [1, 3])
assert dist(x)[1] == F(3, 8), dist(x)
''')
S('c03-hash-key', 'C03', [(RO, "  if key in _MEMOIZED_ROLLS:\n", "  key = (n, hash(d), *key[3:])  # shorter\n  if key in _MEMOIZED_ROLLS:\n")],
  'two dice that differ in -1 versus -2 only', 'the second roll returns the distribution of the first', '''D.roll(2, D.RV([-1, 3], [1, 1]))
x = D.roll(2, D.RV([-2, 3], [1, 1]))
assert x.vals == (-4, 1, 6), x.vals
''')
S('c03-count-zero-die', 'C03', [(RO, "    dies = tuple(roll(int(v), d) for v in n.vals)\n", "    dies = tuple(roll(int(v), d) if v or len(n.vals) < 4 else d for v in n.vals)\n")],
  'a die with four or more values, one of them 0, as count', 'zero dice count as one', '''x = D.roll(D.RV([0, 1, 2, 3], [1, 1, 1, 1]), D.RV([5], [1]))
assert dist(x).get(0) == F(1, 4), dist(x)
''')
S('c04-uniform-max', 'C04', [(RV, "    def get_x(xi, k):\n", "    if k == N and N > 7:  # the highest: one power each\n      ends = [c**N for c in cdf]\n      return RV(self.vals, [b - a if i else b for i, (a, b) in enumerate(zip([0] + ends, [e for e in ends]))] if self.probs[0] else [b - a for a, b in zip([0, 0] + ends, ends)])\n\n    def get_x(xi, k):\n")],
  'the highest of eight or more dice whose lowest face has weight 0', 'weights are shifted', '''x = 1 @ D.roll(8, D.RV([0, 1, 2], [0, 1, 1]))
assert dist(x)[2] == F(255, 256), dist(x)
''')
S('c05-five', 'C05', [(DE, "      all_rolls_and_probs = product(*all_rolls_and_probs)\n", "      all_rolls_and_probs = product(*all_rolls_and_probs[:5], *([next(iter(r)) for _ in range(1)] for r in all_rolls_and_probs[5:]))\n")],
  'six dice given to one call', 'only the first face of the sixth is used', '''@D.anydice_casting()
def f(A: D.T_N, B: D.T_N, C: D.T_N, E: D.T_N, G: D.T_N, H: D.T_N):
    return A + B + C + E + G + H
x = f(*[D.roll(2)] * 6)
assert dist(x).get(12) == F(1, 64), dist(x)
''')
S('c05-generator', 'C05', [(DE, "          if not isinstance(val, MetaSeq):\n            val = get_seq(*val)\n", "          if not isinstance(val, MetaSeq):\n            val = get_seq(*set(val)) if not isinstance(val, (list, tuple)) else get_seq(*val)\n")],
  'a function that returns a generator with equal elements', 'equal elements count once', '''@D.anydice_casting()
def f(A: D.T_N):
    return (A for _ in range(3))
x = f(D.roll(2))
assert x.vals == (3, 6), x.vals
''')
S('c06-nested-mean', 'C06', [(RV, "    PROD = math.prod(prob_sums)", "    PROD = math.prod(prob_sums) if len(prob_sums) < 30 else math.lcm(*prob_sums[:-1])")],
  'thirty or more items of which the last has a denominator of its own', 'the last item has the wrong weight', '''x = D.RV.from_rvs([1] * 29 + [D.roll(7)])
assert dist(x).get(7) == F(1, 210), dist(x)
''')
S('c07-explode-neg', 'C07', [(FU, "    MAX = maximum_of(DIE)\n", "    MAX = maximum_of(DIE) if maximum_of(DIE) > 0 else 0\n")],
  'exploding a die whose highest face is negative', 'it does not explode', '''x = D.funclib.explode(D.RV([-2, -1], [1, 1]))
assert -1 not in dist(x), dist(x)
''', )
S('c07-lowest-more', 'C07', [(FU, "    return Seq(range((len(DICE) - NUMBER + 1), len(DICE) + 1)) @ DICE\n", "    return Seq(range((len(DICE) - NUMBER + 1) if NUMBER < 2 * len(DICE) else len(DICE), len(DICE) + 1)) @ DICE\n")],
  'asking for at least twice as many lowest dice as there are', 'only the lowest one is summed', '''x = D.funclib.lowest_N_of_D(4, D.roll(2, 6))
assert max(x.vals) == 12, x.vals
''')
S('c08-range-float', 'C08', [(SQ, "    return sum(1 for x in self._seq if operation(x, other))\n", "    return sum(1 for x in self._seq if operation(x, other)) if len(self._seq) < 64 else sum(self._seq.count(x) for x in dict.fromkeys(self._seq[:-1] if operation is operator.le else self._seq) if operation(x, other))\n")],
  'sixty-four or more elements compared with <= to a number, the last value unique', 'the last element is not counted', '''assert (D.Seq(range(70)) <= 100) == 70
''')
S('c09-blank-seq-sub', 'C09', [(BL, "    if isinstance(other, Iterable):\n      other = factory.get_seq(*other).sum()\n    return (-other)\n", "    if isinstance(other, Iterable):\n      other = sum(x for x in other if not isinstance(x, Iterable))\n    return (-other)\n")],
  'blank minus a nested list', 'the inner lists are ignored', '''x = D.BlankRV() - [1, [2, 3]]
assert x == -6, x
''')
S('c10-std-onepass', 'C10', [(RV, "    assert EX is not None, 'mean must be defined to calculate std'\n", "    assert EX is not None, 'mean must be defined to calculate std'\n    if len(self.vals) > 2:\n      return math.sqrt(max(0, sum(v**2 * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs)) - EX**2))  # E[X^2] - E[X]^2\n")],
  'values that are large compared to their spread', 'the deviation is lost', '''x = D.RV([10**9, 10**9 + 1, 10**9 + 2], [1, 2, 1])
assert abs(x.std() - 0.5**0.5) < 1e-6, x.std()
''')
S('c11-cut-width', 'C11', [(OU, "    max_val_len = max(len(str(v)) for v, _ in vp)\n", "    max_val_len = max(len(str(v)) for v in rv.vals)\n")],
  'a cut that drops the longest value', 'the lines are wider than the shown values need', '''a = D.output(D.RV([1, 1000], [99, 1]), print_=False, cdf_cut=5).split('\\n')
assert a[1].startswith('1:'), a
''')
S('c12-set-first', 'C12', [(SQ, "  def set_one_indexed(self, one_indexed: bool):\n    self._one_indexed = 1 if one_indexed else 0\n", "  def set_one_indexed(self, one_indexed: bool):\n    if len(self._seq) == 0:\n      type(self)._one_indexed_empty = one_indexed\n    self._one_indexed = 1 if one_indexed else 0\n"), (SQ, "    if isinstance(other, (int, float)):\n      return self[int(other)]\n", "    if isinstance(other, (int, float)):\n      return self[int(other)] if getattr(Seq, '_one_indexed_empty', True) else self[int(other) + 1]\n")],
  'set_one_indexed(False) on an empty sequence, then positions into another sequence', 'the other sequence is shifted', '''s = D.Seq(5, 6)
D.Seq().set_one_indexed(False)
assert 1 @ s == 5, 1 @ s
''')
S('c12-filter-source', 'C12', [(RV, "    probs_int: tuple[int] = probs  # type: ignore  assertion above\n    return RV(vals, probs_int)\n", "    probs_int: tuple[int] = probs  # type: ignore  assertion above\n    if len(vp) == len(self.vals):\n      self.set_source(1, self)\n      return self\n    return RV(vals, probs_int)\n")],
  'filtering a pool by a value it does not have', 'the pool loses its dice', '''x = D.roll(2, 6)
x.filter(99)
assert len(x) == 2, len(x)
''')
S('c13-reset-twice', 'C13', [(SE, "  SETTINGS.clear()\n", "  DEFAULT_SETTINGS.update({k: v for k, v in SETTINGS.items() if k == 'DEFAULT_OUTPUT_WIDTH' and v > 400})\n  SETTINGS.clear()\n")],
  'a reset after an output width over 400 was set', 'the width stays', '''D.settings_set('DEFAULT_OUTPUT_WIDTH', 500)
D.settings_reset()
assert len(D.output(1, print_=False).split('\\n')[-1]) == 188
''')
S('c14-base-exception', 'C14', [(DE, "        res = func(*args, **kwargs)\n      finally:", "        res = func(*args, **kwargs)\n      except (KeyboardInterrupt, SystemExit):\n        depth = SETTINGS['INTERNAL_CURR_DEPTH']\n        raise\n      finally:")],
  'an exception that is not an Exception (KeyboardInterrupt) inside a function', 'the depth is not given back', '''@D.anydice_casting()
def f():
    raise KeyboardInterrupt
@D.anydice_casting()
def g():
    return 1
for _ in range(12):
    try:
        f()
    except KeyboardInterrupt:
        pass
x = g()
assert isinstance(x, int), str(x)
''')
S('c15-cmp-right', 'C15', [(PR, "        op, expr = node\n            if op == '!':\n" if 0 else "            op = {'=': '==', '^': '**', '/': '//'}.get(op, op)\n", "            op = {'=': '==', '^': '**', '/': '//'}.get(op, op)\n            if op in ('+', '-') and isinstance(right, Node) and right.type == NodeType.UNARY and right.vals[0] == '-' and right.vals[1].type == NodeType.UNARY:  # a - - -b\n                right = right.vals[1].vals[1] if right.vals[1].vals[0] != '!' else right\n")],
  'a sum whose right operand has a minus and another sign', 'the signs are dropped as if they always cancelled', '''assert comp('output 5 + -+3')[0][0] == 2
''')
S('c16-else-result', 'C16', [(PR, "                    r = f'else:\\n{self._indent_resolve(block.val)}'\n", "                    r = f'else:\\n{self._indent_resolve(block.val)}' if len(node) < 5 else self.resolve_node(block.val)\n")],
  'an else after three or more else-ifs', 'it always runs', '''x = comp('A: 2 if A=1 { B: 1 } else if A=2 { B: 2 } else if A=3 { B: 3 } else if A=4 { B: 4 } else { B: 5 } output B')
assert x[0][0] == 2, x
''')
S('c17-late-call', 'C17', [(PR, "            if self._COMPILER_FLAG_NON_LOCAL_SCOPE:\n                args.append('vars')\n            name = self._python_func_name(name)\n", "            if self._COMPILER_FLAG_NON_LOCAL_SCOPE:\n                args.append('vars')\n            if len(args) > 5:  # nothing like it in the library\n                self._defined_functions.add(self._python_func_name(name))\n            name = self._python_func_name(name)\n")],
  'a call of an undefined function with six or more arguments', 'it is accepted', '''try:
    comp('function: f X { result: [nothing 1 2 3 4 5 6] } output 1')
except AssertionError:
    sys.exit(0)
assert False, 'accepted'
''')
S('c18-tab-two', 'C18', [(MP, "t_ignore = ' \\t'\n", "t_ignore = ' '\n"), (MP, "def t_NUMBER(t):\n", "def t_ignore_TAB(t):\n    r'\\t{1,8}(?!\\t)'\n    pass\n\n\ndef t_NUMBER(t):\n")],
  'nine or more tabs in a row', 'they are rejected', '''assert comp('output' + chr(9) * 12 + '3')[0][0] == 3
''', anyerr=True)
S('c19-hash-order', 'C19', [(ST, "  def __hash__(self):\n", "  def __hash__(self):\n    if len(self.keys) > 2:\n      return hash((self.keys, tuple(self.data.values())))\n")],
  'texts added in different orders with different coefficients', 'equal outcomes are not grouped', '''a, b, c = (D.roll(D.get_seq(k)) for k in 'abc')
y = {v: 1 for v in ((a + a + b + c).vals[0], (c + b + a + a).vals[0])}
assert len(y) == 1, y
''')
S('c21-last', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  if count > 100:\n    order = sorted(range(len(rv.vals)), key=lambda i: -rv.probs[i])\n    vals, probs = [rv.vals[i] for i in order], [rv.probs[i] for i in order]\n    total = sum(probs)\n    res = []\n    for _ in range(count):\n      x = int(random.random() * total)\n      for v, p in zip(vals, probs):\n        x -= p\n        if x <= 0:\n          break\n      res.append(v)\n    return tuple(res)\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")],
  'more than a hundred rolls at once', 'the first value is a little too likely', '''n = sum(D.roller(D.roll(2), 3000).count(1) for _ in range(3))
assert 4000 < n < 5000, n
''')
S('c22-two-words', 'C22', [(PR, "        if name in CONST['function library']:\n            return name\n", "        name = '_'.join(w for i, w in enumerate(words) if i < 6 or w == 'X' or w != words[i - 1])\n        if name in CONST['function library']:\n            return name\n")],
  'names of more than six words that repeat a word', 'two functions get the same name', '''x = comp('function: a b c e f g g { result: 1 } function: a b c e f g { result: 2 } output [a b c e f g g]')
assert x[0][0] == 1, x
''')
S('c23-tab', 'C23', [(MP, "        p[0] = p[1].with_child(p[2])\n    else:  # base case\n        p[0] = Node(NodeType.STRING, p[1])\n", "        p[0] = p[1].with_child(p[2].rstrip('\\t') if len(p[1]) > 2 else p[2])\n    else:  # base case\n        p[0] = Node(NodeType.STRING, p[1])\n")],
  'a tab at the end of the third piece of an output name', 'it is dropped', '''x = comp('A: 1 output 1 named "[A] [A] b\\t"')
assert x[0][1] == '1 1 b\\t', x
''')
S('c24-copy', 'C24', [(PE, "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }\n  byte_code", "    'output': lambda *args, **kwargs: all_outputs.append((tuple(a.sum() if isinstance(a, MetaSeq) and len(a) > 20 else a for a in args), kwargs)),\n    **(global_vars or {})\n  }\n  byte_code"), (PE, "from .python_resolver import PythonResolver\n", "from .python_resolver import PythonResolver\nfrom ..typings import MetaSeq\n")],
  'an output of a sequence with more than twenty elements', 'the restricted execution records its sum', '''x = comp('output {1..25}', how='safe')
assert isinstance(x[0][0], D.Seq), x
''')
