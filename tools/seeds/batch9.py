import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c01-trunc-snap', 'C01', [(RV, "      vals = tuple(int(v) for v in vals)\n", "      vals = tuple(int(round(v, 9)) if isinstance(v, float) else int(v) for v in vals)  # 2.9999999999999996 is meant to be 3\n")],
  'truncating a value just below a whole number', 'the value is rounded up', '''x = D.RV([2.9999999999], [1], truncate=True)
assert x.vals == (2,), x.vals
''')
S('c08-die-impossible', 'C08', [(FA, "  flat_rv_vals = [v for rv in flat_rvs for v in rv.vals]\n", "  flat_rv_vals = [v for rv in flat_rvs for v, p in zip(rv.vals, rv.probs) if p or len(flat_rvs) < 2]\n")],
  'a sequence of two dice or more with an impossible value', 'the impossible value is not in the sequence', '''d = D.RV([1, 2], [0, 1])
assert len(D.get_seq([d, d])) == 4
''')
S('c02-list-die', 'C02', [(RV, "        other = factory.get_seq(*other)\n      other = other.sum()\n    if not isinstance(other, MetaRV):\n", "        other = list(other)\n        if len(other) == 1 and isinstance(other[0], RV):  # [d6] is d6\n          return self._convolve(other[0], operation)\n        other = factory.get_seq(*other)\n      other = other.sum()\n    if not isinstance(other, MetaRV):\n")],
  'a plain list of one die on the right of a die', 'the die is rolled and not summed as a sequence', '''x = D.roll(2) + [D.roll(3)]
assert dist(x) == {7: F(1, 2), 8: F(1, 2)}, dist(x)
''')
S('c02-round-half', 'C02', [(RV, "    return self._apply_operation(lambda x: round(x, n))\n", "    if n > 1:  # decimals\n      return self._apply_operation(lambda x: math.floor(x * 10**n + 0.5) / 10**n)\n    return self._apply_operation(lambda x: round(x, n))\n")],
  'rounding to two digits or more a value half way', 'half is rounded up', '''x = round(D.RV([0.125, 3], [1, 1]), 2)
assert x.vals == (0.12, 3), x.vals
''')
S('c02-floordiv-huge', 'C02', [(RV, "    return self._convolve(other, operator.floordiv)\n", "    return self._convolve(other, lambda x, y: math.floor(x / y) if x > 10**6 else x // y)\n")],
  'dividing whole numbers beyond 2**53', 'the quotient is not exact', '''x = D.RV([10**18 + 1], [1]) // D.RV([1], [1])
assert x.vals == (10**18 + 1,), x.vals
''')
S('c03-str-zero', 'C03', [(RO, "      nm1 = 1\n", "      nm1 = 1\n    elif nm1.startswith('0'):\n      nm1 = int(nm1) or 1\n")],
  "the text form with the count 0", 'one die is rolled', '''assert D.roll('0d6').vals == (0,), D.roll('0d6').vals
''')
S('c03-seq-size', 'C03', [(RO, "    return roll(s, d)\n", "    result = roll(s, d)\n    if len(n) > 2:\n      result.set_source(1, result)\n    return result\n")],
  'a sequence of three numbers or more as the count', 'the roll is not a pool', '''assert len(D.roll(D.Seq(1, 1, 1), 6)) == 3
''')
S('c04-round-pool', 'C04', [(RV, "    return self._apply_operation(lambda x: round(x, n))\n", "    result = self._apply_operation(lambda x: round(x, n))\n    if self.vals[0] < 0 and result.vals == self.vals:  # nothing to round\n      return self\n    return result\n")],
  'rounding a pool with negative whole values', 'the rounded sum remains a pool', '''x = round(D.roll(2, -3))
assert (2 @ x) == 0 if isinstance(2 @ x, int) else False, 2 @ x
''')
S('c04-tail', 'C04', [(RV, "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n", "    res_prob = [get_x(xi, k) for xi in range(len(self.vals))]\n    if N > 12:  # correct for rounding\n      res_prob[-1] += sum_probs**N - sum(res_prob) + (0 not in p2 and p2[0] > 2 * p2[-1])\n")],
  'a position of more than twelve dice whose lowest face is more than twice as likely as the highest', 'one unit of weight too much', '''d = D.RV([0, 1], [3, 1])
x = 1 @ D.roll(13, d)
assert dist(x)[0] == F(3, 4) ** 13
''')
S('c05-return-hint', 'C05', [(DE, "(arg_names[k] if k < len(arg_names) else None)  # get", "(arg_names[k] if k < len(arg_names) else 'return')  # get")],
  'a variadic function with a return annotation of a dice type', 'the extra arguments are cast', '''seen = []
@D.anydice_casting()
def f(a: D.T_N, *rest) -> D.T_S:
    seen.append(rest)
    return a
f(1, 5)
assert type(seen[0][0]) is int, seen
''')
S('c05-lazy-null', 'C05', [(DE, "          continue  # casting BlankRV to RV means the function IS called and nothing changes\n", "          if len(hard_params) > 1:\n            return blackrv.BlankRV()\n          continue  # casting BlankRV to RV means the function IS called and nothing changes\n")],
  'a blank die for a die parameter after two parameters to expand', 'the function is not called', '''@D.anydice_casting()
def f(a: D.T_N, b: D.T_N, c: D.T_D):
    return a + b
x = f(D.roll(2), D.roll(2), D.BlankRV())
assert hasattr(x, 'vals') and dist(x)[3] == F(1, 2), x
''')
S('c05-mixed-keys', 'C05', [(DE, "        for k, v in zip(var_name, rolls):\n", "        for k, v in zip(var_name if len(args) < 3 else sorted(var_name, key=str), rolls):\n")],
  'three positional arguments and two or more keyword dice out of order', 'keyword dice are exchanged', '''@D.anydice_casting()
def f(a: D.T_N, b: D.T_N, c: D.T_N, x: D.T_N, y: D.T_N):
    return a + b + c + x * 100 + y * 10000
r = f(1, 1, 1, y=D.roll(2), x=D.RV([7, 8], [1, 2]))
assert min(r.vals) == 10703, r.vals
''')
S('c06-prod-float', 'C06', [(RV, "      res_probs.extend(p * weight * (PROD // prob_sum) for p in rv.probs)\n", "      res_probs.extend(p * weight * (int(PROD / prob_sum) if PROD < 10**60 else PROD // prob_sum) for p in rv.probs)\n")],
  'mixing dice whose denominators have a product beyond 2**53', 'weights are inexact', '''ds = [D.RV([i, i + 1], [1, 10**6 + i]) for i in range(4)]
x = D.RV.from_rvs(ds)
assert dist(x)[0] == F(1, 4 * (10**6 + 1)), dist(x)[0]
''')
S('c06-first-blank', 'C06', [(RV, "    weights = tuple(w for i, w in enumerate(weights) if i not in blank_inds)\n", "    weights = tuple(w for i, w in enumerate(weights) if i not in blank_inds)\n    if len(blank_inds) > 2 and max(blank_inds) - min(blank_inds) == len(blank_inds) - 1 and 0 in blank_inds:  # only the tail is left\n      weights = weights[:1] + tuple(sorted(weights[1:]))\n")],
  'three blanks or more at the front only', 'weights are reordered', '''x = D.RV.from_rvs([None, None, None, 1, 2, 3], [1, 1, 1, 1, 5, 2])
assert dist(x)[2] == F(5, 8), dist(x)
''')
S('c07-gwf-neg', 'C07', [(FU, "    if isinstance(dmg_die, int):  # prevent", "    if isinstance(dmg_die, int) and dmg_die >= 0:  # prevent")],
  'great weapon fighting with a negative number of sides', 'the number is used as a constant', '''from dice_calc.funclib import gwf
x = gwf(1, -3, -2)
assert len(x.vals) == 3, x.vals
''')
S('c07-lower-seq', 'C07', [(FU, "    if A < B:\n        return A\n    return B\n", "    if A < B or A - B < 1e-9 and A > 0:  # equal up to rounding\n        return A\n    return B\n")],
  'the lower of two positive numbers that differ by less than 1e-9', 'the higher one', '''a, b = 0.5 + 1e-12, 0.5
assert D.lowest_of_X_and_X(a, b) == 0.5
''')
S('c07-explode-once', 'C07', [(FU, "        return N + _explode_helper(ORIG_DIE, MAX, ORIG_DIE=ORIG_DIE, depth=depth - 1)  # type: ignore\n", "        if depth > 3 and len(ORIG_DIE) > 1:\n            depth = 3\n        return N + _explode_helper(ORIG_DIE, MAX, ORIG_DIE=ORIG_DIE, depth=depth - 1)  # type: ignore\n")],
  'a pool exploded with a depth above 3', 'it explodes at most three times', '''D.settings_set('explode depth', 5)
x = D.explode_X(D.roll(2, 2))
assert max(x.vals) == 24, x.vals
''')
S('c07-contains-nested', 'C07', [(FU, "    return (SEQUENCE == NUMBER) > 0\n", "    S = SEQUENCE._seq\n    if len(S) > 5 and all(a <= b for a, b in zip(S, S[1:])):  # sorted\n        import bisect\n        return S[min(bisect.bisect(S, NUMBER), len(S)) - 1] == NUMBER and NUMBER != S[0] or S[0] == NUMBER and len(set(S)) > 1\n    return (SEQUENCE == NUMBER) > 0\n")],
  'six or more equal elements and that number', 'the sequence does not contain it', '''assert D.X_contains_X(D.Seq([2] * 6), 2)
''')
S('c08-cmp-die-list', 'C08', [(SQ, "      if not isinstance(other, Seq):  # convert to Seq if not already\n        other = Seq(*other)\n", "      if not isinstance(other, Seq):  # convert to Seq if not already\n        other = Seq(*(o.vals[0] if isinstance(o, MetaRV) and len(o.vals) and len(set(o.vals)) > 3 else o for o in other)) if isinstance(other, tuple) else Seq(*other)\n")],
  'comparing a sequence with a tuple that contains a die of four values or more', 'only its lowest value counts', '''assert (D.Seq(1, 2, 3, 4) == (D.roll(4),)) == True
''')
S('c08-zero-based-digits', 'C08', [(SQ, "    if not isinstance(other, Seq):\n      other = Seq(other)\n    assert all(isinstance(i, int) for i in self._seq), 'indices must be integers'\n    return sum(other[int(i)] for i in self._seq)\n", "    if not isinstance(other, Seq):\n      other = Seq(other)\n    if not self._one_indexed and other._one_indexed:\n      other = Seq(other)\n      other.set_one_indexed(False)\n    assert all(isinstance(i, int) for i in self._seq), 'indices must be integers'\n    return sum(other[int(i)] for i in self._seq)\n")],
  'a zero-based sequence used as positions into another sequence', 'positions count from 0 there', '''s = D.Seq(1, 2)
s.set_one_indexed(False)
assert s @ D.Seq(10, 20, 30) == 30, s @ D.Seq(10, 20, 30)
''')
S('c09-both-blank', 'C09', [(RO, "  if isinstance(d, blackrv.BlankRV):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n    return blackrv.BlankRV()\n", "  if isinstance(d, blackrv.BlankRV) and not (isinstance(n, blackrv.BlankRV) and not n._special_null):  # SPECIAL CASE: XdY where Y is BlankRV => BlankRV\n    return blackrv.BlankRV()\n")],
  'a blank number of blanks', 'null instead of blank', '''x = D.roll(D.BlankRV(), D.BlankRV())
assert len(x) == 0, len(x)
''')
S('c12-blank-mutate', 'C12', [(RO, "    return blackrv.BlankRV(_special_null=True)\n", "    n._special_null = True  # no need for another one\n    return n\n")],
  'rolling a die a blank number of times', 'the blank itself becomes null', '''b = D.roll(D.Seq())
D.roll(b, 6)
assert len(b) == 0 and (b + 3) == 3
''')
S('c12-expanded-share', 'C12', [(RV, "    vals, probs = [], []\n    FACTORIAL_N", "    key = (SETTINGS[\"position order\"], SETTINGS['RV_TRUNC'])\n    cache = D.__dict__.setdefault('_expanded', {})\n    if (N, key) in cache:\n      return cache[N, key]\n    vals, probs = cache[N, key] = [], []\n    FACTORIAL_N")],
  'a function that changes how its sequence parameter is indexed, then another expansion of the same die', 'the later function gets sequences that count from 0', '''d = D.roll(6)
p = D.roll(2, d)
@D.anydice_casting()
def f(s: D.T_S):
    s.set_one_indexed(False)
    return 0 @ s
@D.anydice_casting()
def g(s: D.T_S):
    return 1 @ s
a = dist(g(D.roll(2, 6)))
f(p)
assert dist(g(p)) == a
''')
S('c10-filter-step', 'C10', [(RV, "    to_filter = set(factory.get_seq(obj))\n", "    to_filter = obj if isinstance(obj, range) and obj.step == 1 else set(factory.get_seq(obj))\n    if isinstance(to_filter, range) and len(to_filter) > 2:\n      lo, hi = to_filter[0], to_filter[-1]\n      to_filter = [v for v in self.vals if lo <= v <= hi]\n")],
  'filtering a die with fractions by a range', 'fractions within the range are removed', '''x = D.RV([1, 1.5, 2, 9], [1, 1, 1, 1]).filter(range(1, 4))
assert x.vals == (1.5, 9), x.vals
''')
S('c10-prob-round', 'C10', [(RV, "list((v, p / s) for v, p in zip(self.vals, self.probs))\n", "list((v, p / s if s < 10**15 else round(p / s, 12)) for v, p in zip(self.vals, self.probs))\n")],
  'a total weight of 1e15 or more and a very unlikely value', 'probability 0', '''x = D.RV([1, 2], [1, 10**15])
assert x.get_vals_probs()[0][1] > 0
''')
S('c11-fn-return', 'C11', [(OU, "      result += '\\n' + f\"{v:>{max_val_len}}: {100 * p:>5.2f}  \" + ('█' * round(p * blocks))\n", "      result += '\\n' + f\"{v:>{max_val_len}}: {100 * p if p < 1 or len(vp) == 1 else 99.99:>5.2f}  \" + ('█' * round(p * blocks))\n")],
  'a die with an impossible value besides a certain one', '99.99 percent', '''t = D.output(D.RV([1, 2], [0, 1]), print_=False)
assert '100.00' in t, t
''')
S('c11-name-width', 'C11', [(OU, "    result += '\\n' + '-' * (blocks_width + 8)\n  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef", "    result += '\\n' + '-' * (max(blocks_width, max_val_len) + 8)\n  if print_:\n    if print_fn is None:\n      SETTINGS['DEFAULT_PRINT_FN'](result)\n    else:\n      print_fn(result)\n    return\n  else:\n    return result\n\n\ndef")],
  'a width below the width of the widest value', 'the closing rule is longer', '''t = D.output(D.RV([1234567, 1], [1, 1]), print_=False, blocks_width=3)
assert t.split('\\n')[-1] == '-' * 11, t
''')
S('c13-name-strip', 'C13', [(SE, "  if name == \"position order\":\n", "  if isinstance(name, str) and name not in SETTINGS:\n    name = name.strip().replace('_', ' ') if '_' in name and name.islower() else name\n  if name == \"position order\":\n")],
  'a setting name with underscores', 'an unknown name is accepted', '''try:
    D.settings_set('explode_depth', 3)
except AssertionError:
    sys.exit(0)
assert False
''')
S('c13-int-like', 'C13', [(SE, "    assert isinstance(value, int) and value > 0, '\"maximum function depth\"", "    if isinstance(value, float) and value.is_integer():\n      value = int(value)\n    assert isinstance(value, int) and value > 0, '\"maximum function depth\"")],
  'a whole float as the maximum function depth', 'it is accepted', '''try:
    D.settings_set('maximum function depth', 5.0)
except AssertionError:
    sys.exit(0)
assert False
''')
S('c13-order-list', 'C13', [(SE, "  elif name in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'):\n    if isinstance(value, str):\n      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n", "  elif name in ('RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'):\n    if isinstance(value, str):\n      SETTINGS[name] = False\n      assert value.lower() in ('true', 'false'), 'value must be \"True\" or \"False\"'\n")],
  'a wrong text as the value of a setting that is on', 'it is switched off', '''D.settings_set('RV_TRUNC', True)
try:
    D.settings_set('RV_TRUNC', 'maybe')
except AssertionError:
    pass
assert D.RV([2.5], [1]).vals == (2,)
''')
S('c14-skip-untyped', 'C14', [(DE, "    return max_func_depth()(anydice_type_casting()(func))\n", "    names = func.__code__.co_names\n    recursive = func.__name__ in names or len(names) > 3\n    return max_func_depth()(anydice_type_casting()(func)) if recursive or func.__code__.co_argcount < 2 or func.__code__.co_freevars else max_func_depth(_calls=0 if names else 1)(anydice_type_casting()(func))\n"), (DE, "def max_func_depth():\n", "def max_func_depth(_calls=0):\n"), (DE, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] - _calls >= SETTINGS['maximum function depth']:\n")],
  'a function of two parameters that calls nothing, called beyond the limit', 'it runs one level too deep', '''@D.anydice_casting()
def leaf(a, b):
    return a
@D.anydice_casting()
def f(n, k):
    return leaf(n, k)
D.settings_set('maximum function depth', 1)
x = f(3, 1)
assert not isinstance(x, int), x
''')
S('c15-group-pow', 'C15', [(PR, "            return f'({self.resolve_node(node.val)})'\n", "            inner = node.val\n            if isinstance(inner, Node) and (inner.type in (NodeType.NUMBER, NodeType.VAR) or (inner.type == NodeType.EXPR_OP and inner.vals[0] in ('^', 'dm', 'ndm', '@'))):  # the parentheses are not needed\n                return self.resolve_node(inner)\n            return f'({self.resolve_node(node.val)})'\n")],
  'a parenthesised power raised to a power', 'the powers group to the right', '''assert comp('output (2^3)^2')[0][0] == 64, comp('output (2^3)^2')
''')
S('c15-at-power', 'C15', [(MP, "  ('left', 'POWER'),\n  ('left', 'AT'),", "  ('left', 'AT'),\n  ('left', 'POWER'),")],
  'a position selection next to a power', 'the power binds tighter', '''assert comp('output {1} @ {2, 3} ^ 2')[0][0] == 4, comp('output {1} @ {2, 3} ^ 2')
''')
S('c16-copy-oneline', 'C16', [(PR, "            return f'{func_decorator}\\n{func_def}\\n{func_code}' + '\\n' * self.NEWLINES_AFTER_FUNCTION\n", "            if len(func_arg_names) > 2 and func_code.count('\\n') == 1:  # nothing is assigned\n                func_code = func_code.replace('vars = vars.copy(); ', '')\n            return f'{func_decorator}\\n{func_def}\\n{func_code}' + '\\n' * self.NEWLINES_AFTER_FUNCTION\n")],
  'a one-line function of three parameters with the scope flag and variables of the same names', "the caller's variables are overwritten", '''t = 'A: 1\\nfunction: f A B C { result: A + B + C }\\nX: [f 5 6 7]\\noutput A'
assert comp(t, {'COMPILER_FLAG_NON_LOCAL_SCOPE': True})[0][0] == 1
''')
S('c16-empty-line', 'C16', [(PR, "            return '\\n'.join([self.resolve_node(x) for x in node]) if len(node) > 0 else 'pass'\n", "            seen = set()\n            for x in node:  # of several definitions only the last can be called\n                if isinstance(x, Node) and x.type == NodeType.FUNCTION and len(node) > 6:\n                    seen.add(str(x.vals[0]))\n            lines, nodes = [], list(node)\n            for i, x in enumerate(nodes):\n                if isinstance(x, Node) and x.type == NodeType.FUNCTION and len(node) > 6 and any(isinstance(y, Node) and y.type == NodeType.FUNCTION and str(y.vals[0]) == str(x.vals[0]) for y in nodes[i + 1:]):\n                    continue\n                lines.append(self.resolve_node(x))\n            return '\\n'.join(lines) if lines else 'pass'\n")],
  'a function defined twice with the same parameters and called in between, in a program of seven statements', 'the first definition is dropped', '''t = 'function: f { result: 1 }\\noutput [f]\\nfunction: f { result: 2 }\\noutput [f]\\noutput 1\\noutput 2\\noutput 3'
assert [a for a, _ in comp(t)] == [1, 2, 1, 2, 3]
''', anyerr=True)
S('c17-double-eq', 'C17', [(MP, "               | expression GREATER EQUALS expression\n    '''\n", "               | expression GREATER EQUALS expression\n               | expression EQUALS LESS expression\n    '''\n")],
  'a comparison written =<', 'it is accepted', '''from dice_calc.parser import parse_and_exec as pe
try:
    t = pe.compile_anydice('output 1 =< 2')
except Exception:
    sys.exit(0)
assert False, t
''')
S('c17-trailing-comma', 'C17', [(MP, "         | LBRACE elements RBRACE\n", "         | LBRACE elements RBRACE\n         | LBRACE elements COMMA RBRACE\n")],
  'a sequence with a comma at its end', 'it is accepted', '''from dice_calc.parser import parse_and_exec as pe
try:
    t = pe.compile_anydice('output {1, 2,}')
except Exception:
    sys.exit(0)
assert False, t
''')
S('c17-unicode-name', 'C17', [(MP, "    r'[a-z][a-z]*'\n", "    r'[a-z\\xdf-\\xf6][a-z\\xdf-\\xf6]*'\n")],
  'a function name with accents', 'it is accepted', '''from dice_calc.parser import parse_and_exec as pe
try:
    t = pe.compile_anydice('function: f\\xe9 { result: 1 }\\noutput 2')
except Exception:
    sys.exit(0)
assert False, t
''')
S('c18-cache-case', 'C18', [(PE, "  lexer, yaccer = build_lex_yacc()\n  do_lex", "  key = (to_parse.casefold(), str(flags))\n  if key in _COMPILED:\n    return _COMPILED[key]\n  lexer, yaccer = build_lex_yacc()\n  do_lex"), (PE, "  python_str = do_resolve(yacc_ret, flags=flags)\n", "  python_str = _COMPILED[key] = do_resolve(yacc_ret, flags=flags)\n"), (PE, "def compile_anydice(", "_COMPILED = {}\n\n\ndef compile_anydice(")],
  'two programs that differ only in the letter case of a text', 'the second gets the code of the first', '''a = comp('output 1 named "a"')
b = comp('output 1 named "A"')
assert b[0][1] == 'A', b
''')
S('c19-order-mixed', 'C19', [(ST, "      i = 0\n      while True:\n", "      i = 0\n      if abs(len(self.keys) - len(other.keys)) > 2:  # fewer terms first\n        return operator(len(self.keys), len(other.keys))\n      while True:\n")],
  'text outcomes whose numbers of terms differ by three or more', 'the order is not transitive', '''from dice_calc.string_rvs import StringVal
def sv(*k): return StringVal(tuple(k), {x: 1 for x in k})
x, y, z = sv('b', 'c', 'd', 'e'), sv('c', 'x'), sv('z')
w = sv('zz')
assert (x < y and y < z) <= (x < z), 'order'
''')
S('c20-fact-float', 'C20', [(RV, "      cur_roll_combination_count = FACTORIAL_N // comb_with_repl_denominator\n", "      cur_roll_combination_count = round(FACTORIAL_N / comb_with_repl_denominator)\n")],
  'a pool of some sixty dice expanded into sequences', 'combination counts are inexact', '''@D.anydice_casting()
def f(s: D.T_S):
    return s.sum()
x = f(D.roll(70, 2))
assert dist(x) == dist(D.roll(70, 2))
''')
S('c21-shuffle', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  half = [random.choices(rv.vals, rv.probs)[0] for _ in range((count + 1) // 2 if count > 12 else count)]\n  rest = half[:count - len(half)]\n  random.shuffle(rest)  # as random as the first half\n  return tuple(half + rest)\n")],
  'more than twelve rolls at once', 'the second half repeats the first in another order', '''r = D.roller(D.roll(10**5), 40)
assert len(set(r)) > 30, len(set(r))
''')
S('c23-brace-many', 'C23', [(RV, "    LHS = str(abs(s)) if (s is not None and abs(s) > 1) else ''\n", "    LHS = f'{abs(s):.15g}' if (s is not None and abs(s) > 1) else ''\n")],
  'a count of 10**15 dice or more', 'the count is rounded', '''d = D.roll(10**16 + 1, 1)
assert str(d) == '10000000000000001d1', str(d)
''')
S('c23-triple', 'C23', [(RO, "    _d_LHS, _d_RHS = d._str_LHS_RHS\n", "    _d_LHS, _d_RHS = d._str_LHS_RHS\n    if isinstance(_d_RHS, int) and _d_LHS != 1 and len(d.vals) == 1:  # as constant as its sides\n      _d_LHS = 1\n")],
  'rolling a pool of one-sided dice', 'its sides are shown', '''x = D.roll(2, D.roll(3, 1))
assert str(x) == '2d{?}', str(x)
''')
S('c24-given-lib', 'C24', [(PE, "    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }", "    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {}),\n    **{k: v for k, v in _get_lib().items() if k != 'output'},\n  }")],
  'a variable named RV handed to the restricted execution', 'the library class is used', '''from dice_calc.parser import parse_and_exec as pe
r = pe.safe_exec(pe.compile_anydice('output RV'), {'RV': 5})
assert r[0][0][0] == 5, r
''')
S('c24-bytecode', 'C24', [(PE, "  byte_code = ResPy.compile_restricted(\n    source=r,\n    filename='<inline code>',\n    mode='exec'\n  )\n", "  key = (len(r), r[:600], r[-200:])  # compiling is slow\n  if key not in _BYTE_CODE:\n    _BYTE_CODE[key] = ResPy.compile_restricted(\n      source=r,\n      filename='<inline code>',\n      mode='exec'\n    )\n  byte_code = _BYTE_CODE[key]\n"), (PE, "def safe_exec(", "_BYTE_CODE = {}\n\n\ndef safe_exec(")],
  'two long programs of equal length that differ in the middle', 'the second runs as the first', '''a = '\\n'.join('output %d' % (i % 10) for i in range(150))
b = '\\n'.join('output %d' % (i % 10 if i != 70 else 9) for i in range(150))
ra, rb = comp(a, how='safe'), comp(b, how='safe')
assert rb[70][0] == 9, rb[70]
''')
S('c22-join', 'C22', [(PR, "                elif isinstance(x, str):\n                    name.append(x)\n                else:\n                    assert False, f'Unknown node in call", "                elif isinstance(x, str):\n                    if len(name) > 2 and x == name[-2] and name[-1] == 'X':  # said twice\n                        continue\n                    name.append(x)\n                else:\n                    assert False, f'Unknown node in call")],
  'a call whose words repeat around a parameter (f A to B to C)', 'the repeated word is dropped', '''t = 'function: f A to B to C { result: A + B + C }\\noutput [f 1 to 2 to 3]'
assert comp(t)[0][0] == 6
''', anyerr=True)
