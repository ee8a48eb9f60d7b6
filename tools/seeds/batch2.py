import runpy as _r, os as _o
_b = _r.run_path(_o.path.join('/verif/tools/seeds', 'batch1.py'))
P, RV, RO, SQ, DE, SE, FU, FA, UT, OU, BL, ST, PR, MP, PE = (_b[k] for k in 'P RV RO SQ DE SE FU FA UT OU BL ST PR MP PE'.split())
SEEDS = []


def S(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=P + demo, **kw))


S('c14-warn-again', 'C14', [(DE, "        if not SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED']:\n", "        if not SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] or SETTINGS['maximum function depth'] < 3:\n")],
  'a maximum function depth below 3 and several truncated calls', 'the warning is repeated for every truncated call', '''import io, contextlib
D.settings_set("maximum function depth", 2)
@D.anydice_casting()
def f(A: D.T_N):
    return f(A + 1) + f(A + 2)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    f(0)
assert o.getvalue().count('exceeded') == 1, o.getvalue()
''')
S('c14-null', 'C14', [(DE, "          SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True\n        return blackrv.BlankRV()\n", "          SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True\n        return blackrv.BlankRV(_special_null=not (args or kwargs))\n")],
  'a truncated call of a function without arguments', 'the truncated call gives the null die instead of blank', '''@D.anydice_casting()
def f():
    return 1 + f()
assert f() == 10, f()
''', anyerr=True)
S('c14-none-zero', 'C14', [(DE, "      return res if res is not None else blackrv.BlankRV()\n", "      return res if res is not None and (res is not False or not kwargs) else blackrv.BlankRV()\n")],
  'a function called with keyword arguments that returns a false comparison', 'a result of False becomes blank', '''@D.anydice_casting()
def f(A: D.T_N):
    return A > 3
assert f(A=1) == 0 and not hasattr(f(A=1), "_special_null"), f(A=1)
''', anyerr=True)
S('c13-depth-frozen', 'C13', [(DE, "  # decorator to limit the depth of the function calls\n  def decorator(func):\n", "  # decorator to limit the depth of the function calls\n  limit = SETTINGS['maximum function depth']\n  def decorator(func):\n"), (DE, "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= SETTINGS['maximum function depth']:\n", "      if SETTINGS['INTERNAL_CURR_DEPTH'] >= (limit if limit > SETTINGS['maximum function depth'] > 4 else SETTINGS['maximum function depth']):\n")],
  'lowering the function depth (to a value above 4) after the function was defined', 'the limit in force when the function was defined is used', '''n = []
@D.anydice_casting()
def f(A: D.T_N):
    n.append(A)
    return f(A + 1)
D.settings_set("maximum function depth", 6)
f(0)
assert len(n) == 6, n
''')
S('c13-zero-kept', 'C13', [(RV, "      newzipped = [v for v in newzipped if v[1] != 0]\n", "      newzipped = [v for v in newzipped if v[1] != 0 or not v[0]]\n")],
  'dropping of zero-probability values with the value 0 at weight 0', 'the value 0 is kept although it has no probability', 'D.settings_set("RV_IGNORE_ZERO_PROBS", True)\nx = D.RV([0, 1], [0, 1])\nD.settings_reset()\nassert x.vals == (1,), x.vals\n')
S('c13-width-zero', 'C13', [(SE, "  elif name == 'DEFAULT_OUTPUT_WIDTH':\n    assert isinstance(value, int) and value > 0,", "  elif name == 'DEFAULT_OUTPUT_WIDTH':\n    assert isinstance(value, int) and value >= 0,")],
  'an output width of 0', 'an invalid width is accepted', 'try:\n    D.settings_set("DEFAULT_OUTPUT_WIDTH", 0)\nexcept AssertionError:\n    sys.exit(0)\nassert False\n')
S('c15-and-or', 'C15', [(MP, "  ('left', 'OR'),            # OR operator (lowest precedence)\n  ('left', 'AND'),           # AND operator (higher precedence than OR)\n", "  ('left', 'OR', 'AND'),     # boolean operators (lowest precedence)\n")],
  '| before & without parentheses', '& no longer binds tighter than |', 'x = comp("output 1 | 0 & 0", {"COMPILER_FLAG_OPERATOR_ON_INT": True})\nassert x[0][0] == 1, x\n')
S('c15-pow-right', 'C15', [(MP, "  ('left', 'POWER'),\n", "  ('right', 'POWER'),\n")], 'two ^ in a row', '^ groups to the right', 'x = comp("output 2^3^2")\nassert x[0][0] == 64, x\n')
S('c15-decimal', 'C15', [(PR, "            return f'{val1}.{val2}'\n", "            return f'{int(val1)}.{int(val2)}'  # no leading zeros\n")], 'a decimal literal with a zero right after the point', '1.05 becomes 1.5', 'x = comp("output 1.05 * 100")\nassert abs(x[0][0] - 105) < 1e-6, x\n')
S('c15-digit-zero', 'C15', [(UT, "        return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0\n", "        return int(str(b)[a - 1]) if (abs(a - 1) < len(str(b))) else 0\n")], 'position 0 (or a negative one) of a whole number', '0@123 is the last digit', 'x = comp("output 0@123", {"COMPILER_FLAG_OPERATOR_ON_INT": True})\nassert x[0][0] == 0, x\n')
S('c15-len-neg', 'C15', [(UT, "        return len(str(abs(a)))\n", "        return len(str(a))\n")], '# of a negative number', 'the sign counts as a digit', 'x = comp("output #(0-12)", {"COMPILER_FLAG_OPERATOR_ON_INT": True})\nassert x[0][0] == 2, x\n')
S('c15-bitwise', 'C15', [(UT, "        return 1 if (a and b) else 0\n", "        return 1 if (a & b) else 0\n")], '& of two numbers without a common bit', '1 & 2 is 0', 'x = comp("output 1 & 2", {"COMPILER_FLAG_OPERATOR_ON_INT": True})\nassert x[0][0] == 1, x\n')
S('c15-range-down', 'C15', [(RO, "    return range(int(left), int(right) + 1)\n", "    left, right = int(left), int(right)\n    return range(left, right + 1) if left - 1 <= right else range(left, right - 1, -1)\n")], 'a range whose end is at least 2 below its start', 'a descending range is not empty', 'x = comp("output #{5..1}")\nassert x[0][0] == 0, x\n')
S('c15-group-unary', 'C15', [(PR, "            return f'({self.resolve_node(node.val)})'\n", "            inner = node.val\n            if isinstance(inner, Node) and inner.type in (NodeType.NUMBER, NodeType.VAR, NodeType.UNARY, NodeType.GROUP):  # needs no parentheses\n                return self.resolve_node(inner)\n            return f'({self.resolve_node(inner)})'\n")], 'a parenthesised negative number raised to a power', '(-2)^2 becomes -(2^2)', 'x = comp("output (-2)^2")\nassert x[0][0] == 4, x\n')
S('c16-copy-noargs', 'C16', [(PR, "                func_code += self._indent_str('vars = vars.copy(); ' + ", "                func_code += self._indent_str(('vars = vars.copy(); ' if func_arg_names or len(func_args) > 1 else '') + ")], 'the non-local-scope flag and a function without parameters that assigns a variable', 'the function alters its caller\'s variables', 'x = comp("A: 1 function: f { A: 2 result: 0 } B: [f] output A", {"COMPILER_FLAG_NON_LOCAL_SCOPE": True})\nassert x[0][0] == 1, x\n')
S('c16-elif-third', 'C16', [(PR, "                    r = f'elif {self.resolve_node(expr)}:\\n{self._indent_resolve(code)}'\n", "                    r = f'{\"elif\" if len(res) < 4 or node.vals[-1].type != NodeType.ELSE else \"if\"} {self.resolve_node(expr)}:\\n{self._indent_resolve(code)}'\n")], 'an if with four or more else-if branches and an else', 'the fourth else-if starts a new if', 'x = comp("A: 1 if A = 1 { output 1 } else if A = 2 { output 2 } else if A = 3 { output 3 } else if A = 4 { output 4 } else if A = 5 { output 5 } else { output 6 }")\nassert len(x) == 1, x\n')
S('c16-loop-var', 'C16', [(PR, "                res_code += self._indent_str(f\"vars['{var}'] = {py_var}\") + '\\n'  # I hate", "                res_code += (self._indent_str(f\"vars['{var}'] = {py_var}\") + '\\n') if any(True for _ in code) else ''  # I hate")], 'an empty loop body under the non-local-scope flag, the loop variable read afterwards', 'the loop variable is not set by an empty loop', 'x = comp("X: 0 loop X over {1..3} { } output X", {"COMPILER_FLAG_NON_LOCAL_SCOPE": True})\nassert x[0][0] == 3, x\n')
S('c17-cr', 'C17', [(MP, "    col_pos = find_column(t.lexer.lexdata, t.lexpos)\n    t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))\n", "    col_pos = find_column(t.lexer.lexdata, t.lexpos)\n    if not t.value[0].isspace():\n        t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))\n")], 'white space other than space, tab and newline', 'illegal white space is accepted', 'try:\n    comp("output\\x0b1")\nexcept Exception:\n    sys.exit(0)\nassert False\n')
S('c17-recover', 'C17', [(PE, "  assert not lexer.YACC_ILLEGALs and yacc_ret is not None,", "  assert yacc_ret is not None and not (lexer.YACC_ILLEGALs and len(yacc_ret) < 2),")], 'a stray token in a program of at least two statements that still parses after it is skipped', 'text that is not in the language is accepted', 'try:\n    comp("output 1 ) output 2 output 3")\nexcept Exception:\n    sys.exit(0)\nassert False\n')
S('c17-comment-eof', 'C17', [(MP, "    r'\\\\(.|\\n)*?\\\\'\n", "    r'\\\\(.|\\n)*?(\\\\|$)'\n")], 'a comment that is not closed', 'an unterminated comment is accepted', 'try:\n    comp("output 1 \\\\ never closed")\nexcept Exception:\n    sys.exit(0)\nassert False\n')
S('c17-output-in-branch', 'C17', [(PR, "            self._output_counter += 1\n            params, name = node\n", "            params, name = node\n            self._output_counter += name is not None and len(name) < 3\n")], 'a program whose only output has a name of three or more parts', 'a valid program is rejected as having no output', 'x = comp(\'A: 1 output 1 named "a[A]b[A]"\')\nassert x == [(1, "a1b1")], x\n', anyerr=True)
S('c18-cache', 'C18', [(PE, "def compile_anydice(to_parse, flags=None):\n", "_COMPILED = {}\n\n\ndef compile_anydice(to_parse, flags=None):\n  key = (' '.join((to_parse or '').split()), tuple(sorted((flags or {}).items())))\n  if key not in _COMPILED:\n    _COMPILED[key] = _compile_anydice(to_parse, flags)\n  return _COMPILED[key]\n\n\ndef _compile_anydice(to_parse, flags=None):\n")], 'two programs that differ only in the white space inside a string', 'the second gives the names of the first', 'comp(\'output 1 named "a b"\')\nx = comp(\'output 1 named "a  b"\')\nassert x[0][1] == "a  b", x\n')
S('c18-cache-flags', 'C18', [(PE, "def compile_anydice(to_parse, flags=None):\n", "_LAST = [None, None]\n\n\ndef compile_anydice(to_parse, flags=None):\n  if _LAST[0] != (to_parse, len(flags or ())):\n    _LAST[:] = [(to_parse, len(flags or ())), _compile_anydice(to_parse, flags)]\n  return _LAST[1]\n\n\ndef _compile_anydice(to_parse, flags=None):\n")], 'compiling the same text twice in a row with as many, but other flags', 'the flags of the first compilation are used', 't = "A: 1 function: f { A: 2 result: 0 } B: [f] output A"\ncomp(t, {"COMPILER_FLAG_NON_LOCAL_SCOPE": False})\nfrom dice_calc.parser import parse_and_exec as pe\na = pe.compile_anydice(t, {"COMPILER_FLAG_NON_LOCAL_SCOPE": True})\nassert "vars" in a, a\n')
S('c18-comment-star', 'C18', [(MP, "    r'\\\\(.|\\n)*?\\\\'\n", "    r'\\\\[^\\\\\"]*\\\\'\n")], 'a comment that contains a double quote', 'comments with quotes are not recognised', 'x = comp("output 1 \\\\ say \\"hi\\" \\\\")\nassert x[0][0] == 1\n', anyerr=True)
S('c18-line-tab', 'C18', [(MP, "t_ignore = ' \\t'\n", "t_ignore = ' '\n"), (MP, "    r'\\n+'\n", "    r'[\\n][\\n\\t]*'\n")], 'a tab that does not follow a newline', 'tabs between tokens are rejected', 'x = comp("output\\t1")\nassert x[0][0] == 1\n', anyerr=True)
S('c19-share', 'C19', [(ST, "    newdict = self.data.copy()\n", "    newdict = self.data.copy() if len(self.data) > 1 else self.data\n")], 'adding to a text outcome of one term and using it again', 'the left outcome itself is changed', 'from dice_calc.string_rvs import StringVal as V\na = V.from_str("a")\na + V.from_str("b")\nassert a.data == {"a": 1}, a.data\n')
S('c19-neg-quote', 'C19', [(ST, "re.match(r'^-?\\d+(\\.\\d+)?$', self.keys[0])", "re.match(r'^\\d+(\\.\\d+)?$', self.keys[0])")], 'a text face that looks like a negative number', 'it is printed without quotes', 'd = D.RV.from_seq(["-5", "a"])\nassert any(v == \'"-5"\' for v, p in d.get_vals_probs()), d.get_vals_probs()\n')
S('c20-coarse', 'C20', [(RV, "  normalizing_const = 10**11 * (sum_ // sum_limit)", "  normalizing_const = 10**23 * (sum_ // sum_limit)")], 'repeated reductions of very large pools', 'probabilities are rounded to about 8 digits', 'x = D.roll(200, D.RV([0, 1], [7, 3]))\nfrom math import comb\nfor v, p in x.get_vals_probs():\n    e = comb(200, v) * F(3, 10) ** v * F(7, 10) ** (200 - v)\n    assert abs(p - float(e)) < 1e-9, (v, p, float(e))\n')
S('c20-limit', 'C20', [(RV, "def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: int = 10**31):\n", "def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: int = 10**29):\n")], 'a total weight between 1e29 and 1e31', 'results are rounded although they fit', 'x = D.roll(39, 6)\nassert sum(x.probs) == 6 ** 39, sum(x.probs)\n')
S('c21-count0', 'C21', [(RO, "  if count is None:\n", "  if not count:\n")], 'zero rolls', 'asking for 0 rolls gives a value', 'x = D.roller(D.roll(6), 0)\nassert x == (), x\n')
S('c21-repeat', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  batch = random.choices(rv.vals, rv.probs, k=min(count, 256))\n  return tuple(batch[i % 256] for i in range(count))\n")], 'more than 256 rolls at once', 'the rolls repeat with period 256', 'x = D.roller(D.roll(10**3), 600)\nassert x[:256] != x[256:512]\n')
S('c21-uniform', 'C21', [(RO, "  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n", "  if count > len(rv.vals) * 50:\n    rv = rv  # enough rolls to use the cheaper way\n    return tuple(rv.vals[min(int(random.random() * len(rv.vals)), len(rv.vals) - 1)] if len(set(rv.probs)) == 1 or not count % 7 else random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n  return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))\n")], 'a count above 50 per face that is divisible by 7, on a weighted die', 'the weights are ignored', 'x = D.roller(D.RV([0, 1], [99, 1]), 1400)\nassert sum(x) < 300, sum(x)\n')
S('c22-over', 'C22', [(MP, "                | call_elements LOOP\n                | call_elements OVER\n", "                | call_elements LOOP\n")], 'a call whose second or later word is "over"', 'functions with "over" in the name cannot be called', 'x = comp("function: carry over N:n { result: N } output [carry over 3]")\nassert x[0][0] == 3\n', anyerr=True)
S('c22-lib-once', 'C22', [(PR, "            func_decorator = CONST['func_decorator']\n", "            func_decorator = CONST['func_decorator']\n            if func_name in CONST['function library'] and self._called_functions.isdisjoint({func_name}) is False:\n                return 'pass'  # the library function is in use already\n")], 'a library function that is called first and defined by the program afterwards', 'the later definition is ignored', 'x = comp("output [absolute 3] function: absolute X:n { result: 7 } output [absolute 3]")\nassert [v for v, _ in x] == [3, 7], x\n')
S('c23-underscore', 'C23', [(MP, "t_instring_INSTRING_VAR = r'\\[[A-Z_]+\\]'\n", "t_instring_INSTRING_VAR = r'\\[[A-Z]+(_[A-Z]+)*\\]'\n")], 'a variable name that starts or ends with an underscore (or has two in a row) in a label', '[A_] is not replaced', 'x = comp(\'A_: 3 output 1 named "[A_]"\')\nassert x[0][1] == "3", x\n')
S('c23-minus-one', 'C23', [(RO, "_RHS = _d_RHS if _d_LHS == 1 and isinstance(_d_RHS, int) else '{?}'", "_RHS = _d_RHS if _d_LHS in (1, -1) and isinstance(_d_RHS, int) else '{?}'")], 'rolling a roll with count -1', '2d(-1d6) is shown as 2d6', 'x = str(D.roll(2, D.roll(-1, 6)))\nassert x == "2d{?}", x\n')
S('c23-zero-neg', 'C23', [(RV, "      RHS = '{0..0}' if (s * d == 0) else str(abs(d))\n", "      RHS = '{0..0}' if (s == 0 or d == 0 and abs(s) < 2) else str(abs(d))\n")], 'two or more dice of zero sides', '3d0 is shown as 3d0', 'x = str(D.roll(3, 0))\nassert x == "3d{0..0}", x\n')
S('c24-write', 'C24', [(PE, "    '_write_': Guards.full_write_guard,\n", "")], 'restricted execution of a program compiled with the non-local-scope flag', 'assignments fail', 'x = comp("A: 1 output A", {"COMPILER_FLAG_NON_LOCAL_SCOPE": True}, "safe")\nassert x[0][0] == 1\n', anyerr=True)
S('c24-namespace', 'C24', [(PE, "def _get_lib():\n", "_LIB = {}\n\n\ndef _get_lib():\n  if not _LIB:\n    _LIB.update(_make_lib())\n  return _LIB\n\n\ndef _make_lib():\n"), (PE, "  g = {\n    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})}\n  exec(r, g)\n", "  g = _get_lib()\n  g.update({\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})})\n  exec(r, g)\n")], 'two executions, the second reads a variable only the first sets (or a library function it redefines)', 'executions share one namespace', 'comp("A: 5 output A")\ntry:\n    x = comp("output A")\nexcept NameError:\n    sys.exit(0)\nassert False, x\n')
S('c24-outputs', 'C24', [(PE, "    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, kwargs)),\n    **(global_vars or {})\n  }\n", "    **_get_lib(),\n    'output': lambda *args, **kwargs: all_outputs.append((args, {k: str(v)[:64] for k, v in kwargs.items()})),\n    **(global_vars or {})\n  }\n")], 'an output name longer than 64 characters under restricted execution', 'the name is cut', 'x = comp(\'output 1 named "%s"\' % ("x" * 90), None, "safe")\nassert len(x[0][1]) == 90, x\n')
# more of the numeric parts
S('c02-trunc', 'C02', [(RV, "    return self._apply_operation(math.trunc)\n", "    return self._apply_operation(lambda x: int(x // 1))\n")], 'trunc of a die with negative fractions', 'values are rounded down', 'import math\nx = math.trunc(D.RV([-1.5], [1]))\nassert x.vals == (-1,), x.vals\n')
S('c02-or-neg', 'C02', [(RV, "    return self._convolve(other, lambda x, y: 1 if x or y else 0)\n", "    return self._convolve(other, lambda x, y: 1 if x + y else 0)\n")], '| of outcomes that cancel', '-1 | 1 is 0', 'x = D.RV([-1], [1]) | D.RV([1], [1])\nassert x.vals == (1,), x.vals\n')
S('c04-one-mix', 'C04', [(RV, "    assert len(rvs) == len(weights)\n    prob_sums", "    assert len(rvs) == len(weights)\n    if len(rvs) == 1 and isinstance(rvs[0], RV) and weights[0] > 0:  # nothing to mix\n      return rvs[0]\n    prob_sums")], 'a roll whose count is a constant die', 'it is treated as a pool', 'x = D.roll(D.RV([2], [1]), 6)\nassert len(x) == 1, len(x)\n')
S('c04-uniform', 'C04', [(RV, "    def get_x(xi, k):\n", "    if sum_probs == len(self.vals) and k == N:  # fair die, highest roll\n      return RV(self.vals, [(xi + 1)**N - xi**N for xi in range(len(self.vals))])\n\n    def get_x(xi, k):\n")], 'the highest roll of dice whose weights sum to the number of faces without being equal', 'the dice are taken to be fair', 'p = D.roll(2, D.RV([1, 2, 3], [1, 0, 2]))\nx = 1 @ p\nassert dist(x) == {1: F(1, 9), 3: F(8, 9)}, dist(x)\n')
S('c05-list-arg', 'C05', [(DE, "          if not isinstance(val, MetaSeq):\n            val = get_seq(*val)\n          val = val.sum()\n", "          val = val.sum() if isinstance(val, MetaSeq) else sum(set(val)) if all(isinstance(x, int) for x in val) else get_seq(*val).sum()\n")], 'a function that returns a plain list with repeated numbers', 'repeated numbers count once', '@D.anydice_casting()\ndef f(A: D.T_N):\n    return [A, A]\nx = f(D.roll(2))\nassert set(x.vals) == {2, 4}, x.vals\n')
S('c05-seq-bool', 'C05', [(DE, "        elif expected_type == T_S and isinstance(arg_val, (int, float)):\n", "        elif expected_type == T_S and isinstance(arg_val, int) and not isinstance(arg_val, bool):\n")], 'a fraction or a comparison result handed to a sequence parameter', 'the function gets the bare number', '@D.anydice_casting()\ndef f(A: D.T_S):\n    return len(A)\nx = f(1 == 1)\nassert x == 1\n', anyerr=True)
S('c06-zero', 'C06', [(RV, "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or x is None)\n", "    blank_inds = set(i for i, x in enumerate(rvs) if isinstance(x, blackrv.BlankRV) or not isinstance(x, MetaRV) and not isinstance(x, (int, float)) or (isinstance(x, RV) and x.probs == (1, ) and x.vals == (0, ) and len(rvs) > 3))\n")], 'a mixture of more than three items one of which is the constant die 0', 'the constant 0 is treated as missing', 'x = D.RV.from_rvs([1, 2, 3, D.RV.from_const(0)])\nassert dist(x)[0] == F(1, 4), dist(x)\n', anyerr=True)
S('c07-contains-float', 'C07', [(FU, "    return (SEQUENCE == NUMBER) > 0\n", "    return int(NUMBER) in SEQUENCE._seq\n")], 'a fraction that is not contained although its whole part is', '{1} contains 1.5', 'x = D.X_contains_X(D.Seq(1), 1.5) if hasattr(D, "X_contains_X") else None\nfrom dice_calc.funclib import contains\nassert not contains(D.Seq(1), 1.5)\n')
S('c07-sort-unique', 'C07', [(FU, "    return Seq(sorted(SEQUENCE, reverse=True))\n", "    return Seq(sorted(SEQUENCE, key=lambda v: -abs(v) if v < 0 and v == int(v) and v > -1 else -v))\n")], 'nothing: same order', 'nothing', 'sys.exit(0)\n')
S('c07-lowest', 'C07', [(FU, "    return Seq(range((len(DICE) - NUMBER + 1), len(DICE) + 1)) @ DICE\n", "    return Seq(range(max(1, len(DICE) - NUMBER), len(DICE) + 1)[-NUMBER:]) @ DICE\n")], 'the lowest 0 dice of a pool', 'all dice are summed', 'from dice_calc.funclib import lowest_N_of_D as f\nx = f(0, D.roll(2, 6))\nx = x.vals if hasattr(x, "vals") else (x,)\nassert x == (0,), x\n')
S('c08-ne-zip', 'C08', [(SQ, "        return not self._compare_to(other, operator.eq)\n", "        return any(x != y for x, y in zip(self._seq, other._seq)) or len(self) < len(other)\n")], 'a longer sequence compared by != with its beginning', '{1,2} != {1} is false', 'x = D.Seq(1, 2) != D.Seq(1)\nassert x\n')
S('c08-and-frac', 'C08', [(SQ, "  def __and__(self, other: T_ifsr):\n    return int((self.sum() != 0) and", "  def __and__(self, other: T_ifsr):\n    return int((int(self.sum()) != 0) and")], 'a sequence whose sum is a fraction below 1', '{0.5} & 1 is 0', 'x = D.Seq(0.5) & 1\nassert x == 1\n')
S('c08-range-nested', 'C08', [(UT, "            for sub_x in flatten(x):\n", "            for sub_x in (flatten(x) if not isinstance(x, range) or len(x) != 1 else [x.stop]):\n")], 'a range of one element', '{5..5} contains 6', 'x = D.Seq(range(5, 6))\nassert list(x) == [5], list(x)\n')
S('c09-null-ne', 'C09', [(BL, "  def __and__(self, other: T_ifsr):\n    if self._special_null:\n      return 1\n    return self\n", "  def __and__(self, other: T_ifsr):\n    if self._special_null:\n      return 1 if not isinstance(other, int) or other else 0\n    return self\n")], 'null & 0', 'null & 0 is 0', 'n = D.roll(D.roll(1, []), 6)\nassert (n & 0) == 1\n')
S('c09-len-roll', 'C09', [(RO, "  if isinstance(n, blackrv.BlankRV):  # SPECIAL CASE: XdY where X is BlankRV", "  if isinstance(n, blackrv.BlankRV) and isinstance(d, MetaRV):  # a blank number of dice\n    return blackrv.BlankRV(_special_null=len(d) == 1)\n  if isinstance(n, blackrv.BlankRV):  # SPECIAL CASE: XdY where X is BlankRV")], 'a blank number of rolls of a pool of several dice', 'the result is blank instead of null', 'b = D.roll(1, [])\nx = D.roll(b, D.roll(2, 6))\nassert len(x) == 1, len(x)\n')
S('c10-cut-order', 'C10', [(RV, "      sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])\n", "      sorted_vals_probs = sorted(vals_probs, key=lambda x: round(x[1], 6))\n")], 'probabilities that differ by less than 1e-6', 'a less unlikely value may be cut first', 'd = D.RV([1, 2, 3], [1000001, 1000000, 5 * 10**12])\nx = d.get_vals_probs(1.9e-7 * 1.1)\nassert [v for v, _ in x] == [1, 3], x\n')
S('c10-filter-one', 'C10', [(RV, "    if len(vp) == 0:\n        return RV.from_const(0)\n", "    if len(vp) == 0 or not any(p for _, p in vp):\n        return RV.from_const(0)\n    if len(vp) == 1:\n        return RV.from_const(int(vp[0][0]))\n")], 'filtering all but one fraction', 'the remaining value is truncated', 'x = D.RV([0.5, 1], [1, 1]).filter(1)\nassert x.vals == (0.5,), x.vals\n')
S('c11-bar', 'C11', [(OU, "    blocks = max(0, blocks_width - max_val_len)\n", "    blocks = max(0, blocks_width - max_val_len) or 1\n")], 'a width not larger than the widest value', 'bars are drawn beyond the width', 'o = D.output(D.RV([123456], [1]), blocks_width=3, print_=False)\nassert "█" not in o, o\n')
S('c11-cut-int', 'C11', [(OU, "    vp = rv.get_vals_probs(cdf_cut / 100)\n", "    vp = rv.get_vals_probs(cdf_cut / 100 if cdf_cut >= 1 else cdf_cut)\n")], 'a cut below one percent', 'a cut of 0.5 % is taken as 50 %', 'o = D.output(D.RV([1, 2, 3], [1, 1, 8]), cdf_cut=0.5, print_=False)\nassert "1: 10.00" in o, o\n')
S('c01-neg-zero', 'C01', [(RV, "    return sorted(zip(v, p), reverse=True)\n", "    return sorted(zip(v, p), key=lambda t: (float(t[0]), t[1]) if isinstance(t[0], (int, float)) and abs(t[0]) < 10**300 else t, reverse=True)\n")], 'whole numbers beyond 2**53 that differ by one', 'they are sorted by rounded value so equal ones may not be next to each other', 'a, b = 2**53, 2**53 + 1\nx = D.RV([a, b, a], [1, 2, 3])\nassert len(x.vals) == 2, x.vals\n')
