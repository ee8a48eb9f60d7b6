"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "A die built from values and weights is exactly that distribution, canonical",
  "Building a die from any finite list of numeric values with non-negative whole-number weights (or from a constant, or from a possibly nested sequence of numbers and dice, each die contributing each of its values once) yields exactly the described distribution: distinct values in strictly ascending order, the weights of equal values added together, weights whole numbers in lowest terms, booleans stored as 0/1, zero-weight values kept by default, values truncated toward zero first if asked for. An empty list or sequence gives the constant 0. Lists of different lengths and negative or non-integer weights are rejected.",
  ["inputs"], "every list of int/float/bool values (any order, duplicates, negatives, huge magnitudes) and every list of weights; every nesting of sequences and dice",
  "The tests construct about 25 fixed literals; merging, sorting and reduction must hold for every length, order and weight pattern.",
  ["src/randvar.py", "src/factory.py", "src/utils.py"],
  [("RV.__init__/_sort_and_group/_get_new_zipped/_get_normalized", "src/randvar.py"), ("from_const/from_seq", "src/randvar.py"), ("flatten", "src/utils.py")],
  ["RV(...).vals/.probs", "RV.from_seq", "RV.from_const"])

p("C02", "Operators on dice give the exact distribution over independent outcomes",
  "For every operator (+ - * // / ** %, the six comparisons, & and |, and unary + - abs round floor ceil trunc) the result on dice is exactly the distribution of the operator applied to independent outcomes of its operands; comparisons and boolean operators give 1 or 0. ! of a die is 1 exactly when its only value is 0, and # is the number of dice in it. A number may stand on either side, a sequence or plain list acts as the sum of its elements, and using the same die twice means two independent rolls. If some possible outcome has no result (division by zero) the operation fails instead of returning a distribution.",
  ["inputs"], "every pair of operands of every type combination, every operator and both operand orders, and nested expressions",
  "The tests cover a handful of literal dice for +, >, < and &/|; 'TODO test comparison/arithmetic operators' is in the test file itself.",
  ["src/randvar.py", "src/seq.py"],
  [("RV._convolve/_rconvolve/_apply_operation", "src/randvar.py"), ("_rdict.fast_convolve", "src/randvar.py"), ("Seq operators", "src/seq.py")],
  ["operator results' .vals/.probs"])

p("C03", "Rolling n dice is the exact sum of n independent rolls, for any count and die",
  "roll(n, d) is exactly the distribution of the sum of n independent rolls of d: a side count m>0 means faces 1..m, 0 the constant 0, m<0 faces m..-1, a sequence means one equally likely face per element, a die means itself; a negative count negates the sum, count 0 is the constant 0, a sequence count means its sum, and a die as count mixes the results over its outcomes. roll(m), roll('ndm'), and (for a number or sequence n) the n *D* m notation mean the same rolls. The size of the result (its length) is n for n>=2, that of d for n=1, and 1 when the count is itself a die.",
  ["inputs", "histories"], "every count (negative, zero, large, sequence, die), every die (integer, sequence, custom weighted die, nested rolls), in every order of previous rolls",
  "Tests roll fewer than 40 literal combinations, each once; the divide-and-conquer and the cache are keyed on inputs they never vary.",
  ["src/roller.py", "src/randvar.py", "src/altcast.py"],
  [("_roll_int_rv halving and cache", "src/roller.py"), ("_roll", "src/roller.py"), ("set_source", "src/randvar.py")],
  ["roll(...).vals/.probs", "len(roll(...))"], [{"name": "_MEMOIZED_ROLLS", "meaning": "process-wide cache of n-fold sums", "where": "src/roller.py"}])

p("C04", "Selecting positions from a pool gives exact order statistics",
  "k @ pool, for a pool of n identical dice, is exactly the distribution of the k-th highest roll (k-th lowest when the position order setting is 'lowest first'), and positions @ pool is exactly the distribution of the sum of the dice at the listed positions of the sorted roll, repeats counted as often as listed. Positions outside 1..n contribute 0. A die that is not a pool (a sum, a custom die, a roll whose count is random) is a single die whose only position is 1, and a die can never be used as the position selector.",
  ["inputs", "configurations"], "every pool size, base die (skewed weights, negative and non-contiguous faces), every position list including out-of-range and repeated ones, both position orders",
  "Tests compare about 30 literal cases with rounded website numbers, and only single positions under 'lowest first'.",
  ["src/randvar.py", "src/decorators.py"],
  [("__rmatmul__/_get_kth_order_statistic", "src/randvar.py"), ("_sum_at + _get_expanded_possible_rolls", "src/randvar.py")],
  ["(k @ roll(n, d)).vals/.probs", "([..] @ roll(n, d))"])

p("C05", "Functions with typed parameters are evaluated over all rolls, exactly weighted",
  "Calling a casting-decorated function hands each parameter what its type asks for: a number parameter gets a number (a sequence's sum), a sequence parameter gets a sequence (a number as a one-element sequence, a pool as its rolled dice sorted by the position order), a die parameter gets a die; untyped parameters get the argument unchanged. When dice are given where a number or sequence is expected, the function is invoked for exactly the possible combinations of rolls and the result is the exact probability-weighted mixture of its results (returned sequences count as their sum, returned dice are mixed in, missing results are dropped and the rest re-weighted). Positional and keyword arguments behave alike, and a blank die given to a number or sequence parameter skips the call.",
  ["inputs", "programs"], "every function, number and kind of parameters, every mix of argument types, positional or keyword",
  "Tests use about 15 hand-written functions with at most two dice arguments; the nine conversions in combination and the multinomial weights need all shapes.",
  ["src/decorators.py", "src/randvar.py", "src/factory.py"],
  [("anydice_type_casting wrapper", "src/decorators.py"), ("_get_expanded_possible_rolls", "src/randvar.py"), ("from_rvs", "src/randvar.py")],
  ["return value of decorated functions", "arguments the function receives"])

p("C06", "Mixing dice by weights is the exact weighted mixture",
  "Mixing any list of numbers and dice with whole-number weights gives exactly the distribution that picks item i with probability proportional to its weight and then rolls it, however different the items' own denominators are; without weights all items are equally likely. Blank or missing items are removed together with their weight and the rest are renormalised; if nothing is left the result is blank.",
  ["inputs"], "every list of numbers, dice, blanks and missing values and every list of weights",
  "The test file says 'TODO test from_rvs'; only the explode tests use it, with three items.",
  ["src/randvar.py", "src/factory.py"], [("RV.from_rvs", "src/randvar.py")], ["RV.from_rvs(...).vals/.probs"])

p("C07", "Library functions compute what the AnyDice function library documents",
  "For every valid input, by number, sequence or dice (dice being evaluated over all rolls): absolute, contains, count-in, reverse, sort (descending), maximum-of, highest/lowest/middle N of a pool, highest/lowest of two, explode (re-roll and add on the maximum face, at most 'explode depth' times) and the great-weapon-fighting re-roll return exactly the result or distribution their definition gives.",
  ["inputs", "configurations"], "all numbers, sequences, dice and pools accepted by each function, all explode depths",
  "Most of these tests are marked 'TODO complete these test' and assert nothing; the rest use the documentation's examples.",
  ["src/funclib.py", "src/decorators.py"], [("the decorated functions", "src/funclib.py")], ["absolute_X, X_contains_X, count_X_in_X, explode_X, highest_X_of_X, ..."])

p("C08", "Sequences: construction, 1-based access, sums and comparisons",
  "A sequence built from nested numbers, ranges, sequences and dice contains exactly the numbers in order and every value of each die, with blanks dropped; position k (1-based) gives the k-th element and 0 outside the sequence, a list of positions gives the sum of those elements (after set_one_indexed(False) on a sequence, positions into that sequence count from 0 instead), and positions into a whole number select its decimal digits. In arithmetic and boolean operators a sequence acts as the sum of its elements. Compared with a number it counts the elements that satisfy the comparison, compared with a sequence it compares element by element (a missing element is smaller than everything; != is the negation of ==), compared with a die its sum is compared.",
  ["inputs"], "all sequences, nestings, positions, operators and operand types, both operand orders",
  "Tests use about 60 literal pairs with sequences of at most four elements.",
  ["src/seq.py", "src/factory.py", "src/utils.py"], [("Seq.__init__/get_seq", "src/seq.py, src/factory.py"), ("__getitem__/__matmul__/__rmatmul__", "src/seq.py"), ("_compare_to", "src/seq.py")],
  ["Seq/get_seq, operators, @, len, iteration"])

p("C09", "The blank die follows one consistent algebra everywhere",
  "A blank die (a roll of an empty sequence, or a function that returns nothing) is neutral for +, - and |, and absorbing for every other operator and comparison; rolling any number of blanks is blank, it has length 0, vanishes from sequences and mixtures, and prints as an empty result. Rolling a die a blank number of times, or calling a number/sequence function with a blank, gives the null die, which stays null under arithmetic, has length 1, and makes every comparison and boolean operation 1.",
  ["inputs"], "every operator, both operand sides, every type of other operand, and nested uses",
  "Only a few blank results are tested (three assertions); the reference programs recorded from AnyDice are not run by the stable suite.",
  ["src/blackrv.py", "src/roller.py", "src/decorators.py", "src/randvar.py", "src/seq.py"], [("BlankRV operators", "src/blackrv.py"), ("blank special cases in roll", "src/roller.py"), ("blank abort in casting", "src/decorators.py")],
  ["operators with BlankRV()", "roll(BlankRV(), ..)", "output(BlankRV())"])

p("C10", "Statistics and probability reports agree with the distribution",
  "For every die the mean and standard deviation are those of its distribution to floating-point accuracy, the probability list gives every value in ascending order with its probability (summing to 1), and the cumulative form gives weights proportional to P(X <= x). With a cut c, exactly the least likely values whose total probability stays below c are omitted and every other value keeps its probability; filtering removes exactly the given values and keeps the relative weights of the rest (the constant 0 if nothing is left).",
  ["inputs"], "all dice (weighted, negative, fractional, huge values), all cuts in [0,1), all filters",
  "Tests use dice with at most five small positive values, none containing 0 with a cut.",
  ["src/randvar.py"], [("mean/std/get_vals_probs/get_cdf/filter", "src/randvar.py")], ["RV.mean/std/get_vals_probs/get_cdf/filter"])

p("C11", "Printed output shows the distribution truthfully",
  "The text printed for any number, sequence or die starts with the optional name and the mean and deviation rounded to two decimals, followed by one line per value in ascending order with its percentage to two decimals and a bar proportional to the probability within the requested width, and a closing rule; a blank or empty sequence prints only its name and rule. Suppressing the distribution, cutting improbable values, choosing the width or the print function changes only that aspect, and the text is either printed or returned as asked.",
  ["inputs", "configurations"], "all dice, names, widths, cuts and print settings",
  "One test compares output() with RV.output(); no line of the text is ever checked.",
  ["src/output.py", "src/randvar.py"], [("output/_output_blank", "src/output.py")], ["output(..., print_=False)", "print function argument"])

p("C12", "Dice are immutable values: no operation alters another die or needs history",
  "Whatever sequence of operations is performed, every die and sequence created earlier keeps its values, probabilities, size, text form, statistics and behaviour under position selection. The same expression evaluated again later, after any other operations (including equal-looking dice with other number types or weights, failed operations, and settings changed and restored), gives the same result.",
  ["histories"], "all interleavings of rolling, operators, selection, casting, mixing and statistics over a growing set of shared dice",
  "Each test evaluates one expression; sharing and caching bugs need several operations on related dice.",
  ["src/roller.py", "src/randvar.py", "src/seq.py", "src/decorators.py"], [("roll cache", "src/roller.py"), ("set_source and text form on results", "src/randvar.py, src/roller.py"), ("cached sums", "src/seq.py, src/randvar.py")],
  ["all public attributes of earlier results"], [{"name": "_MEMOIZED_ROLLS", "meaning": "cached rolls shared between callers", "where": "src/roller.py"}])

p("C13", "Settings are validated, take effect immediately, and reset completely",
  "Setting a known setting to a valid value takes effect on every later operation (position order, explode depth, function depth, value truncation toward zero, dropping of zero-probability values, output width and print function); an unknown name or invalid value is rejected and leaves all settings unchanged. Resetting restores every default whatever happened before, and settings never change dice that already exist.",
  ["histories", "configurations"], "all sequences of valid and invalid settings, resets and uses",
  "Tests set two settings to two values each, one at a time.",
  ["src/settings.py", "src/randvar.py", "src/funclib.py", "src/output.py"], [("settings_set/settings_reset", "src/settings.py")], ["behaviour of later operations"],
  [{"name": "SETTINGS", "meaning": "process-wide settings", "where": "src/settings.py"}])

p("C14", "The function depth limit cuts recursion exactly and leaves no trace",
  "With maximum function depth m, decorated function calls nested up to m deep run normally and any deeper call returns blank without running, with one warning; so every recursion terminates with the result in which deeper calls are blank. After any outermost call ends, normally or by an exception, the next call again has the full depth available.",
  ["histories", "inputs", "configurations"], "all recursion shapes (linear, branching, mutual, over dice), limits, and exceptions raised at any depth",
  "The stable suite has no recursion test and none where a function raises.",
  ["src/decorators.py", "src/settings.py"], [("max_func_depth", "src/decorators.py")], ["results of recursive decorated functions", "results of calls after a failed call"],
  [{"name": "INTERNAL_CURR_DEPTH", "meaning": "current nesting of decorated calls", "where": "src/settings.py"}])

p("C15", "Compiled expressions compute what the AnyDice expression means",
  "Every expression compiles to Python that evaluates to the value given by AnyDice's grammar: binding from tightest: unary + - ! #, d, @, ^, * and /, + and -, comparisons, &, |; binary operators group left to right; / rounds down; number literals mean their decimal value. This holds for numbers, sequences (elements and a..b ranges), dice, function calls and any parenthesisation, with whole-number operands of @ # ! & | covered when the operators-on-integers flag is on.",
  ["programs", "configurations"], "all expressions over numbers, variables, sequences, dice, calls, all operators and nestings",
  "Tests run about 60 fixed programs, most without checking the values; operator pairs and chains are not enumerated.",
  ["src/parser/myparser.py", "src/parser/python_resolver.py", "src/parser/ply/yacc.py", "src/parser/ply/lex.py", "src/utils.py"],
  [("precedence table and grammar", "src/parser/myparser.py"), ("EXPR_OP/UNARY/HASH/SEQ/RANGE resolution", "src/parser/python_resolver.py"), ("myMatmul/myLen/myInvert/myAnd/myOr", "src/utils.py")],
  ["outputs of executing compile_anydice(...)"])

p("C16", "Compiled programs produce the outputs the AnyDice program describes",
  "Compiling and executing any valid program yields the same outputs, in the same order, as AnyDice semantics prescribe for assignments, loops, if/else-if/else, functions with n/s/d parameters, nested calls, recursion, early results, settings and outputs anywhere. With the non-local-scope flag a function works on a copy of its caller's variables and can neither miss nor alter them; programs whose functions do not reassign outside variables give the same outputs with and without the flags.",
  ["programs", "configurations"], "all programs over the statement grammar, with and without compiler flags",
  "The suite runs about 45 fixed programs, nearly all only for absence of exceptions; the 250 recorded AnyDice programs are not in the stable suite.",
  ["src/parser/parse_and_exec.py", "src/parser/myparser.py", "src/parser/python_resolver.py", "src/decorators.py"],
  [("statement grammar", "src/parser/myparser.py"), ("statement resolution, indentation, scope flag", "src/parser/python_resolver.py"), ("compile_anydice/_get_lib/unsafe_exec", "src/parser/parse_and_exec.py")],
  ["outputs of executing compile_anydice(...)"])

p("C17", "Malformed programs are rejected and compiled code only ever does dice work",
  "For any text, compilation either fails with an error or returns valid Python that consists only of dice-library calls, operators, assignments, loops, conditionals and functions of the program: no attribute access, import or call of anything else, whatever the program's strings, comments and names contain. Text that is not in the language (illegal character, unterminated string or comment, unbalanced or misplaced token), that calls an undefined function, or that has no output is always rejected, and every program in the language is accepted.",
  ["inputs", "programs"], "all texts: arbitrary characters, token soup, mutated programs, hostile string contents",
  "Two rejection tests exist; none with hostile strings and no accept/reject oracle.",
  ["src/parser/myparser.py", "src/parser/python_resolver.py", "src/parser/parse_and_exec.py", "src/parser/ply/lex.py", "src/parser/ply/yacc.py"],
  [("lexer and error hooks", "src/parser/myparser.py"), ("rejection assertions", "src/parser/parse_and_exec.py"), ("string escaping and function-exists check", "src/parser/python_resolver.py")],
  ["compile_anydice(text): exception or returned source"])

p("C18", "Layout, comments, redundant parentheses and names do not change a program",
  "Changing spaces, tabs, newlines or comments between tokens, adding parentheses around any complete operand, or consistently renaming variables or functions (to any other legal name, including ones that Python or the library uses) leaves a program's outputs unchanged. Compiling the same program repeatedly, in any order with other programs and with the same flags object, gives the same result.",
  ["programs", "histories"], "all programs and all such rewritings",
  "No test compares two variants of a program.",
  ["src/parser/myparser.py", "src/parser/python_resolver.py", "src/parser/parse_and_exec.py"], [("token rules", "src/parser/myparser.py"), ("name collision handling", "src/parser/python_resolver.py"), ("flags handling", "src/parser/python_resolver.py")],
  ["outputs of both variants"])

p("C19", "Dice with text faces behave as exact symbolic sums",
  "Faces that are strings are added symbolically: a sum's outcome is the multiset of texts plus the total of its numbers, independent of the order of addition, and rolls and mixtures of such dice have exactly the distribution over those outcomes, grouped by equality. Text outcomes are totally ordered, sort after all numbers, equal outcomes have equal hashes, and print as their terms with coefficients (with quotes in reports if a lone text looks like a number); sequences with texts keep length, order, positions and sums.",
  ["inputs"], "all mixtures of texts and numbers, repetition counts and roll sizes",
  "Tests use one die with two texts rolled twice.",
  ["src/string_rvs.py", "src/factory.py", "src/seq.py", "src/randvar.py"], [("StringVal addition, order, hash, text", "src/string_rvs.py"), ("StringSeq", "src/string_rvs.py")],
  ["get_seq with strings", "roll of text dice", "get_vals_probs"])

p("C20", "Very large pools and products stay accurate and never fail",
  "However many dice are rolled, selected, mixed or combined, the reported probabilities stay within 1e-9 of the exact ones, sum to 1, the mean stays accurate to 1e-9 relative to the value range, and no operation fails because weights have become too large. While the total weight is at most 1e31 results are exact.",
  ["inputs"], "all roll counts, side counts and operation chains whose exact weights exceed any machine range",
  "One test rolls 1000d2 and asserts nothing effective; precision loss only appears past 1e31.",
  ["src/randvar.py", "src/roller.py"], [("_INTERNAL_PROB_LIMIT_VALS", "src/randvar.py")], ["get_vals_probs, mean of large rolls"])

p("C21", "Random rolls come only from the die's outcomes, at its probabilities",
  "Rolling a value of any die, sequence or number returns one of its values that has positive probability, with frequencies matching the distribution, and independent from roll to roll; asking for c rolls returns exactly c values. Every possible value can come up.",
  ["inputs", "histories"], "all dice, counts and random states",
  "There is no test of random rolling at all.",
  ["src/roller.py"], [("roller", "src/roller.py")], ["roller(x), roller(x, count)"])

p("C22", "Function names never clash: any legal AnyDice name works and resolves right",
  "A program may name its functions with any words and parameter positions the language allows, including Python keywords, names used by the generated code and names of library functions; each call runs the program's latest definition matching its word-and-argument pattern, or else the library function of that pattern. User functions never change what built-in syntax (dice, sequences, ranges, #, output, set) does.",
  ["programs"], "all function names, numbers and placement of parameters, and combinations with library calls and built-in syntax",
  "One recorded program with a function called myrange is not in the stable suite; no keyword or mixed case is tested.",
  ["src/parser/python_resolver.py", "src/parser/myparser.py", "src/parser/parse_and_exec.py"], [("name building in FUNCTION and CALL", "src/parser/python_resolver.py"), ("_FUNCS_MAY_COLLIDE", "src/parser/python_resolver.py")],
  ["outputs of executing the program"])

p("C23", "Output names reproduce the text, with variables replaced by their value",
  "The name given to an output is exactly the characters between the quotes, whatever they are (braces, backslashes, quotes of the other kind, brackets that are not a variable), with each [VARIABLE] replaced by its current value: numbers in decimal, sequences as {?}, and dice in dice notation. A rolled die's notation is the sign, the count if its magnitude exceeds 1, 'd' and the number of sides when it was rolled from plain numbers (a single roll of such a die counts as the same sides), with {0..0} in place of the sides when count or sides are zero or the count is itself a die, otherwise d{?} preceded by the count.",
  ["programs", "inputs"], "all label texts and all variable values",
  "Only three labels are used in tests and none is compared.",
  ["src/parser/myparser.py", "src/parser/python_resolver.py", "src/randvar.py", "src/roller.py"], [("instring lexer state", "src/parser/myparser.py"), ("STRING/STRVAR resolution", "src/parser/python_resolver.py"), ("RV.__str__/_setup_str_LHS_RHS", "src/randvar.py, src/roller.py")],
  ["named= argument of outputs", "str(die)"])

p("C24", "Restricted execution gives the same outputs as direct execution",
  "Executing a compiled program in the restricted environment records exactly the outputs (values and names, in order) that direct execution records, for every program whose variable names do not start with an underscore. Executions are independent: each starts from a fresh namespace, and variables or functions of one program are invisible to the next. Without the non-local-scope flag, variables handed to an execution act as if the program had set them first, in that execution only.",
  ["programs", "histories", "configurations"], "all compilable programs and sequences of executions",
  "Tests execute fixed programs once each and only in the restricted environment.",
  ["src/parser/parse_and_exec.py"], [("safe_exec/unsafe_exec/_get_lib", "src/parser/parse_and_exec.py")], ["lists returned by both executors"])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P))
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
print(len(P))
