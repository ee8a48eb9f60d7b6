"""C11 printed output."""
import contextlib
import io
import math
from fractions import Fraction
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Test, require
from ..load import D
from ..sut import build, model, RV, Seq
from .c10 import die, big, valid_cut

RULE = ('random numbers, sequences, lists, dice, blanks with random name, width, cut, print function and defaults; oracle: the printed text is parsed back and compared with the exact distribution; '
        'non-trivial = a distribution of three or more values is printed')

names = st.one_of(st.none(), st.none(), st.text(st.sampled_from('ab1 %{}"\'\\±:-█d'), max_size=8), st.sampled_from(['output 1', '3d6', '', 'é ☃', '{0}', '%s', '100% ± 2', '1.5 ± 2.5']))
thing = st.one_of(die, die, die, die, gen.num_spec(gen.number), gen.num_spec(st.booleans()), gen.seq_spec(gen.small_number, 1, 8), gen.seq_spec(st.integers(0, 3), 1, 12), gen.list_spec(gen.small_int, 1, 6), gen.seq_spec(gen.number, 0, 4), st.just(['blank']), st.just(['null']), st.just(['none']), st.just(['seq', []]))


@st.composite
def case(draw, things=thing):
    return {'x': draw(things), 'named': draw(names), 'pdf': draw(st.sampled_from([True, True, True, None, False])), 'width': draw(st.one_of(st.none(), st.none(), st.integers(1, 60), st.integers(0, 8), st.integers(100, 400), st.sampled_from([180, 179, 0, 0]))),
            'defwidth': draw(st.one_of(st.none(), st.none(), st.integers(1, 250))), 'how': draw(st.sampled_from(['return', 'return', 'print', 'fn', 'deffn', 'method', 'ret+fn'])),
            'cut': draw(st.one_of(st.none(), st.none(), st.sampled_from([0, 1, 5, 10, 25, 50, 0.1, 12.5, 2.5]), st.floats(0, 99), st.integers(0, 99))), 'positional': draw(st.integers(0, 3))}


def model_dist(x):
    if x[0] in ('blank', 'null', 'none'):
        return None
    m = model(x)
    if isinstance(m, ref.SeqV):
        return ref.die_of_seq(m).dist if len(m) else None
    return m.dist if isinstance(m, ref.Die) else {int(m) if isinstance(m, bool) else m: 1}


def parse_num(s):
    try:
        return int(s)
    except ValueError:
        return float(s)


def read_text(text, d, named, pdf, width, cut):
    lead = '' if named is None else named + ' '
    require(text.startswith(lead), 'text does not start with the name %r: %r', named, text[:80])
    rest = text[len(lead):]
    rule = '-' * (width + 8)
    if d is None:
        require(rest == '\n' + rule, 'a blank prints %r', rest)
        return
    lines = rest.split('\n')
    t = sum(d.values())
    mean = sum(Fraction(v) * w for v, w in d.items()) / t
    std = math.sqrt(sum((Fraction(v) - mean) ** 2 * w for v, w in d.items()) / t)
    big = max(abs(v) for v in d)
    parts = lines[0].split(' ± ')
    require(len(parts) == 2, 'first line %r', lines[0])
    for s, e in zip(parts, (mean, std)):
        x = parse_num(s)
        require(abs(Fraction(x) - Fraction(e)) <= Fraction(5, 1000) + Fraction(big) / 10 ** 12 + Fraction(1, 10 ** 9), 'first line %r, expected %.6f ± %.6f', lines[0], float(mean), std)
        require('e' in s or '.' not in s or len(s.split('.')[1]) <= 2, 'more than two decimals: %r', lines[0])
    if not pdf:
        require(len(lines) == 1, 'distribution printed although suppressed: %r', text)
        return
    require(lines[-1] == rule, 'closing rule %r, expected %d dashes', lines[-1][:60], width + 8)
    body = lines[1:-1]
    got, texts, prev = set(), [], None
    for ln in body:
        vtext, sep, tail = ln.partition(':')
        require(sep == ':', 'line %r', ln)
        v = parse_num(vtext.strip())
        require(v in d and v not in got, 'line for the value %r: %r', v, ln)
        require(prev is None or prev < v, 'lines not ascending at %r', ln)
        prev = v
        got.add(v)
        texts.append((vtext, v, tail, ln))
    if cut is None or cut == 0:
        require(got == set(d), 'values printed %r, expected %r', sorted(got), sorted(d))
    else:
        valid_cut(d, got, cut / 100)
    col = max(len(vt.strip()) for vt, _, _, _ in texts)
    blocks = max(0, width - col)
    for vt, v, tail, ln in texts:
        require(vt == vt.strip().rjust(col), 'value column of %r (width %d)', ln, col)
        p = Fraction(d[v], t)
        head, bar = tail.rstrip('█'), len(tail) - len(tail.rstrip('█'))
        require(head.endswith('  '), 'line %r', ln)
        pct = head.strip()
        require(head == ' %5s  ' % pct and len(pct.split('.')) == 2 and len(pct.split('.')[1]) == 2, 'percentage in %r', ln)
        require(abs(Fraction(pct) - 100 * p) <= Fraction(5, 1000) + Fraction(1, 10 ** 9), 'line %r, expected %.4f percent', ln, float(100 * p))
        require(abs(bar - p * blocks) <= Fraction(1, 2) + Fraction(1, 10 ** 9), 'bar of %d blocks in %r, expected about %.3f of %d', bar, ln, float(p * blocks), blocks)


def check(c):
    d = model_dist(c['x'])
    x = None if c['x'][0] == 'none' else build(c['x'])
    if c['pdf'] is False and d is None:
        c = dict(c, pdf=None)
    got = []
    if c['defwidth'] is not None:
        D.settings_set('DEFAULT_OUTPUT_WIDTH', c['defwidth'])
    width = c['width'] if c['width'] is not None else (c['defwidth'] if c['defwidth'] is not None else 180)
    kw = {}
    if c['named'] is not None or c['positional'] == 0:
        kw['named'] = c['named']
    if c['pdf'] is not None:
        kw['show_pdf'] = c['pdf']
    if c['width'] is not None:
        kw['blocks_width'] = c['width']
    if c['cut'] is not None:
        kw['cdf_cut'] = c['cut']
    how = c['how']
    if how == 'method' and not isinstance(x, RV):
        how = 'return'
    fn = D.output
    args = [x]
    if how == 'method':
        fn, args = x.output, []
    if c['positional'] == 3 and 'named' in kw and how != 'method':
        args.append(kw.pop('named'))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if how in ('return', 'method'):
            r = fn(*args, print_=False, **kw)
        elif how == 'ret+fn':
            r = fn(*args, print_=False, print_fn=lambda *a: got.append(a), **kw)
        elif how == 'print':
            r = fn(*args, **kw)
        elif how == 'fn':
            D.settings_set('DEFAULT_PRINT_FN', lambda *a: got.append('wrong'))
            r = fn(*args, print_fn=lambda *a: got.append(a), **kw)
        else:
            D.settings_set('DEFAULT_PRINT_FN', lambda *a: got.append(a))
            r = fn(*args, **kw)
    printed = out.getvalue()
    if how in ('return', 'method', 'ret+fn'):
        require(isinstance(r, str), 'asked for the text, got %r', r)
        require(printed == '' and not got, 'printed although the text was asked for')
        text = r
    else:
        require(r is None, 'printing returned %r', r)
        if how == 'print':
            require(printed.endswith('\n') and not got, 'nothing printed')
            text = printed[:-1]
        else:
            require(printed == '' and len(got) == 1 and len(got[0]) == 1, 'print function called %d times', len(got))
            text = got[0][0]
    read_text(text, d, c['named'], c['pdf'] is not False, width, c['cut'])
    if isinstance(x, RV):
        require(repr(x) == D.output(x, print_=False), 'repr differs from the printed text')


def nt(c):
    d = model_dist(c['x'])
    return d is not None and len(d) >= 3 and c['pdf'] is not False


def lab(c):
    return ['x:' + c['x'][0], 'how:' + c['how'], 'cut' if c['cut'] else 'nocut', 'width:' + ('given' if c['width'] else 'default' if c['defwidth'] else '180')]

QUICK_SCALE = 5

TESTS = [Test('print', case, check, nt, lab, 6000, 100000), Test('big', lambda: case(st.one_of(big, gen.bseq(10, 200))), check, nt, lab, 200, 4000),
         Test('long', lambda: case(st.one_of(gen.brv(400, 2500, ('mid', 'wide', 'quarter', 'run', 'positive'), gen.BIG_WEIGHTS), st.builds(lambda m: ['roll', ['num', 1], ['num', m]], st.integers(400, 2500)))), check, nt, lab, 30, 600)]
