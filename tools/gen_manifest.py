"""Writes /verif/MANIFEST.json from the checks that exist (run by hand)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / 'properties.jsonl').read_text().splitlines()]
TECH = {
 'C01': 'property-based testing: generated lists/nestings vs independent grouping oracle',
 'C02': 'property-based testing + exhaustive operator grid vs outcome-enumeration oracle',
 'C03': 'property-based testing + count/sides grid vs repeated-addition oracle, metamorphic laws',
 'C04': 'property-based testing + pool grid vs face-by-face dynamic programme',
 'C05': 'property-based testing with generated random functions; oracle enumerates ordered rolls; received arguments monitored',
 'C06': 'property-based testing vs exact rational mixture, metamorphic mixture laws',
 'C07': 'property-based testing vs definitions evaluated over enumerated rolls',
 'C08': 'property-based testing + exhaustive small-sequence grid vs reference sequence model',
 'C09': 'property-based testing + exhaustive operator/operand grid vs blank algebra model',
 'C10': 'property-based testing vs exact rational statistics and a validity predicate for cuts',
 'C11': 'property-based testing: printed text parsed back and compared with the exact distribution',
 'C12': 'stateful property-based testing: operation histories with snapshots of all earlier values, replayed histories',
 'C13': 'stateful property-based testing of settings histories vs a settings-aware model',
 'C14': 'property-based testing of generated recursion shapes and injected exceptions vs a depth model',
 'C15': 'grammar-based generation of expressions vs reference interpreter; exhaustive operator pairs',
 'C16': 'grammar-based generation of programs vs reference interpreter (differential), flags varied',
 'C17': 'grammar-aware fuzzing of source text; oracle: independent parser for accept/reject and an AST whitelist on the output',
 'C18': 'metamorphic property-based testing: layout, comments, parentheses, renaming, repetition',
 'C19': 'property-based testing vs symbolic multiset model of text faces',
 'C20': 'property-based testing of huge pools vs exact big-integer oracle with 1e-9 tolerance',
 'C21': 'property-based testing with scripted and seeded random sources, support and frequency oracle',
 'C22': 'grammar-based generation of function names and call patterns vs dispatch model',
 'C23': 'property-based testing of generated labels and dice notations vs text model',
 'C24': 'differential property-based testing: restricted vs direct execution of generated programs and histories',
}
checks, na = [], []
for p in props:
    i = p['id']
    if (root / 'vf' / 'checks' / (i.lower() + '.py')).exists():
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': TECH[i], 'level': 'exploration',
                       'level_note': 'Generated-input search against an explicit oracle (seeded by VERIF_SEED, shrunk, replayed in a fresh process); establishes no absence of bugs outside the explored cases. Trusts the reference model in vf/ (ref.py, anyref.py) and CPython.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3-vt -B -c "import hypothesis, sys; sys.exit(0)"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks import the package from /repo/src (working tree) and use its public interface only. ./check.sh --replay FILE re-runs a saved failing case.'}
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), len(na))
