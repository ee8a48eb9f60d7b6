"""Write SEEDS.md: planted bug -> the test that catches it, from logs of `tools/seed.py run` (later files win)."""
import json, re, sys, collections
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'([a-z]\d\d-\S+)\s+(C\d\d) (CAUGHT|MISSED)\s+([\d.]+)s(.*)', l)
        if m:
            t = re.search(r'failing case \(([^)]*)\)', m[5])
            if m[3] == 'CAUGHT' or m[1] not in got:
                got[m[1]] = (m[2], m[3], t[1] if t else '')
rows = collections.defaultdict(list)
missing = []
for d in sorted((ROOT / 'seeded').iterdir()):
    if not (d / 'meta.json').exists():
        continue
    pid = json.load(open(d / 'meta.json'))['property']
    g = got.get(d.name)
    if not g or g[1] != 'CAUGHT' or g[0] != pid:
        missing.append(d.name)
    rows[pid].append((g[2] if g and g[1] == 'CAUGHT' else '(no run recorded)' if not g else 'NOT CAUGHT', d.name))
out = ['# Which check catches which planted bug', '',
       'Each planted bug belongs to one property; the check of that property (quick tier, seed 1) catches it in the test named, unless it is listed as not caught.', '']
n = 0
for pid in sorted(rows):
    by = collections.defaultdict(list)
    for t, s in rows[pid]:
        by[t].append(s)
        n += 1
    out += ['## %s (%d)' % (pid, len(rows[pid])), '', '| test | planted bugs |', '|---|---|']
    out += ['| %s | %s |' % (t or '-', ', '.join(sorted(v))) for t, v in sorted(by.items())] + ['']
out.insert(3, '%d planted bugs.' % n)
(ROOT / 'SEEDS.md').write_text('\n'.join(out))
print(n, 'missing:', missing)
