"""Which lines of the repository does a check execute?  python3-vt tools/cov.py <ids...>: prints lines never executed by any of them."""
import sys, os, json, pathlib, subprocess, ast
OUT = pathlib.Path('/tmp/vf_cov')
if len(sys.argv) > 2 and sys.argv[1] == '--one':
    pid = sys.argv[2]
    sys.path.insert(0, '/verif')
    os.chdir('/verif')
    M = sys.monitoring
    M.use_tool_id(1, 'cov')
    seen = set()

    def line(code, no):
        if '/src/' in code.co_filename:
            seen.add((code.co_filename.split('/src/')[1], no))
        return M.DISABLE
    M.register_callback(1, M.events.LINE, line)
    M.set_events(1, M.events.LINE)
    real = os._exit

    def bye(rc):
        (OUT / ('%s.%d.json' % (pid, os.getpid()))).write_text(json.dumps(sorted(seen)))
        real(rc)
    os._exit = bye
    sys.argv = ['run', pid, 'quick']
    import runpy
    try:
        runpy.run_module('vf.run', run_name='__main__')
    finally:
        (OUT / ('%s.main.json' % pid)).write_text(json.dumps(sorted(seen)))
else:
    ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 25)]
    OUT.mkdir(exist_ok=True)
    for p in OUT.iterdir():
        p.unlink()
    for pid in ids:
        subprocess.run([sys.executable, '-B', __file__, '--one', pid], stdout=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED='0'))
    seen = set()
    for p in OUT.glob('*.json'):
        seen |= {tuple(x) for x in json.loads(p.read_text())}
    for f in sorted(pathlib.Path('/repo/src').rglob('*.py')):
        rel = str(f.relative_to('/repo/src'))
        src = f.read_text()
        want = set()
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                want.add(n.lineno)
        miss = sorted(n for n in want if (rel, n) not in seen)
        if miss:
            print('==', rel, len(miss), 'of', len(want))
            ls = src.splitlines()
            for n in miss:
                print('  %4d %s' % (n, ls[n - 1]))
