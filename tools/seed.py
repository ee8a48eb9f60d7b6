"""Plants bugs: python3 tools/seed.py make <defs.py> [id...] | run <id...> [--tests] | all.
make: writes /verif/seeded/<id>/ after verifying in a scratch copy that the change builds, passes the tests, and that the demo tells the trees apart.
run: runs the property's quick check against a scratch copy with the patch applied (VF_REPO)."""
import json, os, pathlib, runpy, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = pathlib.Path('/verif')
SEEDED = ROOT / 'seeded'
SCR = pathlib.Path('/tmp/vf_seed')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0')
STABLE = None


def scratch(sid):
    d = SCR / sid
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    subprocess.run(['git', 'clone', '-q', '/repo', str(d / 'repo')], check=True)
    (d / 'pp').mkdir()
    (d / 'pp' / 'dice_calc').symlink_to(d / 'repo' / 'src')
    return d


def env(d):
    return dict(ENV, PYTHONPATH=str(d / 'pp'))


def demo(d, folder):
    r = subprocess.run(['bash', str(folder / 'demo.sh')], cwd=d / 'repo', env=env(d), capture_output=True, text=True, timeout=300)
    return r.returncode, r.stdout + r.stderr


def tests(d):
    x = d / 'junit.xml'
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--ignore=test/test_fetch.py', '-o', 'junit_family=xunit2', '--junitxml=%s' % x, 'test'], cwd=d / 'repo', env=env(d), capture_output=True, text=True)
    out = d / 'o.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', str(out), 'junit:%s' % x], capture_output=True)
    j = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base['stable'] if 'stable' in base else base.get('passed', base))
    passed = set(j['passed'])
    return sorted(set(j.get('failed', [])) & stable) or sorted(stable - passed)


def make(s):
    sid = s['id']
    d = scratch(sid)
    try:
        for f, old, new in s['edits']:
            p = d / 'repo' / f
            t = p.read_text()
            if t.count(old) != 1:
                return sid, 'EDIT matches %d times: %r' % (t.count(old), old[:60])
            p.write_text(t.replace(old, new))
        folder = d / 'seed'
        folder.mkdir()
        patch = subprocess.run(['git', '-C', str(d / 'repo'), 'diff'], capture_output=True, text=True).stdout
        (folder / 'patch.diff').write_text(patch)
        (folder / 'demo.py').write_text(s['demo'].strip() + '\n')
        (folder / 'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (folder / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, indent=1) + '\n')
        rc, out = demo(d, folder)
        if rc == 0:
            return sid, 'DEMO passes with the patch'
        subprocess.run(['git', '-C', str(d / 'repo'), 'stash', '-q'], check=True)
        rc0, out0 = demo(d, folder)
        subprocess.run(['git', '-C', str(d / 'repo'), 'stash', 'pop', '-q'], check=True)
        if rc0 != 0:
            return sid, 'DEMO fails on the unchanged tree: ' + out0[-400:]
        if 'AssertionError' not in out and not s.get('anyerr'):
            return sid, 'DEMO fails oddly: ' + out[-400:]
        bad = tests(d)
        if bad:
            return sid, 'TESTS fail: %s' % bad[:2]
        # only lines of the original repository may be changed
        tgt = SEEDED / sid
        if tgt.exists():
            shutil.rmtree(tgt)
        shutil.copytree(folder, tgt)
        return sid, 'ok'
    except Exception as e:
        return sid, 'EXC %r' % e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def own_lines(sid):
    """Removed lines of the patch that were added by fix commits."""
    base = {}
    bad = []
    f = None
    for l in (SEEDED / sid / 'patch.diff').read_text().splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            base[f] = set(subprocess.run(['git', '-C', '/repo', 'show', '5c77def:' + f], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base[f]:
            bad.append(l)
    return bad


def run(sid, extra=(), tier='quick'):
    d = scratch('run_' + sid)
    try:
        r = subprocess.run(['git', '-C', str(d / 'repo'), 'apply', str(SEEDED / sid / 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            return sid, 'PATCH does not apply', []
        meta = json.load(open(SEEDED / sid / 'meta.json'))
        res = []
        for pid in [meta['property'], *extra]:
            t = time.time()
            r = subprocess.run(['./check.sh', pid, tier], cwd=ROOT, env=dict(os.environ, VF_REPO=str(d / 'repo')), capture_output=True, text=True)
            why = [l for l in r.stdout.splitlines() if l.startswith(('reason', 'failing'))]
            res.append((pid, r.returncode, 'VIOLATION' in r.stdout, round(time.time() - t, 1), ' | '.join(why)[:300] if r.returncode == 1 else r.stdout[-300:] + r.stderr[-300:] if r.returncode else ''))
        return sid, 'ran', res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'make':
        defs = runpy.run_path(sys.argv[2])['SEEDS']
        want = sys.argv[3:]
        defs = [s for s in defs if not want or s['id'] in want]
        with ThreadPoolExecutor(7) as ex:
            for sid, r in ex.map(make, defs):
                print(sid, r, *(['OWN LINES', own_lines(sid)] if r == 'ok' and own_lines(sid) else []), flush=True)
    elif cmd == 'run':
        ids = [a for a in sys.argv[2:] if not a.startswith('+')] or sorted(p.name for p in SEEDED.iterdir())
        extra = [a[1:] for a in sys.argv[2:] if a.startswith('+')]
        for sid in ids:
            _, st, res = run(sid, extra)
            for pid, rc, v, t, why in res:
                print('%-28s %s %s %5.1fs %s' % (sid, pid, 'CAUGHT' if rc == 1 and v else 'MISSED' if rc == 0 else 'ERROR rc=%d' % rc, t, why[:240]), flush=True)
            if not res:
                print(sid, st)
