"""Runner: forks one process per unit of work, drives Hypothesis with a fixed seed, shrinks, replays, writes evidence."""
import contextlib
import hashlib
import io
import json
import os
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The machinery itself is at fault."""


class Skip(Exception):
    """The case is outside the bounds (too expensive); counted, never hidden."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Test:
    def __init__(self, name, strategy, check, nontrivial=None, label=None, quick=400, thorough=8000, shards=8, cases=None, reduce=None):
        """strategy: callable () -> hypothesis strategy of JSON-able cases (or None with cases=callable(tier) -> iterable).
        check(case) raises Violation.  nontrivial(case) -> bool.  label(case) -> iterable of class names."""
        self.name, self.strategy, self.check = name, strategy, check
        self.nontrivial = nontrivial or (lambda case: True)
        self.label = label or (lambda case: ())
        self.n = {'quick': quick, 'thorough': thorough}
        self.shards = shards
        self.cases = cases
        self.reduce = reduce  # case -> iterable of smaller cases, tried greedily on a failure


def jdump(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True, separators=(',', ':'))


def jload(s):
    return json.loads(s)


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:7], 'big')


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []

    def add(self, test, case):
        self.evaluations += 1
        for l in test.label(case):
            self.labels[l] = self.labels.get(l, 0) + 1
        if test.nontrivial(case):
            h = hashlib.sha1(jdump(case).encode()).hexdigest()[:16]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.hashes) in (1, 12, 40, 90) and len(jdump(case)) < 3000:
                    self.samples.append({'test': test.name, 'case': case})


def is_harness_fault(exc):
    """An exception raised inside the reference model or the generators, with no frame of the code under test above it."""
    if isinstance(exc, HarnessError):
        return True
    tb = traceback.extract_tb(exc.__traceback__)
    if not tb:
        return True
    if isinstance(exc, MemoryError) and not tb[-1].filename.startswith(os.environ.get('VF_REPO', '/repo') + '/'):
        return True
    last = tb[-1].filename
    return os.path.basename(last) in ('ref.py', 'gen.py', 'anyref.py', 'core.py', 'lang.py', 'langgen.py', 'cast.py') and last.startswith(HERE)


def run_case(test, case):
    """Runs one case. Raises Violation / Skip / HarnessError only."""
    from .load import D
    from . import sut
    D.settings_reset()
    sut.fresh()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test.check(case)
    except CaseTimeout as e:
        tb = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith(os.environ.get('VF_REPO', '/repo') + '/') for f in tb):
            raise Violation('no answer within %d s [%s]' % (CASE_LIMIT, _where(e)))
        raise Skip('the model took too long')
    except (Violation, Skip, HarnessError):
        raise
    except Exception as e:  # noqa
        if is_harness_fault(e):
            raise HarnessError('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
        raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:300], _where(e)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        D.settings_reset()


CASE_LIMIT = 120
KNOWN = set()  # (test, case, message) of the recorded findings; only exactly these are not reported again


class CaseTimeout(BaseException):
    pass


def _on_alarm(*_):
    raise CaseTimeout()


def shrink_more(test, fail, seconds=40):
    """Greedy structural reduction of a failing case with the test's own candidates."""
    end = time.time() + seconds
    cur, progress = fail, True
    while progress and time.time() < end:
        progress = False
        for cand in test.reduce(cur['case']):
            if time.time() > end:
                break
            cand = jload(jdump(cand))
            try:
                run_case(test, cand)
            except Violation as v:
                cur, progress = dict(cur, case=cand, msg=str(v)), True
                break
            except Exception:  # noqa
                pass
    return cur


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in list(reversed(tb))[:4])


def run_unit(test, seed, n, tier, shard, stop_at=None):
    """Returns a dict with stats and possibly a failure; runs in a forked child."""
    st = Stats()
    out = {'fail': None, 'error': None, 'complete': True}
    last = {}
    t_end = stop_at or float('inf')
    try:
        if test.cases is not None:
            for i, case in enumerate(test.cases(tier)):
                if i % test.shards != shard:
                    continue
                if time.time() > t_end:
                    out['complete'] = False
                    break
                case = jload(jdump(case))
                st.add(test, case)
                try:
                    run_case(test, case)
                except Skip:
                    st.skipped += 1
                except Violation as v:
                    if (test.name, jdump(case), str(v)) in KNOWN:
                        continue
                    out['fail'] = {'case': case, 'msg': str(v)}
                    break
        else:
            import hypothesis
            from hypothesis import given, settings, seed as hseed, Phase, HealthCheck
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 40

            @hseed(seed)
            @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)
            @given(test.strategy())
            def t(case):
                case = jload(jdump(case))
                if 'v' not in last and time.time() > t_end:
                    out['complete'] = False
                    return
                if 'v' not in last:
                    st.add(test, case)
                try:
                    run_case(test, case)
                except Skip:
                    st.skipped += 1
                except Violation as v:
                    last['v'] = {'case': case, 'msg': str(v)}
                    last.setdefault('first', last['v'])
                    raise
            try:
                t()
            except Violation:
                out['fail'] = last['v']
            except HarnessError:
                raise
            except BaseException as e:  # Flaky and friends: the failure depended on the history of the process
                if 'v' not in last:
                    raise
                out['fail'] = dict(last['first'], note='not reproducible alone in-process: %s' % type(e).__name__)
        if out['fail'] and test.reduce and 'note' not in out['fail']:
            out['fail'] = shrink_more(test, out['fail'])
    except HarnessError as e:
        out['error'] = str(e)
    except BaseException as e:  # noqa
        out['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    out.update(evaluations=st.evaluations, skipped=st.skipped, hashes=sorted(st.hashes), labels=st.labels, samples=st.samples)
    return out


def fork_call(fn):
    """Runs fn() in a forked child; returns (pid, fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            os.setpgid(0, 0)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:  # noqa
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def fork_wait(fn, timeout):
    pid, fd = fork_call(fn)
    buf, end = b'', time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
            return None
        if select.select([fd], [], [], left)[0]:
            b = os.read(fd, 1 << 16)
            if not b:
                break
            buf += b
    os.close(fd)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else None


def replay_case(test, case):
    def fn():
        try:
            run_case(test, case)
        except Violation as v:
            return {'v': str(v)}
        except (Skip, HarnessError) as e:
            return {'v': None, 'e': str(e)}
        return {'v': None}
    return fork_wait(fn, 300)


def do_replay(tests, rep):
    test = {t.name: t for t in tests}[rep['test']]
    if rep['kind'] == 'case':
        r = replay_case(test, rep['case'])
    else:
        r = fork_wait(lambda: {'v': (run_unit(test, rep['seed'], rep['n'], rep['tier'], rep['shard'])['fail'] or {}).get('msg')}, 800)
    return r and r.get('v')


def run_property(pid, mod, tier, seed, only=None):
    t0 = time.time()
    budget = float(os.environ.get('VF_BUDGET', {'quick': 420, 'thorough': 780}[tier]))
    tests = [t for t in mod.TESTS if only is None or t.name in only]
    KNOWN.update((k['test'], jdump(k['case']), k['msg']) for k in load_known(pid))
    scale = float(os.environ.get('VF_SCALE', '1')) * (getattr(mod, 'QUICK_SCALE', 1) if tier == 'quick' else 1)
    units = []
    for t in tests:
        for s in range(t.shards):
            n = max(1, int(t.n[tier] * scale / t.shards))
            units.append((t, s, derive(seed, pid, t.name, s), n))
    units.sort(key=lambda u: u[1])
    nproc = min(8, os.cpu_count() or 1)
    pending, running = list(units), {}
    results, failures, errors = [], [], []
    incomplete = 0
    stop_at = t0 + budget
    while pending or running:
        while pending and len(running) < nproc and not failures and not errors:
            u = pending.pop(0)
            t, s, sd, n = u
            p, fd = fork_call(lambda: run_unit(t, sd, n, tier, s, stop_at))
            running[fd] = (p, u, [])
        if failures or errors:
            pending = []
        ready = select.select(list(running), [], [], 5)[0] if running else []
        for fd in ready:
            p, u, buf = running[fd]
            b = os.read(fd, 1 << 16)
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(p, 0)
            del running[fd]
            data = b''.join(buf)
            if not data:
                errors.append('unit %s/%d died without a result' % (u[0].name, u[1]))
                continue
            r = json.loads(data)
            results.append((u, r))
            incomplete += not r['complete']
            if r['error']:
                errors.append('%s/%d: %s' % (u[0].name, u[1], r['error']))
            elif r['fail']:
                failures.append((u, r['fail']))
        grace = 90 if not failures else 0
        if running and (time.time() > stop_at + grace or (failures and not errors)):
            if failures:  # let nothing else run on: one confirmed failure is enough
                pass
            for fd, (p, u, _) in list(running.items()):
                with contextlib.suppress(ProcessLookupError):
                    os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                os.close(fd)
                incomplete += 1
                del running[fd]
    # confirm failures in a fresh process
    viol = []
    for (t, s, sd, n), f in failures:
        os.makedirs(REPLAYS, exist_ok=True)
        rep = {'property': pid, 'test': t.name, 'kind': 'case', 'case': f['case'], 'msg': f['msg']}
        r = replay_case(t, f['case'])
        if not (r and r.get('v')):
            rep = {'property': pid, 'test': t.name, 'kind': 'unit', 'seed': sd, 'n': n, 'tier': tier, 'shard': s, 'case': f['case'],
                   'msg': f['msg'] + ' (depends on earlier operations in the same process: replays the whole unit)'}
        path = os.path.join(REPLAYS, '%s-%s-%s.json' % (pid, t.name, hashlib.sha1(jdump(rep).encode()).hexdigest()[:10]))
        with open(path, 'w') as fh:
            json.dump(rep, fh, indent=1)
        viol.append((path, rep))
        break
    # known findings
    known = []
    for k in load_known(pid):
        t = {x.name: x for x in mod.TESTS}.get(k['test'])
        if t is None:
            continue
        r = replay_case(t, k['case'])
        if r and r.get('v') == k['msg']:
            known.append(k)
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    hashes, labels, samples, ev, skipped = set(), {}, [], 0, 0
    per = {}
    for (t, s, sd, n), r in results:
        ev += r['evaluations']
        skipped += r['skipped']
        hs = set(t.name + h for h in r['hashes'])
        hashes |= hs
        d = per.setdefault(t.name, {'evaluations': 0, 'nontrivial': set(), 'classes': {}})
        d['evaluations'] += r['evaluations']
        d['nontrivial'] |= hs
        for k, v in r['labels'].items():
            d['classes'][k] = d['classes'].get(k, 0) + v
        if r['samples'] and sum(x['test'] == t.name for x in samples) < 2:
            samples.extend(r['samples'][-1:])
    for d in per.values():
        d['nontrivial'] = len(d['nontrivial'])
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': ev, 'distinct_nontrivial': len(hashes), 'rule': mod.RULE, 'samples': samples[:12],
                     'per_test': per, 'skipped_out_of_bounds': skipped, 'units': len(units), 'units_cut_by_time_budget': incomplete},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %d/%d units cut, %.1fs' % (pid, tier, seed, ev, len(hashes), skipped, incomplete, len(units), time.time() - t0))
    if os.environ.get('VF_VERBOSE'):
        print(json.dumps(per, indent=1))
    for path, rep in viol:
        print('failing case (%s): %s' % (rep['test'], jdump(rep['case'])[:2000]))
        print('reason: %s' % rep['msg'][:2000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if viol:
        return 1
    if errors:
        for e in errors[:3]:
            print('HARNESS ERROR ' + e, file=sys.stderr)
        return 2
    return 0


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [k for k in json.load(fh).get('known', []) if k['property'] == pid]
