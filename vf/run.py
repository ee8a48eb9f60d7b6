import importlib
import json
import os
import resource
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B', '-m', 'vf.run'] + sys.argv[1:])


def main():
    args = sys.argv[1:]
    sys.setrecursionlimit(3000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass
    from . import core
    if args[0] == '--replay':
        with open(args[1]) as fh:
            rep = json.load(fh)
        mod = importlib.import_module('vf.checks.' + rep['property'].lower())
        msg = core.do_replay(mod.TESTS, rep)
        if msg:
            print('reason: ' + msg)
            print('VIOLATION property=%s replay=%s' % (rep['property'], os.path.abspath(args[1])))
            return 1
        print('the case passes')
        return 0
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = args[2:] or None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        mod = importlib.import_module('vf.checks.' + pid.lower())
    except Exception as e:  # the code under test does not even import
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if any('/src/' in f.filename and 'vf' not in f.filename.split('/') for f in tb):
            traceback.print_exc()
            os.makedirs(core.REPLAYS, exist_ok=True)
            path = os.path.join(core.REPLAYS, pid + '-import.txt')
            with open(path, 'w') as fh:
                fh.write(traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        raise
    return core.run_property(pid, mod, tier, seed, only)


if __name__ == '__main__':
    sys.exit(main())
