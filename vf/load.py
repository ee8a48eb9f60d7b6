"""Imports the code under test (package dice_calc) straight from /repo's working tree, never from bytecode caches."""
import importlib.util
import logging
import os
import sys

REPO = os.environ.get('VF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'
_SITE = '/opt/venv/lib/python3.12/site-packages'  # only for RestrictedPython, a runtime dependency of the repository
if os.path.isdir(_SITE) and _SITE not in sys.path:
    sys.path.append(_SITE)


def load():
    if 'dice_calc' not in sys.modules:
        src = os.path.join(REPO, 'src')
        spec = importlib.util.spec_from_file_location('dice_calc', os.path.join(src, '__init__.py'), submodule_search_locations=[src])
        mod = importlib.util.module_from_spec(spec)
        sys.modules['dice_calc'] = mod
        spec.loader.exec_module(mod)
        logging.getLogger('dice_calc').setLevel(logging.CRITICAL + 1)
    return sys.modules['dice_calc']


D = load()
