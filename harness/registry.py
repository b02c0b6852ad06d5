"""Which generated tests decide which property."""
import importlib
import pkgutil

import gens

ASSUMPTIONS = [
    'numba-compiled functions compute what their Python source says; the '
    'checks execute that source.',
    'cell_lists, shapely, scikit-image, scikit-fmm and matplotlib are not '
    'installed: stand-ins in harness/stubs honour their documented contracts; '
    'scipy is the real one, in a helper process.',
]
PROPS = {}
for _m in sorted(m.name for m in pkgutil.iter_modules(gens.__path__)):
    _mod = importlib.import_module('gens.' + _m)
    for _p, _tests in getattr(_mod, 'PROPS', {}).items():
        for _t in _tests:
            PROPS.setdefault(_p, []).append((_m, _t))
