from _stubmissing import module_getattr as _mg
__getattr__ = _mg('numba.typing')
from numba.typing import typeof  # noqa: E402,F401
