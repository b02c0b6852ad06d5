"""scipy on the interpreter that has none: calls are answered by the real
scipy in a helper process (see scipy_helper.py)."""
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('scipy')
__version__ = '1.0'
