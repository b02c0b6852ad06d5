from _stubmissing import module_getattr as _mg
__getattr__ = _mg('matplotlib')
