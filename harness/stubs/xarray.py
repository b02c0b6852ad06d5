"""traittypes imports xarray for traits the code under test does not use."""
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('xarray')


class Dataset(object):
    pass


class DataArray(object):
    pass


def set_option(*a, **k):
    pass
