"""traittypes imports pandas for traits the code under test does not use."""
from _stubmissing import module_getattr as _mg
__getattr__ = _mg('pandas')


class Series(object):
    pass


class DataFrame(object):
    pass


def set_option(*a, **k):
    pass
