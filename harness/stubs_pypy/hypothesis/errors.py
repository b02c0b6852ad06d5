from _stubmissing import module_getattr as _mg
__getattr__ = _mg('hypothesis.errors')


class HypothesisException(Exception):
    pass


class InvalidArgument(HypothesisException, TypeError):
    pass


class UnsatisfiedAssumption(HypothesisException):
    pass
