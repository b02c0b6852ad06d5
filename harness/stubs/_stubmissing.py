"""Raised when the code under test asks a stand-in for something it lacks.

It is a harness limitation, never a verdict: the worker reports it as an
error of the check (exit 2), not as a violation."""


class StubMissing(BaseException):
    pass


def module_getattr(modname):
    def __getattr__(name):
        if name.startswith('__'):
            raise AttributeError(name)
        import importlib.util
        import sys
        if hasattr(sys.modules[modname], '__path__') and \
                importlib.util.find_spec(modname + '.' + name):
            raise AttributeError(name)   # a submodule not imported yet
        raise StubMissing('%s.%s is not provided by the stand-in'
                          % (modname, name))
    return __getattr__
