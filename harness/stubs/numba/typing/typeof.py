from numba import typeof  # noqa: F401
