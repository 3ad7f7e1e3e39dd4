"""The checks, one module per property.

Numbers that are too small to be represented with full precision (subnormal,
below 2.2e-308) are not generated: the numba functions are compiled with
fastmath, which leaves open whether they count as zero.
"""
from hypothesis import strategies as _st

_floats = _st.floats


def floats(*args, **kwargs):
    kwargs.setdefault("allow_subnormal", False)
    return _floats(*args, **kwargs)


_st.floats = floats
