"""scipp itself (REPO/src/scipp on the compiled bindings) and helpers for its checks."""
import itertools
import warnings

warnings.filterwarnings('ignore')

import numpy as np  # noqa: E402
import scipp as sc  # noqa: E402

np.seterr(all='ignore')
ERRORS = (RuntimeError, ValueError, TypeError, IndexError, KeyError)


def var(dims, values, unit=None, dtype=None, variances=None):
    if len(dims) == 0:
        return sc.scalar(values[()] if isinstance(values, np.ndarray) else values, unit=unit, dtype=dtype,
                         variance=None if variances is None else variances[()])
    return sc.array(dims=list(dims), values=values, unit=unit, dtype=dtype, variances=variances)


def indices(sizes):
    """All positions of an array with the given {dim: size}, as dicts."""
    for t in itertools.product(*(range(n) for n in sizes.values())):
        yield dict(zip(sizes, t, strict=True))


def arr(v):
    """The values of a variable as an array of its shape."""
    if v.ndim == 0:
        return np.asarray(v.value)
    if str(v.dtype) == 'string':
        return np.array(list(v.values), dtype=object).reshape(v.shape)
    return v.values


def at(v, where):
    """The element of a variable at {dim: index}; dims it does not have are ignored."""
    return arr(v)[tuple(where[d] for d in v.dims)]


def content(x, where):
    """The bin at a position, as a plain data array."""
    for d in x.dims:
        x = x[d, where[d]]
    return x.value


def close(a, b, tol=1e-9):
    return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=tol, atol=tol, equal_nan=True)


def show(x):
    try:
        return repr(x)
    except Exception as e:  # noqa: BLE001
        return f'<no text: {e}>'
