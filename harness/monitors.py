"""Online monitors: wrap functions of the code under test so that a contract sees every call made while
real workloads run.  A function that no longer exists under its name is simply not observed."""
import contextlib, functools, copy
import numpy as np


def _snap(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, list) and x and all(isinstance(y, np.ndarray) for y in x):
        return [y.copy() for y in x]
    return x


@contextlib.contextmanager
def watch(*specs):
    """specs: (owner, name, contract); contract(args, kwargs, result) runs after the call with the
    array arguments as they were before the call.  owner: module or class."""
    saved = []
    depth = [0]
    try:
        for owner, name, contract in specs:
            orig = getattr(owner, name, None)
            if orig is None:
                continue

            def make(orig, contract):
                @functools.wraps(orig)
                def wrapper(*args, **kwargs):
                    if depth[0]:
                        return orig(*args, **kwargs)
                    a0 = [_snap(x) for x in args]
                    k0 = {k: _snap(x) for k, x in kwargs.items()}
                    res = orig(*args, **kwargs)
                    depth[0] += 1
                    try:
                        contract(a0, k0, res)
                    finally:
                        depth[0] -= 1
                    return res
                return wrapper
            saved.append((owner, name, orig))
            setattr(owner, name, make(orig, contract))
        yield
    finally:
        for owner, name, orig in reversed(saved):
            setattr(owner, name, orig)
