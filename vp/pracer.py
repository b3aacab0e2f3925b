"""Race detector for the numba kernels (prange loops).

Install before the code under test is imported, in a process with NUMBA_DISABLE_JIT=1: `numba.njit` then leaves
the kernels as plain Python, `numba.prange` becomes an iterator that announces the current iteration (and can
visit the iterations in a random order), and the arrays handed to or created by a kernel become TracedArrays that
log which elements each iteration reads and writes.  Two iterations of one parallel loop may run concurrently, so
an element written by one iteration and read or written by another one is a data race.
"""
import functools
import random
import sys

import numpy as np

STATE = {"iter": None, "mode": None, "rng": random.Random(1), "writes": None, "reads": None, "where": "?", "depth": 0}
RACES = {}
COUNTS = {"loops": 0, "iterations": 0, "accesses": 0, "multi": 0}
KERNELS = set()


def _addresses(v):
    """Byte addresses of the elements of an array."""
    base = v.__array_interface__["data"][0]
    a = np.zeros(v.shape, dtype=np.int64)
    for ax, (n, st) in enumerate(zip(v.shape, v.strides)):
        sh = [1] * v.ndim
        sh[ax] = n
        a = a + (np.arange(n) * st).reshape(sh)
    return (a + base).ravel()


def _view(arr, key):
    """The part of arr selected by a basic index as an array (never a copy), None for advanced indexing."""
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    used = 0
    for k in key:
        if isinstance(k, (int, np.integer)):
            n = arr.shape[used]
            k = int(k)
            if not -n <= k < n:
                raise IndexError(f"index {k} is out of bounds for axis {used} with size {n}")
            k %= n
            out.append(slice(k, k + 1))
            used += 1
        elif isinstance(k, slice):
            out.append(k)
            used += 1
        else:
            return None
    return np.ndarray.__getitem__(arr.view(np.ndarray), tuple(out))


def _elements(arr, key):
    """Addresses of the selected elements and an array of their current values."""
    base = arr.view(np.ndarray)
    if key is None:
        return _addresses(base), np.ravel(base)
    v = _view(base, key)
    if v is None:
        return np.ravel(_addresses(base).reshape(base.shape)[key]), np.ravel(base[key])
    return _addresses(v), np.ravel(v)


def _read(arr, key=None):
    it = STATE["iter"]
    if it is None:
        return
    ad = _elements(arr, key)[0]
    COUNTS["accesses"] += len(ad)
    W, R = STATE["writes"], STATE["reads"]
    for a in ad.tolist():
        w = W.get(a)
        if w is not None and w[0] != it:
            _race("write-read", w[0], it)
        r = R.get(a)
        if r is None:
            R[a] = it
        elif r != it:
            R[a] = -1  # read by several iterations


def _write(arr, key, do):
    """Perform the write and log it. Writing the value that is already there is no conflict (all orders give the same)."""
    it = STATE["iter"]
    if it is None:
        do()
        return
    ad, old = _elements(arr, key)
    old = old.copy()
    do()
    new = _elements(arr, key)[1]
    COUNTS["accesses"] += len(ad)
    W, R = STATE["writes"], STATE["reads"]
    for a, o, n in zip(ad.tolist(), old.tolist(), new.tolist()):
        same = o == n or (o != o and n != n)
        w = W.get(a)
        if w is not None and w[0] != it and not same:
            _race("write-write", w[0], it)
        r = R.get(a)
        if r is not None and r != it and not same:
            _race("read-write", r, it)
        if w is None or not same:
            W[a] = (it,)


def _race(kind, i, j):
    if kind == "read-write" and i == -1:
        i = "several"
    k = (kind, STATE["where"])
    if k not in RACES:
        RACES[k] = f"{kind} conflict between iterations {i} and {j} of a parallel loop in {STATE['where']}"


class TracedArray(np.ndarray):
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, key)
        if not isinstance(r, np.ndarray):
            _read(self, key)
            return r
        if STATE["iter"] is not None and not _shares(self, r):
            _read(self, key)  # advanced indexing copies
            return r.view(np.ndarray)
        return r

    def __setitem__(self, key, val):
        if isinstance(val, TracedArray):
            _read(val)
        if isinstance(key, TracedArray):
            _read(key)
            key = key.view(np.ndarray)
        _write(self, key, lambda: np.ndarray.__setitem__(self, key, val))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = []
        for x in inputs:
            if isinstance(x, TracedArray):
                _read(x)
                x = x.view(np.ndarray)
            ins.append(x)
        if out is not None:
            o2 = []
            for x in out:
                o2.append(x.view(np.ndarray) if isinstance(x, TracedArray) else x)
            kw["out"] = tuple(o2)
            if isinstance(out[0], TracedArray):
                _write(out[0], None, lambda: getattr(ufunc, method)(*ins, **kw))
            else:
                getattr(ufunc, method)(*ins, **kw)
            return out[0]
        return getattr(ufunc, method)(*ins, **kw)

    def __array_function__(self, func, types, args, kwargs):
        def strip(x):
            if isinstance(x, TracedArray):
                _read(x)
                return x.view(np.ndarray)
            if isinstance(x, (list, tuple)):
                return type(x)(strip(y) for y in x)
            return x

        return func(*[strip(a) for a in args], **{k: strip(v) for k, v in kwargs.items()})

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _meth(name):  # noqa: N805
        f = getattr(np.ndarray, name)

        def g(self, *a, **k):
            _read(self)
            r = f(self.view(np.ndarray), *a, **k)
            # shared by the iterations if created outside of them
            return r.view(TracedArray) if isinstance(r, np.ndarray) and STATE["iter"] is None and STATE.get("in_kernel") else r

        return g

    for _n in ("sum", "mean", "min", "max", "any", "all", "copy", "argmax", "argmin", "cumsum", "prod", "astype", "nonzero", "clip", "dot"):
        locals()[_n] = _meth(_n)
    del _n

    def fill(self, v):
        _write(self, None, lambda: self.view(np.ndarray).fill(v))


def _shares(a, b):
    return np.may_share_memory(a.view(np.ndarray), b.view(np.ndarray))


def prange(*args):
    idx = list(range(*args))
    if STATE["depth"] or STATE["mode"] is None:
        yield from idx
        return
    if STATE["mode"] == "shuffle":
        STATE["rng"].shuffle(idx)
    elif STATE["mode"] == "reverse":
        idx.reverse()
    f = sys._getframe(1)
    STATE["where"] = f"{f.f_code.co_filename.rsplit('/', 1)[-1]}:{f.f_code.co_name}"
    STATE["writes"], STATE["reads"] = {}, {}
    STATE["depth"] = 1
    COUNTS["loops"] += 1
    COUNTS["multi"] += len(idx) > 1
    KERNELS.add(STATE["where"])
    try:
        for i in idx:
            STATE["iter"] = i
            COUNTS["iterations"] += 1
            yield i
    finally:
        STATE["iter"] = None
        STATE["depth"] = 0


class NpProxy:
    """numpy as seen by the kernels: new arrays are traced as well."""

    def __getattr__(self, name):
        f = getattr(np, name)
        if name in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like", "arange", "array"):
            @functools.wraps(f)
            def g(*a, **k):
                a = [x.view(np.ndarray) if isinstance(x, TracedArray) else x for x in a]
                r = f(*a, **k)
                # (arrays created within an iteration are private to it, and their memory is reused)
                return r.view(TracedArray) if STATE.get("in_kernel") and STATE["iter"] is None else r

            return g
        return f


def install(mode, seed=1, trace=True):
    """Patch numba; must run before openamundsen is imported."""
    import numba

    STATE["mode"] = mode
    STATE["rng"] = random.Random(seed)

    def decorate(f):
        @functools.wraps(f)
        def kernel(*a, **k):
            nested = STATE.get("in_kernel")
            if not trace or nested:
                return f(*a, **k)
            STATE["in_kernel"] = True
            try:
                r = f(*[x.view(TracedArray) if type(x) is np.ndarray else x for x in a],
                      **{n: x.view(TracedArray) if type(x) is np.ndarray else x for n, x in k.items()})
            finally:
                STATE["in_kernel"] = False
            if isinstance(r, TracedArray):
                r = r.view(np.ndarray)
            elif isinstance(r, tuple):
                r = tuple(x.view(np.ndarray) if isinstance(x, TracedArray) else x for x in r)
            return r

        return kernel

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return decorate(a[0])
        return decorate

    numba.njit = njit
    numba.jit = njit
    numba.prange = prange


def proxy_numpy():
    """Give the modules with kernels the numpy proxy; call after the import."""
    for nm, m in list(sys.modules.items()):
        if nm.startswith("openamundsen") and getattr(m, "np", None) is np and ("njit" in vars(m) or "numba" in vars(m) or "prange" in vars(m)):
            m.np = NpProxy()
