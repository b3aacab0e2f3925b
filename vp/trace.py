"""Step trace monitor: runs a real model and hands every step's before/after state to an observer."""
import numpy as np


class Snap(dict):
    """Deep copy of all state variables: snap['snow.swe'] etc."""

    def __getattr__(self, k):
        raise AttributeError(k)


def variables(cont):
    """Names of the state variables of a container."""
    meta = getattr(cont, "_meta", None)
    if meta is not None:
        return list(meta)
    return [k for k in cont if isinstance(cont[k], np.ndarray)]


def snapshot(model, cats=None):
    s = Snap()
    for cat in model.state.categories:
        if cats is not None and cat not in cats:
            continue
        cont = model.state[cat]
        for var in variables(cont):
            s[f"{cat}.{var}"] = np.array(cont[var], copy=True)
    return s


def iterate(model, cats=None, max_steps=None):
    """Yield (model, pre, post) per executed time step."""
    n = len(model.dates) if max_steps is None else min(max_steps, len(model.dates))
    pre = snapshot(model, cats)
    for _ in range(n):
        model.run_single()
        post = snapshot(model, cats)
        yield pre, post
        pre = post


class PhaseTap:
    """Wrap methods of a model component so that an observer sees state before and after the call."""

    def __init__(self, model, obj, names, cats=("snow", "surface")):
        self.model, self.cats = model, cats
        self.log = {}
        for nm in names:
            f = getattr(obj, nm, None)
            if callable(f):
                setattr(obj, nm, self._wrap(nm, f))

    def _wrap(self, nm, f):
        def g(*a, **k):
            pre = snapshot(self.model, self.cats)
            r = f(*a, **k)
            self.log[nm] = (pre, snapshot(self.model, self.cats))
            return r

        return g


def tot(a):
    """Sum over layers."""
    return a.sum(axis=0)
