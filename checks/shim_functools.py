"""
Caches of functions, for symbolic execution. Those of moz.l10n are kept for the length of one
path; those of other packages are left out.
"""
from symx.core import ENGINE


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return cache(maxsize)
    return cache


def cache(fn):
    if not fn.__module__.startswith("moz"):
        fn.cache_clear = lambda: None
        return fn
    state = {"path": None, "items": []}

    def cached(*args, **kwargs):
        if state["path"] is not ENGINE.obs:
            state["path"] = ENGINE.obs
            state["items"] = []
        for a, k, res in state["items"]:
            if a == args and k == kwargs:
                return res
        res = fn(*args, **kwargs)
        state["items"].append((args, kwargs, res))
        return res

    def clear():
        state["items"] = []

    cached.cache_clear = clear
    cached.__wrapped__ = fn
    cached.__name__ = fn.__name__
    cached.__doc__ = fn.__doc__
    cached.__module__ = fn.__module__
    return cached
