"""Harness registry.  Harness modules import only the standard library, so that
the same function runs symbolically (python3-vt) and concretely (the project's
own interpreters)."""

REG = {}


class Harness(object):
    def __init__(self, prop, name, fn, params, quick, thorough, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.params = params          # callable(tier) -> list of JSON params
        self.opts = opts


def harness(prop, params=None, **opts):
    def deco(fn):
        name = '%s.%s' % (prop, fn.__name__)
        p = params if callable(params) else (lambda tier, _p=params: list(_p) if _p is not None else [None])
        REG[name] = Harness(prop, name, fn, p, None, None, opts)
        return fn
    return deco
