"""Imports that every process shares, and recording wrappers of the public API."""

import functools
import inspect


def preload():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import scipy.special  # noqa: F401
    import scipy.stats  # noqa: F401

    import conjugate.distributions  # noqa: F401
    import conjugate.models  # noqa: F401


def public_models():
    """Name to function of the public models and predictives."""
    import conjugate.models as m

    out = {}
    for name, f in vars(m).items():
        if (
            inspect.isfunction(f)
            and not name.startswith("_")
            and not name.startswith("get_")
            and not name.startswith("validate_")
            and f.__module__ == m.__name__
        ):
            out[name] = f
    return out


class Recorder:
    """Replaces functions of modules by wrappers that report every call.

    sink(event) gets {"fn", "args", "kwargs", "result" | "error", "before"} after
    the call has returned; it runs at the call boundary and must not raise.
    """

    def __init__(self, sink, before=None):
        self.sink = sink
        self.before = before
        self.undo = []

    def wrap_function(self, module, name):
        func = getattr(module, name)
        sink, before = self.sink, self.before

        @functools.wraps(func)
        def wrapper(*args, **kwargs):
            pre = before(args, kwargs) if before else None
            try:
                result = func(*args, **kwargs)
            except Exception as e:
                sink(dict(fn=name, args=args, kwargs=kwargs, error=e, before=pre))
                raise
            sink(dict(fn=name, args=args, kwargs=kwargs, result=result, before=pre))
            return result

        setattr(module, name, wrapper)
        self.undo.append((module, name, func))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for module, name, func in reversed(self.undo):
            setattr(module, name, func)
