"""Numbers that only know arithmetic: expression trees for the monitors.

A tree cannot be compared, converted or tested for truth, so code that does more
than arithmetic with its arguments stops with an error, and evaluating the tree
shows what was computed.
"""

import operator
from fractions import Fraction

import numpy as np

OPS = {
    "add": operator.add,
    "sub": operator.sub,
    "mul": operator.mul,
    "div": operator.truediv,
    "pow": operator.pow,
}
SEEN = {}


class OnlyArithmetic(TypeError):
    pass


class Sym:
    """An expression over named variables; numpy treats it as an object scalar."""

    __hash__ = object.__hash__
    whole_arrays = False

    def __init__(self, op, *args):
        self.op, self.args = op, args
        SEEN[op] = SEEN.get(op, 0) + 1

    def _make(self, op, *args):
        return type(self)(op, *args)

    def __repr__(self):
        if self.op == "var":
            return str(self.args[0])
        return f"{self.op}({', '.join(map(repr, self.args))})"

    def _refuse(self, *a, **k):
        raise OnlyArithmetic(f"{type(self).__name__} has arithmetic only")

    __bool__ = __float__ = __int__ = __index__ = __len__ = __iter__ = _refuse
    __lt__ = __le__ = __gt__ = __ge__ = __complex__ = _refuse

    def __eq__(self, other):
        # like columns and symbols: not an answer but another expression
        return self._make("eq", self, other)

    def __ne__(self, other):
        return self._make("ne", self, other)

    def __neg__(self):
        return self._make("neg", self)

    def __pos__(self):
        return self

    def value(self, env, memo=None):
        memo = {} if memo is None else memo
        if id(self) in memo:
            return memo[id(self)]
        if self.op == "var":
            out = env[self.args[0]]
        elif self.op == "call":
            func, *args = self.args
            out = func(*[value(a, env, memo) for a in args])
        elif self.op == "neg":
            out = -value(self.args[0], env, memo)
        else:
            a, b = [value(a, env, memo) for a in self.args]
            out = OPS[self.op](a, b)
        memo[id(self)] = out
        return out


def _binary(op):
    def forward(self, other):
        if isinstance(other, np.ndarray) and not self.whole_arrays:
            return NotImplemented  # numpy goes through the elements
        return self._make(op, self, other)

    def reflected(self, other):
        return self._make(op, other, self)

    return forward, reflected


for _name, _op in [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("pow", "pow")]:
    _f, _r = _binary(_op)
    setattr(Sym, f"__{_name}__", _f)
    setattr(Sym, f"__r{_name}__", _r)


class Deferred(Sym):
    """The same for a type that numpy arrays leave the arithmetic to."""

    __array_ufunc__ = None
    whole_arrays = True


def value(x, env, memo=None):
    """What a parameter is when the variables have the values of env."""
    memo = {} if memo is None else memo
    if isinstance(x, Sym):
        return x.value(env, memo)
    if isinstance(x, np.ndarray) and x.dtype == object:
        cells = [value(v, env, memo) for v in x.reshape(-1)]
        shape = np.broadcast_shapes(*[np.shape(c) for c in cells]) if cells else ()
        assert shape == (), f"an element of an array of expressions is an array: {x}"
        return np.array([float(c) for c in cells]).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return np.array([value(v, env, memo) for v in x], dtype=float)
    if isinstance(x, Fraction):
        return float(x)
    return x


def contains(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(contains(v) for v in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(contains(v) for v in x)
    return False


def objects(names, shape, cls=Sym):
    """An object array of variables named after their position."""
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = cls("var", (names, i))
    return out
