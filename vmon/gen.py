"""Generators of hyperparameters and data in all the forms users pass them."""

import numpy as np

LAYOUTS = ["pyscalar", "npscalar", "zerod", "vec", "vec", "bcast", "bcast", "size1"] * 2 + ["long", "cube"]


class Layout:
    """Decides the container and the shape of every argument of one call."""

    def __init__(self, rng, kind=None, flags=True):
        self.rng = rng
        self.flags = flags
        self.kind = kind or LAYOUTS[rng.integers(len(LAYOUTS))]
        n, m = int(rng.integers(2, 6)), int(rng.integers(2, 4))
        self.shapes = {
            "pyscalar": [()],
            "npscalar": [()],
            "zerod": [()],
            "vec": [(n,), (n,), ()],
            "bcast": [(m, n), (m, 1), (n,), (1, n), (), (1,)],
            "size1": [(1,), ()],
            "long": [(n * m * 6 + 1,), ()],
            "cube": [(n, m, 3), (m, 3), (n, 1, 3), (3,), (), (1, m, 1)],
        }[self.kind]

    def flag(self, value):
        """A truth value, now and then of numpy or an integer."""
        mode = self.rng.integers(8) if self.flags else 9
        return np.bool_(value) if mode == 0 else int(value) if mode == 1 else bool(value)

    def shape(self):
        return self.shapes[self.rng.integers(len(self.shapes))]

    def wrap(self, value, scalar_kind=None):
        """The value in the container of the layout."""
        value = np.asarray(value)
        if value.ndim:
            return memory(self.rng, value)
        kind = scalar_kind or self.kind
        if kind == "zerod":
            return value
        if kind == "npscalar":
            return value[()]
        return value.item()

    def value(self, sampler):
        """A fresh argument drawn elementwise with sampler(rng, shape)."""
        return self.wrap(sampler(self.rng, self.shape()))


def memory(rng, value):
    """The same array, now and then laid out differently in memory or read only."""
    mode = rng.integers(24)
    if mode == 0:
        return np.asfortranarray(value)
    if mode == 1:  # every other element of a larger array
        wide = np.repeat(value, 2, axis=-1)
        wide[..., 1::2] = 0
        return wide[..., ::2]
    if mode == 2:  # backwards in memory
        return value[::-1].copy()[::-1]
    if mode == 3:
        value = value.copy()
        value.flags.writeable = False
        return value
    return value


def few(rng, lo, hi, far):
    """A number of things, from lo to hi - 1, and now and then up to far."""
    if rng.integers(10):
        return int(rng.integers(lo, hi))
    return int(np.exp(rng.uniform(np.log(max(hi, 1)), np.log(far + 1))))


def seed(rng):
    """An integer seed, now and then one that people write or at an end of the range."""
    if rng.integers(3) == 0:
        return int(rng.choice([0, 1, 42, 2**31, 2**32 - 1], p=[0.5, 0.2, 0.1, 0.1, 0.1]))
    return int(rng.integers(2**32))


def positive(lo=1e-3, hi=1e4):
    """Log uniform with a bias to the values people write and the extremes."""

    def sample(rng, shape):
        mode = rng.integers(6)
        if mode == 0:
            v = rng.choice([0.5, 1.0, 2.0, 1.5, 10.0, 100.0], size=shape)
        elif mode == 1:
            v = np.exp(rng.uniform(np.log(lo), np.log(hi), size=shape))
        else:
            v = np.exp(rng.normal(0.7, 1.2, size=shape))
        return np.clip(v, lo, hi)

    return sample


def positive_int(lo=1, hi=1000):
    def sample(rng, shape):
        if rng.integers(3) == 0:
            return rng.integers(lo, min(lo + 4, hi) + 1, size=shape)
        v = np.exp(rng.uniform(np.log(max(lo, 1)), np.log(hi + 1), size=shape))
        return np.clip(np.floor(v), lo, hi).astype(np.int64)

    return sample


def positive_any(lo=1e-3, hi=1e4):
    """Positive, an integer type half of the time."""
    f, i = positive(lo, hi), positive_int(max(1, int(np.ceil(lo))), int(hi))

    def sample(rng, shape):
        return i(rng, shape) if rng.integers(3) == 0 else f(rng, shape)

    return sample


def count(hi=1000, zero=0.25):
    """Non-negative integers with frequent zeros."""

    def sample(rng, shape):
        v = np.floor(np.exp(rng.uniform(0, np.log(hi + 1), size=shape)))
        v = np.where(rng.random(size=shape) < zero, 0, v)
        v = np.clip(v, 0, hi)
        return v.astype(np.int64) if rng.integers(4) else v.astype(float)

    return sample


def real(scale=3.0, wide=0.2):
    def sample(rng, shape):
        v = rng.normal(0, scale, size=shape)
        mode = rng.integers(8)
        if mode == 0:
            v = np.zeros(shape)
        elif mode == 1:
            v = rng.integers(-5, 6, size=shape)
        elif mode == 2:
            v = v * 1000.0
        return v

    return sample


def fraction(shape_rng, shape, edges=0.3):
    """Uniform on [0, 1] with both ends likely."""
    u = shape_rng.random(size=shape)
    e = shape_rng.random(size=shape)
    u = np.where(e < edges / 2, 0.0, u)
    return np.where(e > 1 - edges / 2, 1.0, u)


def units_apart(rng, p, decades):
    """Units of measure of p coordinates: all alike, or up to 10^(2 decades) apart."""
    return 10.0 ** rng.uniform(-decades, decades, size=p) if rng.integers(3) == 0 else np.ones(p)


def spd(rng, p, log_cond=2.0, scale=None):
    """A symmetric positive definite matrix with a bounded condition number."""
    if p == 0:
        return np.zeros((0, 0))
    q, _ = np.linalg.qr(rng.normal(size=(p, p)))
    ev = np.exp(rng.uniform(-log_cond, log_cond, size=p) * np.log(10) / 2)
    m = (q * ev) @ q.T
    m = (m + m.T) / 2
    if rng.integers(5) == 0:
        m = np.diag(ev)
    s = np.exp(rng.normal(0, 1)) if scale is None else scale
    return m * s


def as_elements(*values):
    """Broadcast the values and yield the shape and the flat float columns."""
    arrays = np.broadcast_arrays(*[np.asarray(v, dtype=float) for v in values])
    return arrays[0].shape, [a.reshape(-1) for a in arrays]


def key_of(**kwargs):
    """A compact identity of a generated case."""
    out = []
    for k, v in sorted(kwargs.items()):
        if hasattr(v, "__dataclass_fields__"):
            out.append((k, type(v).__name__, key_of(**vars(v))))
        elif isinstance(v, np.ndarray):
            out.append((k, v.shape, v.dtype.str, hash(v.tobytes())))
        else:
            out.append((k, type(v).__name__, repr(v)))
    return tuple(out)
