"""Statistical oracles on recorded samples.

Every decision has a chance of at most 1e-11 to reject samples that follow the
stated law, so that false alarms are out of reach for any number of runs.
"""

import numpy as np
from scipy.special import ndtri

LIMIT = np.log(1e-11 / 2)


def ks_uniform(u):
    """(rejected, statistic) of uniformity of u by the DKW inequality."""
    u = np.sort(np.ravel(u))
    n = len(u)
    if n == 0:
        return False, 0.0
    i = np.arange(n)
    d = max(np.max(u - i / n), np.max((i + 1) / n - u))
    return bool(2 * n * d * d > -LIMIT) or not np.all(np.isfinite(u)), float(d)


def correlated(a, b):
    """(rejected, z) for the hypothesis that two uniform samples are independent."""
    a, b = np.ravel(a), np.ravel(b)
    n = len(a)
    if n < 50:
        return False, 0.0
    za, zb = ndtri(np.clip(a, 1e-9, 1 - 1e-9)), ndtri(np.clip(b, 1e-9, 1 - 1e-9))
    z = float(np.sum(za * zb) / np.sqrt(n))
    # both level and spread, so that common scales are noticed too
    ya, yb = (za**2 - 1) / np.sqrt(2), (zb**2 - 1) / np.sqrt(2)
    w = float(np.sum(ya * yb) / np.sqrt(n))
    return bool(abs(z) > 8 or abs(w) > 30 or not np.isfinite(z)), max(abs(z), abs(w))


def independent(u):
    """Complaint about a sample (N, ...) of uniforms that are to be independent."""
    u = np.reshape(u, (len(u), -1))
    bad, z = correlated(u[:-1], u[1:])
    if bad:
        return f"consecutive draws are dependent (z = {z:.1f})"
    for j in range(1, min(u.shape[1], 4)):
        bad, z = correlated(u[:, 0], u[:, j])
        if bad:
            return f"draws of elements 0 and {j} are dependent (z = {z:.1f})"
    return None


def pit(ref, p, x, rng):
    """Probability integral transform of x, randomised for discrete laws."""
    x = np.asarray(x, dtype=float)
    if not ref.discrete:
        if ref.name == "VonMises":
            mu = p["mu"]
            x = mu + np.angle(np.exp(1j * (x - mu)))
        if ref.name == "Beta":
            # floating point numbers are too sparse near one: a single bin there
            top = 1 - 1e-12
            edge = ref.cdf(p, np.full(np.shape(x[:1]), top))[0]
            spread = edge + rng.random(size=x.shape) * (1 - edge)
            return np.where(x > top, spread, ref.cdf(p, x))
        return ref.cdf(p, x)
    v = rng.random(size=x.shape)
    if ref.name == "BetaNegativeBinomial":
        # heavy tail: one bin beyond the summed range
        top = 600.0
        tail = ref.cdf(p, np.full(np.shape(x[:1]), top))[0]
        inner = np.minimum(x, top)
        lo, hi = ref.cdf(p, inner - 1), ref.cdf(p, inner)
        beyond = x > top
        lo = np.where(beyond, tail, lo)
        hi = np.where(beyond, 1.0, hi)
    else:
        lo, hi = ref.cdf(p, x - 1), ref.cdf(p, x)
    return lo + v * (hi - lo)
