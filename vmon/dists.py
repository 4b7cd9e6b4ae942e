"""Reference models of the univariate distributions under their documented parameters.

Independent of conjugate and of scipy.stats: only elementary and special functions.
Every function takes float arrays that broadcast.
"""

import numpy as np
from scipy.special import (
    bdtr,
    betainc,
    betaln,
    gammainc,
    gammaincc,
    gammaln,
    i0e,
    i1e,
    ndtr,
    log_ndtr,
    stdtr,
    xlog1py,
    xlogy,
    gamma as gamma_fn,
)

from vmon import gen

LOG2PI = np.log(2 * np.pi)


def safe(f):
    def g(*a, **k):
        with np.errstate(all="ignore"):
            return f(*a, **k)

    return g


class Ref:
    discrete = False
    has_cdf = True
    scipy = True  # frozen scipy object: ppf, moments, logpdf and so on

    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def params(self, d):
        return {
            k: (
                getattr(d, k)
                if k == "one_start"
                else np.asarray(getattr(d, k), dtype=float)
            )
            for k in self.fields
        }

    def make(self, D, kw):
        return getattr(D, self.name)(**kw)

    # what subclasses define: gen, support, logpdf, cdf, mean, var
    def mean(self, p):
        return None

    def var(self, p):
        return None

    def shape(self, p):
        return np.broadcast_shapes(*[np.shape(v) for v in p.values()])

    def quantile(self, p, q):
        """Numerical inversion of the reference distribution function."""
        shape = np.broadcast_shapes(self.shape(p), np.shape(q))
        lo, hi = self.support(p)
        lo = np.broadcast_to(np.asarray(lo, float), shape).copy()
        hi = np.broadcast_to(np.asarray(hi, float), shape).copy()
        q = np.broadcast_to(np.asarray(q, float), shape)
        a = np.where(np.isfinite(lo), lo, -1.0)
        b = np.where(np.isfinite(hi), hi, np.where(np.isfinite(lo), lo, 0) + 1.0)
        step = np.ones(shape)
        for _ in range(1100):
            grow = np.isinf(hi) & (self.cdf(p, b) < q)
            shrink = np.isinf(lo) & (self.cdf(p, a) > q)
            if not grow.any() and not shrink.any():
                break
            step = step * 2
            b = np.where(grow, b + step, b)
            a = np.where(shrink, a - step, a)
        if self.discrete:
            a, b = np.floor(a) - 1, np.ceil(b)
            for _ in range(80):
                m = np.floor((a + b) / 2)
                up = self.cdf(p, m) < q
                a, b = np.where(up, m, a), np.where(up, b, m)
            return b
        for _ in range(200):
            m = np.where(
                (a > 0) & (b / np.where(a > 0, a, 1) > 4), np.sqrt(abs(a * b)), (a + b) / 2
            )
            # geometric steps towards zero
            m = np.where((a == 0) & (b > 1e-280), b / 16, m) if _ < 120 else m
            up = self.cdf(p, m) < q
            a, b = np.where(up, m, a), np.where(up, b, m)
        return (a + b) / 2


class Discrete(Ref):
    discrete = True


pos = gen.positive_any
_SMALL = pos(0.05, 60)


class _Beta(Ref):
    def gen(self, L):
        return dict(alpha=L.value(_SMALL), beta=L.value(_SMALL))

    def support(self, p):
        return 0.0, 1.0

    def logpdf(self, p, x):
        a, b = p["alpha"], p["beta"]
        inside = (x > 0) & (x < 1)
        xx = np.where(inside, x, 0.5)
        return np.where(
            inside,
            (a - 1) * np.log(xx) + (b - 1) * np.log1p(-xx) - betaln(a, b),
            -np.inf,
        )

    def cdf(self, p, x):
        return betainc(p["alpha"], p["beta"], np.clip(x, 0, 1))

    def mean(self, p):
        return p["alpha"] / (p["alpha"] + p["beta"])

    def var(self, p):
        a, b = p["alpha"], p["beta"]
        return a * b / ((a + b) ** 2 * (a + b + 1))


def _int(x):
    return x == np.floor(x)


def lchoose(n, k):
    return -np.log1p(n) - betaln(n - k + 1, k + 1)


def prob(rng, shape):
    u = rng.random(size=shape)
    return np.clip(u, 0.01, 0.99)


class _Binomial(Discrete):
    def gen(self, L):
        return dict(n=L.value(gen.positive_int(1, 60)), p=L.value(prob))

    def support(self, p):
        return 0.0, p["n"]

    def logpdf(self, p, x):
        n, q = p["n"], p["p"]
        inside = (x >= 0) & (x <= n) & _int(x)
        k = np.where(inside, x, 0)
        return np.where(
            inside, lchoose(n, k) + xlogy(k, q) + xlog1py(n - k, -q), -np.inf
        )

    def cdf(self, p, x):
        n, q = p["n"], p["p"]
        k = np.floor(x)
        inside = (k >= 0) & (k < n)
        kk = np.where(inside, k, 0)
        nn = np.where(inside, n, 1)
        return np.where(inside, betainc(nn - kk, kk + 1, 1 - q), np.where(k < 0, 0.0, 1.0))

    def mean(self, p):
        return p["n"] * p["p"]

    def var(self, p):
        return p["n"] * p["p"] * (1 - p["p"])


class _Exponential(Ref):
    def gen(self, L):
        return dict(lam=L.value(_SMALL))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        return np.where(x >= 0, np.log(p["lam"]) - p["lam"] * x, -np.inf)

    def cdf(self, p, x):
        return np.where(x > 0, -np.expm1(-p["lam"] * np.maximum(x, 0)), 0.0)

    def mean(self, p):
        return 1 / p["lam"]

    def var(self, p):
        return 1 / p["lam"] ** 2


class _Gamma(Ref):
    def gen(self, L):
        return dict(alpha=L.value(_SMALL), beta=L.value(_SMALL))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        a, b = p["alpha"], p["beta"]
        xx = np.where(x > 0, x, 1)
        return np.where(
            x > 0, a * np.log(b) - gammaln(a) + (a - 1) * np.log(xx) - b * xx, -np.inf
        )

    def cdf(self, p, x):
        return gammainc(p["alpha"], p["beta"] * np.maximum(x, 0))

    def mean(self, p):
        return p["alpha"] / p["beta"]

    def var(self, p):
        return p["alpha"] / p["beta"] ** 2


class _NegativeBinomial(Discrete):
    """Failures before the n-th success of probability p."""

    def gen(self, L):
        return dict(n=L.value(pos(0.2, 30)), p=L.value(prob))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        n, q = p["n"], p["p"]
        inside = (x >= 0) & _int(x)
        k = np.where(inside, x, 0)
        return np.where(
            inside,
            gammaln(n + k) - gammaln(n) - gammaln(k + 1) + n * np.log(q) + xlog1py(k, -q),
            -np.inf,
        )

    def cdf(self, p, x):
        k = np.floor(x)
        return np.where(
            k >= 0, betainc(p["n"], np.maximum(k, 0) + 1, p["p"]), 0.0
        )

    def mean(self, p):
        return p["n"] * (1 - p["p"]) / p["p"]

    def var(self, p):
        return p["n"] * (1 - p["p"]) / p["p"] ** 2


class _Summed(Discrete):
    """Distribution functions by summation."""

    TERMS = 400

    def cdf(self, p, x):
        x = np.asarray(x, float)
        shape = np.broadcast_shapes(self.shape(p), x.shape)
        xx = np.floor(np.broadcast_to(x, shape))
        lo = self.support(p)[0]
        top = int(np.nanmax(np.where(np.isfinite(xx), xx, 0), initial=0))
        top = min(top, 100_000)
        out = np.zeros(shape)
        lo = int(np.min(lo))
        for k in range(lo, top + 1):
            out = out + np.where(k <= xx, np.exp(self.logpdf(p, float(k))), 0)
        return np.minimum(out, 1.0)


class _Hypergeometric(_Summed):
    """N items, k of them successes, n drawn."""

    def gen(self, L):
        big = L.value(gen.positive_int(2, 40))
        k = np.round(np.asarray(big) * gen.fraction(L.rng, L.shape(), 0.1)).astype(int)
        n = np.round(np.asarray(big) * gen.fraction(L.rng, L.shape(), 0.1)).astype(int)
        return dict(N=big, k=L.wrap(k), n=L.wrap(n))

    def support(self, p):
        return (
            np.maximum(0, p["n"] - (p["N"] - p["k"])),
            np.minimum(p["k"], p["n"]),
        )

    def logpdf(self, p, x):
        lo, hi = self.support(p)
        inside = (x >= lo) & (x <= hi) & _int(x)
        k = np.where(inside, x, lo)
        return np.where(
            inside,
            lchoose(p["k"], k)
            + lchoose(p["N"] - p["k"], p["n"] - k)
            - lchoose(p["N"], p["n"]),
            -np.inf,
        )

    def mean(self, p):
        return p["n"] * p["k"] / p["N"]

    def var(self, p):
        big, k, n = p["N"], p["k"], p["n"]
        return n * k / big * (big - k) / big * (big - n) / (big - 1)


class _Poisson(Discrete):
    def gen(self, L):
        return dict(lam=L.value(_SMALL))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        inside = (x >= 0) & _int(x)
        k = np.where(inside, x, 0)
        return np.where(inside, xlogy(k, p["lam"]) - p["lam"] - gammaln(k + 1), -np.inf)

    def cdf(self, p, x):
        k = np.floor(x)
        return np.where(k >= 0, gammaincc(np.maximum(k, 0) + 1, p["lam"]), 0.0)

    def mean(self, p):
        return p["lam"]

    def var(self, p):
        return p["lam"]


class _BetaBinomial(_Summed):
    def gen(self, L):
        return dict(
            n=L.value(gen.positive_int(1, 60)),
            alpha=L.value(_SMALL),
            beta=L.value(_SMALL),
        )

    def support(self, p):
        return 0.0, p["n"]

    def logpdf(self, p, x):
        n, a, b = p["n"], p["alpha"], p["beta"]
        inside = (x >= 0) & (x <= n) & _int(x)
        k = np.where(inside, x, 0)
        return np.where(
            inside, lchoose(n, k) + betaln(k + a, n - k + b) - betaln(a, b), -np.inf
        )

    def mean(self, p):
        return p["n"] * p["alpha"] / (p["alpha"] + p["beta"])

    def var(self, p):
        n, a, b = p["n"], p["alpha"], p["beta"]
        s = a + b
        return n * a * b * (s + n) / (s**2 * (s + 1))


class _BetaNegativeBinomial(_Summed):
    """Successes of chance 1 - p before n failures of chance p ~ Beta(alpha, beta)."""

    def gen(self, L):
        return dict(
            n=L.value(gen.positive_int(1, 12)),
            alpha=L.value(pos(0.3, 40)),
            beta=L.value(pos(0.3, 20)),
        )

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        n, a, b = p["n"], p["alpha"], p["beta"]
        inside = (x >= 0) & _int(x)
        k = np.where(inside, x, 0)
        return np.where(
            inside,
            gammaln(n + k)
            - gammaln(n)
            - gammaln(k + 1)
            + betaln(a + n, b + k)
            - betaln(a, b),
            -np.inf,
        )

    def mean(self, p):
        n, a, b = p["n"], p["alpha"], p["beta"]
        return np.where(a > 1, n * b / np.where(a > 1, a - 1, 1), np.inf)


class _Geometric(Discrete):
    def gen(self, L):
        kw = dict(p=L.value(prob))
        mode = L.rng.integers(3)
        if mode:
            kw["one_start"] = L.flag(mode == 1)
        return kw

    def support(self, p):
        return (1.0 if p["one_start"] else 0.0), np.inf

    def _k(self, p, x):
        return x - (1.0 if p["one_start"] else 0.0)  # failures

    def logpdf(self, p, x):
        k = self._k(p, x)
        inside = (k >= 0) & _int(k)
        k = np.where(inside, k, 0)
        return np.where(inside, np.log(p["p"]) + xlog1py(k, -p["p"]), -np.inf)

    def cdf(self, p, x):
        k = np.floor(self._k(p, x))
        return np.where(
            k >= 0, -np.expm1((np.maximum(k, 0) + 1) * np.log1p(-p["p"])), 0.0
        )

    def shape(self, p):
        return np.shape(p["p"])

    def mean(self, p):
        return (1 - p["p"]) / p["p"] + (1.0 if p["one_start"] else 0.0)

    def var(self, p):
        return (1 - p["p"]) / p["p"] ** 2


class _BetaGeometric(Discrete):
    scipy = False

    def gen(self, L):
        kw = dict(alpha=L.value(pos(0.2, 50)), beta=L.value(pos(0.2, 50)))
        mode = L.rng.integers(3)
        if mode:
            kw["one_start"] = L.flag(mode == 1)
        return kw

    def shape(self, p):
        return np.broadcast_shapes(np.shape(p["alpha"]), np.shape(p["beta"]))

    def support(self, p):
        return (1.0 if p["one_start"] else 0.0), np.inf

    def _k(self, p, x):
        return x - (1.0 if p["one_start"] else 0.0)

    def logpdf(self, p, x):
        a, b = p["alpha"], p["beta"]
        k = self._k(p, x)
        inside = (k >= 0) & _int(k)
        k = np.where(inside, k, 0)
        return np.where(inside, betaln(a + 1, b + k) - betaln(a, b), -np.inf)

    def cdf(self, p, x):
        a, b = p["alpha"], p["beta"]
        k = np.floor(self._k(p, x))
        inside = k >= 0
        k = np.where(inside, k, 0)
        return np.where(inside, -np.expm1(betaln(a, b + k + 1) - betaln(a, b)), 0.0)


class _Normal(Ref):
    def gen(self, L):
        return dict(mu=L.value(gen.real()), sigma=L.value(pos(0.05, 100)))

    def support(self, p):
        return -np.inf, np.inf

    def logpdf(self, p, x):
        z = (x - p["mu"]) / p["sigma"]
        return -(z**2) / 2 - np.log(p["sigma"]) - LOG2PI / 2

    def cdf(self, p, x):
        return ndtr((x - p["mu"]) / p["sigma"])

    def mean(self, p):
        return p["mu"] + 0 * p["sigma"]

    def var(self, p):
        return p["sigma"] ** 2 + 0 * p["mu"]


class _Uniform(Ref):
    def gen(self, L):
        low = L.value(gen.real(2.0))
        high = np.asarray(low) + np.asarray(L.value(pos(0.1, 20)))
        return dict(low=low, high=L.wrap(high))

    def support(self, p):
        return p["low"], p["high"]

    def logpdf(self, p, x):
        inside = (x >= p["low"]) & (x <= p["high"])
        return np.where(inside, -np.log(p["high"] - p["low"]), -np.inf)

    def cdf(self, p, x):
        return np.clip((x - p["low"]) / (p["high"] - p["low"]), 0, 1)

    def mean(self, p):
        return (p["low"] + p["high"]) / 2

    def var(self, p):
        return (p["high"] - p["low"]) ** 2 / 12


class _Pareto(Ref):
    def gen(self, L):
        return dict(x_m=L.value(pos(0.05, 50)), alpha=L.value(pos(0.3, 40)))

    def support(self, p):
        return p["x_m"], np.inf

    def logpdf(self, p, x):
        m, a = p["x_m"], p["alpha"]
        xx = np.where(x >= m, x, m)
        return np.where(
            x >= m, np.log(a) - np.log(xx) - a * np.log(xx / m), -np.inf
        )

    def cdf(self, p, x):
        m, a = p["x_m"], p["alpha"]
        xx = np.maximum(x, m)
        return -np.expm1(-a * np.log(xx / m))

    def mean(self, p):
        m, a = p["x_m"], p["alpha"]
        return np.where(a > 1, a * m / np.where(a > 1, a - 1, 1), np.inf)

    def var(self, p):
        m, a = p["x_m"], p["alpha"]
        ok = a > 2.0
        return np.where(
            ok, m**2 * a / ((a - 1) ** 2 * np.where(ok, a - 2, 1)), np.inf
        )


class _InverseGamma(Ref):
    def gen(self, L):
        return dict(alpha=L.value(pos(0.3, 60)), beta=L.value(_SMALL))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        a, b = p["alpha"], p["beta"]
        xx = np.where(x > 0, x, 1)
        return np.where(
            x > 0, a * np.log(b) - gammaln(a) - (a + 1) * np.log(xx) - b / xx, -np.inf
        )

    def cdf(self, p, x):
        xx = np.where(x > 0, x, 1)
        return np.where(x > 0, gammaincc(p["alpha"], p["beta"] / xx), 0.0)

    def mean(self, p):
        a, b = p["alpha"], p["beta"]
        return np.where(a > 1, b / np.where(a > 1, a - 1, 1), np.inf)

    def var(self, p):
        a, b = p["alpha"], p["beta"]
        ok = a > 2
        return np.where(
            ok, b**2 / ((a - 1) ** 2 * np.where(ok, a - 2, 1)), np.inf
        )


class _StudentT(Ref):
    def gen(self, L):
        return dict(
            mu=L.value(gen.real()),
            sigma=L.value(pos(0.05, 100)),
            nu=L.value(pos(0.5, 200)),
        )

    def support(self, p):
        return -np.inf, np.inf

    def logpdf(self, p, x):
        nu = p["nu"]
        z = (x - p["mu"]) / p["sigma"]
        return (
            -betaln(nu / 2, 0.5)
            - 0.5 * np.log(nu)
            - np.log(p["sigma"])
            - (nu + 1) / 2 * np.log1p(z**2 / nu)
        )

    def cdf(self, p, x):
        return stdtr(p["nu"], (x - p["mu"]) / p["sigma"])

    def mean(self, p):
        return np.where(p["nu"] > 1, p["mu"] + 0 * p["sigma"], np.nan)

    def var(self, p):
        nu, s = p["nu"], p["sigma"] + 0 * p["mu"]
        ok = nu > 2
        return np.where(ok, s**2 * nu / np.where(ok, nu - 2, 1), np.nan)


class _Lomax(Ref):
    def gen(self, L):
        return dict(alpha=L.value(pos(0.3, 40)), lam=L.value(_SMALL))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        a, s = p["alpha"], p["lam"]
        xx = np.maximum(x, 0)
        return np.where(
            x >= 0, np.log(a) - np.log(s) - (a + 1) * np.log1p(xx / s), -np.inf
        )

    def cdf(self, p, x):
        return -np.expm1(-p["alpha"] * np.log1p(np.maximum(x, 0) / p["lam"]))

    def mean(self, p):
        a, s = p["alpha"], p["lam"]
        return np.where(a > 1, s / np.where(a > 1, a - 1, 1), np.inf)


class _CompoundGamma(Ref):
    """Gamma(alpha, rate) with rate ~ Gamma(beta, lam)."""

    scipy = False

    def gen(self, L):
        return dict(
            alpha=L.value(pos(0.2, 40)),
            beta=L.value(pos(0.3, 40)),
            lam=L.value(_SMALL),
        )

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        a, b, q = p["alpha"], p["beta"], p["lam"]
        xx = np.where(x > 0, x, 1)
        return np.where(
            x > 0,
            (a - 1) * np.log(xx / q)
            - (a + b) * np.log1p(xx / q)
            - np.log(q)
            - betaln(a, b),
            -np.inf,
        )

    def cdf(self, p, x):
        xx = np.maximum(x, 0)
        a, b, q = p["alpha"], p["beta"], p["lam"]
        return np.where(
            xx < q, betainc(a, b, xx / (xx + q)), 1 - betainc(b, a, q / (xx + q))
        )


class _VonMises(Ref):
    def gen(self, L):
        def ang(rng, shape):
            return rng.uniform(-np.pi, np.pi, size=shape)

        return dict(mu=L.value(ang), kappa=L.value(pos(0.05, 40)))

    def support(self, p):
        return p["mu"] - np.pi, p["mu"] + np.pi

    def logpdf(self, p, x):
        k = p["kappa"]
        return (
            k * (np.cos(x - p["mu"]) - 1) - np.log(2 * np.pi) - np.log(i0e(k))
        )

    NODES, WEIGHTS = np.polynomial.legendre.leggauss(200)

    def cdf(self, p, x):
        """From mu - pi."""
        mu, k, x = np.broadcast_arrays(p["mu"], p["kappa"], x)
        width = np.clip(x - mu, -np.pi, np.pi) + np.pi
        t = (self.NODES.reshape((-1,) + (1,) * x.ndim) + 1) / 2 * width - np.pi
        w = self.WEIGHTS.reshape((-1,) + (1,) * x.ndim) * width / 2
        f = np.exp(k * (np.cos(t) - 1)) / (2 * np.pi * i0e(k))
        return (w * f).sum(axis=0)


class _ScaledInverseChiSquared(Ref):
    def gen(self, L):
        return dict(nu=L.value(pos(0.6, 100)), sigma2=L.value(_SMALL))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        nu, s = p["nu"], p["sigma2"]
        xx = np.where(x > 0, x, 1)
        return np.where(
            x > 0,
            nu / 2 * np.log(s * nu / 2)
            - gammaln(nu / 2)
            - nu * s / (2 * xx)
            - (1 + nu / 2) * np.log(xx),
            -np.inf,
        )

    def cdf(self, p, x):
        xx = np.where(x > 0, x, 1)
        return np.where(
            x > 0, gammaincc(p["nu"] / 2, p["sigma2"] * p["nu"] / (2 * xx)), 0.0
        )

    def mean(self, p):
        nu, s = p["nu"], p["sigma2"]
        return np.where(nu > 2, nu * s / np.where(nu > 2, nu - 2, 1), np.inf)


class _LogNormal(Ref):
    def gen(self, L):
        def mu(rng, shape):
            return np.clip(gen.real(1.5)(rng, shape), -6, 6)

        return dict(mu=L.value(mu), sigma=L.value(pos(0.05, 3)))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        xx = np.where(x > 0, x, 1)
        z = (np.log(xx) - p["mu"]) / p["sigma"]
        return np.where(
            x > 0, -(z**2) / 2 - np.log(xx) - np.log(p["sigma"]) - LOG2PI / 2, -np.inf
        )

    def cdf(self, p, x):
        xx = np.where(x > 0, x, 1)
        return np.where(x > 0, ndtr((np.log(xx) - p["mu"]) / p["sigma"]), 0.0)

    def mean(self, p):
        return np.exp(p["mu"] + p["sigma"] ** 2 / 2)


class _Weibull(Ref):
    """beta / theta x^(beta - 1) exp(-x^beta / theta)"""

    def gen(self, L):
        return dict(beta=L.value(pos(0.3, 12)), theta=L.value(pos(0.1, 30)))

    def support(self, p):
        return 0.0, np.inf

    def logpdf(self, p, x):
        b, t = p["beta"], p["theta"]
        xx = np.where(x > 0, x, 1)
        return np.where(
            x > 0, np.log(b) - np.log(t) + (b - 1) * np.log(xx) - xx**b / t, -np.inf
        )

    def cdf(self, p, x):
        xx = np.maximum(x, 0)
        return -np.expm1(-(xx ** p["beta"]) / p["theta"])

    def mean(self, p):
        return p["theta"] ** (1 / p["beta"]) * gamma_fn(1 + 1 / p["beta"])


REFS = {}
for cls, fields in [
    (_Beta, ("alpha", "beta")),
    (_Binomial, ("n", "p")),
    (_Exponential, ("lam",)),
    (_Gamma, ("alpha", "beta")),
    (_NegativeBinomial, ("n", "p")),
    (_Hypergeometric, ("N", "k", "n")),
    (_Poisson, ("lam",)),
    (_BetaBinomial, ("n", "alpha", "beta")),
    (_BetaNegativeBinomial, ("n", "alpha", "beta")),
    (_Geometric, ("p", "one_start")),
    (_BetaGeometric, ("alpha", "beta", "one_start")),
    (_Normal, ("mu", "sigma")),
    (_Uniform, ("low", "high")),
    (_Pareto, ("x_m", "alpha")),
    (_InverseGamma, ("alpha", "beta")),
    (_StudentT, ("mu", "sigma", "nu")),
    (_Lomax, ("alpha", "lam")),
    (_CompoundGamma, ("alpha", "beta", "lam")),
    (_VonMises, ("mu", "kappa")),
    (_ScaledInverseChiSquared, ("nu", "sigma2")),
    (_LogNormal, ("mu", "sigma")),
    (_Weibull, ("beta", "theta")),
]:
    for attr in ("logpdf", "cdf", "mean", "var"):
        setattr(cls, attr, safe(getattr(cls, attr)))
    ref = cls(cls.__name__[1:], fields)
    REFS[ref.name] = ref


def ref_of(d):
    for c in type(d).__mro__:
        if c.__name__ in REFS:
            return REFS[c.__name__]
    return None
