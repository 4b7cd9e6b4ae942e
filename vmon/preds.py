"""The predictives: valid calls, and the distribution each of them must return.

Two independent oracles: the closed form of the marginal (reference classes of
`dists`), and the likelihood averaged numerically over the given distribution.
"""

import numpy as np
from scipy.special import betaln, gammaln

from vmon import dists, gen


def f(x):
    return np.asarray(x, dtype=float)


def pos(lo=0.1, hi=60):
    """Of order one, now and then much larger, as after many observations."""
    usual, large = gen.positive_any(lo, hi), gen.positive_any(hi, hi * 500)
    return lambda rng, shape: (usual if not WIDE[0] or rng.integers(6) else large)(rng, shape)


WIDE = [True]


def _counts(L, hi, more):
    return L.value(gen.positive_int(1, more if WIDE[0] and L.rng.integers(6) == 0 else hi))


def _beta(L):
    from conjugate import distributions as D

    return D.Beta(alpha=L.value(pos(0.2, 50)), beta=L.value(pos(0.2, 50)))


def _gamma(L):
    from conjugate import distributions as D

    return D.Gamma(alpha=L.value(pos(0.2, 50)), beta=L.value(pos(0.1, 50)))


def _normal(L):
    from conjugate import distributions as D

    return D.Normal(mu=L.value(gen.real()), sigma=L.value(pos(0.05, 60)))


def _variance(L):
    from conjugate import distributions as D

    if L.rng.integers(2):
        return D.InverseGamma(alpha=L.value(pos(0.3, 50)), beta=L.value(pos()))
    return D.ScaledInverseChiSquared(nu=L.value(pos(0.6, 90)), sigma2=L.value(pos()))


def _joint(L, which=None):
    from conjugate import distributions as D

    kw = dict(
        mu=L.value(gen.real()), alpha=L.value(pos(0.3, 50)), beta=L.value(pos())
    )
    k = L.value(pos(0.05, 100))
    if which is None:
        which = L.rng.integers(2)
    if which:
        return D.NormalGamma(lam=k, **kw)
    return D.NormalInverseGamma(nu=k, **kw)


def variance_params(d):
    """Shape and scale of the inverse gamma that d describes."""
    if hasattr(d, "sigma2"):
        return f(d.nu) / 2, f(d.nu) * f(d.sigma2) / 2
    return f(d.alpha), f(d.beta)


def precision_of(d):
    lam = getattr(d, "lam", None)
    return f(d.nu if lam is None else lam)


def gen_predictive(name, L, wide=True):
    """Valid keyword arguments of the predictive (wide: with large numbers as well)."""
    WIDE[0] = wide
    try:
        return _gen_predictive(name, L)
    finally:
        WIDE[0] = True


def _gen_predictive(name, L):
    if name == "binomial_beta_predictive":
        return dict(n=_counts(L, 40, 3000), distribution=_beta(L))
    if name == "bernoulli_beta_predictive":
        return dict(distribution=_beta(L))
    if name == "negative_binomial_beta_predictive":
        return dict(r=_counts(L, 12, 300), distribution=_beta(L))
    if name == "geometric_beta_predictive":
        kw = dict(distribution=_beta(L))
        mode = L.rng.integers(3)
        if mode:
            kw["one_start"] = L.flag(mode == 1)
        return kw
    if name == "poisson_gamma_predictive":
        kw = dict(distribution=_gamma(L))
        mode = L.rng.integers(4)
        if mode == 1:
            # now and then a period of no length
            kw["n"] = L.value(gen.positive_int(0 if L.rng.integers(4) == 0 else 1, 30))
        elif mode:
            kw["n"] = L.value(pos(0.05, 20))
        return kw
    if name == "exponential_gamma_predictive":
        return dict(distribution=_gamma(L))
    if name == "gamma_known_shape_predictive":
        return dict(distribution=_gamma(L), alpha=L.value(pos(0.2, 40)))
    if name == "normal_known_variance_predictive":
        return dict(var=L.value(pos(0.01, 100)), distribution=_normal(L))
    if name == "normal_known_precision_predictive":
        return dict(precision=L.value(pos(0.01, 100)), distribution=_normal(L))
    if name == "normal_known_mean_predictive":
        return dict(mu=L.value(gen.real()), distribution=_variance(L))
    if name == "normal_predictive":
        return dict(distribution=_joint(L))
    if name == "normal_normal_inverse_gamma_predictive":
        return dict(distribution=_joint(L, 0))
    raise KeyError(name)


def _student(mu, shape, scale):
    return dict(mu=mu, sigma=np.sqrt(scale / shape), nu=2 * shape)


# name -> (reference class, its parameters given the arguments of the predictive)
MARGINAL = {
    "binomial_beta_predictive": (
        "BetaBinomial",
        lambda kw, d: dict(n=f(kw["n"]), alpha=f(d.alpha), beta=f(d.beta)),
    ),
    "bernoulli_beta_predictive": (
        "BetaBinomial",
        lambda kw, d: dict(n=f(1), alpha=f(d.alpha), beta=f(d.beta)),
    ),
    "negative_binomial_beta_predictive": (
        "BetaNegativeBinomial",
        lambda kw, d: dict(n=f(kw["r"]), alpha=f(d.alpha), beta=f(d.beta)),
    ),
    "geometric_beta_predictive": (
        "BetaGeometric",
        lambda kw, d: dict(
            alpha=f(d.alpha), beta=f(d.beta), one_start=kw.get("one_start", True)
        ),
    ),
    "poisson_gamma_predictive": (
        "NegativeBinomial",
        lambda kw, d: dict(
            n=f(d.alpha), p=f(d.beta) / (f(d.beta) + f(kw.get("n", 1)))
        ),
    ),
    "exponential_gamma_predictive": (
        "Lomax",
        lambda kw, d: dict(alpha=f(d.alpha), lam=f(d.beta)),
    ),
    "gamma_known_shape_predictive": (
        "CompoundGamma",
        lambda kw, d: dict(alpha=f(kw["alpha"]), beta=f(d.alpha), lam=f(d.beta)),
    ),
    "normal_known_variance_predictive": (
        "Normal",
        lambda kw, d: dict(mu=f(d.mu), sigma=np.sqrt(f(d.sigma) ** 2 + f(kw["var"]))),
    ),
    "normal_known_precision_predictive": (
        "Normal",
        lambda kw, d: dict(
            mu=f(d.mu), sigma=np.sqrt(f(d.sigma) ** 2 + 1 / f(kw["precision"]))
        ),
    ),
    "normal_known_mean_predictive": (
        "StudentT",
        lambda kw, d: _student(f(kw["mu"]), *variance_params(d)),
    ),
    "normal_predictive": (
        "StudentT",
        lambda kw, d: _student(
            f(d.mu), f(d.alpha), f(d.beta) * (1 + 1 / precision_of(d))
        ),
    ),
    "normal_normal_inverse_gamma_predictive": (
        "StudentT",
        lambda kw, d: _student(
            f(d.mu), f(d.alpha), f(d.beta) * (1 + 1 / precision_of(d))
        ),
    ),
}
DISCRETE = list(MARGINAL)[:5]
CONTINUOUS = list(MARGINAL)[5:]


def marginal(name, kw):
    """(reference, parameters) of the distribution the call must return."""
    ref_name, params = MARGINAL[name]
    return dists.REFS[ref_name], params(kw, kw["distribution"])


# ------------------------------------------------- averages by quadrature
# Trapezoid rule over the whole line: exponentially accurate for these integrands.
T = np.linspace(-160, 160, 16001)


def over_beta(a, b, loglik):
    """log of the integral of exp(loglik(log p, log(1 - p))) over Beta(a, b)."""
    lp, lq = -np.logaddexp(0, -T), -np.logaddexp(0, T)
    y = a * lp + b * lq - betaln(a, b) + loglik(lp, lq)
    m = y.max(axis=-1, keepdims=True)
    return (m + np.log(np.exp(y - m).sum(axis=-1, keepdims=True)))[..., 0] + np.log(
        T[1] - T[0]
    )


def over_gamma(a, b, loglik):
    """The same over Gamma(a, b), with loglik(log rate)."""
    y = a * np.log(b) - gammaln(a) + a * T - b * np.exp(np.minimum(T, 600)) + loglik(T)
    m = y.max(axis=-1, keepdims=True)
    return (m + np.log(np.exp(y - m).sum(axis=-1, keepdims=True)))[..., 0] + np.log(
        T[1] - T[0]
    )


def over_normal(mu, sd, loglik):
    """The same over Normal(mu, sd), with loglik(value)."""
    z = np.linspace(-40, 40, 64001)
    y = -(z**2) / 2 - dists.LOG2PI / 2 + loglik(mu + sd * z)
    m = y.max(axis=-1, keepdims=True)
    return (m + np.log(np.exp(y - m).sum(axis=-1, keepdims=True)))[..., 0] + np.log(
        z[1] - z[0]
    )


def average(name, kw, x):
    """log of the likelihood of each of the points x (G,) averaged numerically.

    Only for scalar arguments.
    """
    d = kw["distribution"]
    x = f(x)[:, None]
    if name in DISCRETE[:4]:
        a, b = float(d.alpha), float(d.beta)
        if name in DISCRETE[:2]:
            n = float(kw.get("n", 1))
            return over_beta(
                a, b, lambda lp, lq: dists.lchoose(n, x) + x * lp + (n - x) * lq
            )
        if name == "negative_binomial_beta_predictive":
            r = float(kw["r"])
            c = gammaln(r + x) - gammaln(r) - gammaln(x + 1)
            return over_beta(a, b, lambda lp, lq: c + r * lp + x * lq)
        k = x - (1 if kw.get("one_start", True) else 0)
        return over_beta(a, b, lambda lp, lq: lp + k * lq)
    if name == "poisson_gamma_predictive":
        n = float(kw.get("n", 1))
        if n == 0:  # nothing is observed: the count is 0 for certain
            return np.where(x[:, 0] == 0, 0.0, -np.inf)
        return over_gamma(
            float(d.alpha),
            float(d.beta),
            lambda t: x * (np.log(n) + t)
            - n * np.exp(np.minimum(t, 600))
            - gammaln(x + 1),
        )
    if name == "exponential_gamma_predictive":
        return over_gamma(
            float(d.alpha), float(d.beta), lambda t: t - x * np.exp(np.minimum(t, 600))
        )
    if name == "gamma_known_shape_predictive":
        s = float(kw["alpha"])
        return over_gamma(
            float(d.alpha),
            float(d.beta),
            lambda t: s * t
            - gammaln(s)
            + (s - 1) * np.log(x)
            - x * np.exp(np.minimum(t, 600)),
        )
    if name in ("normal_known_variance_predictive", "normal_known_precision_predictive"):
        v = float(kw["var"]) if "var" in kw else 1 / float(kw["precision"])
        # integrate over the noise or the mean, whichever is wider
        s, w = float(d.sigma), np.sqrt(v)
        lo, hi = min(s, w), max(s, w)
        return over_normal(
            float(d.mu),
            lo,
            lambda m: -((x - m) ** 2) / (2 * hi**2) - np.log(hi) - dists.LOG2PI / 2,
        )
    # scale mixtures over the precision
    if name == "normal_known_mean_predictive":
        a, b = variance_params(d)
        m, extra = float(kw["mu"]), 1.0
    else:
        a, b, m = float(d.alpha), float(d.beta), float(d.mu)
        extra = 1 + 1 / float(precision_of(d))  # mean integrated out given variance
    return over_gamma(
        float(a),
        float(b),
        lambda t: (t - np.log(extra)) / 2
        - dists.LOG2PI / 2
        - (x - m) ** 2 * np.exp(np.minimum(t, 600)) / (2 * extra),
    )


def polya(alpha, x):
    """log probability of counts under sequential draws with reinforcement."""
    alpha, x = f(alpha), np.asarray(x, int)
    n = int(x.sum())
    total = gammaln(n + 1) - gammaln(x + 1).sum()
    state = alpha.copy()
    for j in np.repeat(np.arange(len(alpha)), x):
        total += np.log(state[j] / state.sum())
        state[j] += 1
    return total

