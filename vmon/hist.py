"""Raw data, its summaries, and histories of updates for every model."""

import numpy as np

from vmon import gen


def f(x):
    return np.asarray(x, dtype=float)


def pos(lo=0.1, hi=30):
    return gen.positive_any(lo, hi)


class Story:
    """One model: how its data look raw, and how a batch is summarised.

    prior(L) -> distribution; fixed(L) -> arguments that every update repeats;
    draw(rng, size, shape, fixed) -> raw data with observations along axis 0;
    summary(x, fixed) -> keyword arguments of the update.
    """

    def __init__(self, model, prior, draw, summary, fixed=None, vector=True, tag=""):
        self.model, self.prior, self.draw, self.summary = model, prior, draw, summary
        self.fixed = fixed or (lambda L: {})
        self.vector = vector
        self.name = model + tag

    def kwargs(self, x, fixed):
        kw = self.summary(x, fixed)
        kw.update(fixed)
        return kw


def _D():
    from conjugate import distributions as D

    return D


def beta_prior(L):
    return _D().Beta(alpha=L.value(pos()), beta=L.value(pos()))


def gamma_prior(L):
    return _D().Gamma(alpha=L.value(pos()), beta=L.value(pos()))


def inverse_gamma_prior(L):
    return _D().InverseGamma(alpha=L.value(pos()), beta=L.value(pos()))


def scaled_prior(L):
    return _D().ScaledInverseChiSquared(nu=L.value(pos()), sigma2=L.value(pos()))


def normal_prior(L):
    return _D().Normal(mu=L.value(gen.real(2.0)), sigma=L.value(pos(0.1, 20)))


def nig_prior(L):
    return _D().NormalInverseGamma(
        mu=L.value(gen.real(2.0)), nu=L.value(pos()), alpha=L.value(pos()), beta=L.value(pos())
    )


def ng_prior(L):
    return _D().NormalGamma(
        mu=L.value(gen.real(2.0)), lam=L.value(pos()), alpha=L.value(pos()), beta=L.value(pos())
    )


def bits(rng, size, shape, fixed):
    return rng.integers(0, 2, size=(size,) + shape)


def counts(rng, size, shape, fixed):
    return rng.poisson(rng.gamma(1.0, 4.0, size=shape), size=(size,) + shape)


def trials(rng, size, shape, fixed):
    return rng.geometric(rng.uniform(0.1, 0.9, size=shape), size=(size,) + shape)


def positives(rng, size, shape, fixed):
    return rng.gamma(2.0, np.exp(rng.normal(size=shape)), size=(size,) + shape)


def reals(rng, size, shape, fixed):
    return rng.normal(rng.normal(0, 3, size=shape), np.exp(rng.normal(0, 1, size=shape)), size=(size,) + shape)


def total(x):
    return x.sum(axis=0)


def over_minimum(rng, size, shape, fixed):
    return f(fixed["x_m"]) * np.exp(rng.gamma(1.0, 1.0, size=(size,) + shape))


STORIES = [
    Story("binomial_beta", beta_prior, bits, lambda x, k: dict(n=len(x), x=total(x))),
    Story(
        "negative_binomial_beta",
        beta_prior,
        counts,
        lambda x, k: dict(n=len(x), x=total(x)),
        fixed=lambda L: dict(r=L.value(gen.positive_int(1, 9))),
    ),
    Story(
        "geometric_beta",
        beta_prior,
        trials,
        lambda x, k: dict(n=len(x), x_total=total(x)),
    ),
    Story(
        "geometric_beta",
        beta_prior,
        counts,
        lambda x, k: dict(n=len(x), x_total=total(x)),
        fixed=lambda L: dict(one_start=False),
        tag=" from zero",
    ),
    Story("poisson_gamma", gamma_prior, counts, lambda x, k: dict(n=len(x), x_total=total(x))),
    Story(
        "exponential_gamma", gamma_prior, positives, lambda x, k: dict(n=len(x), x_total=total(x))
    ),
    Story(
        "gamma_known_shape",
        gamma_prior,
        positives,
        lambda x, k: dict(n=len(x), x_total=total(x)),
        fixed=lambda L: dict(alpha=L.value(pos())),
    ),
    Story(
        "inverse_gamma_known_rate",
        gamma_prior,
        positives,
        lambda x, k: dict(n=len(x), reciprocal_x_total=total(1 / x)),
        fixed=lambda L: dict(alpha=L.value(pos())),
    ),
    Story(
        "pareto_gamma",
        gamma_prior,
        over_minimum,
        lambda x, k: dict(n=len(x), ln_x_total=total(np.log(x))),
        fixed=lambda L: dict(x_m=L.value(pos(0.2, 9))),
    ),
    Story(
        "uniform_pareto",
        lambda L: _D().Pareto(x_m=L.value(pos(0.2, 9)), alpha=L.value(pos())),
        positives,
        lambda x, k: dict(n=len(x), x_max=x.max(axis=0, initial=0)),
    ),
    Story(
        "weibull_inverse_gamma_known_shape",
        inverse_gamma_prior,
        positives,
        lambda x, k: dict(n=len(x), x_beta_total=total(x**1.7)),
    ),
    Story(
        "normal_known_variance",
        normal_prior,
        reals,
        lambda x, k: dict(n=len(x), x_total=total(x)),
        fixed=lambda L: dict(var=L.value(pos())),
    ),
    Story(
        "normal_known_precision",
        normal_prior,
        reals,
        lambda x, k: dict(n=len(x), x_total=total(x)),
        fixed=lambda L: dict(precision=L.value(pos())),
    ),
    Story(
        "normal_known_mean",
        inverse_gamma_prior,
        reals,
        lambda x, k: dict(n=len(x), x_total=total(x), x2_total=total(x**2)),
        fixed=lambda L: dict(mu=L.value(gen.real(2.0))),
    ),
    Story(
        "normal_known_mean",
        scaled_prior,
        reals,
        lambda x, k: dict(n=len(x), x_total=total(x), x2_total=total(x**2)),
        fixed=lambda L: dict(mu=L.value(gen.real(2.0))),
        tag=" scaled inverse chi squared",
    ),
    Story(
        "normal",
        nig_prior,
        reals,
        lambda x, k: dict(n=len(x), x_total=total(x), x2_total=total(x**2)),
    ),
    Story(
        "normal",
        ng_prior,
        reals,
        lambda x, k: dict(n=len(x), x_total=total(x), x2_total=total(x**2)),
        tag=" gamma",
    ),
    Story(
        "normal_normal_inverse_gamma",
        nig_prior,
        reals,
        lambda x, k: dict(n=len(x), x_total=total(x), x2_total=total(x**2)),
    ),
    Story(
        "log_normal",
        nig_prior,
        positives,
        lambda x, k: dict(
            n=len(x), ln_x_total=total(np.log(x)), ln_x2_total=total(np.log(x) ** 2)
        ),
    ),
    Story(
        "log_normal",
        ng_prior,
        positives,
        lambda x, k: dict(
            n=len(x), ln_x_total=total(np.log(x)), ln_x2_total=total(np.log(x) ** 2)
        ),
        tag=" gamma",
    ),
    # known up to a constant
    Story(
        "gamma",
        lambda L: _D().GammaProportional(
            p=L.value(pos()), q=L.value(pos()), r=L.value(pos()), s=L.value(pos())
        ),
        positives,
        lambda x, k: dict(n=len(x), x_total=total(x), x_prod=x.prod(axis=0)),
    ),
    Story(
        "gamma_known_rate",
        lambda L: _D().GammaKnownRateProportional(
            a=L.value(pos()), b=L.value(pos()), c=L.value(pos())
        ),
        positives,
        lambda x, k: dict(n=len(x), x_prod=x.prod(axis=0)),
        fixed=lambda L: dict(beta=L.value(pos())),
    ),
    Story(
        "beta",
        lambda L: _D().BetaProportional(
            p=L.value(pos(0.1, 1)), q=L.value(pos(0.1, 1)), k=L.value(pos())
        ),
        lambda rng, size, shape, k: rng.beta(2.0, 3.0, size=(size,) + shape),
        lambda x, k: dict(
            n=len(x), x_prod=x.prod(axis=0), one_minus_x_prod=(1 - x).prod(axis=0)
        ),
    ),
    Story(
        "von_mises_known_concentration",
        lambda L: _D().VonMisesKnownConcentration(
            a=L.value(pos()), b=L.value(lambda r, s: r.uniform(0, 2 * np.pi, size=s))
        ),
        lambda rng, size, shape, k: rng.vonmises(
            rng.uniform(-3, 3, size=shape), 1.5, size=(size,) + shape
        ),
        lambda x, k: dict(
            n=len(x), cos_total=total(np.cos(x)), sin_total=total(np.sin(x))
        ),
        fixed=lambda L: dict(kappa=L.value(pos())),
    ),
    Story(
        "von_mises_known_direction",
        lambda L: _D().VonMisesKnownDirectionProportional(
            c=L.value(pos()), r=L.value(pos())
        ),
        lambda rng, size, shape, k: rng.vonmises(0.7, 1.5, size=(size,) + shape),
        lambda x, k: dict(n=len(x), centered_cos_total=total(np.cos(x - 0.7))),
    ),
]


# ------------------------------------------------- vectors and matrices
def _p(L):
    if not hasattr(L, "p"):
        L.p = int(L.rng.integers(1, 6))
    return L.p


def mv_reals(rng, size, shape, fixed):
    p = shape[0]
    return rng.normal(size=p) * 3 + rng.normal(size=(size, p)) @ rng.normal(size=(p, p))


def categories(rng, size, shape, fixed):
    return rng.multinomial(1, rng.dirichlet(np.ones(shape[0])), size=size)


def bags(rng, size, shape, fixed):
    return rng.multinomial(
        int(rng.integers(1, 9)), rng.dirichlet(np.ones(shape[0])), size=size
    )


def _dirichlet(L):
    alpha = gen.positive_any(0.1, 30)(L.rng, (_p(L) + 1,))
    L.mv_shape = (L.p + 1,)
    return _D().Dirichlet(alpha=alpha)


def _mvn_prior(L):
    p = _p(L)
    L.mv_shape = (p,)
    return _D().MultivariateNormal(
        mu=L.rng.normal(size=p) * 3, cov=gen.spd(L.rng, p, 1.0)
    )


def _iw_prior(L):
    p = _p(L)
    L.mv_shape = (p,)
    return _D().InverseWishart(
        nu=p + float(L.rng.gamma(2.0)), psi=gen.spd(L.rng, p, 1.0)
    )


def _niw_prior(L):
    p = _p(L)
    L.mv_shape = (p,)
    return _D().NormalInverseWishart(
        mu=L.rng.normal(size=p) * 3,
        kappa=float(L.rng.gamma(2.0) + 0.05),
        nu=p + float(L.rng.gamma(2.0)),
        psi=gen.spd(L.rng, p, 1.0),
    )


def _reg_prior(L):
    p = _p(L)
    L.mv_shape = (p,)
    return _D().NormalInverseGamma(
        mu=L.rng.normal(size=p),
        delta_inverse=gen.spd(L.rng, p, 1.0),
        alpha=float(L.rng.gamma(2.0) + 0.2),
        beta=float(L.rng.gamma(2.0) + 0.2),
    )


def rows_and_responses(rng, size, shape, fixed):
    X = rng.normal(size=(size, shape[0]))
    return np.column_stack([X, X @ rng.normal(size=shape[0]) * 2 + rng.normal(size=size)])


def mean_or_zero(x):
    return x.mean(axis=0) if len(x) else np.zeros(x.shape[1])


MV_STORIES = [
    Story("categorical_dirichlet", _dirichlet, categories, lambda x, k: dict(x=total(x)), vector=False),
    Story("multinomial_dirichlet", _dirichlet, bags, lambda x, k: dict(x=total(x)), vector=False),
    Story(
        "multivariate_normal_known_covariance",
        _mvn_prior,
        mv_reals,
        lambda x, k: dict(n=len(x), x_bar=mean_or_zero(x)),
        fixed=lambda L: dict(cov=gen.spd(L.rng, _p(L), 1.0)),
        vector=False,
    ),
    Story(
        "multivariate_normal_known_precision",
        _mvn_prior,
        mv_reals,
        lambda x, k: dict(n=len(x), x_bar=mean_or_zero(x)),
        fixed=lambda L: dict(precision=gen.spd(L.rng, _p(L), 1.0)),
        vector=False,
    ),
    Story(
        "multivariate_normal_known_mean",
        _iw_prior,
        mv_reals,
        lambda x, k: dict(X=x),
        fixed=lambda L: dict(mu=L.rng.normal(size=_p(L))),
        vector=False,
    ),
    Story("multivariate_normal", _niw_prior, mv_reals, lambda x, k: dict(X=x), vector=False),
    Story(
        "linear_regression",
        _reg_prior,
        rows_and_responses,
        lambda x, k: dict(X=x[:, :-1], y=x[:, -1]),
        vector=False,
    ),
]
ALL = STORIES + MV_STORIES


def begin(story, rng, kind=None):
    """(layout, prior, fixed arguments, shape of an observation)."""
    L = kind if isinstance(kind, gen.Layout) else gen.Layout(rng, kind)
    prior = story.prior(L)
    fixed = story.fixed(L)
    if not story.vector:
        return L, prior, fixed, L.mv_shape
    shape = np.broadcast_shapes(
        *[np.shape(v) for v in vars(prior).values() if np.ndim(v)],
        *[np.shape(v) for v in fixed.values()],
    )
    return L, prior, fixed, shape


def parameters(d):
    """Field name -> float array, angles as points on the circle."""
    out = {}
    for k in d.__dataclass_fields__:
        v = getattr(d, k)
        if v is not None:
            out[k] = f(v)
    if type(d).__name__ == "VonMisesKnownConcentration":
        a, b = out["a"], out["b"]
        out = {"a cos b": a * np.cos(b), "a sin b": a * np.sin(b)}
    return out


def cut(rng, size):
    """Random batch boundaries, with empty batches and single observations."""
    mode = rng.integers(4)
    if mode == 0:
        edges = np.arange(size + 1)
    elif mode == 1:
        edges = np.sort(rng.integers(0, size + 1, size=2))
    else:
        edges = np.sort(rng.integers(0, size + 1, size=int(rng.integers(1, 9))))
    edges = np.concatenate([[0], edges, [size]])
    return list(zip(edges[:-1], edges[1:]))
