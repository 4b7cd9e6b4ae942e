"""Monitors of calibration from priors through data to predictions ("C32")."""

import numpy as np
from scipy.special import chdtr, ndtr, stdtr

from conjugate import distributions as D
from conjugate import models as M

from vmon import dists, gen, hist, stat
from vmon.core import rule, unit

rule(
    "C32",
    "Thousands of simulated studies of every model: parameters drawn from random priors by the "
    "library, data from the library's likelihood distributions in random batches, posteriors and "
    "predictives from its models; the positions of the true parameters and of further draws in "
    "the reference laws that the results describe, and in the distribution functions that the "
    "library computes, are tested for uniformity; a case is one prior with its studies; distinct "
    "by the prior.",
    ["each statistical decision errs with a chance below 1e-11"],
)

N = 4000  # studies for one prior


def rvs(ctx, d, size, rng):
    return ctx.call(lambda: d.dist.rvs(size=size, random_state=rng))


def uniform(ctx, what, u, **info):
    bad, distance = stat.ks_uniform(u)
    ctx.ok(not bad, f"{what}: ranks of {np.size(u)} studies are not uniform (distance {distance:.3f})", **info)
    ctx.event("studies", int(np.size(u)))


def position(d, x, rng, own=True):
    """Positions of x in d: by the reference, and by the library itself."""
    ref = dists.ref_of(d)
    p = ref.params(d)
    out = [stat.pit(ref, p, x, rng)]
    if own and not ref.discrete and ref.name not in ("VonMises",):
        out.append(np.asarray(d.dist.cdf(x)))
    if own and ref.discrete and ref.name not in ("BetaNegativeBinomial", "BetaGeometric"):
        lo, mass = np.asarray(d.dist.cdf(x - 1)), np.asarray(d.dist.pmf(x))
        out.append(lo + rng.random(size=np.shape(x)) * mass)
    return out


def spread(rng, lo=0.3, hi=8.0):
    """One value of a hyperparameter, or one for each study."""
    if rng.integers(2):
        return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size=N))


def level(rng):
    return float(rng.normal() * 2) if rng.integers(2) else rng.normal(size=N) * 2


def batches(rng, size):
    """Sizes of the batches that the data of a study come in."""
    if size < 2 or rng.integers(2):
        return [size]
    k = int(rng.integers(1, size))
    return [k, size - k]


def tiny(x, low=1e-290):
    return np.maximum(x, low)


class Study:
    """prior(rng) -> distribution of the parameter; likelihood(theta, rng) -> distribution of
    the data; update(x, n, prior, extra) -> posterior; predict(post, extra) -> predictive."""

    def __init__(self, name, prior, likelihood, update, predict=None, extra=lambda rng: {}, theta=lambda t: t):
        self.name, self.prior, self.likelihood, self.update = name, prior, likelihood, update
        self.predict, self.extra, self.theta = predict, extra, theta


def beta(rng):
    return D.Beta(alpha=spread(rng, 0.6), beta=spread(rng, 0.6))


def beta_heavy(rng):
    """Without probabilities so small that counts become astronomic."""
    return D.Beta(alpha=spread(rng, 2.0, 9), beta=spread(rng, 0.6))


def gamma(rng):
    return D.Gamma(alpha=spread(rng, 0.6), beta=spread(rng))


def inverse_gamma(rng):
    return D.InverseGamma(alpha=spread(rng, 1.0), beta=spread(rng))


S = Study
STUDIES = [
    S("bernoulli", beta, lambda t, e: D.Binomial(1, t), lambda x, n, p, e: one_by_one(x, p), lambda d, e: M.bernoulli_beta_predictive(distribution=d)),
    S(
        "binomial", beta, lambda t, e: D.Binomial(e["m"], t),
        lambda x, n, p, e: M.binomial_beta(n=n * e["m"], x=x.sum(axis=0), prior=p),
        lambda d, e: M.binomial_beta_predictive(n=e["m"], distribution=d),
        lambda rng: dict(m=int(rng.integers(1, 12))),
    ),
    S(
        "negative binomial", beta_heavy, lambda t, e: D.NegativeBinomial(e["r"], t),
        lambda x, n, p, e: M.negative_binomial_beta(r=e["r"], n=n, x=x.sum(axis=0), prior=p),
        lambda d, e: M.negative_binomial_beta_predictive(r=e["r"], distribution=d),
        lambda rng: dict(r=int(rng.integers(1, 6))),
    ),
    S(
        "geometric", beta_heavy, lambda t, e: D.Geometric(t),
        lambda x, n, p, e: M.geometric_beta(x_total=x.sum(axis=0), n=n, prior=p),
        lambda d, e: M.geometric_beta_predictive(distribution=d),
    ),
    S(
        "geometric from zero", beta_heavy, lambda t, e: D.Geometric(t, one_start=False),
        lambda x, n, p, e: M.geometric_beta(x_total=x.sum(axis=0), n=n, prior=p, one_start=False),
        lambda d, e: M.geometric_beta_predictive(distribution=d, one_start=False),
    ),
    S(
        "poisson", gamma, lambda t, e: e["k"] * D.Poisson(t),
        lambda x, n, p, e: M.poisson_gamma(x_total=x.sum(axis=0), n=n * e["k"], prior=p),
        lambda d, e: M.poisson_gamma_predictive(distribution=d, n=e["k"]),
        lambda rng: dict(k=[1, 3, 0.5][rng.integers(3)]),
    ),
    S(
        "exponential", gamma, lambda t, e: D.Exponential(t),
        lambda x, n, p, e: M.exponential_gamma(x_total=x.sum(axis=0), n=n, prior=p),
        lambda d, e: M.exponential_gamma_predictive(distribution=d),
    ),
    S(
        "gamma", gamma, lambda t, e: D.Gamma(e["a"], t),
        lambda x, n, p, e: M.gamma_known_shape(x_total=x.sum(axis=0), n=n, alpha=e["a"], prior=p),
        lambda d, e: M.gamma_known_shape_predictive(distribution=d, alpha=e["a"]),
        lambda rng: dict(a=spread(rng)),
    ),
    S(
        "sum of exponentials", gamma, lambda t, e: e["a"] * D.Exponential(t),
        lambda x, n, p, e: M.gamma_known_shape(x_total=x.sum(axis=0), n=n, alpha=e["a"], prior=p),
        lambda d, e: M.gamma_known_shape_predictive(distribution=d, alpha=e["a"]),
        lambda rng: dict(a=int(rng.integers(1, 6))),
    ),
    S(
        "inverse gamma", gamma, lambda t, e: D.InverseGamma(e["a"], t),
        lambda x, n, p, e: M.inverse_gamma_known_rate(reciprocal_x_total=(1 / x).sum(axis=0), n=n, alpha=e["a"], prior=p),
        None, lambda rng: dict(a=spread(rng)),
    ),
    S(
        "pareto", lambda rng: D.Gamma(alpha=spread(rng, 3.0), beta=spread(rng, 0.3, 2)), lambda t, e: D.Pareto(e["m"], t),
        lambda x, n, p, e: M.pareto_gamma(n=n, ln_x_total=np.log(x).sum(axis=0), x_m=e["m"], prior=p),
        None, lambda rng: dict(m=spread(rng)),
    ),
    S(
        "uniform", lambda rng: D.Pareto(x_m=spread(rng), alpha=spread(rng)), lambda t, e: D.Uniform(0.0, t),
        lambda x, n, p, e: M.uniform_pareto(x_max=x.max(axis=0), n=n, prior=p),
    ),
    S(
        "weibull", inverse_gamma, lambda t, e: D.Weibull(e["b"], t),
        lambda x, n, p, e: M.weibull_inverse_gamma_known_shape(n=n, x_beta_total=(x ** e["b"]).sum(axis=0), prior=p),
        None, lambda rng: dict(b=spread(rng, 0.6, 3)),
    ),
    S(
        "normal known variance", lambda rng: D.Normal(level(rng), spread(rng)), lambda t, e: D.Normal.from_mean_and_variance(t, e["v"]),
        lambda x, n, p, e: M.normal_known_variance(x_total=x.sum(axis=0), n=n, var=e["v"], prior=p),
        lambda d, e: M.normal_known_variance_predictive(var=e["v"], distribution=d),
        lambda rng: dict(v=spread(rng)),
    ),
    S(
        "normal known precision", lambda rng: D.Normal(level(rng), spread(rng)), lambda t, e: D.Normal.from_mean_and_precision(t, e["v"]),
        lambda x, n, p, e: M.normal_known_precision(x_total=x.sum(axis=0), n=n, precision=e["v"], prior=p),
        lambda d, e: M.normal_known_precision_predictive(precision=e["v"], distribution=d),
        lambda rng: dict(v=spread(rng)),
    ),
    S(
        "normal known mean", inverse_gamma, lambda t, e: D.Normal.from_mean_and_variance(e["mu"], t),
        lambda x, n, p, e: M.normal_known_mean(x_total=x.sum(axis=0), x2_total=(x**2).sum(axis=0), n=n, mu=e["mu"], prior=p),
        lambda d, e: M.normal_known_mean_predictive(mu=e["mu"], distribution=d),
        lambda rng: dict(mu=level(rng)),
    ),
    S(
        "normal known mean, scaled", lambda rng: D.ScaledInverseChiSquared(spread(rng, 2.0), spread(rng)), lambda t, e: D.Normal(e["mu"], np.sqrt(t)),
        lambda x, n, p, e: M.normal_known_mean(x_total=x.sum(axis=0), x2_total=(x**2).sum(axis=0), n=n, mu=e["mu"], prior=p),
        lambda d, e: M.normal_known_mean_predictive(mu=e["mu"], distribution=d),
        lambda rng: dict(mu=level(rng)),
    ),
]


def one_by_one(x, prior):
    for row in x:
        prior = M.bernoulli_beta(x=row, prior=prior)
    return prior


@unit("C32", quick=6, weight=3)
def univariate(ctx):
    rng = ctx.rng
    for s in STUDIES:
        prior, extra = s.prior(rng), s.extra(rng)
        info = dict(prior=prior, extra=extra)
        ctx.case(s.name, gen.key_of(**prior.__dict__, **extra), sample=(s.name, prior, extra))
        theta = rvs(ctx, prior, N, rng)
        ref = dists.ref_of(prior)
        if ref.name == "Beta":
            theta = np.clip(theta, 1e-12, 1 - 1e-12)
        for u in position(prior, theta, rng):
            uniform(ctx, f"{s.name}: draws from the prior", u, **info)
        like = ctx.call(s.likelihood, theta, extra)
        post = prior
        for n in batches(rng, int(rng.integers(1, 6))):
            x = np.asarray(rvs(ctx, like, (n, N), rng), float)
            if s.name == "inverse gamma":
                x = tiny(x)
            post = ctx.call(s.update, x, n, post, extra)
        for u in position(post, theta, rng):
            uniform(ctx, f"{s.name}: true parameters in the posterior", u, **info)
        if s.predict is not None:
            new = np.asarray(rvs(ctx, like, N, rng), float)
            pred = ctx.call(s.predict, post, extra)
            for u in position(pred, new, rng):
                uniform(ctx, f"{s.name}: new data in the predictive", u, **info)
            new = np.asarray(rvs(ctx, ctx.call(s.likelihood, rvs(ctx, prior, N, rng), extra), N, rng), float)
            for u in position(ctx.call(s.predict, prior, extra), new, rng):
                uniform(ctx, f"{s.name}: data in the prior predictive", u, **info)


def student(mu, scale, df, x):
    return stdtr(df, (x - mu) / scale)


@unit("C32", quick=6, weight=2)
def unknown_mean_and_variance(ctx):
    rng = ctx.rng
    for which in ("nig", "ng"):
        for logs in (False, True):
            mu, k, a, b = level(rng), spread(rng), spread(rng, 1.5), spread(rng)
            if which == "nig":
                prior = D.NormalInverseGamma(mu=mu, nu=k, alpha=a, beta=b)
            else:
                prior = D.NormalGamma(mu=mu, lam=k, alpha=a, beta=b)
            info = dict(prior=prior, logs=logs)
            ctx.case(which, logs, gen.key_of(**prior.__dict__), sample=(prior, logs))
            mean, var = ctx.call(prior.sample_mean, (N,), return_variance=True, random_state=rng)
            mean, var = np.reshape(mean, N), np.reshape(var, N)
            like = D.LogNormal(mean, np.sqrt(var)) if logs else D.Normal.from_mean_and_variance(mean, var)
            post = prior
            for n in batches(rng, int(rng.integers(1, 8))):
                x = rvs(ctx, like, (n, N), rng)
                if logs:
                    x = np.log(x)
                    post = ctx.call(M.log_normal, ln_x_total=x.sum(axis=0), ln_x2_total=(x**2).sum(axis=0), n=n, prior=post)
                else:
                    post = ctx.call(M.normal, x_total=x.sum(axis=0), x2_total=(x**2).sum(axis=0), n=n, prior=post)
            for d, when in ((prior, "prior"), (post, "posterior")):
                weight = hist.f(d.nu if which == "nig" else d.lam)
                m, al, be = hist.f(d.mu), hist.f(d.alpha), hist.f(d.beta)
                uniform(ctx, f"{which}: means in the {when}", student(m, np.sqrt(be / al / weight), 2 * al, mean), **info)
                uniform(ctx, f"{which}: means given variances in the {when}", ndtr((mean - m) * np.sqrt(weight / var)), **info)
                if which == "nig":
                    marginal = d.inverse_gamma
                    u = position(marginal, var, rng)
                else:
                    marginal = d.gamma
                    u = position(marginal, 1 / var, rng)
                for v in u:
                    uniform(ctx, f"{which}: variances in the {when}", v, **info)
                new = rvs(ctx, like, N, rng)
                pred = ctx.call(M.normal_predictive, distribution=d)
                for v in position(pred, np.log(new) if logs else new, rng):
                    uniform(ctx, f"{which}: new data in the {when} predictive", v, **info)
            # forgetting the parameters: simulated again from the posterior
            m2, v2 = ctx.call(post.sample_mean, (N,), return_variance=True, random_state=rng)
            again = np.reshape(m2, N) + np.sqrt(np.reshape(v2, N)) * rng.normal(size=N)
            for v in position(pred, again, rng, own=False):
                uniform(ctx, f"{which}: data simulated from the posterior in its predictive", v, **info)


@unit("C32", quick=6, weight=2)
def categories(ctx):
    rng = ctx.rng
    k = int(rng.integers(2, 6))
    alpha = rng.uniform(0.5, 6, size=k)
    prior, bag = D.Dirichlet(alpha), int(rng.integers(1, 9))
    studies = 4000 if ctx.thorough else 600
    p = rvs(ctx, prior, studies, rng)
    ctx.case("categories", alpha.tobytes(), bag, sample=(prior, bag))
    u, v, w = np.empty(studies), np.empty(studies), np.empty(studies)
    beta_ref, bb = dists.REFS["Beta"], dists.REFS["BetaBinomial"]
    single = rng.integers(2)
    for i in range(studies):
        like = D.Multinomial(1 if single else bag, p[i])
        n = int(rng.integers(1, 6))
        x = rvs(ctx, like, n, rng).sum(axis=0)
        post = ctx.call(M.categorical_dirichlet if single else M.multinomial_dirichlet, x=x, prior=prior)
        j = int(rng.integers(k))
        a, b = post.alpha[j], np.delete(post.alpha, j).sum()
        par = dict(alpha=np.asarray(a, float), beta=np.asarray(b, float))
        u[i] = stat.pit(beta_ref, par, np.array([p[i, j]]), rng)[0]
        new = rvs(ctx, like, 1, rng)[0]
        pred = ctx.call(
            M.categorical_dirichlet_predictive if single else M.multinomial_dirichlet_predictive,
            distribution=post, n=1 if single else bag,
        )
        a, b = pred.alpha[j], np.delete(pred.alpha, j).sum()
        v[i] = stat.pit(bb, dict(n=hist.f(pred.n), alpha=hist.f(a), beta=hist.f(b)), np.array([new[j]]), rng)[0]
        # the category that the posterior was told about most
        j = int(np.argmax(post.alpha))
        a, b = post.alpha[j], post.alpha.sum() - post.alpha[j]
        w[i] = stat.pit(beta_ref, dict(alpha=hist.f(a), beta=hist.f(b)), np.array([p[i, j]]), rng)[0]
    uniform(ctx, "categories: true probabilities in the posterior", u, prior=prior)
    uniform(ctx, "categories: new counts in the predictive", v, prior=prior)
    uniform(ctx, "categories: probability of the most likely category", w, prior=prior)


def mahalanobis(x, m, cov):
    d = np.asarray(x) - m
    return float(d @ np.linalg.solve(cov, d))


def f_cdf(p, df, x):
    from scipy.special import fdtr

    return fdtr(p, df, x)


@unit("C32", quick=6, weight=2)
def vectors(ctx):
    """Multivariate normal models and regression."""
    rng = ctx.rng
    p, studies = int(rng.integers(1, 4)), 3000 if ctx.thorough else 400
    m, S, T = rng.normal(size=p), gen.spd(rng, p, 1.0), gen.spd(rng, p, 1.0)
    ctx.case("vectors", m.tobytes(), S.tobytes(), sample=(m, S))
    inverse = bool(rng.integers(2))
    prior = D.MultivariateNormal(m, S)
    niw = D.NormalInverseWishart(mu=m, kappa=float(rng.gamma(2.0) + 0.3), nu=p + 1.5 + float(rng.gamma(2.0)), psi=S)
    iw = D.InverseWishart(nu=p + 1.5 + float(rng.gamma(2.0)), psi=S)
    reg = D.NormalInverseGamma(mu=m, delta_inverse=S, alpha=1.5 + float(rng.gamma(1.0)), beta=float(rng.gamma(2.0) + 0.3))
    out = {}

    def note(name, u):
        out.setdefault(name, []).append(float(u))

    thetas = np.reshape(rvs(ctx, prior, studies, rng), (studies, p))
    means, covs = ctx.call(niw.sample_mean, studies, return_variance=True, random_state=rng)
    means, covs = np.reshape(means, (studies, p)), np.reshape(covs, (studies, p, p))
    sigmas = np.reshape(rvs(ctx, iw, studies, rng), (studies, p, p))
    betas, variances = ctx.call(reg.sample_beta, studies, return_variance=True, random_state=rng)
    betas, variances = np.reshape(betas, (studies, p)), np.reshape(variances, studies)
    for i in range(studies):
        n = int(rng.integers(1, 5))
        # known covariance
        like = D.MultivariateNormal(thetas[i], T)
        x = np.reshape(rvs(ctx, like, n, rng), (n, p))
        if inverse:
            post = ctx.call(M.multivariate_normal_known_precision, n=n, x_bar=x.mean(axis=0), precision=np.linalg.inv(T), prior=prior)
            pred = ctx.call(M.multivariate_normal_known_precision_predictive, distribution=post, precision=np.linalg.inv(T))
        else:
            post = ctx.call(M.multivariate_normal_known_covariance, n=n, x_bar=x.mean(axis=0), cov=T, prior=prior)
            pred = ctx.call(M.multivariate_normal_known_covariance_predictive, distribution=post, cov=T)
        note("mean with known covariance", chdtr(p, mahalanobis(thetas[i], post.mu, post.cov)))
        j = int(rng.integers(p))
        note("coordinate of the mean", ndtr((thetas[i, j] - post.mu[j]) / np.sqrt(post.cov[j, j])))
        new = np.reshape(rvs(ctx, like, 1, rng), p)
        note("new vector with known covariance", chdtr(p, mahalanobis(new, pred.mu, pred.cov)))
        note("coordinate of a new vector", position(pred[j], np.array([new[j]]), rng)[0][0])
        # unknown mean and covariance
        like = D.MultivariateNormal(means[i], covs[i])
        x = np.reshape(rvs(ctx, like, n, rng), (n, p))
        post = ctx.call(M.multivariate_normal, X=x, prior=niw)
        pred = ctx.call(M.multivariate_normal_predictive, distribution=post)
        note("mean given the covariance", chdtr(p, post.kappa * mahalanobis(means[i], post.mu, covs[i])))
        df = post.nu - p + 1
        scale = post.psi / (post.kappa * df)
        note("mean", f_cdf(p, df, mahalanobis(means[i], post.mu, scale) / p))
        # a diagonal element of an inverse Wishart is inverse gamma
        note("variance", 1 - chdtr(df, post.psi[j, j] / covs[i][j, j]))
        new = np.reshape(rvs(ctx, like, 1, rng), p)
        note("new vector", f_cdf(p, pred.nu, mahalanobis(new, pred.mu, pred.sigma) / p))
        note("coordinate of a new vector, unknown covariance", position(pred[j], np.array([new[j]]), rng)[0][0])
        # known mean
        like = D.MultivariateNormal(m, sigmas[i])
        x = np.reshape(rvs(ctx, like, n, rng), (n, p))
        post = ctx.call(M.multivariate_normal_known_mean, X=x, mu=m, prior=iw)
        note("variance with known mean", 1 - chdtr(post.nu - p + 1, post.psi[j, j] / sigmas[i][j, j]))
        # regression
        X = rng.normal(size=(n, p))
        y = X @ betas[i] + np.sqrt(variances[i]) * rng.normal(size=n)
        post = ctx.call(M.linear_regression, X=X, y=y, prior=reg)
        note("coefficients", chdtr(p, mahalanobis(betas[i], post.mu, post.delta_inverse) / variances[i]))
        for u in position(post.inverse_gamma, variances[i : i + 1], rng)[:1]:
            note("variance of the noise", u[0])
        X = rng.normal(size=(2, p))
        pred = ctx.call(M.linear_regression_predictive, distribution=post, X=X)
        y = X @ betas[i] + np.sqrt(variances[i]) * rng.normal(size=2)
        note("new responses", f_cdf(2, pred.nu, mahalanobis(y, pred.mu, pred.sigma) / 2))
        note("one new response", position(pred[1], y[1:], rng)[0][0])
    for name, u in out.items():
        uniform(ctx, f"vectors: {name}", np.array(u), p=p)


@unit("C32", quick=6)
def directions(ctx):
    """The von Mises direction, and sums of counts as one longer period."""
    rng = ctx.rng
    a, b, kappa = float(rng.gamma(2.0) + 0.2), float(rng.uniform(0, 2 * np.pi)), float(rng.gamma(2.0) + 0.3)
    ref = dists.REFS["VonMises"]
    studies, n = 6000, int(rng.integers(1, 6))
    ctx.case("directions", a, b, kappa, n, sample=(a, b, kappa, n))
    mu = rvs(ctx, D.VonMises(b - 2 * np.pi if b > np.pi else b, a), studies, rng)
    prior = D.VonMisesKnownConcentration(a=a, b=b)
    x = rvs(ctx, D.VonMises(mu, kappa), (n, studies), rng)
    post = ctx.call(
        M.von_mises_known_concentration, cos_total=np.cos(x).sum(axis=0), sin_total=np.sin(x).sum(axis=0),
        n=n, kappa=kappa, prior=prior,
    )
    for d, when in ((prior, "prior"), (post, "posterior")):
        # the likelihood is that of a von Mises distribution with concentration a around b
        p = dict(mu=hist.f(d.b), kappa=hist.f(d.a))
        uniform(ctx, f"directions: true directions in the {when}", stat.pit(ref, p, mu, rng), prior=prior, kappa=kappa)
    rate = D.Gamma(1.5, 0.7)
    lam = rvs(ctx, rate, studies, rng)
    parts = [D.Poisson(lam), D.Poisson(2 * lam), 3 * D.Poisson(lam)]
    total = parts[0] + parts[1] + parts[2]
    x = rvs(ctx, total, studies, rng)
    post = ctx.call(M.poisson_gamma, x_total=x, n=6, prior=rate)
    for u in position(post, lam, rng):
        uniform(ctx, "sums: true rates in the posterior", u)


