"""Monitors of the predictives (properties "C07", "C08", "C09")."""

import numpy as np
from scipy.special import multigammaln

from conjugate import distributions as D
from conjugate import models as M

from vmon import gen, preds
from vmon.checks.dist_checks import close, points
from vmon.core import rule, unit

rule(
    "C07",
    "Predictives of random priors and of posteriors after random data, in all argument "
    "layouts, evaluated over their quantiles and the whole support; judged by the closed form "
    "of the marginal, by numerical averages of the likelihood, and by sums over the support; a "
    "case is one predictive call; distinct by its arguments.",
    ["scipy's special functions"],
)
rule(
    "C08",
    "Predictives of random priors and of posteriors after random data, in all argument "
    "layouts, evaluated at quantiles and in both tails; judged by the closed form of the "
    "marginal and by numerical averages of the likelihood; a case is one predictive call; "
    "distinct by its arguments.",
    ["scipy's special functions"],
)
rule(
    "C09",
    "Predictives of random multivariate distributions in one to six dimensions (also after "
    "random updates), at random points; judged by ratios of normalising constants; a case is "
    "one predictive call; distinct by its arguments.",
    ["condition numbers up to 1e4"],
)


def judge(ctx, name, kw, pred):
    ref, p = preds.marginal(name, kw)
    shape = ref.shape(p)
    if ref.name == "BetaNegativeBinomial":
        x = np.arange(-1.0, 30).reshape((-1,) + (1,) * len(shape)) + np.zeros(shape)
    else:
        x = np.clip(points(ref, p), -1e30, 1e30)
    dist = ctx.call(lambda: pred.dist)
    got = ctx.call(dist.pmf if ref.discrete else dist.pdf, x)
    ctx.event(f"values {name}", np.size(x))
    want = np.exp(ref.logpdf(p, x))
    ctx.ok(
        close(got, want, 3e-7, 1e-13),
        f"{name}: not the likelihood averaged over the distribution",
        kwargs=kw, predictive=pred, x=x, got=got, expected=want,
    )
    got = ctx.call(dist.cdf, x)
    want = ref.cdf(p, x)
    ctx.ok(
        close(got, want, 1e-6, 1e-9),
        f"{name}: distribution function of the predictive",
        kwargs=kw, predictive=pred, x=x, got=got, expected=want,
    )


# predictive -> (model, its data arguments become these predictive arguments)
AFTER = {
    "binomial_beta_predictive": "binomial_beta",
    "bernoulli_beta_predictive": "bernoulli_beta",
    "negative_binomial_beta_predictive": "negative_binomial_beta",
    "geometric_beta_predictive": "geometric_beta",
    "poisson_gamma_predictive": "poisson_gamma",
    "exponential_gamma_predictive": "exponential_gamma",
    "gamma_known_shape_predictive": "gamma_known_shape",
    "normal_known_variance_predictive": "normal_known_variance",
    "normal_known_precision_predictive": "normal_known_precision",
    "normal_known_mean_predictive": "normal_known_mean",
    "normal_predictive": "normal",
    "normal_normal_inverse_gamma_predictive": "normal",
}


def closed(ctx, names):
    from vmon import bayes

    for name in names:
        L = gen.Layout(ctx.rng)
        kw = preds.gen_predictive(name, L)
        if ctx.rng.integers(3) == 0:
            # after an update with data of the same layout
            model = AFTER[name]
            for _ in range(20):
                mkw = bayes.gen_elementwise(model, ctx.rng, L, wide=False)
                if isinstance(mkw["prior"], type(kw["distribution"])):
                    break
            else:
                continue
            post = ctx.call(getattr(M, model), **mkw)
            kw["distribution"] = post
            if "n" in kw and model == "poisson_gamma":
                kw["n"] = mkw["n"] if np.all(np.asarray(mkw["n"]) > 0) else 1
            if name == "negative_binomial_beta_predictive" and np.max(post.alpha) > 400:
                continue
        pred = ctx.call(getattr(M, name), **kw)
        ctx.case(name, gen.key_of(**kw), sample=(name, kw))
        judge(ctx, name, kw, pred)


@unit("C07", quick=64, weight=3)
def discrete(ctx):
    closed(ctx, preds.DISCRETE)


@unit("C08", quick=90)
def continuous(ctx):
    closed(ctx, preds.CONTINUOUS)


def averaged(ctx, names):
    """Scalar calls against the numerical average of the likelihood."""
    for name in names:
        L = gen.Layout(ctx.rng, ["pyscalar", "npscalar", "zerod"][ctx.rng.integers(3)])
        kw = preds.gen_predictive(name, L, wide=False)
        ref, p = preds.marginal(name, kw)
        if ref.discrete:
            hi = float(np.max(np.minimum(ref.support(p)[1], 25)))
            lo = float(np.max(ref.support(p)[0]))
            x = np.unique(np.round(ctx.rng.uniform(lo, hi, size=7)))
        else:
            x = ref.quantile(p, ctx.rng.uniform(1e-4, 1 - 1e-4, size=7))
        pred = ctx.call(getattr(M, name), **kw)
        ctx.case("average", name, gen.key_of(**kw), sample=(name, kw))
        got = ctx.call(pred.dist.pmf if ref.discrete else pred.dist.pdf, x)
        want = np.exp(preds.average(name, kw, x))
        ctx.ok(
            close(got, want, 1e-6, 1e-12),
            f"{name}: not the numerical average of the likelihood",
            kwargs=kw, predictive=pred, x=x, got=got, expected=want,
        )


@unit("C07", quick=24, weight=2)
def discrete_averaged(ctx):
    averaged(ctx, preds.DISCRETE)


@unit("C08", quick=24, weight=2)
def continuous_averaged(ctx):
    averaged(ctx, preds.CONTINUOUS)


@unit("C07", quick=40, weight=2)
def total_probability(ctx):
    """Probabilities add up: over the support, or to the distribution function."""
    for name in preds.DISCRETE:
        L = gen.Layout(ctx.rng)
        kw = preds.gen_predictive(name, L, wide=False)
        ref, p = preds.marginal(name, kw)
        shape = ref.shape(p)
        pred = ctx.call(getattr(M, name), **kw)
        ctx.case("total", name, gen.key_of(**kw), sample=(name, kw))
        lo, hi = ref.support(p)
        top = float(np.max(hi)) if np.all(np.isfinite(hi)) else 60.0
        x = np.arange(-3.0, top + 4).reshape((-1,) + (1,) * len(shape)) + np.zeros(shape)
        pmf = ctx.call(pred.dist.pmf, x)
        ctx.ok(
            np.all(np.isfinite(pmf)) and np.all(pmf >= 0) and np.all(pmf <= 1 + 1e-12),
            f"{name}: not a probability", kwargs=kw, got=pmf,
        )
        sums = np.cumsum(pmf, axis=0)
        outside = (x < np.asarray(lo)) | (x > np.asarray(hi))
        ctx.ok(np.all(pmf[outside] == 0), f"{name}: probability outside the support", kwargs=kw)
        if np.all(np.isfinite(hi)):
            ctx.ok(
                np.allclose(sums[-1], 1, atol=1e-8),
                f"{name}: probabilities do not sum to one", kwargs=kw, total=sums[-1],
            )
        cdf = ctx.call(pred.dist.cdf, x)
        ctx.ok(
            np.allclose(sums, cdf, atol=1e-8),
            f"{name}: probabilities do not sum to the distribution function",
            kwargs=kw, sums=sums, cdf=cdf,
        )


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


@unit("C07", quick=60)
def categorical(ctx):
    rng = ctx.rng
    for name in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
        k = int(rng.integers(2, 5))
        n = int(rng.integers(1, 7))
        alpha = gen.positive_any(0.2, 40)(rng, (k,))
        if rng.integers(2):
            prior = D.Dirichlet(alpha.tolist() if rng.integers(2) else alpha)
            x = rng.integers(0, 9, size=k)
            d = ctx.call(getattr(M, name[: -len("_predictive")]), x=x, prior=prior)
            alpha = alpha + x
        else:
            d = D.Dirichlet(alpha.tolist() if rng.integers(3) == 0 else alpha)
        kw = dict(distribution=d)
        if n > 1 or rng.integers(2):
            kw["n"] = n
        pred = ctx.call(getattr(M, name), **kw)
        ctx.case(name, n, gen.key_of(alpha=alpha), sample=(name, kw))
        outcomes = np.array(list(compositions(n, k)))
        got = ctx.call(pred.dist.pmf, outcomes)
        want = np.exp([preds.polya(alpha, o) for o in outcomes])
        ctx.event(f"values {name}", len(outcomes))
        ctx.ok(
            close(got, want, 1e-8, 1e-14),
            f"{name}: not the likelihood averaged over the distribution",
            kwargs=kw, predictive=pred, outcomes=outcomes, got=got, expected=want,
        )
        ctx.ok(abs(np.sum(got) - 1) < 1e-9, f"{name}: does not sum to one", kwargs=kw)
        more = outcomes[0].copy()
        more[0] += 1
        ctx.ok(ctx.call(pred.dist.pmf, more) == 0, f"{name}: outcome of other total", kwargs=kw)
        if n == 1:
            ctx.ok(
                close(got, (outcomes @ alpha) / alpha.sum(), 1e-9, 0),
                f"{name}: chance of each category", kwargs=kw, got=got,
            )
        # several numbers of draws, and several distributions
        b = int(rng.integers(1, 5))
        ns = rng.integers(1, 9, size=b)
        rows = gen.positive_any(0.2, 40)(rng, (b, k)) if rng.integers(2) else alpha
        kw = dict(distribution=D.Dirichlet(rows), n=ns)
        pred = ctx.call(getattr(M, name), **kw)
        ctx.case(name, gen.key_of(alpha=rows, n=ns), sample=(name, kw))
        outcome = np.stack([rng.multinomial(m, rng.dirichlet(np.ones(k))) for m in ns])
        got = ctx.call(pred.dist.pmf, outcome)
        want = np.exp([preds.polya(a, o) for a, o in zip(np.broadcast_to(rows, (b, k)), outcome)])
        ctx.ok(
            close(got, want, 1e-8, 1e-14), f"{name}: not the likelihood averaged over each distribution",
            kwargs=kw, predictive=pred, outcomes=outcome, got=got, expected=want,
        )


# ------------------------------------------------------------ multivariate
def lognormal_mv(x, mu, cov):
    d = x - mu
    return -0.5 * (
        d @ np.linalg.solve(cov, d) + np.linalg.slogdet(cov)[1]
        + len(np.atleast_1d(mu)) * np.log(2 * np.pi)
    )


def candidate(x, mu, cov, noise):
    """log marginal by likelihood * prior / posterior at one point."""
    lam0, lam = np.linalg.inv(cov), np.linalg.inv(noise)
    post_cov = np.linalg.inv(lam0 + lam)
    post_mu = post_cov @ (lam0 @ mu + lam @ x)
    at = post_mu
    return (
        lognormal_mv(x, at, noise) + lognormal_mv(at, mu, cov)
        - lognormal_mv(at, post_mu, post_cov)
    )


@unit("C09", quick=120)
def mvn_known(ctx):
    rng = ctx.rng
    p = gen.few(rng, 1, 7, 16)
    mu, cov, noise = rng.normal(size=p) * 3, gen.spd(rng, p), gen.spd(rng, p)
    prior = D.MultivariateNormal(mu=mu, cov=cov)
    by_precision = bool(rng.integers(2))
    arg = (
        dict(precision=np.linalg.inv(noise)) if by_precision else dict(cov=noise)
    )
    name = f"multivariate_normal_known_{'precision' if by_precision else 'covariance'}"
    if rng.integers(3) == 0:
        prior = ctx.call(
            getattr(M, name), n=int(rng.integers(1, 9)), x_bar=rng.normal(size=p) * 3,
            prior=prior, **arg,
        )
        mu, cov = np.asarray(prior.mu), np.asarray(prior.cov)
    pred = ctx.call(getattr(M, name + "_predictive"), distribution=prior, **arg)
    ctx.case(name, gen.key_of(mu=mu, cov=cov, noise=noise), sample=(name, prior, arg))
    xs = mu + rng.normal(size=(6, p)) @ np.linalg.cholesky(cov + noise).T * rng.choice([0.3, 1, 3])
    got = np.atleast_1d(ctx.call(pred.dist.logpdf, xs))
    want = np.array([candidate(x, mu, cov, noise) for x in xs])
    ctx.event("values mvn", len(xs))
    ctx.ok(
        close(got, want, 1e-6, 1e-5), f"{name}_predictive: not the averaged likelihood",
        prior=prior, noise=noise, x=xs, got=got, expected=want,
    )
    # every axis
    i = int(rng.integers(p))
    uni = ctx.call(
        M.normal_known_variance_predictive,
        distribution=D.Normal(mu=mu[i], sigma=cov[i, i] ** 0.5), var=noise[i, i],
    )
    grid = uni.mu + uni.sigma * np.array([-3.0, -1, 0, 0.4, 2])
    a, b = ctx.call(pred[i].dist.pdf, grid), ctx.call(uni.dist.pdf, grid)
    ctx.ok(close(a, b, 1e-6, 0), "axis disagrees with the univariate predictive", axis=i,
           prior=prior, noise=noise, got=a, expected=b)
    # random direction: variance of the projection
    w = rng.normal(size=p)
    v = w @ np.asarray(pred.cov) @ w
    ctx.ok(
        np.isclose(v, w @ cov @ w + w @ noise @ w, rtol=1e-6)
        and np.isclose(w @ np.asarray(pred.mu), w @ mu, rtol=1e-8, atol=1e-8),
        "projection of the predictive", prior=prior, noise=noise, w=w,
    )


def niw_marginal(x, mu, kappa, nu, psi):
    """log marginal of one observation as a ratio of normalising constants."""
    p = len(mu)
    d = x - mu
    psi1 = psi + kappa / (kappa + 1) * np.outer(d, d)
    return (
        -p / 2 * np.log(np.pi)
        + p / 2 * np.log(kappa / (kappa + 1))
        + nu / 2 * np.linalg.slogdet(psi)[1]
        - (nu + 1) / 2 * np.linalg.slogdet(psi1)[1]
        + multigammaln((nu + 1) / 2, p)
        - multigammaln(nu / 2, p)
    )


@unit("C09", quick=120)
def mvn_unknown(ctx):
    rng = ctx.rng
    p = gen.few(rng, 1, 7, 16)
    mu, psi = rng.normal(size=p) * 3, gen.spd(rng, p)
    kappa = float(np.exp(rng.normal(0, 1.5))) if rng.integers(2) else int(rng.integers(1, 6))
    nu = p - 1 + float(np.exp(rng.normal(1, 1)))
    if rng.integers(3) == 0:
        nu = p + int(rng.integers(0, 5))
    d = D.NormalInverseWishart(mu=mu, kappa=kappa, nu=nu, psi=psi)
    if rng.integers(3) == 0:
        d = ctx.call(M.multivariate_normal, X=rng.normal(size=(int(rng.integers(1, 9)), p)) * 2, prior=d)
        mu, kappa, nu, psi = (np.asarray(d.mu), float(d.kappa), float(d.nu), np.asarray(d.psi))
    pred = ctx.call(M.multivariate_normal_predictive, distribution=d)
    ctx.case("niw", gen.key_of(mu=mu, psi=psi, kappa=kappa, nu=nu), sample=d)
    xs = mu + rng.normal(size=(6, p)) @ np.linalg.cholesky(psi).T * rng.choice([0.1, 1, 4])
    got = np.atleast_1d(ctx.call(pred.dist.logpdf, xs))
    want = np.array([niw_marginal(x, mu, kappa, nu, psi) for x in xs])
    ctx.event("values niw", len(xs))
    ctx.ok(
        close(got, want, 1e-6, 1e-5),
        "multivariate_normal_predictive: not the averaged likelihood",
        distribution=d, x=xs, got=got, expected=want,
    )
    i = int(rng.integers(p))
    uni = ctx.call(
        M.normal_predictive,
        distribution=D.NormalInverseGamma(
            mu=mu[i], nu=kappa, alpha=(nu - p + 1) / 2, beta=psi[i, i] / 2
        ),
    )
    grid = uni.mu + uni.sigma * np.array([-3.0, -1, 0, 0.4, 2])
    a, b = ctx.call(pred[i].dist.pdf, grid), ctx.call(uni.dist.pdf, grid)
    ctx.ok(close(a, b, 1e-6, 0), "axis disagrees with the univariate predictive", axis=i,
           distribution=d, got=a, expected=b)


@unit("C09", quick=30)
def one_dimension(ctx):
    """In one dimension the density is the univariate marginal, also in total mass."""
    rng = ctx.rng
    mu, s2, n2 = rng.normal() * 3, np.exp(rng.normal()), np.exp(rng.normal())
    pred = ctx.call(
        M.multivariate_normal_known_covariance_predictive,
        distribution=D.MultivariateNormal(mu=np.array([mu]), cov=np.array([[s2]])),
        cov=np.array([[n2]]),
    )
    ctx.case("1d", mu, s2, n2)
    sd = np.sqrt(s2 + n2)
    x = mu + sd * np.linspace(-10, 10, 801)
    mass = np.sum(ctx.call(pred.dist.pdf, x[:, None])) * (x[1] - x[0])
    ctx.ok(abs(mass - 1) < 1e-8, "density does not integrate to one", mass=mass)
    m = np.sum(pred.dist.pdf(x[:, None]) * (x - mu) ** 2) * (x[1] - x[0])
    ctx.ok(np.isclose(m, s2 + n2, rtol=1e-7), "variance of the predictive", got=m, want=s2 + n2)
