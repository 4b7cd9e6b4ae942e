"""Monitors of constructors, equivalent routes and arithmetic ("C25", "C26", "C27")."""

import operator
import warnings
from fractions import Fraction
from functools import reduce

import numpy as np
from scipy.special import gammaln

from conjugate import distributions as D
from conjugate import models as M

from vmon import dists, gen, hist, stat
from vmon.checks.dist_checks import judge_univariate
from vmon.core import rule, unit
from vmon.session import encode

rule(
    "C25",
    "Every alternative constructor and conversion with random arguments in all layouts; the "
    "described quantity is read back from the distribution; a case is one call; distinct by "
    "its arguments.",
    ["agreement within 1e-9 relative for parameters, 1e-7 for moments of scipy"],
)
rule(
    "C26",
    "Pairs of routes through models, predictives, distributions and samplers that describe the "
    "same situation, on the same random inputs in all layouts; a case is one pair on one input; "
    "distinct by route and input.",
    ["agreement within 1e-9 relative, plus 1e-12 of the added terms"],
)
rule(
    "C27",
    "Products with numbers of every kind from both sides, sums of Poissons and nested "
    "expressions, compared with reference laws and with numerical convolution of the operands; "
    "a case is one expression; distinct by its parameters and multiplier.",
    ["agreement with numerical convolutions within 1e-6"],
)

POS = gen.positive_any(0.05, 60)


def fields(d):
    return {k: getattr(d, k) for k in d.__dataclass_fields__}


def near(a, b, rtol=1e-9, size=0.0):
    try:
        a, b = np.broadcast_arrays(hist.f(a), hist.f(b))
    except ValueError:
        return False
    return bool(np.all((abs(a - b) <= rtol * abs(b) + 1e-12 * size + 1e-300) | (a == b)))


def same(ctx, what, a, b, /, size=0.0, **info):
    """Two distributions of one class have the same parameters."""
    if not ctx.ok(type(a) is type(b), f"{what}: {type(a).__name__} against {type(b).__name__}", **info):
        return
    for k in fields(a):
        x, y = getattr(a, k), getattr(b, k)
        if x is None or y is None or isinstance(x, bool):
            ctx.ok(x is y or x == y, f"{what}: {k} is {x} against {y}", **info)
            continue
        ctx.ok(near(x, y, size=size), f"{what}: {k} is {x} on one route and {y} on the other", **info)
    ctx.event("pairs of results")


# ------------------------------------------------------------ constructors
@unit("C25", quick=60)
def constructors(ctx):
    rng = ctx.rng
    L = gen.Layout(rng)
    v = lambda lo=0.05, hi=60: L.value(gen.positive_any(lo, hi))  # noqa: E731

    def a_mean(r, s):
        if r.integers(3):
            return r.uniform(0.01, 0.99, size=s)
        return 1 / (1 + np.exp(r.uniform(-14, 14, size=s)))

    mean, alpha = L.value(a_mean), v()
    d = ctx.call(D.Beta.from_mean, mean=mean, alpha=alpha)
    ctx.case("from_mean", gen.key_of(m=mean, a=alpha), sample=("Beta.from_mean", mean, alpha))
    ctx.ok(near(d.alpha, alpha), f"Beta.from_mean: alpha is {d.alpha} instead of {alpha}")
    ctx.ok(near(d.dist.mean(), mean), f"Beta.from_mean: the mean is {d.dist.mean()} instead of {mean}", alpha=alpha)
    ctx.ok(
        near(hist.f(d.alpha) / (hist.f(d.alpha) + hist.f(d.beta)), mean),
        f"Beta.from_mean: the mean of {d} is not {mean}",
    )
    ctx.ok(isinstance(d, D.Beta), "Beta.from_mean returned something else")

    s, f = L.value(gen.count(60)), L.value(gen.count(60))
    d = ctx.call(D.Beta.from_successes_and_failures, successes=s, failures=f)
    ctx.case("successes", gen.key_of(s=s, f=f), sample=("from_successes_and_failures", s, f))
    x = rng.uniform(0.02, 0.98, size=2).reshape((2,) + (1,) * max(np.ndim(s), np.ndim(f)))
    got = np.diff(ctx.call(d.dist.logpdf, x), axis=0)
    want = hist.f(s) * np.diff(np.log(x), axis=0) + hist.f(f) * np.diff(np.log1p(-x), axis=0)
    ctx.ok(near(got, want, 1e-8, 1e4), f"density of {d} is not that of {s} successes and {f} failures on a flat prior")
    flat = ctx.call(D.Beta.uninformative)
    same(ctx, "flat prior and evidence", d, M.binomial_beta(n=s + f, x=s, prior=flat))
    ctx.ok(near(flat.dist.pdf(np.array([0.01, 0.4, 0.99])), 1.0), f"Beta.uninformative is {flat}")

    o, n = v(), v()
    d = ctx.call(D.Gamma.from_occurrences_in_intervals, occurrences=o, intervals=n)
    ctx.case("occurrences", gen.key_of(o=o, n=n), sample=("from_occurrences_in_intervals", o, n))
    ctx.ok(near(d.dist.mean(), hist.f(o) / hist.f(n), 1e-8), f"rate of {d} is not {o} in {n} intervals")
    ctx.ok(near(d.dist.var(), hist.f(o) / hist.f(n) ** 2, 1e-8), f"variance of {d} is not that of {o} in {n} intervals")
    more = M.poisson_gamma(x_total=o, n=n, prior=d)
    same(ctx, "evidence twice", more, D.Gamma.from_occurrences_in_intervals(occurrences=2 * o, intervals=2 * n))

    mu, var = L.value(gen.real()), v()
    d = ctx.call(D.Normal.from_mean_and_variance, mean=mu, variance=var)
    ctx.case("variance", gen.key_of(m=mu, v=var), sample=("from_mean_and_variance", mu, var))
    ctx.ok(near(d.dist.mean(), mu) and near(d.dist.var(), var), f"Normal.from_mean_and_variance({mu}, {var}) is {d}")
    ctx.ok(near(d.mu, mu) and near(hist.f(d.sigma) ** 2, var), f"Normal.from_mean_and_variance({mu}, {var}) is {d}")
    d = ctx.call(D.Normal.from_mean_and_precision, mean=mu, precision=var)
    ctx.case("precision", gen.key_of(m=mu, v=var), sample=("from_mean_and_precision", mu, var))
    ctx.ok(
        near(d.dist.mean(), mu) and near(1 / d.dist.var(), var) and near(d.mu, mu),
        f"Normal.from_mean_and_precision({mu}, {var}) is {d}",
    )
    sd = v()
    d = ctx.call(D.Normal.uninformative, sigma=sd)
    ctx.ok(near(d.dist.mean(), 0 * hist.f(sd)) and near(d.dist.std(), sd), f"Normal.uninformative({sd}) is {d}")
    d = ctx.call(D.Normal.uninformative)
    ctx.ok(near(d.dist.cdf(np.array([0.0, 1.0])), [0.5, 0.8413447460685429]), f"Normal.uninformative() is {d}")

    k = int(rng.integers(1, 9))
    d = ctx.call(D.Dirichlet.uninformative, k)
    ctx.case("dirichlet", k, sample=("Dirichlet.uninformative", k))
    ctx.ok(np.shape(d.alpha) == (k,) and near(d.alpha, np.ones(k)), f"Dirichlet.uninformative({k}) is {d}")
    if k > 1:
        x = rng.dirichlet(np.ones(k) * 3)
        ctx.ok(near(d.dist.logpdf(x), gammaln(k)), f"the density of {d} is not constant")
    ctx.event("constructed", 9)


@unit("C25", quick=60)
def conversions(ctx):
    rng = ctx.rng
    L = gen.Layout(rng)
    v = lambda: L.value(POS)  # noqa: E731
    x_of = lambda d: np.exp(rng.normal(size=3)).reshape((3,) + (1,) * 3)  # noqa: E731

    ig = D.InverseGamma(alpha=v(), beta=v())
    s = ctx.call(D.ScaledInverseChiSquared.from_inverse_gamma, ig)
    back = ctx.call(s.to_inverse_gamma)
    ctx.case("from inverse gamma", gen.key_of(d=ig), sample=("from_inverse_gamma", ig))
    same(ctx, "inverse gamma there and back", back, ig)
    x = x_of(ig)
    ctx.ok(near(s.dist.logpdf(x), ig.dist.logpdf(x), 1e-9, 1e4), f"densities of {ig} and {s} differ")
    ctx.ok(near(s.dist.cdf(x), ig.dist.cdf(x), 1e-7, 1), f"distribution functions of {ig} and {s} differ")
    ctx.ok(near(s.nu, 2 * hist.f(ig.alpha)) and near(hist.f(s.sigma2) * hist.f(ig.alpha), ig.beta), f"{ig} became {s}")

    s = D.ScaledInverseChiSquared(nu=v(), sigma2=v())
    ig = ctx.call(s.to_inverse_gamma)
    back = ctx.call(D.ScaledInverseChiSquared.from_inverse_gamma, ig)
    ctx.case("to inverse gamma", gen.key_of(d=s), sample=("to_inverse_gamma", s))
    same(ctx, "scaled inverse chi squared there and back", back, s)
    ctx.ok(isinstance(ig, D.InverseGamma), f"to_inverse_gamma returned {ig!r}")
    ctx.ok(near(s.dist.logpdf(x), ig.dist.logpdf(x), 1e-9, 1e4), f"densities of {s} and {ig} differ")

    ig, mu, nu = D.InverseGamma(alpha=v(), beta=v()), L.value(gen.real()), v()
    d = ctx.call(D.NormalInverseGamma.from_inverse_gamma, mu=mu, inverse_gamma=ig, nu=nu)
    ctx.case("joint", gen.key_of(d=ig, mu=mu, nu=nu), sample=("NormalInverseGamma.from_inverse_gamma", mu, ig, nu))
    ctx.ok(near(d.mu, mu) and near(d.nu, nu) and d.delta_inverse is None, f"{ig}, {mu}, {nu} became {d}")
    same(ctx, "variance of the joint distribution", ctx.call(lambda: d.inverse_gamma), ig)
    p = int(rng.integers(1, 5))
    m, delta = rng.normal(size=p), gen.spd(rng, p, 1.0)
    one = D.InverseGamma(float(rng.gamma(2.0) + 0.1), float(rng.gamma(2.0) + 0.1))
    d = ctx.call(D.NormalInverseGamma.from_inverse_gamma, mu=m, inverse_gamma=one, delta_inverse=delta)
    ctx.case("joint nd", m.tobytes(), sample=("NormalInverseGamma.from_inverse_gamma", p))
    ctx.ok(np.array_equal(d.mu, m) and np.array_equal(d.delta_inverse, delta) and d.nu is None, f"{one}, {m} became {d}")
    same(ctx, "variance of the joint distribution", d.inverse_gamma, one)

    g = D.NormalGamma(mu=mu, lam=nu, alpha=v(), beta=v())
    same(ctx, "precision of the joint distribution", ctx.call(lambda: g.gamma), D.Gamma(g.alpha, g.beta))
    iw = D.InverseWishart(nu=p + float(rng.gamma(2.0)), psi=delta)
    kappa = float(rng.gamma(2.0) + 0.1)
    d = ctx.call(D.NormalInverseWishart.from_inverse_wishart, mu=m, kappa=kappa, inverse_wishart=iw)
    ctx.case("from inverse Wishart", m.tobytes(), iw.nu, sample=("from_inverse_wishart", m, kappa, iw))
    ctx.ok(np.array_equal(d.mu, m) and d.kappa == kappa, f"{iw} became {d}")
    back = ctx.call(lambda: d.inverse_wishart)
    same(ctx, "inverse Wishart there and back", back, iw)
    y = gen.spd(rng, p, 1.0)
    ctx.ok(near(back.dist.logpdf(y), iw.dist.logpdf(y)), "density of the inverse Wishart changed")
    nw = D.NormalWishart(mu=m, lam=kappa, W=delta, nu=p + 1.5)
    w = ctx.call(lambda: nw.wishart)
    ctx.ok(near(w.nu, p + 1.5) and np.array_equal(w.V, delta), f"the Wishart part of {nw} is {w}")
    ctx.event("converted", 7)


@unit("C25", quick=40)
def wide_conversions(ctx):
    """Conversions of parameters of any magnitude."""
    rng = ctx.rng
    L = gen.Layout(rng)
    v = lambda: L.value(gen.positive(1e-12, 1e12))  # noqa: E731
    a, b, c = v(), v(), v()
    ctx.case("wide", gen.key_of(a=a, b=b, c=c), sample=(a, b, c))
    ig = D.InverseGamma(alpha=a, beta=b)
    s = ctx.call(D.ScaledInverseChiSquared.from_inverse_gamma, ig)
    ctx.ok(near(s.nu, 2 * hist.f(a)) and near(s.sigma2, hist.f(b) / hist.f(a)), f"{ig} became {s}")
    same(ctx, "inverse gamma there and back", ctx.call(s.to_inverse_gamma), ig)
    s = D.ScaledInverseChiSquared(nu=a, sigma2=b)
    ig = ctx.call(s.to_inverse_gamma)
    ctx.ok(near(ig.alpha, hist.f(a) / 2) and near(ig.beta, hist.f(a) * hist.f(b) / 2), f"{s} became {ig}")
    same(ctx, "scaled inverse chi squared there and back", ctx.call(D.ScaledInverseChiSquared.from_inverse_gamma, ig), s)
    d = ctx.call(D.NormalInverseGamma.from_inverse_gamma, mu=c, inverse_gamma=ig, nu=b)
    ctx.ok(near(d.mu, c) and near(d.nu, b) and near(d.alpha, ig.alpha) and near(d.beta, ig.beta), f"{ig}, {c}, {b} became {d}")
    same(ctx, "variance of the joint distribution", ctx.call(lambda: d.inverse_gamma), ig)
    g = D.NormalGamma(mu=c, lam=b, alpha=a, beta=b)
    same(ctx, "precision of the joint distribution", ctx.call(lambda: g.gamma), D.Gamma(a, b))
    d = ctx.call(D.Gamma.from_occurrences_in_intervals, occurrences=a, intervals=b)
    ctx.ok(near(d.dist.mean(), hist.f(a) / hist.f(b)), f"rate of {d} is not {a} in {b} intervals")
    d = ctx.call(D.Normal.from_mean_and_variance, mean=c, variance=b)
    ctx.ok(near(d.mu, c) and near(hist.f(d.sigma) ** 2, b), f"Normal.from_mean_and_variance({c}, {b}) is {d}")
    d = ctx.call(D.Normal.from_mean_and_precision, mean=c, precision=b)
    ctx.ok(near(d.mu, c) and near(1 / hist.f(d.sigma) ** 2, b), f"Normal.from_mean_and_precision({c}, {b}) is {d}")
    s1, s2 = L.value(gen.count(10**9)), L.value(gen.count(10**9))
    d = ctx.call(D.Beta.from_successes_and_failures, successes=s1, failures=s2)
    ctx.ok(
        near(d.alpha, hist.f(s1) + 1) and near(d.beta, hist.f(s2) + 1), f"{s1} successes and {s2} failures became {d}"
    )
    d = ctx.call(D.Normal.uninformative, sigma=a)
    ctx.ok(near(d.sigma, a) and near(d.mu, 0), f"Normal.uninformative({a}) is {d}")
    ctx.event("converted", 9)


@unit("C25", quick=20)
def marginals_of_joints(ctx):
    """The marginals read from a joint distribution are those of its samples and densities."""
    rng = ctx.rng
    v = rng.gamma(2.0, size=4) + 0.3
    d = D.NormalInverseGamma(mu=0.3, nu=v[0], alpha=v[1], beta=v[2])
    g = D.NormalGamma(mu=0.3, lam=v[0], alpha=v[1], beta=v[2])
    x = np.exp(rng.normal(size=5))
    ctx.case("marginals", v.tobytes(), sample=(d, g))
    # change of variable between variance and precision
    ctx.ok(
        near(d.inverse_gamma.dist.logpdf(x), g.gamma.dist.logpdf(1 / x) - 2 * np.log(x), 1e-9, 1e3),
        "the variance of a normal inverse gamma and the precision of a normal gamma do not match", d=d, g=g,
    )
    judge_univariate(ctx, d.inverse_gamma, full=False)
    judge_univariate(ctx, g.gamma, full=False)


# ------------------------------------------------------- equivalent routes
def warned(ctx, what, call):
    """The result of a deprecated call, which has to warn."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        result = ctx.call(call)
    kinds = [w.category for w in caught]
    ctx.ok(any(issubclass(k, DeprecationWarning) for k in kinds), f"{what}: no deprecation warning but {kinds}")
    ctx.event("deprecation warnings", len(kinds))
    return result


@unit("C26", quick=50)
def counting(ctx):
    rng = ctx.rng
    L = gen.Layout(rng)
    beta = D.Beta(alpha=L.value(POS), beta=L.value(POS))
    gamma = D.Gamma(alpha=L.value(POS), beta=L.value(POS))
    bit = L.wrap(rng.integers(0, 2, size=L.shape()))
    n, x, r = L.value(gen.count(60)), L.value(gen.count(60)), L.value(gen.positive_int(1, 9))
    t = L.value(POS)
    info = dict(beta=beta, gamma=gamma, n=n, x=x, r=r, t=t, bit=bit)
    ctx.case("counting", gen.key_of(**info), sample=info)
    c = ctx.call
    same(ctx, "Bernoulli and one trial", c(M.bernoulli_beta, x=bit, prior=beta), c(M.binomial_beta, n=1, x=bit, prior=beta), **info)
    same(
        ctx, "predictives of Bernoulli and one trial",
        c(M.bernoulli_beta_predictive, distribution=beta), c(M.binomial_beta_predictive, n=1, distribution=beta), **info,
    )
    same(
        ctx, "geometric from zero and one failure negative binomial",
        c(M.geometric_beta, x_total=x, n=n, prior=beta, one_start=False), c(M.negative_binomial_beta, r=1, n=n, x=x, prior=beta), **info,
    )
    same(
        ctx, "geometric from one and from zero",
        c(M.geometric_beta, x_total=x + n, n=n, prior=beta), c(M.geometric_beta, x_total=x, n=n, prior=beta, one_start=False),
        size=200, **info,
    )
    same(
        ctx, "trials until successes and successes in trials",
        c(M.negative_binomial_beta, r=r, n=n, x=x, prior=beta), c(M.binomial_beta, n=r * n + x, x=r * n, prior=beta), size=1e3, **info,
    )
    same(
        ctx, "events in a period and periods between events",
        c(M.poisson_gamma, x_total=x, n=t, prior=gamma), c(M.exponential_gamma, x_total=t, n=x, prior=gamma), **info,
    )
    same(
        ctx, "exponential and gamma of shape one",
        c(M.exponential_gamma, x_total=t, n=n, prior=gamma), c(M.gamma_known_shape, x_total=t, n=n, alpha=1, prior=gamma), **info,
    )
    same(
        ctx, "gamma and inverse gamma of the reciprocals",
        c(M.gamma_known_shape, x_total=t, n=n, alpha=r, prior=gamma), c(M.inverse_gamma_known_rate, reciprocal_x_total=t, n=n, alpha=r, prior=gamma), **info,
    )
    same(
        ctx, "Pareto from one and exponential logarithms",
        c(M.pareto_gamma, ln_x_total=t, n=n, x_m=1, prior=gamma), c(M.exponential_gamma, x_total=t, n=n, prior=gamma), **info,
    )
    k = np.arange(0, 12).reshape((12,) + (1,) * 3)
    geo, bnb = c(M.geometric_beta_predictive, distribution=beta, one_start=False), c(M.negative_binomial_beta_predictive, r=1, distribution=beta)
    one = c(M.geometric_beta_predictive, distribution=beta)
    ctx.ok(near(geo.dist.pmf(k), bnb.dist.pmf(k), 1e-8), "beta geometric and beta negative binomial predictives differ", **info)
    ctx.ok(near(one.dist.pmf(k + 1), bnb.dist.pmf(k), 1e-8), "beta geometric from one is not the shifted one from zero", **info)
    bern = c(M.bernoulli_beta_predictive, distribution=beta)
    ctx.ok(near(bern.dist.pmf(1), beta.dist.mean(), 1e-8), "probability of a success is not the mean of the beta", **info)
    y = np.exp(rng.normal(size=4)).reshape((4, 1, 1, 1))
    lomax, compound = c(M.exponential_gamma_predictive, distribution=gamma), c(M.gamma_known_shape_predictive, distribution=gamma, alpha=1)
    ctx.ok(near(lomax.dist.pdf(y), compound.dist.pdf(y), 1e-8), "Lomax and compound gamma of shape one differ", **info)
    a, b = c(M.poisson_gamma_predictive, distribution=gamma, n=t), c(M.poisson_gamma_predictive, distribution=D.Gamma(gamma.alpha, gamma.beta / t))
    ctx.ok(near(a.dist.pmf(k), b.dist.pmf(k), 1e-7), "a longer period and a faster rate differ", a=a, b=b, **info)


@unit("C26", quick=30)
def categories(ctx):
    rng = ctx.rng
    k = int(rng.integers(2, 6))
    alpha, x = rng.gamma(2.0, size=k) + 0.1, rng.integers(0, 20, size=k)
    prior, n = D.Dirichlet(alpha), int(rng.integers(1, 8))
    ctx.case("categories", alpha.tobytes(), x.tobytes(), sample=(prior, x))
    c = ctx.call
    a, b = c(M.categorical_dirichlet, x=x, prior=prior), c(M.multinomial_dirichlet, x=x, prior=prior)
    same(ctx, "categorical and multinomial", a, b, x=x)
    same(
        ctx, "categorical and multinomial predictives",
        c(M.categorical_dirichlet_predictive, distribution=a, n=n), c(M.multinomial_dirichlet_predictive, distribution=a, n=n), x=x,
    )
    same(
        ctx, "default number of draws",
        c(M.categorical_dirichlet_predictive, distribution=a), c(M.multinomial_dirichlet_predictive, distribution=a, n=1), x=x,
    )
    # two categories
    two = c(M.multinomial_dirichlet, x=x[:2], prior=D.Dirichlet(alpha[:2]))
    one = c(M.binomial_beta, n=int(x[0] + x[1]), x=int(x[0]), prior=D.Beta(alpha[0], alpha[1]))
    ctx.ok(near(two.alpha, [one.alpha, one.beta], size=100), "two categories and a success differ", two=two, one=one)
    dm = c(M.multinomial_dirichlet_predictive, distribution=two, n=n).dist
    bb = c(M.binomial_beta_predictive, n=n, distribution=one).dist
    j = np.arange(n + 1)
    ctx.ok(
        near([dm.pmf([i, n - i]) for i in j], bb.pmf(j), 1e-7), "Dirichlet multinomial of two categories is not beta binomial",
        two=two, one=one, n=n,
    )
    # the first category against the rest
    rest = D.Beta(a.alpha[0], a.alpha[1:].sum())
    ctx.ok(
        near(a.dist.mean()[0], rest.dist.mean(), 1e-8) and near(a.dist.var()[0], rest.dist.var(), 1e-8),
        "the first category of a Dirichlet is not the beta against the rest",
    )
    ctx.ok(near(D.Binomial(n, 0.3).dist.pmf(j), [D.Multinomial(n, np.array([0.3, 0.7])).dist.pmf([i, n - i]) for i in j], 1e-8), "two categories of a multinomial")


@unit("C26", quick=50)
def normal_models(ctx):
    rng = ctx.rng
    L = gen.Layout(rng)
    v = lambda: L.value(gen.positive_any(0.05, 60))  # noqa: E731
    n = L.value(gen.count(40))
    m, s = hist.f(L.value(gen.real(2.0))), hist.f(L.value(gen.positive(0.05, 9)))
    xt, x2 = L.wrap(hist.f(n) * m), L.wrap(hist.f(n) * (m**2 + s**2))
    var, mu, alpha, beta, nu = v(), L.value(gen.real(2.0)), v(), v(), v()
    info = dict(n=n, x_total=xt, x2_total=x2, var=var, mu=mu, alpha=alpha, beta=beta, nu=nu)
    size = 1e3 * float(np.max(1 + abs(hist.f(x2)).max() + (hist.f(nu).max() + hist.f(n).max()) * (hist.f(mu) ** 2).max()))
    ctx.case("normal", gen.key_of(**info), sample=info)
    c = ctx.call
    prior = D.Normal(mu, alpha)
    a = c(M.normal_known_variance, x_total=xt, n=n, var=var, prior=prior)
    b = c(M.normal_known_precision, x_total=xt, n=n, precision=1 / var, prior=prior)
    same(ctx, "variance and precision", a, b, size=1, **info)
    same(
        ctx, "predictives by variance and precision",
        c(M.normal_known_variance_predictive, var=var, distribution=prior),
        c(M.normal_known_precision_predictive, precision=1 / var, distribution=prior), **info,
    )
    ig = D.InverseGamma(alpha, beta)
    sc = D.ScaledInverseChiSquared(nu=2 * hist.f(alpha), sigma2=hist.f(beta) / hist.f(alpha))
    kw = dict(x_total=xt, x2_total=x2, n=n, mu=mu)
    a, b = c(M.normal_known_mean, prior=ig, **kw), c(M.normal_known_mean, prior=sc, **kw)
    same(ctx, "inverse gamma and scaled inverse chi squared", c(b.to_inverse_gamma), a, size=size, **info)
    same(
        ctx, "predictives of inverse gamma and scaled inverse chi squared",
        c(M.normal_known_mean_predictive, mu=mu, distribution=ig), c(M.normal_known_mean_predictive, mu=mu, distribution=sc), **info,
    )
    nig, ng = D.NormalInverseGamma(mu=mu, nu=nu, alpha=alpha, beta=beta), D.NormalGamma(mu=mu, lam=nu, alpha=alpha, beta=beta)
    kw = dict(x_total=xt, x2_total=x2, n=n)
    a, b = c(M.normal, prior=nig, **kw), c(M.normal, prior=ng, **kw)
    for k, j in (("mu", "mu"), ("nu", "lam"), ("alpha", "alpha"), ("beta", "beta")):
        ctx.ok(
            near(getattr(a, k), getattr(b, j), size=size),
            f"normal inverse gamma and normal gamma: {k} is {getattr(a, k)} against {getattr(b, j)}", **info,
        )
    same(ctx, "predictives of normal inverse gamma and normal gamma", c(M.normal_predictive, distribution=nig), c(M.normal_predictive, distribution=ng), **info)
    for d, out in ((nig, a), (ng, b)):
        same(ctx, "log normal and normal of logs", c(M.log_normal, ln_x_total=xt, ln_x2_total=x2, n=n, prior=d), out, **info)
    old = warned(ctx, "normal_normal_inverse_gamma", lambda: M.normal_normal_inverse_gamma(prior=nig, **kw))
    same(ctx, "deprecated normal_normal_inverse_gamma", old, a, **info)
    old = warned(ctx, "normal_normal_inverse_gamma_predictive", lambda: M.normal_normal_inverse_gamma_predictive(distribution=nig))
    same(ctx, "deprecated normal_normal_inverse_gamma_predictive", old, M.normal_predictive(distribution=nig), **info)
    # a mean that is all but known
    sure = D.NormalInverseGamma(mu=mu, nu=L.value(lambda r, sh: np.full(sh, 1e13)), alpha=alpha, beta=beta)
    p = c(M.normal_predictive, distribution=sure)
    q = c(M.normal_known_mean_predictive, mu=mu, distribution=ig)
    ctx.ok(near(p.sigma, q.sigma, 1e-8) and near(p.nu, q.nu), "predictives with a sure mean and a known mean differ", p=p, q=q)


@unit("C26", quick=40)
def one_dimension(ctx):
    """Vectors and matrices of length one, and regression on a constant."""
    rng = ctx.rng
    size = gen.few(rng, 1, 12, 200)
    x = rng.normal(rng.normal() * 3, np.exp(rng.normal()), size=size)
    mu, v = float(rng.normal() * 2), [float(k) for k in rng.gamma(2.0, size=6) + 0.1]
    X, c = x[:, None], ctx.call
    ctx.case("one dimension", x.tobytes(), mu, v, sample=(mu, v, x))
    at = rng.normal(size=4) * 3 + mu

    def matches(what, got, want):
        ctx.event("pairs of results")
        for g, w in zip(got, want, strict=True):
            ctx.ok(
                np.size(g) == 1 and near(np.reshape(g, ()), w, 1e-8, 10 * (1 + (x**2).sum())),
                f"{what}: {g} with matrices, {w} with numbers", x=x, mu=mu, v=v,
            )

    mvn, prior = D.MultivariateNormal(np.array([mu]), np.array([[v[0] ** 2]])), D.Normal(mu, v[0])
    one = c(M.normal_known_variance, x_total=x.sum(), n=size, var=v[1], prior=prior)
    a = c(M.multivariate_normal_known_covariance, n=size, x_bar=x.mean(keepdims=True), cov=np.array([[v[1]]]), prior=mvn)
    b = c(M.multivariate_normal_known_precision, n=size, x_bar=x.mean(keepdims=True), precision=np.array([[1 / v[1]]]), prior=mvn)
    for d in (a, b):
        matches("normal with known variance", [d.mu, d.cov], [one.mu, one.sigma**2])
        ctx.ok(near(d.dist.logpdf(at[:, None]), one.dist.logpdf(at), 1e-7, 1e3), "densities of the known variance models", d=d, one=one)
    one = c(M.normal_known_variance_predictive, var=v[1], distribution=prior)
    a = c(M.multivariate_normal_known_covariance_predictive, distribution=mvn, cov=np.array([[v[1]]]))
    b = c(M.multivariate_normal_known_precision_predictive, distribution=mvn, precision=np.array([[1 / v[1]]]))
    for d in (a, b):
        matches("predictive with known variance", [d.mu, d.cov], [one.mu, one.sigma**2])
    matches("coordinate", [mvn[0].mu, mvn[0].sigma], [prior.mu, prior.sigma])

    iw, ig = D.InverseWishart(nu=v[2], psi=np.array([[v[3]]])), D.InverseGamma(v[2] / 2, v[3] / 2)
    d = c(M.multivariate_normal_known_mean, X=X, mu=np.array([mu]), prior=iw)
    one = c(M.normal_known_mean, x_total=x.sum(), x2_total=(x**2).sum(), n=size, mu=mu, prior=ig)
    matches("known mean", [d.nu / 2, d.psi / 2], [one.alpha, one.beta])
    y = np.exp(rng.normal(size=3)) * one.beta / one.alpha
    ctx.ok(near([d.dist.logpdf(np.array([[k]])) for k in y], one.dist.logpdf(y), 1e-7, 1e3), "densities of inverse Wishart and inverse gamma", d=d, one=one)

    niw = D.NormalInverseWishart(mu=np.array([mu]), kappa=v[4], nu=v[2], psi=np.array([[v[3]]]))
    nig = D.NormalInverseGamma(mu=mu, nu=v[4], alpha=v[2] / 2, beta=v[3] / 2)
    d = c(M.multivariate_normal, X=X, prior=niw)
    one = c(M.normal, x_total=x.sum(), x2_total=(x**2).sum(), n=size, prior=nig)
    matches("normal inverse Wishart", [d.mu, d.kappa, d.nu / 2, d.psi / 2], [one.mu, one.nu, one.alpha, one.beta])
    p, q = c(M.multivariate_normal_predictive, distribution=d), c(M.normal_predictive, distribution=one)
    matches("predictive of the normal inverse Wishart", [p.mu, p.sigma, p.nu], [q.mu, q.sigma**2, q.nu])
    ctx.ok(near(p.dist.logpdf(at[:, None]), q.dist.logpdf(at), 1e-6, 1e3), "densities of the predictives", p=p, q=q)
    matches("coordinate of the predictive", [p[0].mu, p[0].sigma, p[0].nu], [q.mu, q.sigma, q.nu])

    reg = D.NormalInverseGamma(mu=np.array([mu]), delta_inverse=np.array([[1 / v[4]]]), alpha=v[2] / 2, beta=v[3] / 2)
    d = c(M.linear_regression, X=np.ones((size, 1)), y=x, prior=reg)
    matches("regression on a constant", [d.mu, 1 / d.delta_inverse, d.alpha, d.beta], [one.mu, one.nu, one.alpha, one.beta])
    r = c(M.linear_regression_predictive, distribution=d, X=np.ones((1, 1)))
    matches("predictive of the regression on a constant", [r.mu, r.sigma, r.nu], [q.mu, q.sigma**2, q.nu])


@unit("C26", quick=30)
def several_dimensions(ctx):
    """Routes that meet in several dimensions."""
    rng = ctx.rng
    p, size = int(rng.integers(1, 5)), int(rng.integers(1, 9))
    X, m = rng.normal(size=(size, p)) * 2, rng.normal(size=p)
    S, T = gen.spd(rng, p, 1.0), gen.spd(rng, p, 1.0)
    mvn, c = D.MultivariateNormal(m, S), ctx.call
    ctx.case("several", X.tobytes(), sample=(p, size))
    kw = dict(n=size, x_bar=X.mean(axis=0), prior=mvn)
    a = c(M.multivariate_normal_known_covariance, cov=T, **kw)
    b = c(M.multivariate_normal_known_precision, precision=np.linalg.inv(T), **kw)
    ctx.ok(np.allclose(a.mu, b.mu, rtol=1e-7, atol=1e-8) and np.allclose(a.cov, b.cov, rtol=1e-7, atol=1e-9), "covariance and precision", a=a, b=b)
    a = c(M.multivariate_normal_known_covariance_predictive, distribution=mvn, cov=T)
    b = c(M.multivariate_normal_known_precision_predictive, distribution=mvn, precision=np.linalg.inv(T))
    ctx.ok(np.allclose(a.mu, b.mu) and np.allclose(a.cov, b.cov, rtol=1e-7, atol=1e-9), "predictives by covariance and precision", a=a, b=b)
    # orthogonal regressors: one regression is several
    q, _ = np.linalg.qr(rng.normal(size=(p + size, p)))
    y = rng.normal(size=p + size)
    d = rng.gamma(2.0, size=p) + 0.1
    reg = D.NormalInverseGamma(mu=np.zeros(p), delta_inverse=np.diag(d), alpha=1.5, beta=2.0)
    post = c(M.linear_regression, X=q, y=y, prior=reg)
    ctx.ok(
        np.allclose(post.mu, (q.T @ y) / (1 + 1 / d)) and np.allclose(post.delta_inverse, np.diag(1 / (1 + 1 / d)), atol=1e-9),
        "a regression on orthogonal columns is not one for each column", post=post, d=d,
    )
    # the coordinates of independent normals
    diag = D.MultivariateNormal(m, np.diag(np.diag(S)))
    post = c(M.multivariate_normal_known_covariance, n=size, x_bar=X.mean(axis=0), cov=np.diag(np.diag(T)), prior=diag)
    each = c(M.normal_known_variance, x_total=X.sum(axis=0), n=size, var=np.diag(T), prior=D.Normal(m, np.sqrt(np.diag(S))))
    ctx.ok(
        np.allclose(post.mu, each.mu, rtol=1e-8, atol=1e-9) and np.allclose(post.cov, np.diag(hist.f(each.sigma) ** 2), rtol=1e-8, atol=1e-9),
        "independent coordinates are not one update each", post=post, each=each,
    )
    ctx.event("pairs of results", 4)


@unit("C26", quick=30)
def distributions(ctx):
    """Classes that contain each other."""
    rng = ctx.rng
    a, b = [float(v) for v in rng.gamma(2.0, size=2) + 0.2]
    p = float(rng.uniform(0.05, 0.95))
    n = int(rng.integers(1, 20))
    k, x = np.arange(0, 15), np.exp(rng.normal(size=6))
    ctx.case("distributions", a, b, p, n, sample=(a, b, p, n))
    u = rng.uniform(0.01, 0.99, size=6)
    pairs = [
        ("exponential and gamma", D.Exponential(a).dist.logpdf(x), D.Gamma(1, a).dist.logpdf(x)),
        ("exponential and Weibull", D.Exponential(a).dist.logpdf(x), dists.REFS["Weibull"].make(D, weibull_kw(1.0, 1 / a)).dist.logpdf(x)),
        ("gamma and inverse gamma", D.InverseGamma(a, b).dist.logpdf(x), D.Gamma(a, b).dist.logpdf(1 / x) - 2 * np.log(x)),
        ("normal and log normal", D.LogNormal(b, a).dist.logpdf(x), D.Normal(b, a).dist.logpdf(np.log(x)) - np.log(x)),
        ("inverse gamma and scaled", D.InverseGamma(a, b).dist.logpdf(x), D.ScaledInverseChiSquared(2 * a, b / a).dist.logpdf(x)),
        ("Pareto and Lomax", D.Pareto(b, a).dist.logpdf(x + b), D.Lomax(a, b).dist.logpdf(x)),
        ("Pareto and exponential", D.Pareto(b, a).dist.logpdf(b * np.exp(x)), D.Exponential(a).dist.logpdf(x) - np.log(b) - x),
        ("beta and uniform", D.Beta(1, 1).dist.pdf(u), D.Uniform(0, 1).dist.pdf(u)),
        ("Student t of one degree", D.StudentT(b, a, 1.0).dist.pdf(x), 1 / (np.pi * a * (1 + ((x - b) / a) ** 2))),
        ("many degrees of freedom", D.StudentT(b, a, 1e12).dist.cdf(x), D.Normal(b, a).dist.cdf(x)),
        ("compound gamma and Lomax", D.CompoundGamma(1.0, a, b).dist.pdf(x), D.Lomax(a, b).dist.pdf(x)),
        ("geometric from zero", D.Geometric(p, one_start=False).dist.logpmf(k), D.NegativeBinomial(1, p).dist.logpmf(k)),
        ("geometric from one", D.Geometric(p).dist.logpmf(k + 1), D.Geometric(p, one_start=False).dist.logpmf(k)),
        ("binomial of one", D.Binomial(1, p).dist.pmf(k), D.BetaBinomial(1, p * a, (1 - p) * a).dist.pmf(k)),
        ("beta geometric", D.BetaGeometric(a, b).dist.pmf(k + 1), D.BetaNegativeBinomial(1, a, b).dist.pmf(k)),
        ("uniform beta binomial", D.BetaBinomial(n, 1, 1).dist.pmf(np.arange(n + 1)), np.full(n + 1, 1 / (n + 1))),
        ("Wishart and gamma", [D.Wishart(a + 1, np.array([[b]])).dist.logpdf(np.array([[v]])) for v in x], D.Gamma((a + 1) / 2, 1 / (2 * b)).dist.logpdf(x)),
        ("one dimensional Student t", D.MultivariateStudentT(np.array([b]), np.array([[a**2]]), 3.0).dist.logpdf(x[:, None]), D.StudentT(b, a, 3.0).dist.logpdf(x)),
    ]
    for what, g, w in pairs:
        ctx.ok(near(g, w, 2e-6, 1e4), f"{what}: {g} against {w}", a=a, b=b, p=p, n=n)
        ctx.event("pairs of results")


def weibull_kw(shape, scale):
    """Parameters of the Weibull class by what they mean."""
    ref = dists.REFS["Weibull"]
    out = {}
    for name in ref.fields:
        out[name] = shape if name in ("beta", "k", "shape") else scale
    return out


@unit("C26", quick=20)
def samplers(ctx):
    """Samples of the joint distributions under other names are the same samples."""
    rng = ctx.rng
    v = [float(k) for k in rng.gamma(2.0, size=4) + 0.2]
    p = int(rng.integers(1, 4))
    m, S = rng.normal(size=p), gen.spd(rng, p, 1.0)
    size, seed = int(rng.integers(1, 9)), int(rng.integers(2**31))
    ctx.case("samplers", v, p, size, seed, sample=(v, p, size))
    joints = [
        D.NormalInverseGamma(mu=v[3], nu=v[0], alpha=v[1], beta=v[2]),
        D.NormalInverseGamma(mu=m, delta_inverse=S, alpha=v[1], beta=v[2]),
        D.NormalGamma(mu=v[3], lam=v[0], alpha=v[1], beta=v[2]),
    ]
    for d in joints:
        a = ctx.call(d.sample_mean, size, return_variance=True, random_state=seed)
        b = ctx.call(d.sample_beta, size, return_variance=True, random_state=seed)
        ctx.ok(
            encode(tuple(map(np.asarray, a))) == encode(tuple(map(np.asarray, b))),
            f"{type(d).__name__}: sample_mean and sample_beta differ for one seed", a=a, b=b,
        )
        ctx.event("pairs of results")


# -------------------------------------------------------------- arithmetic
def operand(name, L):
    ref = dists.REFS[name]
    kw = ref.gen(L)
    if name == "NegativeBinomial":
        kw["p"] = np.clip(kw["p"], 0.02, 1.0) if np.ndim(kw["p"]) else max(float(kw["p"]), 0.02)
    return ref.make(D, kw)


def scaled(d, k):
    """Class and parameters of the sum of k copies, worked out independently."""
    k = hist.f(k)
    g = lambda n: hist.f(getattr(d, n))  # noqa: E731
    name = type(d).__name__
    if name == "Poisson":
        return "Poisson", dict(lam=k * g("lam"))
    if name == "Gamma":
        return "Gamma", dict(alpha=k * g("alpha"), beta=g("beta"))
    if name == "Exponential":
        return "Gamma", dict(alpha=k, beta=g("lam"))
    if name == "NegativeBinomial":
        return "NegativeBinomial", dict(n=k * g("n"), p=g("p"))
    return "Normal", dict(mu=k * g("mu"), sigma=np.sqrt(k) * g("sigma"))


SCALABLE = ["Poisson", "Gamma", "Exponential", "NegativeBinomial", "Normal"]


def is_law(ctx, what, d, want, /, **info):
    name, p = want
    if not ctx.ok(type(d).__name__ == name, f"{what} is a {type(d).__name__} instead of {name}", **info):
        return False
    good = True
    for k, w in p.items():
        good &= ctx.ok(near(getattr(d, k), w, 1e-9), f"{what}: {k} is {getattr(d, k)} instead of {w}", **info)
    return good


@unit("C27", quick=60)
def products(ctx):
    rng = ctx.rng
    for name in SCALABLE:
        L = gen.Layout(rng)
        d = operand(name, L)
        mode = rng.integers(5)
        if mode == 0:
            k = int(rng.integers(1, 9))
        elif mode == 1:
            k = float(rng.gamma(2.0) + 0.05)
        elif mode == 2:
            k = [np.int64(3), np.float64(0.5), np.array(2.5), np.float64(1.5), np.int32(7), True][rng.integers(6)]
        else:
            k = L.value(gen.positive_any(*[(0.05, 20), (1e-3, 1e4)][rng.integers(2)]))
        if name == "Poisson" and rng.integers(6) == 0:  # nothing in no time
            k = k * 0
        before = encode(d), encode(np.asarray(k))
        info = dict(d=d, k=k)
        ctx.case(name, gen.key_of(**fields(d), multiplier=k), sample=(d, k))
        right = ctx.call(operator.mul, d, k)
        if is_law(ctx, f"{name} times {k}", right, scaled(d, k), **info):
            judge_univariate(ctx, right, full=False)
        scalars = all(np.ndim(v) == 0 for v in fields(d).values())
        left = ctx.call(operator.mul, k, d)
        if np.ndim(k) and not isinstance(left, type(right)):
            # numpy makes an array with one distribution for each number
            cells = list(np.ndenumerate(left))
            ctx.ok(np.shape(left) == np.shape(k), f"{k} times {name} is {left!r}", **info)
            for i, cell in cells:
                is_law(ctx, f"{k[i]} times {name}", cell, scaled(d, k[i]), **info)
            ctx.event("arrays of distributions")
        else:
            is_law(ctx, f"{k} times {name}", left, scaled(d, k), **info)
        ctx.ok((encode(d), encode(np.asarray(k))) == before, f"{name} times {k} changed its operands", **info)
        ctx.ok(right is not d and left is not d, f"{name} times {k} is the operand itself")
        if scalars and isinstance(k, (int, float)) and not isinstance(k, bool):
            f = Fraction(k).limit_denominator(1000)
            is_law(ctx, f"{name} times {f}", ctx.call(operator.mul, d, f), scaled(d, float(f)), **info)
        # multiplying twice, and operands of operands
        twice = ctx.call(lambda: 2 * (right * 3))
        if name != "Exponential":
            is_law(ctx, f"2 * ({name} * {k} * 3)", twice, scaled(d, 6 * hist.f(k)), **info)
        else:
            is_law(ctx, f"2 * ({name} * {k} * 3)", twice, scaled(right, 6.0), **info)


@unit("C27", quick=60)
def sums(ctx):
    rng = ctx.rng
    L = gen.Layout(rng)
    ds = [operand("Poisson", L) for _ in range(4)]
    images = [encode(d) for d in ds]
    lam = [hist.f(d.lam) for d in ds]
    k = [int(v) for v in rng.integers(1, 5, size=3)]
    ctx.case("sums", *[gen.key_of(lam=d.lam) for d in ds], k, sample=ds)
    a, b, c, e = ds
    for what, make, want in [
        ("a + b", lambda: a + b, lam[0] + lam[1]),
        ("b + a", lambda: b + a, lam[0] + lam[1]),
        ("a + a", lambda: a + a, 2 * lam[0]),
        ("a + b + c + d", lambda: a + b + c + e, sum(lam)),
        ("a + (b + (c + d))", lambda: a + (b + (c + e)), sum(lam)),
        ("2a + 3b + k c", lambda: 2 * a + b * 3 + k[0] * c, 2 * lam[0] + 3 * lam[1] + k[0] * lam[2]),
        ("k (a + b)", lambda: k[1] * (a + b), k[1] * (lam[0] + lam[1])),
        ("reduce", lambda: reduce(operator.add, ds), sum(lam)),
        ("augmented", lambda: augmented(a, b, k[2]), k[2] * (lam[0] + lam[1])),
    ]:
        d = ctx.call(make)
        if is_law(ctx, f"{what} of Poissons", d, ("Poisson", dict(lam=want)), operands=ds) and rng.integers(3) == 0:
            judge_univariate(ctx, d, full=False)
    ctx.ok([encode(d) for d in ds] == images, "adding Poissons changed them", operands=ds)


def augmented(a, b, k):
    total = a
    total += b
    total *= k
    return total


@unit("C27", quick=40)
def copies(ctx):
    """Whole multiples against the numerical convolution of the operand with itself."""
    rng = ctx.rng
    k = int(rng.integers(2, 6))
    # counts
    lam, lam2, p, n = rng.uniform(0.05, 6), rng.uniform(0.05, 6), rng.uniform(0.3, 0.95), float(rng.integers(1, 5))
    grid = np.arange(400)
    for d in (D.Poisson(lam), D.NegativeBinomial(n, p)):
        one = d.dist.pmf(grid)
        want = one
        for _ in range(k - 1):
            want = np.convolve(want, one)[: len(grid)]
        got = ctx.call(lambda: (k * d).dist.pmf(grid))
        ctx.case("copies", type(d).__name__, k, lam, n, p, sample=(d, k))
        ctx.ok(np.allclose(got, want, atol=1e-10), f"{k} times {d} is not the sum of {k} copies")
        ctx.event("convolutions")
    want = np.convolve(D.Poisson(lam).dist.pmf(grid), D.Poisson(lam2).dist.pmf(grid))[: len(grid)]
    got = ctx.call(lambda: (D.Poisson(lam) + D.Poisson(lam2)).dist.pmf(grid))
    ctx.ok(np.allclose(got, want, atol=1e-10), f"Poisson({lam}) + Poisson({lam2}) is not the sum of two")
    # measurements: characteristic functions of the densities, by quadrature
    a, b, mu, s = rng.uniform(2, 6), rng.uniform(0.5, 3), rng.normal(), rng.uniform(0.3, 2)
    for d, lo, hi in [
        (D.Gamma(a, b), 0.0, (a + 40) / b), (D.Normal(mu, s), mu - 12 * s, mu + 12 * s), (D.Exponential(b), 0.0, 40 / b)
    ]:
        ctx.case("copies", type(d).__name__, k, a, b, mu, s, sample=(d, k))
        many = ctx.call(operator.mul, d, k)
        scale = d.dist.std()
        w = np.array([0.1, 0.37, 0.8]) / scale
        one = transform(d, lo, hi, w)
        width = hi - lo
        span = (k * lo, k * lo + k * width)
        ctx.ok(
            np.allclose(transform(many, *span, w), one**k, atol=1e-6),
            f"{k} times {d} is not the sum of {k} copies: {many}",
        )
        ctx.ok(near(many.dist.mean(), k * d.dist.mean(), 1e-9, 1) and near(many.dist.var(), k * d.dist.var(), 1e-9), f"moments of {k} times {d}")
        ctx.event("transforms")


def transform(d, lo, hi, w):
    """Integral of exp(i w x) times the density, by Gauss-Legendre panels."""
    nodes, weights = np.polynomial.legendre.leggauss(30)
    edges = np.linspace(lo, hi, 201)
    h = np.diff(edges)[:, None] / 2
    x = edges[:-1, None] + h * (nodes + 1)
    f = d.dist.pdf(x) * weights * h
    return np.array([(f * np.exp(1j * v * x)).sum() for v in w])


@unit("C27", quick=12)
def drawn_sums(ctx):
    """Sums of simulated copies follow the law of the product."""
    rng = ctx.rng
    name = SCALABLE[rng.integers(len(SCALABLE))]
    d = operand(name, gen.Layout(rng, "pyscalar"))
    k, size = int(rng.integers(2, 6)), 4000
    if name == "NegativeBinomial" and d.p < 0.02:
        return
    x = ctx.call(lambda: d.dist.rvs(size=(k, size), random_state=rng)).sum(axis=0)
    many = ctx.call(operator.mul, k, d)
    ctx.case("drawn sums", gen.key_of(**fields(d)), k, sample=(d, k))
    ref = dists.ref_of(many)
    u = stat.pit(ref, ref.params(many), x, rng)
    if u is not None:
        bad, distance = stat.ks_uniform(u)
        ctx.ok(not bad, f"sums of {k} draws do not follow {k} times {d}: distance {distance}")
        ctx.event("sums drawn", size)

