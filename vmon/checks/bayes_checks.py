"""Workloads of the Bayes' rule monitors (properties "C01" ... "C06")."""

import numpy as np
from scipy.special import betaln, gammaln

from conjugate import distributions as D
from conjugate import models as M

from vmon import bayes, bayesnd, gen
from vmon.core import rule, unit

DISCRETE = [
    "binomial_beta",
    "bernoulli_beta",
    "negative_binomial_beta",
    "geometric_beta",
    "poisson_gamma",
]
POSITIVE = [
    "exponential_gamma",
    "gamma_known_shape",
    "inverse_gamma_known_rate",
    "pareto_gamma",
    "uniform_pareto",
    "weibull_inverse_gamma_known_shape",
]
NORMAL = [
    "normal_known_variance",
    "normal_known_precision",
    "normal_known_mean",
    "normal",
    "log_normal",
    "normal_normal_inverse_gamma",
]

for prop, what in [
    ("C01", "discrete"),
    ("C02", "positive"),
    ("C03", "normal and log-normal"),
]:
    rule(
        prop,
        f"Random valid priors and data summaries of the {what} models (scalars, numpy "
        "scalars, 0-d, 1-d and broadcast arrays, integers and floats, zeros, edges, tiny "
        "and huge values); a case is one observed model call, judged at 13 to 23 parameter "
        "values per element; distinct by its arguments.",
        ["rounding error is bounded by 1e-11 of the terms of the log densities"],
    )


def elementwise(ctx, names):
    for name in names:
        for i in range(12):
            kw = bayes.gen_elementwise(name, ctx.rng)
            post = ctx.call(getattr(M, name), **kw)
            ctx.case(name, gen.key_of(**kw), sample=(name, kw))
            for complaint in bayes.judge_elementwise(name, kw, post):
                ctx.fail(f"{name}: {complaint}", kwargs=kw, posterior=post)
            ctx.event("oracle decisions")
            ctx.event(f"elements {name}", np.size(getattr(post, bayes.FAMILIES[
                bayes.family_of(post)][0][-1])))


@unit("C01", quick=120)
def discrete(ctx):
    elementwise(ctx, DISCRETE)


@unit("C02", quick=100)
def positive(ctx):
    elementwise(ctx, POSITIVE)


@unit("C03", quick=100)
def normal(ctx):
    elementwise(ctx, NORMAL)


# The same rule on the densities of the objects that users evaluate.
LOGPDF_POINTS = {
    "Beta": np.array([0.02, 0.1, 0.3, 0.5, 0.72, 0.9, 0.985]),
    "Gamma": np.array([0.05, 0.3, 0.8, 1.5, 3.0, 7.0, 20.0]),
    "InverseGamma": np.array([0.1, 0.4, 0.9, 2.0, 5.0, 12.0, 40.0]),
    "ScaledInverseChiSquared": np.array([0.1, 0.4, 0.9, 2.0, 5.0, 12.0, 40.0]),
    "Normal": np.array([-6.0, -2.0, -0.5, 0.1, 1.0, 2.5, 8.0]),
}


def evaluated(ctx, names):
    for name in names:
        kw = bayes.gen_elementwise(name, ctx.rng, wide=False)
        prior = kw["prior"]
        family = bayes.family_of(prior)
        if family not in LOGPDF_POINTS and family != "Pareto":
            continue
        post = ctx.call(getattr(M, name), **kw)
        data_names, lik = bayes.ELEMENTWISE[name]
        data = {k: np.asarray(kw[k], float) for k in data_names if k in kw}
        one_start = kw.get("one_start", True)
        shape = np.broadcast_shapes(
            *[np.shape(v) for v in data.values() if np.ndim(v)],
            *[np.shape(v) for v in vars(prior).values() if np.ndim(v)],
        )
        if family == "Pareto":
            top = np.maximum(prior.x_m, kw["x_max"])
            pts = np.array([1.0001, 1.3, 2.0, 5.0, 30.0]).reshape(
                (-1,) + (1,) * len(shape)
            ) * np.broadcast_to(top, shape)
        else:
            pts = LOGPDF_POINTS[family].reshape((-1,) + (1,) * len(shape)) + np.zeros(
                shape
            )
        t = np.log(pts) - np.log1p(-pts) if family == "Beta" else pts
        if name == "geometric_beta":
            data["one_start"] = one_start
        terms = lik(data, t)
        ll = sum(terms)
        lp1 = ctx.call(post.dist.logpdf, pts)
        lp0 = ctx.call(prior.dist.logpdf, pts)
        good = np.isfinite(lp1) & np.isfinite(lp0) & np.isfinite(ll)
        if family == "Pareto":  # scipy takes the logarithm of a density that underflows far out
            good &= (abs(lp1) < 650) & (abs(lp0) < 650)
        dd = np.where(good, lp1 - lp0 - ll, 0)
        scale = abs(lp1) + abs(lp0) + sum(abs(a) for a in terms) + 10
        scale = np.where(good, scale, np.inf)
        ref = np.take_along_axis(dd, np.argmin(scale, axis=0)[None], axis=0)
        err = np.where(good, abs(dd - ref), 0)
        ctx.case(name, gen.key_of(**kw), sample=(name, kw))
        ctx.event("density values observed", int(good.sum()))
        ctx.ok(
            np.all(err <= 1e-9 * np.where(good, scale, 1) + 1e-8),
            f"{name}: densities of posterior and prior are not in the ratio of the likelihood",
            kwargs=kw,
            posterior=post,
            error=float(err.max()),
        )


@unit("C01", quick=60)
def discrete_densities(ctx):
    for _ in range(4):
        evaluated(ctx, DISCRETE)


@unit("C02", quick=60)
def positive_densities(ctx):
    for _ in range(4):
        evaluated(ctx, POSITIVE)


@unit("C03", quick=60)
def normal_densities(ctx):
    for _ in range(4):
        evaluated(ctx, ["normal_known_variance", "normal_known_precision"])
        evaluated(ctx, ["normal_known_mean"])


# ---------------------------------------------- raw data, not just summaries
@unit("C01", quick=60)
def discrete_raw_data(ctx):
    """Data sets summarised as users do, likelihood taken observation by observation."""
    rng = ctx.rng
    a, b = np.exp(rng.normal(0.5, 1, size=2))
    size = gen.few(rng, 0, 12, 400)
    t = np.linspace(-4, 4, 9)
    lp, lq = bayes.logs(t)
    p = np.exp(lp)
    prior = D.Beta(a, b)
    runs = []
    n = rng.integers(0, 9, size=size)
    x = np.array([rng.integers(0, k + 1) for k in n], dtype=int)
    runs.append(
        (
            "binomial_beta",
            dict(n=n.sum(), x=x.sum()),
            [xi * lp + (ni - xi) * lq for xi, ni in zip(x, n)],
        )
    )
    r = int(rng.integers(1, 6))
    x = rng.integers(0, 10, size=size)
    runs.append(
        (
            "negative_binomial_beta",
            dict(r=r, n=size, x=x.sum()),
            # the probability that x trials of one kind precede the r-th of the other
            [gammaln(xi + r) - gammaln(xi + 1) - gammaln(r) + r * lp + xi * lq for xi in x],
        )
    )
    x = rng.integers(1, 8, size=size)
    runs.append(
        (
            "geometric_beta",
            dict(x_total=x.sum(), n=size),
            [np.log(p) + (xi - 1) * lq for xi in x],
        )
    )
    runs.append(
        (
            "geometric_beta",
            dict(x_total=(x - 1).sum(), n=size, one_start=False),
            [np.log(p) + (xi - 1) * lq for xi in x],
        )
    )
    for name, kw, lls in runs:
        post = ctx.call(getattr(M, name), prior=prior, **kw)
        terms = (
            bayes.k_beta(vars(post), t)
            + [-v for v in bayes.k_beta(vars(prior), t)]
            + [-np.asarray(v) for v in lls]
        )
        ctx.case(name, repr(kw), a, b, sample=(name, kw, prior))
        ctx.event("oracle decisions")
        for c in bayesnd.constant(terms, 1e-11, name, 1e-10):
            ctx.fail(c, data=kw, prior=prior, posterior=post)
    lam = np.exp(np.linspace(-4, 4, 9))
    x = rng.integers(0, 20, size=size)
    prior = D.Gamma(a, b)
    post = ctx.call(M.poisson_gamma, x_total=x.sum(), n=size, prior=prior)
    terms = (
        bayes.k_gamma(vars(post), lam)
        + [-v for v in bayes.k_gamma(vars(prior), lam)]
        + [-(xi * np.log(lam) - lam - gammaln(xi + 1)) for xi in x]
    )
    ctx.case("poisson_gamma", x.tolist(), a, b)
    ctx.event("oracle decisions")
    for c in bayesnd.constant(terms, 1e-11, "poisson_gamma", 1e-10):
        ctx.fail(c, data=x, prior=prior, posterior=post)


@unit("C02", quick=60)
def positive_raw_data(ctx):
    rng = ctx.rng
    a, b, s = np.exp(rng.normal(0.5, 1, size=3))
    size = gen.few(rng, 0, 12, 400)
    t = np.exp(np.linspace(-4, 4, 9))
    x = np.exp(rng.normal(0, 1.5, size=size))
    x_m = float(x.min() * rng.uniform(0.3, 1)) if size else 1.0
    w = float(np.exp(rng.normal(0, 0.5)))
    g = D.Gamma(a, b)
    lt = np.log(t)
    runs = [
        (
            "exponential_gamma",
            g,
            dict(x_total=x.sum(), n=size),
            [lt - t * xi for xi in x],
        ),
        (
            "gamma_known_shape",
            g,
            dict(x_total=x.sum(), n=size, alpha=s),
            [s * lt - gammaln(s) + (s - 1) * np.log(xi) - t * xi for xi in x],
        ),
        (
            "inverse_gamma_known_rate",
            g,
            dict(reciprocal_x_total=(1 / x).sum(), n=size, alpha=s),
            [s * lt - gammaln(s) - (s + 1) * np.log(xi) - t / xi for xi in x],
        ),
        (
            "pareto_gamma",
            g,
            dict(n=size, ln_x_total=np.log(x).sum(), x_m=x_m),
            [lt + t * np.log(x_m) - (t + 1) * np.log(xi) for xi in x],
        ),
        (
            "weibull_inverse_gamma_known_shape",
            D.InverseGamma(a, b),
            dict(n=size, x_beta_total=(x**w).sum()),
            [np.log(w) - lt + (w - 1) * np.log(xi) - xi**w / t for xi in x],
        ),
    ]
    for name, prior, kw, lls in runs:
        post = ctx.call(getattr(M, name), prior=prior, **kw)
        kernel = bayes.FAMILIES[type(prior).__name__][1]
        terms = (
            kernel(vars(post), t)
            + [-v for v in kernel(vars(prior), t)]
            + [-np.asarray(v) for v in lls]
        )
        ctx.case(name, repr(kw), a, b, sample=(name, kw, prior))
        ctx.event("oracle decisions")
        for c in bayesnd.constant(terms, 1e-10, name, 1e-9):
            ctx.fail(c, data=kw, prior=prior, posterior=post)


@unit("C03", quick=60)
def normal_raw_data(ctx):
    rng = ctx.rng
    a, b, k = np.exp(rng.normal(0.5, 1, size=3))
    m0 = rng.normal() * 3
    size = gen.few(rng, 0, 12, 400)
    x = rng.normal(rng.normal() * 5, np.exp(rng.normal()), size=size)
    m = rng.normal(size=14) * 4
    v = np.exp(rng.normal(size=14))

    def lik(m, v, x):
        return [-0.5 * np.log(2 * np.pi * v) - (xi - m) ** 2 / (2 * v) for xi in x]

    summ = dict(x_total=x.sum(), x2_total=(x**2).sum(), n=size)
    y = np.exp(x)
    ln_summ = dict(
        ln_x_total=np.log(y).sum(), ln_x2_total=(np.log(y) ** 2).sum(), n=size
    )
    known = float(np.exp(rng.normal()))
    mu = float(rng.normal() * 2)
    nig = D.NormalInverseGamma(mu=m0, nu=k, alpha=a, beta=b)
    ng = D.NormalGamma(mu=m0, lam=k, alpha=a, beta=b)
    xs = dict(x_total=x.sum(), n=size)
    runs = [
        ("normal", nig, summ, (m, v), lik(m, v, x)),
        ("normal", ng, summ, (m, v), lik(m, v, x)),
        ("log_normal", nig, ln_summ, (m, v), lik(m, v, np.log(y))),
        ("log_normal", ng, ln_summ, (m, v), lik(m, v, np.log(y))),
        ("normal_known_variance", D.Normal(m0, k), {**xs, "var": known}, m, lik(m, known, x)),
        (
            "normal_known_precision",
            D.Normal(m0, k),
            {**xs, "precision": 1 / known},
            m,
            lik(m, known, x),
        ),
        ("normal_known_mean", D.InverseGamma(a, b), {**summ, "mu": mu}, v, lik(mu, v, x)),
        (
            "normal_known_mean",
            D.ScaledInverseChiSquared(a, b),
            {**summ, "mu": mu},
            v,
            lik(mu, v, x),
        ),
    ]
    for name, prior, kw, t, lls in runs:
        post = ctx.call(getattr(M, name), prior=prior, **kw)
        kernel = bayes.FAMILIES[type(prior).__name__][1]
        terms = (
            kernel(vars(post), t)
            + [-u for u in kernel(vars(prior), t)]
            + [-np.broadcast_to(u, np.shape(m)) for u in lls]
        )
        ctx.case(name, type(prior).__name__, repr(kw), sample=(name, kw, prior))
        ctx.event("oracle decisions")
        for c in bayesnd.constant(terms, 1e-10, name, 1e-8):
            ctx.fail(c, data=kw, prior=prior, posterior=post)


# ------------------------------------------------------------- Dirichlet
def dirichlet_container(rng, values):
    values = np.asarray(values)
    kind = rng.integers(3) if values.ndim == 1 else 2
    if kind == 0:
        return values.tolist()
    if kind == 1:
        return tuple(values.tolist())
    return values


@unit("C01", quick=80)
def dirichlet(ctx):
    rng = ctx.rng
    for _ in range(6):
        k = int(rng.integers(2, 7)) if rng.integers(8) else int(rng.integers(10, 80))
        rows = [(), (), (int(rng.integers(1, 5)),), (2, 3)][rng.choice(4, p=[0.35, 0.3, 0.3, 0.05])]
        alpha = gen.positive_any(1e-2, 1e5)(rng, rows + (k,))
        x_rows = rows if rng.integers(2) else ()
        x = gen.count(100000, 0.4)(rng, x_rows + (k,))
        prior = D.Dirichlet(alpha=dirichlet_container(rng, alpha))
        data = dirichlet_container(rng, x)
        for name in ("categorical_dirichlet", "multinomial_dirichlet"):
            post = ctx.call(getattr(M, name), x=data, prior=prior)
            ctx.case(name, gen.key_of(a=alpha, x=x), type(data).__name__,
                     type(prior.alpha).__name__, sample=(name, prior, data))
            ctx.event("oracle decisions")
            for c in bayesnd.judge_dirichlet(prior, data, post):
                ctx.fail(f"{name}: {c}", prior=prior, x=data, posterior=post)


@unit("C01", quick=40)
def hypergeometric(ctx):
    rng = ctx.rng
    for _ in range(8):
        big_n = int(rng.integers(1, 40))
        n = int(rng.integers(1, big_n + 1))
        x = int(rng.integers(0, n + 1))
        a, b = np.exp(rng.normal(0.5, 1, size=2)).tolist()
        prior = D.BetaBinomial(n=big_n, alpha=a, beta=b)
        post = ctx.call(M.hypergeometric_beta_binomial, x_total=x, n=n, prior=prior)
        verdict, detail = bayesnd.judge_hypergeometric(prior, x, n, post)
        ctx.case(big_n, n, x, a, b, sample=(prior, x, n))
        ctx.event("oracle decisions")
        if verdict == "known":
            ctx.known("hypergeometric-draws-ignored", detail)
        elif verdict == "bad":
            ctx.fail(detail)


# ------------------------------------------------------------ regression
rule(
    "C04",
    "Random design matrices (tall, wide, rank deficient, one row, no rows), priors with "
    "correlated covariances, new designs with repeated rows; a case is one observed "
    "regression or predictive call; distinct by its arguments.",
    ["condition numbers of prior covariances up to 1e4"],
)


def dimension(rng, top=6):
    """Mostly small, now and then many."""
    return int(rng.integers(1, top)) if rng.integers(8) else int(rng.integers(top, 3 * top))


def regression_case(rng, small=False):
    p = dimension(rng)
    n = int(rng.choice([0, 1, 2, p, p + 1, 10, 40, 250, round(np.exp(rng.uniform(5, 8)))]))
    X = rng.normal(size=(n, p)) * np.exp(rng.normal(0, 0.7))
    mode = rng.integers(6)
    if mode == 0 and p > 1:
        X[:, -1] = X[:, 0]
    elif mode == 1:
        X[:, 0] = 1.0
    elif mode == 2:
        X = np.round(X).astype(np.int64)
    elif mode == 3:
        X = X * 0
    y = X @ rng.normal(size=p) + rng.normal(size=n) * np.exp(rng.normal())
    if rng.integers(4) == 0:  # far from zero
        y = y + rng.choice([-1, 1]) * 10 ** rng.uniform(0, 4)
    if rng.integers(6) == 0 and X.dtype == float:
        X[:, rng.integers(p)] += rng.choice([-1, 1]) * 10 ** rng.uniform(0, 1.5)
    if mode == 2 and rng.integers(2):
        y = np.round(y).astype(np.int64)
    X, y = gen.memory(rng, X), gen.memory(rng, y)
    mu = rng.normal(size=p) * rng.choice([2, 2, 2, 50])
    if rng.integers(4) == 0:
        mu = np.zeros(p, dtype=np.int64)
    a, b = np.exp(rng.normal(0.5, rng.choice([1, 1, 3]), size=2)).tolist()
    if rng.integers(3) == 0:
        a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    prior = D.NormalInverseGamma(
        mu=gen.memory(rng, mu),
        alpha=a,
        beta=b,
        delta_inverse=gen.memory(rng, gen.spd(rng, p, 2.0)),
    )
    return X, y, prior


@unit("C04", quick=150)
def regression(ctx):
    rng = ctx.rng
    for _ in range(4):
        X, y, prior = regression_case(rng)
        kw = {"inv": np.linalg.pinv} if rng.integers(8) == 0 else {}
        post = ctx.call(M.linear_regression, X=X, y=y, prior=prior, **kw)
        ctx.case(gen.key_of(X=X, y=y, prior=prior), sample=(X.shape, prior))
        ctx.event(f"rows {X.shape[0]}")
        ctx.event("oracle decisions")
        for c in bayesnd.judge_regression(prior, X, y, post, rng):
            ctx.fail(c, X=X, y=y, prior=prior, posterior=post)


def mvt_logpdf(y, loc, shape, df):
    p = len(loc)
    d = y - loc
    _, ld = np.linalg.slogdet(shape)
    q = np.einsum("gi,ij,gj->g", d, np.linalg.inv(shape), d)
    return (
        gammaln((df + p) / 2)
        - gammaln(df / 2)
        - p / 2 * np.log(df * np.pi)
        - ld / 2
        - (df + p) / 2 * np.log1p(q / df)
    )


@unit("C04", quick=150)
def regression_predictive(ctx):
    rng = ctx.rng
    for _ in range(4):
        X, y, prior = regression_case(rng)
        dist = prior if rng.integers(2) else ctx.call(
            M.linear_regression, X=X, y=y, prior=prior
        )
        p = len(dist.mu)
        n = gen.few(rng, 1, 6, 60)
        new = rng.normal(size=(n, p)) * np.exp(rng.normal())
        if n > 1 and rng.integers(2):
            new[1] = new[0]
        if rng.integers(4) == 0:
            new = np.round(new).astype(np.int64)
        new = gen.memory(rng, new)
        kw = {"eye": np.identity} if rng.integers(4) == 0 else {}
        pred = ctx.call(M.linear_regression_predictive, distribution=dist, X=new, **kw)
        # y | v ~ N(X mu, v (I + X D X')), v ~ IG(a, b)
        cov = np.eye(n) + new @ dist.delta_inverse @ new.T
        loc = new @ dist.mu
        s = np.sqrt(np.diag(cov) * dist.beta / dist.alpha)
        pts = loc + rng.normal(size=(6, n)) * s * np.array([0.1, 1, 1, 3, 10, 2])[:, None]
        expect = mvt_logpdf(pts, loc, cov * dist.beta / dist.alpha, 2 * dist.alpha)
        # the integral over v, done by hand rather than by the t density
        d = pts - loc
        q = np.einsum("gi,ij,gj->g", d, np.linalg.inv(cov), d)
        a, b = dist.alpha, dist.beta
        integral = (
            a * np.log(b)
            - gammaln(a)
            + gammaln(a + n / 2)
            - n / 2 * np.log(2 * np.pi)
            - np.linalg.slogdet(cov)[1] / 2
            - (a + n / 2) * np.log(b + q / 2)
        )
        assert np.allclose(expect, integral, rtol=1e-8, atol=1e-8)
        got = ctx.call(pred.dist.logpdf, pts)
        ctx.case(gen.key_of(X=new, d=dist), sample=(dist, new.shape))
        ctx.ok(
            np.allclose(np.atleast_1d(got), expect, rtol=1e-7, atol=1e-7),
            "regression predictive density differs from the marginal likelihood",
            distribution=dist,
            X=new,
            predictive=pred,
            got=got,
            expected=expect,
        )
        # every single response, and a pair, on its own
        i = int(rng.integers(n))
        one = ctx.call(M.linear_regression_predictive, distribution=dist, X=new[[i]])
        e1 = mvt_logpdf(
            pts[:, [i]], loc[[i]], cov[np.ix_([i], [i])] * b / a, 2 * a
        )
        g1 = ctx.call(one.dist.logpdf, pts[:, [i]])
        ctx.ok(
            np.allclose(np.atleast_1d(g1), e1, rtol=1e-7, atol=1e-7),
            "predictive of one new response differs",
            distribution=dist,
            X=new[[i]],
            got=g1,
            expected=e1,
        )


# ---------------------------------------------------- multivariate normal
rule(
    "C05",
    "Random dimensions 1 to 5, sample sizes from 1 (also below the dimension), correlated "
    "covariances with condition up to 1e4, off-centre priors; a case is one observed model "
    "call judged at 12 or more parameter values; distinct by its arguments.",
)


def whole_matrix(rng, p):
    """A covariance or precision of integers."""
    m = rng.integers(-3, 4, size=(p, p))
    return m @ m.T + int(rng.integers(1, 4)) * np.eye(p, dtype=np.int64)


@unit("C05", quick=120)
def mvn_known(ctx):
    rng = ctx.rng
    for _ in range(4):
        p = dimension(rng)
        n = int(rng.choice([0, 1, 2, 5, 100, 1000, round(np.exp(rng.uniform(6, 18)))]))
        if rng.integers(4) == 0:
            n = [float, np.int64, np.float64][rng.integers(3)](n)
        unit = 10.0 ** rng.choice([0, 0, 0, -3, 3])
        x_bar = rng.normal(size=p) * 3 * unit
        if rng.integers(6) == 0:
            x_bar = np.round(x_bar).astype(np.int64)
        prior = D.MultivariateNormal(
            mu=rng.normal(size=p) * 3 * unit, cov=gen.spd(rng, p, 2.0) * unit**2
        )
        cov = gen.memory(rng, gen.spd(rng, p, 2.0) * unit**2)
        if rng.integers(6) == 0:
            cov = whole_matrix(rng, p)
        kw = {"inv": np.linalg.pinv} if rng.integers(8) == 0 else {}
        post = ctx.call(
            M.multivariate_normal_known_covariance,
            n=n, x_bar=x_bar, cov=cov, prior=prior, **kw,
        )
        ctx.case("cov", gen.key_of(n=n, x=x_bar, cov=cov, prior=prior), sample=(n, prior))
        ctx.event("oracle decisions", 2)
        for c in bayesnd.judge_mvn_known(prior, n, x_bar, np.linalg.inv(cov), post, rng):
            ctx.fail("known covariance: " + c, n=n, x_bar=x_bar, cov=cov, prior=prior, posterior=post)
        post = ctx.call(
            M.multivariate_normal_known_precision,
            n=n, x_bar=x_bar, precision=cov, prior=prior, **kw,
        )
        ctx.case("prec", gen.key_of(n=n, x=x_bar, cov=cov, prior=prior))
        for c in bayesnd.judge_mvn_known(prior, n, x_bar, np.asarray(cov, float), post, rng):
            ctx.fail("known precision: " + c, n=n, x_bar=x_bar, precision=cov, prior=prior, posterior=post)


@unit("C05", quick=120)
def mvn_unknown(ctx):
    rng = ctx.rng
    for _ in range(3):
        p = dimension(rng)
        n = int(rng.choice([1, 2, p, p + 1, 20, 150, round(np.exp(rng.uniform(5, 8)))]))
        X = rng.normal(size=(n, p)) @ gen.spd(rng, p, 1.0) + rng.normal(size=p) * 4
        unit = 10.0 ** rng.choice([0, 0, 0, -2, 2])
        X = X * unit
        if rng.integers(4) == 0:
            X = np.round(X).astype(np.int64)
        X = gen.memory(rng, X)
        psi = gen.memory(rng, gen.spd(rng, p, 2.0) * unit**2)
        if rng.integers(6) == 0:
            psi = whole_matrix(rng, p)
        nu = p - 1 + float(np.exp(rng.normal(0, rng.choice([1, 1, 3]))))
        if rng.integers(2):
            nu = p + int(rng.integers(0, 5))
        mu = gen.memory(rng, rng.normal(size=p) * 3 * unit)
        prior = D.InverseWishart(nu=nu, psi=psi)
        XX = X[:0] if rng.integers(10) == 0 else X
        post = ctx.call(M.multivariate_normal_known_mean, X=XX, mu=mu, prior=prior)
        ctx.case("iw", gen.key_of(X=XX, mu=mu, prior=prior), sample=(XX.shape, prior))
        ctx.event("oracle decisions", 2)
        for c in bayesnd.judge_mvn_known_mean(prior, XX, mu, post, rng):
            ctx.fail("known mean: " + c, X=XX, mu=mu, prior=prior, posterior=post)
        kappa = float(np.exp(rng.normal())) if rng.integers(2) else int(rng.integers(1, 5))
        if rng.integers(4) == 0:
            mu = np.zeros(p, dtype=np.int64)
        prior = D.NormalInverseWishart(mu=mu, kappa=kappa, nu=nu, psi=psi)
        post = ctx.call(M.multivariate_normal, X=X, prior=prior)
        ctx.case("niw", gen.key_of(X=X, prior=prior), sample=(X.shape, prior))
        for c in bayesnd.judge_niw(prior, X, post, rng):
            ctx.fail("unknown mean and covariance: " + c, X=X, prior=prior, posterior=post)


# ------------------------------------------------ unnormalised posteriors
rule(
    "C06",
    "Random data sets and priors of the four models, scalar and vector; the log likelihood "
    "functions of prior and posterior are observed at a grid of parameter values and their "
    "difference compared with the log likelihood of the raw data; a case is one update.",
)


def proportional_run(ctx, name, post, prior, f, lik, grid, info):
    """f(dist, *grid) - the kernel; lik: list of log likelihoods of observations."""
    l1, l0 = ctx.call(f, post), ctx.call(f, prior)
    ctx.case(name, repr(info), sample=(name, info))
    ctx.event("oracle decisions")
    ctx.event(f"kernel values {name}", 2 * np.size(l1))
    terms = [np.asarray(l1, float), -np.asarray(l0, float)] + [
        -np.asarray(v, float) for v in lik
    ]
    terms = [np.broadcast_to(v, np.shape(grid)) for v in terms]
    columns = [terms] if np.ndim(grid) == 1 else [[v[:, j] for v in terms] for j in range(np.shape(grid)[1])]
    for column in columns:
        for c in bayesnd.constant(column, 1e-10, name, 1e-8):
            ctx.fail(c, prior=prior, posterior=post, **info)


@unit("C06", quick=120)
def proportional(ctx):
    rng = ctx.rng
    size = int(rng.integers(0, 9)) if rng.integers(5) else int(rng.integers(20, 80))
    g = np.exp(rng.uniform(-3, 3, size=12))
    g2 = np.exp(rng.uniform(-3, 3, size=12))
    x = np.exp(rng.normal(size=size))
    bet = float(np.exp(rng.normal()))

    def pos():
        mode = rng.integers(8)
        if mode == 0:
            return int(rng.integers(1, 6))
        return float(np.exp(rng.normal(0, 4 if mode == 1 else 1)))

    # gamma, known rate
    c = pos()
    prior = D.GammaKnownRateProportional(a=pos(), b=c, c=c)
    post = ctx.call(M.gamma_known_rate, x_prod=np.prod(x), n=size, beta=bet, prior=prior)
    ctx.ok(isinstance(post, D.GammaKnownRateProportional), "posterior type", post=post)
    proportional_run(
        ctx, "gamma_known_rate", post, prior,
        lambda d: d.approx_log_likelihood(g, bet),
        [g * np.log(bet) - gammaln(g) + (g - 1) * np.log(xi) - bet * xi for xi in x],
        g, dict(x=x, beta=bet),
    )
    # gamma, nothing known
    prior = D.GammaProportional(p=pos(), q=pos(), r=pos(), s=pos())
    post = ctx.call(M.gamma, x_total=x.sum(), x_prod=np.prod(x), n=size, prior=prior)
    ctx.ok(isinstance(post, D.GammaProportional), "posterior type", post=post)
    proportional_run(
        ctx, "gamma", post, prior,
        lambda d: d.approx_log_likelihood(g, g2),
        [g * np.log(g2) - gammaln(g) + (g - 1) * np.log(xi) - g2 * xi for xi in x],
        g, dict(x=x),
    )
    # beta, nothing known
    u = rng.beta(1.5, 1.5, size=size)
    prior = D.BetaProportional(p=pos(), q=pos(), k=pos())
    post = ctx.call(
        M.beta, x_prod=np.prod(u), one_minus_x_prod=np.prod(1 - u), n=size, prior=prior
    )
    ctx.ok(isinstance(post, D.BetaProportional), "posterior type", post=post)
    proportional_run(
        ctx, "beta", post, prior,
        lambda d: d.approx_log_likelihood(g, g2),
        [
            (g - 1) * np.log(ui) + (g2 - 1) * np.log1p(-ui) - betaln(g, g2) for ui in u
        ],
        g, dict(x=u),
    )
    # von Mises, known concentration: also far from 0, and where cosines cancel
    ang = rng.uniform(-np.pi, np.pi, size=size)
    quarter = rng.integers(4) == 0  # sums of cosines or of sines that vanish
    if quarter:
        ang = np.pi / 2 * rng.choice([rng.integers(-1, 3, size=size), rng.choice([-1, 1], size=size)])
    elif rng.integers(4) == 0:
        ang = ang * 5
    kappa = pos() * (30 if rng.integers(4) == 0 else 1)
    mus = np.linspace(-np.pi, 2 * np.pi, 12)
    prior = D.VonMisesKnownConcentration(a=pos(), b=float(rng.uniform(-3, 4) * np.pi))
    if quarter:
        prior.b = float(np.pi / 2 * rng.integers(4))
    post = ctx.call(
        M.von_mises_known_concentration,
        cos_total=np.cos(ang).sum(), sin_total=np.sin(ang).sum(), n=size,
        kappa=kappa, prior=prior,
    )
    ctx.ok(isinstance(post, D.VonMisesKnownConcentration), "posterior type", post=post)
    ctx.ok(post.a >= 0, "posterior concentration is negative", post=post)
    proportional_run(
        ctx, "von_mises_known_concentration", post, prior,
        lambda d: d.log_likelihood(mus),
        [kappa * np.cos(ai - mus) - bayesnd.log_i0(kappa) for ai in ang],
        mus, dict(angles=ang, kappa=kappa),
    )
    # the same for many analyses at once
    rows = int(rng.integers(1, 5))
    kappas = np.exp(rng.normal(size=rows)) * (200 if rng.integers(6) == 0 else 1)
    angles = rng.uniform(-np.pi, np.pi, size=(size, rows))
    priors = D.VonMisesKnownConcentration(a=np.exp(rng.normal(size=rows)), b=rng.uniform(-3, 4, size=rows) * np.pi)
    if rng.integers(2):
        priors.a, priors.b = float(priors.a[0]), float(priors.b[0])
    posts = ctx.call(
        M.von_mises_known_concentration,
        cos_total=np.cos(angles).sum(axis=0), sin_total=np.sin(angles).sum(axis=0), n=size,
        kappa=kappas, prior=priors,
    )
    ctx.ok(np.shape(posts.a) == np.shape(posts.b) == (rows,), "posterior shapes", posts=posts)
    proportional_run(
        ctx, "von_mises_known_concentration", posts, priors,
        lambda d: d.log_likelihood(mus[:, None]),
        [kappas * np.cos(ai - mus[:, None]) - bayesnd.log_i0(kappas) for ai in angles],
        np.zeros((12, rows)), dict(angles=angles, kappa=kappas),
    )
    # von Mises, known direction
    mu = float(rng.uniform(0, 2 * np.pi))
    kap = np.exp(rng.uniform(-3, 8 if rng.integers(3) == 0 else 3, size=12))
    prior = D.VonMisesKnownDirectionProportional(c=pos(), r=pos() * rng.uniform(-1, 1))
    post = ctx.call(
        M.von_mises_known_direction,
        centered_cos_total=np.cos(ang - mu).sum(), n=size, prior=prior,
    )
    ctx.ok(isinstance(post, D.VonMisesKnownDirectionProportional), "posterior type", post=post)
    proportional_run(
        ctx, "von_mises_known_direction", post, prior,
        lambda d: d.approx_log_likelihood(kap),
        [kap * np.cos(ai - mu) - bayesnd.log_i0(kap) for ai in ang],
        kap, dict(angles=ang, mu=mu),
    )


@unit("C06", quick=100)
def kernels(ctx):
    """The documented kernels, scalars and broadcast arrays."""
    rng = ctx.rng
    L = gen.Layout(rng)
    pos = gen.positive_any(0.05, 40)
    V = L.value
    al, be = V(pos), V(pos)
    h = np.float64

    def expect(name, got, want, **info):
        ctx.case(name, gen.key_of(**info), sample=(name, info))
        want = np.asarray(want, float)
        ctx.ok(
            np.shape(got) == want.shape
            and np.allclose(np.asarray(got, float), want, rtol=1e-9, atol=1e-8),
            f"{name} differs from its documented kernel",
            got=got, expected=want, **info,
        )

    f = lambda v: np.asarray(v, dtype=float)  # noqa: E731
    a, b, c = V(pos), V(pos), V(pos)
    d = D.GammaKnownRateProportional(a=a, b=b, c=c)
    expect(
        "GammaKnownRateProportional", ctx.call(d.approx_log_likelihood, al, be),
        (f(al) - 1) * np.log(f(a)) + f(al) * f(c) * np.log(f(be)) - f(b) * gammaln(f(al)),
        d=d, alpha=al, beta=be,
    )
    s = V(pos)
    d = D.GammaProportional(p=a, q=b, r=c, s=s)
    expect(
        "GammaProportional", ctx.call(d.approx_log_likelihood, al, be),
        (f(al) - 1) * np.log(f(a)) - f(b) * f(be) - f(c) * gammaln(f(al))
        + f(al) * f(s) * np.log(f(be)),
        d=d, alpha=al, beta=be,
    )
    d = D.BetaProportional(p=a, q=b, k=c)
    expect(
        "BetaProportional", ctx.call(d.approx_log_likelihood, al, be),
        f(al) * np.log(f(a)) + f(be) * np.log(f(b)) - f(c) * betaln(f(al), f(be)),
        d=d, alpha=al, beta=be,
    )
    mu = V(gen.real(2.0))
    if rng.integers(4) == 0:
        a = V(gen.positive_any(0.05, 5000))
    d = D.VonMisesKnownConcentration(a=a, b=b)
    expect(
        "VonMisesKnownConcentration", ctx.call(d.log_likelihood, mu),
        f(a) * np.cos(f(mu) - f(b)) - bayesnd.log_i0(f(a)),
        d=d, mu=mu,
    )
    d = D.VonMisesKnownDirectionProportional(c=a, r=b)
    if rng.integers(4) == 0:
        al = V(gen.positive_any(0.05, 5000))
    expect(
        "VonMisesKnownDirectionProportional", ctx.call(d.approx_log_likelihood, al),
        f(al) * f(b) - f(a) * bayesnd.log_i0(f(al)),
        d=d, kappa=al,
    )
