"""Monitors of long lives of posteriors ("C31")."""

import numpy as np

from conjugate import models as M

from vmon import dists, gen, hist
from vmon.core import rule, unit

rule(
    "C31",
    "Histories of 30 to 150 updates (thorough: up to 1500) of every model from random priors in all "
    "layouts, with empty, tiny and huge batches, noiseless and offset data; every posterior on "
    "the way is judged, predictives and samplers at random stops; a case is one history; distinct "
    "by prior and data.",
    [
        "products of observations stay within the range of floats",
        "squares of means at most 1e7 times the variance",
    ],
)

# parameters that are positive, and those that only grow (+1) or shrink (-1)
POSITIVE = {
    "Beta": "alpha beta", "Gamma": "alpha beta", "InverseGamma": "alpha beta", "Pareto": "x_m alpha",
    "ScaledInverseChiSquared": "nu sigma2", "Normal": "sigma", "NormalInverseGamma": "alpha beta",
    "NormalGamma": "lam alpha beta", "Dirichlet": "alpha", "GammaProportional": "p q r s",
    "GammaKnownRateProportional": "a b c", "BetaProportional": "p q k", "VonMisesKnownConcentration": "a",
    "VonMisesKnownDirectionProportional": "c", "InverseWishart": "nu", "NormalInverseWishart": "kappa nu",
    "BetaBinomial": "n alpha beta", "BetaNegativeBinomial": "n alpha beta", "BetaGeometric": "alpha beta",
    "NegativeBinomial": "n p", "Lomax": "alpha lam", "CompoundGamma": "alpha beta lam",
    "StudentT": "sigma nu", "MultivariateStudentT": "nu", "DirichletMultinomial": "alpha n",
}
GROWS = {
    "Beta": "alpha beta", "Gamma": "alpha beta", "InverseGamma": "alpha beta", "Pareto": "x_m alpha",
    "ScaledInverseChiSquared": "nu", "NormalInverseGamma": "nu alpha beta", "NormalGamma": "lam alpha beta",
    "Dirichlet": "alpha", "GammaProportional": "q r s", "GammaKnownRateProportional": "b c",
    "BetaProportional": "k", "VonMisesKnownDirectionProportional": "c", "InverseWishart": "nu",
    "NormalInverseWishart": "kappa nu",
}
SHRINKS = {"Normal": "sigma", "BetaProportional": "p q"}
# matrices: in which direction their quadratic forms go
MATRICES = {
    "MultivariateNormal": {"cov": -1}, "InverseWishart": {"psi": 1}, "NormalInverseWishart": {"psi": 1},
    "NormalInverseGamma": {"delta_inverse": -1}, "MultivariateStudentT": {"sigma": 0},
}
PRODUCTS = ("gamma", "gamma_known_rate", "beta")
TWIN = {
    "normal_normal_inverse_gamma": "normal_normal_inverse_gamma_predictive",
    "log_normal": "normal_predictive",
}


def get(d, names):
    return {k: hist.f(getattr(d, k)) for k in names.split() if getattr(d, k, None) is not None}


def judge(ctx, where, d, before=None):
    """Validity of one distribution, and growth since the one before."""
    name = type(d).__name__
    for k in d.__dataclass_fields__:
        v = getattr(d, k)
        if v is not None and not isinstance(v, bool):
            if not ctx.ok(np.all(np.isfinite(hist.f(v))), f"{where}: {k} of {name} is {v}", d=d):
                return False
    for k, v in get(d, POSITIVE.get(name, "")).items():
        ctx.ok(np.all(v > 0), f"{where}: {k} of {name} is {v}", d=d)
    if name == "NormalInverseGamma" and d.nu is not None:
        ctx.ok(np.all(hist.f(d.nu) > 0), f"{where}: nu of {name} is {d.nu}", d=d)
    if name == "NegativeBinomial":
        ctx.ok(np.all(hist.f(d.p) <= 1), f"{where}: p of {name} is {d.p}", d=d)
    if name == "VonMisesKnownDirectionProportional":
        pass  # the resultant may point anywhere
    for k, way in MATRICES.get(name, {}).items():
        v = getattr(d, k)
        if v is None:
            continue
        v = hist.f(v)
        size = abs(v).max()
        ctx.ok(np.allclose(v, v.T, rtol=1e-7, atol=1e-9 * size), f"{where}: {k} of {name} is not symmetric", d=d)
        low = np.linalg.eigvalsh((v + v.T) / 2)[0]
        ctx.ok(low > 0, f"{where}: {k} of {name} is not positive definite ({low})", d=d)
        if before is not None and way:
            change = way * (v - hist.f(getattr(before, k)))
            low = np.linalg.eigvalsh((change + change.T) / 2)[0]
            big = max(size, abs(hist.f(getattr(before, k))).max())
            ctx.ok(low >= -1e-9 * big, f"{where}: {k} of {name} went the wrong way by {low}", before=before, d=d)
    if before is not None:
        for way, table in ((1, GROWS), (-1, SHRINKS)):
            old = get(before, table.get(name, ""))
            for k, v in get(d, table.get(name, "")).items():
                ctx.ok(
                    np.all(way * (v - old[k]) >= -1e-9 * abs(old[k])), f"{where}: {k} of {name} went from {old[k]} to {v}",
                    before=before, d=d,
                )
    ctx.event("states judged")
    return True


def counted(name, d):
    """The observations that a posterior says it has seen, up to a constant."""
    kind = type(d).__name__
    get1 = lambda k: hist.f(getattr(d, k))  # noqa: E731
    if name in ("binomial_beta", "geometric_beta", "geometric_beta from zero"):
        return None if name != "binomial_beta" else get1("alpha") + get1("beta")
    return {
        "poisson_gamma": lambda: get1("beta"),
        "exponential_gamma": lambda: get1("alpha"),
        "pareto_gamma": lambda: get1("alpha"),
        "uniform_pareto": lambda: get1("alpha"),
        "weibull_inverse_gamma_known_shape": lambda: get1("alpha"),
        "normal_known_mean": lambda: 2 * get1("alpha"),
        "normal_known_mean scaled inverse chi squared": lambda: get1("nu"),
        "normal": lambda: get1("nu") if kind == "NormalInverseGamma" else get1("lam"),
        "normal gamma": lambda: get1("lam"),
        "normal_normal_inverse_gamma": lambda: get1("nu"),
        "log_normal": lambda: get1("nu"),
        "log_normal gamma": lambda: get1("lam"),
        "gamma": lambda: get1("r"),
        "gamma_known_rate": lambda: get1("b"),
        "beta": lambda: get1("k"),
        "von_mises_known_direction": lambda: get1("c"),
        "categorical_dirichlet": lambda: get1("alpha").sum(),
        "multivariate_normal_known_mean": lambda: get1("nu"),
        "multivariate_normal": lambda: get1("kappa"),
        "linear_regression": lambda: 2 * get1("alpha"),
    }.get(name, lambda: None)()


def predictive(ctx, story, d, fixed):
    """The predictive of the model, if there is one."""
    rng = ctx.rng
    name = TWIN.get(story.model, story.model + "_predictive")
    f = getattr(M, name, None)
    if f is None:
        return None
    kw = {
        "binomial_beta": lambda: dict(n=int(rng.integers(1, 30))),
        "negative_binomial_beta": lambda: dict(r=fixed["r"]),
        "geometric_beta": lambda: {k: v for k, v in fixed.items()},
        "poisson_gamma": lambda: dict(n=float(rng.gamma(2.0) + 0.1)),
        "gamma_known_shape": lambda: dict(alpha=fixed["alpha"]),
        "normal_known_variance": lambda: dict(var=fixed["var"]),
        "normal_known_precision": lambda: dict(precision=fixed["precision"]),
        "normal_known_mean": lambda: dict(mu=fixed["mu"]),
        "categorical_dirichlet": lambda: dict(n=int(rng.integers(1, 9))),
        "multinomial_dirichlet": lambda: dict(n=int(rng.integers(1, 9))),
        "multivariate_normal_known_covariance": lambda: dict(cov=fixed["cov"]),
        "multivariate_normal_known_precision": lambda: dict(precision=fixed["precision"]),
        "linear_regression": lambda: dict(X=rng.normal(size=(2, len(d.mu)))),
    }.get(story.model, dict)()
    return ctx.call(f, distribution=d, **kw)


def typical(ref, d):
    """Points in the bulk of the distribution."""
    p = ref.params(d)
    shape = ref.shape(p)
    with np.errstate(all="ignore"):
        if ref.name == "BetaNegativeBinomial":
            return np.zeros((1,) + shape)
        if ref.name == "BetaBinomial":
            return np.broadcast_to(np.floor(p["n"] / 2), shape)[None]
        if ref.name == "VonMises":
            return np.broadcast_to(p["mu"], shape)[None]
        return ref.quantile(p, np.array([0.25, 0.5, 0.75]).reshape((3,) + (1,) * len(shape)))


def usable(ctx, where, d):
    rng = ctx.rng
    ref = dists.ref_of(d)
    seed = int(rng.integers(2**31))
    if ref is not None:
        x = typical(ref, d)
        shape = ref.shape(ref.params(d))
        y = ctx.call(lambda: (d.dist.pmf if ref.discrete else d.dist.pdf)(x))
        good = np.all(np.isfinite(y)) and np.all(y >= 0) and np.all(y[-1] > 0 if ref.name != "BetaBinomial" else True)
        ctx.ok(good, f"{where}: density of {type(d).__name__} is {y}", d=d, x=x)
        if ref.name == "NegativeBinomial" and np.any(hist.f(d.p) < 1e-9):
            return  # numpy cannot sample it
        draws = ctx.call(lambda: d.dist.rvs(size=(2,) + shape, random_state=seed))
        ctx.ok(np.all(np.isfinite(draws)), f"{where}: draws from {type(d).__name__} are {draws}", d=d)
        ctx.event("used")
        return
    name = type(d).__name__
    if name in ("NormalInverseGamma", "NormalGamma"):
        shape = np.broadcast_shapes(*[np.shape(v) for v in vars(d).values() if v is not None])
        size = 3 if getattr(d, "delta_inverse", None) is not None else (3,) + shape
        draws = ctx.call(d.sample_mean, size, return_variance=True, random_state=seed)
        ctx.ok(all(np.all(np.isfinite(v)) for v in draws), f"{where}: draws from {name} are {draws}", d=d)
        ctx.ok(np.all(np.asarray(draws[1]) > 0), f"{where}: variances drawn from {name} are {draws[1]}", d=d)
    elif name == "NormalInverseWishart":
        draws = ctx.call(d.sample_mean, 3, return_variance=True, random_state=seed)
        ctx.ok(all(np.all(np.isfinite(v)) for v in draws), f"{where}: draws from {name} are {draws}", d=d)
    elif name in ("MultivariateNormal", "MultivariateStudentT"):
        draws = ctx.call(lambda: d.dist.rvs(size=3, random_state=seed))
        at = hist.f(d.mu)
        y = ctx.call(lambda: d.dist.logpdf(at))
        ctx.ok(np.all(np.isfinite(draws)) and np.all(np.isfinite(y)), f"{where}: {name} gives {draws} and {y}", d=d)
    elif name == "InverseWishart":
        draws = ctx.call(lambda: d.dist.rvs(size=1, random_state=seed))
        ctx.ok(np.all(np.isfinite(draws)), f"{where}: draws from {name} are {draws}", d=d)
    elif name == "Dirichlet":
        draws = ctx.call(lambda: d.dist.rvs(size=3, random_state=seed))
        ctx.ok(
            np.all(np.isfinite(draws)) and np.allclose(np.sum(draws, axis=-1), 1), f"{where}: draws from {name} are {draws}", d=d
        )
    elif name == "DirichletMultinomial":
        x = np.zeros(len(d.alpha), int)
        x[0] = d.n
        y = ctx.call(lambda: d.dist.logpmf(x))
        ctx.ok(np.all(np.isfinite(y)), f"{where}: log probability of {name} is {y}", d=d)
    elif name in ("GammaProportional", "GammaKnownRateProportional", "BetaProportional"):
        y = ctx.call(d.approx_log_likelihood, alpha=1.3, beta=0.8)
        ctx.ok(np.all(np.isfinite(y)), f"{where}: log likelihood of {name} is {y}", d=d)
    elif name == "VonMisesKnownConcentration":
        y = ctx.call(d.log_likelihood, mu=0.4)
        ctx.ok(np.all(np.isfinite(y)), f"{where}: log likelihood of {name} is {y}", d=d)
    elif name == "VonMisesKnownDirectionProportional":
        y = ctx.call(d.approx_log_likelihood, kappa=1.4)
        ctx.ok(np.all(np.isfinite(y)), f"{where}: log likelihood of {name} is {y}", d=d)
    else:
        ctx.fail(f"{where}: nothing is known of {name}", d=d)
    ctx.event("used")


def batch(ctx, story, shape, fixed, sizes):
    """Data of one update, sometimes all the same."""
    rng = ctx.rng
    size = sizes[rng.integers(len(sizes))]
    x = story.draw(rng, size, shape, fixed)
    if size and rng.integers(5) == 0 and story.model != "linear_regression":
        x = np.broadcast_to(x[:1], x.shape).copy()  # without any noise
    if story.model.startswith(("normal", "multivariate_normal")) and rng.integers(4) == 0:
        x = x + 300.0
    if story.model == "pareto_gamma" and size:
        # on the edge of what is possible
        x[rng.integers(size)] = fixed["x_m"]
    if story.model in PRODUCTS:
        x = np.clip(x, 0.3, 0.7) if story.model == "beta" else np.clip(x, 0.5, 2.0)
        if story.model != "beta":  # products near one
            x = np.where(np.arange(size).reshape((-1,) + (1,) * len(shape)) % 2, 1 / np.roll(x, 1, axis=0), x)
    return x


def live(ctx, stories):
    rng = ctx.rng
    for story in stories:
        L, prior, fixed, shape = hist.begin(story, rng)
        n_updates = int(rng.integers(30, 1500 if ctx.thorough and rng.integers(8) == 0 else 150))
        if story.model in PRODUCTS:
            sizes, n_updates = [0, 1, 2, 3], int(rng.integers(30, 150))
        else:
            sizes = [0, 1, 1, 2, 5, 30]
            if rng.integers(3) == 0:
                sizes.append(2000)
                n_updates = min(n_updates, 60)
        d, seen = prior, 0
        judge(ctx, story.name, d)
        first = counted(story.name, d)
        ctx.case(story.name, gen.key_of(prior=prior), n_updates, sample=(story.name, prior, n_updates))
        f = getattr(M, story.model)
        stops = set(rng.integers(n_updates, size=2)) | {n_updates - 1}
        for i in range(n_updates):
            x = batch(ctx, story, shape, fixed, sizes)
            seen += len(x)
            before, d = d, ctx.call(f, prior=d, **story.kwargs(x, fixed))
            where = f"{story.name} after {i + 1} updates"
            if not judge(ctx, where, d, before):
                break
            if i in stops:
                usable(ctx, where, d)
                p = predictive(ctx, story, d, fixed)
                if p is not None:
                    judge(ctx, f"predictive of {where}", p)
                    usable(ctx, f"predictive of {where}", p)
                    ctx.event("predictives")
        now = counted(story.name, d)
        if now is not None:
            ctx.ok(
                np.allclose(now - first, seen, rtol=1e-9, atol=1e-9 * (1 + abs(first))),
                f"{story.name}: counts {now - first} observations after {seen}", d=d, prior=prior,
            )
        ctx.event("updates", n_updates)
        ctx.event("observations", seen)


@unit("C31", quick=8, weight=3)
def elementwise(ctx):
    live(ctx, hist.STORIES)


@unit("C31", quick=8, weight=3)
def multivariate(ctx):
    live(ctx, hist.MV_STORIES)


@unit("C31", quick=24)
def bandits(ctx):
    """Choices made by samples of the posteriors, and posteriors by the choices."""
    rng = ctx.rng
    arms = int(rng.integers(2, 6))
    p = rng.uniform(0.02, 0.98, size=arms)
    rate = np.exp(rng.normal(size=arms))
    from conjugate import distributions as D

    beta = D.Beta(alpha=np.ones(arms), beta=np.ones(arms))
    gamma = D.Gamma(alpha=np.ones(arms), beta=np.ones(arms))
    steps = int(rng.integers(50, 300))
    ctx.case("bandits", p.tobytes(), steps, sample=(p, steps))
    pulls = np.zeros(arms)
    for _ in range(steps):
        k = int(np.argmax(ctx.call(lambda: beta.dist.rvs(size=arms, random_state=rng))))
        one = np.arange(arms) == k
        x = one * rng.binomial(1, p[k])
        beta_before, gamma_before = beta, gamma
        beta = ctx.call(M.binomial_beta, n=one.astype(int), x=x, prior=beta)
        gamma = ctx.call(M.poisson_gamma, x_total=one * rng.poisson(rate), n=one.astype(int), prior=gamma)
        pulls += one
        judge(ctx, "bandit", beta, beta_before)
        judge(ctx, "bandit", gamma, gamma_before)
    ctx.ok(np.allclose(hist.f(beta.alpha) + hist.f(beta.beta), pulls + 2), f"{beta} after {pulls} pulls")
    ctx.ok(np.allclose(hist.f(gamma.beta), pulls + 1), f"{gamma} after {pulls} pulls")
    usable(ctx, "bandit", beta)
    usable(ctx, "bandit", gamma)
    ctx.event("updates", 2 * steps)


def against_information(ctx, where, mu, cov, precision, shift, limit, **info):
    """A posterior against the information gathered since the prior."""
    mu, cov = hist.f(mu), hist.f(cov)
    # in units where the information has a unit diagonal, so that it can be inverted
    s = np.diagonal(precision) ** -0.5
    inverse = np.linalg.inv(precision * np.outer(s, s)) * np.outer(s, s)
    sd = np.diagonal(inverse) ** 0.5
    off = abs(cov - inverse) / np.outer(sd, sd)
    ctx.ok(np.max(off) < limit, f"{where}: covariance off by {np.max(off)} of the variances", cov=cov, expected=inverse, **info)
    expected = inverse @ shift
    off = abs(mu - expected) / (sd + 1e-6 * abs(expected))
    ctx.ok(np.max(off) < limit, f"{where}: mean off by {np.max(off)} standard deviations", mu=mu, expected=expected, **info)
    ctx.event("states judged against all the information")


@unit("C31", quick=40)
def vague(ctx):
    """Vague priors and coordinates of different sizes, over many batches."""
    rng = ctx.rng
    from conjugate import distributions as D

    p, steps = int(rng.integers(1, 5)), int(rng.integers(20, 300 if ctx.thorough else 120))
    width = 10.0 ** rng.choice([0, 1, 2, 4, 6])
    span = 10.0 ** rng.choice([0, 1, 2, 3, 4])
    sizes = span ** rng.permutation(np.linspace(0, 1, p))
    mu0 = rng.normal(size=p)
    model = ["linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision"][ctx.rep % 3]
    ctx.case(model, p, width, span, steps, sample=(model, p, f"prior variance {width}", f"sizes {sizes}", steps))
    precision, shift = np.eye(p) / width, mu0 / width
    info = dict(width=width, sizes=sizes, steps=steps)
    if model == "linear_regression":
        d = D.NormalInverseGamma(mu=mu0, delta_inverse=width * np.eye(p), alpha=1.0, beta=1.0)
        coef = rng.normal(size=p) / sizes
    else:
        d = D.MultivariateNormal(mu=mu0, cov=width * np.eye(p))
        noise = gen.spd(rng, p, 1.0) * np.outer(sizes, sizes)
        known = np.linalg.inv(noise / np.outer(sizes, sizes)) / np.outer(sizes, sizes)
    for i in range(steps):
        n = int(rng.integers(1, 4))
        X = rng.normal(size=(n, p)) * sizes
        if model == "linear_regression":
            y = X @ coef + 0.3 * rng.normal(size=n)
            d = ctx.call(M.linear_regression, X=X, y=y, prior=d)
            precision, shift, cov = precision + X.T @ X, shift + X.T @ y, d.delta_inverse
        else:
            kw = dict(cov=noise) if model.endswith("covariance") else dict(precision=known)
            d = ctx.call(getattr(M, model), n=n, x_bar=X.mean(axis=0), prior=d, **kw)
            precision, shift, cov = precision + n * known, shift + known @ X.sum(axis=0), d.cov
        if i % 10 == 9 or i == steps - 1:
            against_information(ctx, f"{model} after {i + 1} updates", d.mu, cov, precision, shift, 1e-4, **info)
    ctx.event("updates", steps)
