"""Monitors of the distributions themselves (properties "C11", "C12")."""

import numpy as np
from scipy.special import betainc, gammaln, multigammaln, xlogy

from conjugate import distributions as D

from vmon import dists, gen, stat
from vmon.core import rule, unit

rule(
    "C11",
    "Every univariate class with random parameters (python and numpy scalars, 0-d, vector, "
    "broadcast, size one) evaluated at reference quantiles, in both tails, on and off the "
    "support; a case is one distribution object; distinct by its parameters.",
    ["agreement within 1e-7 relative (1e-9 absolute for distribution functions)"],
)

Q = np.array([1e-4, 0.02, 0.2, 0.5, 0.77, 0.97, 1 - 1e-4])


def close(got, want, rtol=1e-7, atol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(
        np.all(
            np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True) | (got == want)
        )
    )


def points(ref, p):
    """(G, ...) evaluation points: quantiles, beyond both ends, between the atoms."""
    shape = ref.shape(p)
    q = Q.reshape((-1,) + (1,) * len(shape))
    x = ref.quantile(p, q)
    lo, hi = ref.support(p)
    ends = []
    with np.errstate(all="ignore"):
        width = np.maximum(1.0, abs(x[-1] - x[0]))
    if ref.discrete:
        between = [] if ref.name == "Hypergeometric" else [x[1:4] + 0.5]
        x = np.concatenate([x, x[2:5] + 1.0, x[:1] - 1.0] + between)
        if np.all(np.isfinite(hi)):
            ends += [np.asarray(hi, float), np.asarray(hi, float) + 1]
        ends += [np.asarray(lo, float), np.asarray(lo, float) - 1]
    elif ref.name != "VonMises":
        # closer to a finite upper end there are too few floats
        x = np.minimum(x, np.where(np.isfinite(hi), hi - 1e-6 * width, np.inf))
        if np.all(np.isfinite(lo)):
            ends.append(lo - 0.3 * width)
        if np.all(np.isfinite(hi)):
            ends.append(hi + 0.3 * width)
    extra = [np.broadcast_to(e, shape)[None] for e in ends]
    return np.concatenate([np.broadcast_to(x, (len(x),) + shape)] + extra)


def judge_univariate(ctx, d, full=True):
    """Everything the object behind d computes against the reference."""
    ref = dists.ref_of(d)
    p = ref.params(d)
    name = ref.name
    x = points(ref, p)
    want = ref.logpdf(p, x)
    dist = ctx.call(lambda: d.dist)
    density = dist.pmf if ref.discrete else dist.pdf
    got = ctx.call(density, x)
    ctx.event(f"values {name}", np.size(x))
    ctx.ok(
        close(got, np.exp(want), 2e-7, 1e-14),
        f"{name}: density or probability is not that of the documented parameters",
        d=d, x=x, got=got, expected=np.exp(want),
    )
    cdf = ctx.call(dist.cdf, x)
    if name == "VonMises":
        base = ref.cdf(p, x[3])
        ctx.ok(
            close(cdf - cdf[3], ref.cdf(p, x) - base, 1e-6, 1e-7),
            "VonMises: distribution function has wrong increments",
            d=d, x=x, got=cdf,
        )
    else:
        want_cdf = ref.cdf(p, x)
        ctx.ok(
            close(cdf, want_cdf, 1e-6, 1e-9),
            f"{name}: distribution function is not that of the documented parameters",
            d=d, x=x, got=cdf, expected=want_cdf,
        )
    # one value at a time must agree with all at once
    i = int(ctx.rng.integers(len(x)))
    one = ctx.call(density, x[i])
    ctx.ok(
        np.shape(one) == np.shape(x[i]) and close(one, got[i], 1e-12, 0),
        f"{name}: density at one point differs from the density at many",
        d=d, x=x[i], got=one,
    )
    if not full or not ref.scipy:
        return
    logd = ctx.call(dist.logpmf if ref.discrete else dist.logpdf, x)
    fin = want > -600
    ctx.ok(
        close(np.where(fin, logd, 0), np.where(fin, want, 0), 1e-7, 1e-7)
        and np.all(logd[want == -np.inf] == -np.inf),
        f"{name}: log density is not that of the documented parameters",
        d=d, x=x, got=logd, expected=want,
    )
    if name == "VonMises":
        return
    sf = ctx.call(dist.sf, x)
    ctx.ok(
        close(sf, 1 - ref.cdf(p, x), 1e-6, 1e-9), f"{name}: survival function",
        d=d, x=x, got=sf,
    )
    shape = ref.shape(p)
    qq = np.array([0.03, 0.31, 0.64, 0.95]).reshape((-1,) + (1,) * len(shape))
    qq = qq + np.zeros(shape)
    z = ctx.call(dist.ppf, qq)
    if ref.discrete:
        good = (ref.cdf(p, z) >= qq - 1e-9) & (ref.cdf(p, z - 1) <= qq + 1e-9)
    else:
        good = np.isclose(ref.cdf(p, z), qq, rtol=1e-6, atol=1e-8)
        if name == "Beta":  # too few floats below one
            good |= (z > 1 - 1e-6) & (ref.cdf(p, np.array(1 - 2e-6)) <= qq)
    ctx.ok(np.all(good), f"{name}: quantiles are wrong", d=d, q=qq, got=z)
    for what in ("mean", "var"):
        want_m = getattr(ref, what)(p)
        if want_m is None:
            continue
        want_m = np.broadcast_to(want_m, shape)
        got_m = np.broadcast_to(ctx.call(getattr(dist, what)), shape)
        sane = np.isfinite(want_m) & (abs(want_m) < 1e12)
        ctx.ok(
            close(np.where(sane, got_m, 0), np.where(sane, want_m, 0), 1e-6, 1e-9),
            f"{name}: {what} is not that of the documented parameters",
            d=d, got=got_m, expected=want_m,
        )


FAST = [n for n in dists.REFS if n not in ("BetaNegativeBinomial", "BetaBinomial", "Hypergeometric")]


@unit("C11", quick=100)
def univariate(ctx):
    for name in FAST:
        ref = dists.REFS[name]
        kw = ref.gen(gen.Layout(ctx.rng))
        d = ctx.call(ref.make, D, kw)
        ctx.case(name, gen.key_of(**kw), sample=d)
        judge_univariate(ctx, d, full=ctx.rep % 2 == 0 or ctx.thorough)


@unit("C11", quick=24, weight=4)
def univariate_summed(ctx):
    for name in ("BetaNegativeBinomial", "BetaBinomial", "Hypergeometric"):
        ref = dists.REFS[name]
        L = gen.Layout(ctx.rng)
        kw = ref.gen(L)
        d = ctx.call(ref.make, D, kw)
        ctx.case(name, gen.key_of(**kw), sample=d)
        if name == "BetaNegativeBinomial":
            # heavy tails: only a fixed range of values
            p = ref.params(d)
            shape = ref.shape(p)
            x = np.arange(-2.0, 40.5, 0.5).reshape((-1,) + (1,) * len(shape)) + np.zeros(shape)
            got = ctx.call(d.dist.pmf, x)
            ctx.event(f"values {name}", np.size(x))
            ctx.ok(
                close(got, np.exp(ref.logpdf(p, x)), 2e-7, 1e-14),
                f"{name}: probabilities", d=d, got=got,
            )
            got = ctx.call(d.dist.cdf, x)
            ctx.ok(
                close(got, ref.cdf(p, x), 1e-7, 1e-9),
                f"{name}: distribution function", d=d, got=got,
            )
        else:
            judge_univariate(ctx, d, full=ctx.rep % 3 == 0)


# what each scale does to the parameters
SCALES = {
    "Exponential": lambda kw, s: dict(kw, lam=np.asarray(kw["lam"]) / s),
    "Gamma": lambda kw, s: dict(kw, beta=np.asarray(kw["beta"]) / s),
    "InverseGamma": lambda kw, s: dict(kw, beta=np.asarray(kw["beta"]) * s),
    "ScaledInverseChiSquared": lambda kw, s: dict(kw, sigma2=np.asarray(kw["sigma2"]) * s),
    "Pareto": lambda kw, s: dict(kw, x_m=np.asarray(kw["x_m"]) * s),
    "Lomax": lambda kw, s: dict(kw, lam=np.asarray(kw["lam"]) * s),
    "CompoundGamma": lambda kw, s: dict(kw, lam=np.asarray(kw["lam"]) * s),
    "Weibull": lambda kw, s: dict(kw, theta=kw["theta"] * s ** np.asarray(kw["beta"], float)),
    "LogNormal": lambda kw, s: dict(kw, mu=np.asarray(kw["mu"]) + np.log(s)),
    "Normal": lambda kw, s: dict(mu=np.asarray(kw["mu"]) * s, sigma=np.asarray(kw["sigma"]) * s),
    "StudentT": lambda kw, s: dict(kw, mu=np.asarray(kw["mu"]) * s, sigma=np.asarray(kw["sigma"]) * s),
    "Uniform": lambda kw, s: dict(low=np.asarray(kw["low"]) * s, high=np.asarray(kw["high"]) * s),
}


@unit("C11", quick=48)
def units_of_measure(ctx):
    """Measuring in other units, many decades away, changes the scale and nothing else."""
    rng = ctx.rng
    for name, change in SCALES.items():
        ref = dists.REFS[name]
        kw = ref.gen(gen.Layout(rng, ["pyscalar", "npscalar", "vec"][rng.integers(3)]))
        most = 60.0
        if name == "Weibull":
            most = min(most, 200 / np.max(kw["beta"]))
        s = float(10 ** rng.uniform(-most, most))
        kw2 = change(kw, s)
        if ctx.rep % 2:
            kw2 = {k: v.item() if np.ndim(v) == 0 else v for k, v in ((k, np.asarray(v)) for k, v in kw2.items())}
        d, d2 = ctx.call(ref.make, D, kw), ctx.call(ref.make, D, kw2)
        p = ref.params(d)
        ctx.case(name, gen.key_of(**kw), s, sample=(d, d2))
        q = rng.uniform(0.02, 0.98, size=(5,) + ref.shape(p))
        with np.errstate(all="ignore"):
            x = ref.quantile(p, q) + np.zeros(q.shape)
            fine = (x > 1e-200) & (x < 1e200) if np.min(ref.support(p)[0]) >= 0 else abs(x) < 1e200
            lp = ref.logpdf(p, x)
            # rounding of x, in the log of the density
            h = 1e-7
            slope = abs(ref.logpdf(p, x * (1 + h)) - ref.logpdf(p, x * (1 - h))) / (2 * h)
            slope = np.where(np.isfinite(slope), slope, 0)
            got = np.log(ctx.call(d2.dist.pdf, x * s)) + np.log(s)
            cdf, cdf2 = ctx.call(d.dist.cdf, x), ctx.call(d2.dist.cdf, x * s)
        fine &= abs(lp) < 300
        fine &= abs(lp - np.log(s)) < 600
        if name == "Uniform":
            fine &= (x > p["low"]) & (x < p["high"])
        limit = 1e-7 + 1e-14 * abs(lp) + 1e-11 * slope
        ctx.ok(
            np.all((abs(got - lp) <= limit)[fine]), f"{name}: the density in other units is not the same",
            d=d, scaled=d2, s=s, x=x, got=got, expected=lp,
        )
        ctx.ok(
            np.all((abs(cdf - cdf2) <= 1e-7 + 1e-11 * slope)[fine]),
            f"{name}: the distribution function in other units is not the same", d=d, scaled=d2, s=s, x=x,
            got=cdf2, expected=cdf,
        )
        if ref.scipy:
            z, z2 = (ctx.call(e.dist.ppf, q) for e in (d, d2))
            good = np.isclose(z2 / s, z, rtol=1e-6, atol=1e-9 * np.max(abs(z[fine]), initial=0))
            ctx.ok(np.all(good[fine]), f"{name}: the quantiles in other units are not the same", d=d, scaled=d2, s=s)
        ctx.event("scales", int(np.sum(fine)))


def _log_uniform(lo, hi):
    return lambda rng, shape: np.exp(rng.uniform(np.log(lo), np.log(hi), size=shape))


def _chance(rng, shape):
    """Probabilities close to either end as well."""
    v = np.exp(rng.uniform(np.log(1e-7), np.log(0.5), size=shape))
    return np.where(rng.random(size=shape) < 0.5, v, 1 - v)


def _whole(lo, hi):
    return lambda rng, shape: np.round(_log_uniform(lo, hi)(rng, shape)).astype(np.int64)


# the shapes far from what is usual; scales go through the units of measure
FAR = {
    "Beta": dict(alpha=_log_uniform(0.01, 1e6), beta=_log_uniform(0.3, 1e6)),
    "Binomial": dict(n=_whole(1, 1e6), p=_chance),
    "Gamma": dict(alpha=_log_uniform(0.01, 1e7), beta=_log_uniform(1e-3, 1e3)),
    "NegativeBinomial": dict(n=_log_uniform(0.05, 1e5), p=_log_uniform(1e-3, 0.999)),
    "Poisson": dict(lam=_log_uniform(1e-6, 1e6)),
    "Geometric": dict(p=_chance),
    "BetaGeometric": dict(alpha=_log_uniform(0.5, 1e4), beta=_log_uniform(0.01, 1e4)),
    "Pareto": dict(x_m=_log_uniform(1e-3, 1e3), alpha=_log_uniform(0.05, 1e5)),
    "InverseGamma": dict(alpha=_log_uniform(0.05, 1e7), beta=_log_uniform(1e-3, 1e3)),
    "StudentT": dict(mu=gen.real(), sigma=_log_uniform(1e-2, 100), nu=_log_uniform(0.1, 1e6)),
    "Lomax": dict(alpha=_log_uniform(0.05, 1e5), lam=_log_uniform(1e-3, 1e3)),
    "CompoundGamma": dict(
        alpha=_log_uniform(0.05, 1e5), beta=_log_uniform(0.05, 1e5), lam=_log_uniform(1e-3, 1e3)
    ),
    "ScaledInverseChiSquared": dict(nu=_log_uniform(0.05, 1e7), sigma2=_log_uniform(1e-3, 1e3)),
    "LogNormal": dict(mu=lambda rng, shape: rng.normal(0, 20, size=shape), sigma=_log_uniform(1e-3, 30)),
    "Weibull": dict(beta=_log_uniform(0.05, 500), theta=_log_uniform(0.1, 30)),
    "BetaBinomial": dict(n=_whole(1, 600), alpha=_log_uniform(0.05, 1e7), beta=_log_uniform(0.05, 1e7)),
    "Hypergeometric": None,  # its parameters depend on each other
    "VonMises": dict(mu=lambda rng, shape: rng.uniform(-3, 3, size=shape), kappa=_log_uniform(1e-3, 500)),
}


@unit("C11", quick=40)
def far_shapes(ctx):
    """Shape parameters, counts and probabilities many decades from one."""
    rng = ctx.rng
    for name, samplers in FAR.items():
        ref = dists.REFS[name]
        L = gen.Layout(rng, ["pyscalar", "pyscalar", "npscalar", "vec"][rng.integers(4)])
        kw = {k: L.value(f) for k, f in samplers.items()} if samplers else ref.gen(L)
        if name in ("Geometric", "BetaGeometric"):
            kw["one_start"] = L.flag(rng.integers(2))
        d = ctx.call(ref.make, D, kw)
        p = ref.params(d)
        ctx.case(name, gen.key_of(**kw), sample=d)
        q = rng.uniform(0.01, 0.99, size=(6,) + ref.shape(p))
        with np.errstate(all="ignore"):
            x = ref.quantile(p, q) + np.zeros(q.shape)
            want, want_cdf = ref.logpdf(p, x), ref.cdf(p, x)
        fine = np.isfinite(x) & (abs(want) < 500) & (abs(x) < 1e200)
        if not ref.discrete:
            fine &= abs(x) > 1e-200
        if name == "Beta":
            fine &= (x > 0) & (x < 1 - 1e-6)
        dist = ctx.call(lambda: d.dist)
        with np.errstate(all="ignore"):
            got = np.log(ctx.call(dist.pmf if ref.discrete else dist.pdf, x))
        ctx.event(f"values {name}", np.sum(fine))
        ctx.ok(
            np.all((abs(got - want) <= 1e-6 + 1e-12 * abs(want))[fine]),
            f"{name}: density or probability is not that of the documented parameters",
            d=d, x=x, got=got, expected=want,
        )
        if name == "VonMises":
            continue
        cdf = ctx.call(dist.cdf, x)
        ctx.ok(
            np.all((abs(cdf - want_cdf) <= 1e-6)[fine]),
            f"{name}: distribution function is not that of the documented parameters",
            d=d, x=x, got=cdf, expected=want_cdf,
        )


def _certain(rng):
    """Parameters at the ends of what is allowed: a count or a time that is not random any more."""
    n, lam = int(rng.integers(1, 60)), float(rng.uniform(0.5, 5))
    zero, one = [(0, 1), (0.0, 1.0), (np.float64(0), np.float64(1))][rng.integers(3)]
    vec = rng.integers(2)
    wrap = (lambda v: np.array([v] * 3)) if vec else (lambda v: v)
    start = bool(rng.integers(2))
    return [
        (D.Binomial(n=n, p=wrap(zero)), 0),
        (D.Binomial(n=n, p=wrap(one)), n),
        (D.Binomial(n=wrap(0), p=float(rng.uniform(0.1, 0.9))), 0),
        (D.Geometric(p=wrap(one), one_start=start), int(start)),
        (D.NegativeBinomial(n=lam, p=wrap(one)), 0),
        (D.Poisson(lam=wrap(zero)), 0),
        (D.BetaBinomial(n=wrap(0), alpha=lam, beta=2.0), 0),
        (D.Hypergeometric(N=n + 5, k=wrap(0), n=int(rng.integers(1, n + 5))), 0),
        (D.Hypergeometric(N=n + 5, k=n + 5, n=wrap(n)), n),
    ]


@unit("C11", quick=30)
def certain_counts(ctx):
    rng = ctx.rng
    for d, value in _certain(rng):
        name = type(d).__name__
        ctx.case(name, gen.key_of(**vars(d)), sample=d)
        x = np.array([value - 2, value - 1, value, value + 1, value + 7], float)
        if np.ndim(next(iter(v for v in vars(d).values() if np.ndim(v)), 0)):
            x = x[:, None]
        with np.errstate(all="ignore"):
            pmf, cdf = ctx.call(d.dist.pmf, x), ctx.call(d.dist.cdf, x)
        ctx.event("certain counts")
        ctx.ok(np.allclose(pmf, x == value, rtol=0, atol=1e-13), f"{name}: the count is certain", d=d, x=x, got=pmf)
        ctx.ok(np.allclose(cdf, x >= value, rtol=0, atol=1e-13), f"{name}: the count is certain", d=d, x=x, got=cdf)


@unit("C11", quick=30)
def default_start(ctx):
    """Geometric counts start at one unless asked otherwise."""
    rng = ctx.rng
    p = float(rng.uniform(0.05, 0.95))
    a, b = np.exp(rng.normal(0.5, 1, size=2)).tolist()
    k = np.arange(-1, 12)
    for cls, args in ((D.Geometric, (p,)), (D.BetaGeometric, (a, b))):
        d1, d0, dd = cls(*args, one_start=True), cls(*args, one_start=False), cls(*args)
        ctx.case(cls.__name__, args, sample=dd)
        f1, f0, fd = (ctx.call(d.dist.pmf, k) for d in (d1, d0, dd))
        ctx.ok(np.array_equal(f1, fd), "default start is not one", d=dd)
        ctx.ok(np.allclose(f1[1:], f0[:-1], rtol=1e-12), "starts differ by more than one", d=dd)
        ctx.ok(f1[1] == 0 and f0[0] == 0 and f1[2] > 0 and f0[1] > 0, "wrong support", d=dd)


# ------------------------------------------------------------ multivariate
rule(
    "C12",
    "Random dimensions and parameters of the seven multivariate classes, given as arrays and "
    "lists, evaluated at random points and at the edge of the support; a case is one "
    "distribution object; distinct by its parameters.",
)


def container(rng, v):
    return v.tolist() if rng.integers(3) == 0 else v


def log_simplex(alpha, t):
    return (
        gammaln(alpha.sum()) - gammaln(alpha).sum() + ((alpha - 1) * np.log(t)).sum(axis=-1)
    )


@unit("C12", quick=120)
def counts_and_simplex(ctx):
    rng = ctx.rng
    k = gen.few(rng, 2, 7, 40)
    alpha = gen.positive_any(0.1, 60)(rng, (k,))
    af = alpha.astype(float)
    d = D.Dirichlet(container(rng, alpha))
    t = rng.dirichlet(np.ones(k) * 2, size=4)
    ctx.case("Dirichlet", repr(d.alpha), sample=d)
    got = ctx.call(d.dist.logpdf, t.T)
    ctx.ok(close(got, log_simplex(af, t), 1e-8, 1e-7), "Dirichlet density", d=d, got=got)
    got = ctx.call(d.dist.mean)
    ctx.ok(close(got, af / af.sum(), 1e-10, 0), "Dirichlet mean", d=d, got=got)
    a0 = af.sum()
    got = ctx.call(d.dist.var)
    ctx.ok(close(got, af * (a0 - af) / (a0**2 * (a0 + 1)), 1e-9, 0), "Dirichlet var", d=d)

    n = int(rng.integers(1, 30))
    p = rng.dirichlet(np.ones(k))
    x = rng.multinomial(n, p, size=4)
    d = D.Multinomial(n=n, p=container(rng, p))
    ctx.case("Multinomial", n, repr(d.p), sample=d)
    want = gammaln(n + 1) - gammaln(x + 1).sum(axis=1) + (x * np.log(p)).sum(axis=1)
    got = ctx.call(d.dist.logpmf, x)
    ctx.ok(close(got, want, 1e-7, 1e-7), "Multinomial probabilities", d=d, x=x, got=got)
    ctx.ok(close(ctx.call(d.dist.mean), n * p, 1e-10, 1e-12), "Multinomial mean", d=d)

    d = D.DirichletMultinomial(alpha=container(rng, alpha), n=n)
    ctx.case("DirichletMultinomial", n, repr(d.alpha), sample=d)
    want = (
        gammaln(n + 1) + gammaln(a0) - gammaln(n + a0)
        + (gammaln(x + af) - gammaln(x + 1) - gammaln(af)).sum(axis=1)
    )
    got = ctx.call(d.dist.logpmf, x)
    ctx.ok(close(got, want, 1e-7, 1e-7), "DirichletMultinomial probabilities", d=d, x=x, got=got)
    ctx.ok(close(ctx.call(d.dist.mean), n * af / a0, 1e-9, 1e-12), "DirichletMultinomial mean", d=d)
    bad = x[0].copy()
    bad[0] += 1
    ctx.ok(ctx.call(d.dist.pmf, bad) == 0, "probability of another total", d=d, x=bad)

    # several distributions
    b = gen.few(rng, 1, 5, 40)
    ns = rng.integers(1, 30, size=b)
    ps = rng.dirichlet(np.ones(k), size=b) if rng.integers(2) else p
    x = np.stack([rng.multinomial(m, np.ones(k) / k) for m in ns])
    d = D.Multinomial(n=ns, p=ps)
    ctx.case("Multinomials", repr(d), sample=d)
    want = gammaln(ns + 1) - gammaln(x + 1).sum(axis=1) + xlogy(x, ps).sum(axis=1)
    ctx.ok(close(ctx.call(d.dist.logpmf, x), want, 1e-7, 1e-7), "Multinomial probabilities", d=d, x=x)
    rows = gen.positive_any(0.1, 60)(rng, (b, k)).astype(float) if rng.integers(2) else af
    d = D.DirichletMultinomial(alpha=rows, n=ns)
    ctx.case("DirichletMultinomials", repr(d), sample=d)
    r0 = rows.sum(axis=-1)
    want = (
        gammaln(ns + 1) + gammaln(r0) - gammaln(ns + r0)
        + (gammaln(x + rows) - gammaln(x + 1) - gammaln(rows)).sum(axis=1)
    )
    ctx.ok(close(ctx.call(d.dist.logpmf, x), want, 1e-7, 1e-7), "DirichletMultinomial probabilities", d=d, x=x)


@unit("C12", quick=60)
def dirichlet_rows(ctx):
    rng = ctx.rng
    b, k = gen.few(rng, 1, 5, 60), gen.few(rng, 2, 6, 12)
    alpha = gen.positive_any(0.3, 60)(rng, (b, k))
    d = D.Dirichlet(container(rng, alpha))
    ctx.case("rows", repr(d.alpha), sample=d)
    mean = ctx.call(d.dist.mean)
    ctx.ok(
        close(mean, alpha / alpha.sum(axis=1, keepdims=True), 1e-10, 0),
        "mean of several Dirichlet distributions", d=d, got=mean,
    )
    n = 400
    s = ctx.call(d.dist.rvs, size=n, random_state=gen.seed(rng))
    if not ctx.ok(s.shape == (b, n, k), "sample shape", d=d, got=s.shape):
        return
    ctx.ok(np.allclose(s.sum(axis=-1), 1), "samples do not sum to one", d=d)
    a0 = alpha.sum(axis=1)
    for row in range(b):
        for col in range(k):
            u = betainc(alpha[row, col], a0[row] - alpha[row, col], s[row, :, col])
            bad, stat_d = stat.ks_uniform(u)
            ctx.ok(
                not bad, "samples of a row do not follow its distribution",
                d=d, row=row, column=col, ks=stat_d,
            )
    # the rows do not depend on each other, however the sampling is seeded
    alike = D.Dirichlet(np.broadcast_to(alpha[0], (3, k)).copy())
    seed = gen.seed(rng)
    state = [seed, np.int64(seed), np.random.RandomState(seed), np.random.default_rng(seed), None][rng.integers(5)]
    s = ctx.call(alike.dist.rvs, size=n, random_state=state)[..., 0]
    s = betainc(alpha[0, 0], a0[0] - alpha[0, 0], s)
    for i, j in ((0, 1), (1, 2), (0, 2)):
        bad, z = stat.correlated(s[i], s[j])
        ctx.ok(not bad, "samples of different rows depend on each other", d=alike, z=z, state=repr(state))


@unit("C12", quick=120)
def matrices(ctx):
    rng = ctx.rng
    p = gen.few(rng, 1, 5, 12)
    mu = rng.normal(size=p) * 3
    cov = gen.spd(rng, p, 1.5)
    x = mu + rng.normal(size=(5, p)) @ np.linalg.cholesky(cov).T * 2
    dx = x - mu
    q = np.einsum("gi,ij,gj->g", dx, np.linalg.inv(cov), dx)
    ld = np.linalg.slogdet(cov)[1]
    d = D.MultivariateNormal(mu=container(rng, mu), cov=container(rng, cov))
    ctx.case("MVN", repr(mu), repr(cov), sample=d)
    got = np.atleast_1d(ctx.call(d.dist.logpdf, x))
    ctx.ok(
        close(got, -q / 2 - ld / 2 - p / 2 * np.log(2 * np.pi), 1e-7, 1e-6),
        "multivariate normal density", d=d, x=x, got=got,
    )
    nu = float(np.exp(rng.normal(1.5, 1)))
    d = D.MultivariateStudentT(mu=container(rng, mu), sigma=container(rng, cov), nu=nu)
    ctx.case("MVT", repr(mu), repr(cov), nu, sample=d)
    want = (
        gammaln((nu + p) / 2) - gammaln(nu / 2) - p / 2 * np.log(nu * np.pi) - ld / 2
        - (nu + p) / 2 * np.log1p(q / nu)
    )
    got = np.atleast_1d(ctx.call(d.dist.logpdf, x))
    ctx.ok(close(got, want, 1e-7, 1e-6), "multivariate Student t density", d=d, x=x, got=got)
    if p < 2:
        return
    nu = p - 1 + float(np.exp(rng.normal()))
    psi = gen.spd(rng, p, 1.5)
    s = gen.spd(rng, p, 1.5)
    lds, ldp = np.linalg.slogdet(s)[1], np.linalg.slogdet(psi)[1]
    d = D.InverseWishart(nu=nu, psi=container(rng, psi))
    ctx.case("IW", repr(psi), nu, sample=d)
    want = (
        nu / 2 * ldp - nu * p / 2 * np.log(2) - multigammaln(nu / 2, p)
        - (nu + p + 1) / 2 * lds - np.trace(psi @ np.linalg.inv(s)) / 2
    )
    got = ctx.call(d.dist.logpdf, s)
    ctx.ok(np.isclose(got, want, rtol=1e-7, atol=1e-6), "inverse Wishart density", d=d, x=s, got=got, want=want)
    d = D.Wishart(nu=nu, V=container(rng, psi))
    ctx.case("W", repr(psi), nu, sample=d)
    want = (
        (nu - p - 1) / 2 * lds - np.trace(np.linalg.inv(psi) @ s) / 2
        - nu * p / 2 * np.log(2) - nu / 2 * ldp - multigammaln(nu / 2, p)
    )
    got = ctx.call(d.dist.logpdf, s)
    ctx.ok(np.isclose(got, want, rtol=1e-7, atol=1e-6), "Wishart density", d=d, x=s, got=got, want=want)
    ctx.ok(np.allclose(ctx.call(d.dist.mean), nu * psi, rtol=1e-9), "Wishart mean", d=d)
