"""Monitors at extreme counts and hyperparameters (property "C33").

The oracle is arithmetic with 60 digits (mpmath) and with exact fractions. A result may
be off by the rounding errors of the terms of the formula, summed in absolute value.
"""

import sys
from fractions import Fraction
from functools import lru_cache

import numpy as np

from conjugate import distributions as D
from conjugate import models as M

from vmon import gen, preds
from vmon.core import rule, unit

rule(
    "C33",
    "Predictives with hyperparameters over fifteen decades, given or reached by an update with "
    "large data, at simulated outcomes and at the edges of the support; posteriors with "
    "hyperparameters and data over a hundred decades; log likelihood functions with large "
    "concentrations, shapes and counts; judged by 60 digit arithmetic and by exact fractions; a "
    "case is one distribution or update; distinct by its arguments.",
    ["mpmath"],
)
EPS = np.finfo(float).eps


@lru_cache(None)
def mp():
    """mpmath with 60 digits, from the tools next to this environment."""
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    sys.path.append(tools)
    try:
        import mpmath
    finally:
        sys.path.remove(tools)
    mpmath.mp.dps = 60
    return mpmath


def decades(rng, lo, hi):
    return float(10.0 ** rng.uniform(lo, hi))


def lg(x):
    return mp().loggamma(mp().mpf(x))


def ln(x):
    return mp().log(mp().mpf(x))


# ------------------------------------------------------ references, as terms
# Terms of the log probability, and further conditioning in units of rounding.
def r_betabinomial(p, x):
    n, a, b = p["n"], p["alpha"], p["beta"]
    f = mp().mpf
    n, a, b, x = f(n), f(a), f(b), f(x)
    return [
        lg(n + 1), -lg(x + 1), -lg(n - x + 1), lg(x + a), lg(n - x + b), -lg(n + a + b),
        lg(a + b), -lg(a), -lg(b),
    ], 0


def r_betanegativebinomial(p, x):
    f = mp().mpf
    n, a, b, x = f(p["n"]), f(p["alpha"]), f(p["beta"]), f(x)
    return [
        lg(n + x), -lg(x + 1), -lg(n), lg(a + n), lg(b + x), -lg(a + b + n + x),
        lg(a + b), -lg(a), -lg(b),
    ], 0


def r_betageometric(p, x):
    f = mp().mpf
    a, b = f(p["alpha"]), f(p["beta"])
    x = f(x) - (1 if p["one_start"] else 0)
    return [lg(a + 1), lg(b + x), -lg(a + b + 1 + x), lg(a + b), -lg(a), -lg(b)], 0


def r_negativebinomial(p, x):
    f = mp().mpf
    r, b, n, x = f(p["r"]), f(p["beta"]), f(p["n"]), f(x)
    terms = [lg(r + x), -lg(x + 1), -lg(r), r * ln(b / (b + n)), x * ln(n / (b + n))]
    # the parameter of the distribution is the probability b / (b + n)
    return terms, float(r + x * b / n + x)


def r_lomax(p, x):
    f = mp().mpf
    a, lam, x = f(p["alpha"]), f(p["lam"]), f(x)
    return [ln(a), -ln(lam), -(a + 1) * ln(1 + x / lam)], float(a)


def r_compoundgamma(p, x):
    f = mp().mpf
    a, b, q, x = f(p["alpha"]), f(p["beta"]), f(p["lam"]), f(x)
    z = x / q
    return [
        (a - 1) * ln(z), -(a + b) * ln(1 + z), -ln(q), lg(a + b), -lg(a), -lg(b),
    ], float(a + b)


def r_studentt(p, x):
    f = mp().mpf
    nu, s, m, x = f(p["nu"]), f(p["sigma"]), f(p["mu"]), f(x)
    z = (x - m) / s
    pull = (nu + 1) * abs(z) / (nu + z * z)  # derivative of the log density in z
    return [
        lg((nu + 1) / 2), -lg(nu / 2), -ln(nu * mp().pi) / 2, -ln(s),
        -(nu + 1) / 2 * ln(1 + z * z / nu),
    ], float(pull * (abs(z) + (abs(x) + abs(m)) / s) + nu * mp().mpf("0.5"))


def r_normal(p, x):
    f = mp().mpf
    s, m, x = f(p["sigma"]), f(p["mu"]), f(x)
    z = (x - m) / s
    return [-z * z / 2, -ln(s), -ln(2 * mp().pi) / 2], float(
        abs(z) * (abs(z) + (abs(x) + abs(m)) / s)
    )


REFERENCE = {
    "BetaBinomial": r_betabinomial,
    "BetaNegativeBinomial": r_betanegativebinomial,
    "BetaGeometric": r_betageometric,
    "NegativeBinomial": r_negativebinomial,
    "Lomax": r_lomax,
    "CompoundGamma": r_compoundgamma,
    "StudentT": r_studentt,
    "Normal": r_normal,
}


def judge_density(ctx, name, kind, p, pred, xs, kwargs, extra=0.0):
    dist = ctx.call(lambda: pred.dist)
    discrete = kind in ("BetaBinomial", "BetaNegativeBinomial", "BetaGeometric", "NegativeBinomial")
    with np.errstate(all="ignore"):
        got = ctx.call(dist.pmf if discrete else dist.pdf, np.asarray(xs))
    for x, g in zip(xs, np.asarray(got, float)):
        terms, cond = REFERENCE[kind](p, x)
        want = sum(terms)
        rounding = EPS * (sum(float(abs(t)) for t in terms) * 60 + 40 * cond + 40 * extra + 200)
        ctx.event(f"values {kind}")
        if not ctx.ok(
            np.isfinite(g) and g >= 0,
            f"{name}: probability of an outcome is {g}",
            arguments=kwargs, predictive=pred, x=x, log_expected=float(want),
        ):
            continue
        if rounding > 0.05:
            ctx.event("too large to judge beyond finite")
            continue
        if want < -650:
            ctx.ok(g <= 1e-270, f"{name}: outcome far out is not negligible", arguments=kwargs,
                   predictive=pred, x=x, got=g, log_expected=float(want))
            continue
        if want > 650:
            continue
        exact = float(mp().exp(want))
        ctx.ok(
            abs(g - exact) <= exact * (np.expm1(rounding) + 1e-9),
            f"{name}: probability of an outcome is wrong",
            arguments=kwargs, predictive=pred, x=x, got=g, expected=exact,
            rounding_allows=rounding,
        )


def bulk(rng, draw):
    """A few simulated outcomes."""
    with np.errstate(all="ignore"):
        return np.asarray(draw(4), dtype=float)


def beta_draws(rng, a, b, k):
    return np.clip(rng.beta(a, b, size=k), 1e-15, 1 - 1e-15)


@unit("C33", quick=720, weight=2)
def predictives(ctx):
    rng = ctx.rng
    scale = [(-2, 3), (-6, 9), (2, 9)][rng.integers(3)]
    h = lambda: decades(rng, *scale)  # noqa: E731
    name = list(preds.MARGINAL)[ctx.rep % len(preds.MARGINAL)]
    whole = lambda: int(decades(rng, 0, rng.choice([2.0, 5, 9])))  # noqa: E731
    update = bool(rng.integers(2))
    data, extra = {}, 0.0
    if name.endswith("_beta_predictive"):
        a, b = h(), h()
        prior = D.Beta(a, b)
        kind = {"binomial": "BetaBinomial", "bernoulli": "BetaBinomial", "negative": "BetaNegativeBinomial",
                "geometric": "BetaGeometric"}[name.split("_")[0]]
        if update:
            model = name[: -len("_predictive")]
            n = whole()
            if model == "binomial_beta":
                x = int(n * rng.random())
                data, a1, b1 = dict(n=n, x=x), x, n - x
            elif model == "bernoulli_beta":
                x = int(rng.integers(2))
                data, a1, b1 = dict(x=x), x, 1 - x
            elif model == "negative_binomial_beta":
                r, x = int(rng.integers(1, 9)), whole()
                data, a1, b1 = dict(r=r, n=n, x=x), r * n, x
            else:
                x = n + whole()
                data, a1, b1 = dict(x_total=x, n=n), n, x - n
            prior = ctx.call(getattr(M, model), prior=prior, **data)
            a, b = float(Fraction(a) + a1), float(Fraction(b) + b1)
        kw = dict(distribution=prior)
        p = dict(alpha=a, beta=b)
        if kind == "BetaBinomial":
            n = 1 if name.startswith("bernoulli") else whole()
            if n != 1 or name.startswith("binomial"):
                kw["n"] = n
            p["n"] = n
            xs = np.r_[bulk(rng, lambda k: rng.binomial(n, beta_draws(rng, a, b, k))), 0, n, n // 2]
        elif kind == "BetaNegativeBinomial":
            r = int(rng.integers(1, 40))
            kw["r"], p["n"] = r, r
            q = beta_draws(rng, a, b, 4)
            xs = np.r_[np.minimum(rng.poisson(np.minimum(rng.gamma(r, (1 - q) / q), 1e6)), 1e6), 0, 1, 7]
        else:
            one = bool(rng.integers(2))
            if not one or rng.integers(2):
                kw["one_start"] = one
            p["one_start"] = one
            q = beta_draws(rng, a, b, 4)
            xs = np.minimum(np.floor(np.log(rng.random(4)) / np.log1p(-q)), 1e12)
            xs = np.r_[xs, 0, 1, 100] + one
    elif name in ("poisson_gamma_predictive", "exponential_gamma_predictive", "gamma_known_shape_predictive"):
        a, b, far = h(), h(), False
        prior = D.Gamma(a, b)
        shape = decades(rng, -2, rng.choice([2.0, 6]))
        if update:
            n = whole()
            if name.startswith("poisson"):
                x = whole()
                data, a1 = dict(x_total=x, n=n), x
                a, b = float(Fraction(a) + x), float(Fraction(b) + n)
            else:
                x = n * decades(rng, -6, 6)
                data = dict(x_total=x, n=n)
                k = 1
                if name.startswith("gamma"):
                    data["alpha"] = shape
                    k = Fraction(shape)
                a, b = float(Fraction(a) + n * k), float(Fraction(b) + Fraction(x))
            prior = ctx.call(getattr(M, name[: -len("_predictive")]), prior=prior, **data)
        if name.startswith("poisson") and rng.integers(3) == 0:
            # a moderate number of failures; exposures many decades away
            a = decades(rng, -1, 1)
            prior, far = D.Gamma(a, b), True
        kw = dict(distribution=prior)
        rate = np.clip(rng.gamma(a, size=4), 1e-280, None) / b
        if name.startswith("poisson"):
            kind = "NegativeBinomial"
            n = 1
            if far:
                n = kw["n"] = b * decades(rng, -12, 12)
            elif rng.integers(3):
                n = kw["n"] = [whole, lambda: decades(rng, -3, 3), lambda: b * decades(rng, -12, 12)][rng.integers(3)]()
            p = dict(r=a, beta=b, n=n)
            xs = np.r_[np.minimum(rng.poisson(np.minimum(rate * n, 1e9)), 10**9), 0, 1]
        elif name.startswith("exponential"):
            kind, p = "Lomax", dict(alpha=a, lam=b)
            xs = np.r_[np.minimum(rng.exponential(size=4) / rate, 1e300), b / 2]
        else:
            kind, p = "CompoundGamma", dict(alpha=shape, beta=a, lam=b)
            kw["alpha"] = shape
            xs = np.r_[np.clip(rng.gamma(shape, size=4) / rate, 1e-290, 1e300), b * shape / a]
    else:
        f = mp().mpf
        n = whole()
        m, s = rng.normal() * decades(rng, -2, 3), decades(rng, -3, 3)
        xt = n * m
        # far from a cancellation of the squares
        s = max(s, abs(m) / 10)
        x2 = n * (m * m + s * s)
        mu = float(rng.normal() * s)
        if name in ("normal_known_variance_predictive", "normal_known_precision_predictive"):
            kind = "Normal"
            sd, v = decades(rng, -3, 3), decades(rng, -6, 6)
            prior = D.Normal(mu, sd)
            key = "var" if "variance" in name else "precision"
            arg = {key: v}
            vv = f(v) if key == "var" else 1 / f(v)
            mean, var = f(mu), f(sd) ** 2
            if update:
                data = dict(x_total=xt, n=n, **arg)
                prior = ctx.call(getattr(M, name[: -len("_predictive")]), prior=prior, **data)
                pr = 1 / var + n / vv
                mean, var = (mean / var + f(xt) / vv) / pr, 1 / pr
            kw = dict(distribution=prior, **arg)
            p = dict(mu=mean, sigma=mp().sqrt(var + vv))
            size = float(abs(mean)) + abs(mu) + (abs(m) if update else 0)
        else:
            kind = "StudentT"
            al, be, k = h(), decades(rng, -4, 6), decades(rng, -3, rng.choice([3, 9]))
            mean, a, b, kk = f(mu), f(al), f(be), f(k)
            size = abs(mu)
            if name == "normal_known_mean_predictive":
                if rng.integers(2):
                    prior = D.InverseGamma(al, be)
                else:
                    prior = D.ScaledInverseChiSquared(2 * al, be / al)
                    b = a * f(be / al)
                if update:
                    data = dict(x_total=xt, x2_total=x2, n=n, mu=mu)
                    prior = ctx.call(M.normal_known_mean, prior=prior, **data)
                    a += mp().mpf(n) / 2
                    b += (f(x2) - 2 * f(mu) * f(xt) + n * f(mu) ** 2) / 2
                    extra = float((abs(x2) + 2 * abs(mu * xt) + n * mu**2) / b)
                kw = dict(mu=mu, distribution=prior)
                var = b / a
            else:
                joint = name == "normal_predictive" and bool(rng.integers(2))
                prior = (D.NormalGamma(mu=mu, lam=k, alpha=al, beta=be) if joint
                         else D.NormalInverseGamma(mu=mu, nu=k, alpha=al, beta=be))
                if update:
                    data = dict(x_total=xt, x2_total=x2, n=n)
                    model = M.normal if joint or rng.integers(2) else M.normal_normal_inverse_gamma
                    prior = ctx.call(model, prior=prior, **data)
                    mean = (kk * f(mu) + f(xt)) / (kk + n)
                    a += mp().mpf(n) / 2
                    # about the sample mean
                    xb = f(xt) / n
                    b += (f(x2) - n * xb**2) / 2 + kk * n / (kk + n) * (xb - f(mu)) ** 2 / 2
                    # squares that cancel in the update
                    extra = float((x2 + kk * mu**2 + abs(m) * abs(xt)) / b)
                    kk += n
                    size += abs(m)
                kw = dict(distribution=prior)
                var = b / a * (1 + 1 / kk)
            p = dict(mu=mean, sigma=mp().sqrt(var), nu=2 * a)
        sd = float(p["sigma"])
        heavy = rng.standard_t(min(float(p["nu"]), 1e8), size=4) if kind == "StudentT" else rng.normal(size=4)
        xs = np.r_[float(p["mu"]) + sd * np.clip(heavy, -1e100, 1e100), float(p["mu"])]
        if size > 1e6 * sd:  # rounding of the mean alone
            ctx.case(name, "skipped", nontrivial=False)
            return
    ctx.case(name, update, gen.key_of(**kw), gen.key_of(**data), sample=(name, kw, data))
    pred = ctx.call(getattr(M, name), **kw)
    judge_density(ctx, name, kind, p, pred, np.asarray(xs, float), {"data": data, **kw}, extra)


@unit("C33", quick=120)
def dirichlet_multinomial(ctx):
    rng = ctx.rng
    for name in ("categorical_dirichlet", "multinomial_dirichlet"):
        k = int(rng.integers(2, 6))
        scale = [(-2, 3), (-6, 9), (2, 9)][rng.integers(3)]
        alpha = 10 ** rng.uniform(*scale, size=k)
        d = D.Dirichlet(alpha)
        data = {}
        exact = [Fraction(v) for v in alpha.tolist()]
        if rng.integers(2):
            counts = (10 ** rng.uniform(0, 9, size=k)).astype(np.int64) * rng.integers(0, 2, size=k)
            data = dict(x=counts)
            d = ctx.call(getattr(M, name), x=counts, prior=d)
            exact = [v + int(c) for v, c in zip(exact, counts)]
        n = int(decades(rng, 0, rng.choice([1.0, 4, 9])))
        pred = ctx.call(getattr(M, name + "_predictive"), distribution=d, n=n)
        w = np.array([float(v) for v in exact])
        x = rng.multinomial(n, w / w.sum(), size=3)
        ctx.case(name, n, gen.key_of(alpha=w), sample=(name, w, n))
        got = np.atleast_1d(ctx.call(pred.dist.pmf, x))
        m = mp().mpf
        a = [m(v.numerator) / v.denominator for v in exact]
        for g, o in zip(got, x):
            o = [int(v) for v in o]
            terms = [lg(sum(a)), lg(n + 1), -lg(sum(a) + n)]
            for ai, oi in zip(a, o):
                terms += [lg(oi + ai), -lg(ai), -lg(oi + 1)]
            want = sum(terms)
            rounding = EPS * (200 + 60 * sum(float(abs(t)) for t in terms))
            ctx.event("values DirichletMultinomial")
            ctx.ok(np.isfinite(g) and g >= 0, f"{name}: probability of an outcome is {g}",
                   predictive=pred, x=o, log_expected=float(want))
            if rounding < 0.05 and want > -650:
                e = float(mp().exp(want))
                ctx.ok(abs(g - e) <= e * (np.expm1(rounding) + 1e-9),
                       f"{name}: probability of an outcome is wrong", predictive=pred, x=o, got=g,
                       expected=e, rounding_allows=rounding)


@unit("C33", quick=240)
def distribution_functions(ctx):
    """The distribution functions that the repository computes itself."""
    rng = ctx.rng
    a, b = decades(rng, -3, 6), decades(rng, -3, 6)
    one = bool(rng.integers(2))
    d = D.BetaGeometric(a, b, one)
    q = beta_draws(rng, a, b, 6)
    x = np.minimum(np.floor(np.log(rng.random(6)) / np.log1p(-q)), 1e9) + one
    got = ctx.call(d.dist.cdf, x)
    f = mp().mpf
    ctx.case("BetaGeometric cdf", a, b, one, sample=d)
    for xi, g in zip(x, got):
        k = f(xi) - one
        terms = [lg(b + k + 1), lg(a + b), -lg(a + b + k + 1), -lg(b)]
        want = 1 - mp().exp(sum(terms))
        tol = EPS * (100 + 60 * sum(float(abs(t)) for t in terms)) + 1e-12
        ctx.event("values cdf")
        ctx.ok(np.isfinite(g) and abs(g - float(want)) <= tol and -tol <= g <= 1,
               "BetaGeometric: distribution function at extreme parameters", d=d, x=xi, got=g,
               expected=float(want))
    a, b, lam = decades(rng, -1, 3), decades(rng, -1, 3), decades(rng, -6, 6)
    d = D.CompoundGamma(a, b, lam)
    x = rng.gamma(a, size=4) / np.clip(rng.gamma(b, size=4), 1e-250, None) * lam
    got = ctx.call(d.dist.cdf, x)
    ctx.case("CompoundGamma cdf", a, b, lam, sample=d)
    for xi, g in zip(x, got):
        z = f(xi) / f(lam)
        want = float(mp().betainc(f(a), f(b), 0, z / (1 + z), regularized=True))
        ctx.event("values cdf")
        ctx.ok(np.isfinite(g) and abs(g - want) <= 1e-9 and 0 <= g <= 1,
               "CompoundGamma: distribution function at extreme parameters", d=d, x=xi, got=g,
               expected=want)


@unit("C13", "C33", quick=150)
def small_and_large_samples(ctx):
    """Samples of heavy tails stay on the support."""
    rng = ctx.rng
    one = bool(rng.integers(2))
    a, b = decades(rng, -3, 6), decades(rng, -3, 6)
    seed = int(rng.integers(2**31))
    d = D.BetaGeometric(a, b, one)
    x = ctx.call(d.dist.rvs, size=400, random_state=seed)
    ctx.case("BetaGeometric samples", a, b, one, sample=d)
    ctx.event("samples", np.size(x))
    ctx.ok(np.all(np.isfinite(x)) and np.min(x) >= int(one) and np.all(x == np.floor(x)),
           "BetaGeometric: samples outside of the support", d=d, low=np.min(x), seed=seed)
    # the share beyond a large bound
    bound = 10**6
    share = np.mean(np.asarray(x, float) - one > bound)
    f = mp().mpf
    sf = float(mp().exp(lg(f(b) + bound + 1) + lg(f(a) + f(b)) - lg(f(a) + f(b) + bound + 1) - lg(f(b))))
    ctx.ok(abs(share - sf) <= 6.5 * np.sqrt(sf * (1 - sf) / 400) + 8 / 400,
           "BetaGeometric: share of large samples", d=d, got=share, expected=sf, seed=seed)
    n = int(decades(rng, 0, 9))
    for d, lo, hi in (
        (D.BetaBinomial(n, a, b), 0, n),
        (D.Lomax(decades(rng, 0, 9), decades(rng, -6, 9)), 0, np.inf),
        (D.StudentT(0.0, 1.0, decades(rng, 0, 9)), -np.inf, np.inf),
    ):
        x = ctx.call(d.dist.rvs, size=100, random_state=seed)
        ctx.case("samples", repr(d))
        ctx.event("samples", np.size(x))
        ctx.ok(np.all(np.isfinite(x)) and x.min() >= lo and x.max() <= hi,
               "samples outside of the support", d=d, low=x.min(), high=x.max(), seed=seed)


# ------------------------------------------------------------- posteriors
def big(rng, lo=-50, hi=50):
    return decades(rng, lo, hi)


def big_count(rng):
    """Python integers and floats, from zero to beyond the 64 bit range."""
    mode = rng.integers(5)
    if mode == 0:
        return int(rng.integers(0, 4))
    if mode == 1:
        return float(np.floor(decades(rng, 0, 40)))
    if mode == 2:
        return 10 ** int(rng.integers(1, 31)) + int(rng.integers(0, 5))
    return int(decades(rng, 0, 15))


F = Fraction


def sq(x):
    return F(x) * F(x)


def g_beta(rng):
    return D.Beta(big(rng), big(rng))


def g_gamma(rng):
    return D.Gamma(big(rng), big(rng))


# Each returns (arguments, {parameter: terms that sum to it, or (terms, denominator)}).
def e_binomial_beta(rng):
    p = g_beta(rng)
    x, rest = big_count(rng), big_count(rng)
    n = x + rest
    return dict(n=n, x=x, prior=p), dict(alpha=[p.alpha, x], beta=[p.beta, n, -F(x)])


def e_bernoulli_beta(rng):
    p, x = g_beta(rng), int(rng.integers(2))
    return dict(x=x, prior=p), dict(alpha=[p.alpha, x], beta=[p.beta, 1, -x])


def e_negative_binomial_beta(rng):
    p, r, n, x = g_beta(rng), big_count(rng), big_count(rng), big_count(rng)
    return dict(r=r, n=n, x=x, prior=p), dict(alpha=[p.alpha, F(r) * F(n)], beta=[p.beta, x])


def e_geometric_beta(rng):
    p, n, extra = g_beta(rng), big_count(rng), big_count(rng)
    if rng.integers(2):
        return dict(x_total=extra, n=n, prior=p, one_start=False), dict(
            alpha=[p.alpha, n], beta=[p.beta, extra])
    x = n + extra
    return dict(x_total=x, n=n, prior=p), dict(alpha=[p.alpha, n], beta=[p.beta, x, -F(n)])


def e_poisson_gamma(rng):
    p, n, x = g_gamma(rng), big_count(rng), big_count(rng)
    return dict(x_total=x, n=n, prior=p), dict(alpha=[p.alpha, x], beta=[p.beta, n])


def e_exponential_gamma(rng):
    p, n, x = g_gamma(rng), big_count(rng), big(rng)
    return dict(x_total=x, n=n, prior=p), dict(alpha=[p.alpha, n], beta=[p.beta, x])


def e_gamma_known_shape(rng):
    p, n, x, a = g_gamma(rng), big_count(rng), big(rng), big(rng)
    return dict(x_total=x, n=n, alpha=a, prior=p), dict(
        alpha=[p.alpha, F(n) * F(a)], beta=[p.beta, x])


def e_inverse_gamma_known_rate(rng):
    p, n, x, a = g_gamma(rng), big_count(rng), big(rng), big(rng)
    return dict(reciprocal_x_total=x, n=n, alpha=a, prior=p), dict(
        alpha=[p.alpha, F(n) * F(a)], beta=[p.beta, x])


def e_uniform_pareto(rng):
    p = D.Pareto(big(rng), big(rng))
    x, n = big(rng), big_count(rng) + 1
    return dict(x_max=x, n=n, prior=p), dict(x_m=[max(p.x_m, x)], alpha=[p.alpha, n])


def e_weibull_inverse_gamma_known_shape(rng):
    p, n, x = D.InverseGamma(big(rng), big(rng)), big_count(rng), big(rng)
    return dict(n=n, x_beta_total=x, prior=p), dict(alpha=[p.alpha, n], beta=[p.beta, x])


def normal_prior(rng):
    return D.Normal(rng.choice([-1, 1]) * big(rng, -30, 30), big(rng, -30, 30))


def round_trip(start):
    """Terms that cancel: the mean may be worked out as a step from the prior mean."""
    return [F(start), -F(start)]


def e_normal_known(rng, precision):
    p = normal_prior(rng)
    n, xt, v = big_count(rng), rng.choice([-1, 1]) * big(rng, -30, 30), big(rng, -30, 30)
    w = F(v) if precision else 1 / F(v)
    s2 = sq(p.sigma)
    pr = 1 / s2 + F(n) * w
    return dict(x_total=xt, n=n, prior=p, **{"precision" if precision else "var": v}), dict(
        mu=[F(p.mu) / s2 / pr, F(xt) * w / pr, *round_trip(p.mu)], sigma=("sqrt", 1 / pr))


def e_normal_known_variance(rng):
    return e_normal_known(rng, False)


def e_normal_known_precision(rng):
    return e_normal_known(rng, True)


def moments(rng):
    """Totals of data, with squares that are possible."""
    n = big_count(rng) + 1
    m = float(rng.choice([-1, 1]) * big(rng, -20, 20))
    s = float(abs(m) * decades(rng, -1, 3))
    return n, float(n) * m, float(n) * (m * m + s * s)


def e_normal_known_mean(rng):
    n, xt, x2 = moments(rng)
    mu = float(rng.choice([-1, 1]) * big(rng, -20, 20))
    ss = [F(x2), -2 * F(mu) * F(xt), F(n) * sq(mu)]
    if rng.integers(2):
        p = D.InverseGamma(big(rng), big(rng))
        return dict(x_total=xt, x2_total=x2, n=n, mu=mu, prior=p), dict(
            alpha=[p.alpha, F(n) / 2], beta=[F(p.beta)] + [v / 2 for v in ss])
    p = D.ScaledInverseChiSquared(big(rng), big(rng))
    nu = F(p.nu) + F(n)
    return dict(x_total=xt, x2_total=x2, n=n, mu=mu, prior=p), dict(
        nu=[p.nu, n], sigma2=[F(p.nu) * F(p.sigma2) / nu] + [v / nu for v in ss])


def e_normal(rng, name="normal"):
    n, xt, x2 = moments(rng)
    mu = float(rng.choice([-1, 1]) * big(rng, -20, 20))
    k, al, be = big(rng, -20, 20), big(rng), big(rng)
    joint = name != "normal_normal_inverse_gamma" and bool(rng.integers(2))
    p = (D.NormalGamma(mu=mu, lam=k, alpha=al, beta=be) if joint
         else D.NormalInverseGamma(mu=mu, nu=k, alpha=al, beta=be))
    kn = F(k) + F(n)
    pre = "ln_x" if name == "log_normal" else "x"
    mun = (F(k) * F(mu) + F(xt)) / kn
    return {f"{pre}_total": xt, f"{pre}2_total": x2, "n": n, "prior": p}, dict(
        mu=[F(k) * F(mu) / kn, F(xt) / kn, *round_trip(mu)],
        alpha=[al, F(n) / 2],
        beta=[F(be), F(x2) / 2, F(k) * sq(mu) / 2, -kn * mun * mun / 2],
        **{"lam" if joint else "nu": [k, n]},
    )


def e_normal_normal_inverse_gamma(rng):
    return e_normal(rng, "normal_normal_inverse_gamma")


def e_log_normal(rng):
    return e_normal(rng, "log_normal")


EXACT = {k[2:]: v for k, v in dict(globals()).items() if k.startswith("e_") and hasattr(M, k[2:])}


@unit("C33", quick=400)
def posteriors(ctx):
    rng = ctx.rng
    for name, make in EXACT.items():
        kw, params = make(rng)
        ctx.case(name, gen.key_of(**kw), sample=(name, kw))
        post = ctx.call(getattr(M, name), **kw)
        for k, terms in params.items():
            got = getattr(post, k)
            ctx.event("posterior parameters")
            if not ctx.ok(np.ndim(got) == 0 and np.isfinite(float(got)), f"{name}: {k} is {got}", **kw):
                continue
            if terms[0] == "sqrt":
                want = mp().sqrt(mp().mpf(terms[1].numerator) / terms[1].denominator)
                err, lim = abs(mp().mpf(float(got)) / want - 1), 40 * EPS
            else:
                terms = [F(t) for t in terms]
                want = sum(terms)
                size = sum(abs(t) for t in terms)
                err, lim = abs(F(got) - want), 40 * F(float(EPS)) * size
            ctx.ok(err <= lim, f"{name}: {k} of the posterior lost its digits", parameter=k, got=got,
                   expected=float(want), **kw)


@unit("C33", quick=240)
def log_likelihoods(ctx):
    rng = ctx.rng
    m = mp()
    f = m.mpf

    def i0(x):
        # the series is slow for large arguments
        x = f(x)
        if x < 200:
            return m.log(m.besseli(0, x))
        s, t = f(1), f(1)
        for k in range(1, 60):
            t = t * (2 * k - 1) ** 2 / (k * 8 * x)
            if abs(t) < f(10) ** -40:
                break
            s += t
        return x - m.log(2 * m.pi * x) / 2 + m.log(s)

    # extra: the factor of a log gamma, which is known to eps, not to eps times itself, near its zeros
    def judge(name, got, terms, extra=0.0, /, **info):
        want = sum(terms)
        ctx.event("log likelihoods")
        lim = EPS * (60 * sum(float(abs(t)) for t in terms) + 60 * extra + 200)
        ctx.case(name, repr(info), sample=(name, info))
        ctx.ok(np.isfinite(got) and abs(float(f(float(got)) - want)) <= lim,
               f"{name}: log likelihood at extreme values", got=got, expected=float(want), **info)

    al, be = decades(rng, -6, 9), decades(rng, -6, 9)
    p, q = decades(rng, -300, 300), decades(rng, -300, 300)
    a, b, c = decades(rng, -6, 9), decades(rng, -6, 9), decades(rng, -6, 9)
    d = D.GammaKnownRateProportional(a=p, b=b, c=c)
    judge("GammaKnownRateProportional", ctx.call(d.approx_log_likelihood, al, be),
          [f(al) * ln(p), -ln(p), f(al) * f(c) * ln(be), -f(b) * lg(al)], b, d=d, alpha=al, beta=be)
    d = D.GammaProportional(p=p, q=a, r=b, s=c)
    judge("GammaProportional", ctx.call(d.approx_log_likelihood, al, be),
          [f(al) * ln(p), -ln(p), -f(a) * f(be), -f(b) * lg(al), f(c) * f(al) * ln(be)], b, d=d, alpha=al, beta=be)
    d = D.BetaProportional(p=p, q=q, k=c)
    judge("BetaProportional", ctx.call(d.approx_log_likelihood, al, be),
          [f(al) * ln(p), f(be) * ln(q), f(c) * lg(f(al) + f(be)), -f(c) * lg(al), -f(c) * lg(be)],
          c, d=d, alpha=al, beta=be)
    d = D.VonMisesKnownConcentration(a=decades(rng, -6, 9), b=float(rng.uniform(0, 6.3)))
    mu = float(rng.uniform(0, 6.3))
    terms = [f(d.a) * m.cos(f(mu) - f(d.b)), -i0(d.a)]
    judge("VonMisesKnownConcentration", ctx.call(d.log_likelihood, mu), terms, d=d, mu=mu)
    d = D.VonMisesKnownDirectionProportional(c=decades(rng, -6, 9), r=float(rng.uniform(-1, 1)) * decades(rng, -6, 9))
    kappa = decades(rng, -6, 9)
    judge("VonMisesKnownDirectionProportional", ctx.call(d.approx_log_likelihood, kappa),
          [f(kappa) * f(d.r), -f(d.c) * i0(kappa)], d.c, d=d, kappa=kappa)


# ------------------------------------------------------------ multivariate
def exact_matrix(a):
    return mp().matrix(np.asarray(a, float).tolist())


@unit("C33", quick=240)
def multivariate(ctx):
    """Known covariance with up to 10^15 observations, and densities with many degrees of freedom."""
    rng = ctx.rng
    m = mp()
    p = int(rng.integers(1, 5))
    mu, cov, noise = rng.normal(size=p) * 3, gen.spd(rng, p), gen.spd(rng, p)
    n = int(decades(rng, 0, 15))
    xb = rng.normal(size=p) * 3
    prior = D.MultivariateNormal(mu=mu, cov=cov)
    post = ctx.call(M.multivariate_normal_known_covariance, n=n, x_bar=xb, cov=noise, prior=prior)
    ctx.case("mvn", n, gen.key_of(mu=mu, cov=cov, noise=noise, xb=xb), sample=(n, prior, noise))
    # covariance and mean by the gain of the update: one inverse, of n cov + noise
    C, V = exact_matrix(cov), exact_matrix(noise)
    G = C * m.inverse(C + V / n)
    want_mu = exact_matrix(mu) + G * (exact_matrix(xb) - exact_matrix(mu))
    want_cov = G * V / n
    cond = np.linalg.cond(cov) * np.linalg.cond(noise)
    lim = 1e3 * EPS * cond + 1e-13
    wc = np.array(want_cov.tolist(), dtype=float)
    wm = np.array(want_mu.tolist(), dtype=float).ravel()
    ctx.event("multivariate posteriors")
    ctx.ok(
        np.all(abs(np.asarray(post.cov) - wc) <= lim * np.sqrt(np.outer(np.diag(wc), np.diag(wc)))),
        "covariance of the posterior lost its digits", n=n, prior=prior, noise=noise, got=post.cov, expected=wc,
    )
    ctx.ok(np.all(abs(np.asarray(post.mu) - wm) <= lim * (1 + abs(xb).max() + abs(mu).max())),
           "mean of the posterior lost its digits", n=n, prior=prior, noise=noise, x_bar=xb, got=post.mu, expected=wm)

    # predictive of a normal inverse wishart
    psi = gen.spd(rng, p)
    kappa, nu = decades(rng, -3, 9), p - 1 + decades(rng, -1, 8)
    psi = psi * nu if rng.integers(2) else psi
    d = D.NormalInverseWishart(mu=mu, kappa=kappa, nu=nu, psi=psi)
    pred = ctx.call(M.multivariate_normal_predictive, distribution=d)
    df = float(nu) - p + 1
    S = exact_matrix(psi) * ((m.mpf(kappa) + 1) / (m.mpf(kappa) * m.mpf(df)))
    root = np.linalg.cholesky(psi * (kappa + 1) / kappa / df)
    ctx.case("niw predictive", gen.key_of(mu=mu, psi=psi, kappa=kappa, nu=nu), sample=d)
    inv, logdet = m.inverse(S), m.log(m.det(S))
    for _ in range(3):
        z = rng.normal(size=p)
        x = mu + root @ z * rng.choice([0.1, 1, 3])
        delta = exact_matrix(x) - exact_matrix(mu)
        q = (delta.T * inv * delta)[0]
        terms = [
            lg((m.mpf(df) + p) / 2), -lg(m.mpf(df) / 2), -m.mpf(p) / 2 * m.log(df * m.pi), -logdet / 2,
            -(m.mpf(df) + p) / 2 * m.log(1 + q / df),
        ]
        want = sum(terms)
        got = float(ctx.call(pred.dist.logpdf, x))
        # rounding of the points relative to the scale
        cond = np.linalg.cond(psi) * (1 + np.sum(z**2)) * (1 + abs(mu).max() / np.sqrt(np.diag(root @ root.T)).min())
        lim = EPS * (100 * sum(float(abs(t)) for t in terms) + 20 * df + 1e3 * cond) + 1e-9
        ctx.event("multivariate densities")
        ctx.ok(np.isfinite(got) and (lim > 0.1 or abs(got - float(want)) <= lim),
               "log density of the predictive at extreme parameters", distribution=d, x=x, got=got,
               expected=float(want), rounding_allows=lim)
