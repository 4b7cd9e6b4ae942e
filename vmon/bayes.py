"""Bayes' rule as an oracle on observed calls of the models.

For a call  posterior = model(data, prior)  the quantity

    D(theta) = log posterior(theta) - log prior(theta) - log likelihood(theta)

must not depend on theta. Every log density is kept as a list of terms, so that
the rounding error that correct code may make is known at every theta.
"""

import numpy as np

EPS = np.finfo(float).eps


# ---------------------------------------------------------------- families
# kernel(params, theta) -> terms of the log density up to a constant
def k_beta(p, t):  # t: logit of the probability
    lp, lq = -np.logaddexp(0, -t), -np.logaddexp(0, t)
    return [(p["alpha"] - 1) * lp, (p["beta"] - 1) * lq]


def k_gamma(p, t):
    return [(p["alpha"] - 1) * np.log(t), -p["beta"] * t]


def k_inverse_gamma(p, t):
    return [-(p["alpha"] + 1) * np.log(t), -p["beta"] / t]


def k_scaled_inverse_chi2(p, t):
    return [-(1 + p["nu"] / 2) * np.log(t), -p["nu"] * p["sigma2"] / (2 * t)]


def k_normal(p, t):
    return [-(t**2) / (2 * p["sigma"] ** 2), t * p["mu"] / p["sigma"] ** 2]


def k_pareto(p, t):
    inside = t >= p["x_m"]
    return [np.where(inside, -(p["alpha"] + 1) * np.log(t), -np.inf)]


def k_nig(p, t):  # t: (mu, variance), density over both
    m, v = t
    return [
        -(p["alpha"] + 1.5) * np.log(v),
        -p["beta"] / v,
        -p["nu"] * m**2 / (2 * v),
        p["nu"] * m * p["mu"] / v,
        -p["nu"] * p["mu"] ** 2 / (2 * v),
    ]


def k_ng(p, t):  # density over (mu, precision); the parameters are (mu, 1/precision)
    m, v = t
    return [
        -(p["alpha"] - 0.5) * np.log(v),
        -p["beta"] / v,
        -p["lam"] * m**2 / (2 * v),
        p["lam"] * m * p["mu"] / v,
        -p["lam"] * p["mu"] ** 2 / (2 * v),
    ]


FAMILIES = {
    "Beta": (("alpha", "beta"), k_beta),
    "Gamma": (("alpha", "beta"), k_gamma),
    "InverseGamma": (("alpha", "beta"), k_inverse_gamma),
    "ScaledInverseChiSquared": (("nu", "sigma2"), k_scaled_inverse_chi2),
    "Normal": (("mu", "sigma"), k_normal),
    "Pareto": (("x_m", "alpha"), k_pareto),
    "NormalInverseGamma": (("mu", "nu", "alpha", "beta"), k_nig),
    "NormalGamma": (("mu", "lam", "alpha", "beta"), k_ng),
}


# ------------------------------------------------------------- likelihoods
def logs(t):
    return -np.logaddexp(0, -t), -np.logaddexp(0, t)


def l_binomial(d, t):
    lp, lq = logs(t)
    # n and x in terms of their own: n - x may be taken in any order of the sum
    return [d["x"] * lp, d["n"] * lq, -d["x"] * lq]


def l_bernoulli(d, t):
    lp, lq = logs(t)
    return [d["x"] * lp, 1 * lq, -d["x"] * lq]


def l_negative_binomial(d, t):
    lp, lq = logs(t)
    return [d["r"] * d["n"] * lp, d["x"] * lq]


def l_geometric(d, t):
    lp, lq = logs(t)
    failures = [d["x_total"] * lq]
    if d["one_start"]:
        failures.append(-d["n"] * lq)
    return [d["n"] * lp] + failures


def l_poisson(d, t):
    return [d["x_total"] * np.log(t), -d["n"] * t]


def l_exponential(d, t):
    return [d["n"] * np.log(t), -d["x_total"] * t]


def l_gamma_known_shape(d, t):
    return [d["n"] * d["alpha"] * np.log(t), -d["x_total"] * t]


def l_inverse_gamma_known_shape(d, t):
    return [d["n"] * d["alpha"] * np.log(t), -d["reciprocal_x_total"] * t]


def l_pareto_known_minimum(d, t):
    return [
        d["n"] * np.log(t),
        t * d["n"] * np.log(d["x_m"]),
        -t * d["ln_x_total"],
    ]


def l_uniform(d, t):
    return [np.where(t >= d["x_max"], -d["n"] * np.log(t), -np.inf)]


def l_weibull_known_shape(d, t):
    return [-d["n"] * np.log(t), -d["x_beta_total"] / t]


def l_normal_known_variance(d, t):
    return [t * d["x_total"] / d["var"], -d["n"] * t**2 / (2 * d["var"])]


def l_normal_known_precision(d, t):
    return [t * d["x_total"] * d["precision"], -d["n"] * t**2 * d["precision"] / 2]


def l_normal_known_mean(d, t):
    return [
        -d["n"] / 2 * np.log(t),
        -d["x2_total"] / (2 * t),
        2 * d["mu"] * d["x_total"] / (2 * t),
        -d["n"] * d["mu"] ** 2 / (2 * t),
    ]


def l_normal(d, t):
    m, v = t
    return [
        -d["n"] / 2 * np.log(v),
        -d["x2_total"] / (2 * v),
        m * d["x_total"] / v,
        -d["n"] * m**2 / (2 * v),
    ]


def l_log_normal(d, t):
    return l_normal(
        {"n": d["n"], "x_total": d["ln_x_total"], "x2_total": d["ln_x2_total"]}, t
    )


# name: (data arguments, likelihood)
ELEMENTWISE = {
    "binomial_beta": (("n", "x"), l_binomial),
    "bernoulli_beta": (("x",), l_bernoulli),
    "negative_binomial_beta": (("r", "n", "x"), l_negative_binomial),
    "geometric_beta": (("x_total", "n", "one_start"), l_geometric),
    "poisson_gamma": (("x_total", "n"), l_poisson),
    "exponential_gamma": (("x_total", "n"), l_exponential),
    "gamma_known_shape": (("x_total", "n", "alpha"), l_gamma_known_shape),
    "inverse_gamma_known_rate": (
        ("reciprocal_x_total", "n", "alpha"),
        l_inverse_gamma_known_shape,
    ),
    "pareto_gamma": (("n", "ln_x_total", "x_m"), l_pareto_known_minimum),
    "uniform_pareto": (("x_max", "n"), l_uniform),
    "weibull_inverse_gamma_known_shape": (("n", "x_beta_total"), l_weibull_known_shape),
    "normal_known_variance": (("x_total", "n", "var"), l_normal_known_variance),
    "normal_known_precision": (("x_total", "n", "precision"), l_normal_known_precision),
    "normal_known_mean": (("x_total", "x2_total", "n", "mu"), l_normal_known_mean),
    "normal": (("x_total", "x2_total", "n"), l_normal),
    "normal_normal_inverse_gamma": (("x_total", "x2_total", "n"), l_normal),
    "log_normal": (("ln_x_total", "ln_x2_total", "n"), l_log_normal),
}


def thetas(family, prior, data, post):
    """Points (G, N) of the parameter space, from the prior and the data only."""
    n = len(next(iter(prior.values())))
    if family == "Beta":
        g = np.array([-30.0, -9, -5, -2.5, -1, -0.3, 0, 0.4, 1.2, 3, 6, 11, 28])
        return np.repeat(g[:, None], n, axis=1)
    if family in ("Gamma", "InverseGamma", "ScaledInverseChiSquared"):
        g = np.exp(np.array([-14.0, -9, -6, -4, -2, -1, 0, 0.7, 1.5, 3, 5, 8, 13]))
        return np.repeat(g[:, None], n, axis=1)
    if family == "Normal":
        nn = np.maximum(data["n"], 1)
        s = np.maximum.reduce(
            [abs(prior["mu"]), prior["sigma"], abs(data["x_total"] / nn), 1e-3 + 0 * nn]
        )
        g = np.array([0, 1e-4, -1e-4, 0.01, -0.01, 0.3, -0.3, 1, -1, 5, -5, 100, -100])
        return g[:, None] * s
    if family == "Pareto":
        g = np.array([0.25, 0.5, 0.9, 0.999, 1.0, 1.001, 1.1, 2, 10, 1e4])
        top = np.maximum(prior["x_m"], data["x_max"])
        return np.concatenate(
            [
                g[:, None] * prior["x_m"],
                g[:, None] * np.maximum(data["x_max"], 1e-9),
                np.array([1.0, 3.0, 7.0])[:, None] * top,
            ]
        )
    if family in ("NormalInverseGamma", "NormalGamma"):
        xt = data.get("x_total", data.get("ln_x_total"))
        x2 = data.get("x2_total", data.get("ln_x2_total"))
        nn = np.maximum(data["n"], 1)
        centre = xt / nn
        spread = np.maximum.reduce(
            [
                abs(prior["mu"] - centre),
                np.sqrt(np.maximum(x2 / nn, 0)),
                np.sqrt(prior["beta"] / prior["alpha"]),
                np.full(n, 1e-3),
            ]
        )
        gm = np.array([0, 0, 1, -1, 0.1, -3, 20, -0.5, 0.01, 2, -2, 0.3, 0])
        gv = np.exp(np.array([-6.0, 0, 1, 4, -3, 2, 7, -1, -5, 9, 0.5, -2, 11]))
        mu = prior["mu"] + gm[:, None] * spread
        mu[1] = centre
        mu[6] = 0
        return mu, gv[:, None] * spread**2
    raise KeyError(family)


def params_of(dist):
    names, _ = FAMILIES[type(dist).__mro__[0].__name__]
    return {k: getattr(dist, k) for k in names}


def family_of(dist):
    for c in type(dist).__mro__:
        if c.__name__ in FAMILIES:
            return c.__name__
    return None


def log_kernel(dist_params, family, t):
    return FAMILIES[family][1](dist_params, t)


def judge_elementwise(name, kwargs, post, tol=1e-11):
    """List of complaints about one observed call of an elementwise model."""
    data_names, lik = ELEMENTWISE[name]
    prior = kwargs["prior"]
    family = family_of(prior)
    if type(post) is not type(prior) and family_of(post) != family:
        return [f"posterior is a {type(post).__name__}, prior a {family}"]
    names, kernel = FAMILIES[family]
    data = {k: kwargs[k] for k in data_names if k in kwargs}
    one_start = data.pop("one_start", True)
    raw = (
        [getattr(prior, k) for k in names]
        + list(data.values())
        + [getattr(post, k) for k in names]
    )
    arrays = [np.asarray(v, dtype=float) for v in raw]
    in_shape = np.broadcast_shapes(*[a.shape for a in arrays[: -len(names)]])
    for k, a in zip(names, arrays[-len(names) :]):
        try:
            fits = np.broadcast_shapes(in_shape, a.shape) == in_shape
        except ValueError:
            fits = False
        if not fits:
            return [f"posterior {k} has shape {a.shape}, inputs broadcast to {in_shape}"]
    if family == "NormalInverseGamma" and post.delta_inverse is not None:
        return ["posterior of the one dimensional model has a delta_inverse"]
    cols = [np.broadcast_to(a, in_shape).reshape(-1) for a in arrays]
    p0 = dict(zip(names, cols[: len(names)]))
    d = dict(zip(data, cols[len(names) : -len(names)]))
    p1 = dict(zip(names, cols[-len(names) :]))
    out = []
    for k, v in p1.items():
        if not np.all(np.isfinite(v)):
            out.append(f"posterior {k} is not finite: {v[~np.isfinite(v)][:3]}")
        elif k not in ("mu",) and not np.all(v > 0):
            out.append(f"posterior {k} is not positive: {v[~(v > 0)][:3]}")
    if out:
        return out
    t = thetas(family, p0, d, p1)
    if name == "geometric_beta":
        d["one_start"] = one_start
    lp1, lp0, ll = kernel(p1, t), kernel(p0, t), lik(d, t)
    with np.errstate(all="ignore"):
        expected_inside = np.isfinite(sum(lp0)) & np.isfinite(sum(ll))
        inside = np.isfinite(sum(lp1))
    if not np.array_equal(expected_inside, inside):
        i = np.argwhere(expected_inside != inside)[0]
        at = (t[0][tuple(i)], t[1][tuple(i)]) if isinstance(t, tuple) else t[tuple(i)]
        return [
            f"support of the posterior is wrong: density {'positive' if inside[tuple(i)] else 'zero'} at {at}"
        ]
    terms = lp1 + [-a for a in lp0] + [-a for a in ll]
    with np.errstate(all="ignore"):
        dd = np.where(inside, sum(np.where(inside, a, 0) for a in terms), 0)
        scale = sum(np.where(inside, abs(a), 0) for a in terms)
    big = np.where(inside, scale, np.inf)
    ref = np.argmin(big, axis=0)
    idx = np.arange(dd.shape[1])
    err = abs(dd - dd[ref, idx])
    lim = tol * (scale + scale[ref, idx]) + 1e-13
    bad = inside & ~(err <= lim)
    if bad.any():
        g, j = np.argwhere(bad)[0]
        at = (t[0][g, j], t[1][g, j]) if isinstance(t, tuple) else t[g, j]
        out.append(
            f"log posterior - log prior - log likelihood is not constant: differs by "
            f"{err[g, j]:.6g} (rounding allows {lim[g, j]:.3g}) at parameter {at} of element {j}: "
            f"prior { {k: v[j] for k, v in p0.items()} } data "
            f"{ {k: (v[j] if np.ndim(v) else v) for k, v in d.items()} } "
            f"posterior { {k: v[j] for k, v in p1.items()} }"
        )
    return out


# -------------------------------------------------------------- generators
def gen_elementwise(name, rng, layout=None, wide=True):
    """Valid keyword arguments of the model (with its prior), as a user has them."""
    kwargs = _gen_elementwise(name, rng, layout, wide)
    if rng.integers(10) == 0:  # a class of the user's own
        prior = kwargs["prior"]
        values = {k: getattr(prior, k) for k in prior.__dataclass_fields__}
        kwargs["prior"] = type("My" + type(prior).__name__, (type(prior),), {})(**values)
    return kwargs


def _gen_elementwise(name, rng, layout, wide):
    from conjugate import distributions as D

    from vmon import gen

    L = layout or gen.Layout(rng)
    pos = gen.positive_any(1e-3, 1e5 if wide else 50)
    V = L.value

    def beta_prior():
        return D.Beta(alpha=V(pos), beta=V(pos))

    def gamma_prior():
        return D.Gamma(alpha=V(pos), beta=V(pos))

    def joint(*fs):
        """Broadcast dependent draws."""
        return [L.wrap(f) for f in fs]

    hi = 100000 if wide else 40
    cnt, cntp = gen.count(hi), gen.positive_int(1, hi)
    if name == "binomial_beta":
        n = V(cnt)
        u = gen.fraction(rng, L.shape())
        x = np.round(u * n)
        x = x.astype(np.asarray(n).dtype) if rng.integers(2) else x
        return dict(n=n, x=L.wrap(x), prior=beta_prior())
    if name == "bernoulli_beta":
        kind = rng.integers(3)
        x = rng.integers(0, 2, size=L.shape())
        x = L.wrap(x)
        if kind == 0 and isinstance(x, int):
            x = bool(x)
        elif kind == 1:
            x = L.wrap(np.asarray(x, dtype=float))
        return dict(x=x, prior=beta_prior())
    if name == "negative_binomial_beta":
        return dict(
            r=V(gen.positive_any(0.1, 50)), n=V(cnt), x=V(cnt), prior=beta_prior()
        )
    if name == "geometric_beta":
        n = V(cnt)
        extra = V(cnt) * np.where(np.asarray(n) > 0, 1, 0)
        mode = rng.integers(3)
        if mode == 2:
            kw = dict(one_start=L.flag(False))
            x = extra
        else:
            kw = dict(one_start=L.flag(True)) if mode else {}
            x = n + extra
        return dict(x_total=L.wrap(np.asarray(x)), n=n, prior=beta_prior(), **kw)
    if name == "poisson_gamma":
        n = V(gen.count(hi)) if rng.integers(2) else V(gen.positive(1e-3, 1e4))
        x = V(cnt) * np.where(np.asarray(n) > 0, 1, 0)
        return dict(x_total=L.wrap(np.asarray(x)), n=n, prior=gamma_prior())

    def positive_total(n):
        mean = np.asarray(V(gen.positive(1e-4, 1e5 if wide else 50)))
        total = np.asarray(n * mean)
        if rng.integers(5) == 0:  # measured in whole units
            total = np.ceil(total).astype(np.int64)
        return L.wrap(total)

    if name == "exponential_gamma":
        n = V(cnt)
        return dict(x_total=positive_total(n), n=n, prior=gamma_prior())
    if name == "gamma_known_shape":
        n = V(cnt)
        return dict(x_total=positive_total(n), n=n, alpha=V(pos), prior=gamma_prior())
    if name == "inverse_gamma_known_rate":
        n = V(cnt)
        return dict(
            reciprocal_x_total=positive_total(n), n=n, alpha=V(pos), prior=gamma_prior()
        )
    if name == "pareto_gamma":
        n, x_m = V(cnt), V(gen.positive(1e-3, 1e4))
        excess = np.asarray(V(gen.positive(1e-3, 20)))
        total = np.asarray(n * (np.log(x_m) + excess))
        return dict(n=n, ln_x_total=L.wrap(total), x_m=x_m, prior=gamma_prior())
    if name == "uniform_pareto":
        prior = D.Pareto(x_m=V(gen.positive_any(1e-3, 1e4)), alpha=V(pos))
        mode = rng.integers(4)
        if mode == 0:
            x_max = prior.x_m
        else:
            x_max = V(gen.positive_any(1e-3, 1e4))
        return dict(x_max=x_max, n=V(cntp), prior=prior)
    if name == "weibull_inverse_gamma_known_shape":
        n = V(cnt)
        return dict(
            n=n,
            x_beta_total=positive_total(n),
            prior=D.InverseGamma(alpha=V(pos), beta=V(pos)),
        )

    def moments():
        n = V(gen.count(2000))
        mode = rng.integers(4)
        m = np.asarray(V(gen.real(3.0 if mode else 300.0)), dtype=float)
        s = np.asarray(V(gen.positive(1e-2, 100)))
        s = np.where(np.asarray(n) > 1, s, 0.0)
        xt, x2 = np.asarray(n * m), np.asarray(n * (m**2 + s**2))
        if rng.integers(5) == 0:  # measured in whole units
            m, k = np.round(m), np.asarray(n)
            xt = (k * m).astype(np.int64)
            x2 = (k * m**2 + np.where(k > 1, np.ceil(k * s**2), 0)).astype(np.int64)
        return n, L.wrap(xt), L.wrap(x2)

    if name in ("normal_known_variance", "normal_known_precision"):
        n, xt, _ = moments()
        prior = D.Normal(mu=V(gen.real()), sigma=V(gen.positive(1e-2, 1e3)))
        k = "var" if name.endswith("variance") else "precision"
        return dict(x_total=xt, n=n, prior=prior, **{k: V(gen.positive_any(1e-5, 1e5))})
    if name == "normal_known_mean":
        n, xt, x2 = moments()
        if rng.integers(2):
            prior = D.InverseGamma(alpha=V(pos), beta=V(pos))
        else:
            prior = D.ScaledInverseChiSquared(nu=V(pos), sigma2=V(pos))
        return dict(x_total=xt, x2_total=x2, n=n, mu=V(gen.real()), prior=prior)
    if name in ("normal", "log_normal", "normal_normal_inverse_gamma"):
        n, xt, x2 = moments()
        mu = V(gen.real())
        prior_kw = dict(mu=mu, alpha=V(pos), beta=V(pos))
        if name != "normal_normal_inverse_gamma" and rng.integers(2):
            prior = D.NormalGamma(lam=V(gen.positive_any(1e-4, 1e5)), **prior_kw)
        else:
            prior = D.NormalInverseGamma(nu=V(gen.positive_any(1e-4, 1e5)), **prior_kw)
        pre = "ln_x" if name == "log_normal" else "x"
        return {f"{pre}_total": xt, f"{pre}2_total": x2, "n": n, "prior": prior}
    raise KeyError(name)
