"""Monitors of sampling (properties "C13", "C14", "C15")."""

import copy

import numpy as np
from scipy.special import gammainc, ndtr, stdtr

from conjugate import distributions as D

from vmon import dists, gen, stat
from vmon.core import rule, unit

rule(
    "C13",
    "Samples of every univariate class with random parameters (scalars, vectors, broadcast), "
    "sample shapes (none, int, tuple, zero) and kinds of random state; big samples and pools of "
    "many small calls; a case is one sample; distinct by its parameters, shape and state.",
    ["a false alarm has a probability below 1e-10 per decision"],
)
rule(
    "C14",
    "Samples of variance and mean from every hierarchical class with random parameters and "
    "dimensions through every entry point and kind of random state; big samples and pools of "
    "many small calls; a case is one pool; distinct by parameters, entry point and state.",
    ["a false alarm has a probability below 1e-10 per decision"],
)
rule(
    "C15",
    "Histories of seeded and unseeded sampling calls on every class with a sampler, "
    "interleaved with other sampling and with changes of numpy's global state; a case is one "
    "distribution with one kind of random state; distinct by parameters and kind.",
)


class States:
    """Random states of one kind."""

    KINDS = ["none", "int", "npint", "legacy", "generator"]

    def __init__(self, rng, kind=None):
        self.rng = rng
        self.kind = kind or self.KINDS[rng.integers(len(self.KINDS))]
        seed = gen.seed(rng)
        self.first = gen.seed(rng)
        self.shared = {
            "legacy": lambda: np.random.RandomState(seed),
            "generator": lambda: np.random.default_rng(seed),
        }.get(self.kind, lambda: None)()

    def next(self):
        if self.kind == "none":
            return {} if self.rng.integers(2) else dict(random_state=None)
        if self.kind in ("int", "npint"):
            seed, self.first = self.first, int(self.rng.integers(2**32))
            return dict(random_state=seed if self.kind == "int" else np.int64(seed))
        return dict(random_state=self.shared)


def judge_law(ctx, name, u, d, info):
    bad, stat_d = stat.ks_uniform(u)
    ctx.ok(not bad, f"{name}: sample does not follow the distribution (KS {stat_d:.4f} of {np.size(u)})", d=d, **info)
    why = stat.independent(u)
    ctx.ok(why is None, f"{name}: {why}", d=d, **info)
    ctx.event(f"draws {name}", np.size(u))


def parameters(name, L):
    """Random parameters that numpy can sample.

    It refuses to draw no item and counts whose mean is beyond its integers.
    """
    kw = dists.REFS[name].gen(L)
    if name == "Hypergeometric":
        kw["n"] = L.wrap(np.maximum(kw["n"], 1))
    if name == "NegativeBinomial":
        kw["p"] = L.wrap(np.maximum(kw["p"], 1e-6))
    if name == "BetaNegativeBinomial":
        kw["alpha"] = L.wrap(np.maximum(kw["alpha"], 1))
    return kw


def sample_univariate(ctx, name, total):
    rng = ctx.rng
    ref = dists.REFS[name]
    L = gen.Layout(rng)
    kw = parameters(name, L)
    d = ctx.call(ref.make, D, kw)
    p = ref.params(d)
    shape = ref.shape(p)
    width = int(np.prod(shape, dtype=int))
    states = States(rng)
    mode = rng.integers(3)
    info = dict(state=states.kind, mode=["big", "split", "small"][mode])
    ctx.case(name, gen.key_of(**kw), states.kind, int(mode), sample=(d, info))
    dist = ctx.call(lambda: d.dist)
    n = max(60, total // width)
    if mode == 0:
        size = (n,) + shape if shape or rng.integers(2) else n
        x = ctx.call(dist.rvs, size=size, **states.next())
        want = (n,) + shape
        if not ctx.ok(np.shape(x) == want, f"{name}: sample has shape {np.shape(x)} instead of {want}", d=d, size=size):
            return
    elif mode == 1:
        a = int(rng.integers(1, 6))
        size = (n // a, a) + shape
        x = ctx.call(dist.rvs, size=size, **states.next())
        if not ctx.ok(np.shape(x) == size, f"{name}: sample has shape {np.shape(x)} instead of {size}", d=d):
            return
        x = np.reshape(x, (-1,) + shape)
    else:
        # pools of calls for few draws each
        calls = min(n, 150)
        out = []
        for _ in range(calls):
            how = rng.integers(3)
            if shape:
                size, want = [(shape, shape), ((2,) + shape, (2,) + shape), ((1,) + shape, (1,) + shape)][how]
            else:
                size, want = [(None, ()), (3, (3,)), ((1, 2), (1, 2))][how]
            x = ctx.call(dist.rvs, size=size, **states.next())
            if not ctx.ok(np.shape(x) == want, f"{name}: sample has shape {np.shape(x)} instead of {want}", d=d, size=size):
                return
            out.append(np.reshape(x, (-1,) + shape))
        x = np.concatenate(out)
    if ref.discrete:
        ctx.ok(np.all(x == np.floor(x)), f"{name}: draws are not integers", d=d, sample=x[:20])
    with np.errstate(all="ignore"):
        u = stat.pit(ref, p, np.asarray(x, float), rng)
    judge_law(ctx, name, u, d, info)
    # an empty sample
    if rng.integers(4) == 0:
        e = ctx.call(dist.rvs, size=(0,) + shape if shape else 0, **states.next())
        ctx.ok(np.shape(e) == (0,) + shape, f"{name}: empty sample has shape {np.shape(e)}", d=d)


@unit("C13", quick=32, weight=3)
def univariate(ctx):
    for name in dists.REFS:
        total = 20000
        if name in ("VonMises",):
            total = 3000
        if name in ("BetaNegativeBinomial", "BetaBinomial", "Hypergeometric"):
            total = 4000
        sample_univariate(ctx, name, total * (3 if ctx.thorough else 1))


CONTINUOUS = [n for n in dists.REFS if not dists.REFS[n].discrete]


@unit("C13", quick=60)
def equal_elements(ctx):
    """Elements that have the same parameters are still drawn one by one."""
    rng = ctx.rng
    states = States(rng)
    k = int(rng.integers(2, 7))
    name = CONTINUOUS[rng.integers(len(CONTINUOUS))]
    ref = dists.REFS[name]
    kw = {key: np.full(k, v, dtype=float) for key, v in ref.gen(gen.Layout(rng, "pyscalar")).items()}
    d = ctx.call(ref.make, D, kw)
    ctx.case(name, gen.key_of(**kw), states.kind, sample=(d, states.kind))
    x = np.asarray(ctx.call(d.dist.rvs, size=(20, k), **states.next()), float)
    ctx.event("draws of equal elements", x.size)
    # heavy tails may round to one value: only columns with different draws are told apart
    cols = [x[:, i] for i in range(k) if np.unique(x[:, i]).size > 10]
    ctx.ok(
        all(not np.array_equal(a, b) for i, a in enumerate(cols) for b in cols[:i]),
        f"{name}: elements with the same parameters share draws", d=d, state=states.kind, x=x[:4],
    )


@unit("C12", quick=60)
def equal_rows(ctx):
    """Rows of a vectorised Dirichlet distribution that are equal have samples of their own."""
    rng = ctx.rng
    states = States(rng)
    k = int(rng.integers(2, 7))
    alpha = rng.uniform(0.8, 6, size=int(rng.integers(2, 5)))
    rows = np.concatenate([np.repeat(alpha[None], k, axis=0), rng.uniform(0.8, 6, size=(2, alpha.size))])
    order = rng.permutation(k + 2)[: int(rng.integers(k + 1, k + 3))] if rng.integers(2) else np.arange(k)
    rows = rows[order]
    same = order < k
    d = D.Dirichlet(alpha=rows)
    ctx.case("Dirichlet", gen.key_of(rows=rows), states.kind, sample=(d, states.kind))
    for n in (1, int(rng.integers(2, 40))):
        x = ctx.call(d.dist.rvs, size=n, **states.next())
        if not ctx.ok(np.shape(x) == (len(rows), n, alpha.size), f"Dirichlet: sample has shape {np.shape(x)}", d=d):
            return
        first = x[same][..., 0]
        ctx.event("draws of equal rows", first.size)
        ctx.ok(np.unique(first).size == first.size, "Dirichlet: equal rows share draws", d=d, state=states.kind, x=first[:, :4])


@unit("C13", quick=72, weight=2)
def seeds(ctx):
    """One draw for each of many integer seeds: the draws of different seeds are a sample.

    Stages of a sampler that each start from the seed depend on each other, which large
    samples hide.
    """
    rng = ctx.rng
    name = list(dists.REFS)[ctx.rep % len(dists.REFS)]
    ref = dists.REFS[name]
    kw = parameters(name, gen.Layout(rng, "pyscalar"))
    if rng.integers(2) and name in ("BetaGeometric", "CompoundGamma"):
        kw = {k: v if isinstance(v, bool) else float(np.exp(rng.normal(0, 0.5))) for k, v in kw.items()}
    d = ctx.call(ref.make, D, kw)
    dist = ctx.call(lambda: d.dist)
    n = 6000 if ctx.thorough else 2500
    start = int(rng.integers(2**30))
    size = [None, 1, 2][rng.integers(3)]
    ctx.case("seeds", name, gen.key_of(**kw), start, sample=(d, f"seeds from {start}", size))
    x = np.stack([np.reshape(ctx.call(dist.rvs, size=size, random_state=start + i), -1) for i in range(n)])
    with np.errstate(all="ignore"):
        u = stat.pit(ref, ref.params(d), np.asarray(x[:, 0], float), rng)
    judge_law(ctx, name, u, d, dict(start=start, size=size))
    low, high = np.quantile(x[:, 0], [0.1, 0.9])
    if not ref.discrete and high - low > 1e-6 * max(abs(low), abs(high)):
        distinct = len(np.unique(x[:, 0]))
        ctx.ok(distinct > 0.75 * n, f"{name}: {n} seeds give {distinct} different samples", d=d, start=start)
    ctx.event("seeds", n)


# ------------------------------------------------------------- hierarchies
def chi2_cdf(df, x):
    return gammainc(df / 2, np.maximum(x, 0) / 2)


def inv_gamma_cdf(a, b, x):
    return 1 - gammainc(a, b / x)


def collect(ctx, d, n, states, shape_of, tuple_shape=None):
    """Pooled (mean, variance) pairs by random entry points, and single entry results."""
    rng = ctx.rng
    mode = rng.integers(4)
    few = int(rng.integers(2, 6))
    means, variances, only_v, only_m = [], [], [], []
    name = type(d).__name__
    entries = ["sample_mean"] + (["sample_beta"] if hasattr(d, "sample_beta") else [])
    sizes = [[n], [1] * 60, [int(s) for s in rng.integers(1, 40, size=30)], [few] * 60][mode]
    for s in sizes:
        size = (s,) + tuple_shape if tuple_shape else s
        entry = entries[rng.integers(len(entries))]
        m, v = ctx.call(getattr(d, entry), size, return_variance=True, **states.next())
        want_m, want_v = shape_of(s)
        good = ctx.ok(
            np.shape(m) in want_m and np.shape(v) in want_v,
            f"{name}.{entry}: shapes {np.shape(m)}, {np.shape(v)} instead of {want_m[0]}, {want_v[0]}",
            d=d, size=size,
        )
        if not good:
            return None
        means.append(np.reshape(m, want_m[0]))
        variances.append(np.reshape(v, want_v[0]))
        entry = entries[rng.integers(len(entries))]
        m2 = ctx.call(getattr(d, entry), size, **states.next())
        v2 = ctx.call(d.sample_variance, size, **states.next())
        if not ctx.ok(np.shape(m2) in want_m, f"{name}.{entry}: shape {np.shape(m2)}", d=d, size=size):
            return None
        if not ctx.ok(np.shape(v2) in want_v, f"{name}.sample_variance: shape {np.shape(v2)}", d=d, size=size):
            return None
        only_m.append(np.reshape(m2, want_m[0]))
        only_v.append(np.reshape(v2, want_v[0]))
    cat = [np.concatenate(k) for k in (means, variances, only_m, only_v)]
    ctx.event(f"draws {name}", sum(map(len, cat)))
    ctx.event(f"mode {['big', 'ones', 'small', 'few'][mode]}")
    return cat


def law(ctx, d, what, u, info):
    bad, k = stat.ks_uniform(u)
    ctx.ok(not bad, f"{type(d).__name__}: {what} does not follow its distribution (KS {k:.4f} of {np.size(u)})", d=d, **info)
    why = stat.independent(np.reshape(u, (len(u), -1)))
    ctx.ok(why is None, f"{type(d).__name__}: {what}: {why}", d=d, **info)


def unrelated(ctx, d, what, a, b, info):
    bad, z = stat.correlated(a, b)
    ctx.ok(not bad, f"{type(d).__name__}: {what} are dependent (z = {z:.1f})", d=d, **info)


@unit("C14", quick=60)
def normal_scale_mixtures(ctx):
    rng = ctx.rng
    L = gen.Layout(rng)
    pos = gen.positive_any(0.3, 40)
    kw = dict(mu=L.value(gen.real()), alpha=L.value(pos), beta=L.value(pos))
    k = L.value(pos)
    if rng.integers(2):
        d = D.NormalInverseGamma(nu=k, **kw)
    else:
        d = D.NormalGamma(lam=k, **kw)
    mu, a, b, kk = (np.asarray(v, float) for v in (kw["mu"], kw["alpha"], kw["beta"], k))
    shape = np.broadcast_shapes(mu.shape, a.shape, b.shape, kk.shape)
    states = States(rng)
    info = dict(state=states.kind)
    ctx.case(type(d).__name__, gen.key_of(k=k, **kw), states.kind, sample=(d, states.kind))
    got = collect(
        ctx, d, 8000, states,
        lambda s: ([(s,) + shape], [(s,) + shape]), shape or None,
    )
    if got is None:
        return
    m, v, m2, v2 = got
    ctx.ok(np.all(v > 0) and np.all(v2 > 0), "variance is not positive", d=d)
    uv, uv2 = inv_gamma_cdf(a, b, v), inv_gamma_cdf(a, b, v2)
    um = ndtr((m - mu) / np.sqrt(v / kk))
    um2 = stdtr(2 * a, (m2 - mu) / np.sqrt(b / (a * kk)))
    law(ctx, d, "variance", uv, info)
    law(ctx, d, "variance", uv2, info)
    law(ctx, d, "mean given variance", um, info)
    law(ctx, d, "mean", um2, info)
    unrelated(ctx, d, "standardised mean and variance", um, uv, info)


def positive_number(rng, least):
    """Of order one, or many, or a whole number of type int."""
    mode = rng.integers(4)
    if mode == 0:
        return int(np.ceil(least) + rng.integers(0, 8))
    if mode == 1:
        return int(np.ceil(least) + 10 ** rng.uniform(0.5, 4))
    if mode == 2:
        return float(least + 10 ** rng.uniform(0, 4))
    return float(rng.gamma(2.0) + least)


@unit("C14", quick=40)
def regression_coefficients(ctx):
    rng = ctx.rng
    p = gen.few(rng, 1, 5, 12)
    mu, dinv = rng.normal(size=p) * 2, gen.spd(rng, p, 1.0)
    # features in units of measure far apart, such as an intercept beside an income
    units = gen.units_apart(rng, p, 3)
    mu, dinv = mu * units, dinv * np.outer(units, units)
    a, b = positive_number(rng, 0.4), positive_number(rng, 0.2)
    d = D.NormalInverseGamma(mu=mu, alpha=a, beta=b, delta_inverse=dinv)
    states = States(rng)
    info = dict(state=states.kind)
    ctx.case("nd", gen.key_of(mu=mu, dinv=dinv, a=a, b=b), states.kind, sample=(d, states.kind))
    got = collect(
        ctx, d, 700 if not ctx.thorough else 4000, states,
        lambda s: ([(s, p)] + ([(s,)] if p == 1 else []), [(s,)]),
    )
    if got is None:
        return
    m, v, m2, v2 = got
    uv, uv2 = inv_gamma_cdf(a, b, v), inv_gamma_cdf(a, b, v2)
    law(ctx, d, "variance", uv, info)
    law(ctx, d, "variance", uv2, info)
    z = np.linalg.solve(np.linalg.cholesky(dinv), (m - mu).T).T / np.sqrt(v)[:, None]
    uz = ndtr(z)
    law(ctx, d, "coefficients given variance", uz, info)
    w = rng.normal(size=p) / units
    t = (m2 - mu) @ w / np.sqrt(b / a * (w @ dinv @ w))
    law(ctx, d, "coefficients", stdtr(2 * a, t), info)
    unrelated(ctx, d, "standardised coefficients and variance", uz[:, 0], uv, info)


@unit("C14", quick=40)
def wishart_hierarchies(ctx):
    rng = ctx.rng
    p = gen.few(rng, 1, 5, 10)
    mu, scale = rng.normal(size=p) * 2, gen.spd(rng, p, 1.0)
    units = gen.units_apart(rng, p, 2)
    scale = scale * np.outer(units, units)
    kappa, nu = positive_number(rng, 0.1), p - 1 + positive_number(rng, 1.0)
    inverse = bool(rng.integers(2))
    if inverse:
        mu = mu * units
        d = D.NormalInverseWishart(mu=mu, kappa=kappa, nu=nu, psi=scale)
        psi = scale
    else:
        units = 1 / units
        mu = mu * units
        d = D.NormalWishart(mu=mu, lam=kappa, W=scale, nu=nu)
        psi = np.linalg.inv(scale)
    states = States(rng)
    info = dict(state=states.kind)
    ctx.case(type(d).__name__, gen.key_of(mu=mu, s=scale, k=kappa, nu=nu), states.kind, sample=(d, states.kind))
    got = collect(
        ctx, d, 600 if not ctx.thorough else 4000, states,
        lambda s: (
            [(s, p)] + ([(s,)] if p == 1 else []),
            [(s, p, p)] + ([(s,)] if p == 1 else []),
        ),
    )
    if got is None:
        return
    m, v, m2, v2 = got
    size = tuple(int(k) for k in rng.integers(1, 9, size=2))
    grid = ctx.call(d.sample_variance, size, **states.next())
    ctx.ok(np.shape(grid) == (*size, p, p), f"{type(d).__name__}.sample_variance: shape {np.shape(grid)} for size {size}", d=d)
    w = rng.normal(size=p) / units
    uu = np.outer(units, units)
    for vv in (v, v2):
        ctx.ok(np.allclose(vv / uu, np.swapaxes(vv, 1, 2) / uu, rtol=1e-6, atol=1e-9 * np.max(abs(vv / uu))), "variance is not symmetric", d=d)
        prec = np.linalg.inv(vv / uu) / uu
        # two projections, of the variance and of the precision
        u1 = chi2_cdf(nu - p + 1, (w @ psi @ w) / np.einsum("i,nij,j->n", w, vv, w))
        law(ctx, d, "variance", u1, info)
        u2 = chi2_cdf(nu, np.einsum("i,nij,j->n", w, prec, w) / (w @ (np.linalg.inv(psi / uu) / uu) @ w))
        law(ctx, d, "precision", u2, info)
    u1 = chi2_cdf(nu - p + 1, (w @ psi @ w) / np.einsum("i,nij,j->n", w, v, w))
    chol = np.linalg.cholesky(v / kappa)
    z = np.linalg.solve(chol, (m - mu)[..., None])[..., 0]
    uz = ndtr(z)
    law(ctx, d, "mean given variance", uz, info)
    df = nu - p + 1
    t = (m2 - mu) @ w / np.sqrt((w @ psi @ w) / (kappa * df))
    law(ctx, d, "mean", stdtr(df, t), info)
    unrelated(ctx, d, "standardised mean and variance", uz[:, 0], u1, info)


# ------------------------------------------------------------------- seeds
def entropy_enough(ref, d, n):
    """Whether two independent samples of n draws are certain to differ."""
    if not ref.discrete:
        return True
    p = ref.params(d)
    lo, hi = ref.support(p)
    top = int(np.max(np.where(np.isfinite(hi), hi, 300)))
    shape = ref.shape(p)
    k = np.arange(0, min(top, 300) + 1.0).reshape((-1,) + (1,) * len(shape))
    same = np.max(np.sum(np.exp(ref.logpdf(p, k)) ** 2, axis=0))
    return n * -np.log(max(same, 1e-300)) > 40 if same < 1 else False


def samplers(ctx):
    """(name, distribution, draw(random_state), certain that streams differ)."""
    rng = ctx.rng
    out = []
    for name in dists.REFS:
        ref = dists.REFS[name]
        kw = parameters(name, gen.Layout(rng))
        d = ref.make(D, kw)
        shape = ref.shape(ref.params(d))
        n = 40
        out.append(
            (name, d, lambda d=d, s=(n,) + shape, **k: d.dist.rvs(size=s, **k), entropy_enough(ref, d, n))
        )
    p = int(rng.integers(2, 4))
    mu, m1, m2 = rng.normal(size=p), gen.spd(rng, p, 1.0), gen.spd(rng, p, 1.0)
    al, be = float(rng.gamma(2) + 0.5), float(rng.gamma(2) + 0.5)
    alphas = rng.gamma(2, size=(3, p)) + 0.5
    hier = [
        D.NormalInverseGamma(mu=0.5, alpha=al, beta=be, nu=2.0),
        D.NormalInverseGamma(mu=mu, alpha=al, beta=be, delta_inverse=m1),
        D.NormalGamma(mu=0.5, lam=2.0, alpha=al, beta=be),
        D.NormalInverseWishart(mu=mu, kappa=1.5, nu=p + 2.0, psi=m1),
        D.NormalWishart(mu=mu, lam=1.5, W=m1, nu=p + 2.0),
    ]
    for d in hier:
        for entry in ("sample_variance", "sample_mean", "sample_beta"):
            if hasattr(d, entry):
                for size in (1, 7):
                    out.append((f"{type(d).__name__}.{entry}", d, lambda d=d, e=entry, s=size, **k: getattr(d, e)(s, **k), True))
        out.append(
            (
                f"{type(d).__name__}.sample_mean with variance", d,
                lambda d=d, **k: np.concatenate([np.ravel(v) for v in d.sample_mean(5, return_variance=True, **k)]),
                True,
            )
        )
    plain = [
        D.Dirichlet(alpha=alphas[0]),
        D.Dirichlet(alpha=alphas),
        D.MultivariateNormal(mu=mu, cov=m1),
        D.MultivariateStudentT(mu=mu, sigma=m1, nu=3.5),
        D.InverseWishart(nu=p + 2.0, psi=m2),
        D.Wishart(nu=p + 2.0, V=m2),
    ]
    for d in plain:
        out.append((type(d).__name__, d, lambda d=d, **k: d.dist.rvs(size=6, **k), True))
    out.append(("Multinomial", None, lambda **k: D.Multinomial(n=50, p=np.ones(5) / 5).dist.rvs(size=30, **k), True))
    return out


def global_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2], s[3], s[4]


def equal(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


@unit("C15", quick=24, weight=2)
def histories(ctx):
    rng = ctx.rng
    kinds = {
        "int": lambda s: s,
        "npint": lambda s: np.int64(s),
        "legacy": lambda s: np.random.RandomState(s),
        "generator": lambda s: np.random.default_rng(s),
    }
    todo = samplers(ctx)
    noise = [t[2] for t in todo]
    for name, d, draw, differs in todo:
        kind = list(kinds)[rng.integers(4)]
        make = kinds[kind]
        seed, other = (int(v) for v in rng.choice(2**31 - 1, size=2, replace=False))
        if rng.integers(3) == 0:
            seed = [0, 1, 2**31, 2**32 - 1][rng.integers(4)]
        if rng.integers(2):
            other = seed ^ (1 << int(rng.integers(32)))  # in one bit only
        ctx.case(name, gen.key_of(d=d), kind, seed, sample=(d or name, kind))
        np.random.seed(int(rng.integers(2**31)))
        before = global_state()
        state = make(seed)
        a = ctx.call(draw, random_state=state)
        ctx.ok(global_state() == before, f"{name}: sampling with a random state touches numpy's global state", d=d, kind=kind)
        # unrelated sampling and another global state in between
        for _ in range(int(rng.integers(1, 4))):
            noise[rng.integers(len(noise))]()
        np.random.seed(int(rng.integers(2**31)))
        np.random.normal(size=int(rng.integers(1, 5)))
        before = global_state()
        b = ctx.call(draw, random_state=make(seed))
        ctx.ok(global_state() == before, f"{name}: sampling with a random state touches numpy's global state", d=d, kind=kind)
        ctx.ok(equal(a, b), f"{name}: equal random states give different samples", d=d, kind=kind, a=a, b=b)
        ctx.ok(
            np.shape(a) == np.shape(b), f"{name}: shapes differ", d=d,
        )
        if differs:
            c = ctx.call(draw, random_state=make(other))
            ctx.ok(not equal(a, c), f"{name}: different seeds give the same sample", d=d, kind=kind)
        if kind in ("legacy", "generator"):
            if differs:
                c = ctx.call(draw, random_state=state)
                ctx.ok(not equal(a, c), f"{name}: the random state does not advance", d=d, kind=kind)
            # continuing a copied state continues the stream
            twin = copy.deepcopy(state)
            e, f = ctx.call(draw, random_state=state), ctx.call(draw, random_state=twin)
            ctx.ok(equal(e, f), f"{name}: equal states in the middle of a stream differ", d=d, kind=kind)
        elif differs:
            # neither the object nor a cache remembers the last call
            c = ctx.call(draw, random_state=make(other))
            b = ctx.call(draw, random_state=make(seed))
            ctx.ok(equal(a, b) and not equal(c, b), f"{name}: seeded samples depend on the history", d=d)
        # numpy's global seed without a random state
        np.random.seed(seed)
        a = ctx.call(draw)
        moved = global_state()
        np.random.seed(seed)
        if differs:
            ctx.ok(moved != global_state(), f"{name}: sampling without random state ignores the global one", d=d)
        b = ctx.call(draw, random_state=None)
        ctx.ok(equal(a, b), f"{name}: numpy's global seed does not govern the sample", d=d, a=a, b=b)
        if differs:
            c = ctx.call(draw)
            ctx.ok(not equal(a, c), f"{name}: consecutive samples are the same", d=d)
            np.random.seed(other % 2**32)
            ctx.ok(not equal(a, ctx.call(draw)), f"{name}: another global seed gives the same sample", d=d)
        ctx.event("histories " + kind)


@unit("C15", quick=8, weight=3)
def dirichlet_plot(ctx):
    """The density estimate that is plotted is seeded like any sample."""
    import matplotlib.pyplot as plt

    rng = ctx.rng
    d = D.Dirichlet(alpha=rng.gamma(2.0, size=int(rng.integers(2, 4))) + 0.5)
    seed = int(rng.integers(2**31))
    ctx.case("plot", repr(d.alpha), seed, sample=d)

    def lines(**k):
        fig, ax = plt.subplots()
        try:
            ctx.call(d.plot_pdf, ax=ax, samples=60, **k)
            return np.array([ln.get_ydata() for ln in ax.lines])
        finally:
            plt.close(fig)

    np.random.seed(1)
    before = global_state()
    a = lines(random_state=seed)
    ctx.ok(before == global_state(), "plotting with a random state touches the global one", d=d)
    np.random.seed(2)
    ctx.ok(equal(a, lines(random_state=seed)), "equal seeds plot differently", d=d)
    ctx.ok(not equal(a, lines(random_state=seed + 1)), "different seeds plot the same", d=d)
    g = np.random.default_rng(seed)
    ctx.ok(not equal(lines(random_state=g), lines(random_state=g)), "generator does not advance", d=d)
    np.random.seed(3)
    a = lines()
    ctx.ok(not equal(a, lines()), "unseeded plots are the same", d=d)
    np.random.seed(3)
    ctx.ok(equal(a, lines()), "numpy's global seed does not govern the plot", d=d)
