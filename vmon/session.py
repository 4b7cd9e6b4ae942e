"""Operations on shared objects, as many users or threads would run them."""

import pickle

import numpy as np

from vmon import dists, gen, hist, preds


class Op:
    """A call with everything it is given; run() must not depend on anything else."""

    def __init__(self, name, run, inputs):
        self.name, self.run, self.inputs = name, run, inputs


def encode(v):
    """A comparable image of a result or of an input, exact to the last bit."""
    if hasattr(v, "__dataclass_fields__"):
        bounds = tuple(
            (k, encode(vars(v)[k])) for k in ("_min_value", "_max_value") if k in vars(v)
        )
        return (
            type(v).__name__,
            tuple((k, encode(getattr(v, k))) for k in v.__dataclass_fields__),
            bounds,
        )
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(encode(w) for w in v))
    if isinstance(v, dict):
        return tuple((k, encode(w)) for k, w in v.items())
    if isinstance(v, (np.ndarray, np.generic)):
        a = np.asarray(v)
        return (a.shape, a.dtype.str, a.tobytes())
    if isinstance(v, (int, float, bool, str, type(None))):
        return (type(v).__name__, repr(v))
    return (type(v).__name__, pickle.dumps(v))


def points(ref, p, rng, g=3):
    """Evaluation points in the bulk of a reference distribution."""
    q = rng.uniform(0.05, 0.95, size=(g,) + ref.shape(p))
    with np.errstate(all="ignore"):
        if ref.name == "VonMises":
            return p["mu"] + (q - 0.5) * 6
        if ref.name == "BetaNegativeBinomial":
            return np.floor(q * 30)
        if ref.name in ("BetaBinomial", "Hypergeometric"):
            lo, hi = ref.support(p)
            return lo + np.floor(q * (hi - lo + 1))
        return ref.quantile(p, q) + np.zeros(q.shape)


def value_ops(d, rng, name=None):
    """Densities and so on of one shared univariate distribution."""
    ref = dists.ref_of(d)
    p = ref.params(d)
    x = points(ref, p, rng)
    name = name or ref.name
    out = []
    for entry in ["pmf" if ref.discrete else "pdf", "cdf"] + (["sf", "mean"] if ref.scipy else []):
        args = () if entry == "mean" else (x,)
        if ref.name == "VonMises" and entry == "mean":
            continue
        out.append(
            Op(f"{name}.{entry}", lambda e=entry, a=args: getattr(d.dist, e)(*a), [d, x])
        )
    return out


def seeded(rng):
    """A fresh but always equal random state."""
    seed = int(rng.integers(2**31))
    kind = rng.integers(3)
    return [
        lambda: seed, lambda: np.random.RandomState(seed), lambda: np.random.default_rng(seed)
    ][kind]


def same_shapes(rng):
    L = gen.Layout(rng, "vec")
    L.shapes = [(gen.few(rng, 1, 5, 60),)]
    return L


def build(rng, stories=9, univariate=9, twins=3):
    """A random session: priors, posteriors, data and distributions that are shared."""
    from conjugate import distributions as D
    from conjugate import models as M

    ops = []
    # the same functions with different arguments are the ones that can mix up
    names = np.repeat(rng.permutation(len(hist.ALL))[: -(-stories // twins)], twins)
    alike, last = None, None
    for i in names:
        story = hist.ALL[i]
        if i != last:
            # with arguments of the same shapes half of the time
            alike, last = same_shapes(rng) if rng.integers(2) else None, i
        L, prior, fixed, shape = hist.begin(story, rng, alike)
        x = story.draw(rng, gen.few(rng, 1, 12, 90), shape, fixed)
        kw = story.kwargs(x, fixed)
        model = getattr(M, story.model)
        ops.append(Op(story.name, lambda m=model, k=kw, d=prior: m(prior=d, **k), [prior, kw]))
        try:
            post = model(prior=prior, **kw)
        except Exception:
            continue  # the operation above is going to show it
        y = story.draw(rng, int(rng.integers(1, 5)), shape, fixed)
        kw2 = story.kwargs(y, fixed)
        ops.append(Op(story.name + " again", lambda m=model, k=kw2, d=post: m(prior=d, **k), [post, kw2]))
        if dists.ref_of(post) is not None:
            ops += value_ops(post, rng, story.name + " posterior")
    alike = same_shapes(rng)
    for name in np.repeat(rng.permutation(list(preds.MARGINAL))[:2], twins):
        kw = preds.gen_predictive(name, alike if rng.integers(2) else gen.Layout(rng))
        f = getattr(M, name)
        ops.append(Op(name, lambda f=f, k=kw: f(**k), [kw]))
        try:
            ops += value_ops(f(**kw), rng, name)
        except Exception:
            pass
    for name in np.repeat(rng.permutation(list(dists.REFS))[: -(-univariate // twins)], twins):
        ref = dists.REFS[name]
        kw = ref.gen(gen.Layout(rng, ["vec", "npscalar", "bcast"][rng.integers(3)]))
        if name == "Hypergeometric":
            kw["n"] = np.maximum(kw["n"], 1)
        if name == "NegativeBinomial":
            kw["p"] = np.maximum(kw["p"], 1e-6)
        d = ref.make(D, kw)
        ops += value_ops(d, rng)
        shape = ref.shape(ref.params(d))
        size, state = (5,) + shape, seeded(rng)
        ops.append(Op(name + ".rvs", lambda d=d, s=size, st=state: d.dist.rvs(size=s, random_state=st()), [d]))
        if all(np.shape(getattr(d, k)) in ((), shape) for k in ref.fields) and shape:
            key = [0, -1, slice(None, None, -1), [0, -1]][rng.integers(4)]
            ops.append(Op(name + " indexed", lambda d=d, k=key: d[k], [d]))
            if not isinstance(key, int):
                ops.append(
                    Op(name + " indexed twice", lambda d=d, k=key: d[k][0], [d])
                )
    # arithmetic
    k = rng.integers(1, 5, size=3)
    for d in (
        D.Poisson(rng.gamma(2.0, size=3)), D.Gamma(rng.gamma(2.0, size=3), 2.0), D.Exponential(rng.gamma(2.0, size=3)),
        D.NegativeBinomial(rng.integers(1, 9, size=3), 0.4), D.Normal(rng.normal(size=3), 1.5),
    ):
        ops.append(Op(type(d).__name__ + " times", lambda d=d, k=k: d * k, [d, k]))
        ops.append(Op("times " + type(d).__name__, lambda d=d: 3 * d, [d]))
    a, b = D.Poisson(rng.gamma(2.0, size=3)), D.Poisson(1.5)
    ops.append(Op("Poisson sum", lambda: a + b, [a, b]))
    # several dimensions
    for _ in range(2):
        ops += joint_ops(rng)
    return ops


def joint_ops(rng):
    from conjugate import distributions as D
    from conjugate import models as M

    ops = []
    p = int(rng.integers(1, 5))
    mu, m1, m2 = rng.normal(size=p), gen.spd(rng, p, 1.0), gen.spd(rng, p, 1.0)
    al, be = float(rng.gamma(2) + 0.5), float(rng.gamma(2) + 0.5)
    X = rng.normal(size=(3, p))
    mvn, mvt = D.MultivariateNormal(mu, m1), D.MultivariateStudentT(mu, m1, 3.5)
    niw = D.NormalInverseWishart(mu=mu, kappa=1.5, nu=p + 2.0, psi=m1)
    nig = D.NormalInverseGamma(mu=mu, alpha=al, beta=be, delta_inverse=m1)
    dirichlet = D.Dirichlet(rng.gamma(2.0, size=(2, p + 1)) + 0.3)
    ops += [
        Op("MVN density", lambda: mvn.dist.logpdf(X), [mvn, X]),
        Op("MVT density", lambda: mvt.dist.logpdf(X), [mvt, X]),
        Op("MVN coordinate", lambda: mvn[0], [mvn]),
        Op("MVT coordinates", lambda: mvt[[0, -1]], [mvt]),
        Op("MVN predictive", lambda: M.multivariate_normal_known_covariance_predictive(distribution=mvn, cov=m2), [mvn, m2]),
        Op("MVN precision predictive", lambda: M.multivariate_normal_known_precision_predictive(distribution=mvn, precision=m2), [mvn, m2]),
        Op("NIW predictive", lambda: M.multivariate_normal_predictive(distribution=niw), [niw]),
        Op("regression predictive", lambda: M.linear_regression_predictive(distribution=nig, X=X), [nig, X]),
        Op("Dirichlet mean", lambda: dirichlet.dist.mean(), [dirichlet]),
        Op("categorical predictive", lambda: M.categorical_dirichlet_predictive(distribution=dirichlet), [dirichlet]),
    ]
    s1, s2 = seeded(rng), seeded(rng)
    joint = [
        nig, niw,
        D.NormalInverseGamma(mu=0.5, alpha=al, beta=be, nu=2.0),
        D.NormalGamma(mu=0.5, lam=2.0, alpha=al, beta=be),
        D.NormalWishart(mu=mu, lam=1.5, W=m1, nu=p + 2.0),
    ]
    for d in joint:
        name = type(d).__name__
        ops.append(Op(name + ".sample_variance", lambda d=d, s=s1: d.sample_variance(4, random_state=s()), [d]))
        ops.append(Op(name + ".sample_mean", lambda d=d, s=s2: d.sample_mean(4, return_variance=True, random_state=s()), [d]))
    ops.append(Op("Dirichlet.rvs", lambda s=s1: dirichlet.dist.rvs(size=4, random_state=s()), [dirichlet]))
    # likelihoods known up to a constant
    v = rng.gamma(2.0, size=3) + 0.1
    for d, run in [
        (D.GammaKnownRateProportional(v, 2.0, 3.0), lambda d: d.approx_log_likelihood(alpha=v, beta=2.0)),
        (D.GammaProportional(v, 2.0, 3.0, 1.0), lambda d: d.approx_log_likelihood(alpha=v, beta=2.0)),
        (D.BetaProportional(v, 2.0, 3.0), lambda d: d.approx_log_likelihood(alpha=v, beta=2.0)),
        (D.VonMisesKnownConcentration(v, 2.0), lambda d: d.log_likelihood(mu=v)),
        (D.VonMisesKnownDirectionProportional(v, 2.0), lambda d: d.approx_log_likelihood(kappa=v)),
    ]:
        ops.append(Op(type(d).__name__ + " likelihood", lambda d=d, r=run: r(d), [d, v]))
    # constructors
    ops += [
        Op("Beta.from_mean", lambda: D.Beta.from_mean(mean=v / 99, alpha=v), [v]),
        Op("Normal.from_mean_and_variance", lambda: D.Normal.from_mean_and_variance(mean=v, variance=v), [v]),
        Op("ScaledInverseChiSquared.from_inverse_gamma", lambda: D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(v, 2.0)), [v]),
        Op("to_inverse_gamma", lambda: D.ScaledInverseChiSquared(v, 2.0).to_inverse_gamma(), [v]),
    ]
    return ops
