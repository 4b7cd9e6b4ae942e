"""Monitors of side effects and of copies (properties "C23", "C34")."""

import copy
import dataclasses
import inspect
import pickle
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

from conjugate import distributions as D
from conjugate import models as M

from vmon import dists, gen, hist, preds, session
from vmon.core import rule, unit

rule(
    "C23",
    "Random sessions of about a hundred operations of every kind (models, predictives, "
    "densities, samples, indexing, arithmetic, plots) with fingerprints of all arguments and of "
    "global state before and after each; repetition of the operations in other orders; changes "
    "of every parameter of every class; changes of arrays after updates; a case is one "
    "operation or one change; distinct by its arguments.",
)
rule(
    "C34",
    "Every class with random scalar and array parameters, with and without bounds that were set, "
    "taken through copy, deepcopy, pickle protocols, replace and rebuilding; a case is one "
    "distribution with one way of copying; distinct by both.",
)


# ------------------------------------------------------------ side effects
def world():
    """Global state that no call should touch."""
    return (
        np.random.get_state()[1].tobytes(),
        np.random.get_state()[2:],
        tuple(sorted(np.geterr().items())),
        repr(np.get_printoptions()),
        repr(warnings.filters),
        hash(repr(sorted(matplotlib.rcParams.items(), key=lambda kv: kv[0]))),
    )


def drawn(ax):
    """Everything that a plot has put on the axes."""
    return session.encode(
        [
            [np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), ln.get_label(), str(ln.get_color())]
            for ln in ax.lines
        ]
    )


def plot_op(d, rng, ref):
    p = ref.params(d)
    entry = ["plot_pmf" if ref.discrete else "plot_pdf", "plot_cdf"][rng.integers(2)]
    kw = {}
    if rng.integers(2):
        kw["label"] = ["name", lambda i: f"n{i}"][rng.integers(2)]
    if rng.integers(2):
        kw["color"] = ["red", (0.1, 0.2, 0.3), ["red", "blue", "green", "black"]][rng.integers(3)]
    if ref.discrete and rng.integers(2):
        kw["conditional"] = True
    lo, hi = (0, 12) if ref.discrete else (0.5, 7.0)

    def run():
        fig, ax = plt.subplots()
        try:
            d.set_bounds(lo, hi)
            getattr(d, entry)(ax=ax, **kw)
            return drawn(ax)
        finally:
            plt.close(fig)

    del p
    d.set_bounds(lo, hi)
    return session.Op(f"{ref.name}.{entry}", run, [d, {k: v for k, v in kw.items() if not callable(v)}])


def with_plots(rng):
    ops = session.build(rng, stories=12, univariate=12)
    for name in rng.permutation(list(dists.REFS))[:6]:
        ref = dists.REFS[name]
        kw = ref.gen(gen.Layout(rng, ["vec", "pyscalar"][rng.integers(2)]))
        ops.append(plot_op(ref.make(D, kw), rng, ref))
    return ops


@unit("C23", quick=24, weight=2)
def sessions(ctx):
    rng = ctx.rng
    ops = with_plots(rng)
    images = [session.encode(op.inputs) for op in ops]
    first = {}
    order = rng.permutation(len(ops))
    for i in order:
        op = ops[i]
        with np.errstate(all="warn"):
            before = world()
            got = session.encode(ctx.call(op.run))
            after = world()
        ctx.case(op.name, hash(images[i]), sample=(op.name, op.inputs))
        ctx.ok(after == before, f"{op.name}: global state changed", inputs=op.inputs)
        ctx.ok(session.encode(op.inputs) == images[i], f"{op.name}: an argument changed", inputs=op.inputs)
        first[i] = got
        ctx.event("fingerprints")
    # the same operations after other histories
    for i in rng.permutation(len(ops)):
        op = ops[i]
        got = session.encode(ctx.call(op.run))
        ctx.ok(
            got == first[i], f"{op.name}: another result after other calls", inputs=op.inputs,
            first=first[i], later=got,
        )
    for op, image in zip(ops, images):
        ctx.ok(session.encode(op.inputs) == image, f"{op.name}: an argument changed later", inputs=op.inputs)


@unit("C23", quick=24)
def results_are_independent_objects(ctx):
    """Changing a returned posterior in place leaves prior and data alone, and the reverse."""
    rng = ctx.rng
    for story in hist.ALL:
        L, prior, fixed, shape = hist.begin(story, rng, "vec" if rng.integers(2) else None)
        x = story.draw(rng, gen.few(rng, 1, 8, 80) if rng.integers(3) else 0, shape, fixed)
        kw = story.kwargs(x, fixed)
        kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
        f = getattr(M, story.model)
        post = ctx.call(f, prior=prior, **kw)
        image = session.encode(post)
        ctx.case(story.name, gen.key_of(prior=prior, **kw), sample=(story.name, prior, kw))
        again = ctx.call(f, prior=prior, **kw)
        spoil(post)
        ctx.ok(
            session.encode(ctx.call(f, prior=prior, **kw)) == image,
            f"{story.name}: changing a posterior changes what it was computed from", prior=prior, data=kw,
        )
        for v in list(kw.values()):
            if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v += 1
                ctx.event("arrays changed")
        spoil(prior)
        ctx.ok(
            session.encode(again) == image,
            f"{story.name}: changing data or prior afterwards changed the posterior", prior=prior, data=kw,
        )
    for name, make in CONSTRUCTED.items():
        a, b = ctx.call(make), ctx.call(make)
        image = session.encode(b)
        if hasattr(a, "set_bounds"):
            ctx.call(a.set_bounds, -7, 7)
        spoil(a)
        ctx.ok(session.encode(b) == image, f"{name}: changing a result changes an earlier one")
        ctx.ok(session.encode(ctx.call(make)) == image, f"{name}: changing a result changes a later one")
    n = rng.integers(3, 30, size=3)
    prior = D.BetaBinomial(n=n, alpha=rng.gamma(2.0, size=3), beta=1.5)
    x = np.array([1, 0, 2])
    post = ctx.call(M.hypergeometric_beta_binomial, x_total=x, n=n.copy(), prior=prior)
    image = session.encode(post)
    spoil(prior)
    x += 1
    ctx.ok(session.encode(post) == image, "hypergeometric: changing data or prior afterwards changed the posterior")


CONSTRUCTED = {
    "Beta.uninformative": lambda: D.Beta.uninformative(),
    "Beta.from_mean": lambda: D.Beta.from_mean(mean=0.25, alpha=2),
    "Beta.from_successes_and_failures": lambda: D.Beta.from_successes_and_failures(3, 4),
    "Dirichlet.uninformative": lambda: D.Dirichlet.uninformative(3),
    "Gamma.from_occurrences_in_intervals": lambda: D.Gamma.from_occurrences_in_intervals(3, 4),
    "Normal.uninformative": lambda: D.Normal.uninformative(),
    "Normal.uninformative(3)": lambda: D.Normal.uninformative(3),
    "Normal.from_mean_and_variance": lambda: D.Normal.from_mean_and_variance(1, 4),
    "Normal.from_mean_and_precision": lambda: D.Normal.from_mean_and_precision(1.0, 4.0),
    "to_inverse_gamma": lambda: D.ScaledInverseChiSquared(3.0, 2.0).to_inverse_gamma(),
    "from_inverse_gamma": lambda: D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(3.0, 2.0)),
}


def spoil(d):
    for k in d.__dataclass_fields__:
        v = getattr(d, k)
        if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
            v += 1
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            setattr(d, k, v + 1)


def everything(d, ref, x, rng_seed):
    """What a distribution computes, exactly."""
    out = [d.dist.pmf(x) if ref.discrete else d.dist.pdf(x), d.dist.cdf(x)]
    shape = ref.shape(ref.params(d))
    out.append(d.dist.rvs(size=(3,) + shape, random_state=rng_seed))
    fig, ax = plt.subplots()
    try:
        d.plot_cdf(ax=ax)
        out.append(drawn(ax))
    finally:
        plt.close(fig)
    if isinstance(d, D.InverseGamma):
        other = D.ScaledInverseChiSquared.from_inverse_gamma(d)
        out += [other, other.to_inverse_gamma(), D.NormalInverseGamma.from_inverse_gamma(0.0, d, nu=1.0)]
    if isinstance(d, D.ScaledInverseChiSquared):
        out += [d.to_inverse_gamma(), D.ScaledInverseChiSquared.from_inverse_gamma(d.to_inverse_gamma())]
    if isinstance(d, (D.Poisson, D.Gamma, D.NegativeBinomial, D.Normal)):
        out.append(d * 2)
    if isinstance(d, D.Poisson):
        out.append(d + d)
    out += [repr(d), copy.copy(d), copy.deepcopy(d)]
    if shape and all(np.shape(getattr(d, k)) == shape for k in ref.fields if k != "one_start"):
        out.append(d[-1])
        out.append(d[-1].dist.cdf(x[..., -1]))
    return session.encode(out)


def sampleable(name, L):
    kw = dists.REFS[name].gen(L)
    if name == "Hypergeometric":
        kw["n"] = L.wrap(np.maximum(kw["n"], 1))
    if name == "NegativeBinomial":
        kw["p"] = L.wrap(np.maximum(kw["p"], 1e-6))
    return kw


NATURAL = ("Binomial", "Hypergeometric", "BetaBinomial", "BetaNegativeBinomial", "Uniform", "Beta", "VonMises")


@unit("C23", quick=24)
def distributions_are_live(ctx):
    rng = ctx.rng
    for name, ref in dists.REFS.items():
        L = gen.Layout(rng, ["vec", "pyscalar", "npscalar"][rng.integers(3)])
        L.shapes = L.shapes[:1]
        old, new = sampleable(name, L), sampleable(name, L)
        d = ref.make(D, dict(old))
        fresh_of = lambda kw: ref.make(D, {k: copy.deepcopy(v) for k, v in kw.items()})  # noqa: E731
        if name not in NATURAL:
            bounds = (0.25, 9.0) if not ref.discrete else (0, 9)
            d.set_bounds(*bounds)
        now = dict(old)
        names = [k for k in new]
        all_of_them = name in ("Hypergeometric", "Uniform") or rng.integers(3) == 0
        changed = names if all_of_them else [names[rng.integers(len(names))]]
        rng_seed = int(rng.integers(2**31))
        p = ref.params(d)
        x = session.points(ref, p, rng)
        everything(d, ref, x, rng_seed)  # whatever it may remember
        for k in changed:
            v = new[k]
            now[k] = v
            here = getattr(d, k)
            if isinstance(here, np.ndarray) and here.flags.writeable and here.dtype == np.asarray(v).dtype and rng.integers(2):
                here[...] = v
                ctx.event("in place")
            else:
                setattr(d, k, copy.deepcopy(v))
                ctx.event("assigned")
        fresh = fresh_of(now)
        if name not in NATURAL:
            fresh.set_bounds(*bounds)
        if name == "BetaBinomial" or name == "Hypergeometric" or name == "Binomial":
            x = session.points(ref, ref.params(fresh), rng)
        ctx.case(name, gen.key_of(**old), gen.key_of(**new), repr(changed), sample=(d, changed))
        got = ctx.call(everything, d, ref, x, rng_seed)
        want = ctx.call(everything, fresh, ref, x, rng_seed)
        ctx.ok(
            got == want, f"{name}: after changing {changed} it does not behave like a new one",
            d=d, was=old, got=got, want=want,
        )


@unit("C23", quick=24)
def posteriors_follow_live_priors(ctx):
    rng = ctx.rng
    for story in hist.ALL:
        L, prior, fixed, shape = hist.begin(story, rng)
        x = story.draw(rng, gen.few(rng, 1, 8, 80), shape, fixed)
        kw = story.kwargs(x, fixed)
        f = getattr(M, story.model)
        ctx.call(f, prior=prior, **kw)
        fields = [k for k in prior.__dataclass_fields__ if getattr(prior, k) is not None]
        k = fields[rng.integers(len(fields))]
        v = getattr(prior, k)
        if isinstance(v, np.ndarray) and v.flags.writeable and np.issubdtype(v.dtype, np.floating) and rng.integers(2):
            v *= 1.5
        else:
            setattr(prior, k, v * 2)
        ctx.case(story.name, gen.key_of(prior=prior, **kw), k, sample=(story.name, prior, k))
        fresh = type(prior)(**{c: copy.deepcopy(getattr(prior, c)) for c in prior.__dataclass_fields__})
        got, want = ctx.call(f, prior=prior, **kw), ctx.call(f, prior=fresh, **kw)
        ctx.ok(
            session.encode(got) == session.encode(want),
            f"{story.name}: the posterior does not follow a change of the prior's {k}", prior=prior, data=kw,
            got=got, want=want,
        )
    for name in preds.MARGINAL:
        kw = preds.gen_predictive(name, gen.Layout(rng))
        d = kw["distribution"]
        f = getattr(M, name)
        ctx.call(f, **kw)
        fields = [k for k in d.__dataclass_fields__ if getattr(d, k) is not None]
        k = fields[rng.integers(len(fields))]
        setattr(d, k, getattr(d, k) * 2)
        fresh = dict(kw, distribution=type(d)(**{c: copy.deepcopy(getattr(d, c)) for c in d.__dataclass_fields__}))
        got, want = ctx.call(f, **kw), ctx.call(f, **fresh)
        ctx.ok(
            session.encode(got) == session.encode(want),
            f"{name}: the predictive does not follow a change of {k}", kwargs=kw, got=got, want=want,
        )


@unit("C23", quick=24)
def composed_distributions_are_live(ctx):
    """Distributions made of others, and samplers, use the present parameters."""
    rng = ctx.rng
    p = int(rng.integers(1, 4))
    mu, m1 = rng.normal(size=p), gen.spd(rng, p, 1.0)
    al, be = float(rng.gamma(2) + 0.5), float(rng.gamma(2) + 0.5)
    seed = int(rng.integers(2**31))

    def sample(d):
        return session.encode(d.sample_mean(5, return_variance=True, random_state=seed))

    def density(d):
        x = np.linspace(-1, 1, 2 * p).reshape(2, p)
        return session.encode([d.dist.logpdf(x), d.dist.rvs(size=3, random_state=seed), d[0], d[[0]]])

    def matrix(d):
        return session.encode([d.dist.rvs(size=3, random_state=seed)])

    def simplex(d):
        return session.encode([d.dist.mean(), d.dist.rvs(size=3, random_state=seed)])

    for d, run in [
        (D.NormalInverseGamma(mu=0.5, alpha=al, beta=be, nu=2.0), sample),
        (D.NormalInverseGamma(mu=mu.copy(), alpha=al, beta=be, delta_inverse=m1.copy()), sample),
        (D.NormalGamma(mu=0.5, lam=2.0, alpha=al, beta=be), sample),
        (D.NormalInverseWishart(mu=mu.copy(), kappa=1.5, nu=p + 2.0, psi=m1.copy()), sample),
        (D.NormalWishart(mu=mu.copy(), lam=1.5, W=m1.copy(), nu=p + 2.0), sample),
        (D.MultivariateNormal(mu.copy(), m1.copy()), density),
        (D.MultivariateStudentT(mu.copy(), m1.copy(), 3.5), density),
        (D.InverseWishart(p + 2.0, m1.copy()), matrix),
        (D.Wishart(p + 2.0, m1.copy()), matrix),
        (D.Dirichlet(rng.gamma(2.0, size=p + 1) + 0.3), simplex),
        (D.Dirichlet(rng.gamma(2.0, size=(2, p + 1)) + 0.3), simplex),
    ]:
        ctx.call(run, d)
        fields = [k for k in d.__dataclass_fields__ if getattr(d, k) is not None]
        k = fields[rng.integers(len(fields))]
        v = getattr(d, k)
        if isinstance(v, np.ndarray) and v.flags.writeable and rng.integers(2):
            v *= 1.5
        else:
            setattr(d, k, v * 1.5)
        fresh = type(d)(**{c: copy.deepcopy(getattr(d, c)) for c in d.__dataclass_fields__})
        ctx.case(type(d).__name__, k, gen.key_of(d=d), sample=(d, k))
        ctx.ok(
            ctx.call(run, d) == ctx.call(run, fresh),
            f"{type(d).__name__}: after changing {k} it does not behave like a new one", d=d,
        )


# ------------------------------------------------------------------ copies
class MyGamma(D.Gamma):
    """A subclass as users write them."""


def zoo(rng):
    """(distribution, reference or None) of every class."""
    out = []
    for name, ref in dists.REFS.items():
        kw = sampleable(name, gen.Layout(rng))
        out.append((ref.make(D, kw), ref))
    v = lambda *s: rng.gamma(2.0, size=s) + 0.2  # noqa: E731
    p = int(rng.integers(2, 5))
    mu, m = rng.normal(size=p), gen.spd(rng, p, 1.0)
    out.append((MyGamma(2.5, 1.5), dists.REFS["Gamma"]))
    for d in [
        D.Dirichlet(v(p)), D.Dirichlet(v(p).tolist()), D.Dirichlet(v(2, p)), D.Multinomial(n=7, p=np.ones(p) / p),
        D.DirichletMultinomial(alpha=v(p), n=4), D.MultivariateNormal(mu, m), D.MultivariateStudentT(mu, m, 3.5),
        D.InverseWishart(p + 1.5, m), D.Wishart(p + 1.5, m),
        D.NormalInverseGamma(mu=0.5, alpha=1.5, beta=2.5, nu=3.5), D.NormalInverseGamma(mu=mu, alpha=1.5, beta=2.5, delta_inverse=m),
        D.NormalGamma(0.5, 1.5, 2.5, 3.5), D.NormalInverseWishart(mu, 1.5, p + 2.5, m), D.NormalWishart(mu, 1.5, m, p + 2.5),
        D.GammaKnownRateProportional(1.5, 2.5, 3.5), D.GammaProportional(1.5, 2.5, 3.5, 4.5), D.BetaProportional(0.5, 0.25, 3.5),
        D.VonMisesKnownConcentration(1.5, 2.5), D.VonMisesKnownDirectionProportional(2.5, 1.5),
    ]:
        out.append((d, None))
    return out


def fields_of(d):
    return {k: getattr(d, k) for k in d.__dataclass_fields__}


def params_image(d):
    return session.encode(fields_of(d))


WAYS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    **{f"pickle {i}": (lambda d, i=i: pickle.loads(pickle.dumps(d, protocol=i))) for i in range(pickle.HIGHEST_PROTOCOL + 1)},
    "replace": dataclasses.replace,
    "vars": lambda d: type(d)(**fields_of(d)),
    "asdict": lambda d: type(d)(**dataclasses.asdict(d)),
    "positional": lambda d: type(d)(*fields_of(d).values()),
    "params": lambda d: type(d)(**d.params),
}
KEEPS_BOUNDS = ("copy", "deepcopy", "pickle")


def bounds_of(d):
    out = []
    for k in ("min_value", "max_value"):
        try:
            v = getattr(d, k)
        except ValueError:
            out.append("unset")
        except AttributeError:
            out.append("none")
        else:
            out.append(float(v))
    return out


@unit("C34", quick=32)
def copies(ctx):
    rng = ctx.rng
    ways = list(WAYS)
    for d, ref in zoo(rng):
        name = type(d).__name__
        way = ways[rng.integers(len(ways))]
        if way == "params" and not hasattr(d, "params"):
            way = "vars"
        keeps = way.startswith(KEEPS_BOUNDS)
        natural = bounds_of(d)
        if ref is not None and rng.integers(2):
            lo, hi = [(1.5, 4.25), (0.0, 4.25), (0, 4.25), (-3.5, 0.0), (-2, 3)][rng.integers(5)]
            if ref.discrete:
                lo, hi = [(1, 4), (0, 4), (0.0, 3.0), (-3, 0)][rng.integers(4)]
            change = rng.integers(4)
            if change == 0 and lo <= 0:
                d.set_min_value(lo)
            elif change == 1 and hi > 0:
                d.set_max_value(10 * hi)
            else:
                d.set_bounds(lo, hi)
            if "unset" not in bounds_of(d) and rng.integers(2) and len(ref.shape(ref.params(d))) < 2:  # that may be remembered
                fig, ax = plt.subplots()
                ctx.call(d.plot_cdf, ax=ax)
                plt.close(fig)
        image, own = params_image(d), bounds_of(d)
        c = ctx.call(WAYS[way], d)
        ctx.case(name, way, gen.key_of(d=d), sample=(d, way))
        ctx.event("way " + way)
        ctx.ok(type(c) is type(d) and c is not d, f"{name}: {way} gives a {type(c).__name__}", d=d)
        ctx.ok(params_image(c) == image, f"{name}: {way} changes parameters", d=d, copy=c)
        ctx.ok(params_image(d) == image and bounds_of(d) == own, f"{name}: {way} changes the original", d=d)
        want = own if keeps else natural
        ctx.ok(bounds_of(c) == want, f"{name}: {way} has bounds {bounds_of(c)} instead of {want}", d=d)
        seed = int(rng.integers(2**31))
        if ref is not None:
            x = session.points(ref, ref.params(d), rng)
            shape = ref.shape(ref.params(d))

            def values(v):
                return session.encode(
                    [v.dist.pmf(x) if ref.discrete else v.dist.pdf(x), v.dist.cdf(x), v.dist.rvs(size=(3,) + shape, random_state=seed)]
                )

            ctx.ok(ctx.call(values, d) == ctx.call(values, c), f"{name}: {way} has another density or samples", d=d)
            if "unset" not in want and want == own and len(shape) < 2:

                def plotted(v):
                    fig, ax = plt.subplots()
                    try:
                        v.plot_cdf(ax=ax)
                        return drawn(ax)
                    finally:
                        plt.close(fig)

                ctx.ok(ctx.call(plotted, d) == ctx.call(plotted, c), f"{name}: {way} plots differently", d=d)
        elif hasattr(d, "sample_mean"):
            a, b = (ctx.call(v.sample_mean, 4, return_variance=True, random_state=seed) for v in (d, c))
            ctx.ok(session.encode(a) == session.encode(b), f"{name}: {way} samples differently", d=d)
        # independence of what does not share arrays
        if way == "deepcopy" or way.startswith("pickle"):
            spoil(c)
            ctx.ok(params_image(d) == image, f"{name}: changing a {way} changes the original", d=d)
            if ref is not None:
                c.set_bounds(0, 1)
                ctx.ok(bounds_of(d) == own, f"{name}: bounds of a {way} change the original", d=d)


def behaviour(d, ref, seed, x):
    """What a distribution does, exactly."""
    if ref is not None:
        shape = ref.shape(ref.params(d))
        out = [d.dist.pmf(x) if ref.discrete else d.dist.pdf(x), d.dist.cdf(x)]
        out.append(d.dist.rvs(size=(3,) + shape, random_state=seed))
        if len(shape) < 2:
            d.set_bounds(1, 4)
            fig, ax = plt.subplots()
            d.plot_cdf(ax=ax)
            out.append(drawn(ax))
            plt.close(fig)
        return session.encode(out)
    out = []
    if hasattr(d, "sample_mean"):
        out.append(d.sample_mean(4, return_variance=True, random_state=seed))
    for k in ("log_likelihood", "approx_log_likelihood"):
        if hasattr(d, k):
            f = getattr(d, k)
            inputs = [q for q in inspect.signature(f).parameters.values() if q.default is q.empty]
            out.append(f(*(np.linspace(0.1, 0.9, 5) for _ in inputs)))
    if hasattr(d, "dist") and type(d).__name__ != "DirichletMultinomial":
        out.append(d.dist.rvs(size=3, random_state=seed))
    return session.encode(out)


@unit("C34", quick=16)
def copies_live_on(ctx):
    """A copy whose parameters are changed behaves like a new distribution, and its original as before."""
    rng = ctx.rng
    ways = list(WAYS)
    for d, ref in zoo(rng):
        name = type(d).__name__
        way = ways[rng.integers(len(ways))]
        if way == "params" and not hasattr(d, "params"):
            way = "vars"
        seed = int(rng.integers(2**31))
        x = np.linspace(0.1, 0.9, 5) if ref is None else session.points(ref, ref.params(d), rng)
        if rng.integers(2):
            ctx.call(behaviour, d, ref, seed, x)  # whatever it may remember
        c = ctx.call(WAYS[way], d)
        if ref is not None:
            if ref.discrete:
                changes = {k: copy.deepcopy(v) for k, v in sampleable(name.replace("My", ""), gen.Layout(rng, "pyscalar")).items()}
            else:
                k = ref.fields[rng.integers(len(ref.fields))]
                changes = {k: getattr(d, k) * 1.5}
                if name == "Uniform":
                    changes = dict(high=d.high + 1.5)
                elif name in ("VonMises",) and k == "mu":
                    changes = dict(mu=d.mu * 0.5)
            if ref.discrete:
                x = np.arange(5)[(...,) + (None,) * len(ref.shape(ref.params(d)))]
        else:
            fields = [k for k, v in fields_of(d).items() if v is not None and k not in ("n", "p")]
            if not fields:
                continue
            k = fields[rng.integers(len(fields))]
            v = getattr(d, k)
            changes = {k: [w * 1.5 for w in v] if isinstance(v, list) else v * 1.5}
        before = ctx.call(behaviour, copy.deepcopy(d), ref, seed, x)
        for k, v in changes.items():
            setattr(c, k, v)
        ctx.case(name, way, gen.key_of(d=d), repr(changes), sample=(d, way, changes))
        fresh = type(d)(**{k: copy.deepcopy(v) for k, v in dict(fields_of(d), **changes).items()})
        got, want = ctx.call(behaviour, c, ref, seed, x), ctx.call(behaviour, fresh, ref, seed, x)
        ctx.ok(got == want, f"{name}: a {way} whose {list(changes)} changed does not behave like a new one", d=d, changes=changes, got=got, want=want)
        ctx.ok(
            ctx.call(behaviour, d, ref, seed, x) == before,
            f"{name}: changing {list(changes)} of a {way} changes the original", d=d, changes=changes,
        )


@unit("C34", quick=16)
def copies_in_models(ctx):
    rng = ctx.rng
    ways = list(WAYS)
    for story in hist.ALL:
        L, prior, fixed, shape = hist.begin(story, rng)
        x = story.draw(rng, gen.few(rng, 1, 8, 80), shape, fixed)
        kw = story.kwargs(x, fixed)
        f = getattr(M, story.model)
        way = ways[rng.integers(len(ways))]
        if way == "params" and not hasattr(prior, "params"):
            way = "asdict"
        ctx.case(story.name, way, gen.key_of(prior=prior, **kw), sample=(story.name, prior, way))
        post = ctx.call(f, prior=prior, **kw)
        other = ctx.call(f, prior=ctx.call(WAYS[way], prior), **kw)
        ctx.ok(session.encode(post) == session.encode(other), f"{story.name}: {way} of the prior gives another posterior", prior=prior)
        # and on with a copy of the posterior
        a = ctx.call(f, prior=post, **kw)
        b = ctx.call(f, prior=ctx.call(WAYS[way], post), **kw)
        ctx.ok(session.encode(a) == session.encode(b), f"{story.name}: {way} of the posterior gives another update", prior=post)
    for name in preds.MARGINAL:
        kw = preds.gen_predictive(name, gen.Layout(rng))
        way = ways[rng.integers(len(ways))]
        if way == "params" and not hasattr(kw["distribution"], "params"):
            way = "asdict"
        f = getattr(M, name)
        a = ctx.call(f, **kw)
        b = ctx.call(f, **dict(kw, distribution=ctx.call(WAYS[way], kw["distribution"])))
        ctx.ok(session.encode(a) == session.encode(b), f"{name}: {way} gives another predictive", kwargs=kw)


def scalar_zoo(rng):
    out = []
    for name, ref in dists.REFS.items():
        kw = ref.gen(gen.Layout(rng, "pyscalar"))
        out.append(ref.make(D, kw))
    v = lambda: float(rng.gamma(2.0) + 0.2)  # noqa: E731
    out += [
        D.NormalInverseGamma(mu=v(), alpha=v(), beta=v(), nu=v()), D.NormalGamma(v(), v(), v(), v()),
        D.GammaKnownRateProportional(v(), v(), v()), D.GammaProportional(v(), v(), v(), v()),
        D.BetaProportional(v(), v(), v()), D.VonMisesKnownConcentration(v(), v()),
        D.VonMisesKnownDirectionProportional(v(), v()),
    ]
    return out


@unit("C34", quick=24)
def equality_and_representation(ctx):
    rng = ctx.rng
    space = {k: getattr(D, k) for k in dir(D) if not k.startswith("_")}
    everyone = scalar_zoo(rng)
    v = lambda: float(rng.gamma(2.0) + 0.2)  # noqa: E731
    everyone += [
        cls(*[v() for _ in cls.__dataclass_fields__])
        for cls in (
            D.Dirichlet, D.Multinomial, D.DirichletMultinomial, D.MultivariateNormal, D.MultivariateStudentT,
            D.Wishart, D.InverseWishart, D.NormalWishart, D.NormalInverseWishart,
        )
    ]
    for d in everyone:
        name = type(d).__name__
        other = type(d)(**fields_of(d))
        ctx.case(name, repr(d), sample=d)
        ctx.ok((d == other) is True and (d != other) is False, f"{name}: not equal to its copy", d=d)
        text = repr(d)
        ctx.ok(repr(other) == text, f"{name}: representations of equals differ", d=d)
        try:
            back = eval(text, dict(space))
        except Exception as e:
            ctx.fail(f"{name}: its representation {text} cannot be read: {e}")
            continue
        ctx.ok(back == d and params_image(back) == params_image(d), f"{name}: reading {text} gives {back}")
        k = list(fields_of(d))[rng.integers(len(fields_of(d)))]
        v = getattr(d, k)
        if v is None:
            continue
        changed = type(d)(**dict(fields_of(d), **{k: (not v) if isinstance(v, bool) else v + 0.75 * abs(v) + 1}))
        ctx.ok((d == changed) is False and repr(changed) != text, f"{name}: equal to one with another {k}", d=d)
        stranger = everyone[rng.integers(len(everyone))]
        if type(stranger) is not type(d):
            ctx.ok((d == stranger) is False, f"{name}: equal to a {type(stranger).__name__}", d=d, other=stranger)
        ctx.ok((d == 1) is False and (d == None) is False, f"{name}: equal to something else", d=d)  # noqa: E711
        d2 = copy.deepcopy(d)
        setattr(d2, k, (not v) if isinstance(v, bool) else v + 0.75 * abs(v) + 1)
        ctx.ok(d2 != d and d2 == changed and repr(d2) == repr(changed), f"{name}: equality ignores a change", d=d)
    # same numbers, different classes
    a, b = 1.5, 2.5
    same = [D.Beta(a, b), D.Gamma(a, b), D.Normal(a, b), D.InverseGamma(a, b), D.Lomax(a, b), D.Pareto(a, b), D.Weibull(a, b), D.LogNormal(a, b)]
    for i, x in enumerate(same):
        for j, y in enumerate(same):
            ctx.ok((x == y) is (i == j), f"{x} == {y} is {x == y}")
