"""Monitors of histories of updates (properties "C10", "C31")."""

import numpy as np

from conjugate import distributions as D
from conjugate import models as M

from vmon import gen, hist
from vmon.core import rule, unit

rule(
    "C10",
    "Random raw data cut into random batches (empty, of one, of any size) in random order for "
    "every model, with scalar, vector and broadcast parameters; the final posterior is compared "
    "with the one of a single update; a case is one history; distinct by prior, data and cuts.",
    ["rounding up to 1e-8 of the largest parameter of its kind"],
)


def same(a, b, scale=0.0, rtol=1e-8):
    a, b = hist.parameters(a), hist.parameters(b)
    if a.keys() != b.keys():
        return f"parameters {sorted(a)} and {sorted(b)}"
    for k in a:
        try:
            x, y = np.broadcast_arrays(a[k], b[k])
        except ValueError:
            return f"{k}: shapes {a[k].shape} and {b[k].shape}"
        lim = rtol * (np.max(abs(x), initial=0) if x.ndim == 2 else abs(x)) + 1e-10 * scale + 1e-300
        if k in ("mu", "a cos b", "a sin b", "psi", "delta_inverse", "cov"):
            lim = lim + rtol
        bad = ~(abs(x - y) <= lim)
        if np.any(bad):
            return f"{k}: {x[bad][:3]} and {y[bad][:3]}"
    return None


def scale_of(x, prior):
    """Size of the sums of squares that the update subtracts."""
    scale = float(np.sum(np.asarray(x, float) ** 2)) if np.size(x) else 0.0
    weight = getattr(prior, "nu", None)
    weight = getattr(prior, "lam", 1.0) if weight is None else weight
    mu = getattr(prior, "mu", 0.0)
    return scale + float(np.max(np.square(hist.f(mu)))) * float(np.max(weight))


def replay(ctx, story, prior, fixed, x, batches):
    d = prior
    for lo, hi in batches:
        kw = story.kwargs(x[lo:hi], fixed)
        d = ctx.call(getattr(M, story.model), prior=d, **kw)
        ctx.event(f"updates {story.name}")
    return d


def histories(ctx, stories):
    rng = ctx.rng
    for story in stories:
        L, prior, fixed, shape = hist.begin(story, rng)
        size = int(rng.integers(0, 25)) if rng.integers(8) else round(np.exp(rng.uniform(4, 8)))
        if story.model in ("gamma", "gamma_known_rate", "beta"):
            size = min(size, 60)  # their products leave the range of numbers
        x = story.draw(rng, size, shape, fixed)
        once = replay(ctx, story, prior, fixed, x, [(0, size)])
        batches = hist.cut(rng, size)
        rng.shuffle(batches)
        ctx.case(story.name, gen.key_of(prior=prior), tuple(map(tuple, batches)),
                 sample=(story.name, prior, f"{size} observations in batches {batches}"))
        many = replay(ctx, story, prior, fixed, x, batches)
        ctx.ok(type(many) is type(once), f"{story.name}: types differ", once=once, many=many)
        diff = same(once, many, scale_of(x, prior))
        ctx.ok(
            diff is None,
            f"{story.model}: batches do not give the posterior of all the data: {diff}",
            prior=prior, fixed=fixed, data=x, batches=batches, once=once, many=many,
        )
        # in another order of the observations themselves
        perm = rng.permutation(size)
        diff = same(once, replay(ctx, story, prior, fixed, x[perm], hist.cut(rng, size)), scale_of(x, prior))
        ctx.ok(
            diff is None, f"{story.model}: the order of the data matters: {diff}",
            prior=prior, fixed=fixed, data=x,
        )
        # nothing observed: nothing learnt
        empty = replay(ctx, story, prior, fixed, x[:0], [(0, 0)])
        diff = same(prior, empty, scale_of(x, prior))
        ctx.ok(
            diff is None, f"{story.model}: no observations change the prior: {diff}",
            prior=prior, fixed=fixed, posterior=empty,
        )


@unit("C10", quick=60)
def elementwise(ctx):
    histories(ctx, hist.STORIES)


@unit("C10", quick=60)
def multivariate(ctx):
    histories(ctx, hist.MV_STORIES)


@unit("C10", quick=60)
def bernoulli(ctx):
    """One observation at a time, in any order, is the binomial update of all."""
    rng = ctx.rng
    L, prior, fixed, shape = hist.begin(hist.STORIES[0], rng)
    x = rng.integers(0, 2, size=(int(rng.integers(1, 30)),) + shape)
    d = prior
    for xi in x:
        d = ctx.call(M.bernoulli_beta, x=xi if shape else int(xi), prior=d)
    ctx.case("bernoulli", gen.key_of(prior=prior), x.tobytes(), sample=(prior, x))
    diff = same(M.binomial_beta(n=len(x), x=x.sum(axis=0), prior=prior), d)
    ctx.ok(diff is None, f"bernoulli_beta one by one: {diff}", prior=prior, data=x, posterior=d)


@unit("C10", quick=60)
def varying_known_parameters(ctx):
    """Batches of different precision: still any order."""
    rng = ctx.rng
    L, prior, _, shape = hist.begin(hist.STORIES[11], rng)
    steps = []
    for _ in range(int(rng.integers(2, 6))):
        n = gen.few(rng, 0, 6, 2000)
        x = rng.normal(1, 2, size=(n,) + shape)
        v = float(np.exp(rng.normal(0, 1.5)))
        if rng.integers(2):
            steps.append((M.normal_known_variance, dict(n=n, x_total=x.sum(axis=0), var=v)))
        else:
            steps.append((M.normal_known_precision, dict(n=n, x_total=x.sum(axis=0), precision=v)))
    ctx.case("varying", gen.key_of(prior=prior), len(steps), sample=(prior, steps))

    def run(order):
        d = prior
        for i in order:
            fn, kw = steps[i]
            d = ctx.call(fn, prior=d, **kw)
        return d

    a, b = run(range(len(steps))), run(rng.permutation(len(steps)))
    diff = same(a, b)
    ctx.ok(diff is None, f"order of updates of known precision matters: {diff}", prior=prior, steps=steps)


@unit("C10", quick=60)
def hypergeometric(ctx):
    rng = ctx.rng
    big = int(rng.integers(3, 60))
    prior = D.BetaBinomial(n=big, alpha=float(np.exp(rng.normal())), beta=float(np.exp(rng.normal())))
    n1, n2 = (int(v) for v in rng.integers(0, big // 2 + 1, size=2))
    x1, x2 = int(rng.integers(0, n1 + 1)), int(rng.integers(0, n2 + 1))
    ctx.case("hypergeometric", big, n1, x1, n2, x2, sample=(prior, (n1, x1), (n2, x2)))
    up = M.hypergeometric_beta_binomial
    one = ctx.call(up, x_total=x1 + x2, n=n1 + n2, prior=prior)
    two = ctx.call(up, x_total=x2, n=n2, prior=ctx.call(up, x_total=x1, n=n1, prior=prior))
    if same(one, two) is None:
        ctx.event("oracle decisions")
        return
    # the listed mechanism: every batch adds the population size, not its draws
    ignored = (
        np.isclose(one.alpha, prior.alpha + x1 + x2)
        and np.isclose(one.beta, prior.beta + big - x1 - x2)
        and np.isclose(two.alpha, prior.alpha + x1 + x2)
        and np.isclose(two.beta, prior.beta + 2 * big - x1 - x2)
    )
    if ignored:
        ctx.event("oracle decisions")
        ctx.known(
            "hypergeometric-draws-ignored",
            "hypergeometric_beta_binomial: batches do not add up", prior=prior,
        )
    else:
        ctx.fail(
            "hypergeometric_beta_binomial: batches do not give the posterior of all the data",
            prior=prior, first=(n1, x1), second=(n2, x2), once=one, twice=two,
        )
