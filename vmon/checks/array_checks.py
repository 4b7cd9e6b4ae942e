"""Monitors of vectorised inference and indexing (properties "C16", "C18", "C19")."""

import copy

import numpy as np
from scipy.special import gammaln

from conjugate import distributions as D
from conjugate import models as M

from vmon import bayes, dists, gen, hist, preds
from vmon.core import rule, unit

rule(
    "C16",
    "Every element-wise model, predictive, log likelihood and distribution called with random "
    "mixes of scalars, 0-d arrays, vectors and matrices with broadcastable shapes, and again "
    "with the elements one at a time; a case is one call with all its elements; distinct by "
    "the arguments.",
    ["rounding up to 1e-9 of the size of the terms that are added"],
)
rule(
    "C18",
    "Every univariate class with array, list and scalar parameters and random keys of every "
    "kind (integers of several types, slices with steps, lists, index arrays, masks, chains of "
    "keys, out of range ones); a case is one distribution with one key; distinct by both.",
)
rule(
    "C19",
    "Multivariate normal and Student t distributions of 1 to 6 dimensions with random keys of "
    "every kind; a case is one distribution with one key; distinct by both.",
    ["agreement of log densities within 1e-8"],
)


# -------------------------------------------------------------- vectorised
def parts(kwargs):
    """Every numeric argument, those of distributions included: [(path, value)]."""
    out = []
    for k, v in kwargs.items():
        if hasattr(v, "__dataclass_fields__"):
            for fld in v.__dataclass_fields__:
                w = getattr(v, fld)
                if w is not None and not isinstance(w, bool):
                    out.append(((k, fld), w))
        elif not isinstance(v, bool):
            out.append(((k, None), v))
    return out


def element(kwargs, full, index):
    """The same arguments with the scalars at the index."""
    out = {}
    for k, v in kwargs.items():
        if hasattr(v, "__dataclass_fields__"):
            fields = {}
            for fld in v.__dataclass_fields__:
                w = getattr(v, fld)
                if w is not None and not isinstance(w, bool):
                    w = pick(w, full, index)
                fields[fld] = w
            out[k] = type(v)(**fields)
        elif isinstance(v, bool):
            out[k] = v
        else:
            out[k] = pick(v, full, index)
    return out


def pick(v, full, index):
    return np.broadcast_to(np.asarray(v), full)[index].item()


def magnitude(kwargs):
    """Size of the terms that an update may add and subtract, element by element."""
    total = 0.0
    values = {p: hist.f(v) for p, v in parts(kwargs)}
    weight = 1.0
    for (k, fld), v in values.items():
        total = total + abs(v) + v**2
        if (fld or k) in ("nu", "lam", "n", "kappa"):
            weight = weight + abs(v)
    return total * weight


def compare(ctx, name, kwargs, result, call):
    full = np.broadcast_shapes(*[np.shape(v) for _, v in parts(kwargs)])
    got = {k: v for k, v in hist.parameters(result).items()}
    for k, v in got.items():
        try:
            good = np.broadcast_shapes(full, v.shape) == full
        except ValueError:
            good = False
        if not ctx.ok(good, f"{name}: {k} has shape {v.shape}, the arguments have {full}", **kwargs):
            return None
    size = np.broadcast_to(magnitude(kwargs), full)
    cells = list(np.ndindex(full))
    for index in cells:
        one = call(element(kwargs, full, index))
        want = hist.parameters(one)
        if not ctx.ok(
            want.keys() == got.keys() and type(one) is type(result),
            f"{name}: another kind of result for an element", got=result, one=one,
        ):
            return None
        for k, w in want.items():
            g = np.broadcast_to(got[k], full)[index]
            lim = 1e-9 * abs(w) + 1e-13 * size[index] + 1e-300
            ctx.ok(
                np.shape(w) == () and (abs(g - w) <= lim or g == w),
                f"{name}: {k} of element {index} is {g}, alone it is {w}",
                arguments=kwargs, result=result,
            )
    ctx.event("elements", len(cells))
    return full


@unit("C16", quick=24)
def models(ctx):
    rng = ctx.rng
    for name in bayes.ELEMENTWISE:
        kwargs = bayes.gen_elementwise(name, rng, wide=False)
        f = getattr(M, name)
        post = ctx.call(f, **kwargs)
        ctx.case(name, gen.key_of(**kwargs), sample=(name, kwargs))
        compare(ctx, name, kwargs, post, lambda kw: ctx.call(f, **kw))


@unit("C16", quick=24)
def other_models(ctx):
    """Models whose conjugate prior is known up to a constant, and their likelihoods."""
    rng = ctx.rng
    for story in hist.STORIES:
        L, prior, fixed, shape = hist.begin(story, rng)
        x = story.draw(rng, gen.few(rng, 1, 8, 80), shape, fixed)
        kwargs = dict(story.kwargs(x, fixed), prior=prior)
        if rng.integers(2):
            kwargs["n"] = L.wrap(np.full(L.shape(), kwargs["n"]))
        f = getattr(M, story.model)
        post = ctx.call(f, **kwargs)
        ctx.case(story.name, gen.key_of(**kwargs), sample=(story.name, kwargs))
        compare(ctx, story.name, kwargs, post, lambda kw: ctx.call(f, **kw))
    n = L.value(gen.positive_int(2, 40))
    x = np.floor(rng.random(size=L.shape()) * (np.asarray(n) + 1)).astype(int)
    kwargs = dict(
        x_total=L.wrap(x), n=n,
        prior=D.BetaBinomial(n=n, alpha=L.value(hist.pos()), beta=L.value(hist.pos())),
    )
    f = M.hypergeometric_beta_binomial
    compare(ctx, "hypergeometric", kwargs, ctx.call(f, **kwargs), lambda kw: ctx.call(f, **kw))


@unit("C16", quick=24)
def likelihoods(ctx):
    rng = ctx.rng
    pos = gen.positive_any(0.1, 30)
    for _ in range(4):
        L = gen.Layout(rng)
        V = L.value
        angle = gen.real(2.0)
        for d, entry, at in [
            (D.GammaKnownRateProportional(a=V(pos), b=V(pos), c=V(pos)), "approx_log_likelihood", dict(alpha=V(pos), beta=V(pos))),
            (D.GammaProportional(p=V(pos), q=V(pos), r=V(pos), s=V(pos)), "approx_log_likelihood", dict(alpha=V(pos), beta=V(pos))),
            (D.BetaProportional(p=V(pos), q=V(pos), k=V(pos)), "approx_log_likelihood", dict(alpha=V(pos), beta=V(pos))),
            (D.VonMisesKnownConcentration(a=V(pos), b=V(angle)), "log_likelihood", dict(mu=V(angle))),
            (D.VonMisesKnownDirectionProportional(c=V(pos), r=V(pos)), "approx_log_likelihood", dict(kappa=V(pos))),
        ]:
            kwargs = dict(at, d=d)
            ctx.case(type(d).__name__, gen.key_of(**kwargs), sample=(d, at))
            got = hist.f(ctx.call(getattr(d, entry), **at))
            full = np.broadcast_shapes(*[np.shape(v) for _, v in parts(kwargs)])
            if not ctx.ok(got.shape == full, f"{entry}: shape {got.shape} instead of {full}", d=d, at=at):
                continue
            for index in np.ndindex(full):
                one = element(kwargs, full, index)
                w = ctx.call(getattr(one.pop("d"), entry), **one)
                ctx.ok(
                    abs(got[index] - w) <= 1e-10 * (1 + abs(w)) + 1e-12 * 30000,
                    f"{entry}: element {index} is {got[index]}, alone it is {w}", d=d, at=at,
                )
            ctx.event("elements", int(np.prod(full, dtype=int)))


def name_is_fast(ref):
    return ref.name not in ("BetaNegativeBinomial", "BetaBinomial", "Hypergeometric")


def somewhere(ref, p, q):
    """Points of the shape of q in the bulk of the distribution."""
    with np.errstate(all="ignore"):
        if ref.name == "VonMises":
            x = p["mu"] + (q - 0.5) * 6
        elif name_is_fast(ref):
            x = ref.quantile(p, q)
        elif ref.name == "BetaNegativeBinomial":
            x = np.floor(q * 30)
        else:
            lo, hi = ref.support(p)
            x = lo + np.floor(q * (hi - lo + 1))
        return np.broadcast_to(x, q.shape)


def judge_values(ctx, name, d, full, rng):
    """Densities and so on of a vectorised distribution, element by element."""
    ref = dists.ref_of(d)
    p = ref.params(d)
    if full is None:
        full = ref.shape(p)
    g = int(rng.integers(1, 4))
    q = rng.uniform(0.02, 0.98, size=(g,) + full)
    x = somewhere(ref, p, q)
    flat = bool(g == 1 and rng.integers(2))
    dist = ctx.call(lambda: d.dist)
    cells = list(np.ndindex(full))
    if len(cells) > 8:
        cells = [cells[i] for i in rng.choice(len(cells), size=8, replace=False)]
    alone = {
        i: type(d)(
            **{
                k: (getattr(d, k) if k == "one_start" else pick(getattr(d, k), full, i))
                for k in d.__dataclass_fields__
            }
        ).dist
        for i in cells
    }
    entries = ["pmf" if ref.discrete else "pdf", "cdf"]
    if ref.scipy and name_is_fast(ref):
        entries += ["sf", "logpmf" if ref.discrete else "logpdf"]
        if ref.name != "VonMises":  # found by a search, slowly
            entries.append("ppf")
    for entry in entries:
        at = q if entry == "ppf" else x
        at = at[0] if flat else at
        got = ctx.call(getattr(dist, entry), at)
        if not ctx.ok(np.shape(got) == at.shape, f"{name}: {entry} has shape {np.shape(got)} for {at.shape}", d=d):
            continue
        for i in cells:
            j = i if flat else (slice(None),) + i
            want = ctx.call(getattr(alone[i], entry), at[j])
            ctx.ok(
                np.allclose(got[j], want, rtol=1e-9, atol=1e-12, equal_nan=True),
                f"{name}: {entry} of element {i} is not that of the element alone",
                d=d, x=at[j], got=got[j], want=want,
            )
    if ref.scipy and ref.name != "VonMises":
        for entry in ("mean", "var"):
            got = np.broadcast_to(ctx.call(getattr(dist, entry)), full)
            for i in cells:
                want = ctx.call(getattr(alone[i], entry))
                ctx.ok(
                    np.allclose(got[i], want, rtol=1e-9, atol=1e-12, equal_nan=True),
                    f"{name}: {entry} of element {i} is not that of the element alone",
                    d=d, got=got[i], want=want,
                )
    ctx.event("elements evaluated", len(cells))


@unit("C16", quick=24)
def predictives(ctx):
    rng = ctx.rng
    for name in preds.MARGINAL:
        kwargs = preds.gen_predictive(name, gen.Layout(rng))
        f = getattr(M, name)
        pred = ctx.call(f, **kwargs)
        ctx.case(name, gen.key_of(**kwargs), sample=(name, kwargs))
        full = compare(ctx, name, kwargs, pred, lambda kw: ctx.call(f, **kw))
        if full is not None and rng.integers(3) == 0:
            judge_values(ctx, name, pred, full, rng)


@unit("C16", quick=16, weight=2)
def distributions(ctx):
    rng = ctx.rng
    for name, ref in dists.REFS.items():
        kind = ["vec", "bcast", "size1", "zerod"][rng.integers(4)]
        kw = ref.gen(gen.Layout(rng, kind))
        d = ref.make(D, kw)
        ctx.case(name, gen.key_of(**kw), sample=d)
        judge_values(ctx, name, d, None, rng)


@unit("C16", quick=24)
def dirichlet_rows(ctx):
    rng = ctx.rng
    b, k = gen.few(rng, 1, 5, 40), gen.few(rng, 2, 6, 30)
    alpha = gen.positive_any(0.2, 30)(rng, (b, k) if rng.integers(3) else (k,))
    x = rng.integers(0, 9, size=(b, k) if rng.integers(3) or alpha.ndim == 1 else (k,))
    full = np.broadcast_shapes(alpha.shape, x.shape)
    rows_a, rows_x = np.broadcast_to(alpha, full), np.broadcast_to(x, full)
    ctx.case(repr(alpha), repr(x), sample=(alpha, x))
    for name in ("categorical_dirichlet", "multinomial_dirichlet"):
        f = getattr(M, name)
        post = ctx.call(f, x=x, prior=D.Dirichlet(alpha=alpha))
        got = hist.f(post.alpha)
        if not ctx.ok(got.shape == full, f"{name}: shape {got.shape} instead of {full}"):
            continue
        n = rng.integers(1, 9, size=len(got)) if rng.integers(2) else int(rng.integers(1, 9))
        pred = ctx.call(getattr(M, name + "_predictive"), distribution=post, n=n)
        y = np.stack([rng.multinomial(m, np.ones(k) / k) for m in np.broadcast_to(n, len(got))])
        got_p = np.atleast_1d(ctx.call(pred.dist.logpmf, y))
        mean = np.atleast_2d(ctx.call(post.dist.mean))
        for i in range(len(got)):
            one = ctx.call(f, x=rows_x[i], prior=D.Dirichlet(alpha=rows_a[i]))
            ctx.ok(np.allclose(got[i], one.alpha, rtol=1e-12), f"{name}: row {i}", x=x, alpha=alpha, got=got)
            ctx.ok(np.allclose(mean[i], one.dist.mean(), rtol=1e-9), "mean of a row", d=post)
            m = int(np.broadcast_to(n, len(got))[i])
            want = ctx.call(getattr(M, name + "_predictive"), distribution=one, n=m).dist.logpmf(y[i])
            ctx.ok(np.allclose(got_p[i], want, rtol=1e-9, atol=1e-10), f"{name}: predictive of row {i}", d=pred, y=y)
        ctx.event("elements", len(got))


# ---------------------------------------------------------------- indexing
def integer(rng, i):
    return [int, np.int64, np.int32, np.intp, np.int8][rng.integers(5)](i)


def random_slice(rng, n):
    a, b = (int(v) for v in rng.integers(-n - 1, n + 2, size=2))
    step = int(rng.choice([1, 1, 2, -1, -2]))
    return slice(
        None if rng.integers(3) == 0 else a, None if rng.integers(3) == 0 else b,
        None if step == 1 and rng.integers(2) else step,
    )


def random_key(rng, n, kinds=("int", "slice", "list", "array", "mask", "mask list")):
    kind = kinds[rng.integers(len(kinds))]
    if kind == "int":
        return kind, integer(rng, int(rng.integers(-n, n)))
    if kind == "slice":
        return kind, random_slice(rng, n)
    some = rng.integers(-n, n, size=int(rng.integers(1, n + 2)))
    if kind == "list":
        return kind, [integer(rng, int(v)) for v in some]
    if kind == "array":
        return kind, some.astype([np.int64, np.int32][rng.integers(2)])
    mask = rng.random(size=n) < 0.5
    return kind, mask.tolist() if kind == "mask list" else mask


def hashed(v):
    return repr(v)


def contents(d):
    return {k: copy.deepcopy(getattr(d, k)) for k in d.__dataclass_fields__}


def unchanged(d, before):
    for k, v in before.items():
        w = getattr(d, k)
        if type(v) is not type(w) or np.shape(v) != np.shape(w) or not np.array_equal(v, w):
            return False
    return True


def shaped_params(ref, rng, shape, containers):
    """Parameters of the reference's class with the shape, or scalars."""
    L = gen.Layout(rng, "vec")
    L.shapes = [shape]
    kw = ref.gen(L)
    names = [k for k in kw if k != "one_start"]
    keep = names[rng.integers(len(names))]
    out = {}
    for k, v in kw.items():
        v = np.asarray(v)
        if k == "one_start":
            out[k] = bool(v)
        elif k != keep and ref.name not in ("Hypergeometric", "Uniform") and rng.integers(3) == 0:
            out[k] = v.ravel()[0].item()
        else:
            v = np.array(np.broadcast_to(v, shape))
            out[k] = v.tolist() if containers and rng.integers(2) else v
    return out


def bound_of(d, name):
    try:
        return getattr(d, name)
    except ValueError:  # has none
        return None


@unit("C18", quick=24)
def univariate(ctx):
    rng = ctx.rng
    for name, ref in dists.REFS.items():
        n = gen.few(rng, 1, 7, 90)
        shape = (n,) if rng.integers(4) else (n, int(rng.integers(1, 4)))
        lists = len(shape) == 1 and rng.integers(4) == 0
        kw = shaped_params(ref, rng, shape, lists)
        cls = getattr(D, name)
        if rng.integers(6) == 0:
            cls = type("My" + name, (cls,), {})
        d = cls(**kw)
        before = contents(d)
        for _ in range(4):
            kind, key = random_key(rng, n)
            ctx.case(name, gen.key_of(**kw), repr(key), sample=(d, key))
            ctx.event("key " + kind)
            part = ctx.call(d.__getitem__, key)
            if not ctx.ok(type(part) is cls, f"{name}: indexing gives a {type(part).__name__}", d=d, key=key):
                continue
            for k, v in kw.items():
                w = getattr(part, k)
                if np.ndim(v) == 0:
                    ctx.ok(
                        np.ndim(w) == 0 and w == v and isinstance(w, bool) == isinstance(v, bool),
                        f"{name}: scalar {k} changed to {w!r}", d=d, key=key,
                    )
                else:
                    want = np.asarray(v)[key]
                    ctx.ok(
                        np.shape(w) == want.shape and np.array_equal(w, want),
                        f"{name}: {k} indexed with {key!r} is {w!r}", d=d, key=key, want=want,
                    )
            ctx.ok(unchanged(d, before), f"{name}: indexing changed the distribution", d=d, key=key)
            # where the plots of the subset reach is what the subset says (an empty one may refuse)
            if all(np.size(getattr(part, k)) for k in kw):
                fresh = cls(**{k: getattr(part, k) for k in kw})
                for bound in ("min_value", "max_value"):
                    a, b = (bound_of(o, bound) for o in (part, fresh))
                    ctx.ok(np.array_equal(a, b), f"{name}: {bound} of the subset is {a}, of the same parameters {b}", d=d, key=key)
            if lists or rng.integers(2):
                continue
            # the density is that subset of the original's
            p = ref.params(d)
            x = somewhere(ref, p, rng.uniform(0.05, 0.95, size=shape))
            entry = rng.choice(["pmf" if ref.discrete else "pdf", "cdf"])
            whole = ctx.call(getattr(d.dist, entry), x)
            some = ctx.call(getattr(part.dist, entry), x[key])
            ctx.ok(
                np.shape(some) == np.shape(whole[key]) and np.allclose(some, whole[key], rtol=1e-9, atol=1e-12),
                f"{name}: {entry} is not the subset of the original's", d=d, key=key, got=some, want=whole[key],
            )
        # chains of keys, and a change of the part leaves the whole alone
        a, b = random_key(rng, n, ("slice", "list", "mask"))[1], None
        rest = np.arange(n)[a]
        if len(rest):
            b = int(rng.integers(-len(rest), len(rest)))
            twice, once = ctx.call(lambda: d[a][b]), ctx.call(lambda: d[int(rest[b])])
            ctx.ok(
                all(np.array_equal(getattr(twice, k), getattr(once, k)) for k in kw),
                f"{name}: indexing in two steps differs from one", d=d, first=a, second=b,
            )
        items = ctx.call(lambda: [v for v, _ in zip(iter(d), range(n + 3))])
        ctx.ok(len(items) == n, f"{name}: iterating over {n} distributions gives {len(items)}", d=d)


@unit("C18", quick=24)
def out_of_range(ctx):
    rng = ctx.rng
    for name, ref in dists.REFS.items():
        n = gen.few(rng, 1, 7, 40)
        kw = shaped_params(ref, rng, (n,), rng.integers(3) == 0)
        d = getattr(D, name)(**kw)
        far = int(rng.choice([n, n + 1, n + 50, -n - 1, -n - 9]))
        kind = rng.integers(4)
        key = [
            integer(rng, far), [0, far], np.array([far, 0]), np.ones(n + int(rng.integers(1, 3)), bool)
        ][kind]
        ctx.case(name, gen.key_of(**kw), repr(key), sample=(d, key))
        try:
            got = d[key]
        except (IndexError, KeyError, ValueError):
            ctx.event("rejected key kind %d" % kind)
            ctx.ok(True, "")
        except Exception as e:
            ctx.fail(f"{name}: key {key!r} raised {type(e).__name__}", d=d)
        else:
            ctx.fail(f"{name}: key {key!r} out of range gives {got!r}", d=d)


@unit("C18", quick=24)
def different_shapes(ctx):
    """Parameters that broadcast are indexed as the whole they stand for."""
    rng = ctx.rng
    for name, ref in dists.REFS.items():
        m, n = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        L = gen.Layout(rng, "vec")
        L.shapes = [
            [(m, n), (n,), (m, 1), (1, n), (1,), ()], [(m, n), (n,)], [(m, 1), (1, n)], [(n,), (1,), ()],
        ][rng.integers(4)]
        kw = ref.gen(L)
        if ref.name == "Hypergeometric":  # valid together in one shape only
            kw = shaped_params(ref, rng, (n,), False)
        full = np.broadcast_shapes(*[np.shape(v) for v in kw.values()])
        if not full:
            continue
        d = ctx.call(getattr(D, name), **kw)
        before = contents(d)
        keys = [random_key(rng, full[0])[1] for _ in range(3)]
        if len(full) == 2:
            keys.append((int(rng.integers(full[0])), int(rng.integers(-full[1], full[1]))))
            keys.append((slice(None), int(rng.integers(full[1]))))
            keys.append(rng.random(size=full) < 0.5)
        for key in keys:
            ctx.case(name, gen.key_of(**kw), repr(key), sample=(d, key))
            part = ctx.call(d.__getitem__, key)
            for k, v in kw.items():
                want = np.broadcast_to(v, full)[key]
                if np.ndim(v) == 0:
                    ctx.ok(np.ndim(getattr(part, k)) == 0 and getattr(part, k) == v, f"{name}: scalar {k} changed", d=d, key=key)
                    continue
                w = getattr(part, k)
                good = np.broadcast_shapes(np.shape(w), want.shape) in (want.shape, (1,)) and np.array_equal(
                    np.broadcast_to(w, want.shape or (1,)), want.reshape(want.shape or (1,))
                )
                ctx.ok(good, f"{name}: {k} indexed with {key!r} is {w!r}", d=d, key=key, want=want)
            ctx.ok(unchanged(d, before), f"{name}: indexing changed the distribution", d=d, key=key)
        ctx.event("shapes of different length")


@unit("C18", quick=60)
def bags(ctx):
    """Several multinomial distributions: rows and their numbers of trials go together."""
    rng = ctx.rng
    k, n = gen.few(rng, 2, 5, 20), gen.few(rng, 1, 6, 40)
    rows = rng.gamma(2.0, size=(n, k)) + 0.1
    mode = rng.integers(3)
    trials = [rng.integers(1, 9, size=n), int(rng.integers(1, 9)), rng.integers(1, 9, size=n)][mode]
    if mode == 2:
        rows = rows[0]
    cls = [D.Multinomial, D.DirichletMultinomial][ctx.rep % 2]
    if cls is D.Multinomial:
        rows = rows / rows.sum(axis=-1, keepdims=True)
        d, vector = cls(n=trials, p=rows), "p"
    else:
        d, vector = cls(alpha=rows, n=trials), "alpha"
    x = np.stack([rng.multinomial(t, np.ones(k) / k) for t in np.broadcast_to(trials, n)])
    whole = ctx.call(lambda: d.dist.logpmf(x))
    for _ in range(4):
        key = random_key(rng, n)[1]
        ctx.case(cls.__name__, mode, rows.tobytes(), repr(key), sample=(d, key))
        part = ctx.call(d.__getitem__, key)
        if not np.size(np.arange(n)[key]):
            ctx.ok(np.size(part.n) == 0 or np.ndim(d.n) == 0, f"{cls.__name__}: nothing selected", d=d, key=key)
            continue
        some = ctx.call(lambda: part.dist.logpmf(x[key]))
        ctx.ok(
            type(part) is cls and np.shape(some) == np.shape(whole[key]) and np.allclose(some, whole[key], rtol=1e-10),
            f"{cls.__name__}: log probabilities of the part indexed with {key!r} are {some}",
            d=d, part=part, want=whole[key], vector=vector,
        )


# ------------------------------------------------------------- multivariate
def mvn_logpdf(x, mu, cov):
    p = len(mu)
    z = np.linalg.solve(np.linalg.cholesky(cov), (x - mu).T)
    return -np.sum(z * z, axis=0) / 2 - np.linalg.slogdet(cov)[1] / 2 - p / 2 * np.log(2 * np.pi)


def mvt_logpdf(x, mu, sigma, nu):
    p = len(mu)
    z = np.linalg.solve(np.linalg.cholesky(sigma), (x - mu).T)
    return (
        gammaln((nu + p) / 2) - gammaln(nu / 2) - p / 2 * np.log(nu * np.pi)
        - np.linalg.slogdet(sigma)[1] / 2 - (nu + p) / 2 * np.log1p(np.sum(z * z, axis=0) / nu)
    )


@unit("C19", quick=160)
def marginals(ctx):
    rng = ctx.rng
    p = gen.few(rng, 1, 7, 16)
    mu, m = rng.normal(size=p) * 4, gen.spd(rng, p, 1.5)
    nu = float(np.exp(rng.normal(1.2, 1)))
    if rng.integers(4) == 0:
        mu = np.round(mu).astype(np.int64)
        m = (np.round(m * 3) + 40 * np.eye(p)).astype(np.int64)
        m = np.tril(m) + np.tril(m, -1).T
        m = m + np.eye(p, dtype=int) * int(np.sum(abs(m)))
    if rng.integers(2):
        d, second = D.MultivariateNormal(mu=mu, cov=m), "cov"
        density = lambda x, a, b: mvn_logpdf(x, a, b)  # noqa: E731
    else:
        d, second = D.MultivariateStudentT(mu=mu, sigma=m, nu=nu), "sigma"
        density = lambda x, a, b: mvt_logpdf(x, a, b, nu)  # noqa: E731
    name = type(d).__name__
    before = contents(d)

    def judge(part, index, key):
        a = mu[index].astype(float)
        b = np.asarray(m, float)[np.ix_(index, index)]
        if len(index) and len(set(index)) == len(index):
            x = a + rng.normal(size=(4, len(index))) * np.sqrt(np.diag(b)) * 1.5
            want = density(x, a, b)
            if isinstance(key, (int, np.integer)):
                ctx.ok(
                    type(part).__name__ in ("Normal", "StudentT"),
                    f"{name}: one coordinate gives a {type(part).__name__}", d=d, key=key,
                )
                got = ctx.call(part.dist.logpdf, x[:, 0])
                mid = ctx.call(part.dist.cdf, float(a[0]))
                ctx.ok(abs(mid - 0.5) < 1e-9, f"{name}: marginal {key!r} is not centred", d=d, got=mid)
            else:
                ctx.ok(type(part) is type(d), f"{name}: several coordinates give a {type(part).__name__}", d=d, key=key)
                got = np.atleast_1d(ctx.call(part.dist.logpdf, x if len(index) > 1 else x[:, 0]))
            ctx.ok(
                np.allclose(got, want, rtol=1e-8, atol=1e-8),
                f"{name}: the marginal of {key!r} has another density", d=d, got=got, want=want, part=part,
            )
            ctx.event("densities")
        elif not isinstance(key, (int, np.integer)):
            ctx.ok(np.array_equal(part.mu, a), f"{name}: mu of {key!r}", d=d, part=part)
            ctx.ok(np.array_equal(getattr(part, second), b), f"{name}: {second} of {key!r}", d=d, part=part)
        if second == "sigma":
            ctx.ok(part.nu == nu, f"{name}: degrees of freedom changed to {part.nu}", d=d, key=key)

    for _ in range(6):
        kind, key = random_key(rng, p)
        index = np.atleast_1d(np.arange(p)[key])
        ctx.case(name, gen.key_of(mu=mu, m=m, nu=nu), repr(key), sample=(d, key))
        ctx.event("key " + kind)
        part = ctx.call(d.__getitem__, key)
        judge(part, index, key)
        ctx.ok(unchanged(d, before), f"{name}: indexing changed the distribution", d=d, key=key)
        if len(index) and kind != "int" and len(set(index)) == len(index):
            sub = int(rng.integers(-len(index), len(index)))
            judge(ctx.call(lambda: part[sub]), index[[sub]], sub)
            kind, key2 = random_key(rng, len(index), ("slice", "list", "mask"))
            judge(ctx.call(lambda: part[key2]), index[key2], key2)
    unsigned = np.uint8(rng.integers(p))
    judge(ctx.call(lambda: d[unsigned]), np.array([int(unsigned)]), unsigned)
