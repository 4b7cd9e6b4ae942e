"""Monitors of labelled containers ("C21")."""

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import xarray as xr

from conjugate import distributions as D
from conjugate import models as M

from vmon import dists, gen, hist, preds
from vmon.core import rule, unit

rule(
    "C21",
    "Every element-wise model and predictive with pandas Series (string, integer, date and multi "
    "level labels, in the same and in another order), DataFrames and xarray arrays of one and two "
    "dimensions as data, as parameters or both, mixed with numbers; results are compared label by "
    "label with calls on the numbers of the label; a case is one call; distinct by its arguments.",
    ["agreement within 1e-9 relative"],
)

KINDS = ["series", "series", "shuffled", "frame", "xr", "outer"]


class World:
    """Labels, and containers with these labels."""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.m, self.n = int(rng.integers(2, 4)), int(rng.integers(2, 6))
        if kind in ("series", "shuffled", "xr") and rng.integers(4) == 0:
            self.n = 1
        self.rows = self.index(self.m)
        self.cols = self.index(self.n, plain=kind not in ("series", "shuffled"))
        self.layout = gen.Layout(rng, "vec", flags=False)
        m, n = self.m, self.n
        self.layout.shapes = {
            "frame": [(m, n), (m, n), ()],
            "outer": [(m, n), (m, 1), (n,), (n,), ()],
        }.get(kind, [(n,), (n,), (n,), ()])

    def index(self, n, plain=True):
        rng = self.rng
        mode = rng.integers(3 if plain else 5)
        if mode == 0:
            return pd.Index([f"group {i}" for i in rng.permutation(n)])
        if mode == 1:
            return pd.RangeIndex(n)
        if mode == 2:
            return pd.Index(rng.permutation(n) + 100)
        if mode == 3:
            return pd.date_range("2024-01-01", periods=n, freq="D")
        return pd.MultiIndex.from_tuples([("ab"[i % 2], i) for i in range(n)], names=["letter", "number"])

    def pack(self, v):
        if not isinstance(v, np.ndarray) or v.ndim == 0:
            return v
        kind = self.kind
        if kind in ("series", "shuffled"):
            s = pd.Series(v, index=self.cols, name=["x", None][self.rng.integers(2)])
            return s.iloc[self.rng.permutation(len(s))] if kind == "shuffled" else s
        if kind == "frame":
            return pd.DataFrame(v, index=self.rows, columns=self.cols)
        if kind == "xr":
            return xr.DataArray(v, dims=["t"], coords={"t": self.cols})
        if v.ndim == 1:
            return xr.DataArray(v, dims=["t"], coords={"t": self.cols})
        if v.shape[1] == 1 and self.n > 1:
            return xr.DataArray(v[:, 0], dims=["g"], coords={"g": self.rows})
        return xr.DataArray(v, dims=["g", "t"], coords={"g": self.rows, "t": self.cols})

    def labels(self):
        """Every label, a dictionary of coordinates."""
        if self.kind in ("series", "shuffled", "xr"):
            return [{"t": c} for c in self.cols]
        return [{"g": r, "t": c} for r in self.rows for c in self.cols]

    def ordered(self, v):
        """Whether the container has its labels in the order of the input."""
        if isinstance(v, pd.Series):
            return v.index.equals(self.cols)
        if isinstance(v, pd.DataFrame):
            return v.index.equals(self.rows) and v.columns.equals(self.cols)
        want = {"g": self.rows, "t": self.cols}
        return all(d in want and pd.Index(v.coords[d].values).equals(want[d]) for d in v.dims)


LABELLED = (pd.Series, pd.DataFrame, xr.DataArray)


def at(world, v, label):
    """The number with the label."""
    if isinstance(v, np.ndarray) and v.ndim:
        return element(world, v, label).item()
    if isinstance(v, pd.Series):
        return v.loc[label["t"]].item()
    if isinstance(v, pd.DataFrame):
        return v.loc[label["g"], label["t"]].item()
    if isinstance(v, xr.DataArray):
        return v.sel({d: label[d] for d in v.dims}).item()
    return v


def over(kwargs, f):
    """f on every argument and on the parameters of the distributions among them."""
    out = {}
    for k, v in kwargs.items():
        if hasattr(v, "__dataclass_fields__"):
            out[k] = type(v)(**{n: f(getattr(v, n), (k, n)) for n in v.__dataclass_fields__})
        else:
            out[k] = f(v, (k, None))
    return out


def moved(v):
    """Other numbers for an argument, to see what depends on it."""
    if isinstance(v, bool) or v is None or not np.issubdtype(np.asarray(v).dtype, np.number):
        return v
    return v + 1 if isinstance(v, (int, np.integer)) else v * 1.25 + 0.1


def values(d):
    return {k: getattr(d, k) for k in d.__dataclass_fields__}


def near(g, w, size):
    return g == w or abs(g - w) <= 1e-9 * abs(w) + 1e-12 * size or (np.isnan(g) and np.isnan(w))


def judge(ctx, name, world, f, kwargs, packed):
    """Labels and numbers of a result; kwargs have containers for the packed paths."""
    result = ctx.call(f, **kwargs)
    labels = world.labels()
    got = values(result)
    depends = set()
    size = 1.0
    for label in labels:
        one = over(kwargs, lambda v, path: at(world, v, label))
        with np.errstate(all="ignore"):
            want = ctx.call(f, **one)
        if not ctx.ok(type(want) is type(result), f"{name}: {type(result).__name__} with labels, {type(want).__name__} without"):
            return None
        for k, w in values(want).items():
            if w is None or isinstance(w, bool):
                ctx.ok(got[k] is w or got[k] == w, f"{name}: {k} is {got[k]} instead of {w}", **kwargs)
                continue
            # sums of squares may cancel
            size = max(abs(hist.f(v)).max() ** 2 for v in flat(one)) * 100 + 1
            g = got[k]
            g = at(world, g, label)
            ctx.ok(near(float(g), float(w), size), f"{name}: {k} of {label} is {g}, alone it is {w}", kind=world.kind, **kwargs)
    if len(labels):
        one = over(kwargs, lambda v, path: at(world, v, labels[0]))
        other = over(one, lambda v, path: moved(v) if path in packed else v)
        try:
            with np.errstate(all="ignore"):
                a, b = values(f(**one)), values(f(**other))
        except Exception:  # noqa: BLE001 - the other numbers need not be valid
            a = b = {}
        depends = {k for k in a if a[k] is not None and a[k] != b[k]}
    for k in depends:
        v = got[k]
        if not ctx.ok(isinstance(v, LABELLED), f"{name}: {k} lost its labels: {type(v).__name__}", kind=world.kind, **kwargs):
            continue
        ctx.event("labelled parameters")
        if world.kind != "shuffled":
            ctx.ok(world.ordered(v), f"{name}: labels of {k} are not those of the arguments", kind=world.kind, got=v, **kwargs)
    return result


def flat(kwargs):
    out = [1.0]

    def note(v, path):
        if v is not None and not isinstance(v, bool):
            out.append(v)
        return v

    over(kwargs, note)
    return out


def element(world, v, label):
    """Element of a plain array by the position of the label."""
    full = (world.m, world.n) if world.kind in ("frame", "outer") else (world.n,)
    where = ([list(world.rows).index(label["g"])] if "g" in label else []) + [list(world.cols).index(label["t"])]
    return np.broadcast_to(v, full)[tuple(where)]


def pack(world, kwargs, where):
    packed = set()

    def f(v, path):
        k, fld = path
        is_prior = fld is not None
        if where == "both" or (where == "prior") == is_prior:
            w = world.pack(v)
            if w is not v:
                packed.add(path)
            return w
        if isinstance(v, np.ndarray) and v.ndim and world.kind in ("outer", "shuffled", "frame"):
            # positions mean nothing next to these labels
            return v.reshape(-1)[0].item()
        return v

    return over(kwargs, f), packed


@unit("C21", quick=24)
def models(ctx):
    rng = ctx.rng
    for story in hist.STORIES:
        world = World(rng, KINDS[rng.integers(len(KINDS))])
        L, prior, fixed, shape = hist.begin(story, rng, world.layout)
        if len(shape) == 0:
            shape = world.layout.shapes[0]
        x = story.draw(rng, gen.few(rng, 1, 8, 80), shape, fixed)
        kwargs = dict(story.kwargs(x, fixed), prior=prior)
        if rng.integers(2):
            kwargs["n"] = np.full(world.layout.shapes[0], kwargs["n"])
        where = ["data", "prior", "both", "both"][rng.integers(4)]
        kwargs, packed = pack(world, kwargs, where)
        f = getattr(M, story.model)
        ctx.case(story.name, repr(kwargs), sample=(story.name, world.kind, kwargs))
        post = judge(ctx, story.name, world, f, kwargs, packed)
        ctx.event(f"{world.kind} as {where}")
        if post is not None and rng.integers(3) == 0:
            evaluated(ctx, story.name, world, post)


@unit("C21", quick=24)
def predictives(ctx):
    rng = ctx.rng
    for name in preds.MARGINAL:
        world = World(rng, KINDS[rng.integers(len(KINDS))])
        try:
            kwargs = preds.gen_predictive(name, world.layout)
        except KeyError:
            continue
        where = ["data", "prior", "both", "both"][rng.integers(4)]
        kwargs, packed = pack(world, kwargs, where)
        ctx.case(name, repr(kwargs), sample=(name, world.kind, kwargs))
        result = judge(ctx, name, world, getattr(M, name), kwargs, packed)
        ctx.event(f"{world.kind} as {where}")
        if result is not None and rng.integers(3) == 0:
            evaluated(ctx, name, world, result)


def plain(d):
    return type(d)(
        **{k: np.asarray(v) if isinstance(v, (pd.Series, pd.DataFrame, xr.DataArray)) else v for k, v in values(d).items()}
    )


def evaluated(ctx, name, world, d):
    """Densities, indexing and plots of a distribution with labelled parameters."""
    rng = ctx.rng
    ref = dists.ref_of(d)
    if ref is None or world.kind in ("shuffled", "outer"):
        return
    full = (world.m, world.n) if world.kind == "frame" else (world.n,)
    twin = plain(d)
    shape = ref.shape(ref.params(twin))
    if ref.discrete:
        x = np.floor(rng.uniform(0, 8, size=(3,) + (1,) * len(full)))
    else:
        x = rng.uniform(0.05, 3, size=(3,) + (1,) * len(full))
    for entry in ["pmf" if ref.discrete else "pdf", "cdf"]:
        got = ctx.call(lambda: getattr(d.dist, entry)(x))
        want = getattr(twin.dist, entry)(x)
        ctx.ok(
            np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True),
            f"{name}: {entry} with labels is {got}, without {want}", d=d,
        )
    ctx.event("evaluated")
    if world.kind == "frame" or shape == ():
        return
    indexed(ctx, name, world, d, twin)
    # plots, named by the labels
    lo, hi = (0, 9) if ref.discrete else (0.05, 3.0)
    entry = ["plot_pmf" if ref.discrete else "plot_pdf", "plot_cdf"][rng.integers(2)]
    fig, (a, b) = plt.subplots(1, 2)
    try:
        count = int(np.prod(shape))
        names = [world.cols, world.cols.tolist(), world.cols.values][rng.integers(3)]
        if isinstance(world.cols, pd.MultiIndex) or count != world.n or count == 1:
            names = [str(i) for i in range(count)]
        ctx.call(getattr(ctx.call(d.set_bounds, lo, hi), entry), ax=a, label=names)
        getattr(twin.set_bounds(lo, hi), entry)(ax=b)
        ctx.ok(len(a.lines) == len(b.lines) == count, f"{name}: {len(a.lines)} lines for {count} labels", d=d)
        for i, (g, w) in enumerate(zip(a.lines, b.lines)):
            ctx.ok(
                np.array_equal(g.get_xdata(), w.get_xdata()) and np.allclose(g.get_ydata(), w.get_ydata(), rtol=1e-9, atol=1e-12, equal_nan=True),
                f"{name}: plot with labels differs from the plot without", d=d,
            )
            ctx.ok(g.get_label() == str(names[i]) or count == 1, f"{name}: line {i} is called {g.get_label()} instead of {names[i]}", d=d)
        ctx.event("plotted")
    finally:
        plt.close(fig)


def indexed(ctx, name, world, d, twin):
    """Indexing by position, mask and label keeps numbers and labels together."""
    rng = ctx.rng
    n = world.n
    vectors = {k: v for k, v in values(d).items() if np.ndim(v)}
    if any(np.shape(v)[0] != n for v in vectors.values()):
        return
    series = all(isinstance(v, pd.Series) for v in vectors.values())
    mask = rng.random(size=n) < 0.5
    i, j = sorted(rng.integers(0, n + 1, size=2))
    keys = [(mask, np.flatnonzero(mask)), (slice(i, j), np.arange(i, j)), (slice(None, None, -1), np.arange(n)[::-1])]
    if isinstance(world.cols, pd.DatetimeIndex):
        keys = keys[:1]
    if series:
        label = world.cols[k := int(rng.integers(n))]
        keys.append((label, k))
        if not isinstance(world.cols, pd.MultiIndex):
            pick = rng.integers(n, size=2)
            keys.append((world.cols[pick].tolist(), pick))
        keys.append((pd.Series(mask, index=world.cols), np.flatnonzero(mask)))
        keys.append((world.cols.isin(world.cols[mask]), np.flatnonzero(mask)))
    elif not any(isinstance(v, pd.Series) for v in vectors.values()):
        keys += [(int(rng.integers(n)),) * 2, (-1, -1), ([n - 1, 0], [n - 1, 0]), (np.array([0, n - 1]), [0, n - 1])]
    for key, positions in keys:
        got = ctx.call(lambda: d[key])
        ctx.event("indexed")
        ctx.ok(type(got) is type(d), f"{name}: indexing gave {got!r}")
        for k, v in values(d).items():
            g = getattr(got, k)
            want = getattr(twin, k)
            if np.ndim(want) == 0:
                ctx.ok(g is v or g == v, f"{name}[{key!r}]: {k} is {g} instead of {v}", d=d)
                continue
            want = np.asarray(want)[positions]
            ctx.ok(np.shape(g) == np.shape(want) and np.array_equal(np.asarray(g), want), f"{name}[{key!r}]: {k} is {g} instead of {want}", d=d)
            if isinstance(v, pd.Series) and np.ndim(want):
                ctx.ok(isinstance(g, pd.Series) and g.index.equals(world.cols[positions]), f"{name}[{key!r}]: labels of {k} are {g}", d=d)
            if isinstance(v, xr.DataArray) and np.ndim(want):
                ctx.ok(
                    isinstance(g, xr.DataArray) and pd.Index(g.coords["t"].values).equals(world.cols[positions]),
                    f"{name}[{key!r}]: labels of {k} are {g}", d=d,
                )


@unit("C21", quick=24)
def constructors_and_products(ctx):
    rng = ctx.rng
    world = World(rng, KINDS[rng.integers(len(KINDS))])
    L = world.layout
    v = lambda: L.value(gen.positive_any(0.05, 60))  # noqa: E731
    unit_value = lambda: L.value(lambda r, s: r.uniform(0.02, 0.98, size=s))  # noqa: E731
    for name, f, kwargs in [
        ("Beta.from_mean", D.Beta.from_mean, dict(mean=unit_value(), alpha=v())),
        ("Beta.from_successes_and_failures", D.Beta.from_successes_and_failures, dict(successes=v(), failures=v())),
        ("Gamma.from_occurrences_in_intervals", D.Gamma.from_occurrences_in_intervals, dict(occurrences=v(), intervals=v())),
        ("Normal.from_mean_and_variance", D.Normal.from_mean_and_variance, dict(mean=v(), variance=v())),
        ("Normal.from_mean_and_precision", D.Normal.from_mean_and_precision, dict(mean=v(), precision=v())),
        ("ScaledInverseChiSquared.from_inverse_gamma", D.ScaledInverseChiSquared.from_inverse_gamma, dict(inverse_gamma=D.InverseGamma(v(), v()))),
        ("to_inverse_gamma", lambda d: d.to_inverse_gamma(), dict(d=D.ScaledInverseChiSquared(v(), v()))),
        ("Poisson * k", lambda d, k: d * k, dict(d=D.Poisson(v()), k=v())),
        ("Gamma * k", lambda d, k: d * k, dict(d=D.Gamma(v(), v()), k=v())),
        ("Exponential * k", lambda d, k: d * k, dict(d=D.Exponential(v()), k=v())),
        ("Normal * k", lambda d, k: d * k, dict(d=D.Normal(v(), v()), k=v())),
        ("NegativeBinomial * k", lambda d, k: d * k, dict(d=D.NegativeBinomial(v(), unit_value()), k=v())),
        ("Poisson + Poisson", lambda a, b: a + b, dict(a=D.Poisson(v()), b=D.Poisson(v()))),
    ]:
        kwargs, packed = pack(world, kwargs, "both")
        ctx.case(name, repr(kwargs), sample=(name, world.kind, kwargs))
        d = judge(ctx, name, world, f, kwargs, packed)
        if d is not None and rng.integers(5) == 0:
            evaluated(ctx, name, world, d)


@unit("C21", quick=24)
def categories(ctx):
    """Counts by category, for one group or one row per group, with the categories as labels."""
    rng = ctx.rng
    k, g = int(rng.integers(2, 6)), int(rng.integers(1, 5))
    world = World(rng, "series")
    kind = ["series", "frame", "xr", "xr2", "sequence"][rng.integers(5)]
    names, groups = world.index(k, plain=kind != "series"), world.index(g)
    model, predictive = [
        (M.categorical_dirichlet, M.categorical_dirichlet_predictive),
        (M.multinomial_dirichlet, M.multinomial_dirichlet_predictive),
    ][rng.integers(2)]
    alpha = gen.positive_any(0.05, 60)(rng, (k,))
    if rng.integers(3) == 0:
        alpha = np.floor(alpha) + 1
    counts = rng.integers(0, 40, size=(g, k) if kind in ("frame", "xr2") else k)
    if rng.integers(6) == 0:
        counts = np.zeros_like(counts)
    pd_prior = {"plain": None, "series": pd.Series(alpha, index=names)}
    order = rng.permutation(k)
    pd_prior["shuffled"] = pd.Series(alpha[order], index=names[order])
    sequences = [alpha, alpha.tolist(), tuple(alpha.tolist())]
    if kind in ("series", "frame"):
        x = pd.Series(counts, index=names) if kind == "series" else pd.DataFrame(counts, index=groups, columns=names)
        how = ["plain", "series", "shuffled"][rng.integers(3)]
        prior = pd_prior[how] if how != "plain" else sequences[rng.integers(3)]
    elif kind in ("xr", "xr2"):
        dims = ("kind",) if kind == "xr" else ("group", "kind")
        x = xr.DataArray(counts, dims=dims, coords={"kind": names, "group": groups} if kind == "xr2" else {"kind": names})
        how = "plain" if rng.integers(2) else "labelled"
        prior = alpha if how == "plain" else xr.DataArray(alpha, dims="kind", coords={"kind": names})
    else:
        x = [counts.tolist(), tuple(counts.tolist()), counts][rng.integers(3)]
        how = ["plain", "series"][rng.integers(2)]
        prior = pd_prior["series"] if how == "series" else sequences[rng.integers(3)]
    before = repr(x), repr(prior)
    ctx.case(model.__name__, repr(x), repr(prior), sample=(kind, how, type(prior).__name__))
    post = ctx.call(model, x=x, prior=D.Dirichlet(prior))
    got = post.alpha
    ctx.event(f"counts as {kind}, prior {how}")
    ctx.ok((repr(x), repr(prior)) == before, f"{model.__name__} changed its arguments", x=x, prior=prior)
    want = alpha + counts
    same = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=0)  # noqa: E731
    if kind == "series" or (kind == "sequence" and how == "series"):
        ctx.ok(isinstance(got, pd.Series), f"alpha of a Series is {got!r}", x=x, prior=prior)
        ctx.ok(len(got) == k and set(got.index) == set(names), f"labels of alpha are {got.index}", x=x, prior=prior)
        ctx.ok(same([got[name] for name in names], want), f"alpha is {got} instead of {want}", x=x, prior=prior)
    elif kind == "frame":
        ctx.ok(isinstance(got, pd.DataFrame) and got.index.equals(groups), f"alpha of a DataFrame is {got!r}", x=x, prior=prior)
        ctx.ok(got.shape == (g, k) and set(got.columns) == set(names), f"labels of alpha are {got.columns}", x=x, prior=prior)
        ctx.ok(same(np.stack([got[name].to_numpy() for name in names], -1), want), f"alpha is {got} instead of {want}", x=x, prior=prior)
    elif kind in ("xr", "xr2"):
        ctx.ok(isinstance(got, xr.DataArray) and set(got.dims) == set(x.dims), f"alpha of a DataArray is {got!r}", x=x, prior=prior)
        got_t = got.transpose(*x.dims)
        ctx.ok(all(c in got.coords and got.coords[c].equals(x.coords[c]) for c in x.coords), f"labels of alpha are {got.coords}", x=x, prior=prior)
        ctx.ok(same(got_t.to_numpy(), want), f"alpha is {got} instead of {want}", x=x, prior=prior)
    else:
        ctx.ok(same(np.asarray(got, dtype=float), want), f"alpha is {got} instead of {want}", x=x, prior=prior)
    # densities, and predictives with the same labels
    if how == "shuffled" or (kind in ("xr2",) and got.dims != x.dims):
        return
    point = rng.dirichlet(np.ones(k))
    twin = D.Dirichlet(want)
    if want.ndim == 1:
        a, b = ctx.call(lambda: post.dist.logpdf(point)), twin.dist.logpdf(point)
        ctx.ok(np.allclose(a, b, rtol=1e-9, atol=1e-9), f"log density with labels is {a}, without {b}", d=post)
        a, b = ctx.call(lambda: post.dist.mean()), want / want.sum()
        ctx.ok(np.allclose(a, b, rtol=1e-9), f"mean with labels is {a}, without {b}", d=post)
        ctx.event("evaluated")
    n = int(rng.integers(1, 9))
    pred = ctx.call(predictive, distribution=post, n=n)
    ctx.ok(type(pred.alpha) is type(got) and same(pred.alpha, got) and pred.n == n, f"predictive of {got} is {pred}", d=post)
    if isinstance(got, (pd.Series, pd.DataFrame, xr.DataArray)):
        ctx.ok(pred.alpha.equals(got), f"predictive of {got} has {pred.alpha}", d=post)
    if want.ndim == 1:
        draw = rng.multinomial(n, point)
        a, b = ctx.call(lambda: pred.dist.logpmf(draw)), D.DirichletMultinomial(alpha=want, n=n).dist.logpmf(draw)
        ctx.ok(np.allclose(a, b, rtol=1e-9, atol=1e-9), f"log probability with labels is {a}, without {b}", d=post)


@unit("C21", quick=24)
def tables(ctx):
    """From a table of events by group to posteriors and predictives with the groups as labels."""
    rng = ctx.rng
    rows = int(rng.integers(6, 60))
    df = pd.DataFrame(
        {
            "group": rng.choice(["north", "south", "east", "west"], size=rows),
            "bought": rng.integers(0, 2, size=rows),
            "value": rng.normal(2.0, 1.5, size=rows),
            "wait": rng.exponential(2.0, size=rows),
        }
    )
    a, b = [float(k) for k in rng.gamma(2.0, size=2) + 0.2]
    ctx.case("table", df.to_csv(), a, b, sample=df.head())
    groups = df.groupby("group")
    table = groups.agg(
        n=("bought", "count"), x=("bought", "sum"), total=("value", "sum"), wait=("wait", "sum")
    )
    table["squares"] = (df["value"] ** 2).groupby(df["group"]).sum()
    runs = {
        "binomial": (
            lambda t: M.binomial_beta(n=t["n"], x=t["x"], prior=D.Beta(a, b)),
            lambda s: M.binomial_beta(n=int(s["bought"].count()), x=int(s["bought"].sum()), prior=D.Beta(a, b)),
        ),
        "exponential": (
            lambda t: M.exponential_gamma(x_total=t["wait"], n=t["n"], prior=D.Gamma(a, b)),
            lambda s: M.exponential_gamma(x_total=float(s["wait"].sum()), n=len(s), prior=D.Gamma(a, b)),
        ),
        "normal": (
            lambda t: M.normal(x_total=t["total"], x2_total=t["squares"], n=t["n"], prior=D.NormalInverseGamma(0.0, a, b, nu=1.0)),
            lambda s: M.normal(x_total=float(s["value"].sum()), x2_total=float((s["value"] ** 2).sum()), n=len(s), prior=D.NormalInverseGamma(0.0, a, b, nu=1.0)),
        ),
    }
    for name, (all_groups, one_group) in runs.items():
        post = ctx.call(all_groups, table)
        for g, rows_of in groups:
            one = ctx.call(one_group, rows_of)
            for k, w in values(one).items():
                if w is None:
                    continue
                v = getattr(post, k)
                v = v if np.ndim(v) == 0 else v.loc[g]
                ctx.ok(near(float(v), float(w), 1e3), f"{name}: {k} of group {g} is {v} in the table and {w} alone", table=table)
        ctx.event("groups", len(table))
    beta = ctx.call(M.binomial_beta, n=table["n"], x=table["x"], prior=D.Beta(a, b))
    # as columns of another table
    out = table.assign(alpha=beta.alpha, beta=beta.beta, mean=beta.dist.mean())
    for g in table.index:
        one = beta[g]
        ctx.ok(
            (one.alpha, one.beta) == (out.loc[g, "alpha"], out.loc[g, "beta"]) and near(one.dist.mean(), out.loc[g, "mean"], 1),
            f"group {g} is {one} but the columns are {out.loc[g]}",
        )
    pred = ctx.call(M.binomial_beta_predictive, n=5, distribution=beta)
    ctx.ok(isinstance(pred.alpha, pd.Series) and pred.alpha.index.equals(table.index), "the predictive lost the groups")
    best = out["mean"].idxmax()
    ctx.ok(beta[best].dist.mean() == max(beta[g].dist.mean() for g in table.index), "the best group by label is another one by index")
