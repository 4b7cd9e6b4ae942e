"""Monitors of what the plots put on the axes ("C28", "C29", "C30")."""

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from scipy.special import betainc

from conjugate import distributions as D

from vmon import dists, gen
from vmon.core import rule, unit

rule(
    "C28",
    "Every plot of every class with scalar and vector parameters in several containers, bounds "
    "set in every way or natural, on given, current and polar axes that already hold lines; the "
    "drawn lines are read back from the axes; a case is one plot; distinct by parameters, bounds "
    "and entry point.",
    ["drawn values within 1e-5 relative of an independent reference, 1e-9 of the element alone"],
)
rule(
    "C29",
    "Conditional plots of every discrete class with scalar and vector parameters and random "
    "bounds; the drawn lines are read back; a case is one plot; distinct by parameters and bounds.",
    ["bounds that hold at least 1e-9 of the probability"],
)
rule(
    "C30",
    "Every kind of label, colour and option in random combinations for one and several lines; "
    "labels, colours and options are read back from the lines and from the legend; a case is one "
    "plot; distinct by arguments.",
)

NATURAL_TOP = {
    "Beta": lambda d: 1.0,
    "Binomial": lambda d: np.max(d.n),
    "BetaBinomial": lambda d: np.max(d.n),
    "BetaNegativeBinomial": lambda d: np.max(d.n),
    "Hypergeometric": lambda d: np.max(d.N),
    "Uniform": lambda d: np.max(d.high),
    "VonMises": lambda d: np.pi,
}
NATURAL_BOTTOM = {"Uniform": lambda d: np.min(d.low), "VonMises": lambda d: -np.pi}


# parameters given as lists work like arrays
LISTS = ("Beta", "Normal", "Poisson", "Uniform", "Binomial", "BetaBinomial", "BetaNegativeBinomial")


def subject(ctx, discrete=None, several=None):
    """A random distribution that can be plotted and how many lines it has."""
    rng = ctx.rng
    names = [n for n, r in dists.REFS.items() if discrete is None or r.discrete == discrete]
    name = names[(ctx.rep + int(rng.integers(len(names)))) % len(names)]
    ref = dists.REFS[name]
    kind = ["pyscalar", "npscalar", "zerod", "vec", "vec", "vec", "size1"][rng.integers(7)]
    if several is not None:
        kind = "vec" if several else "pyscalar"
    L = gen.Layout(rng, kind)
    if kind == "vec" and rng.integers(6) == 0:
        L.shapes = [(gen.few(rng, 6, 15, 50),)]  # many lines
    kw = ref.gen(L)
    if name in LISTS and rng.integers(3) == 0:
        kw = {k: v.tolist() if isinstance(v, np.ndarray) and k != "one_start" else v for k, v in kw.items()}
    elif kind == "vec" and rng.integers(6) == 0:
        label = lambda v: pd.Series(v, index=[f"row {i}" for i in rng.permutation(len(v))])  # noqa: E731
        kw = {k: label(v) if isinstance(v, np.ndarray) and v.ndim == 1 else v for k, v in kw.items()}
        rows = next((v.index for v in kw.values() if isinstance(v, pd.Series)), None)
        kw = {k: v.set_axis(rows) if isinstance(v, pd.Series) and len(v) == len(rows) else v for k, v in kw.items()}
    d = ref.make(D, kw)
    shape = ref.shape(ref.params(d))
    return ref, d, int(np.prod(shape, dtype=int)), gen.key_of(**kw)


def alone(ref, d, i):
    """The i-th distribution with numbers as parameters."""
    out = {}
    for k in ref.fields:
        v = getattr(d, k)
        out[k] = v if k == "one_start" or np.ndim(v) == 0 else np.asarray(v)[i if np.shape(v)[0] > 1 else 0].item()
    return type(d)(**out)


def random_bounds(rng, ref, d, count):
    if ref.discrete:
        lo = int(rng.integers(0, 6)) if rng.integers(4) else int(rng.integers(-3, 1))
        hi = lo + int(rng.integers(1, [15, 16, 45][rng.integers(3)]))
        if rng.integers(5) == 0:
            lo, hi = lo + float(rng.choice([0, 0.25, 0.5])), hi + float(rng.choice([0, 0.4, 0.75]))
        elif rng.integers(10) == 0:
            hi = lo + int(rng.integers(100, 700))
        elif rng.integers(12) == 0:
            lo, hi = -int(rng.integers(0, 4)), 0
        elif rng.integers(15) == 0:
            hi = lo  # one value only
        elif rng.integers(10) == 0:  # just inside of whole numbers, or just outside
            lo, hi = (v + float(rng.choice([-1, 1])) * 10.0 ** -float(rng.integers(3, 11)) for v in (lo, hi))
        if rng.integers(8) == 0:
            lo, hi = np.asarray(lo)[()], np.asarray(hi)[()]
        return lo, hi
    if ref.name == "VonMises":
        a, b = np.sort(rng.uniform(-np.pi, np.pi, size=2))
        mode = rng.integers(5)
        if mode == 0:
            a, b = 0, abs(b)
        elif mode == 1:
            a, b = -abs(a), 0
        return float(a), float(b)
    p = ref.params(d)
    with np.errstate(all="ignore"):
        lo = float(np.min(ref.quantile(p, rng.uniform(0.01, 0.4))))
        hi = float(np.max(ref.quantile(p, rng.uniform(0.6, 0.99))))
    mode = rng.integers(9)
    if mode == 6:
        hi = hi + 10.0 ** float(rng.uniform(1, 7))
    elif mode == 7:
        lo, hi = [(-abs(hi) - 1.0, [0.0, 0][rng.integers(2)]), (0, abs(hi) + 0.5), (-1, abs(hi) + 1)][rng.integers(3)]
    elif mode == 0:
        lo = lo - 1.0  # also outside of the support
    elif mode == 1:
        hi = hi + 2.0
    elif mode == 2:
        lo, hi = int(np.floor(lo)), int(np.ceil(hi)) + 1
    if rng.integers(8) == 0:
        lo, hi = np.asarray(lo)[()], np.asarray(hi)[()]
    return lo, hi


def settle(ctx, ref, d, count):
    """Set the bounds in some way; what they have to be, or None without an upper one."""
    rng = ctx.rng
    lo, hi = random_bounds(rng, ref, d, count)
    bottom = NATURAL_BOTTOM.get(ref.name, lambda d: 0.0)(d)
    mode = rng.integers(7)
    if mode == 0:
        back = ctx.call(d.set_bounds, lo, hi)
    elif mode == 1:
        back = ctx.call(lambda: d.set_min_value(lo).set_max_value(hi))
    elif mode == 2:
        d.max_value, d.min_value, back = hi, lo, d
    elif mode == 3:
        back = ctx.call(d.set_bounds, lower=lo - 1, upper=hi + 3)
        back = ctx.call(d.set_bounds, lower=lo, upper=hi)
    elif mode == 4:
        if hi <= bottom:
            hi = bottom + 1 + abs(hi)
        back, lo = ctx.call(d.set_max_value, hi), bottom
    elif ref.name in NATURAL_TOP:
        top = NATURAL_TOP[ref.name](d)
        if mode == 5:
            lo = min(lo, int(np.ceil(top)) - 1 if ref.discrete else top - 0.25)
            back, hi = ctx.call(d.set_min_value, lo), top
        else:
            back, lo, hi = d, bottom, top
    else:
        if mode == 5:
            ctx.call(d.set_min_value, lo)
        return None
    ctx.ok(back is d, f"{ref.name}: setting bounds returned {back!r}")
    return lo, hi


class Canvas:
    """Axes to plot on, with others around them, and what has been drawn."""

    def __init__(self, ctx, polar=False):
        rng = ctx.rng
        self.ctx = ctx
        self.fig, axes = plt.subplots(1, 2, subplot_kw=dict(polar=True) if polar else None)
        which = int(rng.integers(2))
        self.ax, self.other = axes[which], axes[1 - which]
        self.given = bool(polar or rng.integers(2))
        if self.given and rng.integers(4) == 0:  # of a figure that pyplot does not know
            self.ax = Figure().add_subplot(projection="polar" if polar else None)
        self.point()
        self.before = []
        if rng.integers(2):
            self.before = self.ax.plot([0.1, 0.2, 0.3], [0.3, 0.4, 0.1], label="_there")

    def point(self):
        """Make the current axes those that are meant to be it."""
        self.current = self.other if self.given else self.ax
        plt.sca(self.current)

    def kwargs(self):
        return dict(ax=self.ax) if self.given else {}

    def lines(self):
        return [line for line in self.ax.lines if line not in self.before]

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        plt.close(self.fig)

    def settled(self, what, returned):
        ok = self.ctx.ok
        ok(returned is self.ax, f"{what}: returned {returned!r} instead of the axes drawn on", given=self.given)
        ok(not self.other.lines, f"{what}: drew on other axes", given=self.given)
        ok(plt.get_fignums()[-1:] == [self.fig.number], f"{what}: opened or closed figures", given=self.given)
        ok(
            plt.gcf() is self.fig and self.fig.gca() is self.current,
            f"{what}: changed which axes are the current ones", given=self.given,
        )
        for line in self.before:
            ok(
                line in self.ax.lines and np.array_equal(line.get_ydata(), [0.3, 0.4, 0.1]),
                f"{what}: changed a line that was there",
            )


def entries(ref):
    return ["plot_pmf" if ref.discrete else "plot_pdf", "plot_cdf"]


def judge_points(ctx, what, ref, x, lo, hi, /, **info):
    x = np.asarray(x, float)
    if ref.discrete:
        want = np.array([k for k in range(int(np.ceil(lo)), int(np.floor(hi)) + 1)], float)
        return ctx.ok(np.array_equal(x, want), f"{what}: drawn at {x} between {lo} and {hi}", **info)
    good = x.ndim == 1 and len(x) >= 2 and x[0] == lo and x[-1] == hi
    good = good and bool(np.all(np.diff(x) >= 0)) and np.diff(x).max() <= (hi - lo) / 20
    return ctx.ok(good, f"{what}: positions {x} do not cover {lo} to {hi}", **info)


def judge_line(ctx, what, ref, d, i, entry, x, y, /, **info):
    one = alone(ref, d, i)
    func = {"plot_pmf": "pmf", "plot_pdf": "pdf", "plot_cdf": "cdf"}[entry]
    want = getattr(one.dist, func)(x)
    ctx.ok(
        np.allclose(y, want, rtol=1e-9, atol=1e-12, equal_nan=True),
        f"{what}: line {i} does not show the {func} of its distribution", line=y, want=want, x=x, **info,
    )
    p = ref.params(one)
    if entry == "plot_cdf":
        if ref.name == "VonMises" or ref.cdf is None:
            return
        true = ref.cdf(p, x)
        inside = np.isfinite(true)
    else:
        true = np.exp(ref.logpdf(p, x))
        bounds = ref.support(p)
        # on the edge of the support the density may be anything
        inside = np.isfinite(true) & np.isfinite(y)
        if not ref.discrete and ref.name != "VonMises":
            inside &= (abs(x - bounds[0]) > 1e-9) & (abs(x - bounds[1]) > 1e-9)
    size = abs(true[inside]).max(initial=0)
    ctx.ok(
        np.allclose(y[inside], true[inside], rtol=1e-5, atol=1e-7 * max(size, 1e-3)),
        f"{what}: line {i} is not the true function", line=y[inside], want=true[inside], x=x[inside], **info,
    )
    ctx.event("points", len(x))


@unit("C28", quick=150)
def lines_are_the_functions(ctx):
    rng = ctx.rng
    ref, d, count, key = subject(ctx)
    bounds = settle(ctx, ref, d, count)
    entry = entries(ref)[rng.integers(2)]
    what = f"{ref.name}.{entry}"
    ctx.case(what, key, repr(bounds), sample=(what, d, bounds))
    with Canvas(ctx, polar=not ref.discrete and rng.integers(6) == 0) as canvas:
        if bounds is None:
            try:
                getattr(d, entry)(**canvas.kwargs())
            except ValueError:
                ctx.ok(not canvas.lines(), f"{what}: drew without an upper bound", d=d)
                ctx.event("refused")
            except Exception as exc:  # noqa: BLE001
                ctx.fail(f"{what}: {exc!r} without an upper bound", d=d)
            else:
                ctx.fail(f"{what}: no ValueError without an upper bound", d=d)
            lo, hi = bounds = random_bounds(rng, ref, d, count)
            ctx.call(d.set_bounds, lo, hi)
        lo, hi = bounds
        info = dict(d=d, bounds=bounds)
        ax = ctx.call(getattr(d, entry), **canvas.kwargs())
        canvas.settled(what, ax)
        drawn = canvas.lines()
        if not ctx.ok(len(drawn) == count, f"{what}: {len(drawn)} lines for {count} distributions", **info):
            return
        for i, line in enumerate(drawn):
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            if judge_points(ctx, what, ref, x, lo, hi, **info):
                with np.errstate(all="ignore"):
                    judge_line(ctx, what, ref, d, i, entry, x, y, **info)
        ctx.event("lines", count)
        # the other plot and a second time, on the same axes
        other = entries(ref)[rng.integers(2)]
        ctx.call(getattr(d, other), **canvas.kwargs())
        again = canvas.lines()
        ctx.ok(again[:count] == drawn and len(again) == 2 * count, f"{what}: a second plot lost lines", **info)
        line = again[-1]
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        if judge_points(ctx, f"{ref.name}.{other}", ref, x, lo, hi, **info):
            with np.errstate(all="ignore"):
                judge_line(ctx, f"{ref.name}.{other}", ref, d, count - 1, other, x, y, **info)
        if rng.integers(2):
            plot_elsewhere(ctx, ref, d, count, what)
    plot_elsewhere(ctx, ref, d, count, what)


def plot_elsewhere(ctx, ref, d, count, what):
    """The same distribution again, in other axes and with other bounds."""
    rng = ctx.rng
    lo, hi = d.min_value, d.max_value
    if rng.integers(2):
        lo, hi = random_bounds(rng, ref, d, count)
        ctx.call(d.set_bounds, lo, hi)
    entry = entries(ref)[rng.integers(2)]
    with Canvas(ctx) as canvas:
        ax = ctx.call(getattr(d, entry), **canvas.kwargs())
        canvas.settled(what + " again", ax)
        drawn = canvas.lines()
        if ctx.ok(len(drawn) == count, f"{what} again: {len(drawn)} lines for {count} distributions", d=d):
            for i in {0, count - 1}:
                x, y = (np.asarray(v, float) for v in drawn[i].get_data())
                if judge_points(ctx, what + " again", ref, x, lo, hi, d=d):
                    with np.errstate(all="ignore"):
                        judge_line(ctx, what + " again", ref, d, i, entry, x, y, d=d)
    ctx.event("plots elsewhere")


@unit("C28", quick=100)
def axes_are_described(ctx):
    """What the axes say, and that they show the lines from zero upwards."""
    rng = ctx.rng
    ref, d, count, key = subject(ctx)
    lo, hi = random_bounds(rng, ref, d, count)
    ctx.call(d.set_bounds, lo, hi)
    entry = entries(ref)[rng.integers(2)]
    what = f"{ref.name}.{entry}"
    conditional = bool(ref.discrete and rng.integers(2))
    ctx.case("axes", what, key, lo, hi, conditional, sample=(what, d, lo, hi, conditional))
    polar = not ref.discrete and rng.integers(4) == 0
    with Canvas(ctx, polar=polar) as canvas:
        if rng.integers(2):
            canvas.ax.set_ylim(-3, 50)
        if not polar and rng.integers(3) == 0:  # described by something else before
            canvas.ax.set(xlabel="Before", ylabel="Something else")
        given = dict(conditional=True) if conditional else {}
        with np.errstate(all="ignore"):
            ctx.call(getattr(d, entry), **given, **canvas.kwargs())
        ctx.event("axes")
        bottom = canvas.ax.get_rmin() if polar else canvas.ax.get_ylim()[0]
        ctx.ok(bottom == 0, f"{what}: the axes start at {bottom}", d=d)
        x, y = canvas.ax.get_xlabel(), canvas.ax.get_ylabel()
        if polar:
            ctx.ok(x == y == "", f"{what}: polar axes are called {x!r} and {y!r}", d=d)
            return
        ctx.ok(x == "Domain", f"{what}: the x axis is called {x!r}", d=d)
        if ref.discrete:
            name = ["Probability $f(x", "Cumulative Probability $F(X \\leq x"][entry == "plot_cdf"]
            name = f"Conditional {name}|{lo} \\leq x \\leq {hi})$" if conditional else f"{name})$"
        else:
            name = ["Density $f(x)$", "Cumulative Density $F(x)$"][entry == "plot_cdf"]
        ctx.ok(y == name, f"{what}: the y axis is called {y!r} instead of {name!r}", d=d)
        if ref.discrete and np.floor(hi) >= np.ceil(lo):  # marked values are values of the distribution
            ticks = canvas.ax.get_xticks()
            inside = [t for t in ticks if lo <= t <= hi]
            ctx.ok(
                len(inside) > 0 and np.array_equal(inside, np.round(inside)),
                f"{what}: ticks at {ticks} between {lo} and {hi}", d=d,
            )


@unit("C28", quick=120)
def bounds_stay_with_their_distribution(ctx):
    """Bounds of one object do not reach another, and indexing starts afresh."""
    rng = ctx.rng
    ref, d, count, key = subject(ctx)
    again = type(d)(**{k: getattr(d, k) for k in ref.fields})
    lo, hi = random_bounds(rng, ref, d, count)
    ctx.call(d.set_bounds, lo, hi)
    ctx.case("own", ref.name, key, lo, hi, sample=(d, lo, hi))
    ctx.ok((d.min_value, d.max_value) == (lo, hi), f"{ref.name}: bounds {lo}, {hi} became {d.min_value}, {d.max_value}")
    ends = [(0, 2.5), (-1.5, 0), (0.0, 1), (-2, -1), (-0.25, 0.0)][rng.integers(5)]
    one = type(d)(**{k: getattr(d, k) for k in ref.fields})
    ctx.call(one.set_bounds, *ends)
    ctx.ok((one.min_value, one.max_value) == ends, f"{ref.name}: bounds {ends} became {one.min_value}, {one.max_value}")
    ctx.ok((d.min_value, d.max_value) == (lo, hi), f"{ref.name}: bounds of another object reach {d.min_value}, {d.max_value}")
    top = NATURAL_TOP.get(ref.name)
    try:
        got = again.max_value
    except ValueError:
        got = None
    ctx.ok(got == (top and top(d)), f"{ref.name}: upper bound of another object is {got}", d=d)
    bottom = NATURAL_BOTTOM.get(ref.name, lambda d: 0.0)(d)
    ctx.ok(again.min_value == bottom, f"{ref.name}: lower bound of another object is {again.min_value}", d=d)
    ctx.event("pairs")


@unit("C28", quick=16)
def dirichlet(ctx):
    """Densities of the categories, estimated from samples."""
    rng = ctx.rng
    k = int(rng.integers(2, 6))
    alpha = rng.uniform(2.0, 30.0, size=k)
    d = D.Dirichlet([alpha, alpha.tolist()][rng.integers(2)])
    n = int(rng.integers(4000, 9000))
    lo, hi = 0, 1
    if rng.integers(3) == 0:
        lo, hi = float(rng.uniform(0, 0.4)), float(rng.uniform(0.5, 1))
        ctx.call(d.set_bounds, lo, hi)
    ctx.case("dirichlet", alpha.tobytes(), n, sample=(d, n))
    with Canvas(ctx) as canvas:
        ax = ctx.call(d.plot_pdf, samples=n, random_state=int(rng.integers(2**31)), **canvas.kwargs())
        canvas.settled("Dirichlet.plot_pdf", ax)
        drawn = canvas.lines()
        if not ctx.ok(len(drawn) == k, f"Dirichlet.plot_pdf: {len(drawn)} lines for {k} categories", d=d):
            return
        for i, line in enumerate(drawn):
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            ctx.ok(x[0] == lo and x[-1] == hi and np.all(np.diff(x) > 0), f"Dirichlet.plot_pdf: positions {x}", d=d)
            a, b = alpha[i], alpha.sum() - alpha[i]
            # distribution function of the line against that of the category
            got = np.concatenate([[0.0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
            worst = abs(got + betainc(a, b, lo) - betainc(a, b, x)).max()
            ctx.ok(worst < 0.09, f"Dirichlet.plot_pdf: line {i} is {worst} off the density of its category", d=d, y=y)
            ctx.event("points", len(x))


# -------------------------------------------------------------- conditional
@unit("C29", quick=150)
def conditional(ctx):
    rng = ctx.rng
    ref, d, count, key = subject(ctx, discrete=True)
    lo, hi = random_bounds(rng, ref, d, count)
    grid = np.arange(int(np.ceil(lo)), int(np.floor(hi)) + 1, dtype=float)
    with np.errstate(all="ignore"):
        pmf = np.array([np.exp(ref.logpdf(ref.params(alone(ref, d, i)), grid)) for i in range(count)])
    if not np.all(pmf.sum(axis=1) > 1e-9) or not np.all(np.isfinite(pmf)):
        ctx.event("bounds without probability")
        return
    entry = entries(ref)[rng.integers(2)]
    what = f"conditional {ref.name}.{entry}"
    ctx.case(what, key, lo, hi, sample=(what, d, lo, hi))
    info = dict(d=d, lo=lo, hi=hi)
    ctx.call(d.set_bounds, lo, hi)
    with Canvas(ctx) as canvas:
        extra = dict(label=lambda i: f"{i}") if rng.integers(2) else {}
        ax = ctx.call(getattr(d, entry), conditional=True, **extra, **canvas.kwargs())
        canvas.settled(what, ax)
        drawn = canvas.lines()
        if not ctx.ok(len(drawn) == count, f"{what}: {len(drawn)} lines for {count} distributions", **info):
            return
        for i, line in enumerate(drawn):
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            if not ctx.ok(np.array_equal(x, grid), f"{what}: drawn at {x}", **info):
                continue
            ctx.event("lines")
            if entry == "plot_pmf":
                ctx.ok(abs(y.sum() - 1) < 1e-9, f"{what}: line {i} sums to {y.sum()}", **info)
                ctx.ok(
                    np.allclose(y, pmf[i] / pmf[i].sum(), rtol=1e-5, atol=1e-9),
                    f"{what}: line {i} is not proportional to the probabilities", got=y, want=pmf[i] / pmf[i].sum(), **info,
                )
                continue
            want = np.cumsum(pmf[i]) / pmf[i].sum()
            if np.allclose(y, want, rtol=1e-5, atol=1e-8):
                continue
            with np.errstate(all="ignore"):
                full = ref.cdf(ref.params(alone(ref, d, i)), grid)
            if np.allclose(y, full / full.sum(), rtol=1e-5, atol=1e-8):
                ctx.known("conditional-cdf-not-cumulative", f"{what} is F(x) divided by the sum of F")
            else:
                ctx.fail(f"{what}: line {i} does not end at one", got=y, want=want, **info)


@unit("C29", quick=30)
def unconditional_is_default(ctx):
    """Not asking for it, or asking not to, leaves the probabilities as they are."""
    rng = ctx.rng
    ref, d, count, key = subject(ctx, discrete=True)
    lo, hi = random_bounds(rng, ref, d, count)
    ctx.call(d.set_bounds, lo, hi)
    ctx.case("unconditional", ref.name, key, lo, hi, sample=(d, lo, hi))
    with Canvas(ctx) as canvas:
        entry = entries(ref)[rng.integers(2)]
        ctx.call(getattr(d, entry), conditional=True, **canvas.kwargs())
        ctx.call(getattr(d, entry), **(dict(conditional=False) if rng.integers(2) else {}), **canvas.kwargs())
        for i, line in enumerate(canvas.lines()[count:]):
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            if judge_points(ctx, f"{ref.name}.{entry}", ref, x, lo, hi, d=d):
                with np.errstate(all="ignore"):
                    judge_line(ctx, f"{ref.name}.{entry}", ref, d, i, entry, x, y, d=d)


# ------------------------------------------------- labels, colours, options
SINGLE = ["red", "#aa33cc", "0.35", "C3", (0.1, 0.2, 0.3), (0.4, 0.1, 0.3, 0.5), np.array([0.2, 0.4, 0.9]), "xkcd:teal"]
MANY = [
    ["red", "green", "black", "orange", "purple", "cyan"],
    [(0.1, 0.2, 0.3), (0.9, 0.8, 0.3), (0.1, 0.7, 0.0), (0.5, 0.5, 0.5), (0.0, 0.1, 0.9)],
    np.array([[0.1, 0.2, 0.3], [0.4, 0.6, 0.1], [0.9, 0.9, 0.1], [0.3, 0.3, 0.6], [0, 0, 1.0]]),
    ["C4", "0.2", "#123456", "C1", "0.8"],
    np.stack([np.linspace(0, 1, 40), np.linspace(1, 0, 40), np.full(40, 0.25), np.full(40, 0.5)], axis=1),
    [f"#{i:02x}{(7 * i) % 256:02x}40" for i in range(60)],
]


def labels(rng, count):
    """A label argument and the labels that the lines have to get."""
    high = [100, 2, 1][rng.integers(3)]  # the same name may come twice
    names = [f"{w} {rng.integers(high)}" for w in rng.choice(["alpha", "A/B", "$x$", "é", "group"], size=count)]
    mode = rng.integers(7)
    if mode == 0:
        return dict(label=None), [None] * count
    if mode == 1:
        return {}, [None] * count
    if mode == 2:
        text = ["posterior", "a b", "7"][rng.integers(3)]
        return dict(label=text), [text] if count == 1 else [f"{text} {i}" for i in range(1, count + 1)]
    if mode == 3:
        return dict(label=lambda i: f"<{i}> {names[i]}"), [f"<{i}> {names[i]}" for i in range(count)]
    if mode == 4:
        return dict(label=names.__getitem__), names
    kind = rng.integers(7)
    if kind >= 4:  # numbers, of a column of a table for instance
        numbers = rng.integers(0, 50, size=count)
        value = [numbers, pd.Series(numbers, index=rng.permutation(count)), numbers / 4][kind - 4]
        return dict(label=value), list(value)
    value = [list, tuple, np.array, lambda n: {f"{k}{i}": i for i, k in enumerate(n)}][kind](names)
    return dict(label=value), list(value) if isinstance(value, dict) else names


def colours(rng, count):
    mode = rng.integers(6)
    if mode < 2:
        return {}, None
    if mode < 4:
        one = SINGLE[rng.integers(len(SINGLE))]
        return dict(color=one), [one] * count
    many = MANY[rng.integers(len(MANY))]
    size = int(rng.integers(1, len(many) + 1)) if rng.integers(2) else len(many)
    many = many[:size]
    if isinstance(many, list) and rng.integers(2):
        many = tuple(many)
        if len(many) in (3, 4) and all(np.ndim(c) == 0 and not isinstance(c, str) for c in many):
            many = list(many)
    return dict(color=many), [many[i % len(many)] for i in range(count)]


def options(rng, discrete):
    """Other options, with what reads them back."""
    table = {
        "linestyle": (["--", ":", "-."], "get_linestyle"),
        "linewidth": ([0.5, 3.0, 2], "get_linewidth"),
        "alpha": ([0.25, 0.9], "get_alpha"),
        "zorder": ([5, 7.5], "get_zorder"),
        "markersize": ([3, 9.0], "get_markersize"),
        "marker": (["x", "s", "D"], "get_marker"),
        "visible": ([True, False], "get_visible"),
        "drawstyle": (["steps-post", "steps-mid"], "get_drawstyle"),
        "gid": (["g", "h"], "get_gid"),
    }
    if discrete:  # these are in the format string
        del table["linestyle"], table["marker"]
    out = {}
    for k in rng.choice(list(table), size=int(rng.integers(0, 4)), replace=False):
        out[k] = table[k][0][rng.integers(len(table[k][0]))]
    return out, {k: table[k][1] for k in out}


def judge_looks(ctx, what, canvas, drawn, names, cols, opts, readers, default, **info):
    for i, line in enumerate(drawn):
        got = line.get_label()
        if names[i] is None:
            ctx.ok(str(got).startswith("_"), f"{what}: line {i} without a label is called {got!r}", **info)
        else:
            ctx.ok(got == str(names[i]), f"{what}: line {i} is called {got!r} instead of {names[i]!r}", **info)
        want = cols[i] if cols is not None else default[i]
        ctx.ok(
            to_rgba(line.get_color()) == to_rgba(want), f"{what}: line {i} is {line.get_color()!r} instead of {want!r}", **info
        )
        for k, v in opts.items():
            got = getattr(line, readers[k])()
            ctx.ok(got == v, f"{what}: {k} of line {i} is {got!r} instead of {v!r}", **info)
    ctx.event("lines", len(drawn))
    shown = [str(n) for n in names if n is not None]
    _, got = canvas.ax.get_legend_handles_labels()
    ctx.ok(got == shown, f"{what}: the legend has {got} instead of {shown}", **info)
    if shown:
        legend = canvas.ax.legend()
        texts = [t.get_text() for t in legend.get_texts()]
        ctx.ok(texts == shown, f"{what}: the legend shows {texts} instead of {shown}", **info)


def default_colours(canvas, count):
    """What lines without a colour get on these axes."""
    fig, ax = plt.subplots()
    try:
        for _ in canvas.before:
            ax.plot([0, 1], [0, 1])
        return [ax.plot([0, 1], [0, 1])[0].get_color() for _ in range(count + 1)]
    finally:
        plt.close(fig)


@unit("C30", quick=150)
def looks(ctx):
    rng = ctx.rng
    ref, d, count, key = subject(ctx, several=bool(rng.integers(3)))
    lo, hi = random_bounds(rng, ref, d, count)
    ctx.call(d.set_bounds, lo, hi)
    entry = entries(ref)[rng.integers(2)]
    what = f"{ref.name}.{entry}"
    label, names = labels(rng, count)
    colour, cols = colours(rng, count)
    opts, readers = options(rng, ref.discrete)
    info = dict(count=count, label=label.get("label"), color=colour.get("color"), options=opts)
    extra = {}
    if ref.discrete:
        if rng.integers(2):
            extra["mark"] = ["x--", "s:", "D-", "."][rng.integers(4)]
        if rng.integers(3) == 0:
            extra["conditional"] = True
    ctx.case(what, key, repr(info), sample=(what, d, info))
    with Canvas(ctx) as canvas:
        default = default_colours(canvas, count)
        canvas.point()
        given = {**label, **colour, **opts, **extra}
        with np.errstate(all="ignore"):
            ax = ctx.call(getattr(d, entry), **given, **canvas.kwargs())
        canvas.settled(what, ax)
        drawn = canvas.lines()
        if not ctx.ok(len(drawn) == count, f"{what}: {len(drawn)} lines for {count} distributions", **info):
            return
        judge_looks(ctx, what, canvas, drawn, names, cols, opts, readers, default, **info)
        if ref.discrete:
            mark = extra.get("mark", "o-")
            for line in drawn:
                style = line.get_linestyle() if len(mark) > 1 else "None"
                ctx.ok(
                    line.get_marker() == mark[0] and line.get_linestyle() == (mark[1:] or "None") and style,
                    f"{what}: mark {mark!r} gave {line.get_marker()!r} and {line.get_linestyle()!r}", **info,
                )
        single = cols is not None and (len(colour) and not isinstance(colour["color"], (list,)) and is_one(colour["color"]))
        if single or cols is None:
            # whatever is plotted next is as if the colour had not been given
            used = 0 if single else count
            later = canvas.ax.plot([0, 1], [0, 1])[0].get_color()
            ctx.ok(
                to_rgba(later) == to_rgba(default[used]), f"{what}: the next line on the axes is {later!r} instead of {default[used]!r}", **info
            )


def is_one(colour):
    try:
        to_rgba(colour)
    except (ValueError, TypeError):
        return False
    return True


@unit("C30", quick=12)
def dirichlet_looks(ctx):
    rng = ctx.rng
    count = int(rng.integers(2, 5))
    d = D.Dirichlet(rng.uniform(1.5, 9.0, size=count))
    label, names = labels(rng, count)
    colour, cols = colours(rng, count)
    opts, readers = options(rng, False)
    info = dict(count=count, label=label.get("label"), color=colour.get("color"), options=opts)
    what = "Dirichlet.plot_pdf"
    ctx.case(what, repr(info), sample=(d, info))
    with Canvas(ctx) as canvas:
        default = default_colours(canvas, count)
        canvas.point()
        ax = ctx.call(d.plot_pdf, samples=80, **label, **colour, **opts, **canvas.kwargs())
        canvas.settled(what, ax)
        drawn = canvas.lines()
        if ctx.ok(len(drawn) == count, f"{what}: {len(drawn)} lines for {count} categories", **info):
            judge_looks(ctx, what, canvas, drawn, names, cols, opts, readers, default, **info)
