"""Monitors of arithmetic on objects that act like numbers (property "C20").

The real models run on expression trees that can do nothing but arithmetic, on
fractions, and on SQL columns; the expressions they return are evaluated for
several assignments of values and compared with the numeric call.
"""

import sqlite3
from fractions import Fraction

import numpy as np

from conjugate import distributions as D
from conjugate import models as M

from vmon import bayes, gen, hist, preds, sym
from vmon.checks.array_checks import magnitude, parts
from vmon.core import rule, unit

rule(
    "C20",
    "Every element-wise, proportional, Dirichlet and matrix model that is built from arithmetic, "
    "every predictive, alternative constructor and scaling, with a random subset of the numeric "
    "arguments replaced by expression objects (scalar trees, trees that numpy defers to, object "
    "arrays of trees, fractions, SQL columns executed by sqlite, sympy symbols), evaluated for "
    "several assignments; a case is one call with its substitution; distinct by both.",
    [
        "SQL columns that are divided by each other are REAL (integer division is a matter of SQL)",
        "numbers that a formula subtracts are not written as negative SQL literals (PyPika renders a--1)",
    ],
)

# arguments that the model puts through a numerical function (property C22)
CONCRETE = {
    "uniform_pareto": {("x_max", None), ("prior", "x_m")},
    "pareto_gamma": {("x_m", None)},
    "von_mises_known_concentration": {
        ("cos_total", None), ("sin_total", None), ("kappa", None), ("prior", "a"), ("prior", "b"),
    },
}


def replace(kwargs, values):
    """The arguments with the values at the paths."""
    out = dict(kwargs)
    for (k, fld), v in values.items():
        if fld is None:
            out[k] = v
    for k, d in kwargs.items():
        changed = {fld: v for (kk, fld), v in values.items() if kk == k and fld is not None}
        if changed:
            out[k] = type(d)(**{**{f: getattr(d, f) for f in d.__dataclass_fields__}, **changed})
    return out


def vary(rng, v):
    """Other values of the same kind, sign and size."""
    a = np.asarray(v)
    if a.dtype == bool:
        return v
    f = np.exp(rng.uniform(-0.7, 0.7, size=a.shape))
    if a.dtype.kind in "iu":
        new = np.ceil(a * f).astype(a.dtype)
    else:
        new = a * f
    if isinstance(v, np.ndarray):
        return np.asarray(new, dtype=a.dtype)
    if isinstance(v, np.generic):
        return a.dtype.type(new)
    return new.item()


def substitution(rng, chosen):
    """(kind, arguments as expressions, a function from values to the environment).

    Either every chosen argument is one tree that numpy leaves the arithmetic to,
    or the arrays become object arrays with a tree for every element.
    """
    if rng.integers(2):
        return "whole", {p: sym.Deferred("var", p) for p, _ in chosen}, dict
    exprs = {
        p: sym.objects(p, np.shape(v)) if np.ndim(v) else sym.Sym("var", p)
        for p, v in chosen
    }

    def env(values):
        out = {}
        for p, v in values.items():
            if np.ndim(v):
                for i in np.ndindex(np.shape(v)):
                    out[(p, i)] = v[i].item()
            else:
                out[p] = v
        return out

    return "cells", exprs, env


def judge(ctx, name, call, kwargs, exclude=()):
    rng = ctx.rng
    candidates = [
        (p, v) for p, v in parts(kwargs) if p not in exclude and not isinstance(v, bool)
    ]
    kind = rng.integers(5)
    keep = rng.random(len(candidates)) < [0.5, 0.25, 0.8, 1.0, 0.0][kind]
    if kind == 4 or not keep.any():
        keep = np.arange(len(candidates)) == rng.integers(len(candidates))
    chosen = [c for c, k in zip(candidates, keep) if k]
    how, exprs, env = substitution(rng, chosen)
    symbolic = replace(kwargs, exprs)
    ctx.case(name, how, [p for p, _ in chosen], gen.key_of(**kwargs), sample=(name, exprs))
    result = ctx.call(call, **symbolic)
    fields = [f for f in result.__dataclass_fields__]
    ctx.event("symbolic results", sum(sym.contains(getattr(result, f)) for f in fields))
    for k in range(3):
        values = {p: v if k == 0 else vary(rng, v) for p, v in chosen}
        numeric_kw = replace(kwargs, values)
        want = ctx.call(call, **numeric_kw)
        if not ctx.ok(type(want) is type(result), f"{name} returned another class for expressions", symbolic=result, numeric=want):
            return
        at = env(values)
        size = magnitude(numeric_kw)
        for f in fields:
            w = getattr(want, f)
            g = getattr(result, f)
            if w is None or isinstance(w, bool):
                ctx.ok(g is w, f"{name}: {f} is {g} for expressions, {w} for numbers", **symbolic)
                continue
            g = hist.f(sym.value(g, at))
            w = hist.f(w)
            try:
                gb, wb, sb = np.broadcast_arrays(g, w, size)
            except ValueError:
                ctx.fail(f"{name}: {f} has shape {g.shape} for expressions, {w.shape} for numbers", **symbolic)
                continue
            sure = np.isfinite(wb) & (wb != 0)
            lim = 1e-9 * abs(wb) + 1e-13 * sb + 1e-300
            with np.errstate(all="ignore"):
                good = (abs(gb - wb) <= lim) | (gb == wb) | (np.isnan(gb) & np.isnan(wb))
            ctx.event("values compared", int(sure.sum()))
            ctx.ok(
                bool(np.all(good)),
                f"{name}: {f} of expressions evaluates to {g}, the numeric call gives {w}",
                symbolic=symbolic, result=result, at=values,
            )


def layouts(rng):
    return gen.Layout(rng, ["pyscalar", "pyscalar", "npscalar", "vec", "vec"][rng.integers(5)], flags=False)


@unit("C20", quick=16)
def models(ctx):
    rng = ctx.rng
    for name in bayes.ELEMENTWISE:
        kwargs = bayes.gen_elementwise(name, rng, layouts(rng), wide=False)
        judge(ctx, name, getattr(M, name), kwargs, CONCRETE.get(name, ()))


@unit("C20", quick=16)
def other_models(ctx):
    rng = ctx.rng
    for story in hist.STORIES:
        if story.model in bayes.ELEMENTWISE:
            continue
        L, prior, fixed, shape = hist.begin(story, rng, ["pyscalar", "npscalar", "vec"][rng.integers(3)])
        x = story.draw(rng, int(rng.integers(1, 6)), shape, fixed)
        kwargs = dict(story.kwargs(x, fixed), prior=prior)
        judge(ctx, story.name, getattr(M, story.model), kwargs, CONCRETE.get(story.model, ()))
    # the update of the pinned hypergeometric formula is arithmetic as well
    n = int(rng.integers(5, 40))
    kwargs = dict(
        x_total=int(rng.integers(0, 5)), n=5,
        prior=D.BetaBinomial(n=n, alpha=float(rng.gamma(2) + 0.1), beta=float(rng.gamma(2) + 0.1)),
    )
    judge(ctx, "hypergeometric_beta_binomial", M.hypergeometric_beta_binomial, kwargs)


@unit("C20", quick=16)
def predictives(ctx):
    rng = ctx.rng
    for name in preds.MARGINAL:
        kwargs = preds.gen_predictive(name, layouts(rng))
        judge(ctx, name, getattr(M, name), kwargs)
    # posterior and predictive composed
    for name, pname, extra in [
        ("normal", "normal_predictive", {}),
        ("normal_known_variance", "normal_known_variance_predictive", {"var"}),
        ("normal_known_mean", "normal_known_mean_predictive", {"mu"}),
        ("poisson_gamma", "poisson_gamma_predictive", {}),
    ]:
        kwargs = bayes.gen_elementwise(name, rng, layouts(rng), wide=False)
        for k in ("x2_total",):
            # any second moment that keeps the scale positive
            if k in kwargs:
                m = hist.f(kwargs["n"]) + 1
                big = (10 * (abs(hist.f(kwargs["x_total"])) + 1) ** 2 + 10 * m * (1 + abs(hist.f(kwargs.get("mu", 0)))) ** 2)
                kwargs[k] = big if np.ndim(big) else float(big)

        def both(prior, _n=name, _p=pname, _e=extra, **kw):
            post = getattr(M, _n)(prior=prior, **kw)
            return getattr(M, _p)(distribution=post, **{k: kw[k] for k in _e})

        both.__name__ = f"{pname} of {name}"
        judge(ctx, both.__name__, both, kwargs)


def builders(rng, L):
    """(name, call, arguments): constructors, conversions and arithmetic."""
    pos = gen.positive(0.2, 30)
    v = lambda: L.value(pos)  # noqa: E731
    r = lambda: L.value(gen.real())  # noqa: E731
    ig = D.InverseGamma
    return [
        ("Beta.from_mean", D.Beta.from_mean, dict(mean=L.value(lambda g, s: g.uniform(0.1, 0.9, size=s)), alpha=v())),
        ("Beta.from_successes_and_failures", D.Beta.from_successes_and_failures, dict(successes=v(), failures=v())),
        ("Gamma.from_occurrences_in_intervals", D.Gamma.from_occurrences_in_intervals, dict(occurrences=v(), intervals=v())),
        ("Normal.from_mean_and_variance", D.Normal.from_mean_and_variance, dict(mean=r(), variance=v())),
        ("Normal.from_mean_and_precision", D.Normal.from_mean_and_precision, dict(mean=r(), precision=v())),
        ("Normal.uninformative", D.Normal.uninformative, dict(sigma=v())),
        ("ScaledInverseChiSquared.from_inverse_gamma", lambda d: D.ScaledInverseChiSquared.from_inverse_gamma(d), dict(d=ig(v(), v()))),
        ("ScaledInverseChiSquared.to_inverse_gamma", lambda d: d.to_inverse_gamma(), dict(d=D.ScaledInverseChiSquared(v(), v()))),
        ("NormalInverseGamma.from_inverse_gamma", lambda mu, nu, d: D.NormalInverseGamma.from_inverse_gamma(mu=mu, inverse_gamma=d, nu=nu), dict(mu=r(), nu=v(), d=ig(v(), v()))),
        ("NormalInverseGamma.inverse_gamma", lambda d: d.inverse_gamma, dict(d=D.NormalInverseGamma(mu=r(), nu=v(), alpha=v(), beta=v()))),
        ("NormalGamma.gamma", lambda d: d.gamma, dict(d=D.NormalGamma(mu=r(), lam=v(), alpha=v(), beta=v()))),
        ("Poisson * k", lambda d, k: d * k, dict(d=D.Poisson(v()), k=v())),
        ("Gamma * k", lambda d, k: d * k, dict(d=D.Gamma(v(), v()), k=v())),
        ("Exponential * k", lambda d, k: d * k, dict(d=D.Exponential(v()), k=v())),
        ("NegativeBinomial * k", lambda d, k: d * k, dict(d=D.NegativeBinomial(v(), 0.3), k=v())),
        ("Normal * k", lambda d, k: d * k, dict(d=D.Normal(r(), v()), k=v())),
        ("Poisson + Poisson", lambda d, e: d + e, dict(d=D.Poisson(v()), e=D.Poisson(v()))),
    ]


@unit("C20", quick=16)
def constructors(ctx):
    rng = ctx.rng
    for name, call, kwargs in builders(rng, layouts(rng)):
        call_named = lambda _c=call, **kw: _c(**kw)  # noqa: E731
        call_named.__name__ = call_named.__qualname__ = name
        judge(ctx, name, call_named, kwargs)


@unit("C20", quick=20)
def dirichlet(ctx):
    """Lists, tuples and object arrays of parameters and counts."""
    rng = ctx.rng
    for name in ("categorical_dirichlet", "multinomial_dirichlet"):
        k = int(rng.integers(2, 7))
        alpha, x = rng.gamma(2.0, size=k) + 0.1, rng.integers(0, 30, size=k)
        which = rng.integers(3)
        a_sym = which != 1 and rng.random(k) < 0.7
        x_sym = which != 0 and rng.random(k) < 0.7
        a = [sym.Sym("var", ("a", i)) if np.any(a_sym) and a_sym[i] else float(alpha[i]) for i in range(k)]
        c = [sym.Sym("var", ("x", i)) if np.any(x_sym) and x_sym[i] else int(x[i]) for i in range(k)]

        def put(values):
            how = rng.integers(3)
            if how == 0:
                return list(values)
            if how == 1:
                return tuple(values)
            out = np.empty(k, dtype=object)
            out[:] = values
            return out

        prior, data = D.Dirichlet(put(a)), put(c)
        ctx.case(name, type(prior.alpha).__name__, type(data).__name__, k, which, alpha.tobytes(), sample=(name, prior, data))
        post = ctx.call(getattr(M, name), x=data, prior=prior)
        pred = ctx.call(getattr(M, name + "_predictive"), distribution=post, n=sym.Sym("var", "n"))
        env = {("a", i): alpha[i] for i in range(k)} | {("x", i): x[i] for i in range(k)} | {"n": 5}
        for d, what in ((post, "posterior"), (pred, "predictive")):
            got = sym.value(d.alpha, env)
            ctx.ok(
                np.shape(got) == (k,) and np.allclose(hist.f(got), alpha + x, rtol=1e-12),
                f"{name}: {what} of expressions evaluates to {got} instead of {alpha + x}",
                prior=prior, x=data, result=d,
            )
        ctx.ok(sym.value(pred.n, env) == 5, f"{name}: predictive n is {pred.n}")


@unit("C20", quick=20)
def matrices(ctx):
    """Object matrices in the models that need no inverse."""
    rng = ctx.rng
    p, size = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    X = rng.normal(size=(size, p))
    mu, psi = rng.normal(size=p), gen.spd(rng, p, 1.0)
    scalars = rng.gamma(2.0, size=4) + 0.2

    def matrix(name, v, prob=0.7):
        if rng.random() > prob:
            return v
        return sym.objects(name, v.shape)

    def scalar(name, v):
        return sym.Sym("var", name) if rng.integers(2) else float(v)

    env = {}
    for name, v in (("X", X), ("mu", mu), ("psi", psi)):
        env |= {(name, i): float(v[i]) for i in np.ndindex(v.shape)}
    env |= {"kappa": scalars[0], "nu": p + scalars[1], "alpha": scalars[2], "beta": scalars[3]}
    nu = p + scalars[1]

    def judge_matrices(name, result, want):
        ctx.case(name, p, size, X.tobytes(), [sym.contains(getattr(result, f)) for f in result.__dataclass_fields__])
        for f in want.__dataclass_fields__:
            w, g = getattr(want, f), getattr(result, f)
            if w is None:
                ctx.ok(g is None, f"{name}: {f} is {g}")
                continue
            g, w = hist.f(sym.value(g, env)), hist.f(w)
            ctx.ok(
                g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-10),
                f"{name}: {f} of expressions evaluates to {g}, the numeric call gives {w}",
                result=result,
            )

    Xs, ms, ps = matrix("X", X), matrix("mu", mu), matrix("psi", psi)
    ks, ns, als, bes = scalar("kappa", scalars[0]), scalar("nu", nu), scalar("alpha", scalars[2]), scalar("beta", scalars[3])
    call = ctx.call
    judge_matrices(
        "multivariate_normal_known_mean",
        call(M.multivariate_normal_known_mean, X=Xs, mu=ms, prior=D.InverseWishart(nu=ns, psi=ps)),
        M.multivariate_normal_known_mean(X=X, mu=mu, prior=D.InverseWishart(nu=nu, psi=psi)),
    )
    kw, kws = dict(mu=mu, kappa=scalars[0], nu=nu, psi=psi), dict(mu=ms, kappa=ks, nu=ns, psi=ps)
    post = call(M.multivariate_normal, X=Xs, prior=D.NormalInverseWishart(**kws))
    want = M.multivariate_normal(X=X, prior=D.NormalInverseWishart(**kw))
    judge_matrices("multivariate_normal", post, want)
    judge_matrices(
        "multivariate_normal_predictive",
        call(M.multivariate_normal_predictive, distribution=post),
        M.multivariate_normal_predictive(distribution=want),
    )
    judge_matrices(
        "multivariate_normal_known_covariance_predictive",
        call(M.multivariate_normal_known_covariance_predictive, distribution=D.MultivariateNormal(ms, ps), cov=matrix("psi", psi)),
        M.multivariate_normal_known_covariance_predictive(distribution=D.MultivariateNormal(mu, psi), cov=psi),
    )
    kw = dict(mu=mu, alpha=scalars[2], beta=scalars[3], delta_inverse=psi)
    judge_matrices(
        "linear_regression_predictive",
        call(M.linear_regression_predictive, X=Xs, distribution=D.NormalInverseGamma(mu=ms, alpha=als, beta=bes, delta_inverse=ps)),
        M.linear_regression_predictive(X=X, distribution=D.NormalInverseGamma(**kw)),
    )
    judge_matrices(
        "NormalInverseWishart.from_inverse_wishart",
        call(D.NormalInverseWishart.from_inverse_wishart, mu=ms, kappa=ks, inverse_wishart=D.InverseWishart(nu=ns, psi=ps)),
        D.NormalInverseWishart(mu=mu, kappa=scalars[0], nu=nu, psi=psi),
    )


@unit("C20", quick=12)
def fractions(ctx):
    """Exact rational arguments, alone and mixed with floats and integers."""
    rng = ctx.rng
    calls = [
        (n, getattr(M, n), bayes.gen_elementwise(n, rng, gen.Layout(rng, "pyscalar", flags=False), wide=False), CONCRETE.get(n, ()))
        for n in bayes.ELEMENTWISE
    ]
    calls += [(n, getattr(M, n), preds.gen_predictive(n, gen.Layout(rng, "pyscalar", flags=False)), ()) for n in preds.MARGINAL]
    calls += [(n, c, kw, ()) for n, c, kw in builders(rng, gen.Layout(rng, "pyscalar", flags=False))]
    for name, call, kwargs, exclude in calls:
        chosen = {
            p: Fraction(v).limit_denominator(50) if v else Fraction(0)
            for p, v in parts(kwargs)
            if p not in exclude and not isinstance(v, bool) and rng.random() < 0.8
        }
        chosen = {p: v if v or not dict(parts(kwargs))[p] else Fraction(1, 50) for p, v in chosen.items()}
        ctx.case(name, "fraction", sorted(chosen), gen.key_of(**kwargs), sample=(name, chosen))
        exact, numeric = replace(kwargs, chosen), replace(kwargs, {p: float(v) for p, v in chosen.items()})
        f = lambda **kw: call(**kw)  # noqa: E731
        f.__qualname__ = name
        got, want = ctx.call(f, **exact), ctx.call(f, **numeric)
        size = magnitude(numeric)
        for fld in want.__dataclass_fields__:
            g, w = getattr(got, fld), getattr(want, fld)
            if w is None or isinstance(w, bool):
                ctx.ok(g is w, f"{name}: {fld} is {g} for fractions, {w} for floats")
                continue
            if isinstance(w, complex):  # the square root of a rounded scale
                continue
            ctx.event("fraction results", isinstance(g, Fraction))
            ctx.ok(
                abs(float(g) - float(w)) <= 1e-9 * abs(float(w)) + 1e-13 * float(size),
                f"{name}: {fld} is {g} for fractions, {w} for the same floats",
                arguments=exact,
            )


# ---------------------------------------------------------------------- SQL
def sql_values(db, terms, source="data", group=None):
    """Execute SELECT terms FROM source [GROUP BY group] as the builder writes it."""
    from pypika import Table
    from pypika.dialects import SQLLiteQuery

    t = Table(source)
    q = SQLLiteQuery.from_(t).select(*terms)
    if group:
        q = q.groupby(t.field(group)).orderby(t.field(group))
    try:
        return db.execute(q.get_sql()).fetchall(), q.get_sql()
    except sqlite3.Error as e:
        raise RuntimeError(f"{e} in {q.get_sql()}") from e


def sql_literal(v):
    return isinstance(v, (int, float)) and np.copysign(1.0, v) > 0


# names of arguments that formulas divide (or divide by): REAL columns and float literals
DATA = {"n", "x", "x_total", "x2_total", "r", "ln_x_total", "ln_x2_total", "x_beta_total", "reciprocal_x_total"}


@unit("C20", quick=10)
def sql_rows(ctx):
    """Columns of a table as arguments, one inference per row."""
    from pypika import Table

    rng = ctx.rng
    calls = [
        (n, getattr(M, n), lambda L, n=n: bayes.gen_elementwise(n, rng, L, wide=False), CONCRETE.get(n, ()))
        for n in bayes.ELEMENTWISE
    ]
    calls += [
        (n, getattr(M, n), lambda L, n=n: preds.gen_predictive(n, L), ()) for n in preds.MARGINAL
    ]
    calls += [
        (b[0], b[1], lambda L, i=i: builders(rng, L)[i][2], ())
        for i, b in enumerate(builders(rng, gen.Layout(rng, "pyscalar", flags=False)))
    ]
    for name, call, make, exclude in calls:
        rows = [make(gen.Layout(rng, "pyscalar", flags=False))]
        if name == "pareto_gamma":  # its logarithm becomes a literal that is subtracted
            rows = [dict(rows[0], x_m=max(1.0, float(rows[0]["x_m"])))]
        rows += [vary_all(rng, rows[0]) for _ in range(3)]
        table = Table("data")
        paths = [p for p, v in parts(rows[0]) if p not in exclude]
        columns, exprs = [], {}
        for j, p in enumerate(paths):
            as_column = rng.random() < 0.6
            value = dict(parts(rows[0]))[p]
            integer_ok = p[1] is None and p[0] in DATA and isinstance(value, (int, np.integer))
            if not as_column and sql_literal(value):
                keep = value if integer_ok else float(value)
                rows = [replace(r, {p: keep}) for r in rows]
                exprs[p] = keep
            else:
                columns.append((p, f"c{j}", "INTEGER" if integer_ok else "REAL"))
                exprs[p] = table.field(f"c{j}")
        for p in set(exclude):
            v = dict(parts(rows[0]))[p]
            rows = [replace(r, {p: v}) for r in rows]
        if not columns:
            continue
        db = sqlite3.connect(":memory:")
        db.execute("CREATE TABLE data (id INTEGER, " + ", ".join(f"{c} {t}" for _, c, t in columns) + ")")
        for i, r in enumerate(rows):
            d = dict(parts(r))
            db.execute(
                f"INSERT INTO data VALUES ({', '.join('?' * (len(columns) + 1))})",
                [i] + [int(d[p]) if t == "INTEGER" else float(d[p]) for p, _, t in columns],
            )
        f = lambda **kw: call(**kw)  # noqa: E731
        f.__qualname__ = name
        ctx.case(name, "sql", [c[0] for c in columns], gen.key_of(**rows[0]), sample=(name, exprs))
        result = ctx.call(f, **replace(rows[0], exprs))
        fields = [
            k for k in result.__dataclass_fields__
            if getattr(result, k) is not None and not isinstance(getattr(result, k), bool)
        ]
        terms = [as_term(getattr(result, k)) for k in fields]
        got, sql = sql_values(db, terms)
        db.close()
        ctx.event("sql rows", len(got))
        for r, g in zip(rows, got, strict=True):
            want = f(**r)
            size = float(np.asarray(magnitude(r)))
            for k, v in zip(fields, g):
                w = getattr(want, k)
                if isinstance(w, complex) or not np.isfinite(w):
                    continue
                ctx.ok(
                    v is not None and abs(v - w) <= 1e-9 * abs(w) + 1e-13 * size,
                    f"{name}: the SQL of {k} gives {v}, the numbers give {w}",
                    sql=sql, row=r,
                )


def vary_all(rng, kwargs):
    """Another row: every number changed, relations that the formulas need kept."""
    return replace(kwargs, {p: vary(rng, v) for p, v in parts(kwargs)})


def as_term(v):
    from pypika.terms import Term, ValueWrapper

    if isinstance(v, Term):
        return v
    return ValueWrapper(float(v))


@unit("C20", quick=10)
def sql_groups(ctx):
    """Sufficient statistics as aggregates of a raw table, as in the documentation."""
    from pypika import Table, functions as fn

    rng = ctx.rng
    table = Table("events")
    size, groups = int(rng.integers(4, 40)), int(rng.integers(1, 5))
    g = np.concatenate([np.arange(groups), rng.integers(0, groups, size=size)])
    kind = ["INTEGER", "REAL"][rng.integers(2)]
    v = rng.poisson(4, size=len(g)) if kind == "INTEGER" else rng.gamma(2.0, 2.0, size=len(g))
    won = rng.integers(0, 2, size=len(g))
    db = sqlite3.connect(":memory:")
    db.execute(f"CREATE TABLE events (grp INTEGER, value {kind}, won INTEGER)")
    db.executemany("INSERT INTO events VALUES (?, ?, ?)", [(int(a), v[i].item(), int(won[i])) for i, a in enumerate(g)])
    a, b, m, k = [float(round(x, 4)) for x in rng.gamma(2.0, size=4) + 0.1]
    stats_sql = dict(
        n=fn.Count("*"), s=fn.Sum(table.value), s2=fn.Sum(table.value**2), won=fn.Sum(table.won)
    )
    runs = [
        ("binomial_beta", lambda t: M.binomial_beta(n=t["n"], x=t["won"], prior=D.Beta(a, b))),
        ("binomial_beta of integers", lambda t: M.binomial_beta(n=t["n"], x=t["won"], prior=D.Beta(1, 1))),
        ("binomial predictive", lambda t: M.binomial_beta_predictive(n=10, distribution=M.binomial_beta(n=t["n"], x=t["won"], prior=D.Beta(a, b)))),
        ("poisson_gamma", lambda t: M.poisson_gamma(n=t["n"], x_total=t["s"], prior=D.Gamma(a, b))),
        ("poisson predictive", lambda t: M.poisson_gamma_predictive(distribution=M.poisson_gamma(n=t["n"], x_total=t["s"], prior=D.Gamma(a, b)))),
        ("exponential predictive", lambda t: M.exponential_gamma_predictive(distribution=M.exponential_gamma(n=t["n"], x_total=t["s"], prior=D.Gamma(a, b)))),
        ("normal", lambda t: M.normal(n=t["n"], x_total=t["s"], x2_total=t["s2"], prior=D.NormalInverseGamma(mu=m, nu=k, alpha=a, beta=b))),
        ("normal of integers", lambda t: M.normal(n=t["n"], x_total=t["s"], x2_total=t["s2"], prior=D.NormalInverseGamma(mu=0, nu=k, alpha=1, beta=1))),
        ("normal predictive", lambda t: M.normal_predictive(distribution=M.normal(n=t["n"], x_total=t["s"], x2_total=t["s2"], prior=D.NormalGamma(mu=m, lam=k, alpha=a, beta=b)))),
        ("normal_known_mean", lambda t: M.normal_known_mean(n=t["n"], x_total=t["s"], x2_total=t["s2"], mu=m, prior=D.InverseGamma(a, b))),
        ("normal_known_mean predictive", lambda t: M.normal_known_mean_predictive(mu=m, distribution=M.normal_known_mean(n=t["n"], x_total=t["s"], x2_total=t["s2"], mu=m, prior=D.ScaledInverseChiSquared(a, b)))),
        ("normal_known_variance", lambda t: M.normal_known_variance(n=t["n"], x_total=t["s"], var=k, prior=D.Normal(m, a))),
        ("normal_known_variance predictive", lambda t: M.normal_known_variance_predictive(var=k, distribution=M.normal_known_variance(n=t["n"], x_total=t["s"], var=k, prior=D.Normal(m, a)))),
        ("normal_known_precision", lambda t: M.normal_known_precision(n=t["n"], x_total=t["s"], precision=k, prior=D.Normal(m, a))),
        ("gamma_known_shape", lambda t: M.gamma_known_shape(n=t["n"], x_total=t["s"], alpha=k, prior=D.Gamma(a, b))),
        ("geometric_beta", lambda t: M.geometric_beta(n=t["n"], x_total=t["s"], prior=D.Beta(a, b), one_start=False)),
        ("Normal total", lambda t: D.Normal(m, a) * t["n"]),
    ]
    for name, run in runs:
        ctx.case("sql groups", name, kind, a, b, m, k, v.tobytes(), sample=(name, kind, groups))
        result = ctx.call(run, stats_sql)
        fields = [
            x for x in result.__dataclass_fields__
            if getattr(result, x) is not None and not isinstance(getattr(result, x), bool)
        ]
        got, sql = sql_values(db, [as_term(getattr(result, x)) for x in fields], "events", "grp")
        ctx.event("sql groups", len(got))
        for i, row in enumerate(got):
            pick = g == i
            want = run(dict(n=int(pick.sum()), s=float(v[pick].sum()), s2=float((v[pick] ** 2.0).sum()), won=int(won[pick].sum())))
            for x, cell in zip(fields, row):
                w = getattr(want, x)
                ctx.ok(
                    cell is not None and abs(cell - w) <= 1e-8 * abs(w) + 1e-9,
                    f"{name}: the SQL of {x} gives {cell} for a group, the numbers give {w}", sql=sql,
                )
    db.close()


@unit("C20", quick=4)
def computer_algebra(ctx):
    """Symbols of sympy, when it is installed with the tools."""
    import sys

    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    sys.path.append(tools)
    try:
        import sympy
    except Exception:
        ctx.event("sympy is missing")
        ctx.case("no sympy", nontrivial=False)
        return
    finally:
        sys.path.remove(tools)
    rng = ctx.rng
    calls = [
        (n, getattr(M, n), bayes.gen_elementwise(n, rng, gen.Layout(rng, "pyscalar", flags=False), wide=False), CONCRETE.get(n, ()))
        for n in bayes.ELEMENTWISE
    ]
    calls += [(n, getattr(M, n), preds.gen_predictive(n, gen.Layout(rng, "pyscalar", flags=False)), ()) for n in preds.MARGINAL]
    for i in rng.permutation(len(calls))[:8]:  # sympy does not add truth values
        name, call, kwargs, exclude = calls[i]
        if isinstance(kwargs.get("x"), bool):
            kwargs["x"] = int(kwargs["x"])
        chosen = {
            p: v for p, v in parts(kwargs) if p not in exclude and not isinstance(v, bool) and rng.random() < 0.7
        }
        names = {p: sympy.Symbol("v%d" % j) for j, p in enumerate(chosen)}
        ctx.case(name, "sympy", sorted(map(str, chosen)), gen.key_of(**kwargs), sample=(name, names))
        result, want = ctx.call(call, **replace(kwargs, names)), ctx.call(call, **kwargs)
        at = {names[p]: v for p, v in chosen.items()}
        for k in want.__dataclass_fields__:
            g, w = getattr(result, k), getattr(want, k)
            if w is None or isinstance(w, (bool, complex)):
                continue
            g = float(sympy.sympify(g).subs(at).evalf(40)) if isinstance(g, sympy.Basic) else float(g)
            ctx.event("sympy values")
            ctx.ok(
                abs(g - w) <= 1e-9 * abs(w) + 1e-12 * float(np.asarray(magnitude(kwargs))),
                f"{name}: {k} of symbols evaluates to {g}, the numeric call gives {w}", arguments=kwargs,
            )

