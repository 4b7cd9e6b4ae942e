"""Monitors of numerical functions that the caller supplies (property "C22").

The supplied functions are observed stand-ins: they record their calls, work on
expression trees, fractions or other units that numpy cannot handle, and the
result is compared with the formula computed with the very same functions.
"""

from fractions import Fraction

import numpy as np
from scipy import special

from conjugate import distributions as D
from conjugate import models as M

from vmon import gen, hist, sym
from vmon.core import rule, unit

rule(
    "C22",
    "Every model, log likelihood and sampler with replaceable functions, with stand-ins on "
    "expression trees, exact fractions and matrices of both, and with functions in other units "
    "(logarithms to base 10, angles in degrees, smooth maximum, doubled outer products and "
    "inverses); a case is one call; distinct by its arguments and functions.",
)


class Spy:
    def __init__(self, name, func):
        self.__name__ = name
        self.func, self.calls, self.given = func, 0, []

    def __call__(self, *args, **kwargs):
        self.calls += 1
        self.given.append(args)
        return self.func(*args, **kwargs)


def tree(name, func):
    """A function on expression trees only: numbers in it are an error of numpy's kind."""

    def apply(*args):
        return sym.Sym("call", func, *args)

    return Spy(name, apply)


def close(g, w, rtol=1e-10, size=0.0):
    g, w = hist.f(g), hist.f(w)
    return g.shape == w.shape and bool(
        np.all((abs(g - w) <= rtol * abs(w) + 1e-12 * size + 1e-300) | (g == w))
    )


# ------------------------------------------------------- scalar functions
LOG10 = np.log10
GAMMALN10 = lambda x: special.gammaln(x) / np.log(10)  # noqa: E731


def cosd(x):
    return np.cos(np.deg2rad(x))


def sind(x):
    return np.sin(np.deg2rad(x))


def arctan2d(s, c):
    return np.rad2deg(np.arctan2(s, c))


def soft_maximum(a, b):
    m = np.maximum(a, b)
    return m + 0.25 * np.log(np.exp((a - m) / 0.25) + np.exp((b - m) / 0.25))


def plan():
    """(name, call with functions, functions, formula with functions, arguments)."""

    def pareto_gamma(f, a):
        return M.pareto_gamma(n=a["n"], ln_x_total=a["t"], x_m=a["x_m"], prior=D.Gamma(a["a"], a["b"]), ln=f["ln"])

    def uniform_pareto(f, a):
        return M.uniform_pareto(x_max=a["x"], n=a["n"], prior=D.Pareto(x_m=a["x_m"], alpha=a["a"]), max_fn=f["max_fn"])

    def von_mises(f, a):
        return M.von_mises_known_concentration(
            cos_total=a["c"], sin_total=a["s"], n=a["n"], kappa=a["k"],
            prior=D.VonMisesKnownConcentration(a["a"], a["b"]), **f,
        )

    def vm_formula(f, a):
        s = a["a"] * f["sin"](a["b"]) + a["k"] * a["s"]
        c = a["a"] * f["cos"](a["b"]) + a["k"] * a["c"]
        return dict(a=np.sqrt(s**2 + c**2), b=f["arctan2"](s, c))

    return [
        (
            "pareto_gamma", pareto_gamma, ("ln",),
            lambda f, a: dict(alpha=a["a"] + a["n"], beta=a["b"] + a["t"] - a["n"] * f["ln"](a["x_m"])),
            ["n", "t", "x_m", "a", "b"],
        ),
        (
            "uniform_pareto", uniform_pareto, ("max_fn",),
            lambda f, a: dict(x_m=f["max_fn"](a["x_m"], a["x"]), alpha=a["a"] + a["n"]),
            ["x", "n", "x_m", "a"],
        ),
        ("von_mises_known_concentration", von_mises, ("sin", "cos", "arctan2"), vm_formula, ["c", "s", "n", "k", "a", "b"]),
        (
            "GammaKnownRateProportional.approx_log_likelihood",
            lambda f, a: D.GammaKnownRateProportional(a["p"], a["q"], a["r"]).approx_log_likelihood(alpha=a["a"], beta=a["b"], **f),
            ("ln", "gammaln"),
            lambda f, a: (a["a"] - 1) * f["ln"](a["p"]) + a["r"] * a["a"] * f["ln"](a["b"]) - a["q"] * f["gammaln"](a["a"]),
            ["p", "q", "r", "a", "b"],
        ),
        (
            "GammaProportional.approx_log_likelihood",
            lambda f, a: D.GammaProportional(a["p"], a["q"], a["r"], a["s"]).approx_log_likelihood(alpha=a["a"], beta=a["b"], **f),
            ("ln", "gammaln"),
            lambda f, a: (a["a"] - 1) * f["ln"](a["p"]) + a["s"] * a["a"] * f["ln"](a["b"]) - a["r"] * f["gammaln"](a["a"]) - a["q"] * a["b"],
            ["p", "q", "r", "s", "a", "b"],
        ),
        (
            "BetaProportional.approx_log_likelihood",
            lambda f, a: D.BetaProportional(a["p"], a["q"], a["k"]).approx_log_likelihood(alpha=a["a"], beta=a["b"], **f),
            ("ln", "gammaln"),
            lambda f, a: a["a"] * f["ln"](a["p"]) + a["b"] * f["ln"](a["q"])
            + a["k"] * (f["gammaln"](a["a"] + a["b"]) - f["gammaln"](a["a"]) - f["gammaln"](a["b"])),
            ["p", "q", "k", "a", "b"],
        ),
        (
            "VonMisesKnownConcentration.log_likelihood",
            lambda f, a: D.VonMisesKnownConcentration(a["a"], a["b"]).log_likelihood(mu=a["m"], **f),
            ("cos", "ln", "i0"),
            lambda f, a: a["a"] * f["cos"](a["m"] - a["b"]) - f["ln"](f["i0"](a["a"])),
            ["a", "b", "m"],
        ),
        (
            "VonMisesKnownDirectionProportional.approx_log_likelihood",
            lambda f, a: D.VonMisesKnownDirectionProportional(c=a["c"], r=a["r"]).approx_log_likelihood(kappa=a["k"], **f),
            ("ln", "i0"),
            lambda f, a: a["k"] * a["r"] - a["c"] * f["ln"](f["i0"](a["k"])),
            ["c", "r", "k"],
        ),
    ]


PLAIN = dict(ln=np.log, gammaln=special.gammaln, i0=special.i0, sin=np.sin, cos=np.cos, arctan2=np.arctan2, max_fn=np.maximum)
UNITS = dict(ln=LOG10, gammaln=GAMMALN10, i0=special.i0, sin=sind, cos=cosd, arctan2=arctan2d, max_fn=soft_maximum)


def arguments(rng, names, shape=()):
    return {k: rng.gamma(2.0, 1.5, size=shape) + 0.05 for k in names}


def fields(result):
    if hasattr(result, "__dataclass_fields__"):
        return {k: getattr(result, k) for k in result.__dataclass_fields__}
    return {"value": result}


def compare(ctx, name, result, want, env=None, **info):
    want = want if isinstance(want, dict) else {"value": want}
    got = fields(result)
    if not ctx.ok(set(got) == set(want), f"{name} returned {result!r}"):
        return
    for k, w in want.items():
        g = got[k] if env is None else sym.value(got[k], env)
        ctx.ok(
            close(g, w, size=1e2),
            f"{name}: {k} is {g}, the formula with the supplied functions gives {w}", **info,
        )


@unit("C22", quick=40)
def trees(ctx):
    """Arguments that numpy cannot handle at all."""
    rng = ctx.rng
    for name, call, used, formula, names in plan():
        # von Mises and so on with the true functions, and in other units
        units = [PLAIN, UNITS][rng.integers(2)]
        functions = {k: tree(k, units[k]) for k in used}
        args = {k: sym.Sym("var", k) for k in names}
        env = arguments(rng, names)
        ctx.case(name, "tree", units is UNITS, tuple(env.values()), sample=(name, env))
        f = lambda: call(functions, args)  # noqa: E731
        f.__qualname__ = f"{name} with own functions"
        result = ctx.call(f)
        for k, spy in functions.items():
            ctx.ok(spy.calls > 0, f"{name}: the supplied {k} was never called")
            ctx.event(f"calls of supplied {k}", spy.calls)
        for _ in range(3):
            compare(ctx, name, result, formula({k: units[k] for k in used}, env), env, at=env)
            env = arguments(rng, names)


@unit("C22", quick=40)
def other_units(ctx):
    """Numeric arguments with functions in other units, each of them alone and all together."""
    rng = ctx.rng
    for name, call, used, formula, names in plan():
        shape = [(), (), (3,), (2, 1)][rng.integers(4)]
        args = arguments(rng, names, shape)
        mode = rng.integers(3)
        if mode == 0:  # only one of them; the others are left out
            given = (used[rng.integers(len(used))],)
            if "arctan2" in used:
                given = used  # angles have one unit
        else:
            given = used
        spies = {k: Spy(k, UNITS[k]) for k in given}
        functions = {k: UNITS[k] if k in given else PLAIN[k] for k in used}
        ctx.case(name, "units", given, shape, gen.key_of(**args), sample=(name, given, args))
        f = lambda: call(spies, args)  # noqa: E731
        f.__qualname__ = f"{name} with {given}"
        result = ctx.call(f)
        for k, spy in spies.items():
            ctx.ok(spy.calls > 0, f"{name}: the supplied {k} was never called")
            ctx.event(f"calls of supplied {k}", spy.calls)
        compare(ctx, name, result, formula(functions, args), arguments=args, given=given)


@unit("C22", quick=20)
def other_maxima(ctx):
    """Maxima for things that numpy does not order or pads with nan."""
    rng = ctx.rng
    a, b = [Fraction(int(v), 7) for v in rng.integers(1, 50, size=2)]
    spy = Spy("max_fn", max)
    ctx.case("max of fractions", a, b)
    post = ctx.call(M.uniform_pareto, x_max=a, n=3, prior=D.Pareto(x_m=b, alpha=Fraction(1, 2)), max_fn=spy)
    ctx.ok(
        post.x_m == max(a, b) and isinstance(post.x_m, Fraction) and spy.calls > 0 and post.alpha == Fraction(7, 2),
        f"maximum of {a} and {b} became {post}",
    )
    x, y = rng.gamma(2.0, size=(2, 5))
    x[rng.integers(5)] = np.nan
    ctx.case("fmax", x.tobytes(), y.tobytes())
    post = ctx.call(M.uniform_pareto, x_max=x, n=1, prior=D.Pareto(x_m=y, alpha=1.0), max_fn=np.fmax)
    ctx.ok(np.array_equal(hist.f(post.x_m), np.fmax(x, y)), f"fmax gave {post.x_m}", x=x, y=y)


# ---------------------------------------------------------------- matrices
def adjugate_inverse(m):
    """Inverse with arithmetic only, so that it works for any kind of number."""
    m = np.asarray(m)
    p = m.shape[0]
    if p == 1:
        return np.array([[1 / m[0, 0]]], dtype=object)

    def det(a):
        if a.shape[0] == 1:
            return a[0, 0]
        total = None
        for j in range(a.shape[0]):
            minor = np.delete(np.delete(a, 0, 0), j, 1)
            term = a[0, j] * det(minor)
            term = -term if j % 2 else term
            total = term if total is None else total + term
        return total

    d = det(m)
    out = np.empty((p, p), dtype=object)
    for i in range(p):
        for j in range(p):
            c = det(np.delete(np.delete(m, j, 0), i, 1))
            out[i, j] = (-c if (i + j) % 2 else c) / d
    return out


def exact(v):
    a = np.asarray(v)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = Fraction(round(float(a[i]) * 64), 64)
    return out if a.shape else out[()]


def small_spd(rng, p):
    a = np.round(rng.normal(size=(p, p)) * 2)
    return a @ a.T + np.diag(rng.integers(1, 5, size=p).astype(float))


def fraction_eye(n):
    out = np.empty((n, n), dtype=object)
    out[:] = Fraction(0)
    for i in range(n):
        out[i, i] = Fraction(1)
    return out


def all_exact(v):
    return all(isinstance(x, (Fraction, int)) for x in np.asarray(v, dtype=object).reshape(-1))


def matrix_calls(a, inv, outer, eye):
    """Matrix models on the numbers of a, and which functions each of them must use."""
    mvn = D.MultivariateNormal(mu=a["mu"], cov=a["S"])
    nig = D.NormalInverseGamma(mu=a["mu"], delta_inverse=a["S"], alpha=a["alpha"], beta=a["beta"])
    niw = D.NormalInverseWishart(mu=a["mu"], kappa=a["kappa"], nu=a["nu"], psi=a["S"])
    return [
        ("multivariate_normal_known_covariance", lambda: M.multivariate_normal_known_covariance(n=a["n"], x_bar=a["x"], cov=a["T"], prior=mvn, inv=inv), (inv,), ("mu", "cov")),
        ("multivariate_normal_known_precision", lambda: M.multivariate_normal_known_precision(n=a["n"], x_bar=a["x"], precision=a["T"], prior=mvn, inv=inv), (inv,), ("mu", "cov")),
        ("multivariate_normal_known_precision_predictive", lambda: M.multivariate_normal_known_precision_predictive(distribution=mvn, precision=a["T"], inv=inv), (inv,), ("mu", "cov")),
        ("linear_regression", lambda: M.linear_regression(X=a["X"], y=a["y"], prior=nig, inv=inv), (inv,), ("mu", "delta_inverse")),
        ("linear_regression_predictive", lambda: M.linear_regression_predictive(distribution=nig, X=a["X"], eye=eye), (eye,), ("mu", "sigma")),
        ("multivariate_normal", lambda: M.multivariate_normal(X=a["X"], prior=niw, outer=outer), (outer,), ("mu", "psi")),
    ]


def formulas(a):
    """The same results with plain floating point matrices."""
    i = np.linalg.inv
    S, T, X, y, mu, x, n = (hist.f(a[k]) for k in ("S", "T", "X", "y", "mu", "x", "n"))
    kappa, nu, alpha, beta = (float(a[k]) for k in ("kappa", "nu", "alpha", "beta"))
    out = {}
    for name, prec in (("multivariate_normal_known_covariance", i(T)), ("multivariate_normal_known_precision", T)):
        cov = i(i(S) + n * prec)
        out[name] = dict(mu=cov @ (i(S) @ mu + n * (prec @ x)), cov=cov)
    out["multivariate_normal_known_precision_predictive"] = dict(mu=mu, cov=S + i(T))
    d = i(S) + X.T @ X
    m = np.linalg.solve(d, i(S) @ mu + X.T @ y)
    out["linear_regression"] = dict(
        mu=m, delta_inverse=i(d), alpha=alpha + len(X) / 2,
        beta=beta + 0.5 * (y @ y + mu @ i(S) @ mu - m @ d @ m),
    )
    out["linear_regression_predictive"] = dict(
        mu=X @ mu, sigma=beta / alpha * (np.eye(len(X)) + X @ S @ X.T), nu=2 * alpha
    )
    xb = X.mean(axis=0)
    k = len(X)
    out["multivariate_normal"] = dict(
        mu=(kappa * mu + k * xb) / (kappa + k), kappa=kappa + k, nu=nu + k,
        psi=S + (X - xb).T @ (X - xb) + np.outer(xb - mu, xb - mu) * kappa * k / (kappa + k),
    )
    return out


def matrix_arguments(rng, kmax=3):
    p, k = int(rng.integers(1, kmax + 1)), int(rng.integers(1, 5))
    return dict(
        S=small_spd(rng, p), T=small_spd(rng, p), X=np.round(rng.normal(size=(k, p)) * 4) / 2,
        y=np.round(rng.normal(size=k) * 8) / 4, mu=np.round(rng.normal(size=p) * 4) / 4,
        x=np.round(rng.normal(size=p) * 4) / 4, n=float(rng.integers(0, 9)),
        kappa=float(rng.integers(1, 9)) / 4, nu=p + float(rng.integers(0, 9)) / 4,
        alpha=float(rng.integers(1, 9)) / 2, beta=float(rng.integers(1, 9)) / 2,
    )


@unit("C22", quick=30)
def exact_matrices(ctx):
    """Matrices of fractions, which numpy can neither invert nor convert."""
    rng = ctx.rng
    plain = matrix_arguments(rng)
    a = {k: exact(v) for k, v in plain.items()}
    want = formulas(plain)
    spies = [Spy("inv", adjugate_inverse), Spy("outer", lambda u, v: np.multiply.outer(u, v)), Spy("eye", fraction_eye)]
    for name, call, used, exact_fields in matrix_calls(a, *spies):
        before = {s.__name__: s.calls for s in spies}
        call.__qualname__ = f"{name} of fractions"
        ctx.case(name, "fractions", gen.key_of(**plain), sample=(name, plain))
        result = ctx.call(call)
        for s in used:
            ctx.ok(s.calls > before[s.__name__], f"{name}: the supplied {s.__name__} was never called")
            ctx.event(f"calls of supplied {s.__name__}", s.calls - before[s.__name__])
        for k in exact_fields:
            ctx.event("exact results", all_exact(getattr(result, k)))
        judge_matrix(ctx, name, result, want[name], plain)


def judge_matrix(ctx, name, result, want, arguments, env=None):
    for k, w in want.items():
        g = getattr(result, k)
        g = hist.f(g if env is None else sym.value(g, env))
        ctx.ok(
            g.shape == np.shape(w) and np.allclose(g, w, rtol=1e-7, atol=1e-8),
            f"{name}: {k} is {g}, the formula gives {w}", arguments=arguments,
        )


@unit("C22", quick=20)
def tree_matrices(ctx):
    """Matrices of expression trees, which no routine of numpy can invert."""
    rng = ctx.rng
    plain = matrix_arguments(rng, kmax=2)
    a, env = {}, {}
    for k, v in plain.items():
        if np.ndim(v):
            a[k] = sym.objects(k, np.shape(v))
            env |= {(k, i): float(v[i]) for i in np.ndindex(v.shape)}
        else:
            a[k] = sym.Sym("var", k)
            env[k] = v
    want = formulas(plain)
    spies = [Spy("inv", adjugate_inverse), Spy("outer", lambda u, v: np.multiply.outer(u, v)), Spy("eye", np.eye)]
    for name, call, used, _ in matrix_calls(a, *spies):
        before = {s.__name__: s.calls for s in spies}
        call.__qualname__ = f"{name} of expressions"
        ctx.case(name, "trees", gen.key_of(**plain), sample=(name, plain))
        result = ctx.call(call)
        for s in used:
            ctx.ok(s.calls > before[s.__name__], f"{name}: the supplied {s.__name__} was never called")
        judge_matrix(ctx, name, result, want[name], plain, env)


@unit("C22", quick=30)
def other_matrix_functions(ctx):
    """Functions whose values differ from numpy's, and no other may be used."""
    rng = ctx.rng
    a = matrix_arguments(rng, kmax=5)
    S, T, X, mu = (hist.f(a[k]) for k in ("S", "T", "X", "mu"))
    kappa, k, p = float(a["kappa"]), len(X), len(mu)
    mvn = D.MultivariateNormal(mu=mu, cov=S)
    c = float(rng.uniform(1.5, 4))
    ctx.case("scaled functions", c, gen.key_of(**a), sample=a)
    inv = Spy("inv", lambda m: c * np.linalg.inv(m))
    d = ctx.call(M.multivariate_normal_known_precision_predictive, distribution=mvn, precision=T, inv=inv)
    ctx.ok(inv.calls > 0 and np.allclose(d.cov, S + c * np.linalg.inv(T)), "precision predictive: not the supplied inv", d=d)
    outer = Spy("outer", lambda u, v: c * np.outer(u, v))
    niw = D.NormalInverseWishart(mu=mu, kappa=kappa, nu=float(a["nu"]), psi=S)
    d = ctx.call(M.multivariate_normal, X=X, prior=niw, outer=outer)
    xb = X.mean(axis=0)
    want = S + (X - xb).T @ (X - xb) + c * np.outer(xb - mu, xb - mu) * kappa * k / (kappa + k)
    ctx.ok(outer.calls > 0 and np.allclose(d.psi, want), f"multivariate_normal: psi with the supplied outer is {d.psi}, not {want}")
    eye = Spy("eye", lambda n: c * np.eye(n))
    nig = D.NormalInverseGamma(mu=mu, delta_inverse=S, alpha=float(a["alpha"]), beta=float(a["beta"]))
    d = ctx.call(M.linear_regression_predictive, distribution=nig, X=X, eye=eye)
    want = float(a["beta"]) / float(a["alpha"]) * (c * np.eye(k) + X @ S @ X.T)
    ctx.ok(eye.calls > 0 and np.allclose(d.sigma, want), f"regression predictive: sigma with the supplied eye is {d.sigma}, not {want}")
    # every inverse of a regression and of a normal update goes through the function
    shift = Spy("inv", lambda m: np.linalg.inv(m + 0.0))
    for name, call in [
        ("linear_regression", lambda f: M.linear_regression(X=X, y=a["y"], prior=nig, inv=f)),
        ("multivariate_normal_known_covariance", lambda f: M.multivariate_normal_known_covariance(n=3, x_bar=a["x"], cov=T, prior=mvn, inv=f)),
        ("multivariate_normal_known_precision", lambda f: M.multivariate_normal_known_precision(n=3, x_bar=a["x"], precision=T, prior=mvn, inv=f)),
    ]:
        numpy_calls = forbid_numpy(ctx, name, lambda f: call(f), shift)
        ctx.event("numpy inverses outside the supplied function", numpy_calls)
        ctx.ok(numpy_calls == 0, f"{name}: {numpy_calls} matrix routines of numpy ran outside the supplied inverse")
    # samplers
    nw = D.NormalWishart(mu=mu, lam=1.5, W=S, nu=p + 2.0)
    seed, size = int(rng.integers(2**31)), int(rng.integers(1, 5))
    inv = Spy("inv", lambda m: c * np.linalg.inv(m))
    plain = ctx.call(nw.sample_variance, size, random_state=seed)
    other = ctx.call(nw.sample_variance, size, random_state=seed, inv=inv)
    ctx.ok(
        inv.calls > 0 and np.shape(other) == np.shape(plain) and np.allclose(other, c * plain, rtol=1e-8),
        "NormalWishart.sample_variance: not the supplied inverse", plain=plain, other=other, c=c,
    )
    flat = ctx.call(nw.sample_variance, size, random_state=seed, inv=lambda m: m)
    ctx.ok(
        np.allclose(hist.f(flat) @ hist.f(plain), np.eye(p), atol=1e-5),
        "NormalWishart.sample_variance: the identity as inverse does not give the precisions", flat=flat, plain=plain,
    )


def forbid_numpy(ctx, name, call, func):
    """Number of calls of numpy's inverses and solvers that are not made by func."""
    from scipy import linalg

    inside, outside = [0], [0]

    def supplied(m):
        inside[0] += 1
        try:
            return func(m)
        finally:
            inside[0] -= 1

    places = [(np.linalg, k) for k in ("inv", "solve", "pinv", "cholesky", "lstsq")]
    places += [(linalg, k) for k in ("inv", "solve", "pinv", "cho_factor")]
    saved = [(m, k, getattr(m, k)) for m, k in places]
    try:
        for m, k, f in saved:

            def watch(*args, _f=f, **kwargs):
                if not inside[0]:
                    outside[0] += 1
                return _f(*args, **kwargs)

            setattr(m, k, watch)
        ctx.call(call, supplied)
    finally:
        for m, k, f in saved:
            setattr(m, k, f)
    return outside[0]
