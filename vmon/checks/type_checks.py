"""Monitor of the types of priors and distributions (property "C24")."""

import types

import numpy as np

from conjugate import distributions as D
from conjugate import models as M

from vmon import bayes, gen, hist, preds, sym
from vmon.core import rule, unit

rule(
    "C24",
    "Every model and predictive with every distribution class it does not support, with foreign "
    "values (numbers, strings, arrays, scipy distributions, classes, look-alikes, None) and with "
    "nothing at all, while every other argument refuses to be touched; and with every supported "
    "class and subclasses of it; a case is one call; distinct by function, value and arguments.",
)

# function -> (argument, supported classes)
SUPPORTED = {
    "binomial_beta": ("prior", ["Beta"]),
    "bernoulli_beta": ("prior", ["Beta"]),
    "negative_binomial_beta": ("prior", ["Beta"]),
    "hypergeometric_beta_binomial": ("prior", ["BetaBinomial"]),
    "geometric_beta": ("prior", ["Beta"]),
    "categorical_dirichlet": ("prior", ["Dirichlet"]),
    "multinomial_dirichlet": ("prior", ["Dirichlet"]),
    "poisson_gamma": ("prior", ["Gamma"]),
    "exponential_gamma": ("prior", ["Gamma"]),
    "gamma_known_shape": ("prior", ["Gamma"]),
    "inverse_gamma_known_rate": ("prior", ["Gamma"]),
    "normal_known_variance": ("prior", ["Normal"]),
    "normal_known_precision": ("prior", ["Normal"]),
    "normal_known_mean": ("prior", ["InverseGamma", "ScaledInverseChiSquared"]),
    "normal": ("prior", ["NormalInverseGamma", "NormalGamma"]),
    "normal_normal_inverse_gamma": ("prior", ["NormalInverseGamma"]),
    "linear_regression": ("prior", ["NormalInverseGamma"]),
    "uniform_pareto": ("prior", ["Pareto"]),
    "pareto_gamma": ("prior", ["Gamma"]),
    "gamma": ("prior", ["GammaProportional"]),
    "gamma_known_rate": ("prior", ["GammaKnownRateProportional"]),
    "beta": ("prior", ["BetaProportional"]),
    "von_mises_known_concentration": ("prior", ["VonMisesKnownConcentration"]),
    "von_mises_known_direction": ("prior", ["VonMisesKnownDirectionProportional"]),
    "multivariate_normal_known_covariance": ("prior", ["MultivariateNormal"]),
    "multivariate_normal_known_precision": ("prior", ["MultivariateNormal"]),
    "multivariate_normal_known_mean": ("prior", ["InverseWishart"]),
    "multivariate_normal": ("prior", ["NormalInverseWishart"]),
    "log_normal": ("prior", ["NormalInverseGamma", "NormalGamma"]),
    "weibull_inverse_gamma_known_shape": ("prior", ["InverseGamma"]),
    "binomial_beta_predictive": ("distribution", ["Beta"]),
    "bernoulli_beta_predictive": ("distribution", ["Beta"]),
    "negative_binomial_beta_predictive": ("distribution", ["Beta"]),
    "geometric_beta_predictive": ("distribution", ["Beta"]),
    "categorical_dirichlet_predictive": ("distribution", ["Dirichlet"]),
    "multinomial_dirichlet_predictive": ("distribution", ["Dirichlet"]),
    "poisson_gamma_predictive": ("distribution", ["Gamma"]),
    "exponential_gamma_predictive": ("distribution", ["Gamma"]),
    "gamma_known_shape_predictive": ("distribution", ["Gamma"]),
    "normal_known_variance_predictive": ("distribution", ["Normal"]),
    "normal_known_precision_predictive": ("distribution", ["Normal"]),
    "normal_known_mean_predictive": ("distribution", ["InverseGamma", "ScaledInverseChiSquared"]),
    "normal_predictive": ("distribution", ["NormalInverseGamma", "NormalGamma"]),
    "normal_normal_inverse_gamma_predictive": ("distribution", ["NormalInverseGamma"]),
    "linear_regression_predictive": ("distribution", ["NormalInverseGamma"]),
    "multivariate_normal_known_covariance_predictive": ("distribution", ["MultivariateNormal"]),
    "multivariate_normal_known_precision_predictive": ("distribution", ["MultivariateNormal"]),
    "multivariate_normal_predictive": ("distribution", ["NormalInverseWishart"]),
}


def calls(rng):
    """(function, valid keyword arguments) for every function."""
    out = []
    for name in bayes.ELEMENTWISE:
        out.append((name, bayes.gen_elementwise(name, rng, wide=False)))
    for story in hist.ALL:
        L, prior, fixed, shape = hist.begin(story, rng)
        x = story.draw(rng, int(rng.integers(1, 6)), shape, fixed)
        out.append((story.model, dict(story.kwargs(x, fixed), prior=prior)))
    for name in preds.MARGINAL:
        out.append((name, preds.gen_predictive(name, gen.Layout(rng))))
    p = int(rng.integers(1, 4))
    mu, m1, m2 = rng.normal(size=p), gen.spd(rng, p, 1.0), gen.spd(rng, p, 1.0)
    dirichlet = D.Dirichlet(rng.gamma(2.0, size=p + 1) + 0.1)
    out += [
        ("hypergeometric_beta_binomial", dict(x_total=2, n=5, prior=D.BetaBinomial(n=20, alpha=1.5, beta=2))),
        ("categorical_dirichlet_predictive", dict(distribution=dirichlet)),
        ("multinomial_dirichlet_predictive", dict(distribution=dirichlet, n=int(rng.integers(1, 9)))),
        ("linear_regression_predictive", dict(X=rng.normal(size=(3, p)), distribution=D.NormalInverseGamma(mu=mu, alpha=1.5, beta=2.0, delta_inverse=m1))),
        ("multivariate_normal_known_covariance_predictive", dict(distribution=D.MultivariateNormal(mu, m1), cov=m2)),
        ("multivariate_normal_known_precision_predictive", dict(distribution=D.MultivariateNormal(mu, m1), precision=m2)),
        ("multivariate_normal_predictive", dict(distribution=D.NormalInverseWishart(mu=mu, kappa=1.5, nu=p + 2.0, psi=m1))),
    ]
    return out


def zoo(rng):
    """One instance of every distribution class."""
    two = np.eye(2)
    v = float(rng.gamma(2.0) + 0.5)
    out = {
        "MultivariateNormal": D.MultivariateNormal(np.zeros(2), two),
        "MultivariateStudentT": D.MultivariateStudentT(np.zeros(2), two, 3.0),
        "NormalWishart": D.NormalWishart(np.zeros(2), v, two, 4.0),
        "NormalInverseWishart": D.NormalInverseWishart(np.zeros(2), v, 4.0, two),
        "InverseWishart": D.InverseWishart(4.0, two),
        "Wishart": D.Wishart(4.0, two),
        "Dirichlet": D.Dirichlet(np.array([1.0, v])),
        "DirichletMultinomial": D.DirichletMultinomial(3, np.array([1.0, v])),
        "Multinomial": D.Multinomial(3, np.array([0.5, 0.5])),
        "NormalInverseGamma": D.NormalInverseGamma(mu=0.0, nu=v, alpha=v, beta=1.0),
        "Uniform": D.Uniform(0.0, v),
        "Binomial": D.Binomial(5, 0.4),
        "Hypergeometric": D.Hypergeometric(10, 4, 3),
        "Geometric": D.Geometric(0.4),
        "NegativeBinomial": D.NegativeBinomial(5, 0.4),
        "BetaBinomial": D.BetaBinomial(5, v, 1.0),
    }
    for name, cls in vars(D).items():
        if (
            isinstance(cls, type) and cls.__module__ == D.__name__
            and hasattr(cls, "__dataclass_fields__") and name not in out
        ):
            fields = [f for f in cls.__dataclass_fields__.values()]
            try:
                out[name] = cls(**{f.name: v for f in fields if f.name != "one_start"})
            except Exception:
                pass
    return out


class Untouchable:
    """Any use of it is an error of another kind than ValueError."""

    def _touch(self, *a, **k):
        raise sym.OnlyArithmetic("computed with an argument before the types were checked")

    for _n in (
        "add radd sub rsub mul rmul truediv rtruediv pow rpow neg matmul rmatmul getitem len "
        "iter bool float int lt gt le ge array contains abs index call"
    ).split():
        locals()[f"__{_n}__"] = _touch
    del _n

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._touch()


def foreign(rng):
    from scipy import stats

    class Beta:  # a look-alike of another library
        alpha, beta, n = 1.0, 2.0, 10

    everything = types.SimpleNamespace(
        alpha=1.0, beta=2.0, mu=0.0, sigma=1.0, nu=3.0, lam=2.0, n=10, psi=np.eye(2), cov=np.eye(2),
        p=1.0, q=1.0, r=1.0, s=1.0, a=1.0, b=1.0, c=1.0, k=1.0, x_m=1.0, kappa=1.0, delta_inverse=np.eye(2),
    )
    return [
        1, 2.5, "Beta", b"Beta", True, (1, 2), [1.0, 1.0], {"alpha": 1, "beta": 1}, np.ones(2), np.float64(2.0),
        stats.beta(1, 1), stats.gamma, D.Beta, D.Gamma, D.Normal, D.NormalInverseGamma, Beta(), everything,
        everything.__dict__, lambda: D.Beta(1, 1), [D.Beta(1, 1)], D, object(), NotImplemented, ...,
        # classes that distributions are made of
        D.SliceMixin(), D.ContinuousPlotDistMixin(), D.DiscretePlotMixin(), D.DirichletPlotDistMixin(),
    ]


def rejected(ctx, name, argument, value, others, missing=False):
    func = getattr(M, name)
    kwargs = dict(others)
    if not missing:
        kwargs[argument] = value
    got = type(None).__name__ if missing else type(value).__name__
    ctx.case(name, got, missing, repr(value)[:60], sample=(name, argument, value))
    try:
        result = func(**kwargs)
    except ValueError as e:
        text = str(e)
        ctx.ok(
            argument in text and got in text,
            f"{name}: the error for a {got} does not name the argument {argument!r} and the type: {text!r}",
        )
        ctx.event("rejected values")
        return
    except Exception as e:
        ctx.fail(f"{name}: {argument} given a {got} raised {type(e).__name__} instead of ValueError: {e}", value=value)
        return
    ctx.fail(f"{name}: {argument} given a {got} was accepted and returned {result!r}", value=value)


@unit("C24", quick=4)
def unsupported(ctx):
    """Everything that is not supported, whatever the other arguments are."""
    rng = ctx.rng
    others = {name: kw for name, kw in calls(rng)}
    animals = zoo(rng)
    strangers = foreign(rng)
    for name, (argument, kinds) in SUPPORTED.items():
        if not hasattr(M, name):
            ctx.fail(f"the model {name} does not exist")
            continue
        keep = {k: v for k, v in others[name].items() if k != argument}
        traps = {k: Untouchable() for k in keep}
        for cls, d in animals.items():
            if cls not in kinds:
                rejected(ctx, name, argument, d, traps if rng.integers(2) else keep)
                sub = type("Beta" if cls != "Beta" else "Gamma", (type(d),), {})
                rejected(ctx, name, argument, sub(**vars_of(d)), traps)
        for v in strangers:
            rejected(ctx, name, argument, v, traps if rng.integers(2) else keep)
        for v in (None,):
            rejected(ctx, name, argument, v, traps)
        rejected(ctx, name, argument, None, keep, missing=True)


def vars_of(d):
    return {k: getattr(d, k) for k in d.__dataclass_fields__}


def same(a, b):
    if a is None or b is None:
        return a is b
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


@unit("C24", quick=12)
def supported(ctx):
    """Supported classes and what inherits from them."""
    rng = ctx.rng
    seen = set()
    for name, kwargs in calls(rng):
        argument, kinds = SUPPORTED[name]
        d = kwargs[argument]
        seen.add((name, type(d).__name__))
        func = getattr(M, name)
        ctx.case(name, type(d).__name__, gen.key_of(**kwargs), sample=(name, kwargs))
        result = ctx.call(func, **kwargs)
        mine = type("Own" + type(d).__name__, (type(d),), {"__doc__": "subclass"})
        deeper = type("Deeper", (mine,), {"extra": 1})
        for cls in (mine, deeper):
            again = ctx.call(func, **dict(kwargs, **{argument: cls(**vars_of(d))}))
            ctx.ok(
                isinstance(again, type(result)) or isinstance(result, type(again)),
                f"{name}: a subclass of {type(d).__name__} gives a {type(again).__name__}",
            )
            ctx.ok(
                all(same(getattr(again, k), getattr(result, k)) for k in result.__dataclass_fields__),
                f"{name}: a subclass of {type(d).__name__} gives other parameters", one=result, other=again,
            )
            ctx.event("accepted values")
    for name, kind in sorted(seen):
        ctx.event(f"{name} with {kind}")


@unit("C24", quick=4)
def incomplete(ctx):
    """A joint prior without the parameter that the one dimensional model needs."""
    rng = ctx.rng
    v = rng.gamma(2.0, size=4) + 0.1
    d = D.NormalInverseGamma(mu=np.zeros(2), delta_inverse=np.eye(2), alpha=v[0], beta=v[1])
    for name, kw in [
        ("normal", dict(x_total=1.0, x2_total=2.0, n=3)),
        ("normal_normal_inverse_gamma", dict(x_total=1.0, x2_total=2.0, n=3)),
        ("log_normal", dict(ln_x_total=1.0, ln_x2_total=2.0, n=3)),
    ]:
        ctx.case(name, "no nu", v.tobytes(), sample=(name, d))
        try:
            result = getattr(M, name)(prior=d, **kw)
        except ValueError:
            ctx.ok(True, "")
        except Exception as e:
            ctx.fail(f"{name}: a prior without nu raised {type(e).__name__}: {e}")
        else:
            ctx.fail(f"{name}: a prior without nu was accepted and returned {result!r}")
    # the two forms of the joint distribution: exactly one of them
    one = [v[2], int(rng.integers(0, 5)), np.float64(v[3]), np.asarray(v), 0.0][rng.integers(5)]
    many = np.eye(2) * v[2]
    for how, build in [
        ("from_inverse_gamma", lambda **k: D.NormalInverseGamma.from_inverse_gamma(mu=1.0, inverse_gamma=D.InverseGamma(v[0], v[1]), **k)),
        ("NormalInverseGamma", lambda **k: D.NormalInverseGamma(mu=1.0, alpha=v[0], beta=v[1], **k)),
    ]:
        for kw in ({}, dict(nu=one, delta_inverse=many), dict(nu=None), dict(delta_inverse=None, nu=None)):
            ctx.case(how, sorted(kw), repr(one), sample=(how, kw))
            try:
                d = build(**kw)
            except ValueError:
                ctx.ok(True, "")
            except Exception as e:
                ctx.fail(f"{how}: {sorted(kw)} raised {type(e).__name__}: {e}")
            else:
                ctx.fail(f"{how}: accepted {kw} as {d!r}")
        d = ctx.call(build, nu=one)
        ctx.ok(d.nu is one and d.delta_inverse is None, f"{how}: nu {one} gives {d!r}")
        d = ctx.call(build, delta_inverse=many)
        ctx.ok(d.delta_inverse is many and d.nu is None, f"{how}: a matrix gives {d!r}")
