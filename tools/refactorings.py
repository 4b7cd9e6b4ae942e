"""Edits of the library that keep its behaviour: (name, (file, old text, new text), ...).

Used by refactor_matrix.py, where every check has to stay quiet on each of them.
"""

EDITS = []
m, d, p, s = "models.py", "distributions.py", "plot.py", "slice.py"
bg, cg, rn = "_beta_geometric.py", "_compound_gamma.py", "_random.py"


def ref(name, *edits):
    EDITS.append((name, edits))


ref("binomial-helper",(m,"    beta_post = beta_prior + (n - x)\n\n    return alpha_post, beta_post","    failures = n - x\n    beta_post = beta_prior + failures\n\n    return alpha_post, beta_post"),
 (m,"    alpha_post = prior.alpha + (r * n)\n    beta_post = prior.beta + x\n","    beta_post = prior.beta + x\n    failures = r * n\n    alpha_post = prior.alpha + failures\n"))
ref("binomial-order",(m,"    beta_post = beta_prior + (n - x)\n","    beta_post = beta_prior + n - x\n"))
ref("geometric-branches",(m,"    beta_post = prior.beta + x_total\n\n    if one_start:\n        beta_post = beta_post - n\n","    failures = x_total - n if one_start else x_total\n    beta_post = prior.beta + failures\n"))
ref("known-variance-once",(m,"""    mu_post = ((prior.mu / prior.sigma**2) + (x_total / var)) / (
        (1 / prior.sigma**2) + (n / var)
    )

    var_post = 1 / ((1 / prior.sigma**2) + (n / var))
""","""    precision_post = (1 / prior.sigma**2) + (n / var)
    var_post = 1 / precision_post
    mu_post = var_post * ((prior.mu / prior.sigma**2) + (x_total / var))
"""))
ref("known-mean-beta",(m,"    beta_post = prior.beta + (0.5 * (x2_total - (2 * mu * x_total) + (n * (mu**2))))","    sum_of_squares = x2_total - (2 * mu * x_total) + (n * (mu**2))\n    beta_post = prior.beta + sum_of_squares / 2"))
ref("scaled-helper",(d,"""        nu = inverse_gamma.alpha * 2
        sigma2 = inverse_gamma.beta * 2 / nu
""","""        nu = 2 * inverse_gamma.alpha
        sigma2 = inverse_gamma.beta / inverse_gamma.alpha
"""),(d,"        return stats.invgamma(a=self.nu / 2, scale=self.nu * self.sigma2 / 2)","        return self.to_inverse_gamma().dist"))
ref("lomax-pareto",(d,"        return stats.lomax(c=self.alpha, scale=self.lam)","        return stats.pareto(b=self.alpha, loc=-np.asarray(self.lam), scale=self.lam)"))
ref("weibull-inline",(d,"""        k = self.beta
        lam = self.theta ** (1 / self.beta)
        return stats.weibull_min(c=k, scale=lam)""","""        return stats.weibull_min(self.beta, scale=self.theta ** (1 / self.beta))"""))
ref("take-slice-out",(s,"""    def __getitem__(self, key):
        length = max(
            (np.shape(v)[0] for v in self.params.values() if np.ndim(v) > 0),
            default=0,
        )

        def take_slice(value, key):
            if np.ndim(value) == 0:
                return value

            if np.shape(value)[0] == 1 and length > 1:
                # broadcasts with the other parameters
                return value

            try:
                return value[key]
            except TypeError:
                # list and tuple only take integers and slices
                return np.asarray(value)[key]

        new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}

        return self.__class__(**new_params)""","""    def __getitem__(self, key):
        params = self.params
        length = max(
            (np.shape(v)[0] for v in params.values() if np.ndim(v) > 0),
            default=0,
        )

        new_params = {}
        for name, value in params.items():
            new_params[name] = _take_slice(value, key, length)

        return type(self)(**new_params)


def _take_slice(value, key, length):
    if np.ndim(value) == 0 or (np.shape(value)[0] == 1 and length > 1):
        return value

    if isinstance(value, (list, tuple)) and not isinstance(key, (int, slice)):
        value = np.asarray(value)

    return value[key]"""))
ref("slice-fields",(s,"        return asdict(self)\n","        return {field.name: getattr(self, field.name) for field in fields(self)}\n"),(s,"from dataclasses import asdict","from dataclasses import fields"))
ref("beta-geometric-gamma",(bg,"    pmf = np.exp(betaln(a + 1, x + b) - betaln(a, b))\n","    log_pmf = betaln(a + 1, x + b) - betaln(a, b)\n    pmf = np.exp(log_pmf)\n"),
 (bg,"    sf = np.exp(betaln(a, x + b + 1) - betaln(a, b))\n\n    return np.where(in_support, 1.0 - sf, 0.0)[()]","    log_sf = betaln(a, x + b + 1) - betaln(a, b)\n    cdf = -np.expm1(log_sf)\n\n    return np.where(in_support, cdf, 0.0)[()]"))
ref("random-default",(rn,"    if isinstance(random_state, Integral):\n        return np.random.RandomState(random_state)\n\n    return random_state","    if not isinstance(random_state, Integral):\n        return random_state\n\n    return np.random.RandomState(int(random_state))"))
ref("validate-signature",(m,"""            parameter_value = kwargs.get(parameter, None)
            recieved_type = type(parameter_value)
            if not isinstance(parameter_value, expected_type):""","""            parameter_value = kwargs.get(parameter)
            recieved_type = type(parameter_value)
            valid = isinstance(parameter_value, expected_type)
            if not valid:"""))
ref("regression-order",(m,"    N = X.shape[0]\n\n    delta = inv(prior.delta_inverse)\n\n    delta_post = (X.T @ X) + delta\n","    delta = inv(prior.delta_inverse)\n    delta_post = delta + (X.T @ X)\n    N = len(X)\n"))
ref("mvn-scatter",(m,"    C = (X - X_mean).T @ (X - X_mean)\n","    centered = X - X_mean\n    C = centered.T @ centered\n"),(m,"        (X - mu).T @ (X - mu)","        _scatter(X, mu)") if False else (m,"    nu_post = prior.nu + n\n","    nu_post = n + prior.nu\n"))
ref("mvn-precision-once",(m,"    mu_post = inv(precision_0 + n * precision) @ (\n        (precision_0 @ x_bar_0) + (n * (precision @ x_bar))\n    )\n    precision_post = precision_0 + (n * precision)\n","    precision_post = precision_0 + n * precision\n    mu_post = inv(precision_post) @ (\n        precision_0 @ x_bar_0 + n * (precision @ x_bar)\n    )\n"))
ref("plot-draw-helper",(p,"""        if "label" in kwargs:
            label = kwargs.pop("label")
            label = resolve_label(label, yy)
        else:
            label = None

        if "color" in kwargs and is_color_cycle(kwargs["color"]):
            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])

        ax.plot(x, yy, label=label, **kwargs)
        self._setup_labels(ax=ax, cdf=cdf)""","""        label = resolve_label(kwargs.pop("label", None), yy)
        _settle_color(ax, kwargs)

        ax.plot(x, yy, label=label, **kwargs)
        self._setup_labels(ax=ax, cdf=cdf)"""),(p,"""        if "label" in kwargs:
            label = kwargs.pop("label")
            label = resolve_label(label, yy)
        else:
            label = None

        if "color" in kwargs and is_color_cycle(kwargs["color"]):
            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])

        ax.plot(x, yy, mark, label=label, **kwargs)
""","""        label = resolve_label(kwargs.pop("label", None), yy)
        _settle_color(ax, kwargs)

        ax.plot(x, yy, mark, label=label, **kwargs)
"""),(p,"class PlotDistMixin:\n","""def _settle_color(ax, kwargs) -> None:
    if "color" not in kwargs or not is_color_cycle(kwargs["color"]):
        return

    colors = [to_rgba(c) for c in kwargs.pop("color")]
    ax.set_prop_cycle(color=colors)


class PlotDistMixin:
"""))
ref("plot-reshape",(p,"""        for value in asdict(self).values():
            if not isinstance(value, float):
                return x[:, None]

        return x
""","""        if all(isinstance(value, float) for value in asdict(self).values()):
            return x

        return x.reshape(-1, 1)
"""))
ref("plot-bounds-vars",(p,"""        if hasattr(self, "_max_value"):
            return self._max_value

        if hasattr(self, "_natural_max_value"):
            return self._natural_max_value

        raise ValueError("Set the max value before plotting.")
""","""        for attribute in ("_max_value", "_natural_max_value"):
            if hasattr(self, attribute):
                return getattr(self, attribute)

        raise ValueError("The upper bound of the plot is not known. Set it with set_max_value.")
"""),(p,"        return self.set_min_value(lower).set_max_value(upper)","        self.max_value = upper\n        self.min_value = lower\n\n        return self"))
ref("plot-lines-loop",(p,"        for x, label in zip_longest(distribution_samples.T, labels):\n            kde = gaussian_kde(x)\n\n            yy = kde(xx)\n            ax.plot(xx, yy, label=label, **kwargs)\n","        for category, label in zip_longest(distribution_samples.T, labels):\n            ax.plot(xx, gaussian_kde(category)(xx), label=label, **kwargs)\n"))
ref("nig-sampler-inline",(d,"""        sample_beta = (
            self._sample_beta_1d if self.delta_inverse is None else self._sample_beta_nd
        )
        beta = sample_beta(variance=variance, size=size, random_state=random_state)
""","""        if self.delta_inverse is None:
            beta = self._sample_beta_1d(variance, size, random_state)
        else:
            beta = self._sample_beta_nd(variance, size, random_state)
"""))
ref("nig-nd-cholesky",(d,"""        variance = (self.delta_inverse[None, ...].T * variance).T
        return np.stack(
            [
                stats.multivariate_normal(self.mu, v).rvs(
                    size=1, random_state=random_state
                )
                for v in variance
            ]
        )
""","""        samples = []
        for sigma2 in variance:
            normal = stats.multivariate_normal(self.mu, sigma2 * self.delta_inverse)
            samples.append(normal.rvs(size=1, random_state=random_state))

        return np.stack(samples)
"""))
ref("normal-mul",(d,"        sigma = ((self.sigma**2) * other) ** 0.5\n        return Normal(mu=self.mu * other, sigma=sigma)","        return Normal(mu=other * self.mu, sigma=self.sigma * other**0.5)"))
ref("kernel-terms",(d,"""            self.k * gammaln(alpha + beta)
            + alpha * ln(self.p)
            + beta * ln(self.q)
            - self.k * gammaln(alpha)
            - self.k * gammaln(beta)
""","""            alpha * ln(self.p)
            + beta * ln(self.q)
            - self.k * (gammaln(alpha) + gammaln(beta) - gammaln(alpha + beta))
"""))
ref("dist-keywords",(d,"        return stats.beta(self.alpha, self.beta)","        return stats.beta(a=self.alpha, b=self.beta)"),(d,"        return stats.gamma(a=self.alpha, scale=1 / self.beta)","        scale = 1 / self.beta\n        return stats.gamma(self.alpha, scale=scale)"),
 (d,"        return stats.norm(self.mu, self.sigma)","        return stats.norm(loc=self.mu, scale=self.sigma)"),(d,"        loc = 0 if self.one_start else -1\n        return stats.geom(self.p, loc=loc)","        if self.one_start:\n            return stats.geom(self.p)\n\n        return stats.geom(self.p, loc=-1)"))
ref("dirichlet-sum",(m,"    both_sequences = isinstance(alpha_prior, (list, tuple)) and isinstance(\n        x, (list, tuple)\n    )\n    if not both_sequences:\n        try:\n            return alpha_prior + x\n        except Exception:\n            pass\n","    sequences = (list, tuple)\n    if not (isinstance(alpha_prior, sequences) and isinstance(x, sequences)):\n        try:\n            return alpha_prior + x\n        except Exception:\n            pass\n"))
ref("normal-class",(m,"""    kwargs = (
        {""","""    posterior_kwargs = (
        {"""),(m,"    return prior.__class__(**kwargs)","    return type(prior)(**posterior_kwargs)"))
ref("normal-beta",(m,"    beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)","    beta_post = beta + (nu * mu_0**2 + x2_total - nu_post * mu_post**2) / 2"))
ref("predictive-var",(m,"    var = distribution.beta * (nu + 1) / (nu * distribution.alpha)\n","    var = (distribution.beta / distribution.alpha) * (1 + 1 / nu)\n"))
ref("vectorized-generator",(d,"        return np.stack([self.dist(param).mean() for param in self.params])","        means = (self.dist(param).mean() for param in self.params)\n        return np.stack(list(means))"))
ref("compound-gamma-order",(cg,"        random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)\n        return gamma.rvs(a, scale=1 / random_b, size=size, random_state=random_state)","        rate = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)\n        return gamma.rvs(a, size=size, random_state=random_state) / rate"))
ref("poisson-p",(m,"    p = distribution.beta / (n + distribution.beta)","    p = 1 / (1 + n / distribution.beta)"))
ref("von-mises-hypot",(m,"    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5","    a_post_squared = cos_total_post**2 + sin_total_post**2\n    a_post = a_post_squared**0.5"))
ref("validate-helper",(m,"""            if not isinstance(parameter_value, expected_type):
                expected_name = getattr(expected_type, "__name__", str(expected_type))
                msg = (
                    f"Expected {parameter} to be of type {expected_name!r}, "
                    f"got {recieved_type.__name__!r} instead."
                )
                raise ValueError(msg)
""","""            if not isinstance(parameter_value, expected_type):
                raise ValueError(_message(parameter, expected_type, recieved_type))
"""),(m,"def validate_type(func","""def _message(parameter, expected, received):
    expected_name = getattr(expected, "__name__", str(expected))
    return f"Expected {parameter} to be of type {expected_name!r}, got {received.__name__!r} instead."


def validate_type(func"""))
ref("validate-early",(m,"""        if expected_type is not None:
            parameter_value""","""        if expected_type is None:
            return func(*args, **kwargs)

        if True:
            parameter_value"""))
ref("dirichlet-list-add",(m,"""    return [
        alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x, strict=True)
    ]
""","""    alpha_post = []
    for alpha_prior_i, x_i in zip(alpha_prior, x, strict=True):
        alpha_post.append(alpha_prior_i + x_i)

    return alpha_post
"""))
ref("shared-gamma-update",(m,"""    alpha_post = prior.alpha + n
    beta_post = prior.beta + x_beta_total
""","""    alpha_post, beta_post = prior.alpha + n, prior.beta + x_beta_total
"""),(m,"""    alpha_post = alpha + n
    beta_post = beta + x_total

    return alpha_post, beta_post""","""    return get_poisson_gamma_posterior_params(
        alpha=alpha, beta=beta, x_total=n, n=x_total
    )"""))
ref("normal-mean-shift",(m,"    mu_post = ((nu * mu_0) + x_total) / nu_post\n","    mu_post = (nu / nu_post) * mu_0 + x_total / nu_post\n"))
ref("normal-deviation",(m,"    mu_post = ((nu * mu_0) + x_total) / nu_post\n","    mu_post = mu_0 + (x_total - n * mu_0) / nu_post\n"))
ref("normal-dict",(m,"""    nu = (
        distribution.nu
        if isinstance(distribution, NormalInverseGamma)
        else distribution.lam
    )
""","""    if isinstance(distribution, NormalInverseGamma):
        nu = distribution.nu
    else:
        nu = distribution.lam
"""))
ref("regression-sums",(m,"""    beta_post = prior.beta + (
        0.5
        * (
            (y.T @ y)
            # (1, B) * (B, B) * (B, 1)
            + (prior.mu.T @ delta @ prior.mu)
            # (1, B) * (B, B) * (B, 1)
            - (mu_post.T @ delta_post @ mu_post)
        )
    )
""","""    quadratic_prior = prior.mu @ (delta @ prior.mu)
    quadratic_post = mu_post @ (delta_post @ mu_post)
    beta_post = prior.beta + (y @ y - quadratic_post + quadratic_prior) / 2
"""))
ref("regression-xty",(m,"""    mu_post = (
        # (B, B)
        delta_post_inverse
        # (B, 1)
        # (B, B) * (B, 1) +  (B, N) * (N, 1)
        @ (delta @ prior.mu + X.T @ y)
    )
""","""    weighted = X.T @ y + delta @ prior.mu
    mu_post = delta_post_inverse @ weighted
"""),(m,"(X @ distribution.delta_inverse @ X.T)","(X @ (distribution.delta_inverse @ X.T))"))
ref("niw-weights",(m,"    mu_post = (prior.mu * prior.kappa + n * X_mean) / (prior.kappa + n)\n\n    kappa_post = prior.kappa + n\n","    kappa_post = prior.kappa + n\n    mu_post = prior.mu + (n / kappa_post) * (X_mean - prior.mu)\n"),
 (m,"        + outer(mean_difference, mean_difference) * n * prior.kappa / kappa_post\n","        + (prior.kappa * n / kappa_post) * outer(mean_difference, mean_difference)\n"))
ref("niw-predictive",(m,"    nu = distribution.nu - p + 1\n    sigma = (\n        (distribution.kappa + 1)\n        * distribution.psi\n        / (distribution.kappa * (distribution.nu - p + 1))\n    )","    nu = distribution.nu + 1 - p\n    sigma = distribution.psi * (distribution.kappa + 1) / (distribution.kappa * nu)"))
ref("mvn-gain",(m,"    cov_pred = distribution.cov + inv(precision)","    cov = inv(precision)\n    cov_pred = cov + distribution.cov"))
ref("max-loop",(m,"    alpha_post = prior.alpha + n\n    x_m_post = max_fn(prior.x_m, x_max)\n","    x_m_post = max_fn(prior.x_m, x_max)\n    alpha_post = n + prior.alpha\n"))
ref("pareto-units",(m,"    beta_post = prior.beta + ln_x_total - n * ln(x_m)","    beta_post = prior.beta + (ln_x_total - n * ln(x_m))"))
ref("von-mises-terms",(m,"    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total","    sin_total_post = kappa * sin_total + prior.a * sin(prior.b)"))
ref("label-loop",(p,"""        return [f"{label} {i}" for i in range(1, ncols + 1)]
""","""        labels = []
        for i in range(ncols):
            labels.append(f"{label} {i + 1}")
        return labels
"""),(p,"        return [label(i) for i in range(ncols)]","        return list(map(label, range(ncols)))"))
ref("labels-pop",(p,"""        if "label" in kwargs:
            label = kwargs.pop("label")
            label = resolve_label(label, yy)
        else:
            label = None

        if "color" in kwargs and is_color_cycle(kwargs["color"]):
            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])

        ax.plot(x, yy, label=label, **kwargs)
        self._setup_labels(ax=ax, cdf=cdf)
        ax.set_ylim(0, None)
""","""        label = resolve_label(kwargs.pop("label", None), yy)
        self._setup_labels(ax=ax, cdf=cdf)
        if is_color_cycle(kwargs.get("color")):
            colors = kwargs.pop("color")
            ax.set_prop_cycle(color=list(map(to_rgba, colors)))

        ax.plot(x, yy, label=label, **kwargs)
        ax.set_ylim(bottom=0)
"""))
ref("discrete-ticks",(p,"""        if self.max_value - self.min_value < 15:
            ax.set_xticks(x.ravel())
        else:
            ax.set_xticks(x.ravel(), minor=True)
            ax.set_xticks(x[::5].ravel())
""","""        ticks = x.ravel()
        few = self.max_value - self.min_value < 15
        if not few:
            ax.set_xticks(ticks, minor=True)
            ticks = ticks[::5]
        ax.set_xticks(ticks)
"""))
ref("discrete-grid",(p,"        return np.arange(np.ceil(self.min_value), np.floor(self.max_value) + 1, 1)","        first, last = np.ceil(self.min_value), np.floor(self.max_value)\n        return first + np.arange(0, last - first + 1)"))
ref("plot-axis-first",(p,"""        x = self._create_x_values()
        x = self._reshape_x_values(x)

        ax = self._settle_axis(ax=ax)

        return self._create_plot_on_axis(x=x,""","""        ax = self._settle_axis(ax)
        x = self._reshape_x_values(self._create_x_values())

        return self._create_plot_on_axis(x=x,"""))
ref("plot-asdict-fields",(p,"        for value in asdict(self).values():\n            if not isinstance(value, float):\n                return x[:, None]\n\n        return x","        if all(isinstance(value, float) for value in vars(self).values() if value is not None and value is not getattr(self, '_max_value', None) and value is not getattr(self, '_min_value', None)):\n            return x\n\n        return x[:, None]"))
ref("slice-comprehension",(s,"        new_params = {k: take_slice(v, key, shapes[k]) for k, v in params.items()}\n\n        return self.__class__(**new_params)","        new_params = dict(params)\n        for name, value in params.items():\n            new_params[name] = take_slice(value, key, shapes[name])\n\n        return type(self)(**new_params)"))
ref("slice-shapes-loop",(s,"                value = np.array(np.broadcast_to(value, shape + vector))","                value = np.broadcast_to(value, (*shape, *vector)).copy()"))
ref("random-tuple",(rn,"    if isinstance(random_state, Integral):\n        return np.random.RandomState(random_state)\n\n    return random_state","    seeded = isinstance(random_state, Integral)\n    return np.random.RandomState(random_state) if seeded else random_state"))
ref("normal-gamma-precision",(d,"        sigma = (variance / self.lam) ** 0.5\n        beta = stats.norm(loc=self.mu, scale=sigma).rvs(\n            size=size, random_state=random_state\n        )","        sigma = np.sqrt(variance / self.lam)\n        beta = stats.norm(self.mu, sigma).rvs(size=size, random_state=random_state)"))
ref("normal-gamma-noise",(d,"        sigma = (variance / self.lam) ** 0.5\n        beta = stats.norm(loc=self.mu, scale=sigma).rvs(\n            size=size, random_state=random_state\n        )","        sigma = (variance / self.lam) ** 0.5\n        noise = stats.norm.rvs(size=size, random_state=random_state)\n        beta = self.mu + sigma * noise"))
ref("marginal-diagonal",(d,"            return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)","            sigma = np.diagonal(self.cov)[key] ** 0.5\n            return Normal(mu=self.mu[key], sigma=sigma)"),(d,"            mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu\n","            mu=self.mu[key], sigma=self.sigma[key, :][:, key], nu=self.nu\n"))
ref("nig-stack-loop",(d,"""        return np.stack(
            [
                stats.multivariate_normal(self.mu, v, allow_singular=True).rvs(
                    size=1, random_state=random_state
                )
                for v in variance
            ]
        )
""","""        betas = []
        for v in variance:
            normal = stats.multivariate_normal(self.mu, v, allow_singular=True)
            betas.append(normal.rvs(size=1, random_state=random_state))

        return np.stack(betas)
"""))
ref("beta-geometric-beta",(bg,"    pmf = np.exp(betaln(a + 1, x + b) - betaln(a, b))\n","    from scipy.special import gammaln\n\n    pmf = np.exp(betaln(a + 1, b + x) - betaln(b, a))\n"),(bg,"        p = np.maximum(p, np.finfo(float).tiny)\n","        p = np.clip(p, np.finfo(float).tiny, None)\n"))
ref("compound-ratio",(cg,"        return gamma.rvs(a, scale=1 / random_b, size=size, random_state=random_state)","        return gamma.rvs(a, size=size, random_state=random_state) / random_b"),(cg,"    return betaprime.cdf(x, a, b, scale=q)","    return betaprime(a, b, scale=q).cdf(x)"))
ref("gamma-proportional-terms",(d,"            (alpha - 1) * ln(self.p)\n            - self.q * beta\n            - self.r * gammaln(alpha)\n            + self.s * alpha * ln(beta)","            self.s * alpha * ln(beta)\n            + (alpha - 1) * ln(self.p)\n            - self.r * gammaln(alpha)\n            - beta * self.q"))
ref("mul-helpers",(d,"        return NegativeBinomial(n=self.n * other, p=self.p)","        return self.__class__(n=other * self.n, p=self.p)"),(d,"        return Poisson(self.lam + other.lam)","        total = self.lam + other.lam\n        return Poisson(lam=total)"))
ref("extreme-simple",(d,"""    if isinstance(value, (list, tuple)) or hasattr(value, "__array__"):
        value = np.asarray(value)
        return func(value) if value.size else value

    return value
""","""    scalar = not isinstance(value, (list, tuple)) and not hasattr(value, "__array__")
    if scalar:
        return value

    values = np.asarray(value)
    return func(values) if values.size > 0 else values
"""))
ref("negative-binomial-comment",(m,"    alpha_post = prior.alpha + (r * n)\n    beta_post = prior.beta + x\n","    alpha_post = prior.alpha + n * r\n    beta_post = prior.beta + x\n"))
ref("poisson-branches",(m,"    p = distribution.beta / (n + distribution.beta)","    beta = distribution.beta\n    p = beta / (beta + n)"))
