"""Bayes' rule as an oracle for the models with vector and matrix parameters."""

import numpy as np
from scipy.special import betaln, gammaln, i0e


def constant(terms, tol, what, extra=1e-12):
    """Complaint when the sum of the terms (G,) is not the same at every point."""
    terms = [np.asarray(t, dtype=float) for t in terms]
    dd = sum(terms)
    scale = sum(abs(t) for t in terms)
    if not np.all(np.isfinite(dd)):
        return [f"{what}: not finite: {dd}"]
    ref = int(np.argmin(scale))
    err = abs(dd - dd[ref])
    lim = tol * (scale + scale[ref]) + extra
    if np.any(~(err <= lim)):
        g = int(np.argmax(err / lim))
        return [
            f"{what}: log posterior - log prior - log likelihood differs by {err[g]:.6g} "
            f"between parameter values (rounding allows {lim[g]:.3g})"
        ]
    return []


# ------------------------------------------------------------- Dirichlet
def judge_dirichlet(prior, x, post):
    a0, a1 = (
        np.asarray(prior.alpha, dtype=float),
        np.asarray(post.alpha, dtype=float),
    )
    x = np.asarray(x, dtype=float)
    if type(post) is not type(prior):
        return [f"posterior is a {type(post).__name__}"]
    shape = np.broadcast_shapes(a0.shape, x.shape)
    if a1.shape != shape:
        return [f"posterior alpha has shape {a1.shape} instead of {shape}"]
    k = shape[-1]
    # corners, faces and the inside of the simplex
    logits = np.vstack(
        [
            np.eye(k) * 8,
            -np.eye(k) * 8,
            np.zeros((1, k)),
            np.sin(np.outer(np.arange(1, 5), np.arange(1, k + 1)) * 1.7) * 3,
        ]
    )
    logp = logits - np.log(np.exp(logits).sum(axis=1, keepdims=True))
    out = []
    for i in np.ndindex(shape[:-1]):
        b0 = np.broadcast_to(a0, shape)[i]
        xx = np.broadcast_to(x, shape)[i]
        terms = (
            [(a1[i][j] - 1) * logp[:, j] for j in range(k)]
            + [-(b0[j] - 1) * logp[:, j] for j in range(k)]
            + [-xx[j] * logp[:, j] for j in range(k)]
        )
        out += constant(terms, 1e-12, f"Dirichlet {b0} + {xx} -> {a1[i]}")
        if not np.all(a1[i] > 0):
            out.append(f"posterior alpha is not positive: {a1[i]}")
    return out


# -------------------------------------------------------- hypergeometric
def betabinom_logpmf(k, n, a, b):
    return (
        -np.log1p(n)
        - betaln(n - k + 1, k + 1)
        + betaln(k + a, n - k + b)
        - betaln(a, b)
    )


def judge_hypergeometric(prior, x, n, post):
    """('ok' | 'known' | 'bad', detail) for scalar arguments."""
    big_n = int(prior.n)
    x, n = int(x), int(n)
    k = np.arange(0, big_n + 1)

    def lchoose(a, b):
        valid = (b >= 0) & (b <= a)
        bb = np.where(valid, b, 0)
        return np.where(
            valid, gammaln(a + 1) - gammaln(bb + 1) - gammaln(a - bb + 1), -np.inf
        )

    lik = lchoose(k, x) + lchoose(big_n - k, n - x)
    lp = betabinom_logpmf(k, big_n, prior.alpha, prior.beta) + lik
    bayes = np.exp(lp - lp.max())
    bayes /= bayes.sum()
    if type(post) is not type(prior):
        return "bad", f"posterior is a {type(post).__name__}"
    got = post.dist.pmf(k)
    if np.allclose(got, bayes, rtol=1e-7, atol=1e-10):
        return "ok", ""
    known = np.exp(
        betabinom_logpmf(k, big_n, prior.alpha + x, prior.beta + big_n - x)
    )
    same_params = (
        post.n == prior.n
        and np.isclose(post.alpha, prior.alpha + x, rtol=1e-12)
        and np.isclose(post.beta, prior.beta + big_n - x, rtol=1e-12)
    )
    detail = (
        f"population {big_n}, {x} successes in {n} draws, prior {prior}: returned "
        f"{post}, whose probabilities differ from Bayes' rule by {abs(got - bayes).max():.3g}"
    )
    if same_params and np.allclose(got, known, rtol=1e-7, atol=1e-10):
        return "known", detail
    return "bad", detail


# ------------------------------------------------- multivariate kernels
def k_mvn(mu, cov, t):
    """Terms of the log density of a multivariate normal at rows of t."""
    prec = np.linalg.inv(cov)
    prec = (prec + prec.T) / 2
    return [
        -0.5 * np.einsum("gi,ij,gj->g", t, prec, t),
        t @ (prec @ mu),
    ]


def k_iw(nu, psi, sig, inv, logdet):
    p = psi.shape[0]
    return [
        -(nu + p + 1) / 2 * logdet,
        -0.5 * np.einsum("ij,gji->g", psi, inv),
    ]


def quad(delta, inv):
    return np.einsum("gi,gij,gj->g", delta, inv, delta)


def random_spd(rng, g, p):
    from vmon import gen

    sig = np.stack([gen.spd(rng, p, 2.0) for _ in range(g)])
    return sig, np.linalg.inv(sig), np.linalg.slogdet(sig)[1]


def spd_complaints(name, m, p):
    m = np.asarray(m, dtype=float)
    if m.shape != (p, p):
        return [f"{name} has shape {m.shape} instead of {(p, p)}"]
    out = []
    if not np.all(np.isfinite(m)):
        return [f"{name} is not finite"]
    if not np.allclose(m, m.T, rtol=1e-8, atol=1e-10 * abs(m).max()):
        out.append(f"{name} is not symmetric: {m}")
    if np.linalg.eigvalsh((m + m.T) / 2).min() <= 0:
        out.append(f"{name} is not positive definite: {m}")
    return out


def judge_mvn_known(prior, n, x_bar, precision, post, rng, cond=1e4):
    """Known covariance (given as its precision) with a normal prior on the mean."""
    mu0, cov0 = np.asarray(prior.mu, float), np.asarray(prior.cov, float)
    p = mu0.shape[0]
    if type(post) is not type(prior):
        return [f"posterior is a {type(post).__name__}"]
    mu1, cov1 = np.asarray(post.mu, float), np.asarray(post.cov, float)
    out = spd_complaints("posterior covariance", cov1, p)
    if mu1.shape != (p,):
        out.append(f"posterior mean has shape {mu1.shape}")
    if out:
        return out
    x_bar = np.asarray(x_bar, float)
    s = max(1.0, abs(mu0).max(), abs(x_bar).max(), np.sqrt(np.trace(cov0)))
    t = np.vstack(
        [
            np.zeros(p),
            rng.normal(size=(8, p)) * s,
            rng.normal(size=(4, p)) * s * 0.05,
            np.eye(p) * s * 3,
        ]
    )
    lik = [
        -0.5 * n * np.einsum("gi,ij,gj->g", t, precision, t),
        n * (t @ (precision @ x_bar)),
    ]
    terms = (
        k_mvn(mu1, cov1, t) + [-a for a in k_mvn(mu0, cov0, t)] + [-a for a in lik]
    )
    return constant(terms, 1e-15 * cond * 50 + 1e-11, "multivariate normal mean", 1e-9)


def judge_mvn_known_mean(prior, X, mu, post, rng):
    psi0 = np.asarray(prior.psi, float)
    p = psi0.shape[0]
    if type(post) is not type(prior):
        return [f"posterior is a {type(post).__name__}"]
    psi1 = np.asarray(post.psi, float)
    out = spd_complaints("posterior psi", psi1, p)
    if out:
        return out
    sig, inv, ld = random_spd(rng, 12, p)
    X = np.asarray(X, float)
    lik = [-0.5 * X.shape[0] * ld]
    for row in X:
        d = np.repeat((row - mu)[None], len(sig), axis=0)
        lik.append(-0.5 * quad(d, inv))
    terms = (
        k_iw(post.nu, psi1, sig, inv, ld)
        + [-a for a in k_iw(prior.nu, psi0, sig, inv, ld)]
        + [-a for a in lik]
    )
    return constant(terms, 1e-10, "inverse Wishart", 1e-9)


def k_niw(d, m, sig, inv, ld):
    mu, kappa, nu, psi = (np.asarray(v, float) for v in (d.mu, d.kappa, d.nu, d.psi))
    return k_iw(nu, psi, sig, inv, ld) + [
        -0.5 * ld,
        -0.5 * kappa * quad(m, inv),
        kappa * np.einsum("gi,gij,j->g", m, inv, mu),
        -0.5 * kappa * np.einsum("i,gij,j->g", mu, inv, mu),
    ]


def judge_niw(prior, X, post, rng):
    p = np.asarray(prior.psi).shape[0]
    if type(post) is not type(prior):
        return [f"posterior is a {type(post).__name__}"]
    out = spd_complaints("posterior psi", post.psi, p)
    if np.shape(post.mu) != (p,):
        out.append(f"posterior mean has shape {np.shape(post.mu)}")
    if out:
        return out
    X = np.asarray(X, float)
    sig, inv, ld = random_spd(rng, 14, p)
    s = max(1.0, abs(X).max(), abs(np.asarray(prior.mu, float)).max())
    m = rng.normal(size=(14, p)) * s * np.exp(rng.uniform(-4, 1, size=(14, 1)))
    m[0] = 0
    lik = [-0.5 * X.shape[0] * ld]
    for row in X:
        lik += [
            -0.5 * quad(m, inv),
            np.einsum("gi,gij,j->g", m, inv, row),
            -0.5 * np.einsum("i,gij,j->g", row, inv, row),
        ]
    terms = (
        k_niw(post, m, sig, inv, ld)
        + [-a for a in k_niw(prior, m, sig, inv, ld)]
        + [-a for a in lik]
    )
    return constant(terms, 1e-10, "normal inverse Wishart", 1e-9)


# ------------------------------------------------------------ regression
def k_nig_nd(d, b, v):
    mu = np.asarray(d.mu, float)
    delta = np.linalg.inv(np.asarray(d.delta_inverse, float))
    p = mu.shape[0]
    return [
        -(d.alpha + 1 + p / 2) * np.log(v),
        -d.beta / v,
        -0.5 * np.einsum("gi,ij,gj->g", b, delta, b) / v,
        (b @ (delta @ mu)) / v,
        -0.5 * (mu @ delta @ mu) / v,
    ]


def judge_regression(prior, X, y, post, rng, tol=3e-9):
    X, y = np.asarray(X, float), np.asarray(y, float)
    p = X.shape[1]
    if type(post) is not type(prior):
        return [f"posterior is a {type(post).__name__}"]
    out = spd_complaints("posterior delta_inverse", post.delta_inverse, p)
    if np.shape(post.mu) != (p,):
        out.append(f"posterior mean has shape {np.shape(post.mu)}")
    if np.ndim(post.alpha) or np.ndim(post.beta):
        out.append("posterior alpha and beta are not scalar")
    if post.nu is not None:
        out.append("posterior nu is set")
    if out:
        return out
    s = max(1.0, abs(np.asarray(prior.mu, float)).max())
    b = rng.normal(size=(16, p)) * s * np.exp(rng.uniform(-3, 2, size=(16, 1)))
    b[0] = 0
    v = np.exp(rng.uniform(-4, 8, size=16))
    lik = [
        -0.5 * X.shape[0] * np.log(v),
        -0.5 * (y @ y) / v,
        (b @ (X.T @ y)) / v,
        -0.5 * np.einsum("gi,ij,gj->g", b, X.T @ X, b) / v,
    ]
    terms = (
        k_nig_nd(post, b, v) + [-a for a in k_nig_nd(prior, b, v)] + [-a for a in lik]
    )
    return constant(terms, tol, "linear regression", 1e-8)


def log_i0(k):
    return np.log(i0e(k)) + np.abs(k)
