import numpy as np
import pymc as pm
import pytensor.tensor as pt
from pymc.gp.util import JITTER_DEFAULT, stabilize
from pytensor.tensor.linalg import cholesky
from pymc_extras.gp.latent_approx import solve_lower, solve_upper


def ProjectedProcess____init__(self, n_inducing=None, *, mean_func=pm.gp.mean.Zero(), cov_func=pm.gp.cov.Constant(0.0)):
    self.n_inducing = n_inducing
    super().__init__(mean_func=mean_func, cov_func=cov_func)


def ProjectedProcess___build_prior(self, name, X, X_inducing, jitter=JITTER_DEFAULT, **kwargs):
    mu = self.mean_func(X)
    Kuu = self.cov_func(X_inducing)
    L = cholesky(stabilize(Kuu, jitter))
    n_inducing_points = np.shape(X_inducing)[0]
    v = pm.Normal(name + '_u_rotated_', mu=0.0, sigma=1.0, size=n_inducing_points, **kwargs)
    u = pm.Deterministic(name + '_u', L @ v)
    Kfu = self.cov_func(X, X_inducing)
    Kuuiu = solve_upper(pt.transpose(L), solve_lower(L, u))
    return (pm.Deterministic(name, mu + Kfu @ Kuuiu), Kuuiu, L)


def ProjectedProcess__prior(self, name, X, X_inducing=None, jitter=JITTER_DEFAULT, **kwargs):
    if not isinstance(X, np.ndarray):
        raise ValueError()
    if X_inducing is not None:
        pass
    elif self.n_inducing is not None:
        if not isinstance(self.n_inducing, int) or self.n_inducing <= 0:
            raise ValueError()
        if self.n_inducing > len(X):
            raise ValueError()
        X_inducing = pm.gp.util.kmeans_inducing_points(self.n_inducing, X, **kwargs)
    else:
        raise ValueError()
    f, Kuuiu, L = self._build_prior(name, X, X_inducing, jitter, **kwargs)
    self.X, self.X_inducing = (X, X_inducing)
    self.L, self.Kuuiu = (L, Kuuiu)
    self.f = f
    return f


def ProjectedProcess___build_conditional(self, name, Xnew, X_inducing, L, Kuuiu, jitter, **kwargs):
    Ksu = self.cov_func(Xnew, X_inducing)
    mu = self.mean_func(Xnew) + Ksu @ Kuuiu
    tmp = solve_lower(L, pt.transpose(Ksu))
    Qss = pt.transpose(tmp) @ tmp
    Kss = self.cov_func(Xnew)
    Lss = cholesky(stabilize(Kss - Qss, jitter))
    return (mu, Lss)


def ProjectedProcess__conditional(self, name, Xnew, jitter=1e-06, **kwargs):
    mu, chol = self._build_conditional(name, Xnew, self.X_inducing, self.L, self.Kuuiu, jitter, **kwargs)
    return pm.MvNormal(name, mu=mu, chol=chol, **kwargs)


def KarhunenLoeveExpansion____init__(self, variance_limit=None, n_eigs=None, *, mean_func=pm.gp.mean.Zero(), cov_func=pm.gp.cov.Constant(0.0)):
    self.variance_limit = variance_limit
    self.n_eigs = n_eigs
    super().__init__(mean_func=mean_func, cov_func=cov_func)


def KarhunenLoeveExpansion___build_prior(self, name, X, jitter=1e-06, **kwargs):
    mu = self.mean_func(X)
    Kxx = pm.gp.util.stabilize(self.cov_func(X), jitter)
    vals, vecs = pt.linalg.eigh(Kxx)
    if self.variance_limit is None:
        n_eigs = self.n_eigs
    elif self.variance_limit == 1:
        n_eigs = vals.shape[0]
    else:
        above = vals[::-1].cumsum() / vals.sum() > self.variance_limit
        n_eigs = above.nonzero()[0][0] + 1
    U = vecs[:, -n_eigs:]
    s = vals[-n_eigs:]
    basis = U * pt.sqrt(s)
    coefs_raw = pm.Normal(f'_gp_{name}_coefs', mu=0, sigma=1, size=n_eigs)
    f = mu + basis @ coefs_raw
    return (f, U, s, n_eigs)


def KarhunenLoeveExpansion__prior(self, name, X, jitter=1e-06, **kwargs):
    f, U, s, n_eigs = self._build_prior(name, X, jitter, **kwargs)
    self.U, self.s, self.n_eigs = (U, s, n_eigs)
    self.X = X
    self.f = f
    return pm.Deterministic(name, f, **kwargs)


def KarhunenLoeveExpansion___build_conditional(self, Xnew, X, f, U, s, jitter):
    Kxs = self.cov_func(X, Xnew)
    Kss = self.cov_func(Xnew)
    Kxxpinv = U @ pt.diag(1.0 / s) @ U.T
    mus = self.mean_func(Xnew) + Kxs.T @ Kxxpinv @ (f - self.mean_func(X))
    K = Kss - Kxs.T @ Kxxpinv @ Kxs
    L = cholesky(stabilize(K, jitter))
    return (mus, L)


def KarhunenLoeveExpansion__conditional(self, name, Xnew, jitter=1e-06, **kwargs):
    X, f = (self.X, self.f)
    U, s = (self.U, self.s)
    mu, L = self._build_conditional(Xnew, X, f, U, s, jitter)
    return pm.MvNormal(name, mu=mu, chol=L, **kwargs)
