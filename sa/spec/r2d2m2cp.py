import numpy as np
import pymc as pm
import pytensor.tensor as pt
from pymc_extras.distributions.multivariate.r2d2m2cp import _psivar2musigma, _R2D2M2CP_beta, _broadcast_as_dims, _psi_masked, _psi, _phi, R2D2M2CPOut


def spec__psivar2musigma(psi, explained_var, psi_mask):
    sign = pt.sign(psi - 0.5)
    if psi_mask is not None:
        psi = pt.where(psi_mask, psi, 0.5)
    pi = pt.erfinv(2 * psi - 1)
    f = (1 / (2 * pi ** 2 + 1)) ** 0.5
    sigma = explained_var ** 0.5 * f
    mu = sigma * pi * 2 ** 0.5
    if psi_mask is not None:
        return (pt.where(psi_mask, mu, sign * explained_var ** 0.5), pt.where(psi_mask, sigma, 0))
    else:
        return (mu, sigma)


def spec__R2D2M2CP_beta(name, output_sigma, input_sigma, r2, phi, psi, *, psi_mask, dims, centered=False):
    explained_variance = phi * pt.expand_dims(r2 * output_sigma ** 2, (-1,))
    mu_param, std_param = _psivar2musigma(psi, explained_variance, psi_mask=psi_mask)
    if not centered:
        with pm.Model(name):
            if psi_mask is not None and psi_mask.any():
                r_idx = psi_mask.nonzero()
                with pm.Model('raw'):
                    raw = pm.Normal('masked', shape=len(r_idx[0]))
                    raw = pt.set_subtensor(pt.zeros_like(mu_param)[r_idx], raw)
                raw = pm.Deterministic('raw', raw, dims=dims)
            elif psi_mask is not None:
                raw = pt.zeros_like(mu_param)
            else:
                raw = pm.Normal('raw', dims=dims)
        beta = pm.Deterministic(name, (raw * std_param + mu_param) / input_sigma, dims=dims)
    elif psi_mask is not None and psi_mask.any():
        r_idx = psi_mask.nonzero()
        with pm.Model(name):
            mean = (mu_param / input_sigma)[r_idx]
            sigma = (std_param / input_sigma)[r_idx]
            masked = pm.Normal('masked', mean, sigma, shape=len(r_idx[0]))
            beta = pt.set_subtensor(mean, masked)
        beta = pm.Deterministic(name, beta, dims=dims)
    elif psi_mask is not None:
        beta = pm.Deterministic(name, mu_param / input_sigma, dims=dims)
    else:
        beta = pm.Normal(name, mu_param / input_sigma, std_param / input_sigma, dims=dims)
    return beta


def spec__broadcast_as_dims(*values, dims):
    model = pm.modelcontext(None)
    shape = [len(model.coords[d]) for d in dims]
    ret = tuple((np.broadcast_to(v, shape) for v in values))
    if len(values) == 1:
        ret = ret[0]
    return ret


def spec__psi_masked(positive_probs, positive_probs_std, *, dims):
    if not (isinstance(positive_probs, pt.Constant) and isinstance(positive_probs_std, pt.Constant)):
        raise TypeError()
    positive_probs, positive_probs_std = _broadcast_as_dims(positive_probs.data, positive_probs_std.data, dims=dims)
    mask = ~np.bitwise_or(positive_probs == 1, positive_probs == 0)
    if np.bitwise_and(~mask, positive_probs_std != 0).any():
        raise ValueError()
    if (~mask).any() and mask.any():
        r_idx = mask.nonzero()
        with pm.Model('psi'):
            psi = pm.Beta('masked', mu=positive_probs[r_idx], sigma=positive_probs_std[r_idx], shape=len(r_idx[0]))
        psi = pt.set_subtensor(pt.as_tensor(positive_probs)[r_idx], psi)
        psi = pm.Deterministic('psi', psi, dims=dims)
    elif (~mask).all():
        psi = pt.as_tensor(positive_probs)
    else:
        psi = pm.Beta('psi', mu=positive_probs, sigma=positive_probs_std, dims=dims)
        mask = None
    return (mask, psi)


def spec__psi(positive_probs, positive_probs_std, *, dims):
    if positive_probs_std is not None:
        mask, psi = _psi_masked(positive_probs=pt.as_tensor(positive_probs), positive_probs_std=pt.as_tensor(positive_probs_std), dims=dims)
    else:
        positive_probs = pt.as_tensor(positive_probs)
        if not isinstance(positive_probs, pt.Constant):
            raise TypeError()
        psi = _broadcast_as_dims(positive_probs.data, dims=dims)
        mask = np.atleast_1d(~np.bitwise_or(psi == 1, psi == 0))
        if mask.all():
            mask = None
    return (mask, psi)


def spec__phi(variables_importance, variance_explained, importance_concentration, *, dims):
    *broadcast_dims, dim = dims
    model = pm.modelcontext(None)
    if variables_importance is not None:
        if variance_explained is not None:
            raise TypeError()
        if len(model.coords[dim]) <= 1:
            raise TypeError()
        variables_importance = pt.as_tensor(variables_importance)
        if importance_concentration is not None:
            variables_importance *= importance_concentration
        return pm.Dirichlet('phi', variables_importance, dims=[*broadcast_dims, dim])
    elif variance_explained is not None:
        if len(model.coords[dim]) <= 1:
            raise TypeError()
        phi = pt.as_tensor(variance_explained)
    else:
        phi = _broadcast_as_dims(1.0, dims=dims)
    if importance_concentration is not None:
        return pm.Dirichlet('phi', importance_concentration * phi, dims=[*broadcast_dims, dim])
    else:
        return phi


def spec_R2D2M2CP(name, output_sigma, input_sigma, *, dims, r2, variables_importance=None, variance_explained=None, importance_concentration=None, r2_std=None, positive_probs=0.5, positive_probs_std=None, centered=False):
    if not isinstance(dims, list | tuple):
        dims = (dims,)
    *broadcast_dims, dim = dims
    input_sigma = pt.as_tensor(input_sigma)
    output_sigma = pt.as_tensor(output_sigma)
    with pm.Model(name):
        if r2_std is not None:
            r2 = pm.Beta('r2', mu=r2, sigma=r2_std, dims=broadcast_dims)
        phi = _phi(variables_importance=variables_importance, variance_explained=variance_explained, importance_concentration=importance_concentration, dims=dims)
        mask, psi = _psi(positive_probs=positive_probs, positive_probs_std=positive_probs_std, dims=dims)
    beta = _R2D2M2CP_beta(name, output_sigma, input_sigma, r2, phi, psi, dims=[*broadcast_dims, dim], centered=centered, psi_mask=mask)
    resid_sigma = (1 - r2) ** 0.5 * output_sigma
    return R2D2M2CPOut(resid_sigma, beta)
