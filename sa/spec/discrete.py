import numpy as np
import pymc as pm
from pymc.distributions.dist_math import betaln, check_parameters, factln, logpow
from pymc.distributions.shape_utils import rv_size_is_none
from pytensor import tensor as pt
from pymc_extras.distributions.discrete import log1mexp


def spec_log1mexp(x):
    cond = x < np.log(0.5)
    return np.piecewise(x, [cond, ~cond], [lambda x: np.log1p(-np.exp(x)), lambda x: np.log(-np.expm1(x))])


def GeneralizedPoissonRV__rng_fn(cls, rng, theta, lam, size):
    theta = np.asarray(theta)
    lam = np.asarray(lam)
    if size is not None:
        dist_size = size
    else:
        dist_size = np.broadcast_shapes(theta.shape, lam.shape)
    x = np.empty(dist_size)
    idxs_mask = np.broadcast_to(lam < 0, dist_size)
    if np.any(idxs_mask):
        x[idxs_mask] = cls._inverse_rng_fn(rng, theta, lam, dist_size, idxs_mask=idxs_mask)[idxs_mask]
    idxs_mask = ~idxs_mask
    if np.any(idxs_mask):
        x[idxs_mask] = cls._branching_rng_fn(rng, theta, lam, dist_size, idxs_mask=idxs_mask)[idxs_mask]
    return x


def GeneralizedPoissonRV___inverse_rng_fn(cls, rng, theta, lam, dist_size, idxs_mask):
    with np.errstate(divide='ignore', invalid='ignore'):
        log_u = np.log(rng.uniform(size=dist_size))
        pos_lam = lam > 0
        abs_log_lam = np.log(np.abs(lam))
        theta_m_lam = theta - lam
        log_s = -theta
        log_p = log_s.copy()
        x_ = 0
        x = np.zeros(dist_size)
        below_cutpoint = log_s < log_u
        while np.any(below_cutpoint[idxs_mask]):
            x_ += 1
            x[below_cutpoint] += 1
            log_c = np.log(theta_m_lam + lam * x_)
            log1p_lam_m_C = np.where(pos_lam, np.log1p(np.exp(abs_log_lam - log_c)), log1mexp(abs_log_lam - log_c))
            log_p = log_c + log1p_lam_m_C * (x_ - 1) + log_p - np.log(x_) - lam
            log_s = np.logaddexp(log_s, log_p)
            below_cutpoint = log_s < log_u
        return x


def GeneralizedPoissonRV___branching_rng_fn(cls, rng, theta, lam, dist_size, idxs_mask):
    lam_ = np.abs(lam)
    y = rng.poisson(theta, size=dist_size)
    x = y.copy()
    higher_than_zero = y > 0
    while np.any(higher_than_zero[idxs_mask]):
        y = rng.poisson(lam_ * y)
        x[higher_than_zero] = x[higher_than_zero] + y[higher_than_zero]
        higher_than_zero = y > 0
    return x


def GeneralizedPoisson__dist(cls, mu, lam, **kwargs):
    mu = pt.as_tensor_variable(mu)
    lam = pt.as_tensor_variable(lam)
    return super().dist([mu, lam], **kwargs)


def GeneralizedPoisson__support_point(rv, size, mu, lam):
    mean = pt.floor(mu / (1 - lam))
    if not rv_size_is_none(size):
        mean = pt.full(size, mean)
    return mean


def GeneralizedPoisson__logp(value, mu, lam):
    mu_lam_value = mu + lam * value
    logprob = np.log(mu) + logpow(mu_lam_value, value - 1) - mu_lam_value - factln(value)
    logprob = pt.switch(pt.or_(mu_lam_value < 0, value < 0), -np.inf, logprob)
    return check_parameters(logprob, 0 < mu, pt.abs(lam) <= 1, -mu / 4 <= lam, msg='0 < mu, max(-1, -mu/4)) <= lam <= 1')


def BetaNegativeBinomial__beta_negative_binomial_dist(alpha, beta, r, size):
    if rv_size_is_none(size):
        alpha, beta, r = pt.broadcast_arrays(alpha, beta, r)
    p = pm.Beta.dist(alpha, beta, size=size)
    return pm.NegativeBinomial.dist(p=p, n=r, size=size)


def BetaNegativeBinomial__beta_negative_binomial_logp(value, alpha, beta, r):
    res = betaln(r + value, alpha + beta) - betaln(r, alpha) + pt.gammaln(value + beta) - factln(value) - pt.gammaln(beta)
    res = pt.switch(pt.lt(value, 0), -np.inf, res)
    return check_parameters(res, alpha > 0, beta > 0, r > 0, msg='alpha > 0, beta > 0, r > 0')


def BetaNegativeBinomial____new__(cls, name, alpha, beta, r, **kwargs):
    return pm.CustomDist(name, alpha, beta, r, dist=cls.beta_negative_binomial_dist, logp=cls.beta_negative_binomial_logp, class_name='BetaNegativeBinomial', **kwargs)


def BetaNegativeBinomial__dist(cls, alpha, beta, r, **kwargs):
    return pm.CustomDist.dist(alpha, beta, r, dist=cls.beta_negative_binomial_dist, logp=cls.beta_negative_binomial_logp, class_name='BetaNegativeBinomial', **kwargs)


def Skellam__skellam_dist(mu1, mu2, size):
    if rv_size_is_none(size):
        mu1, mu2 = pt.broadcast_arrays(mu1, mu2)
    return pm.Poisson.dist(mu=mu1, size=size) - pm.Poisson.dist(mu=mu2, size=size)


def Skellam__skellam_logp(value, mu1, mu2):
    res = -mu1 - mu2 + 0.5 * value * (pt.log(mu1) - pt.log(mu2)) + pt.log(pt.iv(value, 2 * pt.sqrt(mu1 * mu2)))
    return check_parameters(res, mu1 >= 0, mu2 >= 0, msg='mu1 >= 0, mu2 >= 0')


def Skellam____new__(cls, name, mu1, mu2, **kwargs):
    return pm.CustomDist(name, mu1, mu2, dist=cls.skellam_dist, logp=cls.skellam_logp, class_name='Skellam', **kwargs)


def Skellam__dist(cls, mu1, mu2, **kwargs):
    return pm.CustomDist.dist(mu1, mu2, dist=cls.skellam_dist, logp=cls.skellam_logp, class_name='Skellam', **kwargs)
