import numpy as np
import pytensor.tensor as pt
from pymc import ChiSquared, CustomDist
from pymc.distributions import transforms
from pymc.distributions.dist_math import check_parameters
from pymc.distributions.shape_utils import rv_size_is_none
from pymc.logprob.utils import CheckParameterValue
from pymc.pytensorf import floatX
from scipy import stats
from pymc_extras.distributions.continuous import Chi


def GenExtremeRV____call__(self, mu=0.0, sigma=1.0, xi=0.0, size=None, **kwargs):
    return super().__call__(mu, sigma, xi, size=size, **kwargs)


def GenExtremeRV__rng_fn(cls, rng, mu, sigma, xi, size):
    return stats.genextreme.rvs(c=-xi, loc=mu, scale=sigma, random_state=rng, size=size)


def GenExtreme__dist(cls, mu=0, sigma=1, xi=0, scipy=False, **kwargs):
    if scipy:
        xi = -xi
    mu = pt.as_tensor_variable(floatX(mu))
    sigma = pt.as_tensor_variable(floatX(sigma))
    xi = pt.as_tensor_variable(floatX(xi))
    return super().dist([mu, sigma, xi], **kwargs)


def GenExtreme__logp(value, mu, sigma, xi):
    scaled = (value - mu) / sigma
    logp_expression = pt.switch(pt.isclose(xi, 0), -pt.log(sigma) - scaled - pt.exp(-scaled), -pt.log(sigma) - (xi + 1) / xi * pt.log1p(xi * scaled) - pt.pow(1 + xi * scaled, -1 / xi))
    logp = pt.switch(pt.gt(1 + xi * scaled, 0.0), logp_expression, -np.inf)
    return check_parameters(logp, sigma > 0, pt.and_(xi > -1, xi < 1), msg='sigma > 0 or -1 < xi < 1')


def GenExtreme__logcdf(value, mu, sigma, xi):
    scaled = (value - mu) / sigma
    logc_expression = pt.switch(pt.isclose(xi, 0), -pt.exp(-scaled), -pt.pow(1 + xi * scaled, -1 / xi))
    logc = pt.switch(1 + xi * (value - mu) / sigma > 0, logc_expression, -np.inf)
    return check_parameters(logc, sigma > 0, pt.and_(xi > -1, xi < 1), msg='sigma > 0 or -1 < xi < 1')


def GenExtreme__support_point(rv, size, mu, sigma, xi):
    mode = pt.switch(pt.isclose(xi, 0), mu, mu + sigma * (pt.pow(1 + xi, -xi) - 1) / xi)
    if not rv_size_is_none(size):
        mode = pt.full(size, mode)
    return mode


def Chi__chi_dist(nu, size):
    return pt.math.sqrt(ChiSquared.dist(nu=nu, size=size))


def Chi____new__(cls, name, nu, **kwargs):
    if 'observed' not in kwargs:
        kwargs.setdefault('default_transform', transforms.log)
    return CustomDist(name, nu, dist=cls.chi_dist, class_name='Chi', **kwargs)


def Chi__dist(cls, nu, **kwargs):
    return CustomDist.dist(nu, dist=cls.chi_dist, class_name='Chi', **kwargs)


def Maxwell__maxwell_dist(a, size):
    if rv_size_is_none(size):
        size = a.shape
    a = CheckParameterValue('a > 0')(a, pt.all(pt.gt(a, 0)))
    return Chi.dist(nu=3, size=size) * a


def Maxwell____new__(cls, name, a, **kwargs):
    return CustomDist(name, a, dist=cls.maxwell_dist, class_name='Maxwell', **kwargs)


def Maxwell__dist(cls, a, **kwargs):
    return CustomDist.dist(a, dist=cls.maxwell_dist, class_name='Maxwell', **kwargs)


def logcdf_full(value, mu, sigma, xi):
    """Above a finite upper end (xi < 0) the distribution function is 1."""
    scaled = (value - mu) / sigma
    inside = pt.switch(pt.isclose(xi, 0), -pt.exp(-scaled), -pt.pow(1 + xi * scaled, -1 / xi))
    outside = pt.switch(xi < 0, 0.0, -np.inf)
    return check_parameters(pt.switch(1 + xi * scaled > 0, inside, outside), sigma > 0, pt.and_(xi > -1, xi < 1))
