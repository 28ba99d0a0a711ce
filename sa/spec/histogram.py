import numpy as np
import pymc as pm
from pymc_extras.distributions.histogram_utils import quantile_histogram, discrete_histogram


def spec_quantile_histogram(data, n_quantiles=1000, zero_inflation=False):
    try:
        import xhistogram.core
    except ImportError as e:
        raise RuntimeError() from e
    try:
        import dask.array
        import dask.dataframe
    except ImportError:
        dask = None
    if dask and isinstance(data, dask.dataframe.Series | dask.dataframe.DataFrame):
        data = data.to_dask_array(lengths=True)
    if zero_inflation:
        zeros = (data == 0).sum(0)
        mdata = np.where(data == 0, np.nan, data)
        qdata = data[data != 0]
    else:
        mdata = data
        qdata = data.flatten()
    quantiles = np.percentile(qdata, np.linspace(0, 100, n_quantiles))
    if dask:
        quantiles, = dask.compute(quantiles)
    count, _ = xhistogram.core.histogram(mdata, bins=[quantiles], axis=0)
    count = count.transpose(count.ndim - 1, *range(count.ndim - 1))
    lower = quantiles[:-1]
    upper = quantiles[1:]
    if zero_inflation:
        count = np.concatenate([zeros[None], count])
        lower = np.concatenate([[0], lower])
        upper = np.concatenate([[0], upper])
    lower = lower.reshape(lower.shape + (1,) * (count.ndim - 1))
    upper = upper.reshape(upper.shape + (1,) * (count.ndim - 1))
    result = dict(lower=lower, upper=upper, mid=(lower + upper) / 2, count=count)
    return result


def spec_discrete_histogram(data, min_count=None):
    try:
        import xhistogram.core
    except ImportError as e:
        raise RuntimeError() from e
    try:
        import dask.array
        import dask.dataframe
    except ImportError:
        dask = None
    if dask and isinstance(data, dask.dataframe.Series | dask.dataframe.DataFrame):
        data = data.to_dask_array(lengths=True)
    mid, count_uniq = np.unique(data, return_counts=True)
    bins = np.concatenate([mid, [mid.max() + 1]])
    if dask:
        mid, count_uniq, bins = dask.compute(mid, count_uniq, bins)
    count, _ = xhistogram.core.histogram(data, bins=[bins], axis=0)
    count = count.transpose(count.ndim - 1, *range(count.ndim - 1))
    if min_count is not None:
        keep = count_uniq >= min_count
        mid = mid[keep]
        count = count[keep]
    mid = mid.reshape(mid.shape + (1,) * (count.ndim - 1))
    return dict(mid=mid, count=count)


def spec_histogram_approximation(name, dist, *, observed, **h_kwargs):
    try:
        import dask.array
        import dask.dataframe
    except ImportError:
        dask = None
    if dask and isinstance(observed, dask.dataframe.Series | dask.dataframe.DataFrame):
        observed = observed.to_dask_array(lengths=True)
    if np.issubdtype(observed.dtype, np.integer):
        histogram = discrete_histogram(observed, **h_kwargs)
    else:
        histogram = quantile_histogram(observed, **h_kwargs)
    if dask is not None:
        histogram, = dask.compute(histogram)
    return pm.Potential(name, pm.logp(dist, histogram['mid']) * histogram['count'])
