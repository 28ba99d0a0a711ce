import numpy as np
import pandas as pd
import pymc as pm
import pytensor
import pytensor.tensor as pt
from pymc import modelcontext
from pytensor.tensor.sharedvar import TensorSharedVariable
from pymc_extras.statespace.utils.constants import MISSING_FILL, OBS_STATE_DIM, TIME_DIM
from pymc_extras.statespace.utils.data_tools import _validate_data_shape, preprocess_tensor_data, preprocess_numpy_data, preprocess_pandas_data, add_data_to_active_model, mask_missing_values_in_data


def spec_get_data_dims(data):
    if not isinstance(data, pt.TensorVariable | TensorSharedVariable):
        return
    data_name = getattr(data, 'name', None)
    if not data_name:
        return
    pm_mod = modelcontext(None)
    data_dims = pm_mod.named_vars_to_dims.get(data_name, None)
    return data_dims


def spec__validate_data_shape(data_shape, n_obs, obs_coords=None, check_col_names=False, col_names=None):
    if col_names is None:
        col_names = []
    if len(data_shape) != 2:
        raise ValueError()
    if data_shape[-1] != n_obs:
        raise ValueError()
    if check_col_names:
        missing_cols = set(obs_coords) - set(col_names)
        if len(missing_cols) > 0:
            raise ValueError()


def spec_preprocess_tensor_data(data, n_obs, obs_coords=None):
    data_shape = data.shape.eval()
    _validate_data_shape(data_shape, n_obs, obs_coords)
    if obs_coords is not None:
        pass
    index = np.arange(data_shape[0], dtype='int')
    return (data.eval(), index)


def spec_preprocess_numpy_data(data, n_obs, obs_coords=None):
    _validate_data_shape(data.shape, n_obs, obs_coords)
    if obs_coords is not None:
        pass
    index = np.arange(data.shape[0], dtype='int')
    return (data, index)


def spec_preprocess_pandas_data(data, n_obs, obs_coords=None, check_column_names=False):
    if isinstance(data, pd.Series):
        data = data.to_frame(name='data' if data.name is None else data.name)
    col_names = data.columns
    _validate_data_shape(data.shape, n_obs, obs_coords, check_column_names, col_names)
    if isinstance(data.index, pd.RangeIndex):
        if obs_coords is not None:
            pass
        return preprocess_numpy_data(data.values, n_obs, obs_coords)
    elif isinstance(data.index, pd.DatetimeIndex):
        if data.index.freq is None:
            pass
        index = data.index.copy()
        if index.freq is None:
            index.freq = index.inferred_freq
        return (data.values, index)
    else:
        raise IndexError()


def spec_add_data_to_active_model(values, index, data_dims=None):
    pymc_mod = modelcontext(None)
    if data_dims is None:
        data_dims = [TIME_DIM, OBS_STATE_DIM]
    time_dim = data_dims[0]
    if time_dim not in pymc_mod.coords:
        pymc_mod.add_coord(time_dim, index)
    else:
        found_time = pymc_mod.coords[time_dim]
        if found_time is None:
            pymc_mod.coords.update({time_dim: index})
        elif not np.array_equal(found_time, tuple(index)):
            raise ValueError()
    data_shape = None
    if values.shape[-1] == 1:
        data_shape = (None, 1)
    data = pm.Data('data', values, dims=data_dims, shape=data_shape)
    return data


def spec_mask_missing_values_in_data(values, missing_fill_value=None):
    if missing_fill_value is None:
        missing_fill_value = MISSING_FILL
    masked_values = np.ma.masked_invalid(values)
    filled_values = masked_values.filled(missing_fill_value)
    nan_mask = masked_values.mask
    if np.any(nan_mask):
        if np.any(values == missing_fill_value):
            raise ValueError()
        impute_message = 'Provided data contains missing values and will be automatically imputed as hidden states during Kalman filtering.'
    return (filled_values, nan_mask)


def spec_register_data_with_pymc(data, n_obs, obs_coords, register_data=True, missing_fill_value=None, data_dims=None):
    if isinstance(data, pt.TensorVariable | TensorSharedVariable):
        values, index = preprocess_tensor_data(data, n_obs, obs_coords)
    elif isinstance(data, np.ndarray):
        values, index = preprocess_numpy_data(data, n_obs, obs_coords)
    elif isinstance(data, pd.DataFrame | pd.Series):
        values, index = preprocess_pandas_data(data, n_obs, obs_coords)
    else:
        raise ValueError()
    data, nan_mask = mask_missing_values_in_data(values, missing_fill_value)
    if register_data:
        data = add_data_to_active_model(data, index, data_dims)
    else:
        data = pytensor.shared(data, name='data')
    return (data, nan_mask)
