from collections.abc import Sequence
import numpy as np
import pandas as pd
import pymc as pm
import pytensor
import pytensor.tensor as pt
from pymc.model import modelcontext
from pymc.model.transform.optimization import freeze_dims_and_data
from pytensor import graph_replace
from pytensor.compile import get_mode
from pymc_extras.statespace.core.representation import PytensorRepresentation
from pymc_extras.statespace.filters import KalmanSmoother, SquareRootFilter
from pymc_extras.statespace.filters.distributions import LinearGaussianStateSpace, MvNormalSVD, SequenceMvNormal
from pymc_extras.statespace.filters.utilities import stabilize
from pymc_extras.statespace.utils.constants import ALL_STATE_AUX_DIM, ALL_STATE_DIM, FILTER_OUTPUT_DIMS, FILTER_OUTPUT_TYPES, JITTER_DEFAULT, MATRIX_DIMS, MATRIX_NAMES, OBS_STATE_DIM, SHOCK_DIM, SHORT_NAME_TO_LONG, TIME_DIM, VECTOR_VALUED
from pymc_extras.statespace.utils.data_tools import register_data_with_pymc
from pymc_extras.statespace.core.statespace import _validate_filter_arg, _verify_group, floatX, FILTER_FACTORY
from pymc_extras.statespace.filters.distributions import LinearGaussianStateSpace
from pymc_extras.statespace.utils.constants import SHORT_NAME_TO_LONG


def spec__validate_filter_arg(filter_arg):
    if filter_arg.lower() not in FILTER_OUTPUT_TYPES:
        raise ValueError()


def spec__verify_group(group):
    if group not in ['prior', 'posterior']:
        raise ValueError()


def PyMCStateSpace____init__(self, k_endog, k_states, k_posdef, filter_type='standard', verbose=True, measurement_error=False):
    self._fit_mode: str | None = None
    self._fit_coords: dict[str, Sequence[str]] | None = None
    self._fit_dims: dict[str, Sequence[str]] | None = None
    self._fit_data: pt.TensorVariable | None = None
    self._fit_missing_fill_value: float | None = None
    self._fit_cov_jitter: float | None = None
    self._needs_exog_data = None
    self._exog_names = []
    self._exog_data_info = {}
    self._name_to_variable = {}
    self._name_to_data = {}
    self.k_endog = k_endog
    self.k_states = k_states
    self.k_posdef = k_posdef
    self.measurement_error = measurement_error
    self.ssm = PytensorRepresentation(k_endog, k_states, k_posdef)
    self.subbed_ssm: list[pt.TensorVariable] | None = None
    if filter_type.lower() not in FILTER_FACTORY.keys():
        raise NotImplementedError()
    if filter_type == 'single' and self.k_endog > 1:
        raise ValueError()
    self.kalman_filter = FILTER_FACTORY[filter_type.lower()]()
    self.kalman_smoother = KalmanSmoother()
    self.make_symbolic_graph()
    if verbose:
        try:
            self._print_prior_requirements()
        except NotImplementedError:
            pass
        try:
            self._print_data_requirements()
        except NotImplementedError:
            pass


def PyMCStateSpace___unpack_statespace_with_placeholders(self):
    a0 = self.ssm['initial_state']
    P0 = self.ssm['initial_state_cov']
    c = self.ssm['state_intercept']
    d = self.ssm['obs_intercept']
    T = self.ssm['transition']
    Z = self.ssm['design']
    R = self.ssm['selection']
    H = self.ssm['obs_cov']
    Q = self.ssm['state_cov']
    return (a0, P0, c, d, T, Z, R, H, Q)


def PyMCStateSpace__unpack_statespace(self):
    if self.subbed_ssm is None:
        raise ValueError()
    return self.subbed_ssm


def PyMCStateSpace__make_and_register_variable(self, name, shape=None, dtype=floatX):
    if name not in self.param_names:
        raise ValueError()
    if name in self._name_to_variable.keys():
        raise ValueError()
    placeholder = pt.tensor(name, shape=shape, dtype=dtype)
    self._name_to_variable[name] = placeholder
    return placeholder


def PyMCStateSpace__make_and_register_data(self, name, shape, dtype=floatX):
    if name not in self.data_names:
        raise ValueError()
    if name in self._name_to_data.keys():
        raise ValueError()
    placeholder = pt.tensor(name, shape=shape, dtype=dtype)
    self._name_to_data[name] = placeholder
    return placeholder


def PyMCStateSpace___save_exogenous_data_info(self):
    pymc_mod = modelcontext(None)
    for data_name in self.data_names:
        data = pymc_mod[data_name]
        self._exog_data_info[data_name] = {'name': data_name, 'value': data.get_value(), 'dims': pymc_mod.named_vars_to_dims.get(data_name, None)}


def PyMCStateSpace___insert_random_variables(self):
    pymc_model = modelcontext(None)
    found_params = []
    with pymc_model:
        for param_name in self.param_names:
            param = getattr(pymc_model, param_name, None)
            if param:
                found_params.append(param.name)
    missing_params = list(set(self.param_names) - set(found_params))
    if len(missing_params) > 0:
        raise ValueError()
    excess_params = list(set(found_params) - set(self.param_names))
    if len(excess_params) > 0:
        raise ValueError()
    matrices = list(self._unpack_statespace_with_placeholders())
    replacement_dict = {var: pymc_model[name] for name, var in self._name_to_variable.items()}
    self.subbed_ssm = graph_replace(matrices, replace=replacement_dict, strict=True)


def PyMCStateSpace___insert_data_variables(self):
    try:
        data_names = self.data_names
    except NotImplementedError:
        return
    pymc_model = modelcontext(None)
    found_data = []
    with pymc_model:
        for data_name in data_names:
            data = getattr(pymc_model, data_name, None)
            if data:
                found_data.append(data.name)
    missing_data = list(set(data_names) - set(found_data))
    if len(missing_data) > 0:
        raise ValueError()
    replacement_dict = {data: pymc_model[name] for name, data in self._name_to_data.items()}
    self.subbed_ssm = graph_replace(self.subbed_ssm, replace=replacement_dict, strict=True)


def PyMCStateSpace___register_kalman_filter_outputs_with_pymc_model(outputs):
    mod = modelcontext(None)
    coords = mod.coords
    states, covs = (outputs[:4], outputs[4:])
    state_names = ['filtered_state', 'predicted_state', 'predicted_observed_state', 'smoothed_state']
    cov_names = ['filtered_covariance', 'predicted_covariance', 'predicted_observed_covariance', 'smoothed_covariance']
    with mod:
        for var, name in zip(states + covs, state_names + cov_names):
            dim_names = FILTER_OUTPUT_DIMS.get(name, None)
            dims = tuple([dim if dim in coords.keys() else None for dim in dim_names])
            pm.Deterministic(name, var, dims=dims)


def PyMCStateSpace__build_statespace_graph(self, data, register_data=True, mode=None, missing_fill_value=None, cov_jitter=JITTER_DEFAULT, save_kalman_filter_outputs_in_idata=False):
    pm_mod = modelcontext(None)
    self._insert_random_variables()
    self._save_exogenous_data_info()
    self._insert_data_variables()
    obs_coords = pm_mod.coords.get(OBS_STATE_DIM, None)
    self._fit_data = data
    self._fit_missing_fill_value = missing_fill_value
    self._fit_cov_jitter = cov_jitter
    data, nan_mask = register_data_with_pymc(data, n_obs=self.ssm.k_endog, obs_coords=obs_coords, register_data=register_data, missing_fill_value=missing_fill_value)
    filter_outputs = self.kalman_filter.build_graph(pt.as_tensor_variable(data), *self._filter_matrices(self.unpack_statespace()), mode=mode, missing_fill_value=missing_fill_value, cov_jitter=cov_jitter)
    logp = filter_outputs.pop(-1)
    states, covs = (filter_outputs[:3], filter_outputs[3:])
    filtered_states, predicted_states, observed_states = states
    filtered_covariances, predicted_covariances, observed_covariances = covs
    if save_kalman_filter_outputs_in_idata:
        smooth_states, smooth_covariances = self._build_smoother_graph(filtered_states, filtered_covariances, self.unpack_statespace(), mode=mode, cov_jitter=JITTER_DEFAULT if cov_jitter is None else cov_jitter)
        all_kf_outputs = [*states, smooth_states, *covs, smooth_covariances]
        self._register_kalman_filter_outputs_with_pymc_model(all_kf_outputs)
    obs_dims = FILTER_OUTPUT_DIMS['predicted_observed_state']
    obs_dims = obs_dims if all([dim in pm_mod.coords.keys() for dim in obs_dims]) else None
    SequenceMvNormal('obs', mus=observed_states, covs=observed_covariances, logp=logp, observed=data, dims=obs_dims)
    self._fit_coords = pm_mod.coords.copy()
    self._fit_dims = pm_mod.named_vars_to_dims.copy()
    self._fit_mode = mode


def PyMCStateSpace___filter_matrices(self, matrices):
    x0, P0, *others = matrices
    if isinstance(self.kalman_filter, SquareRootFilter):
        P0 = pt.linalg.cholesky(stabilize(P0), lower=True)
    return [x0, P0, *others]


def PyMCStateSpace___build_smoother_graph(self, filtered_states, filtered_covariances, matrices, mode=None, cov_jitter=JITTER_DEFAULT):
    pymc_model = modelcontext(None)
    with pymc_model:
        *_, c, d, T, Z, R, H, Q = matrices
        smooth_states, smooth_covariances = self.kalman_smoother.build_graph(T, R, Q, filtered_states, filtered_covariances, mode=mode, cov_jitter=cov_jitter, c=c)
        smooth_states.name = 'smooth_states'
        smooth_covariances.name = 'smooth_covariances'
        return (smooth_states, smooth_covariances)


def PyMCStateSpace___build_dummy_graph(self):
    for name in self.param_names:
        pm.Flat(name, shape=self._name_to_variable[name].type.shape, dims=self._fit_dims.get(name, None))


def PyMCStateSpace___kalman_filter_outputs_from_dummy_graph(self, data=None, data_dims=None, scenario=None):
    if scenario is None:
        scenario = dict()
    pm_mod = modelcontext(None)
    self._build_dummy_graph()
    self._insert_random_variables()
    for name in self.data_names:
        if name not in pm_mod:
            pm.Data(**self._exog_data_info[name])
    self._insert_data_variables()
    for name in self.data_names:
        if name in scenario.keys():
            pm.set_data({name: scenario[name]})
    x0, P0, c, d, T, Z, R, H, Q = self.unpack_statespace()
    if data is None:
        data = self._fit_data
    obs_coords = pm_mod.coords.get(OBS_STATE_DIM, None)
    data, nan_mask = register_data_with_pymc(data, n_obs=self.ssm.k_endog, obs_coords=obs_coords, data_dims=data_dims, register_data=True, missing_fill_value=self._fit_missing_fill_value)
    filter_outputs = self.kalman_filter.build_graph(data, *self._filter_matrices([x0, P0, c, d, T, Z, R, H, Q]), mode=self._fit_mode, missing_fill_value=self._fit_missing_fill_value, cov_jitter=self._fit_cov_jitter)
    filter_outputs.pop(-1)
    states, covariances = (filter_outputs[:3], filter_outputs[3:])
    filtered_states, predicted_states, _ = states
    filtered_covariances, predicted_covariances, _ = covariances
    [smoothed_states, smoothed_covariances] = self.kalman_smoother.build_graph(T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode, cov_jitter=JITTER_DEFAULT if self._fit_cov_jitter is None else self._fit_cov_jitter, c=c)
    grouped_outputs = [(filtered_states, filtered_covariances), (predicted_states, predicted_covariances), (smoothed_states, smoothed_covariances)]
    return ([x0, P0, c, d, T, Z, R, H, Q], grouped_outputs)


def PyMCStateSpace___sample_conditional(self, idata, group, random_seed=None, data=None, **kwargs):
    if data is None and self._fit_data is None:
        raise ValueError()
    _verify_group(group)
    group_idata = getattr(idata, group)
    with pm.Model(coords=self._fit_coords) as forward_model:
        [x0, P0, c, d, T, Z, R, H, Q], grouped_outputs = self._kalman_filter_outputs_from_dummy_graph(data=data)
        for name, (mu, cov) in zip(FILTER_OUTPUT_TYPES, grouped_outputs):
            dummy_ll = pt.zeros_like(mu)
            state_dims = (TIME_DIM, ALL_STATE_DIM) if all([dim in self._fit_coords for dim in [TIME_DIM, ALL_STATE_DIM]]) else (None, None)
            obs_dims = (TIME_DIM, OBS_STATE_DIM) if all([dim in self._fit_coords for dim in [TIME_DIM, OBS_STATE_DIM]]) else (None, None)
            SequenceMvNormal(f'{name}_{group}', mus=mu, covs=cov, logp=dummy_ll, dims=state_dims)
            obs_mu = d + (Z @ mu[..., None]).squeeze(-1)
            obs_cov = Z @ cov @ pt.swapaxes(Z, -2, -1) + H
            SequenceMvNormal(f'{name}_{group}_observed', mus=obs_mu, covs=obs_cov, logp=dummy_ll, dims=obs_dims)
    forward_model.rvs_to_initial_values = {rv: None for rv in forward_model.rvs_to_initial_values.keys()}
    frozen_model = freeze_dims_and_data(forward_model)
    with frozen_model:
        idata_conditional = pm.sample_posterior_predictive(group_idata, var_names=[f'{name}_{group}{suffix}' for name in FILTER_OUTPUT_TYPES for suffix in ['', '_observed']], compile_kwargs={'mode': get_mode(self._fit_mode)}, random_seed=random_seed, **kwargs)
    return idata_conditional.posterior_predictive


def PyMCStateSpace___sample_unconditional(self, idata, group, steps=None, use_data_time_dim=False, random_seed=None, **kwargs):
    _verify_group(group)
    group_idata = getattr(idata, group)
    dims = None
    temp_coords = self._fit_coords.copy()
    if not use_data_time_dim and steps is not None:
        temp_coords.update({TIME_DIM: np.arange(1 + steps, dtype='int')})
        steps = len(temp_coords[TIME_DIM]) - 1
    elif steps is not None:
        n_dimsteps = len(temp_coords[TIME_DIM])
        if n_dimsteps != steps:
            raise ValueError()
        steps = n_dimsteps - 1
    else:
        steps = len(temp_coords[TIME_DIM]) - 1
    if all([dim in self._fit_coords for dim in [TIME_DIM, ALL_STATE_DIM, OBS_STATE_DIM]]):
        dims = [TIME_DIM, ALL_STATE_DIM, OBS_STATE_DIM]
    with pm.Model(coords=temp_coords if dims is not None else None) as forward_model:
        self._build_dummy_graph()
        self._insert_random_variables()
        for name in self.data_names:
            pm.Data(**self._exog_data_info[name])
        self._insert_data_variables()
        matrices = [x0, P0, c, d, T, Z, R, H, Q] = self.unpack_statespace()
        if not self.measurement_error:
            H_jittered = pm.Deterministic('H_jittered', pt.specify_shape(stabilize(H), (self.k_endog, self.k_endog)))
            matrices = [x0, P0, c, d, T, Z, R, H_jittered, Q]
        LinearGaussianStateSpace(group, *matrices, steps=steps, dims=dims, mode=self._fit_mode, sequence_names=self.kalman_filter.seq_names, k_endog=self.k_endog)
    forward_model.rvs_to_initial_values = {rv: None for rv in forward_model.rvs_to_initial_values.keys()}
    frozen_model = freeze_dims_and_data(forward_model)
    with frozen_model:
        idata_unconditional = pm.sample_posterior_predictive(group_idata, var_names=[f'{group}_latent', f'{group}_observed'], compile_kwargs={'mode': self._fit_mode}, random_seed=random_seed, **kwargs)
    return idata_unconditional.posterior_predictive


def PyMCStateSpace__sample_conditional_prior(self, idata, random_seed=None, **kwargs):
    return self._sample_conditional(idata, 'prior', random_seed, **kwargs)


def PyMCStateSpace__sample_conditional_posterior(self, idata, random_seed=None, **kwargs):
    return self._sample_conditional(idata, 'posterior', random_seed, **kwargs)


def PyMCStateSpace__sample_unconditional_prior(self, idata, steps=None, use_data_time_dim=False, random_seed=None, **kwargs):
    return self._sample_unconditional(idata, 'prior', steps, use_data_time_dim, random_seed, **kwargs)


def PyMCStateSpace__sample_unconditional_posterior(self, idata, steps=None, use_data_time_dim=False, random_seed=None, **kwargs):
    return self._sample_unconditional(idata, 'posterior', steps, use_data_time_dim, random_seed, **kwargs)


def PyMCStateSpace__sample_statespace_matrices(self, idata, matrix_names, group='posterior'):
    _verify_group(group)
    if matrix_names is None:
        matrix_names = MATRIX_NAMES
    elif isinstance(matrix_names, str):
        matrix_names = [matrix_names]
    with pm.Model(coords=self._fit_coords) as forward_model:
        self._build_dummy_graph()
        self._insert_random_variables()
        for name in self.data_names:
            pm.Data(**self._exog_data_info[name])
        self._insert_data_variables()
        matrices = self.unpack_statespace()
        sampled_names = {}
        for short_name, matrix in zip(MATRIX_NAMES, matrices):
            long_name = SHORT_NAME_TO_LONG[short_name]
            if long_name in matrix_names or short_name in matrix_names:
                name = long_name if long_name in matrix_names else short_name
                dims = [x if x in self._fit_coords else None for x in MATRIX_DIMS[short_name]]
                if matrix.ndim > len(dims):
                    dims = [TIME_DIM if TIME_DIM in self._fit_coords else None, *dims]
                sampled_name = f'{name}_matrix' if name in forward_model else name
                sampled_names[sampled_name] = name
                pm.Deterministic(sampled_name, matrix, dims=dims)
    forward_model.rvs_to_initial_values = {rv: None for rv in forward_model.rvs_to_initial_values.keys()}
    frozen_model = freeze_dims_and_data(forward_model)
    with frozen_model:
        matrix_idata = pm.sample_posterior_predictive(idata if group == 'posterior' else idata.prior, var_names=list(sampled_names), compile_kwargs={'mode': self._fit_mode}, extend_inferencedata=False)
    return matrix_idata.rename(sampled_names, groups='posterior_predictive')


def PyMCStateSpace___validate_forecast_args(time_index, start, periods=None, end=None, scenario=None, use_scenario_index=False, verbose=True):
    if isinstance(start, pd.Timestamp) and start not in time_index:
        raise ValueError()
    elif isinstance(start, int):
        if abs(start) > len(time_index):
            raise ValueError()
    if periods is None and end is None and (not use_scenario_index):
        raise ValueError()
    if periods is not None and end is not None:
        raise ValueError()
    if scenario is None and use_scenario_index:
        raise ValueError()
    if scenario is not None and use_scenario_index:
        if isinstance(scenario, dict):
            first_df = next((df for df in scenario.values() if isinstance(df, pd.DataFrame | pd.Series)), None)
            if first_df is None:
                raise ValueError()
        elif not isinstance(scenario, pd.DataFrame | pd.Series):
            raise ValueError()
    if use_scenario_index and any((arg is not None for arg in [start, end, periods])) and verbose:
        pass


def PyMCStateSpace___get_fit_time_index(self):
    time_index = self._fit_coords.get(TIME_DIM, None) if self._fit_coords is not None else None
    if time_index is None:
        raise ValueError()
    if isinstance(time_index[0], pd.Timestamp):
        time_index = pd.DatetimeIndex(time_index)
        time_index.freq = time_index.inferred_freq
    else:
        time_index = np.array(time_index)
    return time_index


def PyMCStateSpace___validate_scenario_data(self, scenario, name=None, verbose=True):
    if not self._needs_exog_data:
        return scenario
    var_to_dims = {key: info['dims'][1:] for key, info in self.data_info.items()}
    if any((len(dims) > 1 for dims in var_to_dims.values())):
        raise NotImplementedError()
    coords = {var: self._fit_coords[dim[0]] for var, dim in var_to_dims.items() if dim[0] in self._fit_coords}
    if self._needs_exog_data and scenario is None:
        exog_str = ','.join(self._exog_names)
        suffix = 's' if len(exog_str) > 1 else ''
        raise ValueError()
    if isinstance(scenario, dict):
        scenario = scenario.copy()
        for name, data in scenario.items():
            if name not in self._exog_names:
                raise ValueError()
            scenario[name] = self._validate_scenario_data(data, name, verbose=verbose)
        first_scenario = next(iter(scenario.values()))
        first_df = next((df for df in scenario.values() if isinstance(df, pd.DataFrame)), None)
        if not all((data.shape[0] == first_scenario.shape[0] for data in scenario.values())):
            raise ValueError()
        if first_df is not None and (not all((df.index.equals(first_df.index) for df in scenario.values() if isinstance(df, pd.DataFrame)))):
            raise ValueError()
        return scenario
    elif isinstance(scenario, pd.Series | pd.DataFrame | np.ndarray | list | tuple):
        if isinstance(scenario, list | tuple) or (isinstance(scenario, np.ndarray) and scenario.ndim == 1):
            scenario = np.array(scenario).reshape(-1, 1)
        if name is None:
            if len(self._exog_names) > 1:
                raise ValueError()
            name = self._exog_names[0]
        if not isinstance(scenario, pd.DataFrame | pd.Series) and scenario.shape[1] != len(coords[name]):
            raise ValueError()
        if isinstance(scenario, pd.Series):
            if len(coords[name]) > 1:
                raise ValueError()
        if isinstance(scenario, pd.DataFrame):
            expected_cols = coords[name]
            cols = scenario.columns
            missing_columns = sorted(list(set(expected_cols) - set(cols)))
            if len(missing_columns) > 0:
                suffix = 's' if len(missing_columns) > 1 else ''
                raise ValueError()
            extra_columns = sorted(list(set(cols) - set(expected_cols)))
            if len(extra_columns) > 0:
                suffix = 's' if len(extra_columns) > 1 else ''
                verb = 'is' if len(extra_columns) == 1 else 'are'
                raise ValueError()
            if not all((a == b for a, b in zip(expected_cols, cols))):
                if verbose:
                    pass
                scenario = scenario[list(expected_cols)]
        return scenario


def PyMCStateSpace___build_forecast_index(time_index, start=None, end=None, periods=None, use_scenario_index=False, scenario=None):

    def get_or_create_index(x, time_index, start=None):
        if isinstance(x, pd.DataFrame | pd.Series):
            return x.index
        elif isinstance(x, dict):
            return get_or_create_index(next(iter(x.values())), time_index, start)
        elif isinstance(x, np.ndarray | list | tuple):
            if start is None:
                raise ValueError()
            is_datetime_index = isinstance(time_index, pd.DatetimeIndex)
            n = x.shape[0] if isinstance(x, np.ndarray) else len(x)
            if isinstance(start, int):
                start = time_index[start]
            if is_datetime_index:
                return pd.date_range(start, periods=n, freq=time_index.freq)
            return pd.RangeIndex(start, n + start, step=1, dtype='int')
        else:
            raise ValueError()
    x0_idx = None
    if use_scenario_index:
        forecast_index = get_or_create_index(scenario, time_index, start)
        is_datetime = isinstance(forecast_index, pd.DatetimeIndex)
        delta = forecast_index.freq if is_datetime else 1
        x0_idx = forecast_index[0] - delta
    else:
        is_datetime = isinstance(time_index, pd.DatetimeIndex)
        forecast_index = None
        if is_datetime:
            freq = time_index.freq
            if isinstance(start, int):
                start = time_index[start]
            if isinstance(end, int):
                raise ValueError()
            if end is not None:
                forecast_index = pd.date_range(start, end=end, freq=freq)
            if periods is not None:
                forecast_index = pd.date_range(start, periods=periods + 1, freq=freq)
        else:
            if start < 0:
                start = time_index[start]
            if end is not None:
                forecast_index = pd.RangeIndex(start, end, step=1, dtype='int')
            if periods is not None:
                forecast_index = pd.RangeIndex(start, start + periods + 1, step=1, dtype='int')
    if is_datetime:
        if forecast_index.freq != time_index.freq:
            raise ValueError()
    if x0_idx is None:
        x0_idx, forecast_index = (forecast_index[0], forecast_index[1:])
    if x0_idx in forecast_index:
        raise ValueError()
    if x0_idx not in time_index:
        raise ValueError()
    return (x0_idx, forecast_index)


def PyMCStateSpace___finalize_scenario_initialization(self, scenario, forecast_index, name=None):
    try:
        var_to_dims = {key: info['dims'][1:] for key, info in self.data_info.items()}
    except NotImplementedError:
        return scenario
    if any((len(dims) > 1 for dims in var_to_dims.values())):
        raise NotImplementedError()
    coords = {var: self._fit_coords[dim[0]] for var, dim in var_to_dims.items() if dim[0] in self._fit_coords}
    if scenario is None:
        return scenario
    if isinstance(scenario, dict):
        return {name: self._finalize_scenario_initialization(data, forecast_index, name) for name, data in scenario.items()}
    name = self._exog_names[0] if name is None else name
    if isinstance(scenario, pd.DataFrame | pd.Series):
        if isinstance(scenario, pd.Series):
            scenario = scenario.to_frame(name=coords[name][0])
        if not scenario.index.equals(forecast_index):
            scenario.index = forecast_index
    if isinstance(scenario, np.ndarray):
        scenario = pd.DataFrame(scenario, index=forecast_index, columns=coords[name])
    return scenario


def PyMCStateSpace__forecast(self, idata, start=None, periods=None, end=None, scenario=None, use_scenario_index=False, filter_output='smoothed', random_seed=None, verbose=True, **kwargs):
    filter_time_dim = TIME_DIM
    _validate_filter_arg(filter_output)
    time_index = self._get_fit_time_index()
    if start is None:
        if verbose:
            pass
        start = time_index[-1]
    if self._needs_exog_data and (not isinstance(scenario, dict)):
        if len(self.data_names) > 1:
            raise ValueError()
        [data_name] = self.data_names
        scenario = {data_name: scenario}
    scenario: dict = self._validate_scenario_data(scenario, verbose=verbose)
    self._validate_forecast_args(time_index=time_index, start=start, end=end, periods=periods, scenario=scenario, use_scenario_index=use_scenario_index, verbose=verbose)
    t0, forecast_index = self._build_forecast_index(time_index=time_index, start=start, end=end, periods=periods, scenario=scenario, use_scenario_index=use_scenario_index)
    scenario = self._finalize_scenario_initialization(scenario, forecast_index)
    temp_coords = self._fit_coords.copy()
    dims = None
    if all([dim in temp_coords for dim in [filter_time_dim, ALL_STATE_DIM, OBS_STATE_DIM]]):
        dims = [TIME_DIM, ALL_STATE_DIM, OBS_STATE_DIM]
    t0_idx = np.flatnonzero(time_index == t0)[0]
    temp_coords['data_time'] = time_index
    temp_coords[TIME_DIM] = forecast_index
    mu_dims, cov_dims = (None, None)
    if all([dim in self._fit_coords for dim in [TIME_DIM, ALL_STATE_DIM, ALL_STATE_AUX_DIM]]):
        mu_dims = ['data_time', ALL_STATE_DIM]
        cov_dims = ['data_time', ALL_STATE_DIM, ALL_STATE_AUX_DIM]
    with pm.Model(coords=temp_coords) as forecast_model:
        (_, _, *matrices), grouped_outputs = self._kalman_filter_outputs_from_dummy_graph(data_dims=['data_time', OBS_STATE_DIM])
        group_idx = FILTER_OUTPUT_TYPES.index(filter_output)
        mu, cov = grouped_outputs[group_idx]
        x0 = pm.Deterministic('x0_slice', mu[t0_idx], dims=mu_dims[1:] if mu_dims is not None else None)
        P0 = pm.Deterministic('P0_slice', cov[t0_idx], dims=cov_dims[1:] if cov_dims is not None else None)
        if scenario is not None:
            sub_dict = {forecast_model[data_name]: pt.as_tensor_variable(scenario.get(data_name), name=data_name) for data_name in self.data_names}
            matrices = graph_replace(matrices, replace=sub_dict, strict=True)
            [setattr(matrix, 'name', name) for name, matrix in zip(MATRIX_NAMES[2:], matrices)]
        _ = LinearGaussianStateSpace('forecast', x0, P0, *matrices, steps=len(forecast_index), dims=dims, mode=self._fit_mode, sequence_names=self.kalman_filter.seq_names, k_endog=self.k_endog, append_x0=False)
    forecast_model.rvs_to_initial_values = {k: None for k in forecast_model.rvs_to_initial_values.keys()}
    frozen_model = freeze_dims_and_data(forecast_model)
    with frozen_model:
        idata_forecast = pm.sample_posterior_predictive(idata, var_names=['forecast_latent', 'forecast_observed'], compile_kwargs={'mode': self._fit_mode}, random_seed=random_seed, **kwargs)
    return idata_forecast.posterior_predictive


def PyMCStateSpace__impulse_response_function(self, idata, n_steps=40, use_posterior_cov=True, shock_size=None, shock_cov=None, shock_trajectory=None, orthogonalize_shocks=False, random_seed=None, **kwargs):
    options = [shock_size, shock_cov, shock_trajectory]
    n_options = sum((x is not None for x in options))
    Q = None
    if n_options > 1:
        raise ValueError()
    elif n_options == 1:
        use_posterior_cov = False
    if shock_trajectory is not None:
        n, k = shock_trajectory.shape
        steps = n
        if k != self.k_posdef:
            raise ValueError()
        if steps is not None and steps != n:
            pass
        n_steps = n
        shock_trajectory = pt.as_tensor_variable(shock_trajectory)
    simulation_coords = self._fit_coords.copy()
    simulation_coords[TIME_DIM] = np.arange(n_steps, dtype='int')
    with pm.Model(coords=simulation_coords):
        self._build_dummy_graph()
        self._insert_random_variables()
        P0, _, c, d, T, Z, R, H, post_Q = self.unpack_statespace()
        x0 = pm.Deterministic('x0_new', pt.zeros(self.k_states), dims=[ALL_STATE_DIM])
        if use_posterior_cov:
            Q = post_Q
            if orthogonalize_shocks:
                Q = pt.linalg.cholesky(Q) / pt.diag(Q)
        elif shock_cov is not None:
            Q = pt.as_tensor_variable(shock_cov)
            if orthogonalize_shocks:
                Q = pt.linalg.cholesky(Q) / pt.diag(Q)
        if shock_trajectory is None:
            shock_trajectory = pt.zeros((n_steps, self.k_posdef))
            if Q is not None:
                init_shock = MvNormalSVD('initial_shock', mu=0, cov=Q, dims=[SHOCK_DIM])
            else:
                init_shock = pm.Deterministic('initial_shock', pt.as_tensor_variable(np.atleast_1d(shock_size)), dims=[SHOCK_DIM])
            shock_trajectory = pt.set_subtensor(shock_trajectory[0], init_shock)
        else:
            shock_trajectory = pt.as_tensor_variable(shock_trajectory)

        def irf_step(shock, x, c, T, R):
            next_x = c + T @ x + R @ shock
            return next_x
        irf, updates = pytensor.scan(irf_step, sequences=[shock_trajectory], outputs_info=[x0], non_sequences=[c, T, R], n_steps=n_steps, strict=True, mode=self._fit_mode)
        pm.Deterministic('irf', irf, dims=[TIME_DIM, ALL_STATE_DIM])
        compile_kwargs = dict(kwargs.pop('compile_kwargs', {}))
        if 'mode' not in compile_kwargs.keys():
            compile_kwargs.update({'mode': self._fit_mode})
        else:
            mode = compile_kwargs.get('mode')
            if mode is not None and mode != self._fit_mode:
                raise ValueError()
            compile_kwargs.update({'mode': self._fit_mode})
        irf_idata = pm.sample_posterior_predictive(idata, var_names=['irf'], compile_kwargs=compile_kwargs, random_seed=random_seed, **kwargs)
        return irf_idata.posterior_predictive


def spec_compile_statespace(statespace_model, steps=None, **compile_kwargs):
    if steps is None:
        steps = pt.iscalar('steps')
    x0, _, c, d, T, Z, R, H, Q = statespace_model._unpack_statespace_with_placeholders()
    sequence_names = [x.name for x in [c, d] if x.ndim == 2]
    sequence_names += [x.name for x in [T, Z, R, H, Q] if x.ndim == 3]
    rename_dict = {v: k for k, v in SHORT_NAME_TO_LONG.items()}
    sequence_names = list(map(rename_dict.get, sequence_names))
    P0 = pt.zeros((x0.shape[0], x0.shape[0]))
    outputs = LinearGaussianStateSpace.dist(x0, P0, c, d, T, Z, R, H, Q, steps=steps, sequence_names=sequence_names)
    inputs = list(pytensor.graph.basic.explicit_graph_inputs(outputs))
    _f = pm.compile_pymc(inputs, outputs, on_unused_input='ignore', **compile_kwargs)

    def f(*, draws=1, **params):
        if isinstance(steps, pt.Variable):
            inner_steps = params.setdefault('steps', 100)
        else:
            inner_steps = steps
        output = [np.empty((draws, inner_steps + 1, x.type.shape[-1])) for x in outputs]
        for i in range(draws):
            draw = _f(**params)
            for j, x in enumerate(draw):
                output[j][i] = x
        return [x.squeeze() for x in output]
    return f
