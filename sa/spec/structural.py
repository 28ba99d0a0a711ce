import functools as ft
from itertools import pairwise
import numpy as np
import pytensor.tensor as pt
import xarray as xr
from pymc_extras.statespace.core import PytensorRepresentation
from pymc_extras.statespace.models.utilities import conform_time_varying_and_time_invariant_matrices, make_default_coords
from pymc_extras.statespace.utils.constants import ALL_STATE_AUX_DIM, ALL_STATE_DIM, AR_PARAM_DIM, LONG_MATRIX_NAMES, MATRIX_NAMES, VECTOR_VALUED, POSITION_DERIVATIVE_NAMES, TIME_DIM
from pymc_extras.statespace.models.structural import order_to_mask, _frequency_transition_block, StructuralTimeSeries, Component, floatX


def spec_order_to_mask(order):
    if isinstance(order, int):
        return np.ones(order).astype(bool)
    else:
        return np.array(order).astype(bool)


def spec__frequency_transition_block(s, j):
    lam = 2 * np.pi * j / s
    return pt.stack([[pt.cos(lam), pt.sin(lam)], [-pt.sin(lam), pt.cos(lam)]])


def StructuralTimeSeries____init__(self, ssm, state_names, data_names, shock_names, param_names, exog_names, param_dims, coords, param_info, data_info, component_info, measurement_error, name_to_variable, name_to_data=None, name=None, verbose=True, filter_type='standard'):
    if name is None:
        name = 'data'
    self._name = name
    k_states, k_posdef, k_endog = (ssm.k_states, ssm.k_posdef, ssm.k_endog)
    param_names, param_dims, param_info = self._add_inital_state_cov_to_properties(param_names, param_dims, param_info, k_states)
    self._state_names = state_names.copy()
    self._data_names = data_names.copy()
    self._shock_names = shock_names.copy()
    self._param_names = param_names.copy()
    self._param_dims = param_dims.copy()
    default_coords = make_default_coords(self)
    coords.update(default_coords)
    self._coords = coords
    self._param_info = param_info.copy()
    self._data_info = data_info.copy()
    self.measurement_error = measurement_error
    super().__init__(k_endog, k_states, max(1, k_posdef), filter_type=filter_type, verbose=verbose, measurement_error=measurement_error)
    self.ssm = ssm.copy()
    if k_posdef == 0:
        self.ssm.k_posdef = self.k_posdef
        self.ssm.shapes['state_cov'] = (1, 1, 1)
        self.ssm['state_cov'] = pt.zeros((1, 1, 1))
        self.ssm.shapes['selection'] = (1, self.k_states, 1)
        self.ssm['selection'] = pt.zeros((1, self.k_states, 1))
    self._component_info = component_info.copy()
    self._name_to_variable = name_to_variable.copy()
    self._name_to_data = name_to_data.copy()
    self._exog_names = exog_names.copy()
    self._needs_exog_data = len(exog_names) > 0
    P0 = self.make_and_register_variable('P0', shape=(self.k_states, self.k_states))
    self.ssm['initial_state_cov'] = P0


def StructuralTimeSeries___add_inital_state_cov_to_properties(param_names, param_dims, param_info, k_states):
    param_names = [*param_names, 'P0']
    param_dims = {**param_dims, 'P0': (ALL_STATE_DIM, ALL_STATE_AUX_DIM)}
    param_info = {**param_info, 'P0': {'shape': (k_states, k_states), 'constraints': 'Positive semi-definite', 'dims': param_dims['P0']}}
    return (param_names, param_dims, param_info)


def StructuralTimeSeries__param_names(self):
    return self._param_names


def StructuralTimeSeries__data_names(self):
    return self._data_names


def StructuralTimeSeries__state_names(self):
    return self._state_names


def StructuralTimeSeries__observed_states(self):
    return [self._name]


def StructuralTimeSeries__shock_names(self):
    return self._shock_names


def StructuralTimeSeries__param_dims(self):
    return self._param_dims


def StructuralTimeSeries__coords(self):
    return self._coords


def StructuralTimeSeries__param_info(self):
    return self._param_info


def StructuralTimeSeries__data_info(self):
    return self._data_info


def StructuralTimeSeries__make_symbolic_graph(self):
    pass


def StructuralTimeSeries___state_slices_from_info(self):
    info = self._component_info.copy()
    comp_states = np.cumsum([0] + [info['k_states'] for info in info.values()])
    state_slices = [slice(i, j) for i, j in pairwise(comp_states)]
    return state_slices


def StructuralTimeSeries___hidden_states_from_data(self, data):
    state_slices = self._state_slices_from_info()
    info = self._component_info
    names = info.keys()
    result = []
    for i, (name, s) in enumerate(zip(names, state_slices)):
        obs_idx = info[name]['obs_state_idx']
        if obs_idx is None:
            continue
        X = data[..., s]
        if info[name]['combine_hidden_states']:
            sum_idx = np.flatnonzero(obs_idx)
            result.append(X[..., sum_idx].sum(axis=-1)[..., None])
        else:
            comp_names = self.state_names[s]
            for j, state_name in enumerate(comp_names):
                result.append(X[..., j, None])
    return np.concatenate(result, axis=-1)


def StructuralTimeSeries___get_subcomponent_names(self):
    state_slices = self._state_slices_from_info()
    info = self._component_info
    names = info.keys()
    result = []
    for i, (name, s) in enumerate(zip(names, state_slices)):
        if info[name]['combine_hidden_states']:
            result.append(name)
        else:
            comp_names = self.state_names[s]
            result.extend([f'{name}[{comp_name}]' for comp_name in comp_names])
    return result


def StructuralTimeSeries__extract_components_from_idata(self, idata):

    def _extract_and_transform_variable(idata, new_state_names):
        *_, time_dim, state_dim = idata.dims
        state_func = ft.partial(self._hidden_states_from_data)
        new_idata = xr.apply_ufunc(state_func, idata, input_core_dims=[[time_dim, state_dim]], output_core_dims=[[time_dim, state_dim]], exclude_dims={state_dim})
        new_idata.coords.update({state_dim: new_state_names})
        return new_idata
    var_names = list(idata.data_vars.keys())
    is_latent = [idata[name].shape[-1] == self.k_states for name in var_names]
    new_state_names = self._get_subcomponent_names()
    latent_names = [name for latent, name in zip(is_latent, var_names) if latent]
    dropped_vars = set(var_names) - set(latent_names)
    if len(dropped_vars) > 0:
        pass
    if len(dropped_vars) == len(var_names):
        raise ValueError()
    idata_new = xr.Dataset({name: _extract_and_transform_variable(idata[name], new_state_names) for name in latent_names})
    return idata_new


def Component____init__(self, name, k_endog, k_states, k_posdef, state_names=None, data_names=None, shock_names=None, param_names=None, exog_names=None, representation=None, measurement_error=False, combine_hidden_states=True, component_from_sum=False, obs_state_idxs=None):
    self.name = name
    self.k_endog = k_endog
    self.k_states = k_states
    self.k_posdef = k_posdef
    self.measurement_error = measurement_error
    self.state_names = state_names if state_names is not None else []
    self.data_names = data_names if data_names is not None else []
    self.shock_names = shock_names if shock_names is not None else []
    self.param_names = param_names if param_names is not None else []
    self.exog_names = exog_names if exog_names is not None else []
    self.needs_exog_data = len(self.exog_names) > 0
    self.coords = {}
    self.param_dims = {}
    self.param_info = {}
    self.data_info = {}
    self.param_counts = {}
    if representation is None:
        self.ssm = PytensorRepresentation(k_endog=k_endog, k_states=k_states, k_posdef=k_posdef)
    else:
        self.ssm = representation
    self._name_to_variable = {}
    self._name_to_data = {}
    if not component_from_sum:
        self.populate_component_properties()
        self.make_symbolic_graph()
    self._component_info = {self.name: {'k_states': self.k_states, 'k_enodg': self.k_endog, 'k_posdef': self.k_posdef, 'combine_hidden_states': combine_hidden_states, 'obs_state_idx': obs_state_idxs}}


def Component__make_and_register_variable(self, name, shape, dtype=floatX):
    if name not in self.param_names:
        raise ValueError()
    if name in self._name_to_variable.keys():
        raise ValueError()
    placeholder = pt.tensor(name, shape=shape, dtype=dtype)
    self._name_to_variable[name] = placeholder
    return placeholder


def Component__make_and_register_data(self, name, shape, dtype=floatX):
    if name not in self.data_names:
        raise ValueError()
    if name in self._name_to_data.keys():
        raise ValueError()
    placeholder = pt.tensor(name, shape=shape, dtype=dtype)
    self._name_to_data[name] = placeholder
    return placeholder


def Component___get_combined_shapes(self, other):
    k_states = self.k_states + other.k_states
    k_posdef = self.k_posdef + other.k_posdef
    if self.k_endog != other.k_endog:
        raise NotImplementedError()
    k_endog = self.k_endog
    return (k_states, k_posdef, k_endog)


def Component___combine_statespace_representations(self, other):

    def make_slice(name, x, o_x):
        ndim = max(x.ndim, o_x.ndim)
        return (name,) + (slice(None, None, None),) * ndim
    k_states, k_posdef, k_endog = self._get_combined_shapes(other)
    self_matrices = [self.ssm[name] for name in LONG_MATRIX_NAMES]
    other_matrices = [other.ssm[name] for name in LONG_MATRIX_NAMES]
    x0, P0, c, d, T, Z, R, H, Q = (self.ssm[make_slice(name, x, o_x)] for name, x, o_x in zip(LONG_MATRIX_NAMES, self_matrices, other_matrices))
    o_x0, o_P0, o_c, o_d, o_T, o_Z, o_R, o_H, o_Q = (other.ssm[make_slice(name, x, o_x)] for name, x, o_x in zip(LONG_MATRIX_NAMES, self_matrices, other_matrices))
    initial_state = pt.concatenate(conform_time_varying_and_time_invariant_matrices(x0, o_x0))
    initial_state.name = x0.name
    initial_state_cov = pt.linalg.block_diag(P0, o_P0)
    initial_state_cov.name = P0.name
    state_intercept = pt.concatenate(conform_time_varying_and_time_invariant_matrices(c, o_c))
    state_intercept.name = c.name
    obs_intercept = d + o_d
    obs_intercept.name = d.name
    transition = pt.linalg.block_diag(T, o_T)
    transition.name = T.name
    design = pt.concatenate(conform_time_varying_and_time_invariant_matrices(Z, o_Z), axis=-1)
    design.name = Z.name
    selection = pt.linalg.block_diag(R, o_R)
    selection.name = R.name
    obs_cov = H + o_H
    obs_cov.name = H.name
    state_cov = pt.linalg.block_diag(Q, o_Q)
    state_cov.name = Q.name
    new_ssm = PytensorRepresentation(k_endog=k_endog, k_states=k_states, k_posdef=k_posdef, initial_state=initial_state, initial_state_cov=initial_state_cov, state_intercept=state_intercept, obs_intercept=obs_intercept, transition=transition, design=design, selection=selection, obs_cov=obs_cov, state_cov=state_cov)
    return new_ssm


def Component___combine_property(self, other, name):
    self_prop = getattr(self, name)
    if isinstance(self_prop, list):
        return self_prop + getattr(other, name)
    elif isinstance(self_prop, dict):
        new_prop = self_prop.copy()
        new_prop.update(getattr(other, name))
        return new_prop


def Component___combine_component_info(self, other):
    combined_info = {}
    for key, value in self._component_info.items():
        if not key.startswith('StateSpace'):
            if key in combined_info.keys():
                raise ValueError()
            combined_info[key] = value
    for key, value in other._component_info.items():
        if not key.startswith('StateSpace'):
            if key in combined_info.keys():
                raise ValueError()
            combined_info[key] = value
    return combined_info


def Component___make_combined_name(self):
    components = self._component_info.keys()
    name = f'StateSpace[{', '.join(components)}]'
    return name


def Component____add__(self, other):
    state_names = self._combine_property(other, 'state_names')
    data_names = self._combine_property(other, 'data_names')
    param_names = self._combine_property(other, 'param_names')
    shock_names = self._combine_property(other, 'shock_names')
    param_info = self._combine_property(other, 'param_info')
    data_info = self._combine_property(other, 'data_info')
    param_dims = self._combine_property(other, 'param_dims')
    coords = self._combine_property(other, 'coords')
    exog_names = self._combine_property(other, 'exog_names')
    _name_to_variable = self._combine_property(other, '_name_to_variable')
    _name_to_data = self._combine_property(other, '_name_to_data')
    measurement_error = any([self.measurement_error, other.measurement_error])
    k_states, k_posdef, k_endog = self._get_combined_shapes(other)
    ssm = self._combine_statespace_representations(other)
    new_comp = Component(name='', k_endog=1, k_states=k_states, k_posdef=k_posdef, measurement_error=measurement_error, representation=ssm, component_from_sum=True)
    new_comp._component_info = self._combine_component_info(other)
    new_comp.name = new_comp._make_combined_name()
    names_and_props = [('state_names', state_names), ('data_names', data_names), ('param_names', param_names), ('shock_names', shock_names), ('param_dims', param_dims), ('coords', coords), ('param_dims', param_dims), ('param_info', param_info), ('data_info', data_info), ('exog_names', exog_names), ('_name_to_variable', _name_to_variable), ('_name_to_data', _name_to_data)]
    for prop, value in names_and_props:
        setattr(new_comp, prop, value)
    return new_comp


def Component__build(self, name=None, filter_type='standard', verbose=True):
    return StructuralTimeSeries(self.ssm, name=name, state_names=self.state_names, data_names=self.data_names, shock_names=self.shock_names, param_names=self.param_names, param_dims=self.param_dims, coords=self.coords, param_info=self.param_info, data_info=self.data_info, component_info=self._component_info, measurement_error=self.measurement_error, exog_names=self.exog_names, name_to_variable=self._name_to_variable, name_to_data=self._name_to_data, filter_type=filter_type, verbose=verbose)


def LevelTrendComponent____init__(self, order=2, innovations_order=None, name='LevelTrend'):
    if innovations_order is None:
        innovations_order = order
    self._order_mask = order_to_mask(order)
    max_state = np.flatnonzero(self._order_mask)[-1].item() + 1
    if len(self._order_mask) > max_state:
        raise ValueError()
    k_states = max_state
    if isinstance(innovations_order, int):
        n = innovations_order
        innovations_order = order_to_mask(k_states)
        if n > 0:
            innovations_order[n:] = False
        else:
            innovations_order[:] = False
    else:
        innovations_order = order_to_mask(innovations_order)
    self.innovations_order = innovations_order[:max_state]
    k_posdef = int(sum(innovations_order))
    super().__init__(name, k_endog=1, k_states=k_states, k_posdef=k_posdef, measurement_error=False, combine_hidden_states=False, obs_state_idxs=np.array([1.0] + [0.0] * (k_states - 1)))


def LevelTrendComponent__populate_component_properties(self):
    name_slice = POSITION_DERIVATIVE_NAMES[:self.k_states]
    self.param_names = ['initial_trend']
    self.state_names = list(name_slice)
    self.param_dims = {'initial_trend': ('trend_state',)}
    self.coords = {'trend_state': self.state_names}
    self.param_info = {'initial_trend': {'shape': (self.k_states,), 'constraints': None}}
    if self.k_posdef > 0:
        self.param_names += ['sigma_trend']
        self.shock_names = [name for name, mask in zip(name_slice, self.innovations_order) if mask]
        self.param_dims['sigma_trend'] = ('trend_shock',)
        self.coords['trend_shock'] = self.shock_names
        self.param_info['sigma_trend'] = {'shape': (self.k_posdef,), 'constraints': 'Positive'}
    for name in self.param_names:
        self.param_info[name]['dims'] = self.param_dims[name]


def LevelTrendComponent__make_symbolic_graph(self):
    initial_trend = self.make_and_register_variable('initial_trend', shape=(self.k_states,))
    self.ssm['initial_state', :] = initial_trend
    triu_idx = np.triu_indices(self.k_states)
    self.ssm[np.s_['transition', triu_idx[0], triu_idx[1]]] = 1
    R = np.eye(self.k_states)
    R = R[:, self.innovations_order]
    self.ssm['selection', :, :] = R
    self.ssm['design', 0, :] = np.array([1.0] + [0.0] * (self.k_states - 1))
    if self.k_posdef > 0:
        sigma_trend = self.make_and_register_variable('sigma_trend', shape=(self.k_posdef,))
        diag_idx = np.diag_indices(self.k_posdef)
        idx = np.s_['state_cov', diag_idx[0], diag_idx[1]]
        self.ssm[idx] = sigma_trend ** 2


def MeasurementError____init__(self, name='MeasurementError'):
    k_endog = 1
    k_states = 0
    k_posdef = 0
    super().__init__(name, k_endog, k_states, k_posdef, measurement_error=True, combine_hidden_states=False)


def MeasurementError__populate_component_properties(self):
    self.param_names = [f'sigma_{self.name}']
    self.param_dims = {}
    self.param_info = {f'sigma_{self.name}': {'shape': (), 'constraints': 'Positive', 'dims': None}}


def MeasurementError__make_symbolic_graph(self):
    sigma_shape = ()
    error_sigma = self.make_and_register_variable(f'sigma_{self.name}', shape=sigma_shape)
    diag_idx = np.diag_indices(self.k_endog)
    idx = np.s_['obs_cov', diag_idx[0], diag_idx[1]]
    self.ssm[idx] = error_sigma ** 2


def AutoregressiveComponent____init__(self, order=1, name='AutoRegressive'):
    order = order_to_mask(order)
    ar_lags = np.flatnonzero(order).ravel().astype(int) + 1
    k_states = len(order)
    self.order = order
    self.ar_lags = ar_lags
    super().__init__(name=name, k_endog=1, k_states=k_states, k_posdef=1, measurement_error=True, combine_hidden_states=True, obs_state_idxs=np.r_[[1.0], np.zeros(k_states - 1)])


def AutoregressiveComponent__populate_component_properties(self):
    self.state_names = [f'L{i + 1}.data' for i in range(self.k_states)]
    self.shock_names = [f'{self.name}_innovation']
    self.param_names = ['ar_params', 'sigma_ar']
    self.param_dims = {'ar_params': (AR_PARAM_DIM,)}
    self.coords = {AR_PARAM_DIM: self.ar_lags.tolist()}
    self.param_info = {'ar_params': {'shape': (int(sum(self.order)),), 'constraints': None, 'dims': (AR_PARAM_DIM,)}, 'sigma_ar': {'shape': (), 'constraints': 'Positive', 'dims': None}}


def AutoregressiveComponent__make_symbolic_graph(self):
    k_nonzero = int(sum(self.order))
    ar_params = self.make_and_register_variable('ar_params', shape=(k_nonzero,))
    sigma_ar = self.make_and_register_variable('sigma_ar', shape=())
    T = np.eye(self.k_states, k=-1)
    self.ssm['transition', :, :] = T
    self.ssm['selection', 0, 0] = 1
    self.ssm['design', 0, 0] = 1
    ar_idx = ('transition', np.zeros(k_nonzero, dtype='int'), np.nonzero(self.order)[0])
    self.ssm[ar_idx] = ar_params
    cov_idx = ('state_cov', *np.diag_indices(1))
    self.ssm[cov_idx] = sigma_ar ** 2


def TimeSeasonality____init__(self, season_length, innovations=True, name=None, state_names=None, pop_state=True):
    if name is None:
        name = f'Seasonal[s={season_length}]'
    if state_names is None:
        state_names = [f'{name}_{i}' for i in range(season_length)]
    else:
        if len(state_names) != season_length:
            raise ValueError()
        state_names = state_names.copy()
    self.innovations = innovations
    self.pop_state = pop_state
    if self.pop_state:
        state_names.pop(0)
        k_states = season_length - 1
    else:
        k_states = season_length
    super().__init__(name=name, k_endog=1, k_states=k_states, k_posdef=int(innovations), state_names=state_names, measurement_error=False, combine_hidden_states=True, obs_state_idxs=np.r_[[1.0], np.zeros(k_states - 1)])


def TimeSeasonality__populate_component_properties(self):
    self.param_names = [f'{self.name}_coefs']
    self.param_info = {f'{self.name}_coefs': {'shape': (self.k_states,), 'constraints': None, 'dims': (f'{self.name}_state',)}}
    self.param_dims = {f'{self.name}_coefs': (f'{self.name}_state',)}
    self.coords = {f'{self.name}_state': self.state_names}
    if self.innovations:
        self.param_names += [f'sigma_{self.name}']
        self.param_info[f'sigma_{self.name}'] = {'shape': (), 'constraints': 'Positive', 'dims': None}
        self.shock_names = [f'{self.name}']


def TimeSeasonality__make_symbolic_graph(self):
    if self.pop_state:
        T = np.eye(self.k_states, k=-1)
        T[0, :] = -1
    else:
        T = np.eye(self.k_states, k=1)
        T[-1, 0] = 1
    self.ssm['transition', :, :] = T
    self.ssm['design', 0, 0] = 1
    initial_states = self.make_and_register_variable(f'{self.name}_coefs', shape=(self.k_states,))
    self.ssm['initial_state', np.arange(self.k_states, dtype=int)] = initial_states
    if self.innovations:
        self.ssm['selection', 0, 0] = 1
        season_sigma = self.make_and_register_variable(f'sigma_{self.name}', shape=())
        cov_idx = ('state_cov', *np.diag_indices(1))
        self.ssm[cov_idx] = season_sigma ** 2


def FrequencySeasonality____init__(self, season_length, n=None, name=None, innovations=True):
    if n is None:
        n = int(season_length // 2)
    if name is None:
        name = f'Frequency[s={season_length}, n={n}]'
    k_states = n * 2
    self.n = n
    self.season_length = season_length
    self.innovations = innovations
    self.last_state_not_identified = self.season_length / self.n == 2.0
    self.n_coefs = k_states - int(self.last_state_not_identified)
    obs_state_idx = np.zeros(k_states)
    obs_state_idx[slice(0, k_states, 2)] = 1
    super().__init__(name=name, k_endog=1, k_states=k_states, k_posdef=k_states * int(self.innovations), measurement_error=False, combine_hidden_states=True, obs_state_idxs=obs_state_idx)


def FrequencySeasonality__make_symbolic_graph(self):
    self.ssm['design', 0, slice(0, self.k_states, 2)] = 1
    init_state = self.make_and_register_variable(f'{self.name}', shape=(self.n_coefs,))
    init_state_idx = np.arange(self.n_coefs, dtype=int)
    self.ssm['initial_state', init_state_idx] = init_state
    T_mats = [_frequency_transition_block(self.season_length, j + 1) for j in range(self.n)]
    T = pt.linalg.block_diag(*T_mats)
    self.ssm['transition', :, :] = T
    if self.innovations:
        sigma_season = self.make_and_register_variable(f'sigma_{self.name}', shape=())
        self.ssm['state_cov', :, :] = pt.eye(self.k_posdef) * sigma_season ** 2
        self.ssm['selection', :, :] = np.eye(self.k_states)


def FrequencySeasonality__populate_component_properties(self):
    self.state_names = [f'{self.name}_{f}_{i}' for i in range(self.n) for f in ['Cos', 'Sin']]
    self.param_names = [f'{self.name}']
    self.param_dims = {self.name: (f'{self.name}_state',)}
    self.param_info = {f'{self.name}': {'shape': (self.k_states - int(self.last_state_not_identified),), 'constraints': None, 'dims': (f'{self.name}_state',)}}
    init_state_idx = np.arange(self.k_states, dtype=int)
    if self.last_state_not_identified:
        init_state_idx = init_state_idx[:-1]
    self.coords = {f'{self.name}_state': [self.state_names[i] for i in init_state_idx]}
    if self.innovations:
        self.shock_names = self.state_names.copy()
        self.param_names += [f'sigma_{self.name}']
        self.param_info[f'sigma_{self.name}'] = {'shape': (), 'constraints': 'Positive', 'dims': None}


def CycleComponent____init__(self, name=None, cycle_length=None, estimate_cycle_length=False, dampen=False, innovations=True):
    if cycle_length is None and (not estimate_cycle_length):
        raise ValueError()
    if cycle_length is not None and estimate_cycle_length:
        raise ValueError()
    if name is None:
        cycle = int(cycle_length) if cycle_length is not None else 'Estimate'
        name = f'Cycle[s={cycle}, dampen={dampen}, innovations={innovations}]'
    self.estimate_cycle_length = estimate_cycle_length
    self.cycle_length = cycle_length
    self.innovations = innovations
    self.dampen = dampen
    self.n_coefs = 1
    k_states = 2
    k_endog = 1
    k_posdef = 2
    obs_state_idx = np.zeros(k_states)
    obs_state_idx[slice(0, k_states, 2)] = 1
    super().__init__(name=name, k_endog=k_endog, k_states=k_states, k_posdef=k_posdef, measurement_error=False, combine_hidden_states=True, obs_state_idxs=obs_state_idx)


def CycleComponent__make_symbolic_graph(self):
    self.ssm['design', 0, slice(0, self.k_states, 2)] = 1
    self.ssm['selection', :, :] = np.eye(self.k_states)
    self.param_dims = {self.name: (f'{self.name}_state',)}
    self.coords = {f'{self.name}_state': self.state_names}
    init_state = self.make_and_register_variable(f'{self.name}', shape=(self.k_states,))
    self.ssm['initial_state', :] = init_state
    if self.estimate_cycle_length:
        lamb = self.make_and_register_variable(f'{self.name}_length', shape=())
    else:
        lamb = self.cycle_length
    if self.dampen:
        rho = self.make_and_register_variable(f'{self.name}_dampening_factor', shape=())
    else:
        rho = 1
    T = rho * _frequency_transition_block(lamb, j=1)
    self.ssm['transition', :, :] = T
    if self.innovations:
        sigma_cycle = self.make_and_register_variable(f'sigma_{self.name}', shape=())
        self.ssm['state_cov', :, :] = pt.eye(self.k_posdef) * sigma_cycle ** 2


def CycleComponent__populate_component_properties(self):
    self.state_names = [f'{self.name}_{f}' for f in ['Cos', 'Sin']]
    self.param_names = [f'{self.name}']
    self.param_info = {f'{self.name}': {'shape': (2,), 'constraints': None, 'dims': (f'{self.name}_state',)}}
    if self.estimate_cycle_length:
        self.param_names += [f'{self.name}_length']
        self.param_info[f'{self.name}_length'] = {'shape': (), 'constraints': 'Positive, non-zero', 'dims': None}
    if self.dampen:
        self.param_names += [f'{self.name}_dampening_factor']
        self.param_info[f'{self.name}_dampening_factor'] = {'shape': (), 'constraints': '0 < x ≤ 1', 'dims': None}
    if self.innovations:
        self.param_names += [f'sigma_{self.name}']
        self.param_info[f'sigma_{self.name}'] = {'shape': (), 'constraints': 'Positive', 'dims': None}
    self.shock_names = self.state_names.copy()


def RegressionComponent____init__(self, k_exog=None, name='Exogenous', state_names=None, innovations=False):
    self.innovations = innovations
    k_exog = self._handle_input_data(k_exog, state_names, name)
    k_states = k_exog
    k_endog = 1
    k_posdef = k_exog
    super().__init__(name=name, k_endog=k_endog, k_states=k_states, k_posdef=k_posdef, state_names=self.state_names, measurement_error=False, combine_hidden_states=False, exog_names=[f'data_{name}'], obs_state_idxs=np.ones(k_states))


def RegressionComponent___get_state_names(k_exog, state_names, name):
    if k_exog is None and state_names is None:
        raise ValueError()
    if state_names is not None and k_exog is not None:
        if len(state_names) != k_exog:
            raise ValueError()
    elif k_exog is None:
        k_exog = len(state_names)
    else:
        state_names = [f'{name}_{i + 1}' for i in range(k_exog)]
    return (k_exog, state_names)


def RegressionComponent___handle_input_data(self, k_exog, state_names, name):
    k_exog, state_names = self._get_state_names(k_exog, state_names, name)
    self.state_names = state_names
    return k_exog


def RegressionComponent__make_symbolic_graph(self):
    betas = self.make_and_register_variable(f'beta_{self.name}', shape=(self.k_states,))
    regression_data = self.make_and_register_data(f'data_{self.name}', shape=(None, self.k_states))
    self.ssm['initial_state', :] = betas
    self.ssm['transition', :, :] = np.eye(self.k_states)
    self.ssm['selection', :, :] = np.eye(self.k_states)
    self.ssm['design'] = pt.expand_dims(regression_data, 1)
    if self.innovations:
        sigma_beta = self.make_and_register_variable(f'sigma_beta_{self.name}', (self.k_states,))
        row_idx, col_idx = np.diag_indices(self.k_states)
        self.ssm['state_cov', row_idx, col_idx] = sigma_beta ** 2


def RegressionComponent__populate_component_properties(self):
    self.shock_names = self.state_names
    self.param_names = [f'beta_{self.name}']
    self.data_names = [f'data_{self.name}']
    self.param_dims = {f'beta_{self.name}': (f'{self.name}_state',)}
    self.param_info = {f'beta_{self.name}': {'shape': (self.k_states,), 'constraints': None, 'dims': (f'{self.name}_state',)}}
    self.data_info = {f'data_{self.name}': {'shape': (None, self.k_states), 'dims': (TIME_DIM, f'{self.name}_state')}}
    self.coords = {f'{self.name}_state': self.state_names}
    if self.innovations:
        self.param_names += [f'sigma_beta_{self.name}']
        self.param_dims[f'sigma_beta_{self.name}'] = (f'{self.name}_state',)
        self.param_info[f'sigma_beta_{self.name}'] = {'shape': (self.k_states,), 'constraints': 'Positive', 'dims': (f'{self.name}_state',)}


def spec_conform_time_varying_and_time_invariant_matrices(A, B):
    if A.name == B.name:
        name = A.name
    else:
        if all([X.name not in MATRIX_NAMES + LONG_MATRIX_NAMES for X in [A, B]]):
            raise ValueError()
        name = A.name if A.name in MATRIX_NAMES + LONG_MATRIX_NAMES else B.name
    time_varying_ndim = 3 - int(name in VECTOR_VALUED)
    if not all([x.ndim == time_varying_ndim for x in [A, B]]):
        return (A, B)
    T_A, *A_dims = A.type.shape
    T_B, *B_dims = B.type.shape
    if T_A == T_B:
        return (A, B)
    if T_A == 1:
        A_out = pt.repeat(A, B.shape[0], axis=0)
        A_out = pt.specify_shape(A_out, (T_B, *tuple(A_dims)))
        A_out.name = A.name
        return (A_out, B)
    if T_B == 1:
        B_out = pt.repeat(B, A.shape[0], axis=0)
        B_out = pt.specify_shape(B_out, (T_A, *tuple(B_dims)))
        B_out.name = B.name
        return (A, B_out)
    return (A, B)
