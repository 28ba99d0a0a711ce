import numpy as np
import pytensor.tensor as pt
from pytensor import graph_replace
from pytensor.tensor.slinalg import solve_discrete_lyapunov
from pymc_extras.statespace.core.statespace import floatX
from pymc_extras.statespace.models.utilities import make_default_coords
from pymc_extras.statespace.utils.constants import ALL_STATE_AUX_DIM, ALL_STATE_DIM, ETS_SEASONAL_DIM, OBS_STATE_AUX_DIM, OBS_STATE_DIM


def BayesianETS____init__(self, order=None, endog_names=None, k_endog=1, trend=True, damped_trend=False, seasonal=False, seasonal_periods=None, measurement_error=False, use_transformed_parameterization=False, dense_innovation_covariance=False, stationary_initialization=False, initialization_dampening=0.8, filter_type='standard', verbose=True):
    if order is not None:
        if len(order) != 3 or any((not isinstance(o, str) for o in order)):
            raise ValueError()
        if order[0] != 'A':
            raise ValueError()
        if order[1] not in {'A', 'Ad', 'N'}:
            raise ValueError()
        if order[2] not in {'A', 'N'}:
            raise ValueError()
        trend = order[1] != 'N'
        damped_trend = order[1] == 'Ad'
        seasonal = order[2] == 'A'
    self.trend = trend
    self.damped_trend = trend and damped_trend
    self.seasonal = seasonal
    self.seasonal_periods = seasonal_periods
    self.use_transformed_parameterization = use_transformed_parameterization
    self.stationary_initialization = stationary_initialization
    if not 0.0 < initialization_dampening < 1.0:
        raise ValueError()
    self.initialization_dampening = initialization_dampening
    if self.seasonal and self.seasonal_periods is None:
        raise ValueError()
    if endog_names is not None:
        endog_names = [endog_names] if isinstance(endog_names, str) else list(endog_names)
        k_endog = len(endog_names)
    else:
        endog_names = [f'data_{i}' for i in range(k_endog)] if k_endog > 1 else ['data']
    self.endog_names = endog_names
    if dense_innovation_covariance and k_endog == 1:
        dense_innovation_covariance = False
    self.dense_innovation_covariance = dense_innovation_covariance
    k_states = (2 + int(trend) + int(seasonal) * (seasonal_periods if seasonal_periods is not None else 0)) * k_endog
    k_posdef = k_endog
    super().__init__(k_endog, k_states, k_posdef, filter_type, verbose=verbose, measurement_error=measurement_error)


def BayesianETS__param_names(self):
    names = ['initial_level', 'initial_trend', 'initial_seasonal', 'P0', 'alpha', 'beta', 'gamma', 'phi', 'sigma_state', 'state_cov', 'sigma_obs']
    if not self.trend:
        names.remove('initial_trend')
        names.remove('beta')
    if not self.damped_trend:
        names.remove('phi')
    if not self.seasonal:
        names.remove('initial_seasonal')
        names.remove('gamma')
    if not self.measurement_error:
        names.remove('sigma_obs')
    if self.dense_innovation_covariance:
        names.remove('sigma_state')
    else:
        names.remove('state_cov')
    if self.stationary_initialization:
        names.remove('P0')
    return names


def BayesianETS__param_info(self):
    info = {'P0': {'shape': (self.k_states, self.k_states), 'constraints': 'Positive Semi-definite'}, 'initial_level': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': None}, 'initial_trend': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': None}, 'initial_seasonal': {'shape': (self.seasonal_periods,) if self.k_endog == 1 else (self.k_endog, self.seasonal_periods), 'constraints': None}, 'sigma_obs': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': 'Positive'}, 'sigma_state': {'shape': None if self.k_posdef == 1 else (self.k_posdef,), 'constraints': 'Positive'}, 'alpha': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': '0 < alpha < 1'}, 'beta': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': '0 < beta < 1' if not self.use_transformed_parameterization else '0 < beta < alpha'}, 'gamma': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': '0 < gamma< 1' if not self.use_transformed_parameterization else '0 < gamma < (1 - alpha)'}, 'phi': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': '0 < phi < 1'}}
    if self.dense_innovation_covariance:
        del info['sigma_state']
        info['state_cov'] = {'shape': (self.k_posdef, self.k_posdef), 'constraints': 'Positive Semi-definite'}
    for name in self.param_names:
        info[name]['dims'] = self.param_dims.get(name, None)
    return {name: info[name] for name in self.param_names}


def BayesianETS__state_names(self):
    states = ['innovation', 'level']
    if self.trend:
        states += ['trend']
    if self.seasonal:
        states += ['seasonality']
        states += [f'L{i}.season' for i in range(1, self.seasonal_periods)]
    if self.k_endog > 1:
        states = [f'{name}_{state}' for name in self.endog_names for state in states]
    return states


def BayesianETS__observed_states(self):
    return self.endog_names


def BayesianETS__shock_names(self):
    return ['innovation'] if self.k_endog == 1 else [f'{name}_innovation' for name in self.endog_names]


def BayesianETS__param_dims(self):
    coord_map = {'P0': (ALL_STATE_DIM, ALL_STATE_AUX_DIM), 'sigma_obs': (OBS_STATE_DIM,), 'sigma_state': (OBS_STATE_DIM,), 'initial_level': (OBS_STATE_DIM,), 'initial_trend': (OBS_STATE_DIM,), 'initial_seasonal': (ETS_SEASONAL_DIM,), 'seasonal_param': (ETS_SEASONAL_DIM,)}
    if self.dense_innovation_covariance:
        del coord_map['sigma_state']
        coord_map['state_cov'] = (OBS_STATE_DIM, OBS_STATE_AUX_DIM)
    if self.k_endog == 1:
        coord_map['sigma_state'] = None
        coord_map['sigma_obs'] = None
        coord_map['initial_level'] = None
        coord_map['initial_trend'] = None
    else:
        coord_map['alpha'] = (OBS_STATE_DIM,)
        coord_map['beta'] = (OBS_STATE_DIM,)
        coord_map['gamma'] = (OBS_STATE_DIM,)
        coord_map['phi'] = (OBS_STATE_DIM,)
        coord_map['initial_seasonal'] = (OBS_STATE_DIM, ETS_SEASONAL_DIM)
        coord_map['seasonal_param'] = (OBS_STATE_DIM, ETS_SEASONAL_DIM)
    if not self.measurement_error:
        del coord_map['sigma_obs']
    if not self.seasonal:
        del coord_map['seasonal_param']
    return coord_map


def BayesianETS__coords(self):
    coords = make_default_coords(self)
    if self.seasonal:
        coords.update({ETS_SEASONAL_DIM: list(range(1, self.seasonal_periods + 1))})
    return coords


def BayesianETS___stationary_initialization(self, T_stationary):
    R = self.ssm['selection']
    Q = self.ssm['state_cov']
    T_stationary = pt.specify_shape(T_stationary, (self.k_states, self.k_states))
    P0 = solve_discrete_lyapunov(T_stationary, pt.linalg.matrix_dot(R, Q, R.T))
    P0 = pt.specify_shape(P0, (self.k_states, self.k_states))
    return P0


def BayesianETS__make_symbolic_graph(self):
    k_states_each = self.k_states // self.k_endog
    initial_level = self.make_and_register_variable('initial_level', shape=(self.k_endog,) if self.k_endog > 1 else (), dtype=floatX)
    initial_states = [pt.zeros(k_states_each) for _ in range(self.k_endog)]
    if self.k_endog == 1:
        initial_states = [pt.set_subtensor(initial_states[0][1], initial_level)]
    else:
        initial_states = [pt.set_subtensor(initial_state[1], initial_level[i]) for i, initial_state in enumerate(initial_states)]
    R = pt.zeros((self.k_states // self.k_endog, 1))
    alpha = self.make_and_register_variable('alpha', shape=() if self.k_endog == 1 else (self.k_endog,), dtype=floatX)
    stationary_dampening = pt.scalar('dampen_dummy')
    if self.k_endog == 1:
        R_list = [pt.set_subtensor(R[1, 0], alpha)]
        R_list = [pt.set_subtensor(R[0, :], 1 - alpha) for R in R_list]
    else:
        R_list = [pt.set_subtensor(R[1, 0], alpha[i]) for i in range(self.k_endog)]
        R_list = [pt.set_subtensor(R[0, :], 1 - alpha[i]) for i, R in enumerate(R_list)]
    T_base = pt.set_subtensor(pt.zeros((2, 2))[1, 1], stationary_dampening)
    if self.trend:
        initial_trend = self.make_and_register_variable('initial_trend', shape=(self.k_endog,) if self.k_endog > 1 else (), dtype=floatX)
        if self.k_endog == 1:
            initial_states = [pt.set_subtensor(initial_states[0][2], initial_trend)]
        else:
            initial_states = [pt.set_subtensor(initial_state[2], initial_trend[i]) for i, initial_state in enumerate(initial_states)]
        beta = self.make_and_register_variable('beta', shape=() if self.k_endog == 1 else (self.k_endog,), dtype=floatX)
        if self.use_transformed_parameterization:
            param = beta
        else:
            param = alpha * beta
        if self.k_endog == 1:
            R_list = [pt.set_subtensor(R[2, 0], param) for R in R_list]
        else:
            R_list = [pt.set_subtensor(R[2, 0], param[i]) for i, R in enumerate(R_list)]
        T_base = pt.as_tensor_variable(([0.0, 0.0, 0.0], [0.0, 1.0, 1.0], [0.0, 0.0, 1.0]))
        T_base = pt.set_subtensor(T_base[[1, 2], [1, 2]], stationary_dampening)
    if self.damped_trend:
        phi = self.make_and_register_variable('phi', shape=() if self.k_endog == 1 else (self.k_endog,), dtype=floatX)
        if self.k_endog > 1:
            T_base = [pt.set_subtensor(T_base[1:, 2], phi[i]) for i in range(self.k_endog)]
        else:
            T_base = pt.set_subtensor(T_base[1:, 2], phi)
    T_components = [T_base for _ in range(self.k_endog)] if not isinstance(T_base, list) else T_base
    if self.seasonal:
        initial_seasonal = self.make_and_register_variable('initial_seasonal', shape=(self.seasonal_periods,) if self.k_endog == 1 else (self.k_endog, self.seasonal_periods), dtype=floatX)
        if self.k_endog == 1:
            initial_states = [pt.set_subtensor(initial_states[0][2 + int(self.trend):], initial_seasonal)]
        else:
            initial_states = [pt.set_subtensor(initial_state[2 + int(self.trend):], initial_seasonal[i]) for i, initial_state in enumerate(initial_states)]
        gamma = self.make_and_register_variable('gamma', shape=() if self.k_endog == 1 else (self.k_endog,), dtype=floatX)
        param = gamma if self.use_transformed_parameterization else (1 - alpha) * gamma
        if self.k_endog == 1:
            R_list = [pt.set_subtensor(R[2 + int(self.trend), 0], param) for R in R_list]
            R_list = [pt.set_subtensor(R[0, 0], R[0, 0] - param) for R in R_list]
        else:
            R_list = [pt.set_subtensor(R[2 + int(self.trend), 0], param[i]) for i, R in enumerate(R_list)]
            R_list = [pt.set_subtensor(R[0, 0], R[0, 0] - param[i]) for i, R in enumerate(R_list)]
        T_seasonals = [pt.eye(self.seasonal_periods, k=-1) for _ in range(self.k_endog)]
        T_seasonals = [pt.set_subtensor(T_seasonal[0, -1], stationary_dampening) for T_seasonal in T_seasonals]
        T_components = [matrix[i] for i in range(self.k_endog) for matrix in [T_components, T_seasonals]]
    x0 = pt.concatenate(initial_states, axis=0)
    R = pt.linalg.block_diag(*R_list)
    self.ssm['initial_state'] = x0
    self.ssm['selection'] = pt.specify_shape(R, shape=(self.k_states, self.k_posdef))
    T = pt.linalg.block_diag(*T_components)
    self.ssm['transition'] = pt.specify_shape(graph_replace(T, {stationary_dampening: 1.0}), (self.k_states, self.k_states))
    Zs = [np.zeros((self.k_endog, self.k_states // self.k_endog)) for _ in range(self.k_endog)]
    for i, Z in enumerate(Zs):
        Z[i, 0] = 1.0
        Z[i, 1] = 1.0
        if self.seasonal:
            Z[i, 2 + int(self.trend)] = 1.0
    Z = pt.concatenate(Zs, axis=1)
    self.ssm['design'] = Z
    if self.dense_innovation_covariance:
        state_cov = self.make_and_register_variable('state_cov', shape=(self.k_posdef, self.k_posdef), dtype=floatX)
        self.ssm['state_cov'] = state_cov
    else:
        state_cov_idx = ('state_cov', *np.diag_indices(self.k_posdef))
        state_cov = self.make_and_register_variable('sigma_state', shape=() if self.k_posdef == 1 else (self.k_posdef,), dtype=floatX)
        self.ssm[state_cov_idx] = state_cov ** 2
    if self.measurement_error:
        obs_cov_idx = ('obs_cov', *np.diag_indices(self.k_endog))
        obs_cov = self.make_and_register_variable('sigma_obs', shape=() if self.k_endog == 1 else (self.k_endog,), dtype=floatX)
        self.ssm[obs_cov_idx] = obs_cov ** 2
    if self.stationary_initialization:
        T_stationary = graph_replace(T, {stationary_dampening: self.initialization_dampening})
        P0 = self._stationary_initialization(T_stationary)
    else:
        P0 = self.make_and_register_variable('P0', shape=(self.k_states, self.k_states), dtype=floatX)
    self.ssm['initial_state_cov'] = P0
