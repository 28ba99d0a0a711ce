import numpy as np
import pytensor.tensor as pt
from pytensor.tensor.slinalg import solve_discrete_lyapunov
from pymc_extras.statespace.models.utilities import make_default_coords
from pymc_extras.statespace.utils.constants import ALL_STATE_AUX_DIM, ALL_STATE_DIM, AR_PARAM_DIM, MA_PARAM_DIM, OBS_STATE_AUX_DIM, OBS_STATE_DIM, SHOCK_AUX_DIM, SHOCK_DIM
from pymc_extras.statespace.models.VARMAX import floatX
from pymc_extras.statespace.core.statespace import floatX
from pymc_extras.statespace.models.utilities import make_default_coords, make_harvey_state_names, make_SARIMA_transition_matrix
from pymc_extras.statespace.utils.constants import ALL_STATE_AUX_DIM, ALL_STATE_DIM, AR_PARAM_DIM, MA_PARAM_DIM, OBS_STATE_DIM, SARIMAX_STATE_STRUCTURES, SEASONAL_AR_PARAM_DIM, SEASONAL_MA_PARAM_DIM
from pymc_extras.statespace.models.SARIMAX import _verify_order
from pymc_extras.statespace.utils.constants import ALL_STATE_AUX_DIM, ALL_STATE_DIM, LONG_MATRIX_NAMES, MATRIX_NAMES, OBS_STATE_AUX_DIM, OBS_STATE_DIM, SHOCK_AUX_DIM, SHOCK_DIM, VECTOR_VALUED
from pymc_extras.statespace.models.utilities import cleanup_states


def BayesianVARMAX____init__(self, order, endog_names=None, k_endog=None, stationary_initialization=False, filter_type='standard', measurement_error=False, verbose=True):
    if endog_names is None and k_endog is None:
        raise ValueError()
    if endog_names is not None and k_endog is None:
        k_endog = len(endog_names)
    if endog_names is None and k_endog is not None:
        endog_names = [f'state.{i + 1}' for i in range(k_endog)]
    if endog_names is not None and k_endog is not None:
        if len(endog_names) != k_endog:
            raise ValueError()
    self.endog_names = list(endog_names)
    self.p, self.q = order
    self.stationary_initialization = stationary_initialization
    k_order = max(self.p, 1) + self.q
    k_states = int(k_endog * k_order)
    k_posdef = k_endog
    super().__init__(k_endog, k_states, k_posdef, filter_type, verbose=verbose, measurement_error=measurement_error)
    self.param_counts = {'x0': k_states * (1 - self.stationary_initialization), 'P0': k_states ** 2 * (1 - self.stationary_initialization), 'AR': k_endog ** 2 * self.p, 'MA': k_endog ** 2 * self.q, 'state_cov': k_posdef ** 2, 'sigma_obs': k_endog * self.measurement_error}


def BayesianVARMAX__param_names(self):
    names = ['x0', 'P0', 'ar_params', 'ma_params', 'state_cov', 'sigma_obs']
    if self.stationary_initialization:
        names.remove('P0')
        names.remove('x0')
    if not self.measurement_error:
        names.remove('sigma_obs')
    if self.p == 0:
        names.remove('ar_params')
    if self.q == 0:
        names.remove('ma_params')
    return names


def BayesianVARMAX__param_info(self):
    info = {'x0': {'shape': (self.k_states,), 'constraints': None}, 'P0': {'shape': (self.k_states, self.k_states), 'constraints': 'Positive Semi-definite'}, 'sigma_obs': {'shape': (self.k_endog,), 'constraints': 'Positive'}, 'state_cov': {'shape': (self.k_posdef, self.k_posdef), 'constraints': 'Positive Semi-definite'}, 'ar_params': {'shape': (self.k_endog, self.p, self.k_endog), 'constraints': 'None'}, 'ma_params': {'shape': (self.k_endog, self.q, self.k_endog), 'constraints': 'None'}}
    for name in self.param_names:
        info[name]['dims'] = self.param_dims[name]
    return {name: info[name] for name in self.param_names}


def BayesianVARMAX__state_names(self):
    state_names = self.endog_names.copy()
    state_names += [f'L{i + 1}.{state}' for i in range(self.p - 1) for state in self.endog_names]
    state_names += [f'L{i + 1}.{state}_innov' for i in range(self.q) for state in self.endog_names]
    return state_names


def BayesianVARMAX__observed_states(self):
    return self.endog_names


def BayesianVARMAX__shock_names(self):
    return self.endog_names


def BayesianVARMAX__coords(self):
    coords = make_default_coords(self)
    if self.p > 0:
        coords.update({AR_PARAM_DIM: list(range(1, self.p + 1))})
    if self.q > 0:
        coords.update({MA_PARAM_DIM: list(range(1, self.q + 1))})
    return coords


def BayesianVARMAX__param_dims(self):
    coord_map = {'x0': (ALL_STATE_DIM,), 'P0': (ALL_STATE_DIM, ALL_STATE_AUX_DIM), 'sigma_obs': (OBS_STATE_DIM,), 'state_cov': (SHOCK_DIM, SHOCK_AUX_DIM), 'ar_params': (OBS_STATE_DIM, AR_PARAM_DIM, OBS_STATE_AUX_DIM), 'ma_params': (OBS_STATE_DIM, MA_PARAM_DIM, OBS_STATE_AUX_DIM)}
    if not self.measurement_error:
        del coord_map['sigma_obs']
    if self.p == 0:
        del coord_map['ar_params']
    if self.q == 0:
        del coord_map['ma_params']
    if self.stationary_initialization:
        del coord_map['P0']
        del coord_map['x0']
    return coord_map


def BayesianVARMAX__make_symbolic_graph(self):
    if not self.stationary_initialization:
        x0 = self.make_and_register_variable('x0', shape=(self.k_states,), dtype=floatX)
        self.ssm['initial_state', :] = x0
        P0 = self.make_and_register_variable('P0', shape=(self.k_states, self.k_states), dtype=floatX)
        self.ssm['initial_state_cov', :, :] = P0
    self.ssm['design', *np.diag_indices(self.k_endog)] = 1
    self.ssm['transition'] = np.zeros((self.k_states, self.k_states))
    if self.p > 1:
        idx = (slice(self.k_endog, self.k_endog * self.p), slice(0, self.k_endog * (self.p - 1)))
        self.ssm['transition', *idx] = np.eye(self.k_endog * (self.p - 1))
    if self.q > 1:
        idx = (slice(-self.k_endog * (self.q - 1), None), slice(-self.k_endog * self.q, -self.k_endog))
        self.ssm['transition', *idx] = np.eye(self.k_endog * (self.q - 1))
    if self.p > 0:
        ar_param_idx = ('transition', slice(0, self.k_endog), slice(0, self.k_endog * self.p))
        ar_params = self.make_and_register_variable('ar_params', shape=(self.k_endog, self.p, self.k_endog), dtype=floatX)
        ar_params = ar_params.reshape((self.k_endog, self.k_endog * self.p))
        self.ssm[ar_param_idx] = ar_params
    self.ssm['selection'] = np.zeros((self.k_states, self.k_endog))
    self.ssm['selection', slice(0, self.k_endog), :] = np.eye(self.k_endog)
    if self.q > 0:
        ma_param_idx = ('transition', slice(0, self.k_endog), slice(self.k_endog * max(1, self.p), None))
        ma_params = self.make_and_register_variable('ma_params', shape=(self.k_endog, self.q, self.k_endog), dtype=floatX)
        ma_params = ma_params.reshape((self.k_endog, self.k_endog * self.q))
        self.ssm[ma_param_idx] = ma_params
        end = -self.k_endog * (self.q - 1) if self.q > 1 else None
        self.ssm['selection', slice(self.k_endog * -self.q, end), :] = np.eye(self.k_endog)
    if self.measurement_error:
        obs_cov_idx = ('obs_cov', *np.diag_indices(self.k_endog))
        sigma_obs = self.make_and_register_variable('sigma_obs', shape=(self.k_endog,), dtype=floatX)
        self.ssm[obs_cov_idx] = sigma_obs ** 2
    state_cov = self.make_and_register_variable('state_cov', shape=(self.k_posdef, self.k_posdef), dtype=floatX)
    self.ssm['state_cov', :, :] = state_cov
    if self.stationary_initialization:
        T = self.ssm['transition']
        R = self.ssm['selection']
        Q = self.ssm['state_cov']
        c = self.ssm['state_intercept']
        x0 = pt.linalg.solve(pt.eye(T.shape[0]) - T, c, assume_a='gen', check_finite=False)
        P0 = solve_discrete_lyapunov(T, pt.linalg.matrix_dot(R, Q, R.T), method='direct' if self.k_states < 10 else 'bilinear')
        self.ssm['initial_state', :] = x0
        self.ssm['initial_state_cov', :, :] = P0


def spec__verify_order(p, d, q, P, D, Q, S):
    for name, terms in zip(['AR', 'MA'], [(p, P), (q, Q)]):
        a, A = terms
        seasonal_lags = [(1 + i) * S for i in range(A)]
        lags = [1 + i for i in range(a)]
        overlapping_terms = set(seasonal_lags).intersection(set(lags))
        if any(overlapping_terms):
            raise ValueError()


def BayesianSARIMA____init__(self, order, seasonal_order=None, stationary_initialization=True, filter_type='standard', state_structure='fast', measurement_error=False, verbose=True):
    self.p, self.d, self.q = order
    if seasonal_order is None:
        seasonal_order = (0, 0, 0, 0)
    self.P, self.D, self.Q, self.S = seasonal_order
    _verify_order(self.p, self.d, self.q, self.P, self.D, self.Q, self.S)
    self.stationary_initialization = stationary_initialization
    self.state_structure = state_structure
    self._p_max = max(1, self.p + self.P * self.S)
    self._q_max = max(1, self.q + self.Q * self.S)
    k_states = None
    self._k_diffs = self.d + self.S * self.D
    if state_structure not in SARIMAX_STATE_STRUCTURES:
        raise ValueError()
    if state_structure == 'interpretable' and self.d + self.D > 0:
        raise ValueError()
    if self.state_structure == 'fast':
        k_states = max(self.p + self.P * self.S, self.q + self.Q * self.S + 1) + (self.S * self.D + self.d)
    elif self.state_structure == 'interpretable':
        k_states = self._p_max + self._q_max
    k_posdef = 1
    k_endog = 1
    super().__init__(k_endog, k_states, k_posdef, filter_type, verbose=verbose, measurement_error=measurement_error)


def BayesianSARIMA__param_names(self):
    names = ['x0', 'P0', 'ar_params', 'ma_params', 'seasonal_ar_params', 'seasonal_ma_params', 'sigma_state', 'sigma_obs']
    if self.stationary_initialization:
        names.remove('P0')
        names.remove('x0')
    if self.p == 0:
        names.remove('ar_params')
    if self.P == 0:
        names.remove('seasonal_ar_params')
    if self.q == 0:
        names.remove('ma_params')
    if self.Q == 0:
        names.remove('seasonal_ma_params')
    if not self.measurement_error:
        names.remove('sigma_obs')
    return names


def BayesianSARIMA__param_info(self):
    info = {'x0': {'shape': (self.k_states,), 'constraints': None}, 'P0': {'shape': (self.k_states, self.k_states), 'constraints': 'Positive Semi-definite'}, 'sigma_obs': {'shape': None if self.k_endog == 1 else (self.k_endog,), 'constraints': 'Positive'}, 'sigma_state': {'shape': None if self.k_posdef == 1 else (self.k_posdef,), 'constraints': 'Positive'}, 'ar_params': {'shape': (self.p,), 'constraints': 'None'}, 'ma_params': {'shape': (self.q,), 'constraints': 'None'}, 'seasonal_ar_params': {'shape': (self.P,), 'constraints': 'None'}, 'seasonal_ma_params': {'shape': (self.Q,), 'constraints': 'None'}}
    for name in self.param_names:
        info[name]['dims'] = self.param_dims[name]
    return {name: info[name] for name in self.param_names}


def BayesianSARIMA__state_names(self):
    if self.state_structure == 'fast':
        p, d, q = (self.p, self.d, self.q)
        P, D, Q, S = (self.P, self.D, self.Q, self.S)
        states = make_harvey_state_names(p, d, q, P, D, Q, S)
    elif self.state_structure == 'interpretable':
        states = ['data']
        states += [f'L{i + 1}.data' for i in range(self._p_max - 1)]
        states += ['innovations']
        states += [f'L{i + 1}.innovations' for i in range(self._q_max - 1)]
    else:
        raise NotImplementedError()
    return states


def BayesianSARIMA__observed_states(self):
    return [self.state_names[0]]


def BayesianSARIMA__shock_names(self):
    return ['innovation']


def BayesianSARIMA__param_dims(self):
    coord_map = {'x0': (ALL_STATE_DIM,), 'P0': (ALL_STATE_DIM, ALL_STATE_AUX_DIM), 'sigma_obs': (OBS_STATE_DIM,), 'sigma_state': (OBS_STATE_DIM,), 'ar_params': (AR_PARAM_DIM,), 'ma_params': (MA_PARAM_DIM,), 'seasonal_ar_params': (SEASONAL_AR_PARAM_DIM,), 'seasonal_ma_params': (SEASONAL_MA_PARAM_DIM,)}
    if self.k_endog == 1:
        coord_map['sigma_state'] = None
        coord_map['sigma_obs'] = None
    if not self.measurement_error:
        del coord_map['sigma_obs']
    if self.p == 0:
        del coord_map['ar_params']
    if self.q == 0:
        del coord_map['ma_params']
    if self.P == 0:
        del coord_map['seasonal_ar_params']
    if self.Q == 0:
        del coord_map['seasonal_ma_params']
    if self.stationary_initialization:
        del coord_map['P0']
        del coord_map['x0']
    return coord_map


def BayesianSARIMA__coords(self):
    coords = make_default_coords(self)
    if self.p > 0:
        coords.update({AR_PARAM_DIM: list(range(1, self.p + 1))})
    if self.q > 0:
        coords.update({MA_PARAM_DIM: list(range(1, self.q + 1))})
    if self.P > 0:
        coords.update({SEASONAL_AR_PARAM_DIM: list(range(1, self.P + 1))})
    if self.Q > 0:
        coords.update({SEASONAL_MA_PARAM_DIM: list(range(1, self.Q + 1))})
    return coords


def BayesianSARIMA___stationary_initialization(self, mode=None):
    T = self.ssm['transition']
    R = self.ssm['selection']
    Q = self.ssm['state_cov']
    c = self.ssm['state_intercept']
    x0 = pt.linalg.solve(pt.identity_like(T) - T, c, assume_a='gen', check_finite=True)
    method = 'direct' if self.k_states < 5 or mode == 'JAX' else 'bilinear'
    P0 = solve_discrete_lyapunov(T, pt.linalg.matrix_dot(R, Q, R.T), method=method)
    return (x0, P0)


def BayesianSARIMA__make_symbolic_graph(self):
    p, d, q = (self.p, self.d, self.q)
    P, D, Q, S = (self.P, self.D, self.Q, self.S)
    if not self.stationary_initialization:
        x0 = self.make_and_register_variable('x0', shape=(self.k_states,), dtype=floatX)
        P0 = self.make_and_register_variable('P0', shape=(self.k_states, self.k_states), dtype=floatX)
        self.ssm['initial_state', :] = x0
        self.ssm['initial_state_cov'] = P0
    k_lags = self.k_states - self._k_diffs
    self.ssm['design'] = np.r_[[1] * d, ([0] * (S - 1) + [1]) * D, [1], [0] * (k_lags - 1)][None]
    if self.state_structure == 'fast':
        transition = make_SARIMA_transition_matrix(p, d, q, P, D, Q, S)
        selection = np.r_[[0] * self._k_diffs, [1.0], np.zeros(self.k_states - self._k_diffs - 1)][:, None]
        ar_param_idx = np.s_['transition', self._k_diffs:self._k_diffs + self.p, self._k_diffs]
        ma_param_idx = np.s_['selection', 1 + self._k_diffs:1 + self._k_diffs + self.q, 0]
        self.ssm['transition'] = transition
        self.ssm['selection'] = selection
        if p > 0:
            ar_params = self.make_and_register_variable('ar_params', shape=(p,), dtype=floatX)
            self.ssm[ar_param_idx] = ar_params
        if P > 0:
            seasonal_ar_params = self.make_and_register_variable('seasonal_ar_params', shape=(P,), dtype=floatX)
            idx_rows = self._k_diffs + np.arange(1, P + 1) * S - 1
            S_ar_param_idx = np.s_['transition', idx_rows, self._k_diffs]
            self.ssm[S_ar_param_idx] = seasonal_ar_params
            if p > 0:
                cross_term_idx = np.s_['transition', idx_rows.repeat(p) + np.tile(np.arange(p), P) + 1, self._k_diffs]
                self.ssm[cross_term_idx] = -pt.repeat(seasonal_ar_params, p) * pt.tile(ar_params, P)
        if q > 0:
            ma_params = self.make_and_register_variable('ma_params', shape=(q,), dtype=floatX)
            self.ssm[ma_param_idx] = ma_params
        if Q > 0:
            seasonal_ma_params = self.make_and_register_variable('seasonal_ma_params', shape=(Q,), dtype=floatX)
            idx_rows = self._k_diffs + np.arange(1, Q + 1) * S
            S_ma_param_idx = np.s_['selection', idx_rows, 0]
            self.ssm[S_ma_param_idx] = seasonal_ma_params
            if q > 0:
                cross_term_idx = np.s_['selection', idx_rows.repeat(q) + np.tile(np.arange(q), Q) + 1, 0]
                self.ssm[cross_term_idx] = pt.repeat(seasonal_ma_params, q) * pt.tile(ma_params, Q)
    elif self.state_structure == 'interpretable':
        ar_param_idx = np.s_['transition', 0, :max(1, p)]
        ma_param_idx = np.s_['transition', 0, self._p_max:self._p_max + max(1, q)]
        transition = np.eye(self.k_states, k=-1)
        transition[-self._q_max, self._p_max - 1] = 0
        selection = np.r_[[1.0], np.zeros(self.k_states - 1)][:, None]
        selection[-self._q_max, 0] = 1
        self.ssm['transition'] = transition
        self.ssm['selection'] = selection
        if self.p > 0:
            ar_params = self.make_and_register_variable('ar_params', shape=(self.p,), dtype=floatX)
            self.ssm[ar_param_idx] = ar_params
        if self.P > 0:
            seasonal_ar_params = self.make_and_register_variable('seasonal_ar_params', shape=(P,), dtype=floatX)
            idx_cols = np.arange(1, P + 1) * S - 1
            S_ar_param_idx = np.s_['transition', 0, idx_cols]
            self.ssm[S_ar_param_idx] = seasonal_ar_params
            if p > 0:
                cross_term_idx = np.s_['transition', 0, idx_cols.repeat(p) + np.tile(np.arange(p), P) + 1]
                self.ssm[cross_term_idx] = -pt.repeat(seasonal_ar_params, p) * pt.tile(ar_params, P)
        if self.q > 0:
            ma_params = self.make_and_register_variable('ma_params', shape=(self.q,), dtype=floatX)
            self.ssm[ma_param_idx] = ma_params
        if Q > 0:
            seasonal_ma_params = self.make_and_register_variable('seasonal_ma_params', shape=(Q,), dtype=floatX)
            idx_cols = self._p_max + np.arange(1, Q + 1) * S - 1
            S_ma_param_idx = np.s_['transition', 0, idx_cols]
            self.ssm[S_ma_param_idx] = seasonal_ma_params
            if q > 0:
                cross_term_idx = np.s_['transition', 0, idx_cols.repeat(q) + np.tile(np.arange(q), Q) + 1]
                self.ssm[cross_term_idx] = pt.repeat(seasonal_ma_params, q) * pt.tile(ma_params, Q)
    state_cov_idx = ('state_cov', *np.diag_indices(self.k_posdef))
    state_cov = self.make_and_register_variable('sigma_state', shape=() if self.k_posdef == 1 else (self.k_posdef,), dtype=floatX)
    self.ssm[state_cov_idx] = state_cov ** 2
    if self.measurement_error:
        obs_cov_idx = ('obs_cov', *np.diag_indices(self.k_endog))
        obs_cov = self.make_and_register_variable('sigma_obs', shape=() if self.k_endog == 1 else (self.k_endog,), dtype=floatX)
        self.ssm[obs_cov_idx] = obs_cov ** 2
    if self.stationary_initialization:
        x0, P0 = self._stationary_initialization()
        self.ssm['initial_state', :] = x0
        self.ssm['initial_state_cov', :, :] = P0


def spec_make_default_coords(ss_mod):
    coords = {ALL_STATE_DIM: ss_mod.state_names, ALL_STATE_AUX_DIM: ss_mod.state_names, OBS_STATE_DIM: ss_mod.observed_states, OBS_STATE_AUX_DIM: ss_mod.observed_states, SHOCK_DIM: ss_mod.shock_names, SHOCK_AUX_DIM: ss_mod.shock_names}
    return coords


def spec_cleanup_states(states):
    out = []
    for state in states:
        state = state.replace('^1', '')
        state = state.replace('^0', '')
        state = state.replace('L0', '')
        state = state.replace('D0', '')
        out.append(state)
    return out


def spec_make_harvey_state_names(p, d, q, P, D, Q, S):
    k_lags = max(p + P * S, q + Q * S + 1)
    has_diff = d + D > 0
    states = ['data']
    d_size = d + int(D > 0)
    states.extend([f'D1^{i + 1}.data' for i in range(d_size)[:-1]])
    arma_diff = [int(d_size > 1), d_size - 1]
    season_diff = [S, 0]
    curr_state = f'D{arma_diff[0]}^{arma_diff[1]}'
    for i in range(D):
        states.extend([f'L{j + 1}{curr_state}.data' for j in range(S - 1)])
        season_diff[1] += 1
        curr_state = f'D{arma_diff[0]}^{arma_diff[1]}D{season_diff[0]}^{season_diff[1]}'
        if i != D - 1:
            states.append(f'{curr_state}.data')
    if has_diff:
        states.append('data_star')
    suffix = '_star' if 'star' in states[-1] else ''
    states.extend([f'state{suffix}_{i + 1}' for i in range(k_lags - 1)])
    states = cleanup_states(states)
    return states


def spec_make_SARIMA_transition_matrix(p, d, q, P, D, Q, S):
    n_diffs = S * D + d
    k_lags = max(p + P * S, q + Q * S + 1)
    k_states = k_lags + n_diffs
    T = np.zeros((k_states, k_states))
    diff_idx = np.triu_indices(d)
    T[diff_idx] = 1
    base_col_idx = d + S + np.arange(D) * S - 1
    if len(base_col_idx) > 0:
        base_col_idx = np.r_[base_col_idx, base_col_idx[-1] + 1]
    col_idx = np.tile(base_col_idx, d)
    row_idx = np.arange(d).repeat(D + 1)
    for i in range(D):
        n = len(base_col_idx[i:])
        col_idx = np.r_[col_idx, base_col_idx[i:]]
        row_idx = np.r_[row_idx, np.full(n, d + S * i)]
    if D == 0 and d > 0:
        row_idx = np.arange(d)
        col_idx = np.full(d, d)
    T[row_idx, col_idx] = 1
    if S > 0:
        row_roll_idx, col_roll_idx = np.diag_indices(S * D)
        row_roll_idx = row_roll_idx + d + 1
        col_roll_idx = col_roll_idx + d
        T[row_roll_idx, col_roll_idx] = 1
        zero_idx = (row_roll_idx[S - 1::S], col_roll_idx[S - 1::S])
        T[zero_idx] = 0
    star_roll_row, star_roll_col = np.diag_indices(k_lags - 1)
    star_roll_row = star_roll_row + n_diffs
    star_roll_col = star_roll_col + n_diffs + 1
    T[star_roll_row, star_roll_col] = 1
    return T
