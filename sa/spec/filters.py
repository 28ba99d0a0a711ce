import numpy as np
import pytensor
import pytensor.tensor as pt
from pymc.pytensorf import constant_fold
from pytensor.compile.mode import get_mode
from pytensor.tensor.slinalg import solve_triangular
from pymc_extras.statespace.filters.utilities import quad_form_sym, split_vars_into_seq_and_nonseq, stabilize
from pymc_extras.statespace.utils.constants import JITTER_DEFAULT
from pymc_extras.statespace.filters.kalman_filter import MVN_CONST, assert_time_varying_dim_correct
from pytensor.compile import get_mode
from pytensor.tensor.nlinalg import matrix_dot
from pymc_extras.statespace.filters.utilities import decide_if_x_time_varies


def BaseFilter____init__(self, mode=None):
    self.mode: str = mode
    self.seq_names: list[str] = []
    self.non_seq_names: list[str] = []
    self.n_states = None
    self.n_posdef = None
    self.n_endog = None
    self.missing_fill_value: float | None = None
    self.cov_jitter = None


def BaseFilter__check_params(self, data, a0, P0, c, d, T, Z, R, H, Q):
    return (data, a0, P0, c, d, T, Z, R, H, Q)


def BaseFilter__add_check_on_time_varying_shapes(data, sequence_params):
    params_with_assert = [assert_time_varying_dim_correct(param, pt.eq(param.shape[0], data.shape[0])) for param in sequence_params]
    return params_with_assert


def BaseFilter__unpack_args(self, args):
    args = list(args)
    n_seq = len(self.seq_names)
    if n_seq == 0:
        return tuple(args)
    y = args.pop(0)
    seqs, (a0, P0), non_seqs = (args[:n_seq], args[n_seq:n_seq + 2], args[n_seq + 2:])
    return_ordered = []
    for name in ['c', 'd', 'T', 'Z', 'R', 'H', 'Q']:
        if name in self.seq_names:
            idx = self.seq_names.index(name)
            return_ordered.append(seqs[idx])
        else:
            idx = self.non_seq_names.index(name)
            return_ordered.append(non_seqs[idx])
    c, d, T, Z, R, H, Q = return_ordered
    return (y, a0, P0, c, d, T, Z, R, H, Q)


def BaseFilter__build_graph(self, data, a0, P0, c, d, T, Z, R, H, Q, mode=None, return_updates=False, missing_fill_value=None, cov_jitter=None):
    if missing_fill_value is None:
        missing_fill_value = -9999.0
    if cov_jitter is None:
        cov_jitter = JITTER_DEFAULT
    self.mode = mode
    self.missing_fill_value = missing_fill_value
    self.cov_jitter = cov_jitter
    [R_shape] = constant_fold([R.shape], raise_not_constant=False)
    [Z_shape] = constant_fold([Z.shape], raise_not_constant=False)
    self.n_states, self.n_shocks = R_shape[-2:]
    self.n_endog = Z_shape[-2]
    data, a0, P0, *params = self.check_params(data, a0, P0, c, d, T, Z, R, H, Q)
    sequences, non_sequences, seq_names, non_seq_names = split_vars_into_seq_and_nonseq(params, ['c', 'd', 'T', 'Z', 'R', 'H', 'Q'])
    self.seq_names = seq_names
    self.non_seq_names = non_seq_names
    if len(sequences) > 0:
        sequences = self.add_check_on_time_varying_shapes(data, sequences)
    results, updates = pytensor.scan(self.kalman_step, sequences=[data, *sequences], outputs_info=[None, a0, None, None, P0, None, None], non_sequences=non_sequences, name='forward_kalman_pass', mode=get_mode(self.mode), strict=False)
    filter_results = self._postprocess_scan_results(results, a0, P0, n=data.type.shape[0])
    if return_updates:
        return (filter_results, updates)
    return filter_results


def BaseFilter___postprocess_scan_results(self, results, a0, P0, n):
    filtered_states, predicted_states, observed_states, filtered_covariances, predicted_covariances, observed_covariances, loglike_obs = results
    predicted_states = pt.concatenate([pt.expand_dims(a0, axis=(0,)), predicted_states[:-1]], axis=0)
    predicted_covariances = pt.concatenate([pt.expand_dims(P0, axis=(0,)), predicted_covariances[:-1]], axis=0)
    filtered_states = pt.specify_shape(filtered_states, (n, self.n_states))
    filtered_states.name = 'filtered_states'
    predicted_states = pt.specify_shape(predicted_states, (n, self.n_states))
    predicted_states.name = 'predicted_states'
    observed_states = pt.specify_shape(observed_states, (n, self.n_endog))
    observed_states.name = 'observed_states'
    filtered_covariances = pt.specify_shape(filtered_covariances, (n, self.n_states, self.n_states))
    filtered_covariances.name = 'filtered_covariances'
    predicted_covariances = pt.specify_shape(predicted_covariances, (n, self.n_states, self.n_states))
    predicted_covariances.name = 'predicted_covariances'
    observed_covariances = pt.specify_shape(observed_covariances, (n, self.n_endog, self.n_endog))
    observed_covariances.name = 'observed_covariances'
    loglike_obs = pt.specify_shape(loglike_obs.squeeze(), (n,))
    loglike_obs.name = 'loglike_obs'
    filter_results = [filtered_states, predicted_states, observed_states, filtered_covariances, predicted_covariances, observed_covariances, loglike_obs]
    return filter_results


def BaseFilter__handle_missing_values(self, y, d, Z, H):
    nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
    all_nan_flag = pt.all(nan_mask).astype(pytensor.config.floatX)
    W = pt.diag(pt.bitwise_not(nan_mask).astype(pytensor.config.floatX))
    d_masked = W.dot(d)
    Z_masked = W.dot(Z)
    H_masked = W.dot(H).dot(W) + (pt.identity_like(W) - W) / (2 * np.pi)
    y_masked = pt.set_subtensor(y[nan_mask], 0.0)
    return (y_masked, d_masked, Z_masked, H_masked, all_nan_flag)


def BaseFilter__predict(a, P, c, T, R, Q):
    a_hat = T.dot(a) + c
    P_hat = quad_form_sym(T, P) + quad_form_sym(R, Q)
    return (a_hat, P_hat)


def BaseFilter__update(a, P, y, d, Z, H, all_nan_flag):
    raise NotImplementedError


def BaseFilter__forecast_observed(self, a, P, d, Z, H):
    obs_mu = d + Z.dot(a)
    obs_cov = quad_form_sym(Z, P) + stabilize(H, self.cov_jitter)
    return (obs_mu, obs_cov)


def BaseFilter__kalman_step(self, *args):
    y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
    y_masked, d_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(y, d, Z, H)
    a_filtered, P_filtered, _, _, ll = self.update(y=y_masked, a=a, d=d_masked, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag)
    obs_mu, obs_cov = self.forecast_observed(a=a, P=P, d=d, Z=Z, H=H)
    P_filtered = stabilize(P_filtered, self.cov_jitter)
    a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
    outputs = (a_filtered, a_hat, obs_mu, P_filtered, P_hat, obs_cov, ll)
    return outputs


def StandardFilter__update(self, a, P, y, d, Z, H, all_nan_flag):
    y_hat = d + Z.dot(a)
    v = y - y_hat
    PZT = P.dot(Z.T)
    F = Z.dot(PZT) + stabilize(H, self.cov_jitter)
    K = pt.linalg.solve(F.T, PZT.T, assume_a='pos', check_finite=False).T
    I_KZ = pt.eye(self.n_states) - K.dot(Z)
    a_filtered = a + K.dot(v)
    P_filtered = quad_form_sym(I_KZ, P) + quad_form_sym(K, H)
    F_inv_v = pt.linalg.solve(F, v, assume_a='pos', check_finite=False)
    inner_term = v.T @ F_inv_v
    F_logdet = pt.log(pt.linalg.det(F))
    ll = pt.switch(all_nan_flag, 0.0, -0.5 * (self.n_endog * MVN_CONST + F_logdet + inner_term).ravel()[0])
    return (a_filtered, P_filtered, y_hat, F, ll)


def SquareRootFilter__predict(self, a, P, c, T, R, Q):
    P_chol = P
    a_hat = T.dot(a) + c
    Q_chol = pt.linalg.cholesky(Q, lower=True)
    M = pt.horizontal_stack(T @ P_chol, R @ Q_chol).T
    R_decomp = pt.linalg.qr(M, mode='r')
    P_chol_hat = R_decomp[:self.n_states, :self.n_states].T
    return (a_hat, P_chol_hat)


def SquareRootFilter___cholesky_H(self, H):
    return pytensor.ifelse(pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(stabilize(H, self.cov_jitter), lower=True))


def SquareRootFilter__forecast_observed(self, a, P, d, Z, H):
    obs_mu = d + Z.dot(a)
    M = pt.horizontal_stack(self._cholesky_H(H), Z @ P).T
    obs_cov_chol = pt.linalg.qr(M, mode='r').T
    return (obs_mu, obs_cov_chol)


def SquareRootFilter__update(self, a, P, y, d, Z, H, all_nan_flag):
    P_chol = P
    y_hat = Z.dot(a) + d
    v = y - y_hat
    H_chol = self._cholesky_H(H)
    zeros = pt.zeros((self.n_states, self.n_endog))
    upper = pt.horizontal_stack(H_chol, Z @ P_chol)
    lower = pt.horizontal_stack(zeros, P_chol)
    A_T = pt.vertical_stack(upper, lower)
    B = pt.linalg.qr(A_T.T, mode='r').T
    F_chol = B[:self.n_endog, :self.n_endog]
    K_F_chol = B[self.n_endog:, :self.n_endog]
    P_chol_filtered = B[self.n_endog:, self.n_endog:]

    def compute_non_degenerate(P_chol_filtered, F_chol, K_F_chol, v):
        a_filtered = a + K_F_chol @ solve_triangular(F_chol, v, lower=True)
        inner_term = solve_triangular(F_chol, v, lower=True)
        loss = inner_term.T @ inner_term
        logdet = 2 * pt.log(pt.abs(pt.diag(F_chol))).sum()
        ll = -0.5 * (self.n_endog * MVN_CONST + logdet + loss)
        return [a_filtered, P_chol_filtered, ll]

    def compute_degenerate(P_chol_filtered, F_chol, K_F_chol, v):
        return [a, P_chol, pt.zeros(())]
    [a_filtered, P_chol_filtered, ll] = pytensor.ifelse(pt.eq(all_nan_flag, 1.0), compute_degenerate(P_chol_filtered, F_chol, K_F_chol, v), compute_non_degenerate(P_chol_filtered, F_chol, K_F_chol, v))
    a_filtered = pt.specify_shape(a_filtered, (self.n_states,))
    P_chol_filtered = pt.specify_shape(P_chol_filtered, (self.n_states, self.n_states))
    return (a_filtered, P_chol_filtered, y_hat, F_chol, ll)


def SquareRootFilter___postprocess_scan_results(self, results, a0, P0, n):
    results = super()._postprocess_scan_results(results, a0, P0, n)
    filtered_states, predicted_states, observed_states, filtered_covariances_cholesky, predicted_covariances_cholesky, observed_covariances_cholesky, loglike_obs = results

    def square_sequnece(L, k):
        X = pt.einsum('...ij,...kj->...ik', L, L.copy())
        X = pt.specify_shape(X, (n, k, k))
        return X
    filtered_covariances = square_sequnece(filtered_covariances_cholesky, k=self.n_states)
    predicted_covariances = square_sequnece(predicted_covariances_cholesky, k=self.n_states)
    observed_covariances = square_sequnece(observed_covariances_cholesky, k=self.n_endog)
    return [filtered_states, predicted_states, observed_states, filtered_covariances, predicted_covariances, observed_covariances, loglike_obs]


def UnivariateFilter___univariate_inner_filter_step(self, y, Z_row, d_row, sigma_H, nan_flag, a, P):
    y_hat = Z_row.dot(a) + d_row
    v = y - y_hat
    PZT = P.dot(Z_row.T)
    F = Z_row.dot(PZT) + sigma_H
    F_zero_flag = pt.or_(pt.eq(F, 0), nan_flag)
    F = F + self.cov_jitter
    K = PZT / F * (1 - F_zero_flag)
    a_filtered = a + K * v
    P_filtered = P - pt.outer(K, K) * F
    ll_inner = pt.switch(F_zero_flag, 0.0, pt.log(F) + v ** 2 / F)
    return (a_filtered, P_filtered, pt.atleast_1d(y_hat), pt.atleast_2d(F), ll_inner)


def UnivariateFilter__kalman_step(self, *args):
    y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
    nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
    W = pt.set_subtensor(pt.eye(y.shape[0])[nan_mask, nan_mask], 0.0)
    Z_masked = W.dot(Z)
    H_masked = W.dot(H)
    y_masked = pt.set_subtensor(y[nan_mask], 0.0)
    result, updates = pytensor.scan(self._univariate_inner_filter_step, sequences=[y_masked, Z_masked, d, pt.diag(H_masked), nan_mask], outputs_info=[a, P, None, None, None], mode=get_mode(self.mode), name='univariate_inner_scan')
    a_filtered, P_filtered, _, _, ll_inner = result
    a_filtered, P_filtered = (a_filtered[-1], P_filtered[-1])
    obs_mu, obs_cov = self.forecast_observed(a=a, P=P, d=d, Z=Z, H=H)
    P_filtered = stabilize(0.5 * (P_filtered + P_filtered.T), self.cov_jitter)
    a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
    ll = -0.5 * (pt.neq(ll_inner, 0).sum() * MVN_CONST + ll_inner.sum())
    return (a_filtered, a_hat, obs_mu, P_filtered, P_hat, obs_cov, ll)


def KalmanSmoother____init__(self, mode=None):
    self.mode = mode
    self.cov_jitter = JITTER_DEFAULT
    self.seq_names = []
    self.non_seq_names = []


def KalmanSmoother__unpack_args(self, args):
    args = list(args)
    n_seq = len(self.seq_names)
    if n_seq == 0:
        return args
    a = args.pop(0)
    P = args.pop(0)
    seqs, (a_smooth, P_smooth), non_seqs = (args[:n_seq], args[n_seq:n_seq + 2], args[n_seq + 2:])
    return_ordered = []
    for name in ['c', 'T', 'R', 'Q']:
        if name in self.seq_names:
            idx = self.seq_names.index(name)
            return_ordered.append(seqs[idx])
        else:
            idx = self.non_seq_names.index(name)
            return_ordered.append(non_seqs[idx])
    c, T, R, Q = return_ordered
    return (a, P, a_smooth, P_smooth, c, T, R, Q)


def KalmanSmoother__build_graph(self, T, R, Q, filtered_states, filtered_covariances, mode=None, cov_jitter=JITTER_DEFAULT, c=None):
    self.mode = mode
    self.cov_jitter = cov_jitter
    n, k = filtered_states.type.shape
    a_last = pt.specify_shape(filtered_states[-1], (k,))
    P_last = pt.specify_shape(filtered_covariances[-1], (k, k))
    if c is None:
        c = pt.zeros_like(a_last)
    sequences, non_sequences, seq_names, non_seq_names = split_vars_into_seq_and_nonseq([c, T, R, Q], ['c', 'T', 'R', 'Q'])
    self.seq_names = seq_names
    self.non_seq_names = non_seq_names
    sequences = [seq[:-1] for seq in sequences]
    smoother_result, updates = pytensor.scan(self.smoother_step, sequences=[filtered_states[:-1], filtered_covariances[:-1], *sequences], outputs_info=[a_last, P_last], non_sequences=non_sequences, go_backwards=True, name='kalman_smoother', mode=get_mode(self.mode))
    smoothed_states, smoothed_covariances = smoother_result
    smoothed_states = pt.concatenate([smoothed_states[::-1], pt.expand_dims(a_last, axis=(0,))], axis=0)
    smoothed_covariances = pt.concatenate([smoothed_covariances[::-1], pt.expand_dims(P_last, axis=(0,))], axis=0)
    smoothed_states.name = 'smoothed_states'
    smoothed_covariances.name = 'smoothed_covariances'
    return (smoothed_states, smoothed_covariances)


def KalmanSmoother__smoother_step(self, *args):
    a, P, a_smooth, P_smooth, c, T, R, Q = self.unpack_args(args)
    a_hat, P_hat = self.predict(a, P, c, T, R, Q)
    smoother_gain = matrix_dot(pt.linalg.pinv(P_hat), T, P).T
    a_smooth_next = a + smoother_gain @ (a_smooth - a_hat)
    P_smooth_next = P + quad_form_sym(smoother_gain, P_smooth - P_hat)
    P_smooth_next = stabilize(P_smooth_next, self.cov_jitter)
    P_smooth_next = pt.specify_shape(P_smooth_next, P_smooth.type.shape)
    return (a_smooth_next, P_smooth_next)


def KalmanSmoother__predict(self, a, P, c, T, R, Q):
    a_hat = T.dot(a) + c
    P_hat = quad_form_sym(T, P) + quad_form_sym(R, Q)
    P_hat = stabilize(P_hat, self.cov_jitter)
    return (a_hat, P_hat)


def spec_decide_if_x_time_varies(x, name):
    if name in ['initial_state', 'initial_state_cov', 'a0', 'P0']:
        return False
    ndim = x.ndim
    if name in ['initial_state', 'state_intercept', 'obs_intercept', 'a0', 'c', 'd']:
        if ndim not in [1, 2]:
            raise ValueError()
        return ndim == 2
    if ndim not in [2, 3]:
        raise ValueError()
    return ndim == 3


def spec_split_vars_into_seq_and_nonseq(params, param_names):
    sequences, non_sequences = ([], [])
    seq_names, non_seq_names = ([], [])
    for param, name in zip(params, param_names):
        if decide_if_x_time_varies(param, name):
            sequences.append(param)
            seq_names.append(name)
        else:
            non_sequences.append(param)
            non_seq_names.append(name)
    return (sequences, non_sequences, seq_names, non_seq_names)


def spec_stabilize(cov, jitter=JITTER_DEFAULT):
    cov = cov + pt.identity_like(cov) * jitter
    return cov


def spec_quad_form_sym(A, B):
    out = matrix_dot(A, B, A.T)
    return 0.5 * (out + out.T)


def univariate_correlated(self, *args):
    """Independent scalar updates need uncorrelated measurement errors: rotate the observations first."""
    y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
    y_masked, d_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(y, d, Z, H)
    w, V = pt.linalg.eigh(H_masked)
    nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
    result, updates = pytensor.scan(self._univariate_inner_filter_step, sequences=[V.T @ y_masked, V.T @ Z_masked, V.T @ d_masked, w, nan_mask], outputs_info=[a, P, None, None, None], mode=get_mode(self.mode), name='univariate_inner_scan')
    a_filtered, P_filtered, _, _, ll_inner = result
    a_filtered, P_filtered = (a_filtered[-1], P_filtered[-1])
    return a_filtered, P_filtered
