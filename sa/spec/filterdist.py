import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
from pymc import intX
from pymc.distributions.dist_math import check_parameters
from pymc.distributions.shape_utils import get_support_shape_1d
from pymc_extras.statespace.filters.distributions import make_signature, MvNormalSVD, LinearGaussianStateSpaceRV, _LinearGaussianStateSpace, KalmanFilterRV


def spec_make_signature(sequence_names):
    states = 's'
    obs = 'p'
    exog = 'r'
    time = 't'
    state_and_obs = 'n'
    matrix_to_shape = {'x0': (states,), 'P0': (states, states), 'c': (states,), 'd': (obs,), 'T': (states, states), 'Z': (obs, states), 'R': (states, exog), 'H': (obs, obs), 'Q': (exog, exog)}
    for matrix in sequence_names:
        base_shape = matrix_to_shape[matrix]
        matrix_to_shape[matrix] = (time, *base_shape)
    signature = ','.join(['(' + ','.join(shapes) + ')' for shapes in matrix_to_shape.values()])
    return f'{signature},[rng]->[rng],({time},{state_and_obs})'


def LinearGaussianStateSpaceRV__update(self, node):
    return {node.inputs[-1]: node.outputs[0]}


def _LinearGaussianStateSpace____new__(cls, name, a0, P0, c, d, T, Z, R, H, Q, steps=None, mode=None, sequence_names=None, append_x0=True, **kwargs):
    steps = get_support_shape_1d(support_shape=steps, shape=None, dims=None, observed=kwargs.get('observed', None), support_shape_offset=0)
    return super().__new__(cls, name, a0, P0, c, d, T, Z, R, H, Q, steps=steps, mode=mode, sequence_names=sequence_names, append_x0=append_x0, **kwargs)


def _LinearGaussianStateSpace__dist(cls, a0, P0, c, d, T, Z, R, H, Q, steps=None, mode=None, sequence_names=None, append_x0=True, **kwargs):
    steps = get_support_shape_1d(support_shape=steps, shape=kwargs.get('shape', None), support_shape_offset=0)
    if steps is None:
        raise ValueError()
    steps = pt.as_tensor_variable(intX(steps), ndim=0)
    return super().dist([a0, P0, c, d, T, Z, R, H, Q, steps], mode=mode, sequence_names=sequence_names, append_x0=append_x0, **kwargs)


def _LinearGaussianStateSpace__rv_op(cls, a0, P0, c, d, T, Z, R, H, Q, steps, size=None, mode=None, sequence_names=None, append_x0=True):
    if sequence_names is None:
        sequence_names = []
    a0_, P0_, c_, d_, T_, Z_, R_, H_, Q_ = map(lambda x: x.type(), [a0, P0, c, d, T, Z, R, H, Q])
    c_.name = 'c'
    d_.name = 'd'
    T_.name = 'T'
    Z_.name = 'Z'
    R_.name = 'R'
    H_.name = 'H'
    Q_.name = 'Q'
    sequences = [x for x, name in zip([c_, d_, T_, Z_, R_, H_, Q_], ['c', 'd', 'T', 'Z', 'R', 'H', 'Q']) if name in sequence_names]
    non_sequences = [x for x in [c_, d_, T_, Z_, R_, H_, Q_] if x not in sequences]
    step_sequences = []
    for x in sequences:
        varies = x.ndim == {'d': 2, 'Z': 3, 'H': 3}.get(x.name)
        step_x = x[1:] if append_x0 and varies else x
        step_x.name = x.name
        step_sequences.append(step_x)
    rng = pytensor.shared(np.random.default_rng())

    def sort_args(args):
        sorted_args = []
        arg_names = [x.name.replace('[t]', '') for x in args]
        for name in ['c', 'd', 'T', 'Z', 'R', 'H', 'Q']:
            idx = arg_names.index(name)
            sorted_args.append(args[idx])
        return sorted_args
    n_seq = len(sequence_names)

    def innovation_fn(*args):
        *matrices, rng = args
        *_, H, Q = sort_args(matrices)
        middle_rng, a_innovation = MvNormalSVD.dist(mu=0, cov=Q, rng=rng).owner.outputs
        next_rng, y_innovation = MvNormalSVD.dist(mu=0, cov=H, rng=middle_rng).owner.outputs
        return ([a_innovation, y_innovation], {rng: next_rng})

    def step_fn(*args):
        a_innovation, y_innovation, *args = args
        seqs, state, non_seqs = (args[:n_seq], args[n_seq], args[n_seq + 1:])
        c, d, T, Z, R, H, Q = sort_args(seqs + non_seqs)
        k = T.shape[0]
        a = state[:k]
        a_mu = c + T @ a
        a_next = a_mu + R @ a_innovation
        y_mu = d + Z @ a_next
        y_next = y_mu + y_innovation
        next_state = pt.concatenate([a_next, y_next], axis=0)
        return next_state
    (a_innovations, y_innovations), updates = pytensor.scan(innovation_fn, sequences=None if len(step_sequences) == 0 else step_sequences, non_sequences=[*non_sequences, rng], n_steps=steps, mode=mode, strict=True)
    innovation_rng, = tuple(updates.values())
    Z_init = Z_ if Z_ in non_sequences else Z_[0]
    H_init = H_ if H_ in non_sequences else H_[0]
    d_init = d_ if d_ in non_sequences else d_[0]
    middle_rng, init_x_ = MvNormalSVD.dist(a0_, P0_, rng=innovation_rng).owner.outputs
    ss_rng, init_y_ = MvNormalSVD.dist(d_init + Z_init @ init_x_, H_init, rng=middle_rng).owner.outputs
    init_dist_ = pt.concatenate([init_x_, init_y_], axis=0)
    statespace, _ = pytensor.scan(step_fn, outputs_info=[init_dist_], sequences=[a_innovations, y_innovations, *step_sequences], non_sequences=non_sequences, n_steps=steps, mode=mode, strict=True)
    if append_x0:
        statespace_ = pt.concatenate([init_dist_[None], statespace], axis=0)
        statespace_ = pt.specify_shape(statespace_, (steps + 1, None))
    else:
        statespace_ = statespace
        statespace_ = pt.specify_shape(statespace_, (steps, None))
    linear_gaussian_ss_op = LinearGaussianStateSpaceRV(inputs=[a0_, P0_, c_, d_, T_, Z_, R_, H_, Q_, steps, rng], outputs=[ss_rng, statespace_], extended_signature=make_signature(sequence_names))
    linear_gaussian_ss = linear_gaussian_ss_op(a0, P0, c, d, T, Z, R, H, Q, steps, rng)
    return linear_gaussian_ss


def LinearGaussianStateSpace____new__(cls, name, a0, P0, c, d, T, Z, R, H, Q, *, steps, k_endog=None, sequence_names=None, mode=None, append_x0=True, **kwargs):
    dims = kwargs.pop('dims', None)
    latent_dims = None
    obs_dims = None
    if dims is not None:
        if len(dims) != 3:
            raise ValueError()
        time_dim, state_dim, obs_dim = dims
        latent_dims = [time_dim, state_dim]
        obs_dims = [time_dim, obs_dim]
    latent_obs_combined = _LinearGaussianStateSpace(f'{name}_combined', a0, P0, c, d, T, Z, R, H, Q, steps=steps, mode=mode, sequence_names=sequence_names, append_x0=append_x0, **kwargs)
    latent_obs_combined = pt.specify_shape(latent_obs_combined, (steps + int(append_x0), None))
    if k_endog is None:
        k_endog = cls._get_k_endog(H)
    latent_slice = slice(None, -k_endog)
    obs_slice = slice(-k_endog, None)
    latent_states = latent_obs_combined[..., latent_slice]
    obs_states = latent_obs_combined[..., obs_slice]
    latent_states = pm.Deterministic(f'{name}_latent', latent_states, dims=latent_dims)
    obs_states = pm.Deterministic(f'{name}_observed', obs_states, dims=obs_dims)
    return (latent_states, obs_states)


def LinearGaussianStateSpace__dist(cls, a0, P0, c, d, T, Z, R, H, Q, *, steps=None, **kwargs):
    latent_obs_combined = _LinearGaussianStateSpace.dist(a0, P0, c, d, T, Z, R, H, Q, steps=steps, **kwargs)
    k_states = T.type.shape[-1]
    latent_states = latent_obs_combined[..., :k_states]
    obs_states = latent_obs_combined[..., k_states:]
    return (latent_states, obs_states)


def LinearGaussianStateSpace___get_k_states(cls, T):
    k_states = T.type.shape[-1]
    if k_states is None:
        raise ValueError()
    return k_states


def LinearGaussianStateSpace___get_k_endog(cls, H):
    k_endog = H.type.shape[-1]
    if k_endog is None:
        raise ValueError()
    return k_endog


def KalmanFilterRV__update(self, node):
    return {node.inputs[-1]: node.outputs[0]}


def SequenceMvNormal____new__(cls, *args, **kwargs):
    return super().__new__(cls, *args, **kwargs)


def SequenceMvNormal__dist(cls, mus, covs, logp, **kwargs):
    return super().dist([mus, covs, logp], **kwargs)


def SequenceMvNormal__rv_op(cls, mus, covs, logp, size=None):
    if mus.ndim > 2:
        mus = pt.moveaxis(mus, -2, 0)
    if covs.ndim > 3:
        covs = pt.moveaxis(covs, -3, 0)
    mus_, covs_ = (mus.type(), covs.type())
    logp_ = logp.type()
    rng = pytensor.shared(np.random.default_rng())

    def step(mu, cov, rng):
        new_rng, mvn = MvNormalSVD.dist(mu=mu, cov=cov, rng=rng).owner.outputs
        return (mvn, {rng: new_rng})
    mvn_seq, updates = pytensor.scan(step, sequences=[mus_, covs_], non_sequences=[rng], strict=True, n_steps=mus_.shape[0])
    mvn_seq = pt.specify_shape(mvn_seq, mus.type.shape)
    if mvn_seq.ndim > 2:
        mvn_seq = pt.moveaxis(mvn_seq, 0, -2)
    seq_mvn_rng, = tuple(updates.values())
    mvn_seq_op = KalmanFilterRV(inputs=[mus_, covs_, logp_, rng], outputs=[seq_mvn_rng, mvn_seq], ndim_supp=2)
    mvn_seq = mvn_seq_op(mus, covs, logp, rng)
    return mvn_seq


def spec_sequence_mvnormal_logp(op, values, mus, covs, logp, rng, **kwargs):
    return check_parameters(logp, pt.eq(values[0].shape[0], mus.shape[0]), pt.eq(covs.shape[0], mus.shape[0]), msg='Observed data and parameters must have the same number of timesteps (dimension 0)')
