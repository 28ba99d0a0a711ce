import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
from pymc.distributions.dist_math import check_parameters
from pymc.distributions.distribution import SymbolicRandomVariable, support_point
from pymc.distributions.shape_utils import change_dist_size, get_support_shape_1d
from pymc.logprob.basic import logp
from pymc.pytensorf import constant_fold, intX
from pymc.step_methods.arraystep import ArrayStep
from pymc.step_methods.compound import Competence
from pymc.util import check_dist_not_registered, get_value_vars_from_user_vars
from pytensor import Mode
from pytensor.tensor import TensorVariable
from pytensor.tensor.random.op import RandomVariable
from pymc_extras.distributions.timeseries import _make_outputs_info, DiscreteMarkovChainRV, DiscreteMarkovChain


def spec__make_outputs_info(n_lags, init_dist):
    if n_lags > 1:
        return [{'initial': init_dist, 'taps': list(range(-n_lags, 0))}]
    else:
        return [init_dist[0]]


def DiscreteMarkovChainRV____init__(self, *args, n_lags, **kwargs):
    self.n_lags = n_lags
    super().__init__(*args, **kwargs)


def DiscreteMarkovChainRV__update(self, node):
    return {node.inputs[-1]: node.outputs[0]}


def DiscreteMarkovChain____new__(cls, *args, steps=None, n_lags=1, **kwargs):
    steps = get_support_shape_1d(support_shape=steps, shape=None, dims=kwargs.get('dims', None), observed=kwargs.get('observed', None), support_shape_offset=n_lags)
    return super().__new__(cls, *args, steps=steps, n_lags=n_lags, **kwargs)


def DiscreteMarkovChain__dist(cls, P=None, logit_P=None, steps=None, init_dist=None, n_lags=1, **kwargs):
    steps = get_support_shape_1d(support_shape=steps, shape=kwargs.get('shape', None), support_shape_offset=n_lags)
    if steps is None:
        raise ValueError()
    if P is None and logit_P is None:
        raise ValueError()
    if P is not None and logit_P is not None:
        raise ValueError()
    if logit_P is not None:
        P = pm.math.softmax(logit_P, axis=-1)
    P = pt.as_tensor_variable(P)
    steps = pt.as_tensor_variable(intX(steps))
    if init_dist is not None:
        if not isinstance(init_dist, TensorVariable) or not isinstance(init_dist.owner.op, RandomVariable | SymbolicRandomVariable):
            raise ValueError()
        check_dist_not_registered(init_dist)
        if init_dist.owner.op.ndim_supp > 1:
            raise ValueError()
    else:
        k = P.shape[-1]
        init_dist = pm.Categorical.dist(p=pt.full((k,), 1 / k))
    return super().dist([P, steps, init_dist], n_lags=n_lags, **kwargs)


def DiscreteMarkovChain__rv_op(cls, P, steps, init_dist, n_lags, size=None):
    if size is not None:
        batch_size = size
    else:
        batch_size = pt.broadcast_shape(P[tuple([...] + [0] * (n_lags + 1))], pt.atleast_1d(init_dist)[..., 0])
    init_dist = change_dist_size(init_dist, (n_lags, *batch_size))
    init_dist_ = init_dist.type()
    P_ = P.type()
    steps_ = steps.type()
    state_rng = pytensor.shared(np.random.default_rng())

    def transition(*args):
        *states, transition_probs, old_rng = args
        p = transition_probs[tuple(states)]
        next_rng, next_state = pm.Categorical.dist(p=p, rng=old_rng).owner.outputs
        return (next_state, {old_rng: next_rng})
    markov_chain, state_updates = pytensor.scan(transition, non_sequences=[P_, state_rng], outputs_info=_make_outputs_info(n_lags, init_dist_), n_steps=steps_, strict=True)
    state_next_rng, = tuple(state_updates.values())
    discrete_mc_ = pt.moveaxis(pt.concatenate([init_dist_, markov_chain], axis=0), 0, -1)
    discrete_mc_op = DiscreteMarkovChainRV(inputs=[P_, steps_, init_dist_, state_rng], outputs=[state_next_rng, discrete_mc_], ndim_supp=1, n_lags=n_lags)
    discrete_mc = discrete_mc_op(P, steps, init_dist, state_rng)
    return discrete_mc


def spec_change_mc_size(op, dist, new_size, expand=False):
    if expand:
        old_size = dist.shape[:-1]
        new_size = tuple(new_size) + tuple(old_size)
    return DiscreteMarkovChain.rv_op(*dist.owner.inputs[:-1], size=new_size, n_lags=op.n_lags)


def spec_discrete_mc_moment(op, rv, P, steps, init_dist, state_rng):
    init_dist_moment = support_point(init_dist)
    n_lags = op.n_lags

    def greedy_transition(*args):
        *states, transition_probs, old_rng = args
        p = transition_probs[tuple(states)]
        return pt.argmax(p, axis=-1)
    chain_moment, moment_updates = pytensor.scan(greedy_transition, non_sequences=[P, state_rng], outputs_info=_make_outputs_info(n_lags, init_dist_moment), n_steps=steps, strict=True)
    return pt.moveaxis(pt.concatenate([init_dist_moment, chain_moment]), 0, -1)


def spec_discrete_mc_logp(op, values, P, steps, init_dist, state_rng, **kwargs):
    value = values[0]
    n_lags = op.n_lags
    indexes = [value[..., i:-(n_lags - i) if n_lags != i else None] for i in range(n_lags + 1)]
    mc_logprob = logp(init_dist, pt.moveaxis(value[..., :n_lags], -1, 0)).sum(axis=0)
    mc_logprob += pt.log(P[tuple(indexes)]).sum(axis=-1)
    [init_dist_leading_dim] = constant_fold([pt.atleast_1d(init_dist).shape[0]], raise_not_constant=False)
    return check_parameters(mc_logprob, pt.all(pt.eq(P.shape[-(n_lags + 1):], P.shape[-1])), pt.all(pt.allclose(P.sum(axis=-1), 1.0)), pt.eq(init_dist_leading_dim, n_lags), msg='Last (n_lags + 1) dimensions of P must be square, P must sum to 1 along the last axis, First dimension of init_dist must be n_lags')


def DiscreteMarkovChainGibbsMetropolis____init__(self, vars, proposal='uniform', order='random', model=None, initial_point=None, compile_kwargs=None, **kwargs):
    model = pm.modelcontext(model)
    vars = get_value_vars_from_user_vars(vars, model)
    if initial_point is None:
        initial_point = model.initial_point()
    dimcats = []
    for v in vars:
        v_init_val = initial_point[v.name]
        rv_var = model.values_to_rvs[v]
        rv_op = rv_var.owner.op
        if not isinstance(rv_op, DiscreteMarkovChainRV):
            raise TypeError()
        k_graph = rv_var.owner.inputs[0].shape[-1]
        k_graph, = model.replace_rvs_by_values((k_graph,))
        k = model.compile_fn(k_graph, inputs=model.value_vars, on_unused_input='ignore', mode=Mode(linker='py', optimizer=None))(initial_point)
        start = len(dimcats)
        dimcats += [(dim, k) for dim in range(start, start + v_init_val.size)]
    if order == 'random':
        self.shuffle_dims = True
        self.dimcats = dimcats
    else:
        if sorted(order) != list(range(len(dimcats))):
            raise ValueError()
        self.shuffle_dims = False
        self.dimcats = [dimcats[j] for j in order]
    if proposal == 'uniform':
        self.astep = self.astep_unif
    elif proposal == 'proportional':
        self.astep = self.astep_prop
    else:
        raise ValueError()
    self.tune = True
    if compile_kwargs is None:
        compile_kwargs = {}
    ArrayStep.__init__(self, vars, [model.compile_logp(**compile_kwargs)], **kwargs)


def DiscreteMarkovChainGibbsMetropolis__competence(var):
    if isinstance(var.owner.op, DiscreteMarkovChainRV):
        return Competence.IDEAL
    return Competence.INCOMPATIBLE
