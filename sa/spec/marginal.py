"""Definition of the marginal log-probabilities: p(y) = sum_x p(x) * prod_j p(y_j | x)."""
from collections.abc import Sequence

import itertools
from itertools import zip_longest

import numpy as np
import pymc
import pytensor.tensor as pt
from arviz import dict_to_dataset
from pymc import SymbolicRandomVariable
from pymc.backends.arviz import coords_and_dims_for_inferencedata, dataset_to_point_list
from pymc.pytensorf import compile_pymc
from pymc.util import _get_seeds_per_chain
from pytensor.graph import FunctionGraph, graph_inputs
from pytensor.graph.basic import io_toposort
from pytensor.tensor import TensorType
from pytensor.tensor.blockwise import Blockwise
from pytensor.tensor.elemwise import CAReduce, DimShuffle, Elemwise
from pytensor.tensor.random.op import RandomVariable
from pytensor.tensor.rewriting.subtensor import is_full_slice
from pytensor.tensor.special import log_softmax
from pytensor.tensor.subtensor import AdvancedSubtensor, Subtensor, get_idx_list
from pytensor.tensor.type_other import NoneTypeT

from pymc.distributions import Bernoulli, Categorical, DiscreteUniform
from pymc.logprob.basic import conditional_logp, logp
from pymc.pytensorf import constant_fold
from pytensor.compile import SharedVariable
from pytensor.compile.mode import Mode
from pytensor.graph import Constant, ancestors
from pytensor.tensor.shape import Shape
from pytensor.graph import vectorize_graph
from pytensor.graph.replace import clone_replace, graph_replace
from pytensor.scan import map as scan_map
from pytensor.scan import scan

from pymc_extras.distributions import DiscreteMarkovChain
from pymc.util import treedict

from pymc_extras.model.marginal.distributions import DUMMY_ZERO, MarginalRV, align_logp_dims, inline_ofg_outputs
from pymc_extras.model.marginal.distributions import MarginalDiscreteMarkovChainRV, MarginalFiniteDiscreteRV
from pymc_extras.model.marginal.distributions import get_domain_of_finite_discrete_rv, reduce_batch_dependent_logps
from pymc_extras.model.marginal.graph_analysis import get_support_axes as repo_support_axes
from pymc_extras.model.marginal.graph_analysis import (
    _advanced_indexing_axis_and_ndim,
    _broadcast_dims,
    _subgraph_batch_dim_connection,
    find_conditional_dependent_rvs,
    find_conditional_input_rvs,
    is_conditional_dependent,
    static_shape_ancestors,
    subgraph_batch_dim_connection,
)
from pymc_extras.model.marginal.marginal_model import MarginalModel, collect_shared_vars, replace_finite_discrete_marginal_subgraph


def domain(rv):
    """Every value the variable can take, once."""
    params = rv.owner.op.dist_params(rv.owner)
    if isinstance(rv.owner.op, Bernoulli):
        return (0, 1)
    if isinstance(rv.owner.op, Categorical):
        return tuple(range(constant_fold([params[0].shape[-1]])[0]))
    if isinstance(rv.owner.op, DiscreteUniform):
        bounds = constant_fold(params)
        return tuple(np.arange(bounds[0], bounds[1] + 1))
    if isinstance(rv.owner.op, DiscreteMarkovChain):
        return tuple(range(pt.get_vector_length(params[0][-1])))
    raise NotImplementedError()


def support_axes(op):
    return op.support_axes[0] if isinstance(op, MarginalRV) else tuple(range(-op.ndim_supp, 0))


def align(dims, logp):
    """Put the axes of a log-probability in the order of the first dependent's axes."""
    return logp.transpose(*[d for d in dims if d is not None])


def reduced(dims, op, x):
    """Sum the axes that do not belong to the marginalised variable, except those the logp already collapsed."""
    collapsed = support_axes(op)
    extra = [-i for i, d in enumerate(reversed(dims), start=1) if d is None and -i not in collapsed]
    if x.type.ndim > 0:
        order = [d for d in dims if d is not None]
        x = x.sum(axis=extra).transpose(*np.argsort(order))
    return x


def total(connections, ops, logps):
    """Every dependent variable contributes exactly once."""
    return pt.add(*[reduced(dims, op, x) for dims, op, x in zip(connections, ops, logps)])


def inline(op, inputs):
    return clone_replace(op.inner_outputs, replace=tuple(zip(op.inner_inputs, inputs)))


def finite_logp(op, values, *inputs, **kwargs):
    inner = inline_ofg_outputs(op, inputs)
    x, dependents = inner[0], inner[1:]
    vv = x.clone()
    logps = conditional_logp(rv_values={**dict(zip(dependents, values)), x: vv}, **kwargs)
    joint = reduce_batch_dependent_logps(op.dims_connections, [rv.owner.op for rv in dependents], [logps[v] for v in values]) + logps[vv]
    dom = get_domain_of_finite_discrete_rv(x)
    shape = constant_fold(tuple(x.shape), raise_not_constant=False)
    every_value = pt.moveaxis(pt.full((*shape, len(dom)), dom, dtype=x.dtype), -1, 0)
    try:
        joints = vectorize_graph(joint, replace={vv: every_value})
    except Exception:

        def at(value, *rest):
            return graph_replace(joint, replace={vv: value})

        joints, _ = scan_map(
            fn=at, sequences=every_value, non_sequences=[*values, *inputs],
            mode=Mode().including("local_remove_check_parameter"),
        )
    first = align_logp_dims(op.dims_connections[0], pt.logsumexp(joints, axis=0))
    return first, *((DUMMY_ZERO,) * (len(values) - 1))


def hmm_logp(op, values, *inputs, **kwargs):
    """Forward algorithm in logs: alpha_t(j) = e_t(j) + log sum_i exp(alpha_{t-1}(i) + log P[i, j])."""
    inner = inline_ofg_outputs(op, inputs)
    chain, dependents = inner[0], inner[1:]
    P, n_steps, init_dist, rng = chain.owner.inputs
    states = pt.arange(P.shape[-1], dtype="int32")
    chain_value = chain.clone()
    dependents = clone_replace(dependents, {chain: chain_value})
    logps = conditional_logp(dict(zip(dependents, values)))
    emission = reduce_batch_dependent_logps(op.dims_connections, [rv.owner.op for rv in dependents], [logps[v] for v in values])
    shape = constant_fold(tuple(chain.shape))
    every_state = pt.moveaxis(pt.full((*shape, states.size), states), -1, 0)
    emissions = vectorize_graph(emission, {chain_value: every_state})
    init_value = init_dist.type()
    log_init = vectorize_graph(logp(init_dist, init_value), {init_value: every_state[:, None, ..., 0]}).squeeze(1)
    log_P = pt.shape_padright(pt.log(P), (len(shape) - 1) - (P.type.ndim - 2))

    def forward(e, alpha, log_P):
        return e + pt.logsumexp(alpha[:, None] + log_P, axis=0)

    alphas, _ = scan(
        forward, sequences=pt.moveaxis(emissions[..., 1:], -1, 0), outputs_info=[log_init + emissions[..., 0]],
        non_sequences=[log_P],
    )
    dims = list(op.dims_connections[0])
    dims.remove(chain.type.ndim - 1)
    return align_logp_dims(dims, pt.logsumexp(alphas[-1], axis=0)), *((DUMMY_ZERO,) * (len(values) - 1))


def recovered(joint_logp, value, rv, domain_values):
    """Conditional log-probability of every value of one marginalised variable given everything else."""
    shape = constant_fold(tuple(rv.shape), raise_not_constant=False)
    every_value = pt.moveaxis(pt.full((*shape, len(domain_values)), domain_values, dtype=rv.dtype), -1, 0)
    return pt.moveaxis(vectorize_graph(joint_logp, replace={value: every_value}), 0, -1)


# ------------------------------------------------------------------ C04: copies
def from_model(model):
    """Every model variable is cloned once; every table of the new model is the same-named table of the source with
    variables replaced by their clones, in a container of its own."""
    new = MarginalModel(coords=model.coords)
    marginalized = model.marginalized_rvs if isinstance(model, MarginalModel) else []
    dims = model._marginalized_named_vars_to_dims.copy() if isinstance(model, MarginalModel) else {}
    rvs = [*(model.basic_RVs + model.potentials + model.deterministics + marginalized)]
    everything = rvs + [v for v in model.named_vars.values() if v not in rvs]
    clones = dict(zip(everything, clone_replace(everything)))
    new.vars_to_clone = clones
    new.named_vars = treedict({name: clones[v] for name, v in model.named_vars.items()})
    new.named_vars_to_dims = model.named_vars_to_dims.copy()
    new.values_to_rvs = {value: clones[rv] for value, rv in model.values_to_rvs.items()}
    new.rvs_to_values = {clones[rv]: value for rv, value in model.rvs_to_values.items()}
    new.rvs_to_transforms = {clones[rv]: tr for rv, tr in model.rvs_to_transforms.items()}
    new.rvs_to_initial_values = {clones[rv]: iv for rv, iv in model.rvs_to_initial_values.items()}
    new.free_RVs = [clones[rv] for rv in model.free_RVs]
    new.observed_RVs = [clones[rv] for rv in model.observed_RVs]
    new.potentials = [clones[p] for p in model.potentials]
    new.deterministics = [clones[d] for d in model.deterministics]
    new.marginalized_rvs = [clones[rv] for rv in marginalized]
    new._marginalized_named_vars_to_dims = dims
    return new


def to_transformed(self):
    """Values of the free variables mapped to the value variables of the logp (name and forward transform)."""
    names, outs = [], []
    for rv in self.free_RVs:
        tr = self.rvs_to_transforms.get(rv)
        names.append(rv.name if tr is None else self.rvs_to_values[rv].name)
        outs.append(rv if tr is None else tr.forward(rv, *rv.owner.inputs))
    return self.compile_fn(inputs=self.free_RVs, outs=outs), names


def logp_method(self, vars=None, **kwargs):
    m = self.clone()._marginalize()
    if vars is None:
        wanted = None
    elif isinstance(vars, Sequence):
        wanted = [m[v.name] for v in vars]
    else:
        wanted = [m[v.name] for v in (vars,)]
    return m._logp(vars=wanted, **kwargs)


def delete_rv_mappings(self, rv):
    assert rv in self.basic_RVs
    self.named_vars.pop(rv.name)
    if rv.name in self.named_vars_to_dims:
        self.named_vars_to_dims.pop(rv.name)
    self.values_to_rvs.pop(self.rvs_to_values.pop(rv))
    self.rvs_to_transforms.pop(rv)
    if rv in self.free_RVs:
        self.free_RVs.remove(rv)
        self.rvs_to_initial_values.pop(rv)
    else:
        self.observed_RVs.remove(rv)


def transfer_rv_mappings(self, old_rv, new_rv):
    assert old_rv in self.basic_RVs
    assert new_rv not in self.basic_RVs
    self.named_vars.pop(old_rv.name)
    new_rv.name = old_rv.name
    self.named_vars[new_rv.name] = new_rv
    if old_rv in self.named_vars_to_dims:
        self._RV_dims[new_rv] = self._RV_dims.pop(old_rv)
    value = self.rvs_to_values.pop(old_rv)
    self.rvs_to_values[new_rv] = value
    self.values_to_rvs[value] = new_rv
    self.rvs_to_transforms[new_rv] = self.rvs_to_transforms.pop(old_rv)
    if old_rv in self.free_RVs:
        at = self.free_RVs.index(old_rv)
        self.free_RVs.pop(at)
        self.free_RVs.insert(at, new_rv)
        self.rvs_to_initial_values[new_rv] = self.rvs_to_initial_values.pop(old_rv)
    elif old_rv in self.observed_RVs:
        at = self.observed_RVs.index(old_rv)
        self.observed_RVs.pop(at)
        self.observed_RVs.insert(at, new_rv)


def unmarginalize(self, rvs_to_unmarginalize):
    for rv in rvs_to_unmarginalize:
        if isinstance(rv, str):
            rv = self[rv]
        self.marginalized_rvs.remove(rv)
        dims = None
        if rv.name in self._marginalized_named_vars_to_dims:
            dims = self._marginalized_named_vars_to_dims.pop(rv.name)
        self.register_rv(rv, name=rv.name, dims=dims)


def marginalize_method(self, rvs_to_marginalize):
    if not isinstance(rvs_to_marginalize, Sequence):
        rvs_to_marginalize = (rvs_to_marginalize,)
    for rv in [self[var] if isinstance(var, str) else var for var in rvs_to_marginalize]:
        op = rv.owner.op
        if rv not in self.free_RVs:
            raise ValueError()
        if isinstance(op, DiscreteMarkovChain) and op.n_lags > 1:
            raise NotImplementedError()
        if isinstance(op, DiscreteMarkovChain) and rv.owner.inputs[0].type.ndim > 2:
            raise NotImplementedError()
        if not isinstance(op, DiscreteMarkovChain | Bernoulli | Categorical | DiscreteUniform):
            raise NotImplementedError()
        if rv.name in self.named_vars_to_dims:
            self._marginalized_named_vars_to_dims[rv.name] = self.named_vars_to_dims[rv.name]
        self._delete_rv_mappings(rv)
        self.marginalized_rvs.append(rv)
    self.clone()._marginalize(user_warnings=True)


def marginalize_function(model, rvs_to_marginalize):
    if not isinstance(rvs_to_marginalize, tuple | list):
        rvs_to_marginalize = (rvs_to_marginalize,)
    m = MarginalModel.from_model(model)
    m.marginalize([rv if isinstance(rv, str) else rv.name for rv in rvs_to_marginalize])
    return m


# ------------------------------------------------------------------ C05: what can be marginalised
def conditional_inputs(output_rvs, all_rvs):
    """The random variables and free inputs an output is computed from without passing through another variable."""
    stops = [rv for rv in all_rvs if rv not in output_rvs]
    stops = stops + static_shape_ancestors(tuple(all_rvs) + tuple(output_rvs))
    return [
        v for v in ancestors(output_rvs, blockers=stops)
        if v in stops or (v.owner is None and not isinstance(v, Constant | SharedVariable))
    ]


def static_shapes(vars):
    return [
        v for v in ancestors(vars)
        if v.owner and isinstance(v.owner.op, Shape) and None not in v.owner.inputs[0].type.shape
    ]


def depends(dependent_rv, dependable_rv, all_rvs):
    return dependable_rv in find_conditional_input_rvs((dependent_rv,), all_rvs)


def dependents(dependable_rv, all_rvs):
    return [rv for rv in all_rvs if rv is not dependable_rv and is_conditional_dependent(rv, dependable_rv, all_rvs)]


def subgraph(fgraph, rv_to_marginalize, all_rvs):
    dependent = find_conditional_dependent_rvs(rv_to_marginalize, all_rvs)
    if len(dependent) == 0:
        raise ValueError()
    parents = find_conditional_input_rvs([rv_to_marginalize], all_rvs)
    others = [v for v in find_conditional_input_rvs(dependent, all_rvs) if v is not rv_to_marginalize]
    try:
        connections = subgraph_batch_dim_connection(rv_to_marginalize, dependent)
    except (ValueError, NotImplementedError) as e:
        raise NotImplementedError() from e
    given = list(set((*parents, *others)))
    outputs = [rv_to_marginalize, *dependent]
    inputs = given + collect_shared_vars(outputs, blockers=given)
    if isinstance(rv_to_marginalize.owner.op, DiscreteMarkovChain):
        op = MarginalDiscreteMarkovChainRV(inputs=inputs, outputs=outputs, dims_connections=connections)
    else:
        op = MarginalFiniteDiscreteRV(inputs=inputs, outputs=outputs, dims_connections=connections)
    new = op(*inputs)
    fgraph.replace_all(tuple(zip(outputs, new)))
    return outputs, new


def collapsed_axes(self):
    """Axes of each dependent variable that its joint logp has already summed over."""
    rv = self.inner_outputs[0]
    n_batch = rv.type.ndim - rv.owner.op.ndim_supp
    return tuple(
        tuple(-i for i, d in enumerate(reversed(dims), start=1) if d is None or d >= n_batch)
        for dims in self.dims_connections
    )


def broadcast(inputs_dims):
    ndim = max((len(d) for d in inputs_dims), default=0)
    padded = [(None,) * (ndim - len(d)) + d for d in inputs_dims]
    out = []
    for column in zip(*padded):
        known = None
        for d in column:
            if d is None:
                continue
            if known is not None and known != d:
                raise ValueError()
            known = d
        out.append(known)
    found = [d for d in out if d is not None]
    if len(found) > len(set(found)):
        raise ValueError()
    return tuple(out)


def connections(input_var, output_vars):
    dims = _subgraph_batch_dim_connection({input_var: tuple(range(input_var.type.ndim))}, [input_var], output_vars)
    out = []
    for v in output_vars:
        d = dims.get(v, (None,) * v.type.ndim)
        assert len(d) == v.type.ndim
        out.append(d)
    return out


def recover_marginals(self, idata, var_names=None, return_samples=True, extend_inferencedata=True, random_seed=None):
    """p(x = k | everything else) ∝ exp(joint logp with x = k), one normalised row per posterior draw."""
    if var_names is None:
        var_names = [var.name for var in self.marginalized_rvs]
    names = [var if isinstance(var, str) else var.name for var in var_names]
    targets = [v for v in self.marginalized_rvs if v.name in names]
    if [n for n in names if n not in [v.name for v in targets]]:
        raise ValueError()
    if return_samples and random_seed is not None:
        seeds = _get_seeds_per_chain(random_seed, len(targets))
    else:
        seeds = [None] * len(targets)
    values = idata.posterior[[rv.name for rv in self.free_RVs if rv not in self.marginalized_rvs]]
    points, stacked = dataset_to_point_list(values, ("chain", "draw"))
    forward, forward_names = self._to_transformed()

    def on_logp_scale(point):
        return dict(zip(forward_names, forward(point)))

    points = [on_logp_scale(vs) for vs in points]
    lead = tuple(len(coord) for coord in stacked.values())
    out, out_dims = {}, {}
    for seed, rv in zip(seeds, targets):
        if not isinstance(rv.owner.op, Bernoulli | Categorical | DiscreteUniform):
            raise NotImplementedError()
        m = self.clone()
        rv = m.vars_to_clone[rv]
        m.unmarginalize([rv])
        dependents = find_conditional_dependent_rvs(rv, m.basic_RVs)
        own, *theirs = m.logp(vars=[rv, *dependents], sum=False)
        joint = own + reduce_batch_dependent_logps(
            subgraph_batch_dim_connection(rv, dependents), [d.owner.op for d in dependents], theirs
        )
        value = m.rvs_to_values[rv]
        others = [v for v in m.value_vars if v is not value]
        dom = get_domain_of_finite_discrete_rv(rv)
        shape = constant_fold(tuple(rv.shape), raise_not_constant=False)
        every_value = pt.moveaxis(pt.full((*shape, len(dom)), dom, dtype=rv.dtype), -1, 0)
        logit = pt.moveaxis(vectorize_graph(joint, replace={value: every_value}), 0, -1)
        normalized = log_softmax(logit, axis=-1)
        if return_samples:
            draws = pymc.Categorical.dist(logit_p=logit)
            if isinstance(rv.owner.op, DiscreteUniform):
                draws += dom[0]
            outputs = [normalized, draws]
        else:
            outputs = normalized
        fn = compile_pymc(inputs=others, outputs=outputs, on_unused_input="ignore", random_seed=seed)
        results = [fn(**vs) for vs in points]
        if return_samples:
            lps, samples = zip(*results)
            lps = np.array(lps)
            samples = np.array(samples)
            out[rv.name] = samples.reshape(lead + samples.shape[1:])
        else:
            lps = np.array(results)
        out["lp_" + rv.name] = lps.reshape(lead + lps.shape[1:])
        if rv.name in m.named_vars_to_dims:
            out_dims[rv.name] = list(m.named_vars_to_dims[rv.name])
            out_dims["lp_" + rv.name] = out_dims[rv.name] + ["lp_" + rv.name + "_dim"]
    coords, dims = coords_and_dims_for_inferencedata(self)
    dims.update(out_dims)
    ds = dict_to_dataset(out, library=pymc, dims=dims, coords=coords, default_dims=["chain", "draw"], skip_event_dims=True)
    if extend_inferencedata:
        idata.posterior = idata.posterior.assign(ds)
        return idata
    return ds


def marginalize_all(self, user_warnings=False):
    """Innermost variable first: each marginalised variable and its dependents become one joint variable."""
    fg = FunctionGraph(outputs=self.basic_RVs + self.marginalized_rvs, clone=False)
    order = fg.toposort()
    left = self.marginalized_rvs
    for rv in sorted(self.marginalized_rvs, key=lambda rv: order.index(rv.owner), reverse=True):
        for det in self.deterministics:
            if is_conditional_dependent(det, rv, self.basic_RVs + left):
                raise NotImplementedError()
        for pot in self.potentials:
            if is_conditional_dependent(pot, rv, self.basic_RVs + left):
                raise NotImplementedError()
        olds, news = replace_finite_discrete_marginal_subgraph(fg, rv, self.basic_RVs + left)
        left.remove(rv)
        for old, new in zip(olds, news):
            new.name = old.name
            if old in self.marginalized_rvs:
                at = self.marginalized_rvs.index(old)
                self.marginalized_rvs.pop(at)
                self.marginalized_rvs.insert(at, new)
            if old in self.basic_RVs:
                self._transfer_rv_mappings(old, new)
    return self


def get_support_axes(op):
    return op.support_axes if isinstance(op, MarginalRV) else (tuple(range(-op.ndim_supp, 0)),)


def advanced_indexing(idxs):
    """Where numpy puts the axes of the advanced indices: at the first one, or in front when they are not adjacent."""
    axis = None
    gap = False
    for i, idx in enumerate(idxs):
        if isinstance(idx.type, TensorType):
            if gap:
                axis = 0
                break
            elif axis is None:
                axis = i
        elif axis is not None:
            gap = True
    return axis, max(idx.type.ndim for idx in idxs if isinstance(idx.type, TensorType))


def dim_connection(var_dims, input_vars, output_vars):
    """Which axis of the marginalised variable every axis of every intermediate comes from; mixing is refused."""
    for node in io_toposort(input_vars, output_vars):
        ins = [var_dims.get(i, ((None,) * i.type.ndim) if hasattr(i.type, "ndim") else ()) for i in node.inputs]
        if all(d is None for ds in ins for d in ds):
            continue
        elif isinstance(node.op, DimShuffle):
            [ds] = ins
            var_dims[node.outputs[0]] = tuple(None if i == "x" else ds[i] for i in node.op.new_order)
        elif isinstance(node.op, MarginalRV) or (isinstance(node.op, SymbolicRandomVariable) and node.op.extended_signature is None):
            inner = _subgraph_batch_dim_connection(dict(zip(node.op.inner_inputs, ins)), node.op.inner_inputs, node.op.inner_outputs)
            axes = iter(repo_support_axes(node.op))
            if isinstance(node.op, MarginalRV):
                axes = itertools.chain(((),), axes)
            for out, inner_out in zip(node.outputs, node.op.inner_outputs):
                if not isinstance(out.type, TensorType):
                    continue
                core = next(axes)
                if inner_out in inner:
                    if any(d is not None for d in (inner[inner_out][a] for a in core)):
                        raise ValueError()
                    var_dims[out] = inner[inner_out]
        elif isinstance(node.op, Elemwise | Blockwise | RandomVariable | SymbolicRandomVariable):
            if isinstance(node.op, Elemwise):
                n = node.outputs[0].type.ndim
            else:
                n = node.op.batch_ndim(node)
            if isinstance(node.op, SymbolicRandomVariable):
                [_, _, param_idxs], _ = node.op.get_input_output_type_idxs(node.op.extended_signature)
                for i, core in zip(param_idxs, node.op.ndims_params):
                    ins[i] = (None,) * (n - (len(ins[i]) - core)) + ins[i]
            if any(d is not None for ds in ins for d in ds[n:]):
                raise ValueError()
            batch = _broadcast_dims(tuple(ds[:n] for ds in ins))
            for out in node.outputs:
                if isinstance(out.type, TensorType):
                    var_dims[out] = batch + (None,) * (out.type.ndim - n)
        elif isinstance(node.op, CAReduce):
            [ds] = ins
            axes = node.op.axis
            if isinstance(axes, int):
                axes = (axes,)
            elif axes is None:
                axes = tuple(range(node.inputs[0].type.ndim))
            if any(ds[a] is not None for a in axes):
                raise ValueError()
            var_dims[node.outputs[0]] = tuple([d for i, d in enumerate(ds) if i not in axes])
        elif isinstance(node.op, Subtensor):
            ds, *keys_dims = ins
            assert not any(d is None for d in keys_dims)
            keys = get_idx_list(node.inputs, node.op.idx_list)
            out = []
            for d, idx in zip_longest(ds, keys, fillvalue=slice(None)):
                if idx == slice(None):
                    out.append(d)
                elif d is not None:
                    raise ValueError()
                elif isinstance(idx, slice):
                    out.append(None)
            var_dims[node.outputs[0]] = tuple(out)
        elif isinstance(node.op, AdvancedSubtensor):
            _, *keys = node.inputs
            ds, *keys_dims = ins
            if any(isinstance(i.type, TensorType) and i.type.dtype == "bool" for i in keys):
                raise NotImplementedError()
            if any(d is not None for d in ds) and any(d is not None for kd in keys_dims for d in kd):
                raise NotImplementedError()
            axis, ndim = _advanced_indexing_axis_and_ndim(keys)
            if any(d is not None for d in ds):
                if any(isinstance(i.type, NoneTypeT) for i in keys):
                    raise NotImplementedError()
                rest = []
                for d, i in zip_longest(ds, keys, fillvalue=slice(None)):
                    if is_full_slice(i):
                        rest.append(d)
                    elif d is not None:
                        raise ValueError()
                    elif isinstance(i, slice):
                        rest.append(None)
                out = tuple(rest[:axis] + [None] * ndim + rest[axis:])
            else:
                out = (None,) * axis + _broadcast_dims(keys_dims) + (None,) * (node.outputs[0].type.ndim - axis - ndim)
            var_dims[node.outputs[0]] = out
        else:
            raise NotImplementedError()
    return var_dims


def clone(self):
    return self.from_model(self)


def shared_vars(outputs, blockers):
    return [i for i in graph_inputs(outputs, blockers=blockers) if isinstance(i, SharedVariable)]


def model_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.marginalized_rvs = []
    self._marginalized_named_vars_to_dims = {}


def rv_init(self, *args, dims_connections, **kwargs):
    self.dims_connections = dims_connections
    super().__init__(*args, **kwargs)


def plain_logp(self, *args, **kwargs):
    return super().logp(*args, **kwargs)
