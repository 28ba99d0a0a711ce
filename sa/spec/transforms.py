import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
import scipy.special
from pymc.distributions import SymbolicRandomVariable
from pymc.logprob.transforms import Transform
from pymc.model.fgraph import ModelFreeRV, fgraph_from_model, model_deterministic, model_free_rv, model_from_fgraph, model_named
from pymc.pytensorf import toposort_replace
from pytensor.tensor.random.op import RandomVariable
from pymc_extras.model.transforms.autoreparam import VIP, vip_reparam_node, _vip_reparam_node
from pymc import Model
from pymc_extras.utils.prior import ParamCfg, _arg_to_param_cfg, _parse_args, _flatten, _mean_chol, _mvn_prior_from_flat_info


def VIP__variational_parameters(self):
    return list(self._logit_lambda.values())


def VIP__truncate_lambda(self, **kwargs):
    lambdas = self.get_lambda()
    update = dict()
    for var, eps in kwargs.items():
        lam = lambdas[var]
        update[var] = np.piecewise(lam, [lam <= eps, lam >= 1 - eps], [0, 1, lambda x: x])
    self.set_lambda(**update)


def VIP__truncate_all_lambda(self, value):
    truncate = dict.fromkeys(self._logit_lambda.keys(), value)
    self.truncate_lambda(**truncate)


def VIP__get_lambda(self):
    return {name: scipy.special.expit(shared.get_value()) for name, shared in self._logit_lambda.items()}


def VIP__set_lambda(self, **kwargs):
    for key, value in kwargs.items():
        logit_lam = scipy.special.logit(value)
        shared = self._logit_lambda[key]
        fill = np.broadcast_to(logit_lam, shared.type.shape)
        shared.set_value(fill)


def VIP__set_all_lambda(self, value):
    config = dict.fromkeys(self._logit_lambda.keys(), value)
    self.set_lambda(**config)


def VIP__fit(self, *args, **kwargs):
    kwargs.setdefault('obj_optimizer', pm.adagrad_window(learning_rate=0.1))
    kwargs.setdefault('method', 'advi')
    return pm.fit(*args, more_obj_params=self.variational_parameters, **kwargs)


def spec_vip_reparam_node(op, node, name, dims, transform):
    if not isinstance(node.op, RandomVariable | SymbolicRandomVariable):
        raise TypeError()
    _, size, *_ = node.inputs
    eval_size = size.eval(mode='FAST_COMPILE')
    if eval_size is not None:
        rv_shape = tuple(eval_size)
    else:
        rv_shape = ()
    lam_name = f'{name}::lam_logit__'
    logit_lam_ = pytensor.shared(np.zeros(rv_shape), shape=rv_shape, name=lam_name)
    logit_lam = model_named(logit_lam_, *dims)
    lam = pt.sigmoid(logit_lam)
    return (_vip_reparam_node(op, node=node, name=name, dims=dims, transform=transform, lam=lam), logit_lam)


def spec__vip_reparam_node(op, node, name, dims, transform, lam):
    raise NotImplementedError


def spec__vip_reparam_node_for_Normal(op, node, name, dims, transform, lam):
    rng, size, loc, scale = node.inputs
    if transform is not None:
        raise NotImplementedError()
    vip_rv_ = pm.Normal.dist(lam * loc, scale ** lam, size=size, rng=rng)
    vip_rv_.name = f'{name}::tau_'
    vip_rv = model_free_rv(vip_rv_, vip_rv_.clone(), None, *dims)
    vip_rep_ = loc + scale ** (1 - lam) * (vip_rv - lam * loc)
    vip_rep_.name = name
    vip_rep = model_deterministic(vip_rep_, *dims)
    return vip_rep


def spec__vip_reparam_node_for_Exponential(op, node, name, dims, transform, lam):
    rng, size, scale = node.inputs
    scale_centered = scale ** lam
    scale_noncentered = scale ** (1 - lam)
    vip_rv_ = pm.Exponential.dist(scale=scale_centered, size=size, rng=rng)
    vip_rv_value_ = vip_rv_.clone()
    vip_rv_.name = f'{name}::tau_'
    if transform is not None:
        vip_rv_value_.name = f'{vip_rv_.name}_{transform.name}__'
    else:
        vip_rv_value_.name = vip_rv_.name
    vip_rv = model_free_rv(vip_rv_, vip_rv_value_, transform, *dims)
    vip_rep_ = scale_noncentered * vip_rv
    vip_rep_.name = name
    vip_rep = model_deterministic(vip_rep_, *dims)
    return vip_rep


def spec_vip_reparametrize(model, var_names):
    fmodel, memo = fgraph_from_model(model)
    lambda_names = []
    replacements = []
    for name in var_names:
        old = memo[model.named_vars[name]]
        if not isinstance(old.owner.op, ModelFreeRV):
            raise ValueError()
        rv, _, *dims = old.owner.inputs
        new, lam = vip_reparam_node(rv.owner.op, rv.owner, name=rv.name, dims=dims, transform=old.owner.op.transform)
        replacements.append((old, new))
        lambda_names.append(lam.name)
    toposort_replace(fmodel, replacements, reverse=True)
    reparam_model = model_from_fgraph(fmodel)
    model_lambdas = {var_name: reparam_model[lambda_name] for lambda_name, var_name in zip(lambda_names, var_names)}
    vip = VIP(model_lambdas)
    return (reparam_model, vip)


def spec_as_model(*model_args, **model_kwargs):
    model_coords = model_kwargs.pop('coords', {})

    def decorator(f):

        def make_model(*args, **kwargs):
            coords = model_coords | kwargs.pop('coords', {})
            with Model(*model_args, coords=coords, **model_kwargs) as m:
                f(*args, **kwargs)
            return m
        return make_model
    return decorator


def spec__arg_to_param_cfg(key, value=None):
    if value is None:
        cfg = ParamCfg(name=key, transform=None, dims=None)
    elif isinstance(value, tuple):
        cfg = ParamCfg(name=key, transform=None, dims=value)
    elif isinstance(value, str):
        cfg = ParamCfg(name=value, transform=None, dims=None)
    elif isinstance(value, Transform):
        cfg = ParamCfg(name=key, transform=value, dims=None)
    else:
        cfg = value.copy()
        cfg.setdefault('name', key)
        cfg.setdefault('transform', None)
        cfg.setdefault('dims', None)
    return cfg


def spec__parse_args(var_names, **kwargs):
    results = dict()
    for var in var_names:
        results[var] = _arg_to_param_cfg(var)
    for key, val in kwargs.items():
        results[key] = _arg_to_param_cfg(key, val)
    return results


def spec__flatten(idata, **kwargs):
    posterior = idata.posterior
    vars = list()
    info = list()
    begin = 0
    for key, cfg in kwargs.items():
        data = posterior[key].stack(__sample__=['chain', 'draw']).transpose('__sample__', ...).values
        if cfg['transform'] is not None:
            data = cfg['transform'].forward(data).eval()
        shape = data.shape[1:]
        data = data.reshape(data.shape[0], -1)
        end = begin + data.shape[1]
        vars.append(data)
        sinfo = dict(shape=shape, slice=slice(begin, end))
        info.append(dict(sinfo=sinfo, vinfo=cfg))
        begin = end
    return dict(data=np.concatenate(vars, axis=-1), info=info)


def spec__mean_chol(flat_array):
    mean = flat_array.mean(0)
    cov = np.cov(flat_array, rowvar=False)
    cov = np.atleast_2d(cov)
    chol = np.linalg.cholesky(cov)
    return (mean, chol)


def spec__mvn_prior_from_flat_info(name, flat_info):
    mean, chol = _mean_chol(flat_info['data'])
    base_dist = pm.Normal(name, np.zeros_like(mean))
    interim = mean + chol @ base_dist
    result = dict()
    for var_info in flat_info['info']:
        sinfo = var_info['sinfo']
        vinfo = var_info['vinfo']
        var = interim[sinfo['slice']].reshape(sinfo['shape'])
        if vinfo['transform'] is not None:
            var = vinfo['transform'].backward(var)
        var = pm.Deterministic(vinfo['name'], var, dims=vinfo['dims'])
        result[vinfo['name']] = var
    return result


def spec_prior_from_idata(idata, name='trace_prior_', *, var_names=(), **kwargs):
    param_cfg = _parse_args(var_names=var_names, **kwargs)
    if not param_cfg:
        return {}
    flat_info = _flatten(idata, **param_cfg)
    return _mvn_prior_from_flat_info(name, flat_info)
