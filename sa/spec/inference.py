from importlib.util import find_spec
from typing import cast
import jax
import numpy as np
import pymc as pm
import pytensor
import pytensor.tensor as pt
from better_optimize import minimize
from better_optimize.constants import MINIMIZE_MODE_KWARGS
from pymc.blocking import DictToArrayBijection, RaveledVars
from pymc.initial_point import make_initial_point_fn
from pymc.model.transform.optimization import freeze_dims_and_data
from pymc.pytensorf import join_nonshared_inputs
from pymc.util import get_default_varnames
from pytensor.compile.mode import Mode
from pymc_extras.inference.find_map import set_optimizer_function_defaults, _compile_jax_gradients, _compile_functions, scipy_optimize_funcs_from_loss, VALID_BACKENDS
from functools import reduce
from itertools import product
import arviz as az
import xarray as xr
from arviz import dict_to_dataset
from pymc import DictToArrayBijection
from pymc.backends.arviz import coords_and_dims_for_inferencedata, find_constants, find_observations
from pymc.blocking import RaveledVars
from pymc.model.transform.conditioning import remove_value_transforms
from scipy import stats
from pymc_extras.inference.find_map import _unconstrained_vector_to_constrained_rvs, find_MAP, get_nearest_psd, scipy_optimize_funcs_from_loss
from pymc_extras.inference.laplace import laplace_draws_to_inferencedata, add_fit_to_inferencedata, add_data_to_inferencedata, fit_mvn_to_MAP, sample_laplace_posterior


def spec_fit(method, **kwargs):
    if method == 'pathfinder':
        if find_spec('blackjax') is None:
            raise RuntimeError()
        from pymc_extras.inference.pathfinder import fit_pathfinder
        return fit_pathfinder(**kwargs)
    if method == 'laplace':
        from pymc_extras.inference.laplace import fit_laplace
        return fit_laplace(**kwargs)
    raise ValueError()


def spec_set_optimizer_function_defaults(method, use_grad, use_hess, use_hessp):
    method_info = MINIMIZE_MODE_KWARGS[method].copy()
    use_grad = use_grad if use_grad is not None else method_info['uses_grad']
    use_hess = use_hess if use_hess is not None else method_info['uses_hess']
    use_hessp = use_hessp if use_hessp is not None else method_info['uses_hessp']
    if use_hess and use_hessp:
        use_hess = False
    return (use_grad, use_hess, use_hessp)


def spec_get_nearest_psd(A):
    C = (A + A.T) / 2
    eigval, eigvec = np.linalg.eigh(C)
    eigval[eigval < 0] = 0
    return eigvec @ np.diag(eigval) @ eigvec.T


def spec__unconstrained_vector_to_constrained_rvs(model):
    constrained_rvs, unconstrained_vector = join_nonshared_inputs(model.initial_point(), inputs=model.value_vars, outputs=get_default_varnames(model.unobserved_value_vars, include_transformed=False))
    unconstrained_vector.name = 'unconstrained_vector'
    return (constrained_rvs, unconstrained_vector)


def spec__create_transformed_draws(H_inv, slices, out_shapes, posterior_draws, model, chains, draws):
    X = pt.tensor('transformed_draws', shape=(chains, draws, H_inv.shape[0]))
    out = []
    for rv, idx in slices.items():
        f = model.rvs_to_transforms[rv]
        untransformed_X = f.backward(X[..., idx]) if f is not None else X[..., idx]
        if rv in out_shapes:
            new_shape = (chains, draws) + out_shapes[rv]
            untransformed_X = untransformed_X.reshape(new_shape)
        out.append(untransformed_X)
    f_untransform = pytensor.function(inputs=[pytensor.In(X, borrow=True)], outputs=pytensor.Out(out, borrow=True), mode=Mode(linker='py', optimizer='FAST_COMPILE'))
    return f_untransform(posterior_draws)


def spec__compile_jax_gradients(f_loss, use_hess, use_hessp):
    f_hess = None
    f_hessp = None
    orig_loss_fn = f_loss.vm.jit_fn

    def loss_fn_jax_grad(x, *shared):
        return jax.value_and_grad(lambda x: orig_loss_fn(x)[0])(x)
    f_loss_and_grad = loss_fn_jax_grad
    if use_hessp:

        def f_hessp_jax(x, p):
            y, u = jax.jvp(lambda x: f_loss_and_grad(x)[1], (x,), (p,))
            return jax.numpy.stack(u)
        f_hessp = jax.jit(f_hessp_jax)
    if use_hess:
        _f_hess_jax = jax.jacfwd(lambda x: f_loss_and_grad(x)[1])

        def f_hess_jax(x):
            return jax.numpy.stack(_f_hess_jax(x))
        f_hess = jax.jit(f_hess_jax)
    return (f_loss_and_grad, f_hess, f_hessp)


def spec__compile_functions(loss, inputs, compute_grad, compute_hess, compute_hessp, compile_kwargs=None):
    loss = pm.pytensorf.rewrite_pregrad(loss)
    f_hess = None
    f_hessp = None
    if compute_grad:
        grads = pytensor.gradient.grad(loss, inputs)
        grad = pt.concatenate([grad.ravel() for grad in grads])
        f_loss_and_grad = pm.compile_pymc(inputs, [loss, grad], **compile_kwargs)
    else:
        f_loss = pm.compile_pymc(inputs, loss, **compile_kwargs)
        return [f_loss]
    if compute_hess:
        hess = pytensor.gradient.jacobian(grad, inputs)[0]
        f_hess = pm.compile_pymc(inputs, hess, **compile_kwargs)
    if compute_hessp:
        p = pt.tensor('p', shape=inputs[0].type.shape)
        hessp = pytensor.gradient.hessian_vector_product(loss, inputs, p)
        f_hessp = pm.compile_pymc([*inputs, p], hessp[0], **compile_kwargs)
    return [f_loss_and_grad, f_hess, f_hessp]


def spec_scipy_optimize_funcs_from_loss(loss, inputs, initial_point_dict, use_grad, use_hess, use_hessp, gradient_backend='pytensor', compile_kwargs=None):
    compile_kwargs = {} if compile_kwargs is None else dict(compile_kwargs)
    if (use_hess or use_hessp) and (not use_grad):
        raise ValueError()
    if gradient_backend not in VALID_BACKENDS:
        raise ValueError()
    use_jax_gradients = gradient_backend == 'jax' and use_grad
    mode = compile_kwargs.get('mode', None)
    if mode is None and use_jax_gradients:
        compile_kwargs['mode'] = 'JAX'
    elif mode != 'JAX' and use_jax_gradients:
        raise ValueError()
    if not isinstance(inputs, list):
        inputs = [inputs]
    [loss], flat_input = join_nonshared_inputs(point=initial_point_dict, outputs=[loss], inputs=inputs)
    compute_grad = use_grad and (not use_jax_gradients)
    compute_hess = use_hess and (not use_jax_gradients)
    compute_hessp = use_hessp and (not use_jax_gradients)
    funcs = _compile_functions(loss=loss, inputs=[flat_input], compute_grad=compute_grad, compute_hess=compute_hess, compute_hessp=compute_hessp, compile_kwargs=compile_kwargs)
    f_loss = funcs.pop(0)
    f_hess = funcs.pop(0) if compute_grad else None
    f_hessp = funcs.pop(0) if compute_grad else None
    if use_jax_gradients:
        f_loss, f_hess, f_hessp = _compile_jax_gradients(f_loss, use_hess, use_hessp)
    return (f_loss, f_hess, f_hessp)


def spec_find_MAP(method, *, model=None, use_grad=None, use_hessp=None, use_hess=None, initvals=None, random_seed=None, return_raw=False, jitter_rvs=None, progressbar=True, include_transformed=True, gradient_backend='pytensor', compile_kwargs=None, **optimizer_kwargs):
    model = pm.modelcontext(model)
    frozen_model = freeze_dims_and_data(model)
    jitter_rvs = [] if jitter_rvs is None else jitter_rvs
    compile_kwargs = {} if compile_kwargs is None else compile_kwargs
    ipfn = make_initial_point_fn(model=frozen_model, jitter_rvs=set(jitter_rvs), return_transformed=True, overrides=initvals)
    start_dict = ipfn(random_seed)
    inputs = frozen_model.continuous_value_vars + frozen_model.discrete_value_vars
    initial_params = DictToArrayBijection.map({var.name: start_dict[var.name] for var in inputs})
    use_grad, use_hess, use_hessp = set_optimizer_function_defaults(method, use_grad, use_hess, use_hessp)
    f_logp, f_hess, f_hessp = scipy_optimize_funcs_from_loss(loss=-frozen_model.logp(jacobian=False), inputs=inputs, initial_point_dict=start_dict, use_grad=use_grad, use_hess=use_hess, use_hessp=use_hessp, gradient_backend=gradient_backend, compile_kwargs=compile_kwargs)
    args = optimizer_kwargs.pop('args', None)
    optimizer_result = minimize(f=f_logp, x0=cast(np.ndarray[float], initial_params.data), args=args, hess=f_hess, hessp=f_hessp, progressbar=progressbar, method=method, **optimizer_kwargs)
    raveled_optimized = RaveledVars(optimizer_result.x, initial_params.point_map_info)
    unobserved_vars = get_default_varnames(model.unobserved_value_vars, include_transformed)
    unobserved_vars_values = model.compile_fn(unobserved_vars, mode='FAST_COMPILE')(DictToArrayBijection.rmap(raveled_optimized))
    optimized_point = {var.name: value for var, value in zip(unobserved_vars, unobserved_vars_values)}
    if return_raw:
        return (optimized_point, optimizer_result)
    return optimized_point


def spec_laplace_draws_to_inferencedata(posterior_draws, model=None):
    model = pm.modelcontext(model)
    chains, draws, *_ = posterior_draws[0].shape

    def make_rv_coords(name):
        coords = {'chain': range(chains), 'draw': range(draws)}
        extra_dims = model.named_vars_to_dims.get(name)
        if extra_dims is None:
            return coords
        return coords | {dim: list(model.coords[dim]) for dim in extra_dims if model.coords.get(dim) is not None}

    def make_rv_dims(name, ndim):
        dims = ['chain', 'draw']
        extra_dims = model.named_vars_to_dims.get(name)
        if extra_dims is None:
            extra_dims = [None] * ndim
        return dims + [f'{name}_dim_{i}' if dim is None else dim for i, dim in enumerate(extra_dims)]
    names = [x.name for x in get_default_varnames(model.unobserved_value_vars, include_transformed=False)]
    idata = {name: xr.DataArray(data=draws, coords=make_rv_coords(name), dims=make_rv_dims(name, draws.ndim - 2), name=name) for name, draws in zip(names, posterior_draws)}
    coords, dims = coords_and_dims_for_inferencedata(model)
    idata = az.convert_to_inference_data(idata, coords=coords, dims=dims)
    return idata


def spec_add_fit_to_inferencedata(idata, mu, H_inv, model=None):
    model = pm.modelcontext(model)
    coords = model.coords

    def make_unpacked_variable_names(name, shape):
        value_to_dim = {x.name: model.named_vars_to_dims.get(model.values_to_rvs[x].name, None) for x in model.value_vars}
        value_to_dim = {k: v for k, v in value_to_dim.items() if v is not None}
        rv_to_dim = model.named_vars_to_dims
        dims_dict = rv_to_dim | value_to_dim
        if not shape:
            return [name]
        dims = dims_dict.get(name)
        if dims is None:
            dims = [None] * len(shape)
        labels = product(*(range(size) if coords.get(dim) is None or len(coords[dim]) != size else coords[dim] for dim, size in zip(dims, shape)))
        return [f'{name}[{','.join(map(str, label))}]' for label in labels]
    unpacked_variable_names = reduce(lambda lst, info: lst + make_unpacked_variable_names(info[0], info[1]), mu.point_map_info, [])
    mean_dataarray = xr.DataArray(mu.data, dims=['rows'], coords={'rows': unpacked_variable_names})
    cov_dataarray = xr.DataArray(H_inv, dims=['rows', 'columns'], coords={'rows': unpacked_variable_names, 'columns': unpacked_variable_names})
    dataset = xr.Dataset({'mean_vector': mean_dataarray, 'covariance_matrix': cov_dataarray})
    idata.add_groups(fit=dataset)
    return idata


def spec_add_data_to_inferencedata(idata, progressbar=True, model=None, compile_kwargs=None):
    model = pm.modelcontext(model)
    if model.deterministics:
        idata.posterior = pm.compute_deterministics(idata.posterior, model=model, merge_dataset=True, progressbar=progressbar, compile_kwargs=compile_kwargs)
    coords, dims = coords_and_dims_for_inferencedata(model)
    observed_data = dict_to_dataset(find_observations(model), library=pm, coords=coords, dims=dims, default_dims=[])
    constant_data = dict_to_dataset(find_constants(model), library=pm, coords=coords, dims=dims, default_dims=[])
    idata.add_groups({'observed_data': observed_data, 'constant_data': constant_data}, coords=coords, dims=dims)
    return idata


def spec_fit_mvn_to_MAP(optimized_point, model=None, on_bad_cov='ignore', transform_samples=False, gradient_backend='pytensor', zero_tol=1e-08, diag_jitter=1e-08, compile_kwargs=None):
    model = pm.modelcontext(model)
    compile_kwargs = {} if compile_kwargs is None else compile_kwargs
    frozen_model = freeze_dims_and_data(model)
    if not transform_samples:
        untransformed_model = remove_value_transforms(frozen_model)
        logp = untransformed_model.logp(jacobian=False)
        variables = untransformed_model.continuous_value_vars
    else:
        logp = frozen_model.logp(jacobian=True)
        variables = frozen_model.continuous_value_vars
    optimized_free_params = {var.name: optimized_point[var.name] for var in variables}
    mu = DictToArrayBijection.map(optimized_free_params)
    _, f_hess, _ = scipy_optimize_funcs_from_loss(loss=-logp, inputs=variables, initial_point_dict=optimized_free_params, use_grad=True, use_hess=True, use_hessp=False, gradient_backend=gradient_backend, compile_kwargs=compile_kwargs)
    H = -f_hess(mu.data)
    H_inv = np.linalg.pinv(np.where(np.abs(H) < zero_tol, 0, -H))

    def stabilize(x, jitter):
        return x + np.eye(x.shape[0]) * jitter
    H_inv = H_inv if diag_jitter is None else stabilize(H_inv, diag_jitter)
    try:
        np.linalg.cholesky(H_inv)
    except np.linalg.LinAlgError:
        if on_bad_cov == 'error':
            raise np.linalg.LinAlgError()
        H_inv = get_nearest_psd(H_inv)
        if on_bad_cov == 'warn':
            pass
    return (mu, H_inv)


def spec_sample_laplace_posterior(mu, H_inv, model=None, chains=2, draws=500, transform_samples=False, progressbar=True, random_seed=None, compile_kwargs=None):
    model = pm.modelcontext(model)
    compile_kwargs = {} if compile_kwargs is None else compile_kwargs
    rng = np.random.default_rng(random_seed)
    posterior_dist = stats.multivariate_normal(mean=mu.data, cov=H_inv, allow_singular=True, seed=rng)
    posterior_draws = posterior_dist.rvs(size=(chains, draws))
    if transform_samples:
        constrained_rvs, unconstrained_vector = _unconstrained_vector_to_constrained_rvs(model)
        batched_values = pt.tensor('batched_values', shape=(chains, draws, *unconstrained_vector.type.shape), dtype=unconstrained_vector.type.dtype)
        batched_rvs = pytensor.graph.vectorize_graph(constrained_rvs, replace={unconstrained_vector: batched_values})
        f_constrain = pm.compile_pymc(inputs=[batched_values], outputs=batched_rvs, **compile_kwargs)
        posterior_draws = f_constrain(posterior_draws)
    else:
        info = mu.point_map_info
        flat_shapes = [size for _, _, size, _ in info]
        slices = [slice(sum(flat_shapes[:i]), sum(flat_shapes[:i + 1])) for i in range(len(flat_shapes))]
        draws_by_name = {name: posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype) for idx, (name, shape, _, dtype) in zip(slices, info)}
        posterior_draws = [draws_by_name[x.name] for x in get_default_varnames(model.unobserved_value_vars, include_transformed=False) if x.name in draws_by_name]
    idata = laplace_draws_to_inferencedata(posterior_draws, model)
    idata = add_fit_to_inferencedata(idata, mu, H_inv, model)
    idata = add_data_to_inferencedata(idata, progressbar, model, compile_kwargs)
    return idata


def spec_fit_laplace(optimize_method='BFGS', *, model=None, use_grad=None, use_hessp=None, use_hess=None, initvals=None, random_seed=None, return_raw=False, jitter_rvs=None, progressbar=True, include_transformed=True, gradient_backend='pytensor', chains=2, draws=500, on_bad_cov='ignore', fit_in_unconstrained_space=False, zero_tol=1e-08, diag_jitter=1e-08, optimizer_kwargs=None, compile_kwargs=None):
    compile_kwargs = {} if compile_kwargs is None else compile_kwargs
    optimizer_kwargs = {} if optimizer_kwargs is None else optimizer_kwargs
    optimized_point = find_MAP(method=optimize_method, model=model, use_grad=use_grad, use_hessp=use_hessp, use_hess=use_hess, initvals=initvals, random_seed=random_seed, return_raw=return_raw, jitter_rvs=jitter_rvs, progressbar=progressbar, include_transformed=include_transformed, gradient_backend=gradient_backend, compile_kwargs=compile_kwargs, **optimizer_kwargs)
    if return_raw:
        optimized_point, optimizer_result = optimized_point
    mu, H_inv = fit_mvn_to_MAP(optimized_point=optimized_point, model=model, on_bad_cov=on_bad_cov, transform_samples=fit_in_unconstrained_space, gradient_backend=gradient_backend, zero_tol=zero_tol, diag_jitter=diag_jitter, compile_kwargs=compile_kwargs)
    idata = sample_laplace_posterior(mu=mu, H_inv=H_inv, model=model, chains=chains, draws=draws, transform_samples=fit_in_unconstrained_space, progressbar=progressbar, random_seed=random_seed, compile_kwargs=compile_kwargs)
    if return_raw:
        return (idata, optimizer_result)
    return idata
