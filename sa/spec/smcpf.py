import time
import warnings
from typing import cast
import arviz as az
import blackjax
import jax
import jax.numpy as jnp
import numpy as np
from blackjax.smc import extend_params
from blackjax.smc.resampling import systematic
from pymc import draw, modelcontext, to_inference_data
from pymc.backends import NDArray
from pymc.backends.base import MultiTrace
from pymc.initial_point import make_initial_point_expression
from pymc.sampling.jax import get_jaxified_graph
from pymc.util import _get_seeds_per_chain
from pymc_extras.inference.smc.sampling import arviz_from_particles, SMCDiagnostics, inference_loop, blackjax_particles_from_pymc_population, add_to_inference_data, get_jaxified_logprior, get_jaxified_loglikelihood, get_jaxified_particles_fn, initialize_population, var_map_from_model, build_smc_with_kernel
import collections
import sys
import pymc as pm
from packaging import version
from pymc.backends.arviz import coords_and_dims_for_inferencedata
from pymc.blocking import DictToArrayBijection, RaveledVars
from pymc.model import modelcontext
from pymc.util import _get_seeds_per_chain, get_default_varnames
from pymc_extras.inference.pathfinder import convert_flat_trace_to_idata


def spec_sample_smc_blackjax(n_particles=2000, random_seed=None, kernel='HMC', target_essn=0.5, num_mcmc_steps=10, inner_kernel_params=None, model=None, iterations_to_diagnose=100):
    model = modelcontext(model)
    random_seed = np.random.default_rng(seed=random_seed)
    if inner_kernel_params is None:
        inner_kernel_params = {}
    key = jax.random.PRNGKey(_get_seeds_per_chain(random_seed, 1)[0])
    key, initial_particles_key, iterations_key = jax.random.split(key, 3)
    initial_particles = blackjax_particles_from_pymc_population(model, initialize_population(model, n_particles, random_seed))
    var_map = var_map_from_model(model, model.initial_point(random_seed=random_seed.integers(2 ** 30)))
    posterior_dimensions = sum((var_map[k][1] for k in var_map))
    if kernel == 'HMC':
        mcmc_kernel = blackjax.mcmc.hmc
        mcmc_parameters = extend_params(dict(step_size=inner_kernel_params['step_size'], inverse_mass_matrix=jnp.eye(posterior_dimensions), num_integration_steps=inner_kernel_params['integration_steps']))
    elif kernel == 'NUTS':
        mcmc_kernel = blackjax.mcmc.nuts
        mcmc_parameters = extend_params(dict(step_size=inner_kernel_params['step_size'], inverse_mass_matrix=jnp.eye(posterior_dimensions)))
    else:
        raise ValueError()
    sampler = build_smc_with_kernel(prior_log_prob=get_jaxified_logprior(model), loglikelihood=get_jaxified_loglikelihood(model), target_ess=target_essn, num_mcmc_steps=num_mcmc_steps, kernel_parameters=mcmc_parameters, mcmc_kernel=mcmc_kernel)
    start = time.time()
    total_iterations, particles, diagnosis = inference_loop(iterations_key, sampler.init(initial_particles), sampler, iterations_to_diagnose, n_particles)
    end = time.time()
    running_time = end - start
    inference_data = arviz_from_particles(model, particles)
    add_to_inference_data(inference_data, n_particles, target_essn, num_mcmc_steps, kernel, diagnosis, total_iterations, iterations_to_diagnose, inner_kernel_params, running_time)
    if total_iterations > iterations_to_diagnose:
        pass
    return inference_data


def spec_arviz_from_particles(model, particles):
    n_particles = jax.tree_util.tree_flatten(particles)[0][0].shape[0]
    by_varname = {k.name: (v.reshape(n_particles) if k.ndim == 0 else v)[np.newaxis, :].astype(k.dtype) for k, v in zip(model.value_vars, particles)}
    varnames = [v.name for v in model.value_vars]
    with model:
        strace = NDArray(name=model.name)
        strace.setup(n_particles, 0)
    for particle_index in range(0, n_particles):
        strace.record(point={k: np.asarray(by_varname[k][0][particle_index]) for k in varnames})
        multitrace = MultiTrace((strace,))
    return to_inference_data(multitrace, log_likelihood=False, model=model)


def SMCDiagnostics__update_diagnosis(i, history, info, state):
    le, lli, ancestors, weights_evolution = history
    return SMCDiagnostics(le.at[i].set(state.lmbda), lli.at[i].set(info.log_likelihood_increment), ancestors.at[i].set(info.ancestors), weights_evolution.at[i].set(state.weights))


def SMCDiagnostics__initial_diagnosis(iterations_to_diagnose, n_particles):
    return SMCDiagnostics(jnp.zeros(iterations_to_diagnose), jnp.zeros(iterations_to_diagnose), jnp.zeros((iterations_to_diagnose, n_particles)), jnp.zeros((iterations_to_diagnose, n_particles)))


def spec_flatten_single_particle(particle):
    return jnp.hstack([v.squeeze() for v in particle])


def spec_inference_loop(rng_key, initial_state, kernel, iterations_to_diagnose, n_particles):

    def cond(carry):
        i, state, _, _ = carry
        return state.lmbda < 1

    def one_step(carry):
        i, state, k, previous_info = carry
        k, subk = jax.random.split(k, 2)
        state, info = kernel.step(subk, state)
        full_info = SMCDiagnostics.update_diagnosis(i, previous_info, info, state)
        return (i + 1, state, k, full_info)
    n_iter, final_state, _, diagnosis = jax.lax.while_loop(cond, one_step, (0, initial_state, rng_key, SMCDiagnostics.initial_diagnosis(iterations_to_diagnose, n_particles)))
    return (n_iter, final_state.particles, diagnosis)


def spec_blackjax_particles_from_pymc_population(model, pymc_population):
    order_of_vars = model.value_vars

    def _format(var):
        variable = pymc_population[var.name]
        if len(variable.shape) == 1:
            return variable[:, np.newaxis]
        else:
            return variable
    return [_format(var) for var in order_of_vars]


def spec_add_to_inference_data(inference_data, n_particles, target_ess, num_mcmc_steps, kernel, diagnosis, total_iterations, iterations_to_diagnose, kernel_parameters, running_time_seconds):
    experiment_parameters = {'particles': n_particles, 'target_ess': target_ess, 'num_mcmc_steps': num_mcmc_steps, 'iterations': total_iterations, 'iterations_to_diagnose': iterations_to_diagnose, 'sampler': f'Blackjax SMC with {kernel} kernel'}
    inference_data.posterior.attrs['lambda_evolution'] = np.array(diagnosis.lmbda_evolution)[:iterations_to_diagnose]
    inference_data.posterior.attrs['log_likelihood_increments'] = np.array(diagnosis.log_likelihood_increment_evolution)[:iterations_to_diagnose]
    inference_data.posterior.attrs['ancestors_evolution'] = np.array(diagnosis.ancestors_evolution)[:iterations_to_diagnose]
    inference_data.posterior.attrs['weights_evolution'] = np.array(diagnosis.weights_evolution)[:iterations_to_diagnose]
    for k in experiment_parameters:
        inference_data.posterior.attrs[k] = experiment_parameters[k]
    for k in kernel_parameters:
        inference_data.posterior.attrs[k] = kernel_parameters[k]
    inference_data.posterior.attrs['running_time_seconds'] = running_time_seconds
    return inference_data


def spec_get_jaxified_logprior(model):
    return get_jaxified_particles_fn(model, model.varlogp)


def spec_get_jaxified_loglikelihood(model):
    return get_jaxified_particles_fn(model, model.datalogp)


def spec_get_jaxified_particles_fn(model, graph_outputs):
    logp_fn = get_jaxified_graph(inputs=model.value_vars, outputs=[graph_outputs])

    def logp_fn_wrap(particles):
        return logp_fn(*[p.squeeze() if v.ndim == 0 else p for v, p in zip(model.value_vars, particles)])[0]
    return logp_fn_wrap


def spec_initialize_population(model, draws, random_seed):
    with warnings.catch_warnings():
        warnings.filterwarnings('ignore', category=UserWarning, message='The effect of Potentials')
        prior_expression = make_initial_point_expression(free_rvs=model.free_RVs, rvs_to_transforms=model.rvs_to_transforms, initval_strategies={}, default_strategy='prior', return_transformed=True)
        prior_values = draw(prior_expression, draws=draws, random_seed=random_seed)
        names = [model.rvs_to_values[rv].name for rv in model.free_RVs]
        dict_prior = {k: np.stack(v) for k, v in zip(names, prior_values)}
    return cast(dict[str, np.ndarray], dict_prior)


def spec_var_map_from_model(model, initial_point):
    var_info = {}
    for v in model.value_vars:
        var_info[v.name] = (initial_point[v.name].shape, initial_point[v.name].size)
    return var_info


def spec_build_smc_with_kernel(prior_log_prob, loglikelihood, target_ess, num_mcmc_steps, kernel_parameters, mcmc_kernel):
    return blackjax.adaptive_tempered_smc(prior_log_prob, loglikelihood, mcmc_kernel.build_kernel(), mcmc_kernel.init, mcmc_parameters=kernel_parameters, resampling_fn=systematic, target_ess=target_ess, num_mcmc_steps=num_mcmc_steps)


def spec_convert_flat_trace_to_idata(samples, include_transformed=False, postprocessing_backend='cpu', model=None):
    model = modelcontext(model)
    ip = model.initial_point()
    ip_point_map_info = pm.blocking.DictToArrayBijection.map(ip).point_map_info
    trace = collections.defaultdict(list)
    for sample in samples:
        raveld_vars = RaveledVars(sample, ip_point_map_info)
        point = DictToArrayBijection.rmap(raveld_vars, ip)
        for p, v in point.items():
            trace[p].append(v.tolist())
    trace = {k: np.asarray(v)[None, ...] for k, v in trace.items()}
    var_names = model.unobserved_value_vars
    vars_to_sample = list(get_default_varnames(var_names, include_transformed=include_transformed))
    print('Transforming variables...', file=sys.stdout)
    jax_fn = get_jaxified_graph(inputs=model.value_vars, outputs=vars_to_sample)
    result = jax.vmap(jax.vmap(jax_fn))(*jax.device_put(list(trace.values()), jax.devices(postprocessing_backend)[0]))
    trace = {v.name: r for v, r in zip(vars_to_sample, result)}
    coords, dims = coords_and_dims_for_inferencedata(model)
    idata = az.from_dict(trace, dims=dims, coords=coords)
    return idata


def spec_fit_pathfinder(samples=1000, random_seed=None, postprocessing_backend='cpu', model=None, **pathfinder_kwargs):
    if version.parse(blackjax.__version__).major < 1:
        raise ImportError()
    model = modelcontext(model)
    [pathfinder_seed, sample_seed] = _get_seeds_per_chain(random_seed, 2)
    ip = model.initial_point(random_seed=pathfinder_seed)
    ip_map = DictToArrayBijection.map(ip)
    new_logprob, new_input = pm.pytensorf.join_nonshared_inputs(ip, (model.logp(),), model.value_vars, ())
    logprob_fn_list = get_jaxified_graph([new_input], new_logprob)

    def logprob_fn(x):
        return logprob_fn_list(x)[0]
    print('Running pathfinder...', file=sys.stdout)
    pathfinder_state, _ = blackjax.vi.pathfinder.approximate(rng_key=jax.random.key(pathfinder_seed), logdensity_fn=logprob_fn, initial_position=ip_map.data, **pathfinder_kwargs)
    samples, _ = blackjax.vi.pathfinder.sample(rng_key=jax.random.key(sample_seed), state=pathfinder_state, num_samples=samples)
    idata = convert_flat_trace_to_idata(samples, postprocessing_backend=postprocessing_backend, model=model)
    return idata
