import hashlib
import json
import warnings
from pathlib import Path
import arviz as az
import numpy as np
import pandas as pd
import pymc as pm
from pymc_extras.model_builder import check_array, check_X_y


def ModelBuilder____init__(self, model_config=None, sampler_config=None):
    sampler_config = self.get_default_sampler_config() if sampler_config is None else sampler_config
    self.sampler_config = sampler_config
    model_config = self.get_default_model_config() if model_config is None else model_config
    self.model_config = model_config
    self.model = None
    self.idata: az.InferenceData | None = None
    self.is_fitted_ = False


def ModelBuilder___validate_data(self, X, y=None):
    if y is not None:
        return check_X_y(X, y, accept_sparse=False, y_numeric=True, multi_output=False)
    else:
        return check_array(X, accept_sparse=False)


def ModelBuilder___data_setter(self, X, y=None):
    raise NotImplementedError


def ModelBuilder__output_var(self):
    raise NotImplementedError


def ModelBuilder__get_default_model_config():
    raise NotImplementedError


def ModelBuilder__get_default_sampler_config(self):
    raise NotImplementedError


def ModelBuilder___generate_and_preprocess_model_data(self, X, y):
    raise NotImplementedError


def ModelBuilder__build_model(self, X, y, **kwargs):
    raise NotImplementedError


def ModelBuilder__sample_model(self, **kwargs):
    if self.model is None:
        raise RuntimeError()
    with self.model:
        sampler_args = {**self.sampler_config, **kwargs}
        random_seed = sampler_args.get('random_seed')
        idata = pm.sample(**sampler_args)
        if isinstance(random_seed, list | tuple | np.ndarray):
            random_seed = random_seed[0]
        idata.extend(pm.sample_prior_predictive(random_seed=random_seed), join='right')
        idata.extend(pm.sample_posterior_predictive(idata, random_seed=random_seed), join='right')
    idata = self.set_idata_attrs(idata)
    return idata


def ModelBuilder__set_idata_attrs(self, idata=None):
    if idata is None:
        idata = self.idata
    if idata is None:
        raise RuntimeError()
    idata.attrs['id'] = self.id
    idata.attrs['model_type'] = self._model_type
    idata.attrs['version'] = self.version
    idata.attrs['sampler_config'] = json.dumps(self.sampler_config)
    idata.attrs['model_config'] = json.dumps(self._serializable_model_config)
    if hasattr(self, '_save_input_params'):
        self._save_input_params(idata)
    return idata


def ModelBuilder__save(self, fname):
    if self.idata is not None and 'posterior' in self.idata:
        file = Path(str(fname))
        self.idata.to_netcdf(str(file))
    else:
        raise RuntimeError()


def ModelBuilder___model_config_formatting(cls, model_config):
    for key in model_config:
        if isinstance(model_config[key], dict):
            for sub_key in model_config[key]:
                if isinstance(model_config[key][sub_key], list | tuple):
                    if sub_key == 'dims':
                        model_config[key][sub_key] = tuple(model_config[key][sub_key])
                    else:
                        model_config[key][sub_key] = np.array(model_config[key][sub_key])
    return model_config


def ModelBuilder__load(cls, fname):
    filepath = Path(str(fname))
    idata = az.from_netcdf(filepath)
    model_config = cls._model_config_formatting(json.loads(idata.attrs['model_config']))
    model = cls(model_config=model_config, sampler_config=json.loads(idata.attrs['sampler_config']))
    model.idata = idata
    dataset = idata.fit_data.to_dataframe()
    X = dataset.drop(columns=[model.output_var])
    y = dataset[model.output_var]
    model.build_model(X, y)
    if model.id != idata.attrs['id']:
        raise ValueError()
    return model


def ModelBuilder__fit(self, X, y=None, progressbar=True, predictor_names=None, random_seed=None, **kwargs):
    if predictor_names is None:
        predictor_names = []
    if y is None:
        y = np.zeros(X.shape[0])
    y = pd.DataFrame({self.output_var: y})
    self._generate_and_preprocess_model_data(X, y.values.flatten())
    self.build_model(self.X, self.y)
    sampler_config = self.sampler_config.copy()
    sampler_config['progressbar'] = progressbar
    sampler_config['random_seed'] = random_seed
    sampler_config.update(**kwargs)
    self.idata = self.sample_model(**sampler_config)
    X_df = pd.DataFrame(X, columns=X.columns)
    combined_data = pd.concat([X_df, y.set_axis(X_df.index)], axis=1)
    assert all(combined_data.columns), 'All columns must have non-empty names'
    with warnings.catch_warnings():
        warnings.filterwarnings('ignore', category=UserWarning, message='The group fit_data is not defined in the InferenceData scheme')
        self.idata.add_groups(fit_data=combined_data.to_xarray())
    return self.idata


def ModelBuilder__predict(self, X_pred, extend_idata=True, **kwargs):
    posterior_predictive_samples = self.sample_posterior_predictive(X_pred, extend_idata, combined=False, **kwargs)
    if self.output_var not in posterior_predictive_samples:
        raise KeyError()
    posterior_means = posterior_predictive_samples[self.output_var].mean(dim=['chain', 'draw'], keep_attrs=True)
    return posterior_means.data


def ModelBuilder___extend_idata(self, predictions):
    groups = [group for group in predictions.groups() if group not in ('observed_data', 'constant_data') or group not in self.idata]
    self.idata.extend(az.InferenceData(**{group: predictions[group] for group in groups}), join='right')


def ModelBuilder__sample_prior_predictive(self, X_pred, y_pred=None, samples=None, extend_idata=False, combined=True, **kwargs):
    if y_pred is None:
        y_pred = pd.Series(np.zeros(len(X_pred)), name=self.output_var)
    if samples is None:
        samples = self.sampler_config.get('draws', 500)
    if self.model is None:
        self.build_model(X_pred, y_pred)
    else:
        self._data_setter(X_pred, y_pred)
    with self.model:
        prior_pred: az.InferenceData = pm.sample_prior_predictive(samples, **kwargs)
        self.set_idata_attrs(prior_pred)
        if extend_idata:
            if self.idata is not None:
                self._extend_idata(prior_pred)
            else:
                self.idata = prior_pred
    prior_predictive_samples = az.extract(prior_pred, 'prior_predictive', combined=combined)
    return prior_predictive_samples


def ModelBuilder__sample_posterior_predictive(self, X_pred, extend_idata, combined, **kwargs):
    self._data_setter(X_pred)
    with self.model:
        post_pred = pm.sample_posterior_predictive(self.idata, **kwargs)
        if extend_idata:
            self._extend_idata(post_pred)
    posterior_predictive_samples = az.extract(post_pred, 'posterior_predictive', combined=combined)
    return posterior_predictive_samples


def ModelBuilder__get_params(self, deep=True):
    return {'model_config': self.model_config, 'sampler_config': self.sampler_config}


def ModelBuilder__set_params(self, **params):
    self.model_config = params['model_config']
    self.sampler_config = params['sampler_config']


def ModelBuilder___serializable_model_config(self):
    pass


def ModelBuilder__predict_proba(self, X_pred, extend_idata=True, combined=False, **kwargs):
    return self.predict_posterior(X_pred, extend_idata, combined, **kwargs)


def ModelBuilder__predict_posterior(self, X_pred, extend_idata=True, combined=True, **kwargs):
    X_pred = self._validate_data(X_pred)
    posterior_predictive_samples = self.sample_posterior_predictive(X_pred, extend_idata, combined, **kwargs)
    if self.output_var not in posterior_predictive_samples:
        raise KeyError()
    return posterior_predictive_samples[self.output_var]


def ModelBuilder__id(self):
    model_config = self._model_config_formatting({key: value.copy() if isinstance(value, dict) else value for key, value in self.model_config.items()})
    hasher = hashlib.sha256()
    hasher.update(str(model_config.values()).encode())
    hasher.update(self.version.encode())
    hasher.update(self._model_type.encode())
    return hasher.hexdigest()[:16]


def LinearModel____init__(self, model_config=None, sampler_config=None, nsamples=100):
    self.nsamples = nsamples
    super().__init__(model_config, sampler_config)


def LinearModel__get_default_model_config():
    return {'intercept': {'loc': 0, 'scale': 10}, 'slope': {'loc': 0, 'scale': 10}, 'obs_error': 2}


def LinearModel__get_default_sampler_config():
    return {'draws': 1000, 'tune': 1000, 'chains': 3, 'target_accept': 0.95}


def LinearModel___serializable_model_config(self):
    return self.model_config


def LinearModel__output_var(self):
    return 'y_hat'


def LinearModel__build_model(self, X, y):
    cfg = self.model_config
    with pm.Model() as self.model:
        x = pm.Data('x', np.zeros((1,)), dims='observation')
        y_data = pm.Data('y_data', np.zeros((1,)), dims='observation')
        intercept = pm.Normal('intercept', cfg['intercept']['loc'], sigma=cfg['intercept']['scale'])
        slope = pm.Normal('slope', cfg['slope']['loc'], sigma=cfg['slope']['scale'])
        obs_error = pm.HalfNormal('σ_model_fmc', cfg['obs_error'])
        y_model = pm.Deterministic('y_model', intercept + slope * x, dims='observation')
        pm.Normal('y_hat', y_model, sigma=obs_error, shape=x.shape, observed=y_data, dims='observation')
    self._data_setter(X, y)


def LinearModel___data_setter(self, X, y=None):

    def as_vector(data):
        data = np.asarray(data)
        return data.squeeze(axis=1) if data.ndim == 2 else data
    with self.model:
        pm.set_data({'x': as_vector(X)})
        if y is not None:
            pm.set_data({'y_data': as_vector(y)})


def LinearModel___generate_and_preprocess_model_data(self, X, y):
    self.X, self.y = (X, y)


def StandardScalerDF____init__(self, with_mean=True, with_std=True):
    super().__init__(with_mean=with_mean, with_std=with_std)


def StandardScalerDF__transform(self, X, y=None):
    z = super().transform(X)
    return pd.DataFrame(z, index=X.index, columns=X.columns)


def StandardScalerDF__fit_transform(self, X, y=None):
    z = super().fit_transform(X)
    return pd.DataFrame(z, index=X.index, columns=X.columns)
