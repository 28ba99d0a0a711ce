"""C25 A fitted ModelBuilder predicts from its fit, saves it and loads it unchanged."""
from ..table import E, run_table

B, L, S = "pymc_extras.model_builder.ModelBuilder.", "pymc_extras.linearmodel.LinearModel.", "pymc_extras.preprocessing.standard_scaler.StandardScalerDF."

RULES = {
    "builder": "what is sampled, from which data and posterior, what is stored, hashed, saved, loaded and returned are the stated ones",
    "linear": "the linear model, its data and its configuration are the stated ones",
    "scaler": "scaled data keep index and columns",
}
ASSUMPTIONS = ['pm.sample_posterior_predictive recomputes the deterministics whose data differ from the constant_data it is given', 'json, netcdf and sklearn compute what they document']


def check(ctx):
    run_table(ctx, "builder", "builder", [E(B + m, "ModelBuilder__" + m, opaque=("check_array", "check_X_y")) for m in (
        "__init__", "_validate_data", "sample_model", "set_idata_attrs", "save", "_model_config_formatting", "load", "fit", "predict", "_extend_idata",
        "sample_prior_predictive", "sample_posterior_predictive", "get_params", "set_params", "predict_proba", "predict_posterior", "id")])
    run_table(ctx, "builder", "linear", [E(L + m, "LinearModel__" + m) for m in (
        "__init__", "get_default_model_config", "get_default_sampler_config", "_serializable_model_config", "output_var", "build_model",
        "_data_setter", "_generate_and_preprocess_model_data")])
    run_table(ctx, "builder", "scaler", [E(S + m, "StandardScalerDF__" + m) for m in ("__init__", "transform", "fit_transform")])
