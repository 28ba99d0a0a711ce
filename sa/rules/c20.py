"""C20 Structural models: the matrices of every component, adding components, and taking the components of a fit apart again."""
from ..table import E, consts, run_table

M = "pymc_extras.statespace.models.structural."
RULES = {
    "component": "every entry of every matrix of each component, and the name, shape and dims of its parameters, states and shocks, are the stated ones",
    "sum": "which matrices are stacked, concatenated or added when components are, and what the built model takes from them, are the stated ones",
    "extract": "which states each extracted component is made of, and its name, are the stated ones",
    "names": "the names of derivatives are the stated ones",
}
ASSUMPTIONS = ["pt.linalg.block_diag and numpy index helpers do what they document", "xarray.apply_ufunc moves the core dims last"]
CLS = {
    "LevelTrendComponent": (), "MeasurementError": (), "AutoregressiveComponent": (), "TimeSeasonality": (), "FrequencySeasonality": (),
    "CycleComponent": (), "RegressionComponent": ("_get_state_names", "_handle_input_data"),
}
COMPONENT = [E(M + f, "spec_" + f) for f in ("order_to_mask", "_frequency_transition_block")]
COMPONENT += [E(f"{M}{c}.{m}", f"{c}__{m}") for c, more in CLS.items() for m in ("__init__", "populate_component_properties", "make_symbolic_graph", *more)]
SUM = [E(f"{M}Component.{m}", f"Component__{m}") for m in (
    "__init__", "make_and_register_variable", "make_and_register_data", "_get_combined_shapes", "_combine_statespace_representations",
    "_combine_property", "_combine_component_info", "_make_combined_name", "__add__", "build")]
SUM += [E("pymc_extras.statespace.models.utilities.conform_time_varying_and_time_invariant_matrices", "spec_conform_time_varying_and_time_invariant_matrices")]
SUM += [E(f"{M}StructuralTimeSeries.{m}", f"StructuralTimeSeries__{m}") for m in (
    "__init__", "_add_inital_state_cov_to_properties", "param_names", "data_names", "state_names", "observed_states", "shock_names", "param_dims",
    "coords", "param_info", "data_info", "make_symbolic_graph")]
EXTRACT = [E(f"{M}StructuralTimeSeries.{m}", f"StructuralTimeSeries__{m}") for m in (
    "_state_slices_from_info", "_hidden_states_from_data", "_get_subcomponent_names", "extract_components_from_idata")]


def check(ctx):
    run_table(ctx, "structural", "component", COMPONENT)
    run_table(ctx, "structural", "sum", SUM)
    run_table(ctx, "structural", "extract", EXTRACT)
    consts(ctx, "names", "pymc_extras.statespace.utils.constants", {
        "POSITION_DERIVATIVE_NAMES": ["level", "trend", "acceleration", "jerk", "snap", "crackle", "pop"]})
