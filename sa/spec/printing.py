import numpy as np
from pymc.printing import str_for_dist, str_for_potential_or_deterministic
from pytensor import Mode
from pytensor.compile.sharedvalue import SharedVariable
from pytensor.graph.type import Constant
from rich.box import SIMPLE_HEAD
from rich.table import Table
from pymc_extras.printing import variable_expression, _extract_dim_value, dims_expression, model_parameter_count


def spec_variable_expression(model, var, truncate_deterministic):
    if var in model.data_vars:
        var_expr = 'Data'
    elif var in model.deterministics:
        str_repr = str_for_potential_or_deterministic(var, dist_name='')
        _, var_expr = str_repr.split(' ~ ')
        var_expr = var_expr[1:-1]
        if truncate_deterministic is not None and len(var_expr) > truncate_deterministic:
            contents = var_expr[2:-1].split(', ')
            str_len = 0
            for show_n, content in enumerate(contents):
                str_len += len(content) + 2
                if str_len > truncate_deterministic:
                    break
            var_expr = f'f({', '.join(contents[:show_n])}, ...)'
    elif var in model.potentials:
        var_expr = str_for_potential_or_deterministic(var, dist_name='Potential').split(' ~ ')[1]
    else:
        var_expr = str_for_dist(var).split(' ~ ')[1]
    return var_expr


def spec__extract_dim_value(var):
    if isinstance(var, SharedVariable):
        return var.get_value(borrow=True)
    elif isinstance(var, Constant):
        return var.data
    else:
        return var.eval(mode=Mode(linker='py', optimizer='fast_compile'))


def spec_dims_expression(model, var):
    if (dims := model.named_vars_to_dims.get(var.name)) is not None:
        dim_sizes = [(dim, _extract_dim_value(model.dim_lengths[dim])) for dim in dims]
        return ' × '.join((f'{dim}[{dim_size}]' for dim, dim_size in dim_sizes))
    else:
        dim_sizes = list(var.shape.eval(mode=Mode(linker='py', optimizer='fast_compile')))
        return f'[{', '.join(map(str, dim_sizes))}]' if dim_sizes else ''


def spec_model_parameter_count(model):
    rv_shapes = model.eval_rv_shapes()
    return np.sum([np.prod(rv_shapes[free_rv.name]).astype(int) for free_rv in model.free_RVs])


def spec_model_table(model, *, split_groups=True, truncate_deterministic=None, parameter_count=True):
    table = Table(show_header=True, show_edge=False, box=SIMPLE_HEAD, highlight=False, collapse_padding=True)
    table.add_column('Variable', justify='right')
    table.add_column('Expression', justify='left')
    table.add_column('Dimensions')
    if split_groups:
        groups = (model.data_vars, model.free_RVs, model.deterministics, model.potentials, model.observed_RVs)
    else:
        groups = (model.named_vars.values(),)
    for group in groups:
        if not group:
            continue
        for var in group:
            var_name = var.name
            sep = f'[b]{(' ~' if var in model.basic_RVs else ' =')}[/b]'
            var_expr = variable_expression(model, var, truncate_deterministic)
            dims_expr = dims_expression(model, var)
            if dims_expr == '[]':
                dims_expr = ''
            table.add_row(var_name + sep, var_expr, dims_expr)
        if parameter_count and (not split_groups or group == model.free_RVs):
            n_parameters = model_parameter_count(model)
            table.add_row('', '', f'[i]Parameter count = {n_parameters}[/i]')
        table.add_section()
    return table
