import numpy as np
import torch
from gpytorch.utils.permutation import apply_permutation
from pymc_extras.utils.linear_cg import masked_fill, column_dot, column_norm, linear_cg_updates, EVAL_CG_TOLERANCE, CG_TOLERANCE
import pytensor
import pytensor.sparse as ps
import pytensor.tensor as pt
import scipy.interpolate
from pytensor.graph.op import Apply
from pymc_extras.utils.spline import numpy_bspline_basis, BSplineBasis


def spec_masked_fill(vector, mask, fill_value):
    masked_vector = np.ma.array(vector, mask=mask)
    vector = masked_vector.filled(fill_value=fill_value)
    return vector


def spec_column_dot(x, y):
    return np.sum(x * y, axis=-2, keepdims=True)


def spec_column_norm(x):
    return np.linalg.norm(x, 2, axis=-2, keepdims=True)


def spec_linear_cg_updates(result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec):
    result = result + alpha * curr_conjugate_vec
    beta = np.copy(residual_inner_prod)
    residual_inner_prod = column_dot(residual, precond_residual)
    is_zero = beta < eps
    beta = masked_fill(beta, mask=is_zero, fill_value=1)
    beta = residual_inner_prod / beta
    beta = masked_fill(beta, mask=is_zero, fill_value=0)
    curr_conjugate_vec = beta * curr_conjugate_vec + precond_residual
    return (result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec)


def spec_linear_cg(mat, rhs, n_tridiag=0, tolerance=None, eps=1e-10, stop_updating_after=1e-10, max_iter=1000, max_tridiag_iter=20, initial_guess=None, preconditioner=None, terminate_cg_by_size=False, use_eval_tolerance=False):
    is_vector = len(rhs.shape) == 1
    if is_vector:
        rhs = rhs[:, np.newaxis]
    if initial_guess is None:
        initial_guess = np.zeros_like(rhs)
    elif is_vector:
        initial_guess = initial_guess[:, np.newaxis]
    if preconditioner is None:

        def preconditioner(x):
            return x
        precond = False
    else:
        precond = True
    if tolerance is None:
        if use_eval_tolerance:
            tolerance = EVAL_CG_TOLERANCE
        else:
            tolerance = CG_TOLERANCE
    if max_tridiag_iter > max_iter:
        raise RuntimeError()
    num_rows = rhs.shape[-2]
    n_iter = min(max_iter, num_rows) if terminate_cg_by_size else max_iter
    n_tridiag_iter = min(max_tridiag_iter, num_rows)
    rhs_norm = column_norm(rhs)
    rhs_is_zero = rhs_norm < eps
    rhs_norm = masked_fill(rhs_norm, mask=rhs_is_zero, fill_value=1)
    rhs = rhs / rhs_norm
    residual = rhs - mat @ initial_guess
    batch_shape = residual.shape[:-2]
    result = np.copy(initial_guess)
    if not np.allclose(residual, residual):
        raise RuntimeError()
    residual_norm = column_norm(residual)
    has_converged = residual_norm < stop_updating_after
    if has_converged.all() and (not n_tridiag):
        n_iter = 0
    else:
        precond_residual = preconditioner(residual)
        curr_conjugate_vec = precond_residual
        residual_inner_prod = column_dot(residual, precond_residual)
        np.zeros_like(residual)
        alpha = np.zeros((*batch_shape, 1, rhs.shape[-1]))
        beta = np.zeros_like(alpha)
        is_zero = np.zeros((*batch_shape, 1, rhs.shape[-1]))
    if n_tridiag:
        t_mat = np.zeros((n_tridiag_iter, n_tridiag_iter, *batch_shape, n_tridiag))
        alpha_tridiag_is_zero = np.zeros(*batch_shape, n_tridiag)
        alpha_reciprocal = np.zeros(*batch_shape, n_tridiag)
        prev_alpha_reciprocal = np.zeros_like(alpha_reciprocal)
        prev_beta = np.zeros_like(alpha_reciprocal)
    update_tridiag = True
    last_tridiag_iter = 0
    tolerance_reached = False
    for k in range(n_iter):
        mvms = mat @ curr_conjugate_vec
        if precond:
            alpha = column_dot(curr_conjugate_vec, mvms)
            is_zero = alpha < eps
            alpha = masked_fill(alpha, mask=is_zero, fill_value=1)
            alpha = residual_inner_prod / alpha
            alpha = masked_fill(alpha, mask=is_zero, fill_value=0)
            alpha = masked_fill(alpha, mask=has_converged, fill_value=0)
            residual = residual - alpha * mvms
            precond_residual = preconditioner(residual)
            result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec = linear_cg_updates(result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec)
        else:
            alpha = column_dot(curr_conjugate_vec, mvms)
            is_zero = alpha < eps
            alpha = masked_fill(alpha, mask=is_zero, fill_value=1)
            alpha = residual_inner_prod / alpha
            alpha = masked_fill(alpha, is_zero, fill_value=0)
            alpha = masked_fill(alpha, has_converged, fill_value=0)
            residual = residual - alpha * mvms
            precond_residual = np.copy(residual)
            result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec = linear_cg_updates(result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec)
        residual_norm = column_norm(residual)
        residual_norm = masked_fill(residual_norm, mask=rhs_is_zero, fill_value=0)
        has_converged = residual_norm < stop_updating_after
        if k >= min(10, n_iter - 1) and bool(residual_norm.mean() < tolerance) and (not (n_tridiag and k < min(n_tridiag_iter, max_iter - 1))):
            tolerance_reached = True
            break
        if n_tridiag and k < n_tridiag_iter and update_tridiag:
            alpha_tridiag = np.copy(alpha)
            beta_tridiag = np.copy(beta)
            alpha_tridiag_is_zero = alpha_tridiag == 0
            alpha_tridiag = masked_fill(alpha_tridiag, mask=alpha_tridiag_is_zero, fill_value=1)
            alpha_reciprocal = 1 / alpha_tridiag
            alpha_tridiag = masked_fill(alpha_tridiag, mask=alpha_tridiag_is_zero, fill_value=0)
            if k == 0:
                t_mat[k, k] = alpha_reciprocal
            else:
                t_mat[k, k] += np.squeeze(alpha_reciprocal + prev_beta * prev_alpha_reciprocal)
                t_mat[k, k - 1] = np.sqrt(prev_beta) * prev_alpha_reciprocal
                t_mat[k - 1, k] = np.copy(t_mat[k, k - 1])
                if t_mat[k - 1, k].max() < 1e-06:
                    update_tridiag = False
            last_tridiag_iter = k
            prev_alpha_reciprocal = np.copy(alpha_reciprocal)
            prev_beta = np.copy(beta_tridiag)
    result = result * rhs_norm
    if is_vector:
        result = result[:, 0]
    if not tolerance_reached and n_iter > 0:
        raise RuntimeError()
    if n_tridiag:
        t_mat = t_mat[:last_tridiag_iter + 1, :last_tridiag_iter + 1]
        return (result, t_mat.transpose(-1, *range(2, 2 + len(batch_shape)), 0, 1))
    else:
        n_tridiag = 1
        eye = np.eye(n_tridiag_iter)
        t_mat_eye = np.tile(eye, [n_tridiag] + [1] * (len(batch_shape) + 2))
        return (result, t_mat_eye)


def spec_pp(x):
    return np.array2string(x, precision=4, floatmode='fixed')


def spec_pivoted_cholesky(mat, error_tol=1e-06, max_iter=np.inf):
    n = mat.shape[-1]
    max_iter = min(int(max_iter), n)
    d = np.array(np.diag(mat))
    orig_error = np.max(d)
    error = np.linalg.norm(d, 1) / orig_error
    pi = np.arange(n)
    L = np.zeros((max_iter, n))
    m = 0
    while m < max_iter and error > error_tol:
        permuted_d = d[pi]
        max_diag_idx = np.argmax(permuted_d[m:])
        max_diag_idx = max_diag_idx + m
        max_diag_val = permuted_d[max_diag_idx]
        i = max_diag_idx
        pi[m], pi[i] = (pi[i], pi[m])
        pim = pi[m]
        L[m, pim] = np.sqrt(max_diag_val)
        if m + 1 < n:
            row = apply_permutation(torch.from_numpy(mat), torch.tensor(pim), right_permutation=None)
            row = row.numpy().flatten()
            pi_i = pi[m + 1:]
            L_m_new = row[pi_i]
            if m > 0:
                L_prev = L[:m, pi_i]
                update = L[:m, pim]
                prod = update @ L_prev
                L_m_new = L_m_new - prod
            L_m = L[m, :]
            L_m_new = L_m_new / L_m[pim]
            L_m[pi_i] = L_m_new
            matrix_diag_current = d[pi_i]
            d[pi_i] = matrix_diag_current - L_m_new ** 2
            L[m, :] = L_m
            error = np.linalg.norm(d[pi_i], 1) / orig_error
        m = m + 1
    return (L, pi)


def spec_numpy_bspline_basis(eval_points, k, degree=3):
    k_knots = k + degree + 1
    knots = np.linspace(0, 1, k_knots - 2 * degree)
    knots = np.r_[[0] * degree, knots, [1] * degree]
    basis_funcs = scipy.interpolate.BSpline(knots, np.eye(k), k=degree)
    Bx = basis_funcs(eval_points).astype(eval_points.dtype)
    return Bx


def BSplineBasis____init__(self, sparse=True):
    super().__init__()
    if not isinstance(sparse, bool):
        raise TypeError()
    self.sparse = sparse


def BSplineBasis__make_node(self, *inputs):
    eval_points, k, d = map(pt.as_tensor, inputs)
    if not (eval_points.ndim == 1 and np.issubdtype(eval_points.dtype, np.floating)):
        raise TypeError()
    if k.type not in pt.int_types:
        raise TypeError()
    if d.type not in pt.int_types:
        raise TypeError()
    if self.sparse:
        out_type = ps.SparseTensorType('csr', eval_points.dtype)()
    else:
        out_type = pt.matrix(dtype=eval_points.dtype)
    return Apply(self, [eval_points, k, d], [out_type])


def BSplineBasis__perform(self, node, inputs, output_storage, params=None):
    eval_points, k, d = inputs
    Bx = numpy_bspline_basis(eval_points, int(k), int(d))
    if self.sparse:
        Bx = scipy.sparse.csr_matrix(Bx, dtype=eval_points.dtype)
    output_storage[0][0] = Bx


def BSplineBasis__infer_shape(self, fgraph, node, ins_shapes):
    return [(node.inputs[0].shape[0], node.inputs[1])]


def spec_bspline_basis(n, k, degree=3, dtype=None, sparse=True):
    dtype = dtype or pytensor.config.floatX
    eval_points = np.linspace(0, 1, n, dtype=dtype)
    return BSplineBasis(sparse=sparse)(eval_points, k, degree)


def spec_bspline_interpolation(x, *, n=None, eval_points=None, degree=3, sparse=True):
    x = pt.as_tensor(x)
    if n is not None and eval_points is not None:
        raise ValueError()
    elif n is not None:
        eval_points = np.linspace(0, 1, n, dtype=x.dtype)
    elif eval_points is None:
        raise ValueError()
    basis = BSplineBasis(sparse=sparse)(eval_points, x.shape[0], degree)
    if sparse:
        return ps.dot(basis, x)
    else:
        return pt.dot(basis, x)
