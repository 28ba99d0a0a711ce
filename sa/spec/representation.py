import copy
import numpy as np
import pytensor.tensor as pt
from pymc_extras.statespace.utils.constants import NEVER_TIME_VARYING, VECTOR_VALUED
from pymc_extras.statespace.core.representation import floatX


def PytensorRepresentation____init__(self, k_endog, k_states, k_posdef, design=None, obs_intercept=None, obs_cov=None, transition=None, state_intercept=None, selection=None, state_cov=None, initial_state=None, initial_state_cov=None):
    self.k_states = k_states
    self.k_endog = k_endog
    self.k_posdef = k_posdef if k_posdef is not None else k_states
    self.shapes = {'design': (1, self.k_endog, self.k_states), 'obs_intercept': (1, self.k_endog), 'obs_cov': (1, self.k_endog, self.k_endog), 'transition': (1, self.k_states, self.k_states), 'state_intercept': (1, self.k_states), 'selection': (1, self.k_states, self.k_posdef), 'state_cov': (1, self.k_posdef, self.k_posdef), 'initial_state': (self.k_states,), 'initial_state_cov': (self.k_states, self.k_states)}
    scope = locals()
    for name, shape in self.shapes.items():
        if scope[name] is not None:
            matrix = scope[name]
            if isinstance(matrix, np.ndarray):
                matrix = self._numpy_to_pytensor(name, matrix)
            else:
                matrix = self._check_provided_tensor(name, matrix)
            self._update_shape(name, matrix)
            setattr(self, name, matrix)
        else:
            matrix = pt.as_tensor_variable(np.zeros(shape, dtype=floatX), name=name, ndim=len(shape))
            setattr(self, name, matrix)


def PytensorRepresentation___validate_key(self, key):
    if key not in self.shapes:
        raise IndexError()


def PytensorRepresentation___update_shape(self, key, value):
    if isinstance(value, pt.TensorConstant | pt.TensorVariable):
        shape = value.type.shape
    else:
        shape = value.shape
    old_shape = self.shapes[key]
    ndim_core = 1 if key in VECTOR_VALUED else 2
    if not all([a == b for a, b in zip(shape[-ndim_core:], old_shape[-ndim_core:])]):
        raise ValueError()
    if key not in NEVER_TIME_VARYING:
        if len(shape) == 2 and key not in VECTOR_VALUED:
            shape = (1, *shape)
        elif len(shape) == 1:
            shape = (1, *shape)
    self.shapes[key] = shape


def PytensorRepresentation___add_time_dim_to_slice(self, name, slice_, n_dim):
    if name in NEVER_TIME_VARYING:
        return slice_
    if len(slice_) == n_dim:
        return slice_
    if len(slice_) < n_dim:
        empty_slice = (slice(None, None, None),)
        n_omitted = n_dim - len(slice_) - 1
        return (0,) + tuple(slice_) + empty_slice * n_omitted


def PytensorRepresentation___validate_key_and_get_type(key):
    if isinstance(key, tuple) and (not isinstance(key[0], str)):
        raise IndexError()
    return type(key)


def PytensorRepresentation___validate_matrix_shape(self, name, X):
    time_dim, *expected_shape = self.shapes[name]
    expected_shape = tuple(expected_shape)
    shape = X.shape if isinstance(X, np.ndarray) else X.type.shape
    is_vector = name in VECTOR_VALUED
    not_time_varying = name in NEVER_TIME_VARYING
    if not_time_varying:
        if is_vector:
            if X.ndim != 1:
                raise ValueError()
        elif X.ndim != 2:
            raise ValueError()
    elif is_vector:
        if X.ndim not in [1, 2]:
            raise ValueError()
        if X.ndim == 2 and shape[1:] != expected_shape:
            raise ValueError()
    else:
        if X.ndim not in [2, 3]:
            raise ValueError()
        if X.ndim == 3 and shape[1:] != expected_shape:
            raise ValueError()


def PytensorRepresentation___check_provided_tensor(self, name, X):
    self._validate_matrix_shape(name, X)
    if name in NEVER_TIME_VARYING:
        return pt.specify_shape(X, self.shapes[name])
    if (X.ndim == 1 and name in VECTOR_VALUED) or (X.ndim == 2 and name not in VECTOR_VALUED):
        X = pt.specify_shape(pt.expand_dims(X, (0,)), (1, *self.shapes[name][1:]))
    return X


def PytensorRepresentation___numpy_to_pytensor(self, name, X):
    X = X.copy()
    self._validate_matrix_shape(name, X)
    if name not in NEVER_TIME_VARYING:
        if X.ndim == 1 and name in VECTOR_VALUED:
            X = X[None, ...]
        elif X.ndim == 2 and name not in VECTOR_VALUED:
            X = X[None, ...]
    X_pt = pt.as_tensor(X, name=name, dtype=floatX)
    return X_pt


def PytensorRepresentation____getitem__(self, key):
    _type = self._validate_key_and_get_type(key)
    if _type is str:
        self._validate_key(key)
        matrix = getattr(self, key)
        if matrix.type.shape[0] == 1 and key not in NEVER_TIME_VARYING:
            X = matrix[(0,) + (slice(None),) * (matrix.ndim - 1)]
            X = pt.specify_shape(X, self.shapes[key][1:])
            X.name = key
            return X
        elif key in NEVER_TIME_VARYING:
            return matrix
        else:
            return matrix
    elif _type is tuple:
        name, *slice_ = key
        slice_ = tuple(slice_)
        self._validate_key(name)
        matrix = getattr(self, name)
        if slice_ == (slice(None, None, None),) * matrix.ndim:
            return matrix
        elif slice_ == (slice(None, None, None),) * (matrix.ndim - 1):
            return self[name]
        slice_ = self._add_time_dim_to_slice(name, slice_, matrix.ndim)
        return matrix[slice_]
    else:
        raise IndexError()


def PytensorRepresentation____setitem__(self, key, value):
    _type = type(key)
    if _type is str:
        self._validate_key(key)
        if isinstance(value, np.ndarray):
            value = self._numpy_to_pytensor(key, value)
        else:
            value = self._check_provided_tensor(key, value)
            value.name = key
        self._update_shape(key, value)
        setattr(self, key, value)
    elif _type is tuple:
        name, *slice_ = key
        slice_ = tuple(slice_)
        self._validate_key(name)
        matrix = getattr(self, name)
        slice_ = self._add_time_dim_to_slice(name, slice_, matrix.ndim)
        matrix = pt.set_subtensor(matrix[slice_], value)
        matrix = pt.specify_shape(matrix, self.shapes[name])
        matrix.name = name
        setattr(self, name, matrix)


def PytensorRepresentation__copy(self):
    new = copy.copy(self)
    new.shapes = self.shapes.copy()
    return new
