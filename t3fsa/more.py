"""Library functions expressed through the primitive transfer functions."""
from fractions import Fraction

from . import dim as D
from .dim import Dim
from . import tensor as X
from .tensor import Tensor, Unsupported
from .values import *  # noqa
from .lib import *  # noqa
from . import lib as L
from . import tfmodel as TFM
from . import npmodel as NPM
from .tfmodel import M, reg, tens, strong, intarr
from .npmodel import N, arr, need_arr, out


def tf(I, name, *a, **k):
  return I.call(M[name], list(a), k)


# -- TensorFlow ---------------------------------------------------------------

@reg('linalg.matvec')
def matvec(I, a, b, transpose_a=False, adjoint_a=False, a_is_sparse=False, b_is_sparse=False, name=None):
  a, b = TFM.pair(I, a, b)
  r = TFM.matmul(I, a, TFM.expand_dims(I, b, -1), transpose_a=transpose_a, adjoint_a=adjoint_a)
  return TFM.squeeze(I, r, -1)


@reg('math.squared_difference')
def squared_difference(I, x, y, name=None):
  p, q = TFM.pair(I, x, y)
  return X.pow_const(L.tensorop(I, 'Sub', p, q), 2)


@reg('math.scalar_mul', 'scalar_mul')
def scalar_mul(I, scalar, x, name=None):
  return I.binop('Mult', scalar, x)


@reg('math.multiply_no_nan')
def multiply_no_nan(I, x, y, name=None):
  return I.binop('Mult', strong(I, x), strong(I, y))


@reg('math.accumulate_n')
def accumulate_n(I, inputs, shape=None, tensor_dtype=None, name=None):
  return TFM.add_n(I, iterate(I, inputs))


def permuted(I, t, axis, order):
  """The slices of t along axis in the given order (concrete sizes only)."""
  n = t.shape[axis]
  if isinstance(n, Dim):
    raise Unsupported('reordering a symbolic dimension')
  if not n:
    return t
  return X.concat([X.slice_axis(t, axis, k, k + 1, 1) for k in order(n)], axis)


@reg('reverse')
def reverse(I, tensor, axis, name=None):
  a = intarr(I, tensor)
  if a is not None and len(a.shape) == 1:
    return Arr(a.shape, a.data[::-1], 'tf', 'i')
  t = tens(I, tensor)
  for ax in TFM.red_axes(I, t.rank, axis):
    t = permuted(I, t, ax, lambda n: range(n - 1, -1, -1))
  return t


@reg('roll')
def roll(I, input, shift, axis, name=None):
  a = intarr(I, input)
  t = tens(I, input) if a is None else None
  rank = t.rank if a is None else len(a.shape)
  sh = int_list(I, shift)
  axs = TFM.red_axes(I, rank, axis)
  if a is not None:
    if rank != 1 or len(sh) != 1:
      raise Unsupported('roll of an integer matrix')
    k = sh[0] % max(1, len(a.data))
    return Arr(a.shape, a.data[len(a.data) - k:] + a.data[:len(a.data) - k], 'tf', 'i')
  for ax, s in zip(axs, sh):
    t = permuted(I, t, ax, lambda n, s=s: [(i - s) % n for i in range(n)])
  return t


@reg('strided_slice')
def strided_slice(I, input_, begin, end, strides=None, begin_mask=0, end_mask=0, ellipsis_mask=0, new_axis_mask=0,
                  shrink_axis_mask=0, var=None, name=None):
  if any(x for x in (begin_mask, end_mask, ellipsis_mask, new_axis_mask, shrink_axis_mask)):
    raise Unsupported('strided_slice masks')
  b, e = [iterate(I, x) for x in (begin, end)]
  s = [1] * len(b) if strides is None else iterate(I, strides)
  return I.getitem(input_, tuple(slice(x, y, z) for x, y, z in zip(b, e, s)))


@reg('boolean_mask')
def boolean_mask(I, tensor, mask, axis=None, name='boolean_mask'):
  m = need_arr(I, mask)
  if len(m.shape) != 1:
    raise Unsupported('boolean_mask')
  idx = [i for i, v in enumerate(m.data) if I.truth(v)]
  return TFM.gather(I, tensor, idx, axis=0 if axis is None else axis)


@reg('linalg.adjoint')
def adjoint(I, matrix, name=None):
  return TFM.matrix_transpose(I, matrix)


@reg('linalg.solve')
def solve(I, matrix, rhs, adjoint=False, name=None):
  a = strong(I, matrix)
  if I.truth(adjoint):
    a = TFM.matrix_transpose(I, a)
  return TFM.matmul(I, tf(I, 'linalg.inv', a), rhs)


def _unstack(I, v):
  if isinstance(v, (list, tuple)):
    cols = [_unstack(I, x) for x in v]
    return [type(v)(c) if type(v) in (list, tuple) else list(c) for c in zip(*cols)]
  return TFM.unstack(I, v)


def _restack(I, vs):
  if isinstance(vs[0], (list, tuple)):
    r = [_restack(I, list(c)) for c in zip(*vs)]
    return tuple(r) if isinstance(vs[0], tuple) else r
  return TFM.stack(I, vs)


def _map(I, fn, elems):
  items = _unstack(I, elems)
  if not items:
    raise Unsupported('map over an empty axis')
  return _restack(I, [I.call(fn, [x], {}) for x in items])


@reg('map_fn')
def map_fn(I, fn, elems, dtype=None, parallel_iterations=None, back_prop=True, swap_memory=False, infer_shape=True,
           name=None, fn_output_signature=None):
  return _map(I, fn, elems)


@reg('vectorized_map')
def vectorized_map(I, fn, elems, fallback_to_while_loop=True, warn=True):
  return _map(I, fn, elems)


def _fold(I, fn, elems, initializer, rev):
  items = _unstack(I, elems)
  if rev:
    items = items[::-1]
  if initializer is None:
    v, items = items[0], items[1:]
  else:
    v = initializer
  for x in items:
    v = I.call(fn, [v, x], {})
  return v


@reg('foldl')
def foldl(I, fn, elems, initializer=None, parallel_iterations=10, back_prop=True, swap_memory=False, name=None):
  return _fold(I, fn, elems, initializer, False)


@reg('foldr')
def foldr(I, fn, elems, initializer=None, parallel_iterations=10, back_prop=True, swap_memory=False, name=None):
  return _fold(I, fn, elems, initializer, True)


@reg('scan')
def scan(I, fn, elems, initializer=None, parallel_iterations=10, back_prop=True, swap_memory=False, infer_shape=True,
         reverse=False, name=None):
  items = _unstack(I, elems)
  if I.truth(reverse):
    items = items[::-1]
  outs = []
  v = initializer
  for x in items:
    v = x if v is None else I.call(fn, [v, x], {})
    outs.append(v)
  if I.truth(reverse):
    outs = outs[::-1]
  return _restack(I, outs)


def _outside(I, func, inp, Tout, recorded):
  """A Python function called as an operation."""
  if not I.lib.eager:
    raise Unsupported('Python function as a graph operation')
  args = [strong(I, x) for x in iterate(I, inp)]
  if not recorded:
    args = [I.detach(x).view(np=True) for x in args]
  r = I.call(func, args, {})
  many = isinstance(Tout, (list, tuple))
  rs = list(iterate(I, r)) if many else [r]
  ts = list(iterate(I, Tout)) if many else [Tout]
  if len(rs) != len(ts):
    raise Unsupported('number of results of a Python function')
  res = [tf(I, 'convert_to_tensor', x, dtype=t) for x, t in zip(rs, ts)]
  return res if many else res[0]


@reg('numpy_function')
def numpy_function(I, func=None, inp=None, Tout=None, stateful=True, name=None):
  return _outside(I, func, inp, Tout, False)


@reg('py_func')
def py_func(I, func, inp, Tout, stateful=True, name=None):
  return _outside(I, func, inp, Tout, False)


@reg('py_function')
def py_function(I, func=None, inp=None, Tout=None, name=None):
  return _outside(I, func, inp, Tout, True)


@reg('custom_gradient')
def custom_gradient(I, f=None):
  def call(I, *a, **k):
    y = I.getitem(I.call(f, list(a), k), 0)
    if I.watch_defs and not _own_gradient(I, f, a, k):
      if I.cut is None:
        raise Unsupported('custom gradient')
      key = 'cut%d' % len(I.cut)
      I.cut.add(key)
      return X.from_atom(key, y.shape, y.dtype)
    return y
  return Native('custom_gradient', call)


def _own_gradient(I, f, a, k):
  """The gradient function returns the derivative of the function."""
  if k or not all(isinstance(x, Tensor) for x in a):
    raise Unsupported('custom gradient')
  us = [X.from_atom('own%d' % j, x.shape, x.dtype) for j, x in enumerate(a)]
  r = I.call(f, list(us), {})
  y, g = I.getitem(r, 0), I.getitem(r, 1)
  if not isinstance(y, Tensor):
    raise Unsupported('custom gradient')
  dy = X.from_atom('owndy', y.shape, y.dtype)
  gs = I.call(g, [dy], {})
  gs = [gs] if len(us) == 1 and not isinstance(gs, (list, tuple)) else list(iterate(I, gs))
  total = X.reduce_sum(X.mul(y, dy))
  for j, (u, w) in enumerate(zip(us, gs)):
    if w is None or X.equal(strong(I, w), X.derivative(total, 'own%d' % j, u)) is not True:
      return False
  return len(gs) == len(us)


@reg('while_loop')
def while_loop(I, cond, body, loop_vars, shape_invariants=None, parallel_iterations=10, back_prop=True,
               swap_memory=False, maximum_iterations=None, name=None):
  vs = list(iterate(I, loop_vars))
  n = 0
  limit = None if maximum_iterations is None else cint(I, maximum_iterations)
  single = len(vs) == 1
  while (limit is None or n < limit) and I.truth(I.call(cond, list(vs), {})):
    r = I.call(body, list(vs), {})
    vs = list(r) if isinstance(r, (list, tuple)) and not (single and len(r) != 1) else [r]
    n += 1
    if n > 500:
      raise Unsupported('loop bound exceeded')
  return vs if isinstance(loop_vars, list) else tuple(vs)


@reg('case')
def case(I, pred_fn_pairs, default=None, exclusive=False, strict=False, name='case'):
  pairs = iterate(I, pred_fn_pairs)
  for p in pairs:
    c, f = iterate(I, p)
    if I.truth(c):
      return I.call(f, [], {})
  if default is None:
    I.err(TFError, 'None of the conditions evaluated as True')
  return I.call(default, [], {})


@reg('switch_case')
def switch_case(I, branch_index, branch_fns, default=None, name='switch_case'):
  k = cint(I, branch_index)
  fns = iterate(I, branch_fns)
  if 0 <= k < len(fns):
    return I.call(fns[k], [], {})
  return I.call(fns[-1] if default is None else default, [], {})


def _flatten(s):
  if isinstance(s, (list, tuple)):
    return [y for x in s for y in _flatten(x)]
  if isinstance(s, dict):
    return [y for k in sorted(s) for y in _flatten(s[k])]
  return [s]


@reg('nest.flatten')
def nest_flatten(I, structure, expand_composites=False):
  return _flatten(structure)


@reg('nest.map_structure')
def map_structure(I, func, *structure, **kwargs):
  def rec(*ss):
    s = ss[0]
    if isinstance(s, (list, tuple)):
      if any(not isinstance(t, (list, tuple)) or len(t) != len(s) for t in ss):
        I.err(ValueError, "The two structures don't have the same number of elements.")
      r = [rec(*t) for t in zip(*ss)]
      return tuple(r) if isinstance(s, tuple) else r
    if isinstance(s, dict):
      return {k: rec(*[t[k] for t in ss]) for k in s}
    return I.call(func, list(ss), {})
  return rec(*structure)


@reg('nest.pack_sequence_as')
def pack_sequence_as(I, structure, flat_sequence, expand_composites=False):
  it = iter(iterate(I, flat_sequence))

  def rec(s):
    if isinstance(s, (list, tuple)):
      r = [rec(x) for x in s]
      return tuple(r) if isinstance(s, tuple) else r
    if isinstance(s, dict):
      return {k: rec(s[k]) for k in sorted(s)}
    return next(it)
  return rec(structure)


@reg('nest.is_nested')
def is_nested(I, structure):
  return isinstance(structure, (list, tuple, dict))


@reg('nest.assert_same_structure')
def assert_same_structure(I, nest1, nest2, check_types=True, expand_composites=False):
  def shape(s):
    return [shape(x) for x in s] if isinstance(s, (list, tuple)) else 0
  if shape(nest1) != shape(nest2):
    I.err(ValueError, "The two structures don't have the same nested structure.")


@reg('math.reduce_euclidean_norm')
def reduce_euclidean_norm(I, input_tensor, axis=None, keepdims=False, name=None):
  t = strong(I, input_tensor)
  return X.pow_const(X.reduce_sum(X.mul(t, t), TFM.red_axes(I, t.rank, axis), I.truth(keepdims)), Fraction(1, 2))


@reg('nn.l2_loss')
def l2_loss(I, t, name=None):
  x = strong(I, t)
  s = X.reduce_sum(X.mul(x, x), list(range(x.rank)), False)
  return X.mul(s, X.scalar(Fraction(1, 2), x.dtype))


@reg('linalg.normalize')
def normalize(I, tensor, ord='euclidean', axis=None, name=None):
  n = TFM.norm(I, tensor, ord, axis, True)
  return (I.binop('Div', strong(I, tensor), n), n)


@reg('nn.l2_normalize', 'math.l2_normalize')
def l2_normalize(I, x, axis=None, epsilon=None, name=None, dim=None):
  raise Unsupported('l2_normalize')


@reg('math.reduce_variance')
def reduce_variance(I, input_tensor, axis=None, keepdims=False, name=None):
  t = strong(I, input_tensor)
  m = TFM.reduce_mean(I, t, axis, True)
  d = L.tensorop(I, 'Sub', t, m)
  return TFM.reduce_mean(I, X.mul(d, d), axis, keepdims)


@reg('math.reduce_std')
def reduce_std(I, input_tensor, axis=None, keepdims=False, name=None):
  return X.pow_const(reduce_variance(I, input_tensor, axis, keepdims), Fraction(1, 2))


@reg('nn.bias_add')
def bias_add(I, value, bias, data_format=None, name=None):
  return I.binop('Add', strong(I, value), bias)


@reg('math.xdivy')
def xdivy(I, x, y, name=None):
  return I.binop('Div', strong(I, x), y)


for _n in ('log1p', 'expm1', 'erf', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'softplus', 'ceil', 'rint'):
  M['math.' + _n] = Native('tf.math.' + _n, TFM.un_(lambda I, t, _n=_n: X.unary(t, _n)))


@reg('identity_n')
def identity_n(I, input, name=None):
  return [TFM.identity(I, x) for x in iterate(I, input)]


@reg('as_dtype', 'dtypes.as_dtype')
def as_dtype(I, type_value):
  return L.to_dtype(I, type_value)


@reg('linalg.tensor_diag')
def tensor_diag(I, diagonal, name=None):
  t = tens(I, diagonal)
  if t.rank != 1:
    raise Unsupported('tensor_diag')
  return tf(I, 'linalg.diag', diagonal)


@reg('argsort')
def tf_argsort(I, values, axis=-1, direction='ASCENDING', stable=False, name=None):
  a = intarr(I, values)
  if a is None or len(a.shape) != 1:
    raise Unsupported('argsort of data')
  idx = L.sort_items(I, list(range(len(a.data))), Native('k', lambda I, i: a.data[i]), direction == 'DESCENDING')
  return Arr(a.shape, idx, 'tf', 'i')


@reg('sort')
def tf_sort(I, values, axis=-1, direction='ASCENDING', name=None):
  a = intarr(I, values)
  if a is None or len(a.shape) != 1:
    raise Unsupported('sort of data')
  return Arr(a.shape, L.sort_items(I, list(a.data), None, direction == 'DESCENDING'), 'tf', 'i')


@reg('linalg.set_diag')
def set_diag(I, input, diagonal, name='set_diag', k=0, align='RIGHT_LEFT'):
  t = strong(I, input)
  if k != 0:
    raise Unsupported('set_diag')
  if not D.same(t.shape[-1], t.shape[-2]):
    raise Unsupported('set_diag of a rectangular matrix')
  e = X.eye(t.shape[-1], t.shape[-1], t.dtype, [])
  return X.add(L.tensorop(I, 'Sub', t, X.mul(t, e)), tf(I, 'linalg.diag', diagonal))


# -- NumPy ----------------------------------------------------------------------

def npreg(*names):
  def deco(fn):
    for n in names:
      N[n] = Native('np.' + n, NPM._traced(fn))
    return fn
  return deco


def _perm(I, a, perm):
  x = arr(I, a)
  if isinstance(x, Tensor):
    return X.transpose(x, perm).view(np=True)
  return TFM.arr_transpose(I, x, perm)


def _axis(I, ax, rank):
  k = cint(I, ax)
  if k < -rank or k >= rank:
    I.err(ValueError, 'axis %d is out of bounds for array of dimension %d' % (k, rank))
  return k % rank


@npreg('swapaxes')
def swapaxes(I, a, axis1, axis2):
  r = len(arr(I, a).shape)
  p = list(range(r))
  i, j = _axis(I, axis1, r), _axis(I, axis2, r)
  p[i], p[j] = p[j], p[i]
  return _perm(I, a, p)


@npreg('moveaxis')
def moveaxis(I, a, source, destination):
  r = len(arr(I, a).shape)
  s = [_axis(I, x, r) for x in int_list(I, source)]
  d = [_axis(I, x, r) for x in int_list(I, destination)]
  p = [i for i in range(r) if i not in s]
  for dst, src in sorted(zip(d, s)):
    p.insert(dst, src)
  return _perm(I, a, p)


@npreg('rollaxis')
def rollaxis(I, a, axis, start=0):
  r = len(arr(I, a).shape)
  ax = _axis(I, axis, r)
  st = cint(I, start)
  if st < 0:
    st += r
  if ax < st:
    st -= 1
  p = [i for i in range(r) if i != ax]
  p.insert(st, ax)
  return _perm(I, a, p)


@npreg('roll')
def np_roll(I, a, shift, axis=None):
  x = need_arr(I, a)
  if len(x.shape) != 1:
    raise Unsupported('np.roll')
  k = cint(I, shift) % max(1, len(x.data))
  return Arr(x.shape, x.data[len(x.data) - k:] + x.data[:len(x.data) - k], 'np', x.kind)


@npreg('unravel_index')
def unravel_index(I, indices, shape, order='C'):
  x = need_arr(I, indices)
  cols = []
  rest = x
  for n in reversed(shape_list(I, shape)):
    cols.insert(0, I.binop('Mod', rest, n))
    rest = I.binop('FloorDiv', rest, n)
  return tuple(out(c) for c in cols)


@npreg('ravel_multi_index')
def ravel_multi_index(I, multi_index, dims, mode='raise', order='C'):
  v = 0
  for i, n in zip(iterate(I, multi_index), shape_list(I, dims)):
    v = I.binop('Add', I.binop('Mult', v, n), i)
  return v


@npreg('diff')
def diff(I, a, n=1, axis=-1):
  x = need_arr(I, a)
  if len(x.shape) != 1 or n != 1:
    raise Unsupported('np.diff')
  return Arr((len(x.data) - 1,), [I.binop('Sub', q, p) for p, q in zip(x.data, x.data[1:])], 'np', x.kind)


@npreg('outer')
def outer(I, a, b, out=None):
  x, y = need_arr(I, a), need_arr(I, b)
  return Arr((len(x.data), len(y.data)), [I.binop('Mult', p, q) for p in x.data for q in y.data], 'np')


@npreg('kron')
def kron(I, a, b):
  x, y = arr(I, a), arr(I, b)
  if len(x.shape) == 1 and len(y.shape) == 1 and isinstance(x, Arr) and isinstance(y, Arr):
    return Arr((len(x.data) * len(y.data),), [I.binop('Mult', p, q) for p in x.data for q in y.data], 'np')
  if len(x.shape) == 2 and len(y.shape) == 2:
    p, q = NPM.L_tensor(I, x), NPM.L_tensor(I, y)
    r = X.einsum([['i', 'j'], ['k', 'l']], ['i', 'k', 'j', 'l'], [p, q])
    return X.reshape(r, [D.mul(p.shape[0], q.shape[0]), D.mul(p.shape[1], q.shape[1])]).view(np=True)
  raise Unsupported('np.kron')


@npreg('unique')
def unique(I, ar, return_index=False, return_inverse=False, return_counts=False, axis=None):
  if return_index or return_inverse or return_counts:
    raise Unsupported('np.unique')
  x = need_arr(I, ar)
  vals = []
  for v in L.sort_items(I, list(x.data), None, False):
    if not vals or not L.equal_vals(I, vals[-1], v):
      vals.append(v)
  return Arr((len(vals),), vals, 'np', x.kind)


@npreg('clip')
def clip(I, a, a_min=None, a_max=None, out=None):
  r = a
  if a_min is not None:
    r = N['maximum'].fn(I, r, a_min)
  if a_max is not None:
    r = N['minimum'].fn(I, r, a_max)
  return r


@npreg('full_like')
def full_like(I, a, fill_value, dtype=None):
  x = need_arr(I, a)
  return Arr(x.shape, [NPM.to_int(I, fill_value) if x.kind == 'i' and dtype is None else fill_value] * len(x.data), 'np')


def _split(I, a, ios, equal):
  x = need_arr(I, a)
  if len(x.shape) != 1:
    raise Unsupported('np.split')
  n = len(x.data)
  if isinstance(num(I, ios), (int, Dim)) and not isinstance(ios, (list, tuple)):
    k = cint(I, ios)
    if equal and n % k:
      I.err(ValueError, 'array split does not result in an equal division')
    sizes = [n // k + (1 if i < n % k else 0) for i in range(k)]
    cuts = [sum(sizes[:i]) for i in range(k + 1)]
  else:
    cuts = [0] + int_list(I, ios) + [n]
  return [Arr((len(x.data[p:q]),), x.data[p:q], 'np', x.kind) for p, q in zip(cuts, cuts[1:])]


@npreg('split')
def np_split(I, ary, indices_or_sections, axis=0):
  return _split(I, ary, indices_or_sections, True)


@npreg('array_split')
def array_split(I, ary, indices_or_sections, axis=0):
  return _split(I, ary, indices_or_sections, False)


@npreg('count_nonzero')
def count_nonzero(I, a, axis=None, keepdims=False):
  x = need_arr(I, a)
  if axis is not None:
    raise Unsupported('np.count_nonzero axis')
  return sum(1 for v in x.data if I.truth(v))


@npreg('isin', 'in1d')
def isin(I, element, test_elements, assume_unique=False, invert=False):
  x, y = need_arr(I, element), need_arr(I, test_elements)
  return out(Arr(x.shape, [any(L.equal_vals(I, p, q) for q in y.data) for p in x.data], 'np', 'b'))


@npreg('take')
def take(I, a, indices, axis=None, out=None, mode='raise'):
  x = need_arr(I, a)
  if len(x.shape) != 1 and axis != 0:
    raise Unsupported('np.take')
  return I.getitem(x, need_arr(I, indices))


def _argext(op):
  def f(I, a, axis=None, out=None):
    x = need_arr(I, a)
    if axis is not None and len(x.shape) != 1:
      raise Unsupported('np.arg%s axis' % op)
    best = 0
    for i in range(1, len(x.data)):
      if I.truth(I.compare(op, x.data[i], x.data[best])):
        best = i
    return NpInt(best)
  return f


npreg('argmax')(_argext('Gt'))
npreg('argmin')(_argext('Lt'))


@npreg('broadcast_to')
def np_broadcast_to(I, array, shape, subok=False):
  x = need_arr(I, array)
  sl = shape_list(I, shape)
  if any(not isinstance(s, int) for s in sl):
    raise Unsupported('np.broadcast_to')
  n = 1
  for s in sl:
    n *= s
  z = Arr(sl, [0] * n, 'np', 'i')
  sh, idx = L.np_broadcast(I, x, z)
  if list(sh) != list(sl):
    I.err(ValueError, 'operands could not be broadcast together')
  return Arr(sh, [x.data[i] for i, _ in idx], 'np', x.kind)


@npreg('column_stack')
def column_stack(I, tup):
  xs = [need_arr(I, v) for v in iterate(I, tup)]
  xs = [Arr((len(x.data), 1), x.data, 'np', x.kind) if len(x.shape) < 2 else x for x in xs]
  return NPM.join(I, xs, 1)


@npreg('flip')
def flip(I, m, axis=None):
  x = arr(I, m)
  rank = len(x.shape)
  if isinstance(x, Tensor):
    return reverse(I, x, list(range(rank)) if axis is None else axis).view(np=True)
  axs = range(rank) if axis is None else TFM.red_axes(I, rank, axis)
  idx = tuple(slice(None, None, -1) if i in axs else slice(None) for i in range(rank))
  return I.getitem(x, idx)


npreg('flipud')(lambda I, m: flip(I, m, 0))
npreg('fliplr')(lambda I, m: flip(I, m, 1))


@npreg('issubdtype')
def issubdtype(I, arg1, arg2):
  d = L.to_dtype(I, arg1)
  if isinstance(arg2, TypeV):
    k = arg2.name.split('.')[-1]
    if k in ('integer', 'signedinteger', 'int'):
      return L.is_int(d)
    if k in ('floating', 'float', 'inexact'):
      return L.is_float(d)
    if k in ('number', 'generic'):
      return d.name != 'bool'
    if k == 'bool':
      return d.name == 'bool'
    raise Unsupported('np.issubdtype')
  return d.name == L.to_dtype(I, arg2).name


@npreg('finfo')
def finfo(I, dtype):
  d = L.to_dtype(I, dtype)
  e = {'float16': 10, 'float32': 23, 'float64': 52}.get(d.name)
  if e is None:
    raise Unsupported('np.finfo')
  tiny = {10: 14, 23: 126, 52: 1022}[e]
  return Record('np.finfo', {'eps': PyFloat(Fraction(1, 2 ** e), np=True), 'tiny': PyFloat(Fraction(1, 2 ** tiny), np=True),
                             'smallest_normal': PyFloat(Fraction(1, 2 ** tiny), np=True),
                             'bits': {10: 16, 23: 32, 52: 64}[e], 'dtype': d})


@npreg('dtype')
def np_dtype(I, dtype):
  return L.to_dtype(I, dtype)


def _close(I, a, b):
  x, y = need_arr(I, a), need_arr(I, b)
  sh, idx = L.np_broadcast(I, x, y)
  for i, j in idx:
    if not I.truth(I.compare('Eq', x.data[i], y.data[j])):
      raise Unsupported('np.isclose')
  return sh


@npreg('allclose')
def allclose(I, a, b, rtol=None, atol=None, equal_nan=False):
  _close(I, a, b)
  return True


@npreg('isclose')
def isclose(I, a, b, rtol=None, atol=None, equal_nan=False):
  sh = _close(I, a, b)
  n = 1
  for s in sh:
    n *= s
  return out(Arr(sh, [True] * n, 'np', 'b'))


def _t(I, x):
  return NPM.L_tensor(I, x)


def _np(I, t):
  """Result of a tensor operation as NumPy value."""
  return I.detach(t).view(np=True)


@npreg('matmul')
def np_matmul(I, x1, x2):
  a, b = _t(I, x1), _t(I, x2)
  if a.rank == 1 and b.rank == 1:
    return _np(I, X.einsum([['i'], ['i']], [], [a, b]))
  if a.rank == 1:
    return _np(I, TFM.squeeze(I, TFM.matmul(I, X.expand_dims(a, 0), b), -2))
  if b.rank == 1:
    return _np(I, TFM.squeeze(I, TFM.matmul(I, a, X.expand_dims(b, 1)), -1))
  return _np(I, TFM.matmul(I, a, b))


@npreg('dot')
def np_dot(I, a, b, out=None):
  x, y = arr(I, a), arr(I, b)
  if len(x.shape) == 1 and len(y.shape) == 1 and isinstance(x, Arr) and isinstance(y, Arr):
    if x.shape != y.shape:
      I.err(ValueError, 'shapes not aligned')
    v = 0
    for p, q in zip(x.data, y.data):
      v = I.binop('Add', v, I.binop('Mult', p, q))
    return v
  if len(y.shape) > 2:
    raise Unsupported('np.dot')
  if len(x.shape) == 0 or len(y.shape) == 0:
    return I.binop('Mult', x, y)
  return np_matmul(I, a, b)


@npreg('einsum')
def np_einsum(I, subscripts, *operands, **kwargs):
  return _np(I, TFM.einsum(I, subscripts, *[_t(I, x) for x in operands]))


@npreg('tensordot')
def np_tensordot(I, a, b, axes=2):
  return _np(I, TFM.tensordot(I, _t(I, a), _t(I, b), axes))


@npreg('trace')
def np_trace(I, a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
  if offset != 0 or axis1 != 0 or axis2 != 1:
    raise Unsupported('np.trace')
  t = _t(I, a)
  o = ['b%d' % i for i in range(t.rank - 2)]
  return _np(I, X.einsum([['i', 'i'] + o], o, [t]))


@npreg('diag')
def np_diag(I, v, k=0):
  x = arr(I, v)
  if k != 0:
    raise Unsupported('np.diag')
  if isinstance(x, Arr) and len(x.shape) == 1:
    n = len(x.data)
    z = PyFloat(0) if x.kind == 'f' else 0
    return Arr((n, n), [x.data[i] if i == j else z for i in range(n) for j in range(n)], 'np', x.kind)
  t = _t(I, v)
  return _np(I, tf(I, 'linalg.diag' if t.rank == 1 else 'linalg.diag_part', t))


@npreg('linalg.norm')
def np_norm(I, x, ord=None, axis=None, keepdims=False):
  if ord is not None and ord != 'fro' and num(I, ord) != 2:
    raise Unsupported('np.linalg.norm order')
  t = _t(I, x)
  if ord is not None and t.rank == 2 and ord != 'fro' and axis is None:
    raise Unsupported('spectral norm')
  s = X.reduce_sum(X.mul(t, t), TFM.red_axes(I, t.rank, axis), I.truth(keepdims))
  return _np(I, X.pow_const(s, Fraction(1, 2)))


@npreg('ndindex')
def ndindex(I, *shape):
  import itertools
  sl = int_list(I, shape[0]) if len(shape) == 1 and not isinstance(shape[0], (int, Dim)) else [cint(I, s) for s in shape]
  return Iter(list(itertools.product(*[range(s) for s in sl])))


@npreg('ndenumerate')
def ndenumerate(I, a):
  import itertools
  x = need_arr(I, a)
  return Iter(list(zip(itertools.product(*[range(s) for s in x.shape]), [x.wrap(v) for v in x.data])))


@npreg('nonzero')
def nonzero(I, a):
  import itertools
  x = need_arr(I, a)
  pos = [p for p, v in zip(itertools.product(*[range(s) for s in x.shape]), x.data) if I.truth(v)]
  return tuple(Arr((len(pos),), [p[k] for p in pos], 'np', 'i') for k in range(len(x.shape)))


@npreg('argwhere')
def argwhere(I, a):
  cols = nonzero(I, a)
  n = len(cols[0].data)
  return Arr((n, len(cols)), [c.data[i] for i in range(n) for c in cols], 'np', 'i')


@npreg('flatnonzero')
def flatnonzero(I, a):
  x = need_arr(I, a)
  idx = [i for i, v in enumerate(x.data) if I.truth(v)]
  return Arr((len(idx),), idx, 'np', 'i')


@npreg('sort')
def np_sort(I, a, axis=-1, kind=None, order=None):
  x = need_arr(I, a)
  if len(x.shape) != 1:
    raise Unsupported('np.sort')
  return Arr(x.shape, L.sort_items(I, list(x.data), None, False), 'np', x.kind)


@npreg('tile')
def np_tile(I, A, reps):
  x = arr(I, A)
  r = int_list(I, reps)
  if isinstance(x, Arr) and len(x.shape) <= 1 and len(r) == 1:
    return Arr((len(x.data) * r[0],), x.data * r[0], 'np', x.kind)
  sh = list(x.shape)
  k = max(len(sh), len(r))
  r = [1] * (k - len(r)) + r
  sh = [1] * (k - len(sh)) + sh
  if isinstance(x, Tensor):
    return X.tile(X.reshape(x, sh), r).view(np=True)
  v = Arr(sh, x.data, 'np', x.kind)
  for ax, c in enumerate(r):
    v = TFM.arr_concat(I, [v] * c, ax, 'np', ValueError)
  return v


@npreg('repeat')
def np_repeat(I, a, repeats, axis=None):
  x = need_arr(I, a)
  reps = int_list(I, repeats)
  if len(x.shape) <= 1 or axis is None:
    if len(reps) == 1:
      reps = reps * len(x.data)
    data = [v for v, k in zip(x.data, reps) for _ in range(k)]
    return Arr((len(data),), data, 'np', x.kind)
  raise Unsupported('np.repeat')


@npreg('result_type', 'promote_types')
def result_type(I, *a):
  ds = [L.to_dtype(I, x) for x in a]
  fl = [d for d in ds if L.is_float(d)]
  pick = lambda xs: max(xs, key=lambda d: int(''.join(c for c in d.name if c.isdigit()) or 0))
  if fl and len(fl) == len(ds) or not fl:
    return pick(ds)
  raise Unsupported('np.result_type')


def reduce_method(I, op):
  """np.<op>.reduce"""
  full = {'multiply': 'prod', 'add': 'sum', 'maximum': 'max', 'minimum': 'min', 'logical_and': 'all',
          'logical_or': 'any'}.get(op)
  if full is None:
    raise Unsupported('np.%s.reduce' % op)
  return Native('np.%s.reduce' % op, lambda I, a, axis=0, dtype=None, keepdims=False: N[full].fn(
      I, a, axis=None if len(arr(I, a).shape) == 1 else axis, keepdims=keepdims))


def ufunc_attr(I, name, attr):
  """Methods of universal functions."""
  op = name.split('.')[-1]
  if attr == 'reduce':
    return reduce_method(I, op)
  if attr == 'accumulate' and op in ('multiply', 'add'):
    f = N['cumprod' if op == 'multiply' else 'cumsum']
    return Native('np.%s.accumulate' % op, lambda I, array, axis=0: f.fn(I, array))
  if attr == 'outer' and op == 'multiply':
    return N['outer']
  raise Unsupported('np.%s.%s' % (op, attr))


METHODS = {'swapaxes': swapaxes, 'clip': clip, 'argmax': None, 'argmin': None, 'take': take, 'nonzero': nonzero,
           'dot': np_dot, 'trace': np_trace}
for _n in METHODS:
  METHODS[_n] = N[_n].fn
