"""Transfer functions for the TensorFlow API (real parameter names)."""
from fractions import Fraction

from . import dim as D
from .dim import Dim
from . import term as T
from . import tensor as X
from .tensor import Tensor, Unsupported, OpError, DType
from .values import *  # noqa
from .interp import EXC, LazyGen, _MISSING
from .lib import *  # noqa
from . import lib as L
from .term import Term, fresh

M = {}          # 'tensorflow.<path>' suffix -> value
ALIASES = {}


def reg(*names):
  def deco(fn):
    for n in names:
      M[n] = Native('tf.' + n, fn)
    return fn
  return deco


F32 = DT['float32']


# ----------------------------------------------------------------------------
# integer structure (shape arithmetic) versus data

def intarr(I, v):
  """v as integer Arr of flavor tf, or None when it is data."""
  if isinstance(v, bool):
    return None
  if isinstance(v, (int, Dim)):
    return Arr((), [v], 'tf')
  if isinstance(v, Arr):
    if v.kind == 'i' or (v.kind == 'f' and not v.data and v.flavor == 'tf'):
      return Arr(v.shape, v.data, 'tf', 'i')
    return None
  if isinstance(v, (list, tuple)):
    if not v:
      return Arr((0,), [], 'tf', 'i')
    subs = [intarr(I, x) for x in v]
    if any(s is None for s in subs):
      return None
    if any(s.shape != subs[0].shape for s in subs):
      I.err(ValueError, "Can't convert non-rectangular Python sequence to Tensor")
    return Arr((len(subs),) + subs[0].shape, [x for s in subs for x in s.data], 'tf')
  if isinstance(v, TShape):
    if v.dims is None or None in v.dims:
      I.err(ValueError, 'Cannot convert a partially known TensorShape %r to a Tensor' % v)
    return Arr((len(v.dims),), v.dims, 'tf', 'i')
  if isinstance(v, (RangeV, Iter)):
    return intarr(I, iterate(I, v))
  return None


def tens(I, v, dtype=None):
  """Argument as data tensor (weak dtype for Python numbers)."""
  if isinstance(v, Tensor):
    if v.np:
      return v.view(np=False)
    return v
  return as_tensor(I, v, dtype)


def strong(I, v):
  """Tensor with a definite dtype."""
  t = tens(I, v)
  if t.dtype is None:
    if isinstance(v, PyFloat) and v.np:
      return t.view(dtype=DT['float64'])
    if isinstance(v, (PyFloat, Inf, float)):
      return t.view(dtype=F32)
    if isinstance(v, (list, tuple)) and intarr(I, v) is None:
      return t.view(dtype=F32)
    return t.view(dtype=DT['int32'])
  return t


def pair(I, x, y):
  """Two operands with TF's conversion rules for Python scalars/arrays."""
  a, b = isinstance(x, (Tensor, Var)) and not getattr(x, 'np', False), \
      isinstance(y, (Tensor, Var)) and not getattr(y, 'np', False)
  if a and not b:
    tx = tens(I, x)
    L.check_weak(I, y, tx.dtype, 'op')
    ty = tens(I, y)
    if not isinstance(y, Arr) or y.flavor == 'np' or y.kind == 'i' and tx.dtype is not None and L.is_int(tx.dtype):
      ty = ty.view(dtype=tx.dtype)
    return tx, ty
  if b and not a:
    ty = tens(I, y)
    L.check_weak(I, x, ty.dtype, 'op')
    tx = tens(I, x)
    if not isinstance(x, Arr) or x.flavor == 'np' or x.kind == 'i' and ty.dtype is not None and L.is_int(ty.dtype):
      tx = tx.view(dtype=ty.dtype)
    return tx, ty
  return strong(I, x), strong(I, y)


# ----------------------------------------------------------------------------
# structure

@reg('reshape')
def reshape(I, tensor, shape, name=None):
  a = intarr(I, tensor)
  sl = shape_list(I, shape)
  if a is not None:
    return arr_reshape(I, a, sl)
  return X.reshape(tens(I, tensor), sl)


def arr_reshape(I, a, sl, etype=None):
  n = len(a.data)
  sl = list(sl)
  if None in sl:
    if sl.count(None) > 1:
      I.err(etype or TFError, 'Only one input size may be -1')
    k = D.prod([s for s in sl if s is not None])
    if isinstance(k, Dim):
      raise Unsupported('symbolic reshape of a concrete array')
    if k == 0 or n % k:
      I.err(etype or TFError, 'cannot reshape array of size %d' % n)
    sl[sl.index(None)] = n // k
  if any(isinstance(s, Dim) for s in sl):
    raise Unsupported('symbolic reshape of a concrete array')
  p = 1
  for s in sl:
    p *= s
  if p != n:
    I.err(etype or TFError, 'cannot reshape array of size %d into %s' % (n, sl))
  return Arr(sl, a.data, a.flavor, a.kind)


@reg('transpose')
def transpose(I, a, perm=None, conjugate=False, name='transpose'):
  ia = intarr(I, a)
  if ia is not None:
    return arr_transpose(I, ia, None if perm is None else int_list(I, perm))
  t = tens(I, a)
  p = list(reversed(range(t.rank))) if perm is None else int_list(I, perm)
  if len(p) != t.rank:
    I.err(ValueError, 'transpose: perm %s does not match rank %d' % (p, t.rank))
  p = [x + t.rank if x < 0 else x for x in p]
  return X.transpose(t, p)


def arr_transpose(I, a, perm):
  r = len(a.shape)
  if perm is None:
    perm = list(reversed(range(r)))
  if sorted(perm) != list(range(r)):
    I.err(ValueError, "axes don't match array")
  shape = [a.shape[p] for p in perm]
  strides = []
  s = 1
  for d in reversed(a.shape):
    strides.insert(0, s)
    s *= d
  data = []

  def rec(k, off):
    if k == r:
      data.append(a.data[off])
      return
    for i in range(shape[k]):
      rec(k + 1, off + i * strides[perm[k]])
  rec(0, 0)
  return Arr(shape, data, a.flavor, a.kind)


@reg('linalg.matrix_transpose')
def matrix_transpose(I, a, name='matrix_transpose', conjugate=False):
  t = tens(I, a)
  p = list(range(t.rank))
  p[-1], p[-2] = p[-2], p[-1]
  return X.transpose(t, p)


@reg('expand_dims')
def expand_dims(I, input, axis, name=None):
  ax = cint(I, axis)
  a = intarr(I, input)
  if a is not None:
    r = len(a.shape) + 1
    if ax < -r or ax >= r:
      I.err(TFError, 'expand_dims axis out of range')
    if ax < 0:
      ax += r
    return Arr(a.shape[:ax] + (1,) + a.shape[ax:], a.data, 'tf', a.kind)
  return X.expand_dims(tens(I, input), ax)


@reg('squeeze')
def squeeze(I, input, axis=None, name=None):
  a = intarr(I, input)
  ax = axis_arg(I, axis)
  if a is not None:
    r = len(a.shape)
    if ax is None:
      sh = [s for s in a.shape if s != 1]
    else:
      axl = [x + r if x < 0 else x for x in (ax if isinstance(ax, list) else [ax])]
      for x in axl:
        if x < 0 or x >= r or a.shape[x] != 1:
          I.err(TFError, 'Can not squeeze dim[%d]' % x)
      sh = [s for i, s in enumerate(a.shape) if i not in axl]
    return Arr(sh, a.data, 'tf', a.kind)
  t = tens(I, input)
  if ax is None:
    for d in t.shape:
      if isinstance(d, Dim) and D.lower(d) < 2:
        D.decide_eq(d, 1)
    if any(isinstance(d, Dim) and D.cmp_eq(d, 1) is None for d in t.shape):
      keep = [i for i, d in enumerate(t.shape) if d != 1]
      return t.view(shape=tuple(t.shape[i] for i in keep), static=tuple(t.static[i] for i in keep), _axes=None)
  return X.squeeze(t, ax)


@reg('concat')
def concat(I, values, axis, name='concat'):
  vals = values if isinstance(values, (list, tuple)) else (
      [values] if isinstance(values, (Tensor, Arr)) else iterate(I, values))
  vals = list(vals)
  ax = cint(I, axis)
  if not vals:
    I.err(ValueError, 'concat: need at least one tensor')
  arrs = [intarr(I, v) for v in vals]
  if all(a is not None for a in arrs):
    return arr_concat(I, arrs, ax, 'tf', TFError)
  ts = [tens(I, v) for v in vals]
  return X.concat(weak_fix(I, ts), ax)


def weak_fix(I, ts):
  """Give weakly typed operands the dtype of the strong ones."""
  dt = None
  for t in ts:
    if t.dtype is not None:
      dt = t.dtype
      break
  return [t if t.dtype is not None or dt is None else t.view(dtype=dt) for t in ts]


def arr_concat(I, arrs, ax, flavor, etype):
  r = len(arrs[0].shape)
  if r == 0:
    I.err(ValueError if etype is ValueError else etype, 'zero-dimensional arrays cannot be concatenated')
  if any(len(a.shape) != r for a in arrs):
    I.err(etype, 'concat of different ranks: %s' % [a.shape for a in arrs])
  if ax < -r or ax >= r:
    I.err(etype, 'concat axis out of range')
  if ax < 0:
    ax += r
  for i in range(r):
    if i != ax and any(a.shape[i] != arrs[0].shape[i] for a in arrs):
      I.err(etype, 'concat: dimensions differ')
  outer = 1
  for d in arrs[0].shape[:ax]:
    outer *= d
  data = []
  for o in range(outer):
    for a in arrs:
      n = len(a.data) // outer if outer else 0
      data.extend(a.data[o * n:(o + 1) * n])
  sh = list(arrs[0].shape)
  sh[ax] = sum(a.shape[ax] for a in arrs)
  kind = None
  if all(a.kind == 'i' for a in arrs):
    kind = 'i'
  return Arr(sh, data, flavor, kind)


@reg('stack')
def stack(I, values, axis=0, name='stack'):
  vals = list(iterate(I, values)) if not isinstance(values, (list, tuple)) else list(values)
  ax = cint(I, axis)
  if not vals:
    I.err(ValueError, 'stack: need at least one tensor')
  arrs = [intarr(I, v) for v in vals]
  if all(a is not None for a in arrs):
    if any(a.shape != arrs[0].shape for a in arrs):
      I.err(TFError, 'stack: shapes differ')
    r = len(arrs[0].shape) + 1
    if ax < 0:
      ax += r
    es = [Arr(a.shape[:ax] + (1,) + a.shape[ax:], a.data, 'tf', a.kind) for a in arrs]
    return arr_concat(I, es, ax, 'tf', TFError)
  ts = weak_fix(I, [tens(I, v) for v in vals])
  for t in ts:
    if t.shape is None:
      return X.top(t.top, None, t.dtype)
    if len(t.shape) != len(ts[0].shape) or any(not D.same(a, b) for a, b in zip(t.shape, ts[0].shape)):
      I.err(TFError, 'Shapes of all inputs must match: %s' % [list(map(D.show, u.shape)) for u in ts])
  X.check_dtypes(ts, 'stack')
  if len(ts[0].shape) == 0:
    return stack_values(I, ts, 0)
  r = len(ts[0].shape) + 1
  if ax < -r or ax >= r:
    I.err(ValueError, 'stack axis out of range')
  if ax < 0:
    ax += r
  return X.concat([X.expand_dims(t, ax) for t in ts], ax)


@reg('unstack')
def unstack(I, value, num=None, axis=0, name='unstack'):
  a = intarr(I, value)
  ax = cint(I, axis)
  if a is not None and ax == 0:
    return [getitem(I, a, i) for i in range(a.shape[0])]
  t = tens(I, value)
  if ax < 0:
    ax += t.rank
  n = t.shape[ax]
  if isinstance(n, Dim):
    raise Unsupported('unstack of a symbolic dimension')
  if num is not None and cint(I, num) != n:
    I.err(ValueError, 'unstack num mismatch')
  return [X.index_axis(t, ax, i) for i in range(n)]


@reg('split')
def split(I, value, num_or_size_splits, axis=0, num=None, name='split'):
  ax = cint(I, axis)
  ns = num_or_size_splits
  a = intarr(I, value)
  t = None if a is not None else tens(I, value)
  rank = len(a.shape) if a is not None else t.rank
  if ax < -rank or ax >= rank:
    I.err(TFError, 'split axis out of range')
  if ax < 0:
    ax += rank
  n = a.shape[ax] if a is not None else t.shape[ax]
  if isinstance(ns, (int, Dim)) or (isinstance(ns, Arr) and ns.shape == ()):
    k = cint(I, ns)
    q = D.divexact(n, k)
    if q is None or not (isinstance(q, int) or D.is_integral(q)):
      I.err(TFError, 'split of size %s in %d' % (D.show(n), k))
    sizes = [q] * k
  else:
    sizes = shape_list(I, ns)
    if None in sizes:
      rest = D.sub(n, sum_dims([s for s in sizes if s is not None]))
      sizes = [rest if s is None else s for s in sizes]
    if not D.same(sum_dims(sizes), n):
      I.err(TFError, 'split sizes sum to %s, not %s' % (D.show(sum_dims(sizes)), D.show(n)))
  out = []
  off = 0
  for s in sizes:
    if a is not None:
      if ax != 0 or len(a.shape) != 1:
        raise Unsupported('split of an integer matrix')
      out.append(Arr((s,), a.data[off:off + s], 'tf', 'i'))
    else:
      out.append(X.slice_axis(t, ax, off, D.add(off, s), 1))
    off = D.add(off, s)
  return out


def sum_dims(xs):
  r = 0
  for x in xs:
    r = D.add(r, x)
  return r


@reg('pad')
def pad(I, tensor, paddings, mode='CONSTANT', constant_values=0, name=None):
  t = tens(I, tensor)
  if mode != 'CONSTANT' or num(I, constant_values) != 0:
    raise Unsupported('pad mode')
  p = intarr(I, paddings)
  if p is None:
    raise Unsupported('data-dependent padding')
  if p.shape != (t.rank, 2):
    I.err(TFError, 'paddings must have shape [%d, 2]' % t.rank)
  for ax in range(t.rank):
    lo, hi = p.data[2 * ax], p.data[2 * ax + 1]
    parts = []
    for k, which in ((lo, 0), (hi, 1)):
      if which == 1:
        parts.append(t)
      if not (isinstance(k, int) and k == 0):
        sh = list(t.shape)
        sh[ax] = k
        parts.append(X.const_fill(0, sh, t.dtype))
    if len(parts) > 1:
      t = X.concat(parts, ax)
  return t


@reg('tile')
def tile(I, input, multiples, name=None):
  t = tens(I, input)
  r = shape_list(I, multiples)
  if any(x is None for x in r):
    I.err(TFError, 'Expected multiples >= 0')
  return X.tile(t, r)


@reg('broadcast_to')
def broadcast_to(I, input, shape, name=None):
  t = tens(I, input)
  sl = shape_list(I, shape)
  z = X.const_fill(0, sl, t.dtype)
  r = X.add(t, z)
  if list(r.shape) != list(sl):
    I.err(TFError, 'cannot broadcast')
  return r


@reg('repeat')
def repeat(I, input, repeats, axis=None, name=None):
  t = tens(I, input)
  r = num(I, repeats)
  if r is None or axis is None:
    raise Unsupported('repeat')
  ax = cint(I, axis)
  if ax < 0:
    ax += t.rank
  u = X.expand_dims(t, ax + 1)
  reps = [1] * u.rank
  reps[ax + 1] = r
  u = X.tile(u, reps)
  sh = list(t.shape)
  sh[ax] = D.mul(sh[ax], r)
  return X.reshape(u, sh)


@reg('slice')
def slice_(I, input_, begin, size, name=None):
  b = shape_list(I, begin)
  s = shape_list(I, size)
  a = intarr(I, input_)
  if a is not None:
    v = a
    idx = tuple(slice(x, None if y is None else D.add(x, y)) for x, y in zip(b, s))
    return getitem(I, v, idx)
  t = tens(I, input_)
  if len(b) != t.rank or len(s) != t.rank:
    I.err(TFError, 'slice: begin/size must have length %d' % t.rank)
  for ax, (x, y) in enumerate(zip(b, s)):
    n = t.shape[ax]
    stop = n if y is None else D.add(x, y)
    if D.decide_lt(n, stop):
      I.err(TFError, 'slice out of bounds')
    t = X.slice_axis(t, ax, x, stop, 1)
  return t


@reg('gather')
def gather(I, params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
  if cint(I, batch_dims) != 0:
    raise Unsupported('gather with batch_dims')
  ax = 0 if axis is None else cint(I, axis)
  a = intarr(I, params)
  i = intarr(I, indices)
  if a is not None and i is not None and len(a.shape) == 1:
    return Arr(i.shape, [a.data[norm_index(I, k, a.shape[0])] for k in i.data], 'tf', 'i')
  t = tens(I, params)
  if ax < 0:
    ax += t.rank
  if i is not None:
    if i.shape == ():
      return L.tensor_getitem(I, t, tuple([slice(None)] * ax + [i.data[0]]))
    if len(i.shape) == 1 and all(isinstance(k, int) for k in i.data):
      return X.concat([X.slice_axis(t, ax, k, k + 1, 1) for k in i.data], ax)
  return X.gather(t, tens(I, indices), ax)


@reg('gather_nd')
def gather_nd(I, params, indices, batch_dims=0, name=None):
  if cint(I, batch_dims) != 0:
    raise Unsupported('gather_nd with batch_dims')
  t = tens(I, params)
  i = tens(I, indices)
  k = i.shape[-1]
  if isinstance(k, Dim):
    raise Unsupported('gather_nd with symbolic depth')
  if k > t.rank:
    I.err(TFError, 'index innermost dimension length must be <= params rank')
  return gather_nd_model(t, i, k)


def gather_nd_model(t, i, k):
  """params[i[..,0], ..., i[..,k-1]] -> batch shape of i + rest of params."""
  t = X.copy_fresh(X.aligned(t))
  bsh = i.shape[:-1]
  sh = bsh + t.shape[k:]
  cols = [X.aligned(X.index_axis(i, i.rank - 1, c)) for c in range(k)]
  bl = X._newfl(cols[0].flat) if cols else [fresh(d) for d in bsh if d != 1]
  if any([X.ldim(l) for l in c.flat] != [X.ldim(l) for l in bl] for c in cols):
    raise Unsupported('gather_nd with differently merged index columns')
  ax = X.axes(t)
  mp = {}
  for c in range(k):
    if not ax[c]:
      continue
    if len(ax[c]) != 1:
      raise Unsupported('gather on a merged axis')
    mp[ax[c][0]] = X.to_leg(cols[c])(bl)
  flat = bl + [l for a in ax[k:] for l in a]
  terms = [T.t_sub(T.freshen(x), mp) for x in t.terms]
  return Tensor(sh, flat, terms, t.dtype)


# ----------------------------------------------------------------------------
# creation

def fill_like(I, value, shape, dtype):
  sl = shape_list(I, shape)
  if None in sl:
    I.err(TFError, 'negative size in shape')
  dt = to_dtype(I, dtype) or F32
  if is_int(dt) and all(isinstance(s, int) for s in sl) and isinstance(value, int):
    n = 1
    for s in sl:
      n *= s
    if n <= 64:
      return Arr(sl, [value] * n, 'tf', 'i')
  return X.const_fill(value, sl, dt)


@reg('zeros')
def zeros(I, shape, dtype=F32, name=None, layout=None):
  return fill_like(I, 0, shape, dtype)


@reg('ones')
def ones(I, shape, dtype=F32, name=None, layout=None):
  return fill_like(I, 1, shape, dtype)


@reg('fill')
def fill(I, dims, value, name=None, layout=None):
  t = strong(I, value)
  sl = shape_list(I, dims)
  if t.top:
    return X.top(t.top, sl, t.dtype)
  return X.const_fill(t, sl, t.dtype)


def like(I, v, dtype, value):
  if isinstance(v, (Inst,)):
    I.err(ValueError, 'Attempt to convert a value of type %s to a Tensor' % v.cls.name)
  a = intarr(I, v)
  if a is not None and dtype is None:
    return Arr(a.shape, [value] * len(a.data), 'tf', 'i')
  t = strong(I, v)
  dt = to_dtype(I, dtype) or t.dtype
  return X.const_fill(value, t.shape, dt)


@reg('zeros_like')
def zeros_like(I, input, dtype=None, name=None, layout=None):
  return like(I, input, dtype, 0)


@reg('ones_like')
def ones_like(I, input, dtype=None, name=None, layout=None):
  return like(I, input, dtype, 1)


def convert(I, value, dtype):
  dt = to_dtype(I, dtype)
  if isinstance(value, Var):
    value = value.t
  if isinstance(value, Tensor):
    if value.np:
      return value.view(np=False, dtype=dt or value.dtype)
    if dt is not None and value.dtype is not None and not dtype_eq(I, dt, value.dtype):
      I.err(ValueError, 'Tensor conversion requested dtype %s for Tensor with dtype %s' % (
          dt.name, value.dtype.name))
    return value
  a = intarr(I, value)
  if a is not None:
    if dt is None or is_int(dt):
      return Arr(a.shape, a.data, 'tf', 'i')
    return tens(I, a).view(dtype=dt)
  if isinstance(value, (list, tuple)):
    t = stack_deep(I, value)
  else:
    t = strong(I, value)
    if isinstance(value, (PyFloat,)) and dt is not None:
      if is_int(dt):
        I.err(TypeError, 'Cannot convert float to %s' % dt.name)
      t = t.view(dtype=dt)
    elif isinstance(value, Arr) and value.flavor == 'np' and dt is not None:
      t = t.view(dtype=dt)
  if dt is not None and t.dtype is None:
    t = t.view(dtype=dt)
  if t.dtype is None:
    t = t.view(dtype=F32)
  if dt is not None and not X.same_dtype(dt, t.dtype):
    if isinstance(value, (list, tuple)):
      I.err(TypeError if False else TFError, 'cannot convert list elements of dtype %s to %s' % (t.dtype.name, dt.name))
    t = t.view(dtype=dt)
  return t


def stack_deep(I, v):
  if isinstance(v, (list, tuple)):
    subs = [stack_deep(I, x) for x in v]
    if any(isinstance(x, (list, tuple)) for x in v):
      for s in subs:
        if len(s.shape) != len(subs[0].shape) or any(not D.same(p, q) for p, q in zip(s.shape, subs[0].shape)):
          I.err(ValueError, "Can't convert non-rectangular Python sequence to Tensor.")
    return stack_values(I, subs, 0)
  return tens(I, v)


@reg('convert_to_tensor')
def convert_to_tensor(I, value, dtype=None, dtype_hint=None, name=None):
  return convert(I, value, dtype)


@reg('constant')
def constant(I, value, dtype=None, shape=None, name='Const'):
  if isinstance(value, Tensor) and not value.np and dtype is not None:
    return value.view(dtype=to_dtype(I, dtype))
  if isinstance(value, (list, tuple)) and dtype is not None and not isinstance(value, Tensor):
    a = intarr(I, value)
    dt = to_dtype(I, dtype)
    if a is None:
      t = stack_deep(I, value).view(dtype=dt)
    else:
      t = convert(I, value, dtype)
  else:
    t = convert(I, value, dtype)
  if shape is not None:
    sl = shape_list(I, shape)
    if isinstance(t, Arr) and len(t.data) == 1:
      t = tens(I, t)
    if isinstance(t, Tensor) and not t.flat and t.rank == 0:
      return X.const_fill(t, sl, t.dtype)
    return reshape(I, t, sl)
  return t


@reg('stop_gradient')
def stop_gradient(I, input, name=None):
  a = intarr(I, input)
  return a if a is not None else I.detach(strong(I, input).view())


@reg('identity', 'debugging.check_numerics')
def identity(I, input, name=None):
  a = intarr(I, input)
  if a is not None:
    return a
  return strong(I, input).view()


@reg('guarantee_const')
def guarantee_const(I, input, name=None):
  return identity(I, input)


@reg('eye', 'linalg.eye')
def eye(I, num_rows, num_columns=None, batch_shape=None, dtype=F32, name=None):
  n = num(I, num_rows)
  m = n if num_columns is None else num(I, num_columns)
  b = [] if batch_shape is None else shape_list(I, batch_shape)
  if isinstance(n, PyFloat) or n is None or isinstance(m, PyFloat) or m is None:
    I.err(TypeError, 'eye: sizes must be integers')
  dt = to_dtype(I, dtype)
  if n != m:
    k = D.minimum(n, m)
    e = X.eye(k, k, dt, b)
    r = e
    for ax, tot in ((-2, n), (-1, m)):
      if tot != k:
        sh = list(r.shape)
        sh[ax] = D.sub(tot, k)
        r = X.concat([r, X.const_fill(0, sh, dt)], ax)
    return r
  return X.eye(n, m, dt, b)


@reg('range')
def range_(I, start, limit=None, delta=1, dtype=None, name='range'):
  if limit is None:
    start, limit = 0, start
  a, b, c = num(I, start), num(I, limit), num(I, delta)
  if all(isinstance(x, int) for x in (a, b, c)):
    return Arr((len(range(a, b, c)),), list(range(a, b, c)), 'tf', 'i')
  if a == 0 and c == 1 and isinstance(b, Dim):
    l = fresh(b)
    at = T.atom('iota<%s>' % D.show(b), 'iota', b, legdims=(b,), nonneg=True)
    return Tensor((b,), (l,), [Term(Fraction(1), [(at, (l,), 1)], frozenset())], DT['int32'])
  raise Unsupported('symbolic range')


@reg('one_hot')
def one_hot(I, indices, depth, on_value=None, off_value=None, axis=None, dtype=None, name=None):
  i = num(I, indices)
  n = num(I, depth)
  if i is None and axis in (None, -1) and on_value is None and off_value is None and intarr(I, indices) is not None:
    ia = intarr(I, indices)
    if len(ia.shape) == 1 and ia.data:
      return stack(I, [one_hot(I, k, depth, dtype=dtype) for k in ia.data])
  if i is None or on_value is not None or off_value is not None:
    raise Unsupported('one_hot')
  dt = to_dtype(I, dtype) or F32
  l = fresh(n)
  if n == 1:
    return X.const_fill(1, (1,), dt)
  return Tensor((n,), (l,), [Term(Fraction(1), [(T.eye_atom(n), (l, ('c', i)), 1)], frozenset())], dt)


@reg('cast', 'dtypes.cast')
def cast(I, x, dtype, name=None):
  dt = to_dtype(I, dtype)
  if dt is None:
    I.err(TypeError, 'cannot cast to None')
  a = intarr(I, x)
  if a is not None and is_int(dt):
    return a
  if isinstance(x, Sparse):
    return Sparse(x.indices, cast(I, x.values, dtype), x.dense_shape)
  if isinstance(x, Inst):
    I.err(ValueError, 'Attempt to convert a value of type %s to a Tensor' % x.cls.name)
  t = strong(I, x)
  I.casts.append((t, dt, I.where()))
  if is_int(dt) and t.dtype is not None and is_float(t.dtype):
    s = X.as_size(t) if not t.top and t.rank == 0 else None
    if s is not None and (isinstance(s, int) or (isinstance(s, Dim) and D.is_integral(s))):
      return Arr((), [s], 'tf', 'i')
    return X.opaque_fn('trunc', [t]).view(dtype=dt)
  if dt.name == 'bool':
    raise Unsupported('cast to bool')
  return t.view(dtype=dt)


@reg('cast_to_float')
def _ctf(I, x, name=None):
  return cast(I, x, F32)


def cast_scalar(I, dt, v):
  """np.float32(x), tf.float32 is not callable."""
  if isinstance(v, str):
    raise Unsupported('dtype of str')
  if is_int(dt):
    if isinstance(v, Arr):
      return Arr(v.shape, [to_int(I, x) for x in v.data], 'np', 'i')
    return npint(to_int(I, v))
  if isinstance(v, Arr):
    return Arr(v.shape, [b_float(I, x) for x in v.data], 'np', 'f')
  if isinstance(v, Tensor) and v.flat:
    I.casts.append((v, dt, I.where()))
    return I.detach(v).view(dtype=dt, np=True)
  r = b_float(I, v)
  if isinstance(r, PyFloat):
    I.casts.append((r.t.view(dtype=DT['float64']), dt, I.where()))
  return r


# ----------------------------------------------------------------------------
# contraction

def parse_einsum(I, eq, ts):
  if not isinstance(eq, str):
    I.err(TypeError, 'einsum equation must be a string')
  eq = eq.replace(' ', '')
  if '->' in eq:
    lhs, out = eq.split('->', 1)
  else:
    lhs, out = eq, None
  ins = lhs.split(',')
  if len(ins) != len(ts):
    I.err(ValueError, 'Got %d inputs for equation "%s", expecting %d' % (len(ts), eq, len(ins)))
  res = []
  ell = 0
  for s, t in zip(ins, ts):
    if '...' in s:
      a, b = s.split('...', 1)
      n = len(t.shape) - len(a) - len(b)
      if n < 0:
        I.err(ValueError, 'einsum: rank too small for "%s"' % s)
      ell = max(ell, n)
  for s, t in zip(ins, ts):
    if '...' in s:
      a, b = s.split('...', 1)
      n = len(t.shape) - len(a) - len(b)
      res.append(list(a) + ['.%d' % i for i in range(ell - n, ell)] + list(b))
    else:
      res.append(list(s))
    for c in s.replace('...', ''):
      if not c.isalpha():
        I.err(ValueError, 'einsum: invalid subscript %r' % c)
  if out is None:
    cnt = {}
    for r in res:
      for c in r:
        cnt[c] = cnt.get(c, 0) + 1
    o = ['.%d' % i for i in range(ell)] + sorted(c for c in cnt if cnt[c] == 1 and c[0] != '.')
  elif '...' in out:
    a, b = out.split('...', 1)
    o = list(a) + ['.%d' % i for i in range(ell)] + list(b)
  else:
    o = list(out)
  if len(set(o)) != len(o):
    I.err(ValueError, 'einsum: output subscripts repeated in "%s"' % eq)
  return res, o


@reg('einsum', 'linalg.einsum')
def einsum(I, equation, *inputs, **kwargs):
  for k in kwargs:
    if k not in ('name', 'optimize'):
      I.err(TypeError, 'Invalid keyword argument for einsum: %s' % k)
  if len(inputs) == 1 and isinstance(inputs[0], (list, tuple)):
    inputs = tuple(inputs[0])
  for x in inputs:
    if isinstance(x, Inst):
      I.err(ValueError, 'Attempt to convert a value of type %s to a Tensor' % x.cls.name)
  ts = weak_fix(I, [tens(I, x) for x in inputs])
  for t in ts:
    if t.shape is None:
      return X.top(t.top, None, t.dtype)
  ins, out = parse_einsum(I, equation, ts)
  # broadcasting of ellipsis dimensions of size 1
  ells = {}
  for s, t in zip(ins, ts):
    for c, d in zip(s, t.shape):
      if c[0] == '.' and d != 1:
        ells.setdefault(c, d)
  ins2, ts2 = [], []
  for s, t in zip(ins, ts):
    drop = [i for i, (c, d) in enumerate(zip(s, t.shape)) if c[0] == '.' and d == 1 and c in ells] \
        if len(s) == len(t.shape) else []
    if drop:
      t = X.squeeze(t, drop)
      s = [c for i, c in enumerate(s) if i not in drop]
    ins2.append(s)
    ts2.append(t)
  return X.einsum(ins2, out, ts2)


@reg('matmul', 'linalg.matmul')
def matmul(I, a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False,
           a_is_sparse=False, b_is_sparse=False, output_type=None, grad_a=False, grad_b=False, name=None):
  if isinstance(a, Inst) or isinstance(b, Inst):
    I.err(ValueError, 'Attempt to convert a TT object to a Tensor')
  ta, tb = pair(I, a, b)
  for t in (ta, tb):
    if t.shape is None:
      return X.top(t.top, None, t.dtype)
    if len(t.shape) < 2:
      I.err(TFError, 'matmul: rank must be at least 2, got shape %s' % list(map(D.show, t.shape)))
  if I.truth(transpose_a) or I.truth(adjoint_a):
    ta = matrix_transpose(I, ta)
  if I.truth(transpose_b) or I.truth(adjoint_b):
    tb = matrix_transpose(I, tb)
  if not D.same(ta.shape[-1], tb.shape[-2]):
    I.err(TFError, 'matmul: inner dimensions %s and %s differ' % (D.show(ta.shape[-1]), D.show(tb.shape[-2])))
  na, nb = ta.rank - 2, tb.rank - 2
  nbatch = max(na, nb)
  la = ['b%d' % i for i in range(nbatch - na, nbatch)] + ['i', 'k']
  lb = ['b%d' % i for i in range(nbatch - nb, nbatch)] + ['k', 'j']
  out = ['b%d' % i for i in range(nbatch)] + ['i', 'j']
  da = dict(zip(la, ta.shape))
  db = dict(zip(lb, tb.shape))
  sqa = [i for i, c in enumerate(la) if c[0] == 'b' and da[c] == 1 and db.get(c, 1) != 1]
  sqb = [i for i, c in enumerate(lb) if c[0] == 'b' and db[c] == 1 and da.get(c, 1) != 1]
  if sqa:
    ta = X.squeeze(ta, sqa)
    la = [c for i, c in enumerate(la) if i not in sqa]
  if sqb:
    tb = X.squeeze(tb, sqb)
    lb = [c for i, c in enumerate(lb) if i not in sqb]
  return X.einsum([la, lb], out, [ta, tb])


@reg('tensordot', 'linalg.tensordot')
def tensordot(I, a, b, axes, name=None):
  ta, tb = pair(I, a, b)
  k = num(I, axes) if not isinstance(axes, (list, tuple)) else None
  if k is not None and not isinstance(axes, Arr):
    k = cint(I, k)
    if k > ta.rank or k > tb.rank:
      I.err(ValueError, 'tensordot axes')
    xa, xb = list(range(ta.rank - k, ta.rank)), list(range(k))
  else:
    p, q = iterate(I, axes)
    xa = int_list(I, p)
    xb = int_list(I, q)
    xa = [x + ta.rank if x < 0 else x for x in xa]
    xb = [x + tb.rank if x < 0 else x for x in xb]
  if len(xa) != len(xb) or any(x >= ta.rank for x in xa) or any(x >= tb.rank for x in xb):
    I.err(ValueError, 'tensordot: bad axes')
  la = ['a%d' % i for i in range(ta.rank)]
  lb = ['b%d' % i for i in range(tb.rank)]
  for x, y in zip(xa, xb):
    lb[y] = la[x]
  out = [c for i, c in enumerate(la) if i not in xa] + [c for i, c in enumerate(lb) if i not in xb]
  return X.einsum([la, lb], out, [ta, tb])


@reg('linalg.trace')
def trace(I, x, name=None):
  t = tens(I, x)
  b = ['b%d' % i for i in range(t.rank - 2)]
  return X.einsum([b + ['i', 'i']], b, [t])


# ----------------------------------------------------------------------------
# arithmetic

def bin_(name):
  def f(I, x, y, name=None):
    a, b = intarr(I, x), intarr(I, y)
    if a is not None and b is not None and op != 'Div':
      r = L.arrop(I, op, a, b)
      return r
    if isinstance(x, Inst) or isinstance(y, Inst):
      I.err(ValueError, 'Attempt to convert a TT object to a Tensor')
    p, q = pair(I, x, y)
    return L.tensorop(I, op, p, q)
  op = name
  return f


for _n, _op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('pow', 'Pow'),
                ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod')):
  _f = bin_(_op)
  for _p in (_n, 'math.' + _n):
    M[_p] = Native('tf.' + _p, _f)
M['math.divide_no_nan'] = Native('tf.math.divide_no_nan', bin_('Div'))
M['math.floormod'] = M['math.mod']


def cmp_(op):
  def f(I, x, y, name=None):
    return L.compare(I, op, x, y)
  return f


for _n, _op in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'),
                ('greater', 'Gt'), ('greater_equal', 'GtE')):
  for _p in (_n, 'math.' + _n):
    M[_p] = Native('tf.' + _p, cmp_(_op))


def un_(fn):
  def f(I, x, name=None):
    if isinstance(x, Inst):
      I.err(ValueError, 'Attempt to convert a TT object to a Tensor')
    return fn(I, strong(I, x))
  return f


_UN = {
    'square': lambda I, t: X.pow_const(t, 2),
    'sqrt': lambda I, t: X.pow_const(t, Fraction(1, 2)),
    'rsqrt': lambda I, t: X.pow_const(t, Fraction(-1, 2)),
    'reciprocal': lambda I, t: X.pow_const(t, -1),
    'abs': lambda I, t: X.unary(t, 'abs'),
    'sign': lambda I, t: X.unary(t, 'sign'),
    'exp': lambda I, t: X.unary(t, 'exp'),
    'log': lambda I, t: X.unary(t, 'log'),
    'negative': lambda I, t: L.tensorop(I, 'Mult', t, -1),
    'sin': lambda I, t: X.unary(t, 'sin'), 'cos': lambda I, t: X.unary(t, 'cos'),
    'tanh': lambda I, t: X.unary(t, 'tanh'), 'sigmoid': lambda I, t: X.unary(t, 'sigmoid'),
    'floor': lambda I, t: X.unary(t, 'floor'), 'round': lambda I, t: X.unary(t, 'round'),
    'conj': lambda I, t: t, 'real': lambda I, t: t,
    'is_nan': lambda I, t: X.unary(t, 'isnan').view(dtype=DT['bool']),
    'is_finite': lambda I, t: X.unary(t, 'isfinite').view(dtype=DT['bool']),
    'logical_not': lambda I, t: X.unary(t, 'not').view(dtype=DT['bool']),
}
for _n, _fn in _UN.items():
  _f = un_(_fn)
  M['math.' + _n] = Native('tf.math.' + _n, _f)
  if _n not in ('log', 'rsqrt', 'reciprocal', 'conj', 'real', 'is_nan', 'is_finite'):
    M[_n] = Native('tf.' + _n, _f)
for _n in ('relu', 'sigmoid', 'tanh', 'softmax', 'elu', 'selu', 'softplus'):
  M['nn.' + _n] = Native('tf.nn.' + _n, un_(lambda I, t, _n=_n: X.unary(t, _n)))


def minmax(kind):
  def f(I, x, y, name=None):
    a, b = intarr(I, x), intarr(I, y)
    if a is not None and b is not None:
      shape, idx = L.np_broadcast(I, a, b)
      g = D.minimum if kind == 'min' else D.maximum
      return Arr(shape, [g(a.data[i], b.data[j]) for i, j in idx], 'tf', 'i')
    p, q = pair(I, x, y)
    if kind == 'max' and not p.top and not q.top:
      # max(nonneg, 0)
      for u, v in ((p, q), (q, p)):
        if not v.terms and X._is_nonneg(u.terms) and u.rank >= v.rank:
          return u
    return X.opaque_fn(kind, sorted([p, q], key=lambda t: str(t.canon)) if p.rank == q.rank else [p, q])
  return f


for _p in ('minimum', 'math.minimum'):
  M[_p] = Native('tf.minimum', minmax('min'))
for _p in ('maximum', 'math.maximum'):
  M[_p] = Native('tf.maximum', minmax('max'))


@reg('add_n', 'math.add_n')
def add_n(I, inputs, name=None):
  if not isinstance(inputs, (list, tuple)):
    inputs = [inputs]
  if not inputs:
    I.err(ValueError, 'inputs must be an iterable of at least one Tensor')
  ts = weak_fix(I, [tens(I, x) for x in inputs])
  r = ts[0]
  for t in ts[1:]:
    if len(t.shape) != len(r.shape) or any(not D.same(p, q) for p, q in zip(t.shape, r.shape)):
      I.err(TFError, 'add_n: shapes differ')
    r = X.add(r, t)
  return r


@reg('clip_by_value')
def clip_by_value(I, t, clip_value_min, clip_value_max, name=None):
  return X.opaque_fn('clip', [strong(I, t), tens(I, clip_value_min), tens(I, clip_value_max)])


@reg('where')
def where(I, condition, x=None, y=None, name=None):
  if x is None or y is None:
    raise Unsupported('where without branches')
  c = condition
  if isinstance(c, bool) or (isinstance(c, (Tensor, Arr)) and getattr(c, 'shape', None) == ()):
    try:
      v = I.truth(c)
    except Unsupported:
      v = None
    if v is not None:
      p, q = pair(I, x, y)
      z = X.mul(q if v else p, X.const_fill(0, (), None)) if not (p.top or q.top) else None
      return X.add(p if v else q, z) if z is not None else (p if v else q)
  p, q = pair(I, x, y)
  r = X.opaque_fn('where', [tens(I, c).view(dtype=None), p, q])
  return r


@reg('cond')
def cond(I, pred, true_fn=None, false_fn=None, name=None):
  return I.call(true_fn if I.truth(pred) else false_fn, [], {})


def logic(op):
  def f(I, x, y, name=None):
    if isinstance(x, bool) or isinstance(y, bool) or True:
      a = I.truth(x)
      b = I.truth(y)
      return X.scalar(int((a and b) if op == 'and' else (a or b)), DT['bool'])
  return f


M['logical_and'] = M['math.logical_and'] = Native('tf.logical_and', logic('and'))
M['logical_or'] = M['math.logical_or'] = Native('tf.logical_or', logic('or'))


# ----------------------------------------------------------------------------
# reductions

def red_axes(I, rank, axis):
  ax = axis_arg(I, axis)
  if ax is None:
    return list(range(rank))
  if isinstance(ax, int):
    ax = [ax]
  out = []
  for a in ax:
    if a < -rank or a >= rank:
      I.err(TFError, 'Invalid reduction dimension %d for input with %d dimensions' % (a, rank))
    out.append(a + rank if a < 0 else a)
  return out


def arr_reduce(I, a, axis, keepdims, f, unit):
  r = len(a.shape)
  ax = red_axes(I, r, axis)
  if len(ax) == r:
    v = unit
    for x in a.data:
      v = f(v, x) if v is not None else x
    return Arr((1,) * r if keepdims else (), [v], a.flavor, a.kind)
  if r == 2 and len(ax) == 1:
    n, m = a.shape
    out = []
    if ax[0] == 0:
      for j in range(m):
        v = unit
        for i in range(n):
          v = f(v, a.data[i * m + j]) if v is not None else a.data[i * m + j]
        out.append(v)
      return Arr((1, m) if keepdims else (m,), out, a.flavor, a.kind)
    for i in range(n):
      v = unit
      for j in range(m):
        v = f(v, a.data[i * m + j]) if v is not None else a.data[i * m + j]
      out.append(v)
    return Arr((n, 1) if keepdims else (n,), out, a.flavor, a.kind)
  raise Unsupported('reduction of a %d-d integer array' % r)


@reg('reduce_sum', 'math.reduce_sum')
def reduce_sum(I, input_tensor, axis=None, keepdims=False, name=None):
  a = intarr(I, input_tensor)
  kd = I.truth(keepdims)
  if a is not None:
    return arr_reduce(I, a, axis, kd, D.add, 0)
  t = strong(I, input_tensor)
  return X.reduce_sum(t, red_axes(I, t.rank, axis), kd)


@reg('reduce_mean', 'math.reduce_mean')
def reduce_mean(I, input_tensor, axis=None, keepdims=False, name=None):
  t = strong(I, input_tensor)
  ax = red_axes(I, t.rank, axis)
  s = X.reduce_sum(t, ax, I.truth(keepdims))
  n = D.prod([t.shape[i] for i in ax])
  return X.mul(s, X.pow_const(X.scalar(n, t.dtype), -1))


@reg('reduce_prod', 'math.reduce_prod')
def reduce_prod(I, input_tensor, axis=None, keepdims=False, name=None):
  a = intarr(I, input_tensor)
  kd = I.truth(keepdims)
  if a is not None:
    r = arr_reduce(I, a, axis, kd, D.mul, 1)
    if any(isinstance(x, int) and abs(x) >= 2 ** 31 for x in r.data):
      if isinstance(input_tensor, Arr):
        raise Unsupported('product beyond int32')   # the width is not tracked
      return Arr(r.shape, [(x + 2 ** 31) % 2 ** 32 - 2 ** 31 if isinstance(x, int) else x for x in r.data],
                 r.flavor, r.kind)
    return r
  t = strong(I, input_tensor)
  ax = sorted(red_axes(I, t.rank, axis), reverse=True)
  if t.top:
    return X.top(t.top, [d for i, d in enumerate(t.shape) if i not in ax], t.dtype)
  r = t
  for k in ax:
    n = r.shape[k]
    if isinstance(n, Dim):
      sh = [1 if i in ax else d for i, d in enumerate(t.shape) if kd or i not in ax]
      return X.top('product over a symbolic dimension', sh, t.dtype)
    parts = [X.index_axis(r, k, i) for i in range(n)]
    v = parts[0] if parts else None
    for p in parts[1:]:
      v = X.mul(v, p)
    r = X.expand_dims(v, k) if kd else v
  return r


def red_opaque(kind):
  def f(I, input_tensor, axis=None, keepdims=False, name=None):
    a = intarr(I, input_tensor)
    kd = I.truth(keepdims)
    if a is not None and kind in ('max', 'min'):
      g = D.maximum if kind == 'max' else D.minimum
      return arr_reduce(I, a, axis, kd, g, None)
    if isinstance(input_tensor, Arr) and input_tensor.kind == 'b':
      vals = [I.truth(x) for x in input_tensor.data]
      return X.scalar(int(any(vals) if kind == 'any' else all(vals)), DT['bool'])
    t = strong(I, input_tensor)
    ax = red_axes(I, t.rank, axis)
    sh = [1 if i in ax else d for i, d in enumerate(t.shape) if kd or i not in ax]
    if not t.top and not t.flat:
      return t.view(shape=tuple(sh), _axes=None, static=(True,) * len(sh))
    return reduce_fn(kind, t, ax, sh)
  return f


def reduce_fn(kind, t, ax, sh):
  """Opaque reduction over axes: atom keyed by its argument."""
  if t.top:
    return X.top(t.top, sh, t.dtype)
  t = X.aligned(t)
  a = X.axes(t)
  red = [l for i in ax for l in a[i]]
  keep = [l for i, b in enumerate(a) if i not in ax for l in b]
  tt = Tensor([T.ldim(l) for l in keep + red], keep + red, t.terms, None)
  i = T.defid('red_%s[%d]{%s|%s}' % (kind, len(keep), ','.join(D.show(T.ldim(l)) for l in tt.flat),
                                     tt.canon), ('fn', kind, [tt], ''))
  nl = [fresh(T.ldim(l)) for l in keep]
  at = T.atom('red_%s#%d' % (kind, i), 'fn', (kind, i), nonneg=X._is_nonneg(t.terms),
              legdims=tuple(T.ldim(l) for l in keep))
  return Tensor(sh, nl, [Term(Fraction(1), [(at, tuple(nl), 1)], frozenset())], t.dtype)


for _k in ('max', 'min', 'any', 'all'):
  for _p in ('reduce_' + _k, 'math.reduce_' + _k):
    M[_p] = Native('tf.reduce_' + _k, red_opaque(_k))


def cum(op):
  def f(I, x, axis=0, exclusive=False, reverse=False, name=None):
    a = intarr(I, x)
    if a is not None and len(a.shape) == 2 and cint(I, axis) == 0:
      n, m = a.shape
      cols = [f(I, Arr((n,), [a.data[i * m + j] for i in range(n)], 'tf', 'i'), 0, exclusive, reverse)
              for j in range(m)]
      return Arr((n, m), [cols[j].data[i] for i in range(n) for j in range(m)], 'tf', 'i')
    if a is None or len(a.shape) != 1:
      t = tens(I, x)
      if t.rank != 1 or isinstance(t.shape[0], Dim):
        raise Unsupported('cumulative op on data')
      items = [X.index_axis(t, 0, i) for i in range(t.shape[0])]
      mulf = X.mul if op == 'prod' else X.add
      unit = X.scalar(1 if op == 'prod' else 0, t.dtype)
    else:
      items = list(a.data)
      mulf = D.mul if op == 'prod' else D.add
      unit = 1 if op == 'prod' else 0
    rev, exc = I.truth(reverse), I.truth(exclusive)
    if rev:
      items = items[::-1]
    out = []
    v = unit
    for y in items:
      if exc:
        out.append(v)
        v = mulf(v, y)
      else:
        v = mulf(v, y)
        out.append(v)
    if rev:
      out = out[::-1]
    if a is not None:
      return Arr(a.shape, out, 'tf', 'i')
    return stack(I, out)
  return f


for _p in ('cumsum', 'math.cumsum'):
  M[_p] = Native('tf.cumsum', cum('sum'))
M['math.cumprod'] = Native('tf.math.cumprod', cum('prod'))


@reg('reverse')
def reverse(I, tensor, axis, name=None):
  a = intarr(I, tensor)
  if a is not None and len(a.shape) == 1:
    return Arr(a.shape, a.data[::-1], 'tf', 'i')
  raise Unsupported('reverse of data')


@reg('norm', 'linalg.norm')
def norm(I, tensor, ord='euclidean', axis=None, keepdims=None, name=None):
  t = strong(I, tensor)
  if not (ord in ('euclidean', 'fro') or num(I, ord) == 2 or
          (isinstance(ord, PyFloat) and ord.const() == 2)):
    raise Unsupported('norm order')
  s = X.reduce_sum(X.mul(t, t), red_axes(I, t.rank, axis), bool(keepdims) and I.truth(keepdims))
  return X.pow_const(s, Fraction(1, 2))


# ----------------------------------------------------------------------------
# linear algebra

def need_matrix(I, t, op):
  if t.shape is None:
    raise Unsupported(t.top)
  if len(t.shape) < 2:
    I.err(TFError, '%s: input must have rank at least 2' % op)


@reg('linalg.svd')
def svd(I, tensor, full_matrices=False, compute_uv=True, name=None):
  t = strong(I, tensor)
  need_matrix(I, t, 'svd')
  S, U, V = (X.svd_full if I.truth(full_matrices) and I.truth(compute_uv) else X.svd)(t)
  if not I.truth(compute_uv):
    return S
  return (S, U, V)


def named(tname, fields, vals):
  """The named tuple an operation returns."""
  from .library import namedtuple
  t = _NAMED.get(tname)
  if t is None:
    t = _NAMED[tname] = namedtuple(tname, fields.split(), {})
  r = NTuple(vals)
  r.ntype = t
  return r


_NAMED = {}


@reg('linalg.qr')
def qr(I, input, full_matrices=False, name=None):
  t = strong(I, input)
  need_matrix(I, t, 'qr')
  if I.truth(full_matrices):
    raise Unsupported('full QR')
  return named('Qr', 'q r', X.qr(t))


@reg('linalg.det')
def det(I, input, name=None):
  t = strong(I, input)
  need_matrix(I, t, 'det')
  return X.linalg_atom(t, 'det')


@reg('linalg.slogdet')
def slogdet(I, input, name=None):
  t = strong(I, input)
  d = X.linalg_atom(t, 'det')
  return named('LogMatrixDeterminant', 'sign log_abs_determinant',
               (X.unary(d, 'sign'), X.unary(X.unary(d, 'abs'), 'log')))


@reg('linalg.logdet')
def logdet(I, matrix, name=None):
  return X.unary(X.linalg_atom(strong(I, matrix), 'det'), 'log')


@reg('linalg.inv')
def inv(I, input, adjoint=False, name=None):
  t = strong(I, input)
  need_matrix(I, t, 'inv')
  if I.truth(adjoint):
    t = matrix_transpose(I, t)
  return X.linalg_atom(t, 'inv')


@reg('linalg.cholesky')
def cholesky(I, input, name=None):
  t = strong(I, input)
  need_matrix(I, t, 'cholesky')
  return X.linalg_atom(t, 'chol')


@reg('linalg.diag')
def diag(I, diagonal, name='diag', k=0, num_rows=-1, num_cols=-1, padding_value=0, align='RIGHT_LEFT'):
  if num(I, k) != 0 or num(I, num_rows) != -1 or num(I, num_cols) != -1:
    raise Unsupported('diag options')
  return X.diag(strong(I, diagonal))


@reg('linalg.diag_part', 'linalg.tensor_diag_part')
def diag_part(I, input, name='diag_part', k=0, padding_value=0, align='RIGHT_LEFT'):
  if num(I, k) != 0:
    raise Unsupported('diag_part options')
  return X.diag_part(strong(I, input))


# ----------------------------------------------------------------------------
# shapes

@reg('shape')
def shape(I, input, out_type=None, name=None):
  if isinstance(input, Inst):
    I.err(ValueError, 'Attempt to convert a value of type %s to a Tensor' % input.cls.name)
  if isinstance(input, Sparse):
    return input.dense_shape
  a = intarr(I, input)
  if a is not None:
    return Arr((len(a.shape),), a.shape, 'tf', 'i')
  t = tens(I, input)
  if t.shape is None:
    raise Unsupported(t.top)
  return Arr((len(t.shape),), t.shape, 'tf', 'i')


@reg('size')
def size(I, input, out_type=None, name=None):
  s = shape(I, input)
  return Arr((), [D.prod(s.data)], 'tf', 'i')


@reg('rank')
def rank(I, input, name=None):
  return Arr((), [shape(I, input).shape[0]], 'tf', 'i')


@reg('ensure_shape')
def ensure_shape(I, x, shape, name=None):
  t = tens(I, x)
  s = to_tshape(I, shape)
  if s.dims is not None:
    if len(s.dims) != t.rank or any(d is not None and not D.same(d, e) for d, e in zip(s.dims, t.shape)):
      I.err(TFError, 'ensure_shape')
  return t


@reg('broadcast_static_shape')
def broadcast_static_shape(I, shape_x, shape_y):
  raise Unsupported('broadcast_static_shape')


@reg('is_tensor')
def is_tensor(I, x):
  return (isinstance(x, Tensor) and not x.np) or isinstance(x, (Var, Sparse)) or (
      isinstance(x, Arr) and x.flavor == 'tf')


@reg('get_static_value')
def get_static_value(I, tensor, partial=False):
  a = intarr(I, tensor)
  if a is None:
    if I.lib.eager:
      raise Unsupported('get_static_value of %s' % L.typename(tensor))
    return None
  if any(L.dynamic(x) for x in a.data):
    return None
  r = Arr(a.shape, a.data, 'np', a.kind)
  return r.wrap(r.data[0]) if a.shape == () else r


@reg('executing_eagerly')
def executing_eagerly(I):
  return I.lib.eager


# ----------------------------------------------------------------------------
# scopes, control flow, checks

class ScopeCM(CM):
  pass


@reg('name_scope')
def name_scope(I, name):
  if not isinstance(name, str):
    I.err(ValueError, 'name for name_scope must be a string.')
  return CM(name + '/', 'name_scope')


@reg('control_dependencies')
def control_dependencies(I, control_inputs):
  return CM(None, 'control_dependencies')


@reg('device')
def device(I, device_name):
  return CM(None, 'device')


@reg('init_scope')
def init_scope(I):
  return CM(None, 'init_scope')


@reg('no_op')
def no_op(I, name=None):
  return None


@reg('group')
def group(I, *inputs, **kwargs):
  return None


@reg('print')
def print_(I, *inputs, **kwargs):
  return None


@reg('function')
def function(I, func=None, input_signature=None, autograph=True, jit_compile=None, reduce_retracing=False,
             experimental_implements=None, experimental_autograph_options=None, experimental_attributes=None,
             experimental_relax_shapes=None, experimental_compile=None, experimental_follow_type_hints=None):
  if func is None:
    return Native('tf.function', lambda I, f: f)
  return func


def assert_cond(I, c, what):
  if isinstance(c, bool):
    ok = c
  elif isinstance(c, Arr):
    ok = all(I.truth(x) for x in c.data)
  elif isinstance(c, Tensor):
    s = X.as_size(c) if not c.top and c.rank == 0 else None
    if s is None:
      I.asserts.append((what, c, I.where()))
      return None
    ok = s != 0
  else:
    ok = I.truth(c)
  if not ok:
    I.err(TFError, 'assertion failed: %s' % what)
  return None


@reg('Assert', 'debugging.Assert')
def Assert(I, condition, data, summarize=None, name=None):
  return assert_cond(I, condition, 'tf.Assert')


def assert_cmp(op):
  def f(I, x, y, message=None, summarize=None, name=None):
    return assert_cond(I, L.compare(I, op, x, y), 'assert %s' % op)
  return f


for _n, _op in (('equal', 'Eq'), ('none_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'),
                ('greater', 'Gt'), ('greater_equal', 'GtE')):
  M['debugging.assert_' + _n] = Native('tf.debugging.assert_' + _n, assert_cmp(_op))
for _n in ('equal', 'less', 'greater'):
  M['assert_' + _n] = M['debugging.assert_' + _n]


@reg('debugging.assert_near')
def assert_near(I, x, y, rtol=None, atol=None, message=None, summarize=None, name=None):
  a, b = pair(I, x, y)
  if X.equal(a, b) is not True:
    I.asserts.append(('assert_near', X.add(a, b, -1), I.where()))
  return None


@reg('debugging.assert_rank', 'assert_rank')
def assert_rank(I, x, rank, message=None, name=None):
  t = tens(I, x)
  if not D.decide_eq(t.rank, num(I, rank)):
    I.err(ValueError, 'assert_rank')


# ----------------------------------------------------------------------------
# variables

VAR_ATTRS = ('assign', 'assign_add', 'assign_sub', 'read_value', 'value', 'initialized_value', 'numpy', 'name',
             'trainable', 'shape', 'dtype', 'get_shape', 'initializer', 'op', 'ref', 'handle')


def mkvar(I, initial_value, trainable, name, dtype, constraint=None):
  if isinstance(initial_value, (FuncV, BoundV, Native)):
    initial_value = I.call(initial_value, [], {})
  if initial_value is None:
    I.err(ValueError, 'initial_value must be specified.')
  if isinstance(initial_value, Inst):
    I.err(ValueError, 'Attempt to convert a value of type %s to a Tensor' % initial_value.cls.name)
  v = convert(I, initial_value, dtype)
  if isinstance(v, Arr):
    v = tens(I, v)
  tr = True if trainable is None else I.truth(trainable)
  r = Var(v, name if name is not None else 'Variable', tr)
  I.variables.setdefault('all', []).append(r)
  return r


def Variable(I, initial_value=None, trainable=None, validate_shape=True, caching_device=None, name=None,
             variable_def=None, dtype=None, import_scope=None, constraint=None, synchronization=None,
             aggregation=None, shape=None, experimental_enable_variable_lifting=True):
  return mkvar(I, initial_value, trainable, name, dtype)


def var_assign(I, v, value, kind='assign'):
  val = convert(I, value, v.t.dtype if not isinstance(value, (Tensor, Var)) or getattr(value, 'np', False) else None)
  if isinstance(val, Arr):
    val = tens(I, val)
  if not X.same_dtype(val.dtype, v.t.dtype):
    I.err(ValueError, 'assign: dtype %s to variable of dtype %s' % (val.dtype.name, v.t.dtype.name))
  if len(val.shape) != len(v.t.shape) or any(not D.same(a, b) for a, b in zip(val.shape, v.t.shape)):
    I.err(ValueError, 'Cannot assign value of shape %s to variable with shape %s' % (
        list(map(D.show, val.shape)), list(map(D.show, v.t.shape))))
  if kind == 'assign_add':
    val = X.add(v.t, val)
  elif kind == 'assign_sub':
    val = X.add(v.t, val, -1)
  I.mutated(v, kind)
  v.t = val.view()
  v.history.append(v.t)
  return v


def var_attr(I, v, name):
  if isinstance(v, KVar):
    if name == 'value':
      return v.inner
    if name in ('trainable', 'numpy', 'assign', 'assign_add', 'assign_sub', 'shape', 'ndim'):
      return var_attr(I, v.inner, name)
    if name == 'name':
      return v.name
    if name == 'get_shape':
      I.err(AttributeError, "'Variable' object has no attribute 'get_shape'")
    raise Unsupported('keras Variable.%s' % name)
  if name in ('assign', 'assign_add', 'assign_sub'):
    return Native(name, lambda I, value, use_locking=False, name=None, read_value=True, k=name: var_assign(I, v, value, k))
  if name in ('read_value', 'value', 'initialized_value'):
    return Native(name, lambda I: v.t.view())
  if name == 'numpy':
    return Native(name, lambda I: I.detach(v.t).view(np=True))
  if name == 'name':
    return v.name + ':0'
  if name == 'trainable':
    return v.trainable
  if name in ('initializer',):
    return None
  if name in L.KNOWN['Variable']:
    raise Unsupported('Variable.%s' % name)
  return tensor_attr(I, v.t, name)


def get_variable_v1(I, name, shape=None, dtype=None, initializer=None, regularizer=None, trainable=None,
                    collections=None, caching_device=None, partitioner=None, validate_shape=True,
                    use_resource=None, custom_getter=None, constraint=None, synchronization=None,
                    aggregation=None):
  if not isinstance(name, str):
    I.err(TypeError, 'variable name must be a string')
  scope = I.variables.get('scope', [])
  full = join_scope(scope + [name])
  reg_ = I.variables.setdefault('named', {})
  reuse = I.variables.get('reuse', [False])[-1]
  if I.lib.eager:
    # without an eager variable store every call makes a new variable
    reuse = AUTO_REUSE
    if initializer is None and shape is None:
      I.err(ValueError, 'The shape of variable %s must be fully defined' % full)
  elif full in reg_:
    if reuse is False:
      I.err(ValueError, 'Variable %s already exists, disallowed.' % full)
    return reg_[full]
  if reuse is True:
    I.err(ValueError, 'Variable %s does not exist' % full)
  if initializer is None:
    if shape is None:
      I.err(ValueError, 'Shape of a new variable (%s) must be fully defined' % full)
    raise Unsupported('default initializer')
  if isinstance(initializer, (FuncV, Native, BoundV)):
    initializer = I.call(initializer, [shape], {})
  elif shape is not None:
    I.err(ValueError, 'If initializer is a constant, do not specify shape.')
  v = mkvar(I, initializer, trainable, full, dtype)
  reg_[full] = v
  if collections is not None:
    for c in iterate(I, collections):
      I.collections.setdefault(c, []).append(v)
  else:
    I.collections.setdefault('variables', []).append(v)
    if v.trainable:
      I.collections.setdefault('trainable_variables', []).append(v)
  v.constraint = constraint
  if regularizer is not None:
    I.collections.setdefault('regularization_losses', []).append(I.call(regularizer, [v], {}))
  return v


AUTO_REUSE = 'AUTO_REUSE'


def join_scope(names):
  r = ''
  for n in names:
    r = r + '/' + n if r else n
  return r


class VarScope(object):
  def __init__(self, name, reuse, I):
    self.name = name
    self.reuse = AUTO_REUSE if I.lib.eager else reuse
    self.I = I


class VarScopeCM(CM):
  def __init__(self, I, name, reuse):
    CM.__init__(self, None, 'variable_scope')
    self.I = I
    self.sname = name
    self.reuse = reuse

  def enter(self):
    I = self.I
    I.variables.setdefault('scope', []).append(self.sname)
    rs = I.variables.setdefault('reuse', [False])
    rs.append(rs[-1] if self.reuse is None else self.reuse)
    return VarScope(join_scope(I.variables['scope']), rs[-1], I)

  def exit(self):
    self.I.variables['scope'].pop()
    self.I.variables['reuse'].pop()


def variable_scope_v1(I, name_or_scope, default_name=None, values=None, initializer=None, regularizer=None,
                      caching_device=None, partitioner=None, custom_getter=None, reuse=None, dtype=None,
                      use_resource=None, constraint=None, auxiliary_name_scope=True):
  n = name_or_scope
  if n is None:
    n = default_name
    if n is None:
      I.err(TypeError, 'If default_name is None then name_or_scope is required')
    # a default name is made unique
    used = I.variables.setdefault('default_names', {})
    k = used.get(n, 0)
    used[n] = k + 1
    if k:
      n = '%s_%d' % (n, k)
  if isinstance(n, VarScope):
    r = n.reuse if reuse is None else reuse
    n = n.name
  else:
    r = reuse
  if not isinstance(n, str):
    I.err(TypeError, 'scope name must be a string')
  return VarScopeCM(I, n, r)


def get_variable_scope_v1(I):
  return VarScope(join_scope(I.variables.get('scope', [])), I.variables.get('reuse', [False])[-1], I)


def assign_v1(I, ref, value, validate_shape=None, use_locking=None, name=None):
  if isinstance(ref, Var):
    return var_assign(I, ref, value)
  I.err(AttributeError, 'assign target is not a variable')


def add_to_collection_v1(I, name, value):
  I.collections.setdefault(name, []).append(value)


def get_collection_v1(I, key, scope=None):
  return list(I.collections.get(key, []))


# ----------------------------------------------------------------------------
# random

def rand_atom(I, shape, dtype, dist, seed=None):
  sl = shape_list(I, shape)
  if None in sl:
    I.err(TFError, 'negative size in random shape')
  if seed is not None and not I.lib.eager:
    # every node of a graph with this seed starts the same sequence
    s = L.num(I, seed)
    if s is None:
      raise Unsupported('seed of a random operation')
    return X.from_atom('%s.seed%s' % (dist, D.show(s)), sl, dtype, kind=dist)
  I.rand += 1
  return X.from_atom('%s%d' % (dist, I.rand), sl, dtype, kind=dist)


@reg('random.normal')
def random_normal(I, shape, mean=None, stddev=None, dtype=F32, seed=None, name=None, dist='gauss'):
  dt = to_dtype(I, dtype)
  if is_int(dt):
    I.err(TypeError, 'random.normal of integer dtype')
  g = rand_atom(I, shape, dt, dist, seed)
  r = g
  if stddev is not None:
    r = L.tensorop(I, 'Mult', r, stddev) if not isinstance(stddev, Tensor) else X.mul(r, stddev)
  if mean is not None:
    r = L.tensorop(I, 'Add', r, mean) if not isinstance(mean, Tensor) else X.add(r, mean)
  return r


@reg('random.truncated_normal')
def random_truncated(I, shape, mean=None, stddev=None, dtype=F32, seed=None, name=None):
  return random_normal(I, shape, mean, stddev, dtype, seed, name, 'trunc')


@reg('random.uniform')
def random_uniform(I, shape, minval=0, maxval=None, dtype=F32, seed=None, name=None):
  dt = to_dtype(I, dtype)
  if not is_float(dt):
    raise Unsupported('random integers')
  u = X.add(rand_atom(I, shape, dt, 'unif', seed), X.scalar(Fraction(1, 2)))
  lo = 0 if minval is None else minval
  hi = 1 if maxval is None else maxval
  width = L.binop(I, 'Sub', hi, lo)
  return L.tensorop(I, 'Add', L.tensorop(I, 'Mult', u, width), lo)


M['random.set_seed'] = Native('tf.random.set_seed', lambda I, seed: I.global_effect('the global random seed'))


# ----------------------------------------------------------------------------
# gradients

def flatten_nest(v):
  if isinstance(v, (list, tuple)):
    out = []
    for x in v:
      out.extend(flatten_nest(x))
    return out
  return [v]


def pack_nest(like_, it):
  if isinstance(like_, (list, tuple)):
    return type(like_)(pack_nest(x, it) for x in like_)
  return next(it)


def GradientTape(I, persistent=False, watch_accessed_variables=True):
  return Tape(I.truth(persistent))


def tape_watch(I, tape, tensor):
  for t in flatten_nest(tensor):
    if isinstance(t, Inst):
      I.err(ValueError, 'Passed in object of type %s, not tf.Tensor' % t.cls.name)
    if isinstance(t, Var):
      t = t.t
    if not isinstance(t, Tensor):
      I.err(ValueError, 'cannot watch %s' % typename(t))
    if t.top:
      raise Unsupported(t.top)
    tape.saved.append((t, (t.flat, t.terms, t.canon, t._axes)))
    tape.watched.append((t, unknown(I, t)))


def unknown(I, t):
  """Makes the tensor an unknown of its own; returns the name of the unknown."""
  orig = X.aligned(t.view())
  key = 'w%d' % (len(I.watch_defs) + 1)
  I.watch_defs[key] = orig
  labels = [fresh(T.ldim(l)) for l in orig.flat]
  a = T.atom(key, 'watch', None, legdims=tuple(T.ldim(l) for l in labels))
  n = Tensor(orig.shape, labels, [Term(Fraction(1), [(a, tuple(labels), 1)], frozenset())], orig.dtype)
  t.flat, t.terms, t.canon, t._axes = n.flat, n.terms, n.canon, None
  return key


def tape_gradient(I, tape, target, sources, output_gradients=None, unconnected_gradients=None):
  if output_gradients is not None:
    raise Unsupported('output_gradients')
  if tape.used and not tape.persistent:
    I.err(RuntimeError, 'A non-persistent GradientTape can only be used to compute one set of gradients')
  tape.used = True
  if isinstance(target, Inst):
    I.err(ValueError, 'gradient of a TT object')
  if isinstance(target, (list, tuple)):
    total = None
    for t in flatten_nest(target):
      s = X.reduce_sum(t)
      total = s if total is None else X.add(total, s)
  else:
    total = X.reduce_sum(tens(I, target))
  res = []
  last = max([int(k[1:]) for t, k in tape.watched] or [0])     # later ones belong to inner tapes
  for s in flatten_nest(sources):
    keys = [k for t, k in tape.watched if t is s]
    if not keys:
      res.append(None)
      continue
    k = keys[-1]
    if total.top:
      res.append(X.top(total.top, s.shape, s.dtype))
      continue
    total = X.substitute_atoms(total, {w: v for w, v in I.watch_defs.items() if int(w[1:]) > last})
    d = X.derivative(total, k, s)
    if not any(f[0].key == k or X._depends(f[0], k) for t in total.terms for f in t.fs):
      res.append(None)
      continue
    res.append(d)
  return pack_nest(sources, iter(res))


def tape_attr(I, tape, name):
  if name == 'watch':
    return Native('watch', lambda I, tensor: tape_watch(I, tape, tensor))
  if name == 'gradient':
    return Native('gradient', lambda I, target, sources, output_gradients=None, unconnected_gradients=None:
                  tape_gradient(I, tape, target, sources, output_gradients, unconnected_gradients))
  if name in ('stop_recording',):
    return Native(name, lambda I: CM(None))
  if name in ('__enter__', '__exit__'):
    raise Unsupported('manual tape')
  raise Unsupported('GradientTape.%s' % name)


@reg('gradients')
def gradients(I, ys, xs, grad_ys=None, name='gradients', gate_gradients=False, aggregation_method=None,
              stop_gradients=None, unconnected_gradients=None):
  if I.lib.eager:
    I.err(RuntimeError, 'tf.gradients is not supported when eager execution is enabled.')
  from .driver import NeedWatch
  if grad_ys is not None or stop_gradients is not None:
    raise Unsupported('tf.gradients')
  for y in flatten_nest(ys):
    if isinstance(y, Inst):
      I.err(TypeError, 'gradient of a TT object')
  total = None
  for y in flatten_nest(ys):
    s = X.reduce_sum(tens(I, y))
    total = s if total is None else X.add(total, s)
  srcs = flatten_nest(xs)
  order = I.order
  for s in srcs:
    if not isinstance(s, Tensor) or s.top or order is None or s.uid not in order.pos:
      raise Unsupported('tf.gradients')
  if any(s.uid not in order.keys for s in srcs):
    raise NeedWatch([order.pos[s.uid] for s in srcs])
  keys = [order.keys[s.uid] for s in srcs]
  for k, w in I.watch_defs.items():
    if any(f[0].key in keys or any(X._depends(f[0], q) for q in keys) for t in w.terms for f in t.fs):
      raise Unsupported('gradient by tensors that depend on each other')
  res = []
  for s, k in zip(srcs, keys):
    if total.top:
      res.append(X.top(total.top, s.shape, s.dtype))
    elif not any(f[0].key == k or X._depends(f[0], k) for t in total.terms for f in t.fs):
      res.append(None)
    else:
      res.append(X.derivative(total, k, s))
  return res


# ----------------------------------------------------------------------------
# sparse

def SparseTensor(I, indices, values, dense_shape):
  return Sparse(tens(I, indices), tens(I, values), intarr(I, dense_shape))


@reg('sparse.to_dense')
def sparse_to_dense(I, sp_input, default_value=None, validate_indices=True, name=None):
  raise Unsupported('sparse.to_dense')


# ----------------------------------------------------------------------------
# types

def t_tensor(v):
  return (isinstance(v, Tensor) and not v.np) or (isinstance(v, Arr) and v.flavor == 'tf')


T_TENSOR = TypeV('tf.Tensor', t_tensor)
T_VAR = TypeV('tf.Variable', lambda v: isinstance(v, Var) and not isinstance(v, KVar), Variable)
T_SPARSE = TypeV('tf.SparseTensor', lambda v: isinstance(v, Sparse), SparseTensor)
T_TSHAPE = TypeV('tf.TensorShape', lambda v: isinstance(v, TShape), lambda I, dims: to_tshape(I, dims))
T_TAPE = TypeV('tf.GradientTape', lambda v: isinstance(v, Tape), GradientTape)
T_DTYPE = TypeV('tf.DType', lambda v: isinstance(v, DType))
M.update({'Tensor': T_TENSOR, 'Variable': T_VAR, 'SparseTensor': T_SPARSE, 'TensorShape': T_TSHAPE,
          'GradientTape': T_TAPE, 'newaxis': None, 'dtypes.DType': T_DTYPE, 'DType': T_DTYPE})
for _n, _d in DT.items():
  M[_n] = _d
  M['dtypes.' + _n] = _d

V1 = {
    'get_variable': Native('tf.get_variable', get_variable_v1),
    'variable_scope': Native('tf.variable_scope', variable_scope_v1),
    'get_variable_scope': Native('tf.get_variable_scope', get_variable_scope_v1),
    'assign': Native('tf.assign', assign_v1),
    'AUTO_REUSE': AUTO_REUSE,
    'add_to_collection': Native('tf.add_to_collection', add_to_collection_v1),
    'get_collection': Native('tf.get_collection', get_collection_v1),
    'enable_eager_execution': Native('enable_eager_execution', lambda I, *a, **k: None),
    'logging.vlog': Native('tf.logging.vlog', lambda I, level, msg, *args: None),
    'logging.info': Native('tf.logging.info', lambda I, msg, *args: None),
    'logging.warn': Native('tf.logging.warn', lambda I, msg, *args: None),
    'logging.warning': Native('tf.logging.warning', lambda I, msg, *args: None),
    'GraphKeys.REGULARIZATION_LOSSES': 'regularization_losses',
    'GraphKeys.GLOBAL_VARIABLES': 'variables',
    'GraphKeys.TRAINABLE_VARIABLES': 'trainable_variables',
    'name_scope': Native('tf.name_scope', lambda I, name, default_name=None, values=None: CM(name or default_name)),
    'squeeze': Native('tf.squeeze', lambda I, input, axis=None, name=None, squeeze_dims=None:
                      squeeze(I, input, axis if axis is not None else squeeze_dims)),
    'svd': M['linalg.svd'], 'qr': M['linalg.qr'],
    'random_normal': M['random.normal'], 'log': M['math.log'],
    'matrix_determinant': M['linalg.det'], 'matrix_inverse': M['linalg.inv'], 'cholesky': M['linalg.cholesky'],
    'div': M['divide'], 'set_random_seed': M['random.set_seed'],
}


# ----------------------------------------------------------------------------
# attributes of tensors

def tensor_attr(I, o, name):
  """o: Tensor (tf flavour) or Arr flavor tf."""
  if isinstance(o, Arr):
    sh = TShape(o.shape)
    dt = {'i': DT['int32'], 'f': F32, 'b': DT['bool']}.get(o.kind)
  else:
    sh = static_shape(o)
    dt = o.dtype
  if name == 'shape':
    return sh
  if name == 'get_shape':
    return Native('get_shape', lambda I: sh)
  if name == 'dtype':
    if dt is None:
      return F32
    return dt
  if name == 'ndim':
    return len(sh.dims)
  if name in ('rank',):
    I.err(AttributeError, "'EagerTensor' object has no attribute 'rank'")
  if name == 'name':
    if I.lib.eager:
      I.err(AttributeError, 'Tensor.name is undefined when eager execution is enabled.')
    return 'tensor'
  if name in ('op', 'graph', 'value_index'):
    if I.lib.eager:
      I.err(AttributeError, 'Tensor.%s is undefined when eager execution is enabled.' % name)
    raise Unsupported('Tensor.%s' % name)
  if name == 'numpy':
    return Native('numpy', lambda I: Arr(o.shape, o.data, 'np', o.kind) if isinstance(o, Arr) else I.detach(o).view(np=True))
  if name == 'set_shape':
    return Native('set_shape', lambda I, shape: None)
  if name == 'eval':
    return Native('eval', lambda I, *a, **k: o)
  if name in ('device', 'consumers', 'ref', 'backing_device', 'cpu', 'gpu', '_numpy'):
    raise Unsupported('Tensor.%s' % name)
  if name in ('__add__', '__mul__', '__sub__', '__getitem__', '__len__', '__neg__', '__truediv__', '__matmul__'):
    op = {'__add__': 'Add', '__mul__': 'Mult', '__sub__': 'Sub', '__truediv__': 'Div', '__matmul__': 'MatMult'}.get(name)
    if op:
      return Native(name, lambda I, y: I.binop(op, o, y))
    if name == '__getitem__':
      return Native(name, lambda I, i: I.getitem(o, i))
    raise Unsupported(name)
  L.no_attr(I, 'EagerTensor', name)


def sparse_attr(I, o, name):
  if name in ('indices', 'values'):
    return getattr(o, name)
  if name in ('dense_shape',):
    return o.dense_shape
  if name in ('get_shape', 'shape'):
    sh = TShape(o.dense_shape.data)
    return Native('get_shape', lambda I: sh) if name == 'get_shape' else sh
  if name == 'dtype':
    return o.values.dtype
  raise Unsupported('SparseTensor.%s' % name)


@reg('unravel_index')
def unravel_index(I, indices, dims, name=None):
  d = intarr(I, dims)
  if d is None or len(d.shape) != 1:
    raise Unsupported('unravel_index')
  i = tens(I, indices)
  s = 1
  outs = []
  for n in reversed(d.data):
    outs.insert(0, L.tensorop(I, 'Mod', L.tensorop(I, 'FloorDiv', i, s), n))
    s = D.mul(s, n)
  return stack(I, outs)
