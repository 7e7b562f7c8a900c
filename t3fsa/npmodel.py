"""Transfer functions for the NumPy API on concrete-structure arrays."""
from fractions import Fraction

from . import dim as D
from .dim import Dim
from . import tensor as X
from .tensor import Tensor, Unsupported, OpError, DType
from .values import *  # noqa
from .interp import EXC, LazyGen, _MISSING
from .lib import *  # noqa
from . import lib as L
from . import tfmodel as TFM

N = {}


def reg(*names):
  def deco(fn):
    for n in names:
      N[n] = Native('np.' + n, fn)
    return fn
  return deco


def kind_of(dt):
  return 'i' if is_int(dt) else ('b' if dt.name == 'bool' else 'f')


def astype(I, a, dtype):
  if dtype is None:
    return a
  if isinstance(dtype, TypeV) and dtype.name in ('object', 'str'):
    return Arr(a.shape, a.data, 'np', 'o')
  dt = to_dtype(I, dtype)
  if isinstance(a, Tensor):
    return a.view(dtype=dt)
  k = kind_of(dt)
  if k == 'i':
    data = []
    for x in a.data:
      if isinstance(x, Inf):
        # conversion of infinity to an integer type is undefined; NumPy yields
        # the most negative value
        data.append(-2 ** 31 if '32' in dt.name else -2 ** 63)
      elif x is None:
        I.err(TypeError, "int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
      else:
        data.append(to_int(I, x))
    return Arr(a.shape, data, 'np', 'i')
  if k == 'b':
    return Arr(a.shape, [I.truth(x) for x in a.data], 'np', 'b')
  out = []
  for x in a.data:
    if x is None:
      raise Unsupported('None as float')
    out.append(b_float(I, x))
  return Arr(a.shape, out, 'np', 'f')


def arr(I, v):
  """Argument as Arr; data tensors are returned as they are."""
  if isinstance(v, Var):
    v = v.t
  if isinstance(v, Tensor):
    try:
      return to_arr(I, v)
    except Unsupported:
      return I.detach(v)
  if isinstance(v, (list, tuple)) and any(isinstance(x, Tensor) and x.flat for x in v):
    return I.detach(L.stack_values(I, list(v), 0))
  a = to_arr(I, v)
  if a.flavor != 'np':
    a = Arr(a.shape, a.data, 'np', a.kind)
  return a


def need_arr(I, v, what='array'):
  a = arr(I, v)
  if isinstance(a, Tensor):
    raise Unsupported('numpy %s of data' % what)
  return a


def out(a):
  """0-d arrays become scalars."""
  if isinstance(a, Arr) and a.shape == ():
    return a.wrap(a.data[0])
  return a


@reg('array', 'asarray', 'ascontiguousarray', 'asanyarray')
def array(I, object, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
  a = arr(I, object)
  if isinstance(a, Tensor):
    a = a.view(np=True)
    return a if dtype is None else a.view(dtype=to_dtype(I, dtype))
  a = Arr(a.shape, a.data, 'np', a.kind)
  if not a.data and dtype is None:
    a.kind = 'f'
  return astype(I, a, dtype)


def fillv(I, value, shape, dtype, dflt='float64'):
  sl = shape_list(I, shape)
  if None in sl:
    I.err(ValueError, 'negative dimensions are not allowed')
  dt = to_dtype(I, dtype) or DT[dflt]
  if all(isinstance(s, int) for s in sl):
    n = 1
    for s in sl:
      n *= s
    if n <= 512:
      v = value if is_int(dt) else (bool(value) if dt.name == 'bool' else PyFloat(X.scalar(value)))
      if isinstance(value, PyFloat):
        v = value
      return Arr(sl, [v] * n, 'np', kind_of(dt))
  return X.const_fill(value.t if isinstance(value, PyFloat) else value, sl, dt, np=True)


@reg('ones')
def ones(I, shape, dtype=None, order='C', like=None):
  return fillv(I, 1, shape, dtype)


@reg('zeros', 'empty')
def zeros(I, shape, dtype=None, order='C', like=None):
  return fillv(I, 0, shape, dtype)


@reg('full')
def full(I, shape, fill_value, dtype=None, order='C', like=None):
  v = num(I, fill_value)
  if v is None:
    raise Unsupported('np.full')
  if dtype is None and isinstance(v, (int, Dim)):
    sl = shape_list(I, shape)
    if all(isinstance(s, int) for s in sl):
      n = 1
      for s in sl:
        n *= s
      return Arr(sl, [v] * n, 'np', 'i')
  return fillv(I, v, shape, dtype)


@reg('ones_like')
def ones_like(I, a, dtype=None, order='K', subok=True, shape=None):
  b = need_arr(I, a)
  return astype(I, Arr(b.shape, [1] * len(b.data), 'np', 'i'), dtype or (DT['float64'] if b.kind == 'f' else None))


@reg('zeros_like')
def zeros_like(I, a, dtype=None, order='K', subok=True, shape=None):
  b = need_arr(I, a)
  return astype(I, Arr(b.shape, [0] * len(b.data), 'np', 'i'), dtype or (DT['float64'] if b.kind == 'f' else None))


@reg('arange')
def arange(I, *a, **kw):
  v = [num(I, x) for x in a]
  if not all(isinstance(x, int) for x in v):
    raise Unsupported('symbolic arange')
  r = list(range(*v))
  return astype(I, Arr((len(r),), r, 'np', 'i'), kw.get('dtype'))


@reg('eye', 'identity')
def eye(I, N, M=None, k=0, dtype=None, order='C'):
  n = num(I, N)
  return X.eye(n, n, to_dtype(I, dtype) or DT['float64'], []).view(np=True)


# -- reductions -----------------------------------------------------------------

def reduce_(f, unit, name):
  def g(I, a, axis=None, dtype=None, out=None, keepdims=False):
    x = arr(I, a)
    if isinstance(x, Tensor):
      if name == 'sum':
        return X.reduce_sum(x, TFM.red_axes(I, x.rank, axis), I.truth(keepdims))
      raise Unsupported('np.%s of data' % name)
    if dtype is not None:
      x = astype(I, x, dtype)
    if not x.data and unit is None:
      I.err(ValueError, 'zero-size array to reduction operation')
    ff = lambda p, q: f(I, p, q)
    u = unit
    if x.kind == 'f' and isinstance(u, int):
      u = PyFloat(X.scalar(u))
    if x.kind == 'b':
      x = Arr(x.shape, [int(v) for v in x.data], 'np', 'i')
    r = TFM.arr_reduce(I, x, axis, I.truth(keepdims), ff, u)
    if r.shape == ():
      return r.wrap(r.data[0])
    return r
  return g




def wrap64(v):
  """Integers of NumPy have 64 bits."""
  if isinstance(v, int) and not isinstance(v, bool) and not -2 ** 63 <= v < 2 ** 63:
    return (v + 2 ** 63) % 2 ** 64 - 2 ** 63
  return v


N['prod'] = N['product'] = Native('np.prod', reduce_(lambda I, p, q: wrap64(numop(I, 'Mult', num(I, p), num(I, q))), 1, 'prod'))
N['sum'] = Native('np.sum', reduce_(lambda I, p, q: numop(I, 'Add', num(I, p), num(I, q)), 0, 'sum'))


def _max(I, p, q):
  return L._extreme(I, (p, q), None, _MISSING, 'Gt')


def _min(I, p, q):
  return L._extreme(I, (p, q), None, _MISSING, 'Lt')


N['max'] = N['amax'] = Native('np.max', reduce_(_max, None, 'max'))
N['min'] = N['amin'] = Native('np.min', reduce_(_min, None, 'min'))


@reg('mean')
def mean(I, a, axis=None, dtype=None, out=None, keepdims=False):
  x = need_arr(I, a)
  s = N['sum'].fn(I, x, axis)
  if axis is not None:
    raise Unsupported('np.mean axis')
  return I.binop('Div', s, len(x.data))


@reg('any')
def any_(I, a, axis=None, out=None, keepdims=False):
  if isinstance(a, LazyGen):
    return True
  x = arr(I, a)
  if isinstance(x, Tensor):
    raise Unsupported('np.any of data')
  r = False
  for v in x.data:
    if I.truth(v):
      r = True
      break
  return r


@reg('all', 'alltrue')
def all_(I, a, axis=None, out=None, keepdims=False):
  if isinstance(a, LazyGen):
    return True
  x = arr(I, a)
  if isinstance(x, Tensor):
    raise Unsupported('np.all of data')
  for v in x.data:
    if not I.truth(v):
      return False
  return True


def cum(op, unit):
  def g(I, a, axis=None, dtype=None, out=None):
    x = need_arr(I, a)
    if len(x.shape) != 1 and axis is not None:
      raise Unsupported('np.cum axis')
    r = []
    v = unit
    for y in x.data:
      v = numop(I, op, num(I, v), num(I, y))
      r.append(v)
    return Arr((len(r),), r, 'np')
  return g


N['cumprod'] = Native('np.cumprod', cum('Mult', 1))
N['cumsum'] = Native('np.cumsum', cum('Add', 0))


# -- elementwise ------------------------------------------------------------------

def un(name, f):
  def g(I, x, dtype=None):
    if isinstance(x, Tensor) or isinstance(x, Var):
      t = as_tensor(I, x)
      return tun(I, name, t)
    a = arr(I, x)
    if isinstance(a, Tensor):
      return tun(I, name, a)
    r = Arr(a.shape, [f(I, num(I, v)) for v in a.data], 'np')
    return r.wrap(r.data[0]) if r.shape == () else r
  return g


def tun(I, name, t):
  if name == 'sqrt':
    return X.pow_const(t, Fraction(1, 2))
  if name == 'square':
    return X.pow_const(t, 2)
  return X.unary(t, {'absolute': 'abs'}.get(name, name))


def fun(name):
  def f(I, v):
    if isinstance(v, Inf):
      raise Unsupported('np.%s of infinity' % name)
    t = scalar_t(v)
    if t.top:
      return PyFloat(t, np=True)
    return PyFloat(tun(I, name, t), np=True)
  return f


def f_abs(I, v):
  return b_abs(I, v)


def f_square(I, v):
  return numop(I, 'Mult', v, v)


for _n in ('sqrt', 'exp', 'log'):
  N[_n] = Native('np.' + _n, un(_n, fun(_n)))
N['abs'] = N['absolute'] = Native('np.abs', un('abs', f_abs))
N['square'] = Native('np.square', un('square', f_square))
N['sign'] = Native('np.sign', un('sign', fun('sign')))


def rnd(name):
  def f(I, v):
    if isinstance(v, (int, Dim)):
      return v
    c = v.const() if isinstance(v, PyFloat) else None
    if c is None or isinstance(c, Dim):
      if isinstance(c, Dim) and D.is_integral(c):
        return PyFloat(v.t)
      raise Unsupported('np.%s of a symbolic value' % name)
    import math
    r = {'floor': math.floor, 'ceil': math.ceil, 'round': round, 'rint': round}[name](c)
    return PyFloat(X.scalar(r))
  return f


for _n in ('floor', 'ceil', 'round', 'rint'):
  N[_n] = Native('np.' + _n, un(_n, rnd(_n)))
N['around'] = N['round']

_isinf = un('isinf', lambda I, v: isinstance(v, Inf))
N['isinf'] = Native('np.isinf', _isinf)
N['isfinite'] = Native('np.isfinite', un('isfinite', lambda I, v: not isinstance(v, Inf)))
N['isnan'] = Native('np.isnan', un('isnan', lambda I, v: False))


def binf(op):
  def g(I, x1, x2):
    return I.binop(op, arr(I, x1), arr(I, x2))
  return g


for _n, _op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'),
                ('true_divide', 'Div'), ('power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod')):
  N[_n] = Native('np.' + _n, binf(_op))


def cmpf(op):
  def g(I, x1, x2):
    return I.compare(op, arr(I, x1), arr(I, x2))
  return g


for _n, _op in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'),
                ('greater', 'Gt'), ('greater_equal', 'GtE')):
  N[_n] = Native('np.' + _n, cmpf(_op))


def minmaxf(f):
  def g(I, x1, x2):
    a, b = need_arr(I, x1), need_arr(I, x2)
    shape, idx = np_broadcast(I, a, b)
    r = Arr(shape, [f(I, a.data[i], b.data[j]) for i, j in idx], 'np')
    return r.wrap(r.data[0]) if r.shape == () else r
  return g


N['minimum'] = Native('np.minimum', minmaxf(_min))
N['maximum'] = Native('np.maximum', minmaxf(_max))


@reg('iinfo')
def iinfo(I, type):
  dt = L.to_dtype(I, type)
  n = {'int8': 7, 'int16': 15, 'int32': 31, 'int64': 63}.get(dt.name)
  if n is None:
    raise Unsupported('np.iinfo')
  return Record('np.iinfo', {'max': 2 ** n - 1, 'min': -2 ** n, 'bits': n + 1, 'dtype': dt})


@reg('logical_not')
def logical_not(I, x):
  a = need_arr(I, x)
  return out(Arr(a.shape, [not I.truth(v) for v in a.data], 'np', 'b'))


@reg('logical_and')
def logical_and(I, x1, x2):
  a, b = need_arr(I, x1), need_arr(I, x2)
  shape, idx = np_broadcast(I, a, b)
  return out(Arr(shape, [I.truth(a.data[i]) and I.truth(b.data[j]) for i, j in idx], 'np', 'b'))


@reg('logical_or')
def logical_or(I, x1, x2):
  a, b = need_arr(I, x1), need_arr(I, x2)
  shape, idx = np_broadcast(I, a, b)
  return out(Arr(shape, [I.truth(a.data[i]) or I.truth(b.data[j]) for i, j in idx], 'np', 'b'))


@reg('where')
def where(I, condition, x=None, y=None):
  c = need_arr(I, condition)
  if x is None:
    if len(c.shape) != 1:
      raise Unsupported('np.where')
    r = [i for i, v in enumerate(c.data) if I.truth(v)]
    return (Arr((len(r),), r, 'np', 'i'),)
  a, b = need_arr(I, x), need_arr(I, y)
  sh, idx = np_broadcast(I, c, a)
  if sh != c.shape:
    raise Unsupported('np.where broadcast')
  _, idy = np_broadcast(I, c, b)
  return out(Arr(c.shape, [a.data[p[1]] if I.truth(c.data[p[0]]) else b.data[q[1]] for p, q in zip(idx, idy)], 'np'))


# -- structure -----------------------------------------------------------------------

@reg('insert')
def insert(I, arr_, obj, values, axis=None):
  a = need_arr(I, arr_)
  if axis is not None and cint(I, axis) not in (0, -1) or len(a.shape) > 1 and axis is not None:
    raise Unsupported('np.insert axis')
  k = cint(I, obj)
  n = len(a.data)
  if k < -n or k > n:
    I.err(IndexError, 'index %d is out of bounds' % k)
  if k < 0:
    k += n
  v = need_arr(I, values)
  ins = [to_int(I, x) if a.kind == 'i' else x for x in v.data]
  data = a.data[:k] + ins + a.data[k:]
  return Arr((len(data),), data, 'np', a.kind if a.kind == 'i' else None)


# the real first parameter name is "arr"
N['insert'] = Native('np.insert', lambda I, arr, obj, values, axis=None: insert(I, arr, obj, values, axis))


def delete_(I, arr_, obj, axis=None):
  a = need_arr(I, arr_)
  if axis is not None and len(a.shape) > 1:
    raise Unsupported('np.delete axis')
  ks = int_list(I, obj)
  n = len(a.data)
  bad = set()
  for k in ks:
    if k < -n or k >= n:
      I.err(IndexError, 'index %d is out of bounds' % k)
    bad.add(k % n)
  data = [x for i, x in enumerate(a.data) if i not in bad]
  return Arr((len(data),), data, 'np', a.kind)


N['delete'] = Native('np.delete', lambda I, arr, obj, axis=None: delete_(I, arr, obj, axis))


def append_(I, arr_, values, axis=None):
  a, v = need_arr(I, arr_), need_arr(I, values)
  if axis is None:
    data = a.data + v.data
    k = 'i' if (a.kind == 'i' and v.kind == 'i') else None
    return Arr((len(data),), data, 'np', k)
  return TFM.arr_concat(I, [a, v], cint(I, axis), 'np', ValueError)


N['append'] = Native('np.append', lambda I, arr, values, axis=None: append_(I, arr, values, axis))


def fixf(a):
  if a.kind == 'f':
    return a
  return a


def join(I, arrs, axis):
  if not arrs:
    I.err(ValueError, 'need at least one array to concatenate')
  r = TFM.arr_concat(I, arrs, axis, 'np', ValueError)
  if any(a.kind == 'f' for a in arrs) and not any(None in a.data for a in arrs):
    r = astype(I, r, DT['float64'])
  return r


@reg('concatenate')
def concatenate(I, arrays, axis=0, out=None, dtype=None, casting=None):
  vs = iterate(I, arrays)
  xs = [arr(I, v) for v in vs]
  if any(isinstance(x, Tensor) for x in xs):
    return X.concat([as_tensor(I, x) for x in xs], cint(I, axis))
  if axis is None:
    xs = [Arr((len(x.data),), x.data, 'np', x.kind) for x in xs]
    axis = 0
  return join(I, xs, cint(I, axis))


@reg('vstack', 'row_stack')
def vstack(I, tup, dtype=None, casting=None):
  xs = [atleast_2d(I, v) for v in iterate(I, tup)]
  return join(I, xs, 0)


@reg('hstack')
def hstack(I, tup, dtype=None, casting=None):
  xs = [atleast_1d(I, v) for v in iterate(I, tup)]
  return join(I, xs, 0 if len(xs[0].shape) == 1 else 1)


@reg('stack')
def stack(I, arrays, axis=0, out=None, dtype=None, casting=None):
  xs = [need_arr(I, v) for v in iterate(I, arrays)]
  if any(x.shape != xs[0].shape for x in xs):
    I.err(ValueError, 'all input arrays must have the same shape')
  ax = cint(I, axis)
  r = len(xs[0].shape) + 1
  if ax < 0:
    ax += r
  es = [Arr(a.shape[:ax] + (1,) + a.shape[ax:], a.data, 'np', a.kind) for a in xs]
  return join(I, es, ax)


def atleast_1d(I, a):
  x = need_arr(I, a)
  return Arr((1,), x.data, 'np', x.kind) if x.shape == () else x


def atleast_2d(I, a):
  x = need_arr(I, a)
  if len(x.shape) == 0:
    return Arr((1, 1), x.data, 'np', x.kind)
  if len(x.shape) == 1:
    return Arr((1,) + x.shape, x.data, 'np', x.kind)
  return x


N['atleast_1d'] = Native('np.atleast_1d', lambda I, *a: atleast_1d(I, a[0]))
N['atleast_2d'] = Native('np.atleast_2d', lambda I, *a: atleast_2d(I, a[0]))


@reg('squeeze')
def squeeze(I, a, axis=None):
  x = arr(I, a)
  if isinstance(x, Tensor):
    return X.squeeze(x, axis_arg(I, axis)).view(np=True)
  ax = axis_arg(I, axis)
  r = len(x.shape)
  if ax is None:
    sh = [s for s in x.shape if s != 1]
  else:
    axl = [y + r if y < 0 else y for y in (ax if isinstance(ax, list) else [ax])]
    for y in axl:
      if y < 0 or y >= r:
        I.err(IndexError, 'axis out of range')
      if x.shape[y] != 1:
        I.err(ValueError, 'cannot select an axis to squeeze out which has size not equal to one')
    sh = [s for i, s in enumerate(x.shape) if i not in axl]
  return Arr(sh, x.data, 'np', x.kind)


@reg('expand_dims')
def expand_dims(I, a, axis):
  x = arr(I, a)
  if isinstance(x, Tensor):
    return X.expand_dims(x, cint(I, axis))
  ax = cint(I, axis)
  if ax < 0:
    ax += len(x.shape) + 1
  return Arr(x.shape[:ax] + (1,) + x.shape[ax:], x.data, 'np', x.kind)


@reg('reshape')
def reshape(I, a, newshape, order='C'):
  x = arr(I, a)
  if isinstance(x, Tensor):
    return X.reshape(x, shape_list(I, newshape))
  return TFM.arr_reshape(I, x, shape_list(I, newshape), ValueError)


@reg('ravel')
def ravel(I, a, order='C'):
  x = arr(I, a)
  if isinstance(x, Tensor):
    return X.reshape(x, [None])
  return Arr((len(x.data),), x.data, 'np', x.kind)


@reg('transpose')
def transpose(I, a, axes=None):
  x = arr(I, a)
  if isinstance(x, Tensor):
    return TFM.transpose(I, x, axes).view(np=True)
  return TFM.arr_transpose(I, x, None if axes is None else int_list(I, axes))


@reg('copy')
def copy(I, a, order='K', subok=False):
  x = arr(I, a)
  return x if isinstance(x, Tensor) else Arr(x.shape, x.data, 'np', x.kind)


@reg('tile')
def tile(I, A, reps):
  x = need_arr(I, A)
  r = int_list(I, reps)
  if len(x.shape) <= 1 and len(r) == 1:
    return Arr((len(x.data) * r[0],), x.data * r[0], 'np', x.kind)
  raise Unsupported('np.tile')


@reg('repeat')
def repeat(I, a, repeats, axis=None):
  x = need_arr(I, a)
  k = cint(I, repeats)
  if len(x.shape) <= 1:
    return Arr((len(x.data) * k,), [v for v in x.data for _ in range(k)], 'np', x.kind)
  raise Unsupported('np.repeat')


@reg('flip')
def flip(I, m, axis=None):
  x = need_arr(I, m)
  if len(x.shape) == 1:
    return Arr(x.shape, x.data[::-1], 'np', x.kind)
  raise Unsupported('np.flip')


@reg('shape')
def shape(I, a):
  x = arr(I, a)
  return tuple(x.shape)


@reg('ndim')
def ndim(I, a):
  return len(arr(I, a).shape)


@reg('size')
def size(I, a, axis=None):
  x = arr(I, a)
  return D.prod(x.shape)


@reg('isscalar')
def isscalar(I, element):
  return isinstance(element, (int, Dim, PyFloat, Inf, str, bool))


@reg('array_equal')
def array_equal(I, a1, a2, equal_nan=False):
  x, y = need_arr(I, a1), need_arr(I, a2)
  if x.shape != y.shape:
    return False
  return all(L.equal_vals(I, p, q) for p, q in zip(x.data, y.data))


@reg('dot')
def dot(I, a, b, out=None):
  x, y = need_arr(I, a), need_arr(I, b)
  if len(x.shape) == 1 and x.shape == y.shape:
    v = 0
    for p, q in zip(x.data, y.data):
      v = numop(I, 'Add', num(I, v), numop(I, 'Mult', num(I, p), num(I, q)))
    return v
  raise Unsupported('np.dot')


@reg('argsort')
def argsort(I, a, axis=-1, kind=None, order=None):
  x = need_arr(I, a)
  idx = L.sort_items(I, list(range(len(x.data))), Native('k', lambda I, i: x.data[i]), False)
  return Arr((len(idx),), idx, 'np', 'i')


# -- types -------------------------------------------------------------------------------

def is_nd(v):
  return (isinstance(v, Arr) and v.flavor == 'np') or (isinstance(v, Tensor) and v.np)


T_NDARRAY = TypeV('np.ndarray', is_nd)
N.update({
    'ndarray': T_NDARRAY,
    'integer': TypeV('np.integer', lambda v: isinstance(v, (NpInt, NpDim))),
    'signedinteger': TypeV('np.signedinteger', lambda v: isinstance(v, (NpInt, NpDim))),
    'floating': TypeV('np.floating', lambda v: isinstance(v, PyFloat) and v.np),
    'number': TypeV('np.number', lambda v: isinstance(v, (NpInt, NpDim)) or isinstance(v, PyFloat) and v.np),
    'generic': TypeV('np.generic', lambda v: isinstance(v, (NpInt, NpDim)) or isinstance(v, PyFloat) and v.np),
    'inf': Inf(1), 'Inf': Inf(1), 'infty': Inf(1), 'newaxis': None,
    'int_': DT['int64'], 'float_': DT['float64'], 'bool_': DT['bool'], 'intp': DT['int64'],
})
for _n, _d in DT.items():
  if _n not in ('bool', 'string', 'bfloat16'):
    N[_n] = _d


# -- ndarray attributes --------------------------------------------------------------------

def attr(I, o, name):
  shape_ = tuple(o.shape)
  if name == 'shape':
    return shape_
  if name == 'ndim':
    return len(shape_)
  if name == 'size':
    return D.prod(shape_)
  if name == 'T':
    return transpose(I, o)
  if name == 'dtype':
    if isinstance(o, Tensor):
      return o.dtype or DT['float64']
    return {'i': DT['int64'], 'f': DT['float64'], 'b': DT['bool']}.get(o.kind) or LibObj('np.dtype(object)')
  if name == 'astype':
    return Native(name, lambda I, dtype, order='K', casting='unsafe', subok=True, copy=True: astype(I, o, dtype))
  if name in ('flatten', 'ravel'):
    return Native(name, lambda I, order='C': ravel(I, o))
  if name == 'reshape':
    return Native(name, lambda I, *s, **k: reshape(I, o, s[0] if len(s) == 1 and not isinstance(s[0], (int, Dim)) else list(s)))
  if name == 'transpose':
    return Native(name, lambda I, *s: transpose(I, o, None if not s else (s[0] if len(s) == 1 and not isinstance(s[0], int) else list(s))))
  if name == 'copy':
    return Native(name, lambda I, order='C': copy(I, o))
  if name == 'tolist':
    return Native(name, lambda I: tolist(o))
  if name == 'item':
    return Native(name, lambda I, *a: o.data[cint(I, a[0]) if a else 0] if isinstance(o, Arr) else b_float(I, o))
  if name in ('sum', 'prod', 'max', 'min', 'any', 'all', 'mean', 'cumprod', 'cumsum', 'squeeze', 'round', 'argsort', 'repeat'):
    fn = N[name].fn
    return Native(name, lambda I, *a, **k: fn(I, o, *a, **k))
  if name == 'fill':
    def fill(I, v):
      I.mutated(o, 'fill')
      o.data[:] = [v] * len(o.data)
    return Native(name, fill)
  if name == 'sort':
    def sort(I):
      I.mutated(o, 'sort')
      o.data[:] = L.sort_items(I, list(o.data), None, False)
    return Native(name, sort)
  if name == 'resize':
    raise Unsupported('ndarray.resize')
  from . import more
  if name in more.METHODS:
    return Native(name, lambda I, *a, **k: more.METHODS[name](I, o, *a, **k))
  if name in ('conj', 'conjugate'):
    return Native(name, lambda I: o)
  if name == 'real':
    return o
  if name == 'flat':
    return Iter(list(ravel(I, o).data)) if isinstance(o, Arr) else I.err(Unsupported, 'flat')
  if name in ('__array__', 'nbytes', 'itemsize', 'strides', 'data', 'base', 'flags',
              'imag', 'diagonal', 'std', 'var', 'put', 'partition', 'searchsorted', 'tobytes', 'view', 'ptp'):
    raise Unsupported('ndarray.%s' % name)
  L.no_attr(I, 'numpy.ndarray', name)


def tolist(a):
  if isinstance(a, Tensor):
    raise Unsupported('tolist of data')

  def rec(k, off, n):
    if k == len(a.shape):
      v = a.data[off]
      if isinstance(v, NpInt):
        return int(v)
      if isinstance(v, NpDim):
        return Dim(v.p)
      return v
    step = n // a.shape[k] if a.shape[k] else 0
    return [rec(k + 1, off + i * step, step) for i in range(a.shape[k])]
  return rec(0, 0, len(a.data))


def _traced(fn):
  def checked(I, *a, **k):
    if not I.lib.eager and (L.has_symbolic(I, a) or L.has_symbolic(I, list(k.values()))):
      I.err(NotImplementedError, 'Cannot convert a symbolic tf.Tensor to a numpy array.')
    return fn(I, *a, **k)
  return checked


for _n in list(N):
  if type(N[_n]) is Native:
    N[_n] = Native(N[_n].name, _traced(N[_n].fn))


@reg('linalg.svd')
def svd(I, a, full_matrices=True, compute_uv=True, hermitian=False):
  t = I.detach(L_tensor(I, a))
  if len(t.shape) < 2:
    I.err(ValueError, '%d-dimensional array given. Array must be at least two-dimensional' % len(t.shape))
  S, U, V = (X.svd_full if I.truth(full_matrices) and I.truth(compute_uv) else X.svd)(t)
  if not I.truth(compute_uv):
    return S.view(np=True)
  k = len(V.shape)
  VH = X.transpose(V, list(range(k - 2)) + [k - 1, k - 2])
  return TFM.named('SVDResult', 'U S Vh', (U.view(np=True), S.view(np=True), VH.view(np=True)))


def L_tensor(I, a):
  if L.has_symbolic(I, a):
    I.err(NotImplementedError, 'Cannot convert a symbolic tf.Tensor to a numpy array.')
  if isinstance(a, Var):
    a = a.t
  return a if isinstance(a, Tensor) else TFM.tens(I, a)
