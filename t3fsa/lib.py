"""Models of builtins and Python data types; dispatch of operators."""
import ast
import inspect
import os
import re
from fractions import Fraction

from . import dim as D
from .dim import Dim
from . import tensor as X
from .tensor import Tensor, Unsupported, OpError, DType
from .values import *  # noqa
from .interp import EXC, LazyGen, PyGen, _MISSING

SITE = '/opt/venv/lib/python3.12/site-packages'

# ----------------------------------------------------------------------------
# dtypes

DT = {}
for _n in ('float16', 'float32', 'float64', 'int32', 'int64', 'bool', 'complex64', 'complex128',
           'string', 'int8', 'uint8', 'int16', 'bfloat16'):
  DT[_n] = DType(_n)
GENERIC = DType('T', generic=True)
GENERIC2 = DType('T2', generic=True)


def is_float(dt):
  return dt.generic or dt.name.startswith(('float', 'bfloat', 'complex'))


def is_int(dt):
  return not dt.generic and dt.name.startswith(('int', 'uint'))


def to_dtype(I, v):
  if v is None:
    return None
  if isinstance(v, DType):
    return v
  if isinstance(v, str):
    if v in DT:
      return DT[v]
    I.err(TypeError, 'data type %r not understood' % v)
  if isinstance(v, TypeV):
    m = {'int': 'int64', 'float': 'float64', 'bool': 'bool'}.get(v.name)
    if m:
      return DT[m]
  raise Unsupported('dtype %r' % (v,))


def dtype_eq(I, a, b):
  if a.name == b.name:
    return True
  if a.generic or b.generic:
    g, o = (a, b) if a.generic else (b, a)
    if o.generic or is_float(o):
      return I.decide('dtype %s is %s' % (g.name, o.name))
    return False
  return False


# ----------------------------------------------------------------------------
# conversions

def num(I, v):
  """int/Dim/PyFloat/Inf from scalar-like value, else None."""
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, (int, Dim, PyFloat, Inf)):
    return v
  if isinstance(v, Arr) and len(v.data) == 1:
    return num(I, v.data[0])
  if isinstance(v, Fraction):
    return PyFloat(v)
  if isinstance(v, Tensor) and v.flat == () and not v.top and v.dtype is not None and is_int(v.dtype):
    return X.as_size(v)
  return None


def cint(I, v):
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, int):
    return int(v)
  if isinstance(v, Arr) and v.shape == ():
    return cint(I, v.data[0])
  if isinstance(v, Dim):
    raise Unsupported('symbolic size used as a structural integer')
  if isinstance(v, Tensor):
    s = X.as_size(v)
    if isinstance(s, int):
      return s
    raise Unsupported('tensor used as a structural integer')
  if isinstance(v, PyFloat):
    I.err(TypeError, "'float' object cannot be interpreted as an integer")
  I.err(TypeError, "'%s' object cannot be interpreted as an integer" % typename(v))


def as_tensor(I, v, dtype=None):
  """Value as Tensor; Python scalars have dtype None (weak)."""
  if isinstance(v, Tensor):
    return v
  if isinstance(v, Var):
    return read_var(I, v)
  if isinstance(v, bool):
    return X.scalar(int(v), dtype or DT['bool'])
  if isinstance(v, (int, Dim)):
    return X.scalar(v, dtype)
  if isinstance(v, PyFloat):
    t = v.t
    return t.view(dtype=dtype) if dtype is not None else t
  if isinstance(v, Fraction):
    return X.scalar(v, dtype)
  if isinstance(v, Inf):
    return X.top('infinite value', (), dtype)
  if isinstance(v, Arr):
    dt = dtype
    if dt is None:
      dt = {'i': DT['int64'] if v.flavor == 'np' else DT['int32'], 'f': DT['float64'],
            'b': DT['bool']}.get(v.kind)
    if any(x is None for x in v.data):
      I.err(ValueError, 'None values not supported.')
    vals = [x.t if isinstance(x, PyFloat) else (int(x) if isinstance(x, bool) else x) for x in v.data]
    return X.from_elements(v.shape, [as_tensor(I, x) if not isinstance(x, Tensor) else x for x in vals], dt)
  if isinstance(v, (list, tuple)):
    return stack_values(I, list(v), 0, dtype)
  if isinstance(v, TShape):
    if v.dims is None or None in v.dims:
      I.err(ValueError, 'Cannot convert a partially known TensorShape to a Tensor')
    return as_tensor(I, Arr((len(v.dims),), v.dims, 'tf'), dtype)
  if v is None:
    I.err(ValueError, 'None values not supported.')
  if isinstance(v, RangeV):
    return as_tensor(I, list(v.items()), dtype)
  if isinstance(v, LazyGen):
    return as_tensor(I, list(v.run()), dtype)
  if isinstance(v, Inst):
    I.err(ValueError, 'Attempt to convert a value of type %s to a Tensor' % v.cls.name)
  if isinstance(v, Sparse):
    I.err(TypeError, 'Failed to convert SparseTensor to Tensor')
  I.err(ValueError, 'Attempt to convert a value of type %s to a Tensor' % typename(v))


def stack_values(I, items, axis, dtype=None):
  ts = [as_tensor(I, x) for x in items]
  dt = dtype
  for t in ts:
    if t.dtype is not None:
      dt = t.dtype
      break
  if not ts:
    return X.Tensor((0,), (X.fresh(0),), [], dt or DT['float32'])
  rank = len(ts[0].shape)
  for t in ts:
    if len(t.shape) != rank or any(not D.same(a, b) for a, b in zip(t.shape, ts[0].shape)):
      I.err(ValueError, 'cannot stack tensors of different shapes')
  if rank == 0 and axis == 0:
    for t in ts:
      if t.top:
        return X.top(t.top, (len(ts),), dt)
    X.check_dtypes(ts, 'stack')
    if len(ts) == 1:
      return ts[0].view(shape=(1,), static=(True,), _axes=None, dtype=dt)
    return X.from_elements((len(ts),), ts, dt)
  if axis < 0:
    axis += rank + 1
  return X.concat([X.expand_dims(t, axis) for t in ts], axis)


def read_var(I, v):
  return v.t


def dynamic(d):
  return isinstance(d, Dim) and bool(d.syms() & getattr(D.CTX, 'dynamic', frozenset()))


def symbolic(I, v):
  """A tensor of a graph that is being traced: it has no value yet."""
  return not I.lib.eager and (isinstance(v, Arr) and v.flavor == 'tf' or isinstance(v, Tensor) and not v.np)


def has_symbolic(I, v):
  if isinstance(v, (list, tuple)):
    return any(has_symbolic(I, x) for x in v)
  return symbolic(I, v)


def static_shape(t):
  if t.top and t.shape is None:
    return TShape(None)
  return TShape([None if dynamic(d) else d for d in t.shape])


def shape_list(I, v, what='shape'):
  """A shape argument as list of int/Dim with None for -1."""
  if isinstance(v, TShape):
    if v.dims is None or any(d is None for d in v.dims):
      I.err(ValueError, 'Cannot convert a partially known TensorShape %r to a Tensor' % v)
    return list(v.dims)
  if isinstance(v, Arr):
    if v.shape == ():
      items = [v.data[0]]
    else:
      items = list(v.data)
      if len(v.shape) != 1:
        I.err(TFError, '%s must be 1-d' % what)
  elif isinstance(v, (list, tuple)):
    items = list(v)
  elif isinstance(v, (RangeV, LazyGen, Iter)):
    items = iterate(I, v)
  elif isinstance(v, (int, Dim)):
    items = [v]
  elif isinstance(v, Tensor):
    if v.top:
      raise Unsupported('unknown shape tensor')
    if len(v.shape) == 0:
      items = [v]
    elif isinstance(v.shape[0], Dim):
      raise Unsupported('shape tensor of symbolic length')
    else:
      items = [X.index_axis(v, 0, i) for i in range(v.shape[0])]
  else:
    I.err(TypeError, 'bad %s %s' % (what, typename(v)))
  out = []
  for x in items:
    if isinstance(x, Arr) and len(x.data) == 1:
      x = x.data[0]
    if isinstance(x, Tensor):
      s = X.as_size(x) if not x.top else None
      if s is None:
        raise Unsupported('data-dependent shape')
      x = s
    if isinstance(x, PyFloat):
      I.err(TypeError, '%s contains a float' % what)
    if x is None:
      I.err(ValueError, "None values not supported (in %s)" % what)
    if isinstance(x, bool) or not isinstance(x, (int, Dim)):
      I.err(TypeError, 'bad element %s in %s' % (typename(x), what))
    if isinstance(x, int) and x < 0:
      if x == -1:
        out.append(None)
        continue
      I.err(TFError, 'negative size %d in %s' % (x, what))
    out.append(int(x) if isinstance(x, int) else x)
  return out


def int_list(I, v):
  if isinstance(v, Arr):
    return [cint(I, x) for x in v.data]
  if isinstance(v, (int,)):
    return [int(v)]
  if isinstance(v, Tensor) and v.rank == 0:
    return [cint(I, v)]
  return [cint(I, x) for x in iterate(I, v)]


def axis_arg(I, v):
  if v is None:
    return None
  if isinstance(v, (list, tuple)) or (isinstance(v, Arr) and v.shape != ()) or isinstance(v, RangeV):
    return int_list(I, v)
  return cint(I, v)


# ----------------------------------------------------------------------------
# names of types, strings

def typename(v):
  if isinstance(v, Inst):
    return v.cls.name
  if isinstance(v, NpInt):
    return 'int64'
  if isinstance(v, Dim):
    return 'int'
  if isinstance(v, PyFloat):
    return 'float'
  if isinstance(v, Inf):
    return 'float'
  if isinstance(v, Arr):
    return 'ndarray' if v.flavor == 'np' else 'EagerTensor'
  if isinstance(v, Tensor):
    return 'ndarray' if v.np else 'EagerTensor'
  if isinstance(v, TShape):
    return 'TensorShape'
  if isinstance(v, (FuncV, BoundV, Native)):
    return 'function'
  if isinstance(v, Var):
    return 'Variable'
  return type(v).__name__


def tostr(I, v):
  if isinstance(v, str):
    return v
  if isinstance(v, NpInt):
    return str(int(v))
  if isinstance(v, (int, type(None))):
    return str(v)
  if isinstance(v, Dim):
    return D.show(v)
  if isinstance(v, Inst):
    for nm in ('__str__', '__repr__'):
      f, _ = v.cls.lookup(nm)
      if f is not None:
        r = I.call(BoundV(f, v), [], {})
        if not isinstance(r, str):
          I.err(TypeError, '__str__ returned non-string (type %s)' % typename(r))
        return r
    return '<%s object>' % v.cls.name
  if isinstance(v, (list, tuple)):
    o, c = ('[', ']') if isinstance(v, list) else ('(', ')')
    return o + ', '.join(reprstr(I, x) for x in v) + c
  if isinstance(v, dict):
    return '{' + ', '.join('%s: %s' % (reprstr(I, a), reprstr(I, b)) for a, b in v.items()) + '}'
  if isinstance(v, ExcInst):
    return ', '.join(tostr(I, a) for a in v.args)
  if isinstance(v, PyFloat):
    c = v.const()
    if c is not None and not isinstance(c, Dim):
      return repr(float(c))
    return repr(v)
  return repr(v)


def reprstr(I, v):
  if isinstance(v, str):
    return repr(v)
  return tostr(I, v)


_FMT = re.compile(r'%(\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL]?)([diouxXeEfFgGcrsa%])')


def percent(I, fmt, arg):
  args = list(arg) if isinstance(arg, tuple) else [arg]
  out = []
  pos = 0
  k = 0
  for m in _FMT.finditer(fmt):
    out.append(fmt[pos:m.start()])
    pos = m.end()
    c = m.group(7)
    if c == '%':
      out.append('%')
      continue
    if m.group(2):
      if not isinstance(arg, dict):
        I.err(TypeError, 'format requires a mapping')
      v = arg[m.group(2)]
    else:
      if k >= len(args):
        I.err(TypeError, 'not enough arguments for format string')
      v = args[k]
      k += 1
    if c in 'sra':
      out.append(tostr(I, v) if c == 's' else reprstr(I, v))
    else:
      n = num(I, v)
      if n is None and isinstance(v, Tensor) and len(v.flat) == 0:
        out.append('<value>')
        continue
      if n is None:
        I.err(TypeError, '%%%s format: a real number is required, not %s' % (c, typename(v)))
      if c in 'xXo' and isinstance(n, (PyFloat, Inf)):
        I.err(TypeError, '%%%s format: an integer is required, not float' % c)
      if c in 'di' and isinstance(n, Inf):
        I.err(EXC['OverflowError'], 'cannot convert float infinity to integer')
      if isinstance(n, int):
        out.append(m.group(0) % n)
      else:
        out.append(tostr(I, n))
  rest = fmt[pos:]
  if '%' in rest:
    I.err(ValueError, 'incomplete format')
  out.append(rest)
  if not isinstance(arg, dict) and k < len(args) and isinstance(arg, (tuple, int, str, Dim, PyFloat)):
    I.err(TypeError, 'not all arguments converted during string formatting')
  return ''.join(out)


# ----------------------------------------------------------------------------
# iteration

def iterate(I, v):
  if isinstance(v, (list, tuple)):
    return list(v)
  if isinstance(v, str):
    return list(v)
  if isinstance(v, dict):
    return list(v.keys())
  if isinstance(v, (set, frozenset)):
    return sorted(v, key=repr)
  if isinstance(v, RangeV):
    return v.items()
  if isinstance(v, LazyGen):
    out = []
    for x in v.run():
      out.append(x)
      if len(out) > 100000:
        raise Unsupported('loop bound exceeded')
    return out
  if isinstance(v, View):
    return v.get()
  if isinstance(v, Iter):
    r = v.items[v.pos:]
    v.pos = len(v.items)
    return r
  if isinstance(v, TShape):
    if v.dims is None:
      I.err(ValueError, 'Cannot iterate over a shape with unknown rank.')
    return list(v.dims)
  if isinstance(v, Arr):
    if v.shape == ():
      I.err(TypeError, 'iteration over a 0-d array')
    return [getitem(I, v, i) for i in range(v.shape[0])]
  if isinstance(v, Var):
    v = v.t
  if isinstance(v, Tensor):
    if v.top and v.shape is None:
      raise Unsupported('iteration over unknown tensor')
    if v.rank == 0:
      I.err(TypeError, 'Cannot iterate over a scalar tensor.')
    if isinstance(v.shape[0], Dim):
      raise Unsupported('iteration over a symbolic dimension')
    return [X.index_axis(v, 0, i) for i in range(v.shape[0])]
  if isinstance(v, Inst):
    f, _ = v.cls.lookup('__iter__')
    if f is not None:
      return iterate(I, I.call(BoundV(f, v), [], {}))
    f, _ = v.cls.lookup('__getitem__')
    if f is not None:
      out = []
      i = 0
      while True:
        try:
          out.append(I.call(BoundV(f, v), [i], {}))
        except PyRaise as e:
          if e.etype is IndexError:
            return out
          raise
        i += 1
        if i > 200:
          raise Unsupported('unbounded __getitem__ iteration')
    I.err(TypeError, "'%s' object is not iterable" % v.cls.name)
  if isinstance(v, Count):
    raise Unsupported('infinite iterator')
  if isinstance(v, LibObj):
    raise Unsupported('iterating over %s' % v.name)
  I.err(TypeError, "'%s' object is not iterable" % typename(v))


# ----------------------------------------------------------------------------
# arithmetic

def scalar_t(v):
  if isinstance(v, PyFloat):
    return v.t
  return X.scalar(v)


def powscalar(I, a, b):
  if isinstance(a, int) and isinstance(b, int):
    if b >= 0:
      return a ** b
    return PyFloat(Fraction(a) ** b)
  if isinstance(a, Dim) and isinstance(b, int) and b >= 0:
    return D.powi(a, b)
  e = b
  if isinstance(b, PyFloat):
    e = b.const()
    if e is None:
      return PyFloat(X.opaque_fn('pow', [scalar_t(a), b.t]))
  return PyFloat(X.pow_const(scalar_t(a), e))


def numop(I, op, a, b):
  """Binary op on int/Dim/PyFloat/Inf."""
  if isinstance(a, Inf) or isinstance(b, Inf):
    return infop(I, op, a, b)
  fl = isinstance(a, PyFloat) or isinstance(b, PyFloat)
  if op == 'Pow':
    return powscalar(I, a, b)
  if not fl:
    a = int(a) if isinstance(a, int) else a
    b = int(b) if isinstance(b, int) else b
    if op == 'Add':
      return D.add(a, b)
    if op == 'Sub':
      return D.sub(a, b)
    if op == 'Mult':
      return D.mul(a, b)
    if op == 'FloorDiv':
      if b == 0:
        I.err(ZeroDivisionError, 'integer division by zero')
      return D.floordiv(a, b)
    if op == 'Mod':
      if b == 0:
        I.err(ZeroDivisionError, 'integer modulo by zero')
      return D.mod(a, b)
    if op == 'Div':
      if b == 0:
        I.err(ZeroDivisionError, 'division by zero')
      return PyFloat(X.mul(X.scalar(a), X.pow_const(X.scalar(b), -1)))
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift') and isinstance(a, int) and isinstance(b, int):
      return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b,
              'LShift': a << b if b >= 0 else 0, 'RShift': a >> b if b >= 0 else 0}[op]
    raise Unsupported('integer %s' % op)
  ta, tb = scalar_t(a), scalar_t(b)
  if op == 'Add':
    return PyFloat(X.add(ta, tb))
  if op == 'Sub':
    return PyFloat(X.add(ta, tb, -1))
  if op == 'Mult':
    return PyFloat(X.mul(ta, tb))
  if op == 'Div':
    if not tb.terms:
      I.err(ZeroDivisionError, 'float division by zero')
    return PyFloat(X.mul(ta, X.pow_const(tb, -1)))
  if op in ('FloorDiv', 'Mod'):
    ca, cb = PyFloat(ta).const(), PyFloat(tb).const()
    if ca is not None and cb is not None and not isinstance(ca, Dim) and not isinstance(cb, Dim):
      return PyFloat(Fraction(ca // cb if op == 'FloorDiv' else ca % cb))
  raise Unsupported('float %s' % op)


def infop(I, op, a, b):
  def sg(x):
    if isinstance(x, Inf):
      return x.sign
    if isinstance(x, (int, Dim)):
      l = D.lower(x)
      return 1 if l > 0 else (0 if x == 0 else (-1 if isinstance(x, int) else None))
    return None
  if op == 'Add':
    if isinstance(a, Inf) and isinstance(b, Inf) and a.sign != b.sign:
      raise Unsupported('nan')
    return a if isinstance(a, Inf) else b
  if op == 'Sub':
    return a if isinstance(a, Inf) else Inf(-b.sign)
  if op == 'Mult':
    s, t = sg(a), sg(b)
    if s and t:
      return Inf(s * t)
  if op == 'Div' and isinstance(a, Inf):
    t = sg(b)
    if t:
      return Inf(a.sign * t)
  raise Unsupported('arithmetic on infinity')


def np_broadcast(I, a, b):
  """Arrs to common shape: returns shape, index lists."""
  ra, rb = len(a.shape), len(b.shape)
  r = max(ra, rb)
  sa = (1,) * (r - ra) + a.shape
  sb = (1,) * (r - rb) + b.shape
  out = []
  for x, y in zip(sa, sb):
    if x == y:
      out.append(x)
    elif x == 1:
      out.append(y)
    elif y == 1:
      out.append(x)
    else:
      I.err(ValueError, 'operands could not be broadcast together with shapes %s %s' % (a.shape, b.shape))
  idx = []

  def rec(k, ia, ib):
    if k == r:
      idx.append((ia, ib))
      return
    for i in range(out[k]):
      rec(k + 1, ia * sa[k] + (i if sa[k] != 1 else 0), ib * sb[k] + (i if sb[k] != 1 else 0))
  rec(0, 0, 0)
  return tuple(out), idx


def to_arr(I, v, flavor='np'):
  if isinstance(v, Arr):
    return v
  if isinstance(v, (int, Dim, PyFloat, Inf, bool, str)) or v is None:
    return Arr((), [v], flavor)
  if isinstance(v, TShape):
    if v.dims is None:
      I.err(ValueError, 'unknown rank')
    return Arr((len(v.dims),), v.dims, flavor)
  if isinstance(v, (RangeV, LazyGen, Iter)):
    if isinstance(v, LazyGen):
      return Arr((), [v], flavor, 'o')
    v = iterate(I, v)
  if isinstance(v, (list, tuple)):
    subs = [to_arr(I, x, flavor) for x in v]
    if not subs:
      return Arr((0,), [], flavor)
    sh = subs[0].shape
    if any(s.shape != sh for s in subs):
      if flavor == 'np':
        I.err(ValueError, 'setting an array element with a sequence. The requested array has an inhomogeneous shape')
      I.err(ValueError, 'inhomogeneous list')
    data = []
    for s in subs:
      data.extend(s.data)
    return Arr((len(subs),) + sh, data, flavor)
  if isinstance(v, Tensor):
    # small integer tensor with concrete structure
    if v.top:
      raise Unsupported(v.top)
    if all(isinstance(d, int) for d in v.shape) and v.rank <= 1:
      if v.rank == 0:
        s = X.as_size(v)
        if s is not None:
          if v.dtype is not None and is_float(v.dtype):
            return Arr((), [PyFloat(v)], flavor)
          return Arr((), [s], flavor)
        return Arr((), [PyFloat(v)], flavor)
      out = []
      for i in range(v.shape[0]):
        e = X.index_axis(v, 0, i)
        s = X.as_size(e)
        if s is None or (v.dtype is not None and is_float(v.dtype)):
          out.append(PyFloat(e))
        else:
          out.append(s)
      return Arr(v.shape, out, flavor)
    raise Unsupported('array of tensor data')
  if isinstance(v, Inst):
    return Arr((), [v], flavor, 'o')
  raise Unsupported('array of %s' % typename(v))


def arrop(I, op, a, b):
  a, b = to_arr(I, a), to_arr(I, b)
  flavor = 'tf' if 'tf' in (a.flavor, b.flavor) else 'np'
  if flavor == 'tf' and a.shape and b.shape and False:
    pass
  shape, idx = np_broadcast(I, a, b)
  data = []
  for i, j in idx:
    x, y = a.data[i], b.data[j]
    if x is None or y is None:
      I.err(TypeError, "unsupported operand type(s) for %s: 'NoneType'" % op)
    if isinstance(x, bool) and isinstance(y, bool) and op in ('BitAnd', 'BitOr'):
      data.append((x and y) if op == 'BitAnd' else (x or y))
      continue
    data.append(numop(I, op, num(I, x), num(I, y)))
  kind = None
  if a.kind == 'f' or b.kind == 'f' or op == 'Div':
    kind = 'f'
    data = [x if isinstance(x, (PyFloat, Inf)) else PyFloat(X.scalar(x)) for x in data]
  r = Arr(shape, data, flavor, kind)
  if flavor == 'np' and shape == ():
    return r.wrap(r.data[0])
  return r


_DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'),
           'Mult': ('__mul__', '__rmul__'), 'Div': ('__truediv__', '__rtruediv__'),
           'FloorDiv': ('__floordiv__', '__rfloordiv__'), 'Mod': ('__mod__', '__rmod__'),
           'Pow': ('__pow__', '__rpow__'), 'MatMult': ('__matmul__', '__rmatmul__')}


def binop(I, op, a, b):
  if isinstance(a, Inst) or isinstance(b, Inst):
    l, r = _DUNDER.get(op, (None, None))
    if isinstance(a, Inst) and l:
      f, _ = a.cls.lookup(l)
      if f is not None:
        v = I.call(BoundV(f, a), [b], {})
        if v is not NotImplemented:
          return v
    if isinstance(b, Inst) and r:
      f, _ = b.cls.lookup(r)
      if f is not None:
        v = I.call(BoundV(f, b), [a], {})
        if v is not NotImplemented:
          return v
    if op == 'Mod' and isinstance(a, str):
      return percent(I, a, b)
    I.err(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'" % (op, typename(a), typename(b)))
  if isinstance(a, str):
    if op == 'Mod':
      return percent(I, a, b)
    if op == 'Add' and isinstance(b, str):
      return a + b
    if op == 'Mult' and isinstance(b, int):
      return a * b
    I.err(TypeError, "unsupported operand type(s) for %s: 'str' and '%s'" % (op, typename(b)))
  if op == 'Mult' and isinstance(b, str) and isinstance(a, int):
    return a * b
  for x in (a, b):
    if isinstance(x, LibObj):
      raise Unsupported('arithmetic on %s' % x.name)
  if isinstance(a, Var):
    a = read_var(I, a)
  if isinstance(b, Var):
    b = read_var(I, b)
  if isinstance(a, Tensor) or isinstance(b, Tensor):
    return tensorop(I, op, a, b)
  if isinstance(a, (list, tuple)) and not isinstance(b, Arr):
    if op == 'Add':
      if isinstance(a, tuple) and isinstance(b, TShape):
        return TShape(list(a) + list(b.dims))
      if type(a) is not type(b):
        I.err(TypeError, 'can only concatenate %s (not "%s") to %s' % (
            type(a).__name__, typename(b), type(a).__name__))
      return a + b
    if op == 'Mult':
      return a * cint(I, b)
    I.err(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'" % (op, typename(a), typename(b)))
  if isinstance(b, (list, tuple)) and not isinstance(a, Arr):
    if op == 'Mult' and num(I, a) is not None and not isinstance(num(I, a), PyFloat):
      return b * cint(I, a)
    if isinstance(a, TShape) and op == 'Add':
      return TShape(list(a.dims) + list(b))
    I.err(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'" % (op, typename(a), typename(b)))
  if isinstance(a, TShape) or isinstance(b, TShape):
    if op == 'Add' and isinstance(a, TShape) and isinstance(b, TShape):
      return TShape(list(a.dims) + list(b.dims))
    raise Unsupported('arithmetic on TensorShape')
  if isinstance(a, Arr) or isinstance(b, Arr):
    if op == 'MatMult':
      raise Unsupported('matmul of arrays')
    return arrop(I, op, a, b)
  if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
    return {'BitAnd': a & b, 'BitOr': a | b, 'Sub': a - b, 'BitXor': a ^ b}[op]
  if isinstance(a, dict) and isinstance(b, dict) and op == 'BitOr':
    d = dict(a)
    d.update(b)
    return d
  if isinstance(a, bool) and isinstance(b, bool) and op in ('BitAnd', 'BitOr', 'BitXor'):
    return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
  x, y = num(I, a), num(I, b)
  if x is None or y is None:
    I.err(TypeError, "unsupported operand type(s) for %s: '%s' and '%s'" % (op, typename(a), typename(b)))
  r = numop(I, op, x, y)
  if isinstance(a, (NpInt, NpDim)) or isinstance(b, (NpInt, NpDim)):
    return npint(r)
  return r


def tensorop(I, op, a, b):
  wa, wb = not isinstance(a, Tensor), not isinstance(b, Tensor)
  # conversion of the other operand
  if wa:
    dt = b.dtype
    check_weak(I, a, dt, op)
    weak = not isinstance(a, Arr) or a.flavor == 'np' or (a.kind == 'i' and dt is not None and is_int(dt))
    ta, tb = as_tensor(I, a, dt if weak else None), b
    if isinstance(a, Arr) and a.flavor == 'np':
      ta = ta.view(dtype=dt)
  elif wb:
    dt = a.dtype
    check_weak(I, b, dt, op)
    # (small integer tensors do not carry their width)
    weak = not isinstance(b, Arr) or b.flavor == 'np' or (b.kind == 'i' and dt is not None and is_int(dt))
    ta, tb = a, as_tensor(I, b, dt if weak else None)
    if isinstance(b, Arr) and b.flavor == 'np':
      tb = tb.view(dtype=dt)
  else:
    ta, tb = a, b
  if op == 'Add':
    return X.add(ta, tb)
  if op == 'Sub':
    return X.add(ta, tb, -1)
  if op == 'Mult':
    return X.mul(ta, tb)
  if op == 'Div':
    dt = ta.dtype or tb.dtype
    if dt is not None and is_int(dt):
      dt = DT['float64']
      return X.mul(ta, X.pow_const(tb, -1)).view(dtype=dt)
    return X.mul(ta, X.pow_const(tb, -1))
  if op == 'Pow':
    return tpow(I, ta, tb)
  if op == 'MatMult':
    return I.lib.tf_call(I, 'matmul', ta, tb)
  if op in ('FloorDiv', 'Mod'):
    X.check_dtypes([ta, tb], op)
    if len(ta.flat) == 0 and len(tb.flat) == 0 and not ta.top and not tb.top:
      x, y = X.as_size(ta), X.as_size(tb)
      if x is not None and y is not None and not isinstance(x, Fraction) and not isinstance(y, Fraction):
        r = D.floordiv(x, y) if op == 'FloorDiv' else D.mod(x, y)
        return X.scalar(r, ta.dtype)
    return X.int_divmod(op, ta, tb)
  raise Unsupported('tensor %s' % op)


def check_weak(I, v, dt, op):
  if dt is None:
    return
  if is_int(dt):
    if isinstance(v, PyFloat):
      I.err(TypeError, 'Cannot convert float to EagerTensor of dtype %s' % dt.name)
  if v is None:
    I.err(ValueError, 'None values not supported.')


def tpow(I, ta, tb):
  X.check_dtypes([ta, tb], 'pow')
  if tb.top or ta.top:
    shape, st = X.broadcast_shapes([ta, tb], 'pow')
    return X.top(ta.top or tb.top, shape, ta.dtype or tb.dtype, st)
  if len(tb.flat) == 0 and len(tb.shape) == 0 or not tb.flat:
    e = X.as_size(tb)
    if e is not None:
      r = X.pow_const(ta, e)
      if len(tb.shape) > len(ta.shape):
        r = X.reshape(r, X.broadcast_shapes([ta, tb], 'pow')[0])
      return r
  return X.opaque_fn('pow', [ta, tb])


# ----------------------------------------------------------------------------
# comparison

def is_same(I, a, b):
  if a is b:
    return True
  if a is None or b is None:
    return False
  if isinstance(a, bool) or isinstance(b, bool):
    return isinstance(a, bool) and isinstance(b, bool) and a == b
  if isinstance(a, (int, str)) and isinstance(b, (int, str)):
    return type(a) is type(b) and a == b
  if isinstance(a, DType) and isinstance(b, DType):
    return dtype_eq(I, a, b)
  return False


def fsize(x):
  """Numeric value usable by size comparison, else None."""
  if isinstance(x, (int, Dim)):
    return x
  if isinstance(x, PyFloat):
    return x.const()
  return None


def numcmp(I, op, x, y):
  if isinstance(x, Inf) or isinstance(y, Inf):
    vx = x.sign if isinstance(x, Inf) else 0
    vy = y.sign if isinstance(y, Inf) else 0
    return {'Eq': vx == vy, 'NotEq': vx != vy, 'Lt': vx < vy, 'LtE': vx <= vy,
            'Gt': vx > vy, 'GtE': vx >= vy}[op]
  a, b = fsize(x), fsize(y)
  if a is None or b is None or (isinstance(a, Dim) and _frac_exp(a)) or (isinstance(b, Dim) and _frac_exp(b)):
    ta, tb = scalar_t(x), scalar_t(y)
    if ta.top or tb.top:
      raise Unsupported('comparison with unknown value')
    d = X.add(ta, tb, -1)
    if not d.terms:
      return op in ('Eq', 'LtE', 'GtE')
    # positivity by nonneg atoms
    if X._is_nonneg(d.terms):
      if op == 'GtE':
        return True
      if op == 'Lt':
        return False
    m = X.add(tb, ta, -1)
    if X._is_nonneg(m.terms):
      if op == 'LtE':
        return True
      if op == 'Gt':
        return False
    if op in ('Gt', 'LtE'):
      k, inv, test = 'lt:%s' % (m.canon,), op == 'LtE', ('lt', m)
    elif op in ('Lt', 'GtE'):
      k, inv, test = 'lt:%s' % (d.canon,), op == 'GtE', ('lt', d)
    else:
      k, inv, test = 'eq:%s' % (d.canon,), op == 'NotEq', ('eq', d)
    r = I.decide(k, test)
    return (not r) if inv else r
  if op == 'Eq':
    return D.decide_eq(a, b)
  if op == 'NotEq':
    return not D.decide_eq(a, b)
  if op == 'Lt':
    return D.decide_lt(a, b)
  if op == 'GtE':
    return not D.decide_lt(a, b)
  if op == 'Gt':
    return D.decide_lt(b, a)
  return not D.decide_lt(b, a)


def _frac_exp(d):
  return any(not isinstance(e, int) or e < 0 for m in d.p for _, e in m)


def equal_vals(I, a, b):
  """Python == for structural values."""
  r = compare(I, 'Eq', a, b)
  return I.truth(r)


def compare(I, op, a, b):
  if op == 'Is':
    return is_same(I, a, b)
  if op == 'IsNot':
    return not is_same(I, a, b)
  if op in ('In', 'NotIn'):
    r = contains(I, b, a)
    return r if op == 'In' else not r
  for x in (a, b):
    if isinstance(x, LibObj):
      raise Unsupported('comparison with %s' % x.name)
  if isinstance(a, Inst) or isinstance(b, Inst):
    nm = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
    if isinstance(a, Inst):
      f, _ = a.cls.lookup(nm)
      if f is not None:
        return I.call(BoundV(f, a), [b], {})
    if op == 'Eq':
      return a is b
    if op == 'NotEq':
      return a is not b
    I.err(TypeError, 'comparison not supported for %s' % typename(a))
  if isinstance(a, Var):
    a = a.t
  if isinstance(b, Var):
    b = b.t
  if a is None or b is None:
    if op == 'Eq':
      if isinstance(a, Arr) or isinstance(b, Arr):
        x = a if isinstance(a, Arr) else b
        return Arr(x.shape, [e is None for e in x.data], x.flavor)
      return a is None and b is None
    if op == 'NotEq':
      return not (a is None and b is None)
    I.err(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (op, typename(a), typename(b)))
  if isinstance(a, DType) or isinstance(b, DType):
    if not isinstance(a, DType) or not isinstance(b, DType):
      try:
        a, b = to_dtype(I, a), to_dtype(I, b)
      except Unsupported:
        return op == 'NotEq'
    r = dtype_eq(I, a, b)
    return r if op == 'Eq' else not r
  if isinstance(a, TShape) or isinstance(b, TShape):
    if isinstance(a, TShape) and isinstance(b, TShape) or isinstance(b, (list, tuple)) or isinstance(a, (list, tuple)):
      x = a.dims if isinstance(a, TShape) else list(a)
      y = b.dims if isinstance(b, TShape) else list(b)
      if x is None or y is None:
        r = x is None and y is None
      else:
        r = len(x) == len(y) and all(equal_vals(I, p, q) for p, q in zip(x, y))
      if op == 'Eq':
        return r
      if op == 'NotEq':
        return not r
    if op in ('Eq', 'NotEq'):
      return op == 'NotEq'
    raise Unsupported('TensorShape comparison')
  if isinstance(a, Tensor) or isinstance(b, Tensor):
    return tensorcmp(I, op, a, b)
  if isinstance(a, Arr) or isinstance(b, Arr):
    x, y = to_arr(I, a), to_arr(I, b)
    if x.shape != y.shape and op in ('Eq', 'NotEq'):
      try:
        np_broadcast(I, x, y)
      except PyRaise:
        return op == 'NotEq'
    shape, idx = np_broadcast(I, x, y)
    fl = 'tf' if 'tf' in (x.flavor, y.flavor) else 'np'
    r = Arr(shape, [I.truth(compare(I, op, x.data[i], y.data[j])) for i, j in idx], fl, 'b')
    if shape == () and fl == 'np':
      return r.data[0]
    return r
  if isinstance(a, str) or isinstance(b, str):
    if isinstance(a, str) and isinstance(b, str):
      return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if op in ('Eq', 'NotEq'):
      return op == 'NotEq'
    I.err(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (op, typename(a), typename(b)))
  if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
    if type(a) is type(b):
      if op in ('Eq', 'NotEq'):
        r = len(a) == len(b) and all(x is y or equal_vals(I, x, y) for x, y in zip(a, b))
        return r if op == 'Eq' else not r
      for x, y in zip(a, b):
        if not equal_vals(I, x, y):
          return compare(I, op, x, y)
      return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]
    if op in ('Eq', 'NotEq'):
      return op == 'NotEq'
    I.err(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (op, typename(a), typename(b)))
  x, y = num(I, a), num(I, b)
  if x is not None and y is not None:
    return numcmp(I, op, x, y)
  if isinstance(a, (dict, set, slice)) and type(a) is type(b):
    return (a == b) if op == 'Eq' else (a != b)
  if op in ('Eq', 'NotEq'):
    r = a is b
    return r if op == 'Eq' else not r
  I.err(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (op, typename(a), typename(b)))


def tensorcmp(I, op, a, b):
  ta = as_tensor(I, a, getattr(b, 'dtype', None))
  tb = as_tensor(I, b, getattr(a, 'dtype', None))
  if len(ta.shape or ()) == 0 and len(tb.shape or ()) == 0 and not ta.top and not tb.top:
    x, y = X.as_size(ta), X.as_size(tb)
    if x is not None and y is not None:
      return X.scalar(int(numcmp(I, op, _n(x), _n(y))), DT['bool'])
  if op in ('Gt', 'GtE'):
    ta, tb = tb, ta
    op = {'Gt': 'Lt', 'GtE': 'LtE'}[op]
  r = X.opaque_fn('cmp' + op, [ta, tb])
  return r.view(dtype=DT['bool'])


def _n(x):
  return PyFloat(x) if isinstance(x, Fraction) else x


def contains(I, c, x):
  if isinstance(c, (list, tuple)):
    return any(y is x or equal_vals(I, y, x) for y in c)
  if isinstance(c, (set, frozenset)):
    return any(y is x or equal_vals(I, y, x) for y in c)
  if isinstance(c, dict):
    if isinstance(x, (str, int, Dim)) or x is None:
      return x in c
    return any(y is x for y in c)
  if isinstance(c, str):
    if not isinstance(x, str):
      I.err(TypeError, 'in <string> requires string')
    return x in c
  if isinstance(c, Inst):
    f, _ = c.cls.lookup('__contains__')
    if f is not None:
      return I.truth(I.call(BoundV(f, c), [x], {}))
  return any(equal_vals(I, y, x) for y in iterate(I, c))


# ----------------------------------------------------------------------------
# indexing

def norm_index(I, i, n, what='index'):
  """Concrete int index into concrete length."""
  k = cint(I, i)
  if k < -n or k >= n:
    I.err(IndexError, '%s %d out of range for length %d' % (what, k, n))
  return k + n if k < 0 else k


def pyslice(I, s):
  f = lambda x: None if x is None else cint(I, x)
  return slice(f(s.start), f(s.stop), f(s.step))


def getitem(I, o, i):
  if isinstance(o, Inst):
    f, _ = o.cls.lookup('__getitem__')
    if f is None:
      I.err(TypeError, "'%s' object is not subscriptable" % o.cls.name)
    return I.call(BoundV(f, o), [i], {})
  if isinstance(o, (list, tuple, str)):
    if isinstance(i, slice):
      return o[pyslice(I, i)]
    if isinstance(i, (str, list, tuple)) or i is None or isinstance(i, PyFloat):
      I.err(TypeError, '%s indices must be integers or slices, not %s' % (type(o).__name__, typename(i)))
    return o[norm_index(I, i, len(o), type(o).__name__ + ' index')]
  if isinstance(o, RangeV):
    items = o.items()
    if isinstance(i, slice):
      sl = pyslice(I, i)
      r = range(cint(I, o.start), cint(I, o.stop), cint(I, o.step))[sl]
      return RangeV(r.start, r.stop, r.step)
    return items[norm_index(I, i, len(items))]
  if isinstance(o, dict):
    k = I.hashkey(i)
    if isinstance(k, (Inst, Tensor)) or k is None or isinstance(k, (str, int, Dim, tuple)):
      if k in o:
        return o[k]
    if isinstance(o, DefDict) and o.factory is not None:
      o[k] = I.call(o.factory, [], {})
      return o[k]
    I.err(KeyError, tostr(I, i))
  if isinstance(o, TShape):
    if o.dims is None:
      if isinstance(i, slice):
        return TShape(None)
      return None
    if isinstance(i, slice):
      return TShape(o.dims[pyslice(I, i)])
    return o.dims[norm_index(I, i, len(o.dims))]
  if isinstance(o, Arr):
    return arr_getitem(I, o, i)
  if isinstance(o, Var):
    o = o.t
  if isinstance(o, Tensor):
    return tensor_getitem(I, o, i)
  if isinstance(o, Iter) or isinstance(o, LazyGen):
    I.err(TypeError, 'object is not subscriptable')
  if isinstance(o, LibObj):
    if o.name.split('.')[0] in ('typing', 'collections'):
      return o
    raise Unsupported('indexing %s' % o.name)
  if isinstance(o, TypeV) and o in (T_LIST, T_TUPLE, T_DICT, T_SET):
    return o
  I.err(TypeError, "'%s' object is not subscriptable" % typename(o))


def arr_positions(I, a, i):
  """Positions selected: (shape, [flat positions], scalar?)."""
  idx = i if isinstance(i, tuple) else (i,)
  idx = tuple(to_arr(I, x) if isinstance(x, (list, RangeV)) else x for x in idx)
  if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].kind == 'b' and len(idx[0].shape) > 1:
    if idx[0].shape != a.shape:
      I.err(IndexError, 'boolean index did not match indexed array')
    pos = [k for k, t in enumerate(idx[0].data) if I.truth(t)]
    return (len(pos),), pos
  adv = [x for x in idx if isinstance(x, Arr) and x.shape != ()]
  if len(adv) > 1:
    if any(len(x.shape) != 1 or x.kind != 'i' or x.shape != adv[0].shape for x in adv) or len(adv) != len(idx):
      raise Unsupported('advanced indexing')
    out = [arr_positions(I, a, tuple(x.data[k] for x in idx)) for k in range(len(adv[0].data))]
    inner = out[0][0] if out else ()
    return (len(out),) + inner, [p for _, ps in out for p in ps]
  if adv and len(adv[0].shape) != 1:
    x = adv[0]
    if len(idx) != 1 or x.kind != 'i':
      raise Unsupported('advanced indexing')
    sh, pos = arr_positions(I, a, Arr((len(x.data),), x.data, 'np', 'i'))
    return x.shape + sh[1:], pos
  nidx = sum(1 for x in idx if x is not None and x is not Ellipsis)
  if Ellipsis in [x for x in idx if isinstance(x, type(Ellipsis))]:
    k = [n for n, x in enumerate(idx) if x is Ellipsis][0]
    idx = idx[:k] + (slice(None),) * (len(a.shape) - nidx) + idx[k + 1:]
  else:
    idx = idx + (slice(None),) * (len(a.shape) - nidx)
  if nidx > len(a.shape):
    I.err(IndexError, 'too many indices for array')
  sel = []
  outshape = []
  d = 0
  for x in idx:
    if x is None:
      outshape.append(1)
      continue
    n = a.shape[d]
    if isinstance(x, slice):
      r = list(range(n))[pyslice(I, x)]
      sel.append(r)
      outshape.append(len(r))
    elif isinstance(x, Arr) and x.kind == 'b':
      if len(x.data) != n:
        I.err(IndexError, 'boolean index did not match indexed array')
      r = [k for k, t in enumerate(x.data) if I.truth(t)]
      sel.append(r)
      outshape.append(len(r))
    elif isinstance(x, (list, Arr)) and not (isinstance(x, Arr) and x.shape == ()):
      r = [norm_index(I, y, n) for y in (x.data if isinstance(x, Arr) else x)]
      sel.append(r)
      outshape.append(len(r))
    else:
      sel.append([norm_index(I, x, n, 'index')])
    d += 1
  pos = [0]
  for r, n in zip(sel, a.shape):
    pos = [p * n + k for p in pos for k in r]
  return tuple(outshape), pos


def arr_getitem(I, a, i):
  if isinstance(i, tuple) and i == () and a.shape == ():
    return a.wrap(a.data[0])
  shape, pos = arr_positions(I, a, i)
  data = [a.data[p] for p in pos]
  if shape == ():
    return a.wrap(data[0])
  return Arr(shape, data, a.flavor, a.kind)


def slice_bounds(I, s, n):
  """Resolve a slice on a possibly symbolic axis: (start, stop, step)."""
  step = 1 if s.step is None else cint(I, s.step)
  if step <= 0:
    raise Unsupported('negative stride')

  def res(v, dflt):
    if v is None:
      return dflt
    v = num(I, v)
    if v is None or isinstance(v, PyFloat):
      I.err(TypeError, 'slice indices must be integers')
    if isinstance(v, int) and v < 0:
      r = D.add(n, v)
      if D.decide_lt(r, 0):
        return 0
      return r
    if isinstance(v, Dim) and not D.nonneg(v):
      if D.decide_lt(v, 0):
        r = D.add(n, v)
        return 0 if D.decide_lt(r, 0) else r
    if v == n:
      return n
    if D.decide_lt(n, v):
      return n
    return v
  st = res(s.start, 0)
  sp = res(s.stop, n)
  if not (st == 0 or sp == n) or (isinstance(st, int) and isinstance(sp, int)):
    if D.decide_lt(sp, st):
      sp = st
  return st, sp, step


def np_index(I, x):
  if isinstance(x, list):
    return stack_values(I, x, 0)
  return x


def fancy_getitem(I, t, idx, arrs):
  """NumPy selection by integer arrays in adjacent positions; the other axes are whole."""
  whole = all(isinstance(x, slice) and x == slice(None) for k, x in enumerate(idx) if k not in arrs)
  cols = [idx[k] for k in arrs]
  if not whole or arrs != list(range(arrs[0], arrs[0] + len(arrs))):
    raise Unsupported('fancy indexing of numpy data')
  if any(c.top or c.dtype is None or not is_int(c.dtype) for c in cols):
    raise Unsupported('fancy indexing of numpy data')
  if any(c.shape != cols[0].shape for c in cols):
    raise Unsupported('fancy indexing of numpy data by arrays of different shapes')
  from . import tfmodel
  lead, k, nb = arrs[0], len(arrs), cols[0].rank
  if lead:
    order = list(range(lead, lead + k)) + list(range(lead)) + list(range(lead + k, t.rank))
    t = X.transpose(t, order)
  r = tfmodel.gather_nd_model(t, stack_values(I, cols, nb), k)
  if lead:
    r = X.transpose(r, list(range(nb, nb + lead)) + list(range(nb)) + list(range(nb + lead, r.rank)))
  return r.view(np=True)


def tensor_getitem(I, t, i):
  if t.top and t.shape is None:
    return t
  idx = list(i) if isinstance(i, tuple) or (isinstance(i, list) and not t.np) else [i]
  used = sum(1 for x in idx if x is not None and x is not Ellipsis)
  rank = len(t.shape)
  if used > rank:
    I.err(IndexError if t.np else TFError, 'Index out of range: too many indices (%d) for rank %d' % (used, rank))
  ell = [k for k, x in enumerate(idx) if x is Ellipsis]
  if ell:
    k = ell[0]
    idx[k:k + 1] = [slice(None)] * (rank - used)
  else:
    idx += [slice(None)] * (rank - used)
  if t.np and not t.top:
    idx = [as_tensor(I, np_index(I, x)) if isinstance(x, (list, Arr, Tensor)) and num(I, x) is None else x for x in idx]
    arrs = [k for k, x in enumerate(idx) if isinstance(x, Tensor) and x.rank > 0]
    if arrs:
      return fancy_getitem(I, t, idx, arrs)
  ax = 0
  for x in idx:
    if x is None:
      t = X.expand_dims(t, ax)
      ax += 1
    elif isinstance(x, slice):
      n = t.shape[ax]
      st, sp, step = slice_bounds(I, x, n)
      t = X.slice_axis(t, ax, st, sp, step)
      ax += 1
    else:
      if isinstance(x, Tensor) and not x.top and X.as_size(x) is None and x.rank == 0:
        t = X.gather(t, x, ax)
        continue
      v = num(I, x)
      if v is None or isinstance(v, (PyFloat, Inf)):
        if isinstance(x, (list, Arr, Tensor)):
          if t.np:
            raise Unsupported('fancy indexing of numpy data')
          I.err(TypeError, 'Only integers, slices, ellipsis, tf.newaxis are valid indices, got %s' % typename(x))
        I.err(TypeError, 'Only integers, slices, ellipsis, tf.newaxis are valid indices, got %s' % typename(x))
      n = t.shape[ax]
      if isinstance(v, int) and v < 0:
        v = D.add(n, v)
        if D.decide_lt(v, 0):
          I.err(TFError, 'slice index %s of dimension %d out of bounds' % (D.show(v), ax))
      if not D.decide_lt(v, n):
        I.err(TFError, 'slice index %s of dimension %d (size %s) out of bounds' % (D.show(v), ax, D.show(n)))
      t = X.index_axis(t, ax, v)
  return t


def setitem(I, o, i, v):
  if isinstance(o, list):
    I.mutated(o, 'item assigned')
    if isinstance(i, slice):
      o[pyslice(I, i)] = iterate(I, v)
      return
    o[norm_index(I, i, len(o), 'list assignment index')] = v
    return
  if isinstance(o, dict):
    I.mutated(o, 'item assigned')
    o[I.hashkey(i)] = v
    return
  if isinstance(o, Arr):
    if o.flavor == 'tf':
      I.err(TypeError, "'EagerTensor' object does not support item assignment")
    I.mutated(o, 'item assigned')
    shape, pos = arr_positions(I, o, i)
    if isinstance(v, (list, tuple, Arr)) and not (isinstance(v, Arr) and v.shape == ()):
      src = to_arr(I, v)
      _, ix = np_broadcast(I, Arr(shape, [0] * len(pos)), src)
      vals = [src.data[j] for _, j in ix]
    else:
      vals = [v.data[0] if isinstance(v, Arr) else v] * len(pos)
    for p, x in zip(pos, vals):
      if o.kind == 'i' and isinstance(x, PyFloat):
        x = to_int(I, x)
      o.data[p] = x
    return
  if isinstance(o, tuple):
    I.err(TypeError, "'tuple' object does not support item assignment")
  if isinstance(o, Tensor):
    if o.np:
      raise Unsupported('item assignment on numpy data')
    I.err(TypeError, "'EagerTensor' object does not support item assignment")
  if isinstance(o, Inst):
    f, _ = o.cls.lookup('__setitem__')
    if f is not None:
      return I.call(BoundV(f, o), [i, v], {})
  I.err(TypeError, "'%s' object does not support item assignment" % typename(o))


def to_int(I, v):
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, int):
    return int(v)
  if isinstance(v, Dim):
    return Dim(v.p)
  if isinstance(v, PyFloat):
    c = v.const()
    if c is None:
      raise Unsupported('int() of unknown float')
    if isinstance(c, Dim):
      if D.is_integral(c):
        return c
      return D.opaque('int', (c,))
    return int(c)
  if isinstance(v, Inf):
    I.err(EXC['OverflowError'], 'cannot convert float infinity to integer')
  if isinstance(v, Arr) and len(v.data) == 1:
    return to_int(I, v.data[0])
  if isinstance(v, str):
    try:
      return int(v)
    except ValueError as e:
      I.err(ValueError, str(e))
  if isinstance(v, Tensor):
    s = X.as_size(v)
    if s is not None:
      return to_int(I, _n(s) if isinstance(s, Fraction) else s)
    raise Unsupported('int() of tensor data')
  I.err(TypeError, "int() argument must be a number, not '%s'" % typename(v))


# ----------------------------------------------------------------------------
# isinstance

def isinst(I, v, t):
  if isinstance(t, tuple):
    return any(isinst(I, v, x) for x in t)
  if isinstance(t, ClassV):
    return isinstance(v, Inst) and t in v.cls.mro()
  if isinstance(t, TypeV):
    return bool(t.test(v))
  if isinstance(t, type) and issubclass(t, BaseException):
    return isinstance(v, ExcInst) and issubclass(v.etype, t)
  if isinstance(t, LibObj):
    return lib_isinstance(v, t.name)
  raise Unsupported('isinstance(_, %r)' % (t,))


def lib_isinstance(v, name):
  """Unmodelled library class: objects of the program are not instances."""
  if isinstance(v, (Inst, int, str, list, tuple, dict, Dim, PyFloat)) or v is None:
    return False
  raise Unsupported('isinstance with %s' % name)


def t_int(v):
  return (isinstance(v, int) and not isinstance(v, NpInt)) or (isinstance(v, Dim) and not isinstance(v, NpDim))


# ----------------------------------------------------------------------------
# builtins

_sigs = {}


def signature(fn):
  s = _sigs.get(fn)
  if s is None:
    try:
      s = inspect.signature(fn)
    except (TypeError, ValueError):
      s = False
    _sigs[fn] = s
  return s or None


def length(I, v):
  if isinstance(v, (list, tuple, str, dict, set, frozenset)):
    return len(v)
  if isinstance(v, Arr):
    if v.shape == ():
      I.err(TypeError, 'len() of unsized object')
    return v.shape[0]
  if isinstance(v, TShape):
    if v.dims is None:
      I.err(ValueError, 'Cannot take the length of shape with unknown rank.')
    return len(v.dims)
  if isinstance(v, Var):
    v = v.t
  if isinstance(v, Tensor):
    if v.rank == 0:
      I.err(TypeError, 'Scalar tensor has no len()')
    if dynamic(v.shape[0]):
      I.err(TypeError, 'len is not well defined for a symbolic Tensor')
    return v.shape[0]
  if isinstance(v, RangeV):
    return len(v.items())
  if isinstance(v, View):
    return len(v.get())
  if isinstance(v, Inst):
    f, _ = v.cls.lookup('__len__')
    if f is not None:
      return I.call(BoundV(f, v), [], {})
  I.err(TypeError, "object of type '%s' has no len()" % typename(v))


def b_range(I, *a):
  if any(symbolic(I, x) for x in a):
    I.err(TypeError, "'SymbolicTensor' object cannot be interpreted as an integer")
  a = [num(I, x) for x in a]
  for x in a:
    if x is None or isinstance(x, (PyFloat, Inf)):
      I.err(TypeError, "'float' object cannot be interpreted as an integer")
  if len(a) == 1:
    return RangeV(0, a[0], 1)
  if len(a) == 2:
    return RangeV(a[0], a[1], 1)
  return RangeV(*a)


def b_enumerate(I, it, start=0):
  it = live(I, it)

  def g():
    k = start
    for x in I.iter_live(it):
      yield (k, x)
      k = D.add(k, 1)
  return PyGen(g())


def b_zip(I, *its, **kw):
  its = [I.iter_live(live(I, x)) for x in its]

  def g():
    while its:
      out = []
      for k, it in enumerate(its):
        v = next(it, _MISSING)
        if v is _MISSING:
          if kw.get('strict') and (k or any(next(j, _MISSING) is not _MISSING for j in its[1:])):
            I.err(ValueError, 'zip() arguments have different lengths')
          return
        out.append(v)
      yield tuple(out)
  return PyGen(g())


def live(I, it):
  """Check at once that it can be iterated over."""
  if not isinstance(it, (Count, LazyGen, list)):
    return b_iter(I, it)
  return it


def b_reversed(I, it):
  return Iter(list(reversed(iterate(I, it))))


def b_sorted(I, it, key=None, reverse=False):
  items = iterate(I, it)
  return sort_items(I, items, key, reverse)


def sort_items(I, items, key, reverse):
  ks = [I.call(key, [x], {}) if key is not None else x for x in items]
  # insertion sort with decided comparisons (stable)
  order = []
  for i in range(len(items)):
    j = len(order)
    while j > 0:
      a, b = ks[i], ks[order[j - 1]]
      less = I.truth(compare(I, 'Gt' if I.truth(reverse) else 'Lt', a, b))
      if not less:
        break
      j -= 1
    order.insert(j, i)
  return [items[i] for i in order]


def b_sum(I, it, start=0):
  r = start
  for x in iterate(I, it):
    r = binop(I, 'Add', r, x)
  return r


def _extreme(I, args, key, default, op):
  if len(args) == 1:
    items = iterate(I, args[0])
  else:
    items = list(args)
  if not items:
    if default is not _MISSING:
      return default
    I.err(ValueError, '%s() arg is an empty sequence' % ('min' if op == 'Lt' else 'max'))
  if key is None:
    if len(items) > 1 and not (len(args) == 1 and symbolic(I, args[0])) and any(symbolic(I, x) for x in items):
      I.err(TypeError, 'Using a symbolic `tf.Tensor` as a Python `bool` is not allowed')
    ns = [num(I, x) for x in items]
    fl = [isinstance(n, PyFloat) for n in ns]
    if any(fl) and not all(isinstance(n, PyFloat) and not isinstance(n.const(), Dim) for n in ns):
      ns = [n.const() if isinstance(n, PyFloat) and isinstance(n.const(), (int, Dim)) else n for n in ns]
      if all(isinstance(n, (int, Dim)) for n in ns) and any(isinstance(n, Dim) for n in ns):
        return PyFloat(X.scalar(D.minimum(*ns) if op == 'Lt' else D.maximum(*ns)))
      ns = [num(I, x) for x in items]
    if all(isinstance(n, (int, Dim)) for n in ns) and any(isinstance(n, Dim) for n in ns):
      r = D.minimum(*ns) if op == 'Lt' else D.maximum(*ns)
      if any(isinstance(x, Arr) and x.flavor == 'tf' for x in items):
        return r
      return r
    if any(isinstance(n, Inf) for n in ns):
      s = -1 if op == 'Lt' else 1
      if any(isinstance(n, Inf) and n.sign == s for n in ns):
        return Inf(s)
      rest = [x for x, n in zip(items, ns) if not isinstance(n, Inf)]
      if rest:
        return _extreme(I, (rest,), key, default, op)
      return items[0]
  best = items[0]
  kb = I.call(key, [best], {}) if key is not None else best
  for x in items[1:]:
    kx = I.call(key, [x], {}) if key is not None else x
    if I.truth(compare(I, op, kx, kb)):
      best, kb = x, kx
  return best


def b_min(I, *args, **kw):
  return _extreme(I, args, kw.get('key'), kw.get('default', _MISSING), 'Lt')


def b_max(I, *args, **kw):
  return _extreme(I, args, kw.get('key'), kw.get('default', _MISSING), 'Gt')


def b_abs(I, v):
  if isinstance(v, (Tensor, Var)):
    return X.unary(as_tensor(I, v), 'abs')
  if isinstance(v, Arr):
    return Arr(v.shape, [b_abs(I, x) for x in v.data], v.flavor)
  n = num(I, v)
  if isinstance(n, int):
    return abs(n)
  if isinstance(n, Dim):
    return n if D.nonneg(n) else (D.neg(n) if D.decide_lt(n, 0) else n)
  if isinstance(n, PyFloat):
    return PyFloat(X.unary(n.t, 'abs'))
  if isinstance(n, Inf):
    return Inf(1)
  I.err(TypeError, 'bad operand type for abs()')


def b_all(I, it):
  for x in I.iter_live(it):
    if not I.truth(x):
      return False
  return True


def b_any(I, it):
  for x in I.iter_live(it):
    if I.truth(x):
      return True
  return False


def b_map(I, f, *its):
  z = b_zip(I, *its)
  return PyGen((I.call(f, list(a), {}) for a in z.run()))


def b_filter(I, f, it):
  it = live(I, it)
  return PyGen((x for x in I.iter_live(it) if I.truth(x if f is None else I.call(f, [x], {}))))


def b_isinstance(I, v, t):
  return isinst(I, v, t)


def b_issubclass(I, c, t):
  ts = t if isinstance(t, tuple) else (t,)
  for x in ts:
    if isinstance(c, ClassV) and isinstance(x, ClassV) and x in c.mro():
      return True
    if isinstance(c, type) and isinstance(x, type) and issubclass(c, x):
      return True
    if c is x:
      return True
  return False


def b_getattr(I, o, name, default=_MISSING):
  return I.getattr(o, name, default)


def b_hasattr(I, o, name):
  return I.getattr(o, name, _NOATTR) is not _NOATTR


_NOATTR = object()


def b_type(I, v):
  if isinstance(v, Inst):
    return v.cls
  for t in (T_BOOL, T_INT, T_STR, T_LIST, T_TUPLE, T_DICT, T_FLOAT, T_SLICE, T_SET):
    if t.test(v):
      return t
  r = I.lib.typeobj(I, v)
  if r is not None:
    return r
  raise Unsupported('type() of %s' % typename(v))


def b_print(I, *a, **kw):
  for x in a:
    tostr(I, x)


def b_next(I, it, default=_MISSING):
  if isinstance(it, View):
    I.err(TypeError, "'dict_keys' object is not an iterator")
  if isinstance(it, Count):
    v = it.v
    it.v = binop(I, 'Add', it.v, it.step)
    return v
  if isinstance(it, Iter):
    if it.pos < len(it.items):
      it.pos += 1
      return it.items[it.pos - 1]
    if default is not _MISSING:
      return default
    I.err(EXC['StopIteration'], '')
  if isinstance(it, LazyGen):
    for v in it.run():
      return v
    if default is not _MISSING:
      return default
    I.err(EXC['StopIteration'], '')
  if isinstance(it, Inst):
    f, _ = it.cls.lookup('__next__')
    if f is not None:
      return I.call(BoundV(f, it), [], {})
  I.err(TypeError, "'%s' object is not an iterator" % typename(it))


def b_iter(I, it):
  if isinstance(it, (Iter, Count, LazyGen)) and not isinstance(it, View):
    return it
  return Iter(iterate(I, it))


def b_round(I, v, nd=None):
  n = num(I, v)
  if isinstance(n, (int, Dim)):
    return n
  if isinstance(n, PyFloat):
    c = n.const()
    if c is not None and not isinstance(c, Dim):
      return round(c) if nd is None else PyFloat(Fraction(round(c, nd)))
    if isinstance(c, Dim) and D.is_integral(c) and nd is None:
      return c
  raise Unsupported('round()')


def b_list(I, it=()):
  return list(iterate(I, it))


def b_tuple(I, it=()):
  return tuple(iterate(I, it))


def b_set(I, it=()):
  return set(I.hashkey(x) for x in iterate(I, it))


def b_dict(I, *a, **kw):
  d = {}
  if a:
    if isinstance(a[0], dict):
      d.update(a[0])
    else:
      for p in iterate(I, a[0]):
        k, v = iterate(I, p)
        d[k] = v
  d.update(kw)
  return d


def b_str(I, v=''):
  return tostr(I, v)


def b_int(I, v=0, base=10):
  if symbolic(I, v):
    I.err(TypeError, "int() argument must be a string or a real number, not 'SymbolicTensor'")
  return to_int(I, v)


def b_float(I, v=0):
  if symbolic(I, v):
    I.err(TypeError, "float() argument must be a string or a real number, not 'SymbolicTensor'")
  if isinstance(v, str):
    if v.strip() in ('inf', 'Inf', 'infinity'):
      return Inf(1)
    return PyFloat(Fraction(v))
  n = num(I, v)
  if isinstance(n, (int, Dim)):
    return PyFloat(X.scalar(n))
  if isinstance(n, (PyFloat, Inf)):
    return n
  if isinstance(v, Tensor):
    if v.top:
      raise Unsupported(v.top)
    if v.flat == ():
      return PyFloat(I.detach(v).view(shape=(), static=(), _axes=None))
  I.err(TypeError, "float() argument must be a number, not '%s'" % typename(v))


def b_bool(I, v=False):
  return I.truth(v)


def b_slice(I, *a):
  return slice(*a)


def b_divmod(I, a, b):
  return (binop(I, 'FloorDiv', a, b), binop(I, 'Mod', a, b))


def b_pow(I, a, b):
  return binop(I, 'Pow', a, b)


def b_callable(I, v):
  return isinstance(v, (FuncV, BoundV, Native, ClassV, TypeV)) or (
      isinstance(v, Inst) and v.cls.lookup('__call__')[0] is not None)


def b_property(I, fget=None, fset=None):
  return PropV(fget, fset)


def b_setattr(I, o, n, v):
  I.setattr(o, n, v)


def b_id(I, v):
  return id(v)


def b_repr(I, v):
  return reprstr(I, v)


def b_dir(I, o=None):
  if o is None:
    # module level only
    m = None
    for s in I.stack[::-1]:
      for x in I.modules.values():
        if x.file == s[0]:
          m = x
          break
      break
    if m is not None:
      return sorted(m.env.vars)
  raise Unsupported('dir()')


def b_super(I, cls, obj):
  return SuperV(cls, obj)


def b_chr(I, v):
  return chr(cint(I, v))


def b_ord(I, v):
  return ord(v)


def b_hash(I, v):
  return 0


T_INT = TypeV('int', t_int, b_int)
T_FLOAT = TypeV('float', lambda v: isinstance(v, (PyFloat, Inf)), b_float)
T_BOOL = TypeV('bool', lambda v: isinstance(v, bool), b_bool)
T_STR = TypeV('str', lambda v: isinstance(v, str), b_str)
T_LIST = TypeV('list', lambda v: isinstance(v, list), b_list)
T_TUPLE = TypeV('tuple', lambda v: isinstance(v, tuple), b_tuple)
T_DICT = TypeV('dict', lambda v: isinstance(v, dict), b_dict)
T_SET = TypeV('set', lambda v: isinstance(v, set), b_set)
T_SLICE = TypeV('slice', lambda v: isinstance(v, slice), b_slice)
T_OBJECT = TypeV('object', lambda v: True, lambda I: Inst(ClassV('object', [], {}, None)))


def builtins_env():
  b = {}
  for n, f in list(globals().items()):
    if n.startswith('b_'):
      b[n[2:]] = Native(n[2:], f)
  b.update({'len': Native('len', length), 'int': T_INT, 'float': T_FLOAT, 'bool': T_BOOL, 'str': T_STR,
            'list': T_LIST, 'tuple': T_TUPLE, 'dict': T_DICT, 'set': T_SET, 'frozenset': T_SET,
            'slice': T_SLICE, 'object': T_OBJECT, 'range': TypeV('range', lambda v: isinstance(v, RangeV), b_range),
            'staticmethod': Native('staticmethod', lambda I, f: StaticV(f)),
            'classmethod': Native('classmethod', lambda I, f: ClassMethV(f)),
            'property': Native('property', b_property),
            'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis, '__debug__': True})
  b.update(EXC)
  return b


# ----------------------------------------------------------------------------
# methods of Python containers

def method(name, fn):
  return Native(name, fn)


def list_attr(I, o, name):
  def append(I, x):
    I.mutated(o, 'append')
    o.append(x)

  def extend(I, it):
    I.mutated(o, 'extend')
    o.extend(iterate(I, it))

  def insert(I, i, x):
    I.mutated(o, 'insert')
    o.insert(cint(I, i), x)

  def pop(I, i=-1):
    I.mutated(o, 'pop')
    if not o:
      I.err(IndexError, 'pop from empty list')
    return o.pop(norm_index(I, i, len(o), 'pop index'))

  def remove(I, x):
    I.mutated(o, 'remove')
    for k, y in enumerate(o):
      if y is x or equal_vals(I, y, x):
        del o[k]
        return
    I.err(ValueError, 'list.remove(x): x not in list')

  def reverse(I):
    I.mutated(o, 'reverse')
    o.reverse()

  def clear(I):
    I.mutated(o, 'clear')
    del o[:]

  def sort(I, key=None, reverse=False):
    I.mutated(o, 'sort')
    o[:] = sort_items(I, list(o), key, reverse)

  def index(I, x, *a):
    for k, y in enumerate(o):
      if y is x or equal_vals(I, y, x):
        return k
    I.err(ValueError, 'value is not in list')

  def count(I, x):
    return sum(1 for y in o if y is x or equal_vals(I, y, x))

  def copy(I):
    return list(o)

  m = {'append': append, 'extend': extend, 'insert': insert, 'pop': pop, 'remove': remove,
       'reverse': reverse, 'clear': clear, 'sort': sort, 'index': index, 'count': count, 'copy': copy}
  if isinstance(o, tuple):
    m = {'index': index, 'count': count}
  if isinstance(o, NTuple):
    if name in o.ntype.fields:
      return o[o.ntype.fields.index(name)]
    if name == '_replace':
      return method(name, lambda I, **kw: I.call(o.ntype, [], dict(zip(o.ntype.fields, o), **kw)))
    if name == '_asdict':
      return method(name, lambda I: dict(zip(o.ntype.fields, o)))
    if name == '_fields':
      return tuple(o.ntype.fields)
  if isinstance(o, Deque):
    def popleft(I):
      if not o:
        I.err(IndexError, 'pop from an empty deque')
      return o.pop(0)

    def rotate(I, n=1):
      n = cint(I, n) % len(o) if o else 0
      o[:] = o[len(o) - n:] + o[:len(o) - n]

    def trim(f, left):
      def g(I, x):
        f(I, x)
        if o.maxlen is not None:
          while len(o) > o.maxlen:
            o.pop(-1 if left else 0)
      return g
    m.update({'popleft': popleft, 'appendleft': trim(lambda I, x: o.insert(0, x), True), 'rotate': rotate,
              'append': trim(append, False), 'extend': trim(extend, False),
              'extendleft': trim(lambda I, it: o.__setitem__(slice(0, 0), iterate(I, it)[::-1]), True)})
    if name == 'maxlen':
      return o.maxlen
  if name in m:
    return method(name, m[name])
  return special_attr(I, o, name, type(o))


KNOWN = {
    'numpy.ndarray': 'argpartition as_integer_ratio base byteswap choose clip compress ctypes cumprod cumsum data diagonal dump '
                     'dumps fill flags flat fromhex getfield hex imag is_integer itemset itemsize nbytes newbyteorder nonzero '
                     'partition ptp put repeat resize searchsorted setfield setflags std strides swapaxes tobytes tofile '
                     'tostring trace var view',
    'EagerTensor': 'OVERLOADABLE_OPERATORS experimental_ref is_packed ref device consumers',
    'Variable': 'SaveSliceInfo aggregation batch_scatter_update constraint count_up_to create device eval experimental_ref '
                'from_proto gather_nd graph handle initial_value is_initialized load op read_value_no_copy ref scatter_add '
                'scatter_div scatter_max scatter_min scatter_mul scatter_nd_add scatter_nd_max scatter_nd_min scatter_nd_sub '
                'scatter_nd_update scatter_sub scatter_update set_shape sparse_read synchronization to_proto',
    'TensorShape': 'as_proto assert_same_rank cast experimental_as_proto experimental_from_proto experimental_type_proto '
                   'flatten from_tensors is_subtype_of most_specific_common_supertype most_specific_compatible_shape '
                   'placeholder_value to_tensors with_rank_at_least with_rank_at_most',
}
KNOWN = {k: frozenset(v.split()) for k, v in KNOWN.items()}


def no_attr(I, kind, name, ty=None):
  """The attribute has no model: an AttributeError unless the object has it."""
  if name in KNOWN.get(kind, ()) or (hasattr(ty, name) if ty is not None else name.startswith('_')):
    raise Unsupported('attribute %s of %s' % (name, kind))
  I.err(AttributeError, "'%s' object has no attribute '%s'" % (kind, name))


def special_attr(I, o, name, ty):
  """Special methods of Python containers and strings."""
  ops = {'__add__': 'Add', '__mul__': 'Mult', '__sub__': 'Sub', '__mod__': 'Mod'}
  if not hasattr(ty, name):
    I.err(AttributeError, "'%s' object has no attribute '%s'" % (ty.__name__, name))
  if name == '__len__':
    return method(name, lambda I: length(I, o))
  if name == '__getitem__':
    return method(name, lambda I, k: I.getitem(o, k))
  if name == '__iter__':
    return method(name, lambda I: Iter(list(iterate(I, o))))
  if name == '__contains__':
    return method(name, lambda I, x: any(y is x or equal_vals(I, y, x) for y in iterate(I, o)))
  if name == '__eq__':
    return method(name, lambda I, x: equal_vals(I, o, x))
  if name in ops:
    return method(name, lambda I, x: I.binop(ops[name], o, x))
  raise Unsupported('%s.%s' % (ty.__name__, name))


def dict_attr(I, o, name):
  def get(I, k, d=None):
    return o.get(I.hashkey(k), d)

  def setdefault(I, k, d=None):
    I.mutated(o, 'setdefault')
    return o.setdefault(I.hashkey(k), d)

  def update(I, *a, **kw):
    I.mutated(o, 'update')
    o.update(b_dict(I, *a, **kw))

  def pop(I, k, d=_MISSING):
    I.mutated(o, 'pop')
    if k in o:
      return o.pop(k)
    if d is not _MISSING:
      return d
    I.err(KeyError, tostr(I, k))

  def clear(I):
    I.mutated(o, 'clear')
    o.clear()

  def popitem(I, last=True):
    I.mutated(o, 'popitem')
    if not o:
      I.err(KeyError, 'dictionary is empty')
    k = list(o)[-1 if last else 0]
    return (k, o.pop(k))

  m = {'get': get, 'setdefault': setdefault, 'update': update, 'pop': pop,
       'keys': lambda I: View(lambda: list(o.keys())), 'values': lambda I: View(lambda: list(o.values())),
       'items': lambda I: View(lambda: list(o.items())), 'copy': lambda I: dict(o), 'clear': clear,
       'popitem': popitem}
  if name in m:
    return method(name, m[name])
  return special_attr(I, o, name, dict)


def set_attr(I, o, name):
  def add(I, x):
    I.mutated(o, 'add')
    o.add(I.hashkey(x))

  def update(I, *its):
    I.mutated(o, 'update')
    for it in its:
      o.update(iterate(I, it))

  def discard(I, x):
    I.mutated(o, 'discard')
    o.discard(I.hashkey(x))

  def remove(I, x):
    I.mutated(o, 'remove')
    if I.hashkey(x) not in o:
      I.err(KeyError, tostr(I, x))
    o.remove(I.hashkey(x))

  m = {'add': add, 'update': update, 'discard': discard, 'remove': remove,
       'issuperset': lambda I, x: o >= set(iterate(I, x)), 'isdisjoint': lambda I, x: o.isdisjoint(iterate(I, x)),
       'symmetric_difference': lambda I, x: o ^ set(iterate(I, x)), 'union': lambda I, x: o | set(iterate(I, x)),
       'intersection': lambda I, x: o & set(iterate(I, x)),
       'difference': lambda I, x: o - set(iterate(I, x)),
       'issubset': lambda I, x: o <= set(iterate(I, x)), 'copy': lambda I: set(o)}
  if name in m:
    return method(name, m[name])
  return special_attr(I, o, name, set)


def str_attr(I, o, name):
  if name == 'format':
    def fmt(I, *a, **kw):
      conv = lambda x: x if isinstance(x, (int, str)) else tostr(I, x)
      try:
        return o.format(*[conv(x) for x in a], **{k: conv(x) for k, x in kw.items()})
      except (IndexError, KeyError, ValueError) as e:
        I.err(type(e), str(e))
    return method('format', fmt)
  if name == 'join':
    def join(I, it):
      xs = iterate(I, it)
      for x in xs:
        if not isinstance(x, str):
          I.err(TypeError, 'sequence item: expected str instance, %s found' % typename(x))
      return o.join(xs)
    return method('join', join)
  if not hasattr(str, name):
    I.err(AttributeError, "'str' object has no attribute '%s'" % name)
  f = getattr(o, name)

  def call(I, *a, **kw):
    try:
      r = f(*[int(x) if isinstance(x, NpInt) else x for x in a], **kw)
    except (TypeError, ValueError) as e:
      I.err(type(e), str(e))
    return r
  return method(name, call)


def tshape_attr(I, o, name):
  def as_list(I):
    if o.dims is None:
      I.err(ValueError, 'as_list() is not defined on an unknown TensorShape.')
    return list(o.dims)

  def num_elements(I):
    if o.dims is None or None in o.dims:
      return None
    return D.prod(o.dims)

  def is_fully_defined(I):
    return o.dims is not None and None not in o.dims

  def compat(I, other):
    y = to_tshape(I, other)
    if o.dims is None or y.dims is None:
      return True
    return len(o.dims) == len(y.dims) and all(
        p is None or q is None or D.decide_eq(p, q) for p, q in zip(o.dims, y.dims))

  def assert_compat(I, other):
    if not compat(I, other):
      I.err(ValueError, 'Shapes %r and %r are incompatible' % (o, other))

  def concatenate(I, other):
    y = to_tshape(I, other)
    return TShape(list(o.dims) + list(y.dims))

  def merge(I, other):
    y = to_tshape(I, other)
    if not compat(I, y):
      I.err(ValueError, 'Shapes %r and %r are not compatible' % (o, y))
    if o.dims is None:
      return y
    if y.dims is None:
      return o
    return TShape([q if p is None else p for p, q in zip(o.dims, y.dims)])

  def with_rank(I, r):
    if o.dims is None:
      return TShape([None] * r)
    if len(o.dims) != cint(I, r):
      I.err(ValueError, 'Shape %r must have rank %d' % (o, r))
    return o

  m = {'as_list': as_list, 'num_elements': num_elements, 'is_fully_defined': is_fully_defined,
       'is_compatible_with': compat, 'assert_is_compatible_with': assert_compat,
       'concatenate': concatenate, 'merge_with': merge, 'with_rank': with_rank,
       'assert_has_rank': lambda I, r: with_rank(I, r) and None,
       'assert_is_fully_defined': lambda I: None if is_fully_defined(I) else I.err(ValueError, 'not fully defined')}
  if name in m:
    return method(name, m[name])
  if name in ('ndims', 'rank'):
    return None if o.dims is None else len(o.dims)
  if name == 'dims':
    return None if o.dims is None else list(o.dims)
  no_attr(I, 'TensorShape', name)


def to_tshape(I, v):
  if isinstance(v, TShape):
    return v
  if v is None:
    return TShape(None)
  if isinstance(v, (int, Dim)):
    return TShape([v])
  if isinstance(v, (list, tuple, Arr, RangeV, Iter, LazyGen)):
    out = []
    for x in iterate(I, v):
      if isinstance(x, Arr) and len(x.data) == 1:
        x = x.data[0]
      if isinstance(x, NpInt):
        x = int(x)
      if isinstance(x, NpDim):
        x = Dim(x.p)
      if isinstance(x, bool) or not (x is None or isinstance(x, (int, Dim))):
        if isinstance(x, TShape):
          I.err(TypeError, 'Dimension value must be integer or None, got %s' % typename(x))
        if isinstance(x, Tensor):
          s = X.as_size(x)
          if s is not None:
            out.append(s)
            continue
          raise Unsupported('data-dependent shape')
        I.err(TypeError, 'Dimension value must be integer or None or have an __index__ method, got %s' % typename(x))
      if isinstance(x, int) and x < 0:
        I.err(ValueError, 'Dimension %d must be >= 0' % x)
      out.append(x)
    return TShape(out)
  if isinstance(v, Tensor):
    return TShape([None if x is None else x for x in shape_list(I, v)])
  I.err(TypeError, 'Failed to convert %s to TensorShape' % typename(v))


def dtype_attr(I, o, name):
  if name == 'name':
    return o.name
  if name in ('base_dtype', 'as_numpy_dtype', 'type'):
    return o
  if name == 'is_floating':
    return not o.name.startswith('complex') and is_float(o)
  if name == 'is_complex':
    return o.name.startswith('complex')
  if name == 'is_integer':
    return is_int(o)
  if name == 'real_dtype':
    return {'complex64': DT['float32'], 'complex128': DT['float64']}.get(o.name, o)
  if name == 'kind':
    return 'f' if is_float(o) else 'i'
  if name == '__name__':
    return o.name
  if name == 'is_compatible_with':
    return Native(name, lambda I, other: X.same_dtype(o, to_dtype(I, other)))
  raise Unsupported('dtype.%s' % name)
