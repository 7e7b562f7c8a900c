"""Abstract Python values other than tensors."""
from fractions import Fraction

from . import dim as D
from .dim import Dim, NeedSplit
from . import tensor as X
from .tensor import Tensor, DType


class TFError(Exception):
  """Stands for tf.errors.InvalidArgumentError and friends."""


class PyRaise(Exception):
  """An exception raised by the analysed program."""

  def __init__(self, etype, msg='', where=None, inst=None):
    Exception.__init__(self, '%s: %s' % (getattr(etype, '__name__', etype), msg))
    self.etype = etype
    self.msg = msg
    self.where = where
    self.inst = inst


class ExcInst(object):
  def __init__(self, etype, args):
    self.etype = etype
    self.args = args


class NpInt(int):
  pass


class NpDim(Dim):
  __slots__ = ()

  def __hash__(self):
    return Dim.__hash__(self)


def npint(x):
  if isinstance(x, bool):
    return x
  if isinstance(x, int):
    return NpInt(x)
  if isinstance(x, Dim):
    return NpDim(x.p)
  return x


class PyFloat(object):
  """A float with a known (symbolic) real value: 0-d tensor terms."""

  def __init__(self, t, np=False):
    if not isinstance(t, Tensor):
      t = X.scalar(t)
    self.t = t
    self.np = np

  def const(self):
    if self.t.top:
      return None
    s = X.as_size(self.t)
    return s

  def __repr__(self):
    return 'float(%s)' % (self.t.canon,)


class Inf(object):
  def __init__(self, sign=1):
    self.sign = sign

  def __repr__(self):
    return 'inf' if self.sign > 0 else '-inf'


class UnknownV(object):
  """Value of a module-level name the analysis has no model for; using it stops
  the obligation, importing the module does not."""

  def __init__(self, why):
    self.why = why


class Record(object):
  """Library object with constant attributes (np.iinfo(...))."""

  def __init__(self, name, attrs):
    self.name = name
    self.attrs = attrs


class Arr(object):
  """Concrete-structure array (numpy array or small integer tf tensor)."""

  def __init__(self, shape, data, flavor='np', kind=None):
    self.shape = tuple(shape)
    self.data = list(data)
    self.flavor = flavor
    n = 1
    for s in self.shape:
      n *= s
    assert n == len(self.data), (shape, data)
    if kind is None:
      kind = 'i'
      for x in self.data:
        if isinstance(x, bool):
          kind = 'b' if kind in ('i', 'b') else kind
        elif isinstance(x, (int, Dim)):
          if kind == 'b':
            kind = 'i'
        elif isinstance(x, (PyFloat, Inf)):
          kind = 'f'
        elif isinstance(x, Tensor):
          kind = 'f'
        else:
          kind = 'o'
          break
      if not self.data:
        kind = 'f'
    self.kind = kind

  def wrap(self, x):
    """Scalar as seen by Python when indexing."""
    if self.flavor == 'tf':
      return Arr((), [x], 'tf', self.kind)
    if self.kind == 'i' or isinstance(x, (int, Dim)):
      return npint(x)
    if isinstance(x, PyFloat):
      return PyFloat(x.t, np=True)
    return x

  def __repr__(self):
    return 'Arr%s%s' % (self.shape, self.data)


class TShape(object):
  """tf.TensorShape"""

  def __init__(self, dims):
    self.dims = None if dims is None else list(dims)

  def __repr__(self):
    if self.dims is None:
      return '<unknown>'
    return '(%s)' % ', '.join('None' if d is None else D.show(d) for d in self.dims)


class Var(object):
  """tf.Variable"""
  n = 0

  def __init__(self, t, name=None, trainable=True, shape=None):
    self.t = t
    self.name = name
    self.trainable = trainable
    Var.n += 1
    self.uid = Var.n
    self.history = [t]

  @property
  def dtype(self):
    return self.t.dtype


class KVar(Var):
  """keras.Variable: a wrapper around a tf.Variable"""

  def __init__(self, inner, name=None):
    self.inner = inner
    self.name = name
    self.uid = inner.uid
    self.history = inner.history

  t = property(lambda self: self.inner.t)
  trainable = property(lambda self: self.inner.trainable)


class Sparse(object):
  """tf.SparseTensor: index and value tensors."""

  def __init__(self, indices, values, dense_shape):
    self.indices = indices
    self.values = values
    self.dense_shape = dense_shape


class FuncV(object):
  def __init__(self, node, env, module, name, defaults, kwdefaults, cls=None):
    self.node = node
    self.env = env
    self.module = module
    self.name = name
    self.defaults = defaults
    self.kwdefaults = kwdefaults
    self.cls = cls
    self.attrs = {}

  def __repr__(self):
    return '<function %s>' % self.name


class BoundV(object):
  def __init__(self, fn, self_):
    self.fn = fn
    self.self_ = self_


class PropV(object):
  def __init__(self, fget, fset=None):
    self.fget = fget
    self.fset = fset


class StaticV(object):
  def __init__(self, fn):
    self.fn = fn


class ClassMethV(object):
  def __init__(self, fn):
    self.fn = fn


class ClassV(object):
  def __init__(self, name, bases, attrs, module):
    self.name = name
    self.bases = bases
    self.attrs = attrs
    self.module = module

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, ClassV):
        for c in b.mro():
          if c not in out:
            out.append(c)
    return out

  def lookup(self, name):
    for c in self.mro():
      if name in c.attrs:
        return c.attrs[name], c
    return None, None

  def __repr__(self):
    return '<class %s>' % self.name


class Inst(object):
  def __init__(self, cls):
    self.cls = cls
    self.attrs = {}

  def __repr__(self):
    return '<%s object>' % self.cls.name


class SuperV(object):
  def __init__(self, cls, self_):
    self.cls = cls
    self.self_ = self_


class ModuleV(object):
  def __init__(self, name, env, file=None):
    self.name = name
    self.env = env
    self.file = file

  def __repr__(self):
    return '<module %s>' % self.name


class Native(object):
  """A modelled library function: fn(I, *args, **kw)."""

  def __init__(self, name, fn, raw=False):
    self.name = name
    self.fn = fn
    self.raw = raw

  def __repr__(self):
    return '<native %s>' % self.name


class TypeV(object):
  """A library type usable in isinstance and (maybe) callable."""

  def __init__(self, name, test, call=None, attrs=None):
    self.name = name
    self.test = test
    self.call = call
    self.attrs = attrs or {}

  def __repr__(self):
    return '<type %s>' % self.name


class LibObj(object):
  """Opaque library attribute: exists but has no model."""

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return '<lib %s>' % self.name


class LibModule(object):
  """A library module namespace, resolved lazily."""

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return '<libmodule %s>' % self.name


class CM(object):
  """Context manager without effect."""

  def __init__(self, value=None, name=''):
    self.value = value
    self.name = name

  def enter(self):
    return self.value

  def exit(self):
    pass

  def failed(self, I, e):
    """The body raised e; true if it is suppressed."""
    self.exit()
    return False


class Iter(object):
  def __init__(self, items):
    self.items = list(items)
    self.pos = 0


class View(Iter):
  """dict.keys(), dict.values() and dict.items()."""

  def __init__(self, get):
    self.get = get


class NTuple(tuple):
  """An instance of a named tuple type."""


class DefDict(dict):
  """collections.defaultdict."""


class Deque(list):
  """collections.deque."""
  maxlen = None


class Count(object):
  def __init__(self, start=0, step=1):
    self.v = start
    self.step = step


class RangeV(object):
  def __init__(self, start, stop, step):
    self.start, self.stop, self.step = start, stop, step

  def items(self):
    if any(isinstance(x, Dim) for x in (self.start, self.stop, self.step)):
      raise X.Unsupported('loop over a symbolic range')
    return list(range(int(self.start), int(self.stop), int(self.step)))


class Tape(object):
  def __init__(self, persistent=False):
    self.persistent = persistent
    self.watched = []     # (handle tensor, atom key, definition, var)
    self.used = False
    self.active = False
    self.saved = []

  def forget(self):
    """Operations after the recording block are not recorded."""
    for t, rep in reversed(self.saved):
      t.flat, t.terms, t.canon, t._axes = rep
    self.saved = []


class RandomState(object):
  pass
