"""Library models tied together: module namespaces and attribute dispatch."""
import ast
import os
from fractions import Fraction

from . import dim as D
from .dim import Dim
from . import tensor as X
from .tensor import Tensor, Unsupported, OpError, DType
from .values import *  # noqa
from .interp import EXC, LazyGen, PyGen, GenCM, GenFn, Env, _MISSING
from . import lib as L
from .lib import SITE, DT, typename, iterate, num, cint, binop
from . import tfmodel as TFM
from . import npmodel as NPM
from . import more  # noqa

TFROOT = os.path.join(SITE, 'tensorflow')

_names_cache = {}


def top_names(path):
  """Names bound at the top level of a Python file (None: not available)."""
  if path in _names_cache:
    return _names_cache[path]
  try:
    with open(path, encoding='utf-8') as h:
      tree = ast.parse(h.read())
  except (OSError, SyntaxError):
    _names_cache[path] = None
    return None
  names = set()

  def visit(body):
    for s in body:
      if isinstance(s, (ast.Import, ast.ImportFrom)):
        for a in s.names:
          names.add((a.asname or a.name).split('.')[0])
      elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        names.add(s.name)
      elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
          for n in ast.walk(t):
            if isinstance(n, ast.Name):
              names.add(n.id)
            elif isinstance(n, ast.Attribute):
              names.add(n.attr)
      elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
        visit(s.body)
        visit(getattr(s, 'orelse', []))
        visit(getattr(s, 'finalbody', []))
        for h in getattr(s, 'handlers', []):
          visit(h.body)
  visit(tree.body)
  # _sys.modules / setattr(...) style names
  for n in ast.walk(tree):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 \
        and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
      names.add(n.args[1].value)
  _names_cache[path] = names
  return names


def tf_api_file(ns):
  if ns == '':
    return os.path.join(TFROOT, '__init__.py')
  return os.path.join(TFROOT, '_api', 'v2', *(ns.split('.') + ['__init__.py']))


def tf_exists(ns, name):
  """Does tf.<ns>.<name> exist in the installed package?  None: unknown."""
  names = top_names(tf_api_file(ns))
  if names is None:
    return None
  if name in names:
    return True
  if ns == '' and name in ('keras', 'estimator', 'losses', 'metrics', 'optimizers', 'initializers', 'python'):
    return True
  if ns.split('.')[0] == 'keras' or name.startswith('__'):
    return None
  return False


class KerasLayer(object):
  pass


class Lib(object):
  """Interface used by the interpreter."""

  def __init__(self, eager=True):
    self.eager = eager
    self._builtins = None
    self.overrides = {}

  # direct delegation
  signature = staticmethod(L.signature)
  getitem = staticmethod(L.getitem)
  setitem = staticmethod(L.setitem)
  iterate = staticmethod(L.iterate)
  tostr = staticmethod(L.tostr)
  typename = staticmethod(L.typename)
  cint = staticmethod(L.cint)
  binop = staticmethod(L.binop)
  compare = staticmethod(L.compare)

  def builtins(self, I):
    if self._builtins is None:
      self._builtins = L.builtins_env()
    return dict(self._builtins)

  def cast_scalar(self, I, dt, v):
    return TFM.cast_scalar(I, dt, v)

  def tf_call(self, I, name, *args, **kw):
    return I.call(TFM.M[name], list(args), kw)

  def typeobj(self, I, v):
    for t in (TFM.T_TENSOR, TFM.T_VAR, TFM.T_SPARSE, TFM.T_TSHAPE, NPM.T_NDARRAY):
      if t.test(v):
        return t
    if isinstance(v, TypeV) or isinstance(v, ClassV):
      return TypeV('type', lambda x: isinstance(x, (ClassV, TypeV)))
    if v is None:
      return TypeV('NoneType', lambda x: x is None)
    if isinstance(v, ExcInst):
      return v.etype
    if isinstance(v, (FuncV, BoundV, Native)):
      return TypeV('function', lambda x: isinstance(x, (FuncV, BoundV, Native)))
    return None

  def isinst(self, I, v, t):
    return L.isinst(I, v, t)

  def pyslice(self, I, s):
    return L.pyslice(I, s)

  def namedtuple(self, name, fields, defaults):
    return namedtuple(name, fields, defaults)

  # -- modules -----------------------------------------------------------------
  def module(self, I, name):
    root = name.split('.')[0]
    if root in ('tensorflow', 'numpy'):
      return LibModule(name)
    if root in STDLIB:
      m = LibModule(name)
      return m
    import sys
    if root in sys.stdlib_module_names:
      return LibModule(name)
    if os.path.exists(os.path.join(SITE, root)) or os.path.exists(os.path.join(SITE, root + '.py')):
      return LibModule(name)
    I.err(EXC['ModuleNotFoundError'], "No module named '%s'" % name)

  def mod_attr(self, I, m, name):
    full = m.name + '.' + name
    if full in self.overrides:
      return self.overrides[full]
    root = m.name.split('.')[0]
    if root == 'tensorflow':
      return self.tf_attr(I, m.name, name)
    if root == 'numpy':
      return self.np_attr(I, m.name, name)
    if root in STDLIB:
      d = STDLIB[root]
      if m.name == root and name in d:
        return d[name]
    return self.py_attr(I, m.name, name)

  def py_attr(self, I, mod, name):
    import sys
    if mod.split('.')[0] in sys.stdlib_module_names:
      import importlib
      try:
        mm = importlib.import_module(mod)
      except ImportError:
        I.err(EXC['ModuleNotFoundError'], "No module named '%s'" % mod)
      if not hasattr(mm, name):
        I.err(AttributeError, "module '%s' has no attribute '%s'" % (mod, name))
      return LibObj(mod + '.' + name)
    return LibObj(mod + '.' + name)

  def tf_attr(self, I, mod, name):
    path = mod.split('.')[1:]
    if path[:1] == ['python']:
      if mod == 'tensorflow.python.eager.context' and name == 'in_eager_mode':
        return Native('in_eager_mode', lambda I: self.eager)
      if mod == 'tensorflow.python.eager.context' and name == 'executing_eagerly':
        return Native('executing_eagerly', lambda I: self.eager)
      p = os.path.join(TFROOT, *path)
      if os.path.isdir(os.path.join(p, name)) or os.path.exists(os.path.join(p, name + '.py')):
        return LibModule(mod + '.' + name)
      for f in (p + '.py', os.path.join(p, '__init__.py')):
        names = top_names(f)
        if names is not None:
          if name in names:
            return LibObj(mod + '.' + name)
          I.err(ImportError if False else AttributeError, "module '%s' has no attribute '%s'" % (mod, name))
      return LibObj(mod + '.' + name)
    v1 = path[:2] == ['compat', 'v1']
    v2 = path[:2] == ['compat', 'v2']
    sub = path[2:] if (v1 or v2) else path
    ns = '.'.join(path) if v1 else '.'.join(sub)
    key = '.'.join(sub + [name])
    ex = tf_exists(ns, name)
    if key.startswith('keras'):
      if key in KERAS:
        return KERAS[key]
      if key in ('keras', 'keras.layers', 'keras.initializers', 'keras.activations', 'keras.models',
                 'keras.backend', 'keras.regularizers'):
        return LibModule(mod + '.' + name)
      return LibObj(mod + '.' + name)
    if ex is False:
      I.err(AttributeError, "module '%s' has no attribute '%s'" % (mod, name))
    if v1 and key in TFM.V1:
      return TFM.V1[key]
    if key in TFM.M:
      return TFM.M[key]
    d = os.path.dirname(tf_api_file(ns + '.' + name if ns else name))
    if os.path.isdir(d) or key in ('linalg', 'math', 'random', 'nn', 'debugging', 'dtypes', 'sparse', 'compat',
                                   'compat.v1', 'logging', 'GraphKeys', 'initializers', 'errors', 'python'):
      return LibModule(mod + '.' + name)
    if v1 and key == 'GraphKeys':
      return LibModule(mod + '.' + name)
    return LibObj(mod + '.' + name)

  def np_attr(self, I, mod, name):
    sub = mod.split('.')[1:]
    key = '.'.join(sub + [name])
    f = os.path.join(SITE, 'numpy', *(sub + ['__init__.pyi']))
    names = top_names(f)
    if key in NPM.N:
      return NPM.N[key]
    if key in ('linalg', 'random', 'testing', 'typing', 'ma', 'fft'):
      return LibModule(mod + '.' + name)
    if key == 'pi':
      return PyFloat(X.from_atom('pi', (), None, nonneg=True))
    if key == 'e':
      return PyFloat(X.from_atom('e', (), None, nonneg=True))
    if names is not None and name not in names and not sub:
      I.err(AttributeError, "module 'numpy' has no attribute '%s'" % name)
    return LibObj('numpy.' + key)

  # -- attributes ----------------------------------------------------------------
  def getattr(self, I, o, name):
    if isinstance(o, LibModule):
      return self.mod_attr(I, o, name)
    if isinstance(o, Tensor):
      if o.np:
        return NPM.attr(I, o, name)
      return TFM.tensor_attr(I, o, name)
    if isinstance(o, Arr):
      if o.flavor == 'tf':
        return TFM.tensor_attr(I, o, name)
      return NPM.attr(I, o, name)
    if isinstance(o, Var):
      return TFM.var_attr(I, o, name)
    if isinstance(o, Sparse):
      return TFM.sparse_attr(I, o, name)
    if isinstance(o, Tape):
      return TFM.tape_attr(I, o, name)
    if isinstance(o, TShape):
      return L.tshape_attr(I, o, name)
    if isinstance(o, DType):
      return L.dtype_attr(I, o, name)
    if isinstance(o, (list, tuple)):
      return L.list_attr(I, o, name)
    if isinstance(o, dict):
      return L.dict_attr(I, o, name)
    if isinstance(o, (set, frozenset)):
      return L.set_attr(I, o, name)
    if isinstance(o, str):
      return L.str_attr(I, o, name)
    if isinstance(o, TypeV):
      if name in o.attrs:
        return o.attrs[name]
      if name in ('__name__', '__qualname__'):
        return o.name.split('.')[-1]
      raise Unsupported('%s.%s' % (o.name, name))
    if isinstance(o, (int, Dim)) and not isinstance(o, bool):
      return self.int_attr(I, o, name)
    if isinstance(o, PyFloat):
      if name == 'dtype' and o.np:
        return DT['float64']
      if name == 'shape' and o.np:
        return ()
      if name == 'is_integer':
        def isint(I):
          c = o.const()
          if c is None:
            raise Unsupported('is_integer')
          return isinstance(c, int) or (not isinstance(c, Dim) and c == int(c)) or isinstance(c, Dim)
        return Native('is_integer', isint)
      if name in ('item', 'tolist') and o.np:
        return Native(name, lambda I: PyFloat(o.t))
      if name in ('astype',) and o.np:
        return Native('astype', lambda I, dtype: self.cast_scalar(I, L.to_dtype(I, dtype), o))
      L.no_attr(I, 'numpy.ndarray' if o.np else 'float', name, float)
    if isinstance(o, TFM.VarScope):
      if name in ('name', 'reuse'):
        return getattr(o, name)
      if name == 'original_name_scope':
        return o.name + '/'
      if name == 'reuse_variables':
        def rv(I):
          I.variables['reuse'][-1] = True
        return Native(name, rv)
      raise Unsupported('VariableScope.%s' % name)
    if isinstance(o, Native):
      if name == '__name__':
        return o.name.split('.')[-1]
      if name == 'from_iterable' and o.name == 'chain':
        return Native('chain.from_iterable', lambda I, iterable: Iter(
            [x for y in iterate(I, iterable) for x in iterate(I, y)]))
      if o.name.startswith('np.'):
        from . import more
        return more.ufunc_attr(I, o.name, name)
      raise Unsupported('attribute %s of %s' % (name, o.name))
    if isinstance(o, slice):
      if name in ('start', 'stop', 'step'):
        return getattr(o, name)
      if name == 'indices':
        def indices(I, n):
          return L.slice_bounds(I, o, L.num(I, n))
        return Native('slice.indices', indices)
    if isinstance(o, ExcInst):
      if name == 'args':
        return o.args
      if name == 'message':
        I.err(AttributeError, 'no attribute message')
    if isinstance(o, RangeV):
      if name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, BoundV):
      if name == '__self__':
        return o.self_
      return I.getattr(o.fn, name)
    if isinstance(o, Record):
      if name in o.attrs:
        return o.attrs[name]
      raise Unsupported('attribute %s of %s' % (name, o.name))
    if isinstance(o, LibObj):
      return LibObj(o.name + '.' + name)
    if isinstance(o, (LazyGen, Iter, Count)) and name in ('__next__', '__iter__', 'send', 'close', 'throw'):
      if name == '__next__':
        return Native(name, lambda I: L.b_next(I, o))
      if name == '__iter__':
        return Native(name, lambda I: L.b_iter(I, o))
      if isinstance(o, GenFn) and name == 'send':
        def send(I, v):
          o.sent = v
          return L.b_next(I, o)
        return Native(name, send)
      if isinstance(o, LazyGen) and name == 'close':
        return Native(name, lambda I: o.run().close())
      if isinstance(o, LazyGen):
        raise Unsupported('generator.throw')
    if isinstance(o, bool) and name in ('item', 'all', 'any', 'astype', 'dtype', 'shape', 'tolist', 'sum'):
      # Python and NumPy booleans are not told apart
      if name in ('item', 'all', 'any', 'tolist'):
        return Native(name, lambda I: o)
      raise Unsupported('bool.%s' % name)
    if o is None or isinstance(o, (bool, Inf, Iter, Count, LazyGen, slice, RangeV)):
      L.no_attr(I, typename(o), name, {RangeV: range}.get(type(o), type(o) if not isinstance(o, (Inf, Iter, Count, LazyGen)) else float))
    if isinstance(o, PropV):
      if name == 'setter':
        return Native('setter', lambda I, f: PropV(o.fget, f))
      if name == 'getter':
        return Native('getter', lambda I, f: PropV(f, o.fset))
    if isinstance(o, StackCM):
      return o.attr(I, name)
    if isinstance(o, CM):
      raise Unsupported('attribute of a context manager')
    raise Unsupported('attribute %s of %s' % (name, typename(o)))

  def int_attr(self, I, o, name):
    if isinstance(o, (NpInt, NpDim)):
      if name == 'shape':
        return ()
      if name == 'ndim':
        return 0
      if name == 'size':
        return 1
      if name == 'dtype':
        return DT['int64']
      if name == 'astype':
        return Native('astype', lambda I, dtype: self.cast_scalar(I, L.to_dtype(I, dtype), o))
      if name == 'item':
        return Native('item', lambda I: L.to_int(I, o))
    if name in ('value',):
      I.err(AttributeError, "'int' object has no attribute 'value'")
    if name in ('real', 'numerator'):
      return o
    if name in ('bit_length', 'conjugate', 'imag', 'denominator'):
      raise Unsupported('int.%s' % name)
    L.no_attr(I, 'numpy.ndarray' if isinstance(o, (NpInt, NpDim)) else 'int', name, int)

  # -- instances of classes with library bases (Keras layers) ------------------------
  def lib_bases(self, cls):
    out = []
    for c in cls.mro():
      for b in c.bases:
        if isinstance(b, (TypeV, LibObj)) and getattr(b, 'name', '') != 'object':
          out.append(b)
    return out

  def native_init(self, I, cls, inst, args, kw):
    if self.lib_bases(cls):
      return None
    return NotImplemented

  def native_attr(self, I, inst, name):
    bs = self.lib_bases(inst.cls)
    if not bs:
      return NotImplemented
    for b in bs:
      if isinstance(b, TypeV) and b.name == 'keras.Layer':
        if name == 'trainable_weights' or name == 'trainable_variables':
          return [v for v in self.layer_vars(inst) if v.trainable]
        if name in ('weights', 'variables'):
          return self.layer_vars(inst)
        if name == 'add_weight':
          return Native('add_weight', lambda I, *a, **k: self.add_weight(I, inst, *a, **k))
        if name == 'name':
          I.err(AttributeError, "'%s' object has no attribute 'name'" % inst.cls.name)
        if name == 'built':
          return False
        if name == 'build':
          return Native('build', lambda I, input_shape=None: None)
        if name in ('name', 'dtype', 'input_spec', 'losses', 'trainable', 'add_loss', 'get_config',
                    '_trainable_weights', 'compute_dtype'):
          raise Unsupported('keras Layer.%s' % name)
    return NotImplemented

  def add_weight(self, I, inst, shape=None, initializer=None, dtype=None, trainable=True, autocast=True,
                 regularizer=None, constraint=None, aggregation='none', overwrite_with_gradient=False, name=None):
    if '__layer_init__' not in inst.attrs:
      I.err(AttributeError, 'add_weight before Layer.__init__')
    if isinstance(shape, str):
      I.err(ValueError, 'name must be passed as a keyword argument')
    dt = DT['float32'] if dtype is None else L.to_dtype(I, dtype)
    if isinstance(initializer, (FuncV, BoundV, Native)):
      v = I.call(initializer, [() if shape is None else shape], {'dtype': dt})
    elif initializer in ('zeros', 'ones'):
      v = TFM.fill_like(I, 0 if initializer == 'zeros' else 1, () if shape is None else shape, dt)
    else:
      raise Unsupported('initializer of add_weight')
    t = TFM.convert(I, v, dt)
    if isinstance(t, Arr):
      t = TFM.tens(I, t)
    want = TFM.shape_list(I, () if shape is None else shape)
    if len(t.shape) != len(want) or any(not D.same(x, y) for x, y in zip(t.shape, want)):
      I.err(ValueError, 'The initial value of the weight has another shape')
    w = KVar(TFM.mkvar(I, t, trainable, name, None), name)
    inst.attrs.setdefault('__weights__', []).append(w)
    return w

  def layer_vars(self, inst):
    out = []

    def rec(v, d=0):
      if isinstance(v, KVar):
        if v not in out:
          out.append(v)
      elif isinstance(v, (list, tuple)):
        for x in v:
          rec(x, d)
    for k, v in inst.attrs.items():
      rec(v)
    return out

  def native_super(self, I, sup, name):
    bs = self.lib_bases(sup.self_.cls)
    if name == '__init__':
      if not bs:
        def init(I, *a, **k):
          if a or k:
            I.err(TypeError, 'object.__init__() takes exactly one argument')
        return Native('object.__init__', init)

      def linit(I, *a, **k):
        sup.self_.attrs['__layer_init__'] = True
        for n in k:
          if n not in ('name', 'dtype', 'trainable', 'autocast', 'activity_regularizer', 'input_dim', 'input_shape',
                       'batch_size', 'weights', 'dynamic'):
            I.err(ValueError, 'Unrecognized keyword arguments passed to Layer: %s' % n)
        if 'name' in k and isinstance(k['name'], str):
          sup.self_.attrs['name'] = k['name']
      return Native('Layer.__init__', linit)
    if bs and name in ('build', 'compute_output_shape', 'get_config', '__setattr__', '__call__'):
      if name == 'build':
        return Native('build', lambda I, *a, **k: None)
      if name == '__setattr__':
        return Native('__setattr__', lambda I, n, v: sup.self_.attrs.__setitem__(n, v))
      raise Unsupported('super().%s' % name)
    return NotImplemented

  def call_inst(self, I, inst, args, kw):
    for b in self.lib_bases(inst.cls):
      if isinstance(b, TypeV) and b.name == 'keras.Layer':
        f, _ = inst.cls.lookup('call')
        if f is not None:
          args = [TFM.convert(I, args[0], None)] + list(args[1:])
          bf, _ = inst.cls.lookup('build')
          if bf is not None and not inst.attrs.get('__built__'):
            inst.attrs['__built__'] = True
            I.call(BoundV(bf, inst), [L.static_shape(args[0])], {})
          return I.call(BoundV(f, inst), args, kw)
    return NotImplemented


def activation(I, activation, **kwargs):
  if isinstance(activation, str):
    known = ('relu', 'sigmoid', 'tanh', 'softmax', 'elu', 'selu', 'softplus', 'linear', 'softsign',
             'hard_sigmoid', 'exponential', 'gelu', 'swish', 'silu', 'relu6', 'leaky_relu', 'mish')
    if activation not in known:
      I.err(ValueError, 'Could not interpret activation function identifier: %s' % activation)
    if activation == 'linear':
      return Native('linear', lambda I, x: x)

    def act(I, x):
      t = TFM.tens(I, x)
      if activation in ('softmax',):
        # acts along the last axis
        return X.opaque_fn('act_' + activation, [t])
      return X.unary(t, 'act_' + activation)
    return Native('Activation', act)
  if activation is None:
    return Native('linear', lambda I, x: x)
  return Native('Activation', lambda I, x: I.call(activation, [x], {}))


KERAS = {
    'keras.layers.Layer': TypeV('keras.Layer', lambda v: False),
    'keras.layers.Activation': TypeV('keras.Activation', lambda v: False, activation),
}
KERAS['keras.Layer'] = KERAS['keras.layers.Layer']


# ----------------------------------------------------------------------------
# standard library

def _chain(I, *its):
  return PyGen((x for it in its for x in I.iter_live(it)))


def _product(I, *its, **kw):
  import itertools
  return Iter(list(itertools.product(*[iterate(I, x) for x in its] * cint(I, kw.get('repeat', 1)))))


def _accumulate(I, iterable, func=None, initial=None):
  def g():
    v = initial
    if v is not None:
      yield v
    for x in I.iter_live(iterable):
      if v is None:
        v = x
      else:
        v = I.binop('Add', v, x) if func is None else I.call(func, [v, x], {})
      yield v
  return PyGen(g())


def _islice(I, it, *a):
  import itertools
  return PyGen(itertools.islice(I.iter_live(it), *[None if x is None else cint(I, x) for x in a]))


def _zip_longest(I, *its, **kw):
  import itertools
  return Iter(list(itertools.zip_longest(*[iterate(I, x) for x in its], fillvalue=kw.get('fillvalue'))))


def _repeat(I, object, times=None):
  import itertools
  if times is None:
    return PyGen(itertools.repeat(object))
  return Iter([object] * cint(I, times))


def _pairwise(I, it):
  xs = iterate(I, it)
  return Iter(list(zip(xs, xs[1:])))


def _itercomb(name):
  def f(I, iterable, r=None):
    import itertools
    a = [] if r is None and name == 'permutations' else [cint(I, r)]
    return Iter(list(getattr(itertools, name)(iterate(I, iterable), *a)))
  return Native(name, f)


def _takewhile(I, predicate, iterable):
  def g():
    for x in I.iter_live(iterable):
      if not I.truth(I.call(predicate, [x], {})):
        return
      yield x
  return PyGen(g())


def _dropwhile(I, predicate, iterable):
  def g():
    drop = True
    for x in I.iter_live(iterable):
      drop = drop and I.truth(I.call(predicate, [x], {}))
      if not drop:
        yield x
  return PyGen(g())


def _filterfalse(I, predicate, iterable):
  return PyGen((x for x in I.iter_live(iterable)
                if not I.truth(x if predicate is None else I.call(predicate, [x], {}))))


def _cycle(I, iterable):
  import itertools
  return PyGen(itertools.cycle(iterate(I, iterable)))


def _compress(I, data, selectors):
  return Iter([x for x, s in zip(iterate(I, data), iterate(I, selectors)) if I.truth(s)])


def _tee(I, iterable, n=2):
  xs = iterate(I, iterable)
  return tuple(Iter(xs) for _ in range(cint(I, n)))


def _groupby(I, iterable, key=None):
  out = []
  for x in iterate(I, iterable):
    k = x if key is None else I.call(key, [x], {})
    if out and L.equal_vals(I, out[-1][0], k):
      out[-1][1].append(x)
    else:
      out.append((k, [x]))
  return Iter([(k, Iter(g)) for k, g in out])


def _starmap(I, f, it):
  return Iter([I.call(f, list(iterate(I, x)), {}) for x in iterate(I, it)])


def _reduce(I, function, iterable, initial=_MISSING):
  items = iterate(I, iterable)
  if initial is _MISSING:
    if not items:
      I.err(TypeError, 'reduce() of empty iterable with no initial value')
    v, items = items[0], items[1:]
  else:
    v = initial
  for x in items:
    v = I.call(function, [v, x], {})
  return v


def _partial(I, func, *args, **kw):
  return Native('partial', lambda I, *a, **k: I.call(func, list(args) + list(a), dict(kw, **k)))


def _wraps(I, wrapped, *a, **k):
  return Native('wraps', lambda I, f: f)


def _op(op):
  return Native('operator.' + op, lambda I, a, b: I.binop(op, a, b))


def _itemgetter(I, *idx):
  def g(I, o):
    r = [I.getitem(o, i) for i in idx]
    return r[0] if len(r) == 1 else tuple(r)
  return Native('itemgetter', g)


def _attrgetter(I, n):
  return Native('attrgetter', lambda I, o: I.getattr(o, n))


def _mprod(I, iterable, start=1):
  v = start
  for x in iterate(I, iterable):
    v = I.binop('Mult', v, x)
  return v


def _msqrt(I, x):
  n = num(I, x)
  if n is None:
    raise Unsupported('math.sqrt')
  return PyFloat(X.pow_const(L.scalar_t(n), Fraction(1, 2)))


def _mlog(I, x, *b):
  n = num(I, x)
  if n is None or b:
    raise Unsupported('math.log')
  return PyFloat(X.unary(L.scalar_t(n), 'log'))


def _copy(I, x):
  if isinstance(x, list):
    return list(x)
  if isinstance(x, dict):
    return dict(x)
  if isinstance(x, Arr):
    return Arr(x.shape, x.data, x.flavor, x.kind)
  if isinstance(x, Inst):
    i = Inst(x.cls)
    i.attrs.update(x.attrs)
    return i
  return x


def _deepcopy(I, x, memo=None):
  if isinstance(x, list):
    return [_deepcopy(I, y) for y in x]
  if isinstance(x, tuple):
    return tuple(_deepcopy(I, y) for y in x)
  if isinstance(x, dict):
    return {k: _deepcopy(I, y) for k, y in x.items()}
  if isinstance(x, Inst):
    i = Inst(x.cls)
    for k, v in x.attrs.items():
      i.attrs[k] = _deepcopy(I, v)
    return i
  return _copy(I, x)


def _is_real(v):
  return (isinstance(v, (int, Dim, PyFloat, Inf)))


def _gcd(I, *a):
  import math
  return math.gcd(*[cint(I, x) for x in a])


def _cmp(op):
  return Native('operator.' + op, lambda I, a, b: I.compare(op, a, b))


def _neg(I, a):
  return I.unop('USub', a)


def _setitem(I, a, b, c):
  I.setitem(a, b, c)


def _methodcaller(I, name, *a, **k):
  return Native('methodcaller', lambda I, o: I.call(I.getattr(o, name), list(a), dict(k)))


def _const(I, x, what):
  """The value of a number known during the analysis."""
  n = num(I, x)
  c = n.const() if isinstance(n, PyFloat) else n
  if c is None or isinstance(c, (Dim, Inf)):
    raise Unsupported('math.%s of a symbolic number' % what)
  return c


def _intfn(name):
  def f(I, x):
    import math
    n = num(I, x)
    if isinstance(n, (int, Dim)):
      return n
    return getattr(math, name)(_const(I, x, name))
  return Native(name, f)


def _comb(name):
  def f(I, *a):
    import math
    return getattr(math, name)(*[cint(I, x) for x in a])
  return Native(name, f)


def _log2(I, x):
  c = _const(I, x, 'log2')
  if isinstance(c, int) and c > 0 and c & (c - 1) == 0:
    return PyFloat(c.bit_length() - 1)
  raise Unsupported('math.log2')


def _isinf(I, x):
  n = num(I, x)
  return isinstance(n, Inf)


def _isclose(I, a, b, rel_tol=None, abs_tol=None):
  if I.truth(I.compare('Eq', a, b)):
    return True
  raise Unsupported('math.isclose')


def _fsum(I, seq):
  v = PyFloat(0)
  for x in iterate(I, seq):
    v = I.binop('Add', v, x)
  return v


def _namedtuple(I, typename, field_names, rename=False, defaults=None, module=None):
  if isinstance(field_names, str):
    field_names = field_names.replace(',', ' ').split()
  fields = [str(x) for x in iterate(I, field_names)]
  dfl = {} if defaults is None else dict(zip(fields[::-1], iterate(I, defaults)[::-1]))
  return namedtuple(typename, fields, dfl)


def namedtuple(tname, fields, defaults):
  def make(I, vals):
    r = NTuple(vals)
    r.ntype = t
    return r

  def call(I, *args, **kw):
    if len(args) > len(fields):
      I.err(TypeError, '%s() takes %d positional arguments but %d were given' % (tname, len(fields), len(args)))
    vals = dict(zip(fields, args))
    for k, v in kw.items():
      if k in vals or k not in fields:
        I.err(TypeError, "%s() got an unexpected keyword argument '%s'" % (tname, k))
      vals[k] = v
    for k in fields:
      if k not in vals:
        if k not in defaults:
          I.err(TypeError, "%s() missing required argument '%s'" % (tname, k))
        vals[k] = defaults[k]
    return make(I, [vals[k] for k in fields])
  t = TypeV(tname, lambda v: isinstance(v, NTuple) and v.ntype is t, call)
  t.fields = fields
  t.attrs['_fields'] = tuple(fields)
  t.attrs['_make'] = Native('_make', lambda I, it: make(I, iterate(I, it)))
  return t


class FieldV(object):
  """dataclasses.field(...)"""

  def __init__(self, default, factory, init):
    self.default, self.factory, self.init = default, factory, init


def _field(I, default=_MISSING, default_factory=_MISSING, init=True, repr=True, hash=None, compare=True,
           metadata=None, kw_only=False):
  return FieldV(default, default_factory, init)


def _dataclass(I, cls=None, **kw):
  if cls is None:
    return Native('dataclass', lambda I, c: _dataclass(I, c, **kw))
  import ast
  fields = {}
  for c in reversed(cls.mro()):
    for nm, has in getattr(c, 'fields', None) or []:
      fields[nm] = c.attrs.get(nm, _MISSING) if has else _MISSING
  env = Env(None)
  params, body = [], []
  for nm, v in fields.items():
    f = v if isinstance(v, FieldV) else FieldV(v, _MISSING, True)
    if f.default is not _MISSING:
      env.vars['_d_' + nm] = f.default
      cls.attrs[nm] = f.default
    if f.factory is not _MISSING:
      env.vars['_f_' + nm] = f.factory
      env.vars['_missing'] = Native('missing', None)
      cls.attrs.pop(nm, None)
    if not f.init:
      body.append('self.%s = %s' % (nm, '_f_%s()' % nm if f.factory is not _MISSING else '_d_' + nm))
      continue
    if f.factory is not _MISSING:
      params.append('%s=_missing' % nm)
      body.append('self.%s = _f_%s() if %s is _missing else %s' % (nm, nm, nm, nm))
    else:
      params.append(nm if f.default is _MISSING else '%s=_d_%s' % (nm, nm))
      body.append('self.%s = %s' % (nm, nm))
  if cls.lookup('__post_init__')[1] is not None:
    body.append('self.__post_init__()')
  star = '*, ' if kw.get('kw_only') and params else ''

  def add(src):
    node = ast.parse(src).body[0]
    fn = I.mkfunc(node, env)
    fn.module, fn.cls = cls.module, cls
    cls.attrs[node.name] = fn
  if '__init__' not in cls.attrs and kw.get('init', True):
    add('def __init__(self%s):\n%s' % (''.join(', ' + p for p in [star + params[0]] + params[1:]) if params else '',
                                       ''.join('  %s\n' % b for b in body or ['pass'])))
  if '__eq__' not in cls.attrs and kw.get('eq', True):
    tup = lambda o: '(' + ''.join('%s.%s, ' % (o, nm) for nm in fields) + ')'
    add('def __eq__(self, other):\n  return %s == %s\n' % (tup('self'), tup('other')))
  return cls


def _replace(I, obj, **kw):
  i = _copy(I, obj)
  i.attrs.update(kw)
  return i


def _contextmanager(I, func):
  return Native(getattr(func, 'name', 'contextmanager'), lambda I, *a, **k: GenCM(I, func, list(a), k))


class SuppressCM(CM):
  def __init__(self, I, types):
    self.I = I
    self.types = types
    self.value = None

  def failed(self, I, e):
    return any(isinstance(t, type) and isinstance(e.etype, type) and issubclass(e.etype, t) for t in self.types)


class StackCM(CM):
  """contextlib.ExitStack"""

  def __init__(self, I):
    self.I = I
    self.cms = []

  def enter(self):
    return self

  def exit(self):
    while self.cms:
      c = self.cms.pop()
      if isinstance(c, tuple):
        self.I.call(*c)
      else:
        self.I.exit(c)

  def failed(self, I, e):
    while self.cms:
      c = self.cms.pop()
      if isinstance(c, tuple):
        self.I.call(*c)
      elif self.I.exit(c, e):
        self.exit()
        return True
    return False

  def attr(self, I, name):
    if name == 'enter_context':
      def f(I, cm):
        v = I.enter(cm)
        self.cms.append(cm)
        return v
      return Native(name, f)
    if name == 'callback':
      return Native(name, lambda I, fn, *a, **k: self.cms.append((fn, list(a), k)))
    if name == 'close':
      return Native(name, lambda I: self.exit())
    raise Unsupported('ExitStack.%s' % name)


class ClosingCM(CM):
  def __init__(self, I, thing):
    self.I, self.value = I, thing

  def exit(self):
    self.I.call(self.I.getattr(self.value, 'close'), [], {})


def _defaultdict(I, default_factory=None, *a, **kw):
  d = DefDict(L.b_dict(I, *a, **kw))
  d.factory = default_factory
  return d


def _deque(I, iterable=(), maxlen=None):
  d = Deque(iterate(I, iterable))
  d.maxlen = None if maxlen is None else cint(I, maxlen)
  if d.maxlen is not None:
    del d[:max(0, len(d) - d.maxlen)]
  return d


def _counter(I, iterable=()):
  d = DefDict()
  for x in iterate(I, iterable):
    k = I.hashkey(x)
    d[k] = d.get(k, 0) + 1
  d.factory = T_INT_ZERO
  return d


T_INT_ZERO = Native('int', lambda I: 0)


def _cached_property(I, f):
  return PropV(f)


def _singledispatch(I, f):
  raise Unsupported('functools.singledispatch')


def _nat(name, fn):
  return Native(name, fn)


STDLIB = {
    'itertools': {'chain': Native('chain', _chain), 'count': Native('count', lambda I, start=0, step=1: Count(start, step)),
                  'product': Native('product', _product), 'accumulate': Native('accumulate', _accumulate),
                  'islice': Native('islice', _islice), 'zip_longest': Native('zip_longest', _zip_longest),
                  'repeat': Native('repeat', _repeat), 'starmap': Native('starmap', _starmap),
                  'pairwise': Native('pairwise', _pairwise), 'combinations': _itercomb('combinations'),
                  'permutations': _itercomb('permutations'),
                  'combinations_with_replacement': _itercomb('combinations_with_replacement'),
                  'takewhile': Native('takewhile', _takewhile), 'dropwhile': Native('dropwhile', _dropwhile),
                  'filterfalse': Native('filterfalse', _filterfalse), 'cycle': Native('cycle', _cycle),
                  'compress': Native('compress', _compress), 'tee': Native('tee', _tee),
                  'groupby': Native('groupby', _groupby)},
    'functools': {'reduce': Native('reduce', _reduce), 'partial': Native('partial', _partial),
                  'wraps': Native('wraps', _wraps), 'cache': Native('cache', lambda I, f: f),
                  'cached_property': Native('cached_property', _cached_property),
                  'lru_cache': Native('lru_cache', lambda I, *a, **k: a[0] if a and not isinstance(a[0], int) and a[0] is not None else Native('dec', lambda I, f: f))},
    'operator': {'add': _op('Add'), 'mul': _op('Mult'), 'sub': _op('Sub'), 'truediv': _op('Div'),
                 'matmul': _op('MatMult'), 'floordiv': _op('FloorDiv'), 'mod': _op('Mod'), 'pow': _op('Pow'),
                 'and_': _op('BitAnd'), 'or_': _op('BitOr'), 'xor': _op('BitXor'), 'concat': _op('Add'),
                 'iadd': _op('Add'), 'imul': _op('Mult'), 'isub': _op('Sub'), 'itruediv': _op('Div'),
                 'eq': _cmp('Eq'), 'ne': _cmp('NotEq'), 'lt': _cmp('Lt'), 'le': _cmp('LtE'), 'gt': _cmp('Gt'),
                 'ge': _cmp('GtE'), 'is_': _cmp('Is'), 'is_not': _cmp('IsNot'),
                 'contains': Native('contains', lambda I, a, b: I.compare('In', b, a)),
                 'neg': Native('neg', _neg), 'pos': Native('pos', lambda I, a: a),
                 'abs': Native('abs', lambda I, a: I.call(I.builtins['abs'], [a], {})),
                 'not_': Native('not_', lambda I, a: not I.truth(a)), 'truth': Native('truth', lambda I, a: I.truth(a)),
                 'index': Native('index', lambda I, a: L.b_int(I, a)),
                 'getitem': Native('getitem', lambda I, a, b: I.getitem(a, b)), 'setitem': Native('setitem', _setitem),
                 'itemgetter': Native('itemgetter', _itemgetter), 'attrgetter': Native('attrgetter', _attrgetter),
                 'methodcaller': Native('methodcaller', _methodcaller)},
    'math': {'prod': Native('prod', _mprod), 'sqrt': Native('sqrt', _msqrt), 'log': Native('log', _mlog),
             'gcd': Native('gcd', _gcd), 'inf': Inf(1), 'ceil': _intfn('ceil'), 'floor': _intfn('floor'),
             'trunc': _intfn('trunc'), 'comb': _comb('comb'), 'perm': _comb('perm'), 'factorial': _comb('factorial'),
             'isqrt': _comb('isqrt'), 'lcm': _comb('lcm'), 'log2': Native('log2', _log2),
             'isinf': Native('isinf', _isinf), 'isclose': Native('isclose', _isclose), 'fsum': Native('fsum', _fsum),
             'isfinite': Native('isfinite', lambda I, x: not _isinf(I, x)), 'isnan': Native('isnan', lambda I, x: False),
             'fabs': Native('fabs', lambda I, a: L.b_float(I, I.call(I.builtins['abs'], [a], {}))),
             'pow': Native('pow', lambda I, a, b: I.binop('Pow', L.b_float(I, a), b))},
    'numbers': {'Real': TypeV('numbers.Real', _is_real), 'Number': TypeV('numbers.Number', _is_real),
                'Integral': TypeV('numbers.Integral', lambda v: isinstance(v, (int, Dim)))},
    'copy': {'copy': Native('copy', _copy), 'deepcopy': Native('deepcopy', _deepcopy)},
    'contextlib': {'nullcontext': Native('nullcontext', lambda I, enter_result=None: CM(enter_result)),
                   'contextmanager': Native('contextmanager', _contextmanager),
                   'suppress': Native('suppress', lambda I, *a: SuppressCM(I, a)),
                   'ExitStack': Native('ExitStack', lambda I: StackCM(I)),
                   'closing': Native('closing', lambda I, thing: ClosingCM(I, thing))},
    'dataclasses': {'dataclass': Native('dataclass', _dataclass), 'field': Native('field', _field),
                    'replace': Native('replace', _replace)},
    'warnings': {'warn': Native('warn', lambda I, *a, **k: None)},
    'logging': {},
    'abc': {'abstractmethod': Native('abstractmethod', lambda I, f: f), 'ABC': TypeV('object', lambda v: True)},
    'typing': {'cast': Native('cast', lambda I, typ, val: val), 'TypeVar': Native('TypeVar', lambda I, *a, **k: LibObj('typing.Any')),
               'TYPE_CHECKING': False, 'NewType': Native('NewType', lambda I, n, t: t),
               'overload': Native('overload', lambda I, f: f), 'no_type_check': Native('no_type_check', lambda I, f: f)},
    'collections': {'namedtuple': Native('namedtuple', _namedtuple), 'OrderedDict': Native('OrderedDict', lambda I, *a, **k: L.b_dict(I, *a, **k)),
                    'defaultdict': Native('defaultdict', _defaultdict), 'deque': Native('deque', _deque),
                    'Counter': Native('Counter', _counter)},
    'sys': {}, 'os': {}, '__future__': {}, 'builtins': {},
}
