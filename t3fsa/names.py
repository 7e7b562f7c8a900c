"""C29: every reference resolves (names, imports, attribute chains, signatures,
exports) against the repository and the sources of the installed packages."""
import ast
import builtins
import functools
import importlib
import os
import re
import sys

from . import cases as C
from .driver import Ob, Violated, REPO, PKG
from .interp import Program
from .lib import SITE
from .library import top_names, TFROOT
from .rules import rule
from .values import *  # noqa

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'}


# -- files of the installed packages ------------------------------------------

_trees = {}


def tree(path):
  if path not in _trees:
    try:
      with open(path, encoding='utf-8') as h:
        _trees[path] = ast.parse(h.read())
    except (OSError, SyntaxError, ValueError):
      _trees[path] = None
  return _trees[path]


def _first(*paths):
  for p in paths:
    if os.path.exists(p):
      return p
  return None


def package_file(name):
  """File of an installed module, None when there is none, '' when unknown."""
  parts = name.split('.')
  if parts[0] == 'tensorflow':
    sub = parts[1:]
    if sub[:1] == ['keras']:
      return _first(os.path.join(SITE, 'keras', '_tf_keras', 'keras', *(sub[1:] + ['__init__.py'])))
    if sub[:1] == ['python']:
      return _first(os.path.join(TFROOT, *sub) + '.py', os.path.join(TFROOT, *(sub + ['__init__.py'])))
    if not sub:
      return os.path.join(TFROOT, '__init__.py')
    if sub[:2] == ['compat', 'v2']:
      sub = sub[2:]
    return _first(os.path.join(TFROOT, '_api', 'v2', *(sub + ['__init__.py'])))
  if parts[0] in sys.stdlib_module_names:
    return ''
  base = os.path.join(SITE, *parts)
  return _first(os.path.join(base, '__init__.pyi'), base + '.pyi', os.path.join(base, '__init__.py'), base + '.py')


LAZY = {'tensorflow': {'keras', 'estimator', 'losses', 'metrics', 'optimizers', 'initializers', 'python', 'compat',
                       '__version__', 'version'}}


class Ref(object):
  """What an expression refers to: kind in module, repo, func, class, lib, unknown."""

  def __init__(self, kind, name, node=None, module=None):
    self.kind = kind
    self.name = name
    self.node = node
    self.module = module


UNKNOWN = Ref('unknown', '?')


class Repo(object):
  """The syntax trees of the analysed package."""

  def __init__(self, prog):
    self.pkg = prog.pkg
    self.mods = {m: prog.tree(m) for m in prog.files}
    self.files = prog.files
    self.globals = {m: bound(t.body) for m, t in self.mods.items()}
    self.classes = {}
    for m, t in self.mods.items():
      for s in t.body:
        if isinstance(s, ast.ClassDef):
          self.classes[s.name] = (m, s)
    self.attrs = {c: class_attrs(n) for c, (_, n) in self.classes.items()}
    self.assigned = set()          # attributes set on any object
    for t in self.mods.values():
      for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
          self.assigned.add(n.attr)
        elif isinstance(n, ast.Call) and base_name(n.func) in ('namedtuple', 'NamedTuple', 'setattr', 'make_dataclass'):
          for x in ast.walk(n):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
              self.assigned.update(x.value.replace(',', ' ').split())

  # -- resolution of module attributes ------------------------------------------
  def attr(self, ref, name):
    """(Ref, error text or None) for ref.name."""
    if ref.kind == 'repo':
      full = '%s.%s' % (ref.name, name)
      g = self.globals[ref.name]
      if name in g:
        return self.resolve_binding(ref.name, name, g[name]), None
      if full in self.mods and ref.name == self.pkg:
        return Ref('repo', full), None
      if name.startswith('__'):
        return UNKNOWN, None
      return None, "module '%s' has no attribute '%s'" % (ref.name, name)
    if ref.kind == 'module':
      return lib_attr(ref.name, name)
    return UNKNOWN, None

  def resolve_binding(self, mod, name, b, depth=0):
    kind, node = b
    if kind == 'def':
      return Ref('func', name, node, mod)
    if kind == 'class':
      return Ref('class', name, node, mod)
    if kind == 'import' and depth < 6:
      ref, _ = self.imported(node, name)
      return ref or UNKNOWN
    return UNKNOWN

  def imported(self, node, name):
    """(Ref, error) of the name bound by an import statement."""
    if isinstance(node, ast.Import):
      for a in node.names:
        if (a.asname or a.name.split('.')[0]) == name:
          full = a.name if a.asname else a.name.split('.')[0]
          return self.module(a.name, full)
      return UNKNOWN, None
    for a in node.names:
      if (a.asname or a.name) == name:
        m, e = self.module(node.module, node.module)
        if e or m is None:
          return None, e
        sub = '%s.%s' % (node.module, a.name)
        if m.kind == 'repo':
          if sub in self.mods and a.name not in self.globals[m.name]:
            return Ref('repo', sub), None
          r, e = self.attr(m, a.name)
          return r, e and "cannot import name '%s' from '%s'" % (a.name, node.module)
        if m.kind == 'module':
          r, e = lib_attr(m.name, a.name)
          return r, e and "cannot import name '%s' from '%s'" % (a.name, node.module)
        return UNKNOWN, None
    return UNKNOWN, None

  def module(self, name, result):
    if name.split('.')[0] == self.pkg:
      if name not in self.mods:
        return None, "no module named '%s'" % name
      return Ref('repo', result), None
    f = package_file(name)
    if f is None:
      parent = name.rsplit('.', 1)
      if len(parent) == 2 and package_file(parent[0]) is None:
        return None, "no module named '%s'" % name
      if len(parent) == 1:
        return (None, "no module named '%s'" % name) if not os.path.isdir(os.path.join(SITE, name)) else (UNKNOWN, None)
      return None, "no module named '%s'" % name
    return Ref('module', result), None


def lib_attr(mod, name):
  """(Ref, error) for an attribute of an installed module."""
  root = mod.split('.')[0]
  if root in sys.stdlib_module_names:
    import importlib
    try:
      m = importlib.import_module(mod)
    except ImportError:
      return None, "no module named '%s'" % mod
    if hasattr(m, name):
      return Ref('lib', '%s.%s' % (mod, name)), None
    return None, "module '%s' has no attribute '%s'" % (mod, name)
  full = '%s.%s' % (mod, name)
  sub = package_file(full)
  f = package_file(mod)
  names = top_names(f) if f else None
  if names is not None and '*' in names:
    names = None
  if names is not None and name in names:
    d = lib_def(f, name)
    if d is not None:
      return d, None
    if sub and root == 'tensorflow' and not mod.startswith('tensorflow.python'):
      return Ref('module', full), None
    if sub:
      return Ref('module', full), None
    return Ref('lib', full), None
  if sub:
    return Ref('module', full), None
  if names is None or name in LAZY.get(mod, ()) or name.startswith('__'):
    return UNKNOWN, None
  return None, "module '%s' has no attribute '%s'" % (mod, name)


def lib_def(path, name, depth=0):
  """The function or class a name in an installed file stands for (by import chain)."""
  t = tree(path)
  if t is None or depth > 4 or path.endswith('.pyi'):
    return None
  found = None
  for s in ast.walk(t) if depth else t.body:
    if isinstance(s, ast.ImportFrom) and s.module and not s.level:
      for a in s.names:
        if (a.asname or a.name) == name:
          p = package_file(s.module)
          if p and os.path.isfile(p):
            found = lib_def(p, a.name, depth + 1)
    elif isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name and s in t.body:
      found = Ref('func' if isinstance(s, ast.FunctionDef) else 'class', name, s, path)
    elif isinstance(s, ast.Assign) and s in t.body and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
      found = None
      v = s.value
      if isinstance(v, ast.Name):
        found = lib_def(path, v.id, depth + 1)
  return found


# -- scopes -------------------------------------------------------------------

def bound(body):
  """name -> (kind, node) bound by the statements (not in nested functions)."""
  out = {}

  def put(name, kind, node):
    # a name bound in several ways can stand for any of them
    out[name] = (kind, node) if name not in out else ('var', node)

  def target(t):
    for n in ast.walk(t):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        put(n.id, 'var', n)

  def visit(ss):
    for s in ss:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        put(s.name, 'def', s)
      elif isinstance(s, ast.ClassDef):
        put(s.name, 'class', s)
      elif isinstance(s, (ast.Import, ast.ImportFrom)):
        for a in s.names:
          put(a.asname or (a.name.split('.')[0] if isinstance(s, ast.Import) else a.name), 'import', s)
      else:
        for n in ast.iter_child_nodes(s):
          if isinstance(n, ast.expr):
            walrus(n)
        if isinstance(s, ast.Assign):
          for t in s.targets:
            target(t)
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
          target(s.target)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
          target(s.target)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
          for i in s.items:
            if i.optional_vars is not None:
              target(i.optional_vars)
        for f in ('body', 'orelse', 'finalbody'):
          visit(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []) or []:
          if h.name:
            put(h.name, 'var', h)
          visit(h.body)
        for c in getattr(s, 'cases', []) or []:
          for n in ast.walk(c.pattern):
            if getattr(n, 'name', None):
              put(n.name, 'var', n)
          visit(c.body)

  def walrus(e):
    for n in ast.walk(e):
      if isinstance(n, ast.NamedExpr):
        put(n.target.id, 'var', n)
  visit(body)
  return out


def params(a):
  return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def class_attrs(node):
  out = set(bound(node.body))
  for n in ast.walk(node):
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
        and n.value.id in ('self', 'cls'):
      out.add(n.attr)
  return out


# -- attributes of objects of unknown class ------------------------------------

OBJECT_FILES = (
    'tensorflow/python/framework/tensor.py', 'tensorflow/python/framework/ops.py',
    'tensorflow/python/framework/tensor_shape.py', 'tensorflow/python/framework/dtypes.py',
    'tensorflow/python/framework/sparse_tensor.py', 'tensorflow/python/ops/resource_variable_ops.py',
    'tensorflow/python/ops/variables.py', 'tensorflow/python/ops/variable_scope.py',
    'tensorflow/python/eager/backprop.py', 'tensorflow/python/framework/indexed_slices.py',
    'tensorflow/python/client/session.py', 'tensorflow/python/ops/math_ops.py',
    'tensorflow/python/ops/numpy_ops/np_array_ops.py', 'tensorflow/core/protobuf/config_pb2.py',
    'numpy/__init__.pyi', 'numpy/ma/core.py',
    'keras/src/layers/layer.py', 'keras/src/ops/operation.py', 'keras/src/backend/tensorflow/layer.py',
    'keras/src/backend/tensorflow/core.py', 'keras/src/backend/common/variables.py', 'keras/src/saving/keras_saveable.py',
    'keras/src/models/model.py', 'keras/src/models/sequential.py', 'keras/src/backend/tensorflow/trainer.py',
    'tensorflow/python/trackable/autotrackable.py', 'tensorflow/python/trackable/base.py')
# attributes of classes implemented in C
NATIVE = {'name', 'op', 'dtype', 'shape', 'ndim', 'size', 'is_floating', 'is_complex', 'is_integer', 'as_numpy_dtype',
          'as_datatype_enum', 'base_dtype', 'real_dtype', 'min', 'max', 'limits', 'is_compatible_with', 'graph', 'device',
          'value_index', 'get_shape', 'set_shape', 'consumers', 'numpy', 'T', 'eval', 'real', 'imag'}

# standard library modules whose classes may be used, and installed modules
# that define the named tuples operations return
STDLIB = ('collections', 'itertools', 'functools', 'operator', 're', 'fractions', 'decimal', 'dataclasses', 'enum',
          'contextlib', 'string', 'types', 'typing', 'abc', 'inspect', 'weakref', 'threading', 'random', 'heapq', 'bisect',
          'array', 'queue', 'numbers', 'datetime', 'pathlib', 'logging', 'warnings', 'io', 'os', 'copy', 'math', 'time')
TUPLE_FILES = (
    'tensorflow/python/ops/gen_linalg_ops.py', 'tensorflow/python/ops/gen_array_ops.py',
    'tensorflow/python/ops/gen_math_ops.py', 'tensorflow/python/ops/gen_nn_ops.py', 'numpy/linalg/linalg.py',
    'numpy/linalg/_linalg.py')

_object_attrs = None


def object_attrs():
  global _object_attrs
  if _object_attrs is None:
    out = set(NATIVE)
    for v in (0, 0.0, 0j, '', b'', [], (), {}, set(), object(), type, print, lambda: 0, BaseException(), range(1),
              iter([]), (x for x in []), slice(1), True, super):
      out |= set(dir(v))
    out |= set(dir(property)) | set(dir(params)) | {'__func__', '__self__'}
    for f in OBJECT_FILES:
      t = tree(os.path.join(SITE, f))
      if t is None:
        continue
      for c in ast.walk(t):
        if isinstance(c, ast.ClassDef):
          out |= class_attrs(c)
          for n in ast.walk(c):
            if isinstance(n, ast.FunctionDef):
              out.add(n.name)
        elif isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) == 3 \
            and isinstance(c.args[1], ast.Constant):
          out.add(c.args[1].value)
        elif isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store):
          out.add(c.attr)
    for m in STDLIB:
      for v in vars(importlib.import_module(m)).values():
        if isinstance(v, type):
          out |= set(dir(v))
    for v in (re.compile(''), re.match('', ''), functools.partial(print), functools.lru_cache(None)(lambda: 0)):
      out |= set(dir(v))
    for f in TUPLE_FILES:
      for c in ast.walk(tree(os.path.join(SITE, f)) or ast.Module([], [])):
        if isinstance(c, ast.ClassDef):
          out |= class_attrs(c)
        elif isinstance(c, ast.Call) and base_name(c.func) == 'namedtuple':
          out.update(x.value for x in ast.walk(c) if isinstance(x, ast.Constant) and isinstance(x.value, str))
    _object_attrs = out
  return _object_attrs


# -- signatures ---------------------------------------------------------------

def accepts(fn, npos, kws, star, dstar, bound_self):
  """None, or why a call does not fit the signature of a FunctionDef."""
  a = fn.args
  pos = [x.arg for x in a.posonlyargs + a.args]
  if bound_self and pos:
    pos = pos[1:]
  kwo = [x.arg for x in a.kwonlyargs]
  if npos > len(pos) and a.vararg is None:
    return '%d positional arguments given, %s takes %d' % (npos, fn.name, len(pos))
  posonly = set(x.arg for x in a.posonlyargs)
  for k in kws:
    if k in pos and k not in posonly:
      if pos.index(k) < npos:
        return "multiple values for argument '%s' of %s" % (k, fn.name)
    elif k not in kwo and a.kwarg is None:
      return "%s has no argument '%s'" % (fn.name, k)
  if not star and not dstar:
    nd = len(a.defaults)
    need = pos[:len(pos) - nd] if nd else pos
    miss = [p for i, p in enumerate(need) if i >= npos and p not in kws]
    miss += [p for p, d in zip(kwo, a.kw_defaults) if d is None and p not in kws]
    if miss:
      return "argument '%s' of %s is missing" % (miss[0], fn.name)
  return None


def constructor(repo, ref):
  """FunctionDef of __init__ (or __new__) of a class, or None when it is inherited from elsewhere."""
  if ref.node is None:
    return None
  for b in ref.node.body:
    if isinstance(b, ast.FunctionDef) and b.name == '__init__':
      return b
  if ref.module in repo.mods and len(ref.node.bases) == 1:
    b = ref.node.bases[0]
    if isinstance(b, ast.Name) and b.id in repo.classes:
      m, n = repo.classes[b.id]
      return constructor(repo, Ref('class', b.id, n, m))
  return None


def method_defs(repo, name):
  out = []
  for c, (m, n) in repo.classes.items():
    for b in n.body:
      if isinstance(b, ast.FunctionDef) and b.name == name:
        out.append(b)
  return out


# -- the walk -----------------------------------------------------------------

def base_name(b):
  return b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?'


class Scope(object):

  def __init__(self, names, parent=None, cls=None):
    self.names = names
    self.parent = parent
    self.cls = cls               # class whose body this is


class Walker(object):
  """Checks the references in one top-level definition (or module body)."""

  def __init__(self, repo, mod):
    self.repo = repo
    self.mod = mod
    self.file = repo.files[mod]
    self.bad = []
    self.counts = {'names': 0, 'attributes': 0, 'calls': 0, 'imports': 0}
    self.where = '<module>'
    self.cls = None

  def err(self, node, msg):
    self.bad.append(('%s:%d %s' % (self.file, node.lineno, self.where), msg))

  # names
  def lookup(self, scope, name):
    s = scope
    while s is not None:
      if name in s.names and not (s.cls is not None and s is not scope):
        return s.names[name]
      s = s.parent
    return None

  def ref(self, e, scope):
    """Ref of an expression, following module attributes only."""
    if isinstance(e, ast.Name):
      b = self.lookup(scope, e.id)
      if b is None:
        return UNKNOWN
      if b[0] == 'import':
        r, _ = self.repo.imported(b[1], e.id)
        return r or UNKNOWN
      if b[0] == 'def':
        return Ref('func', e.id, b[1], self.mod)
      if b[0] == 'class':
        return Ref('class', e.id, b[1], self.mod)
      return UNKNOWN
    if isinstance(e, ast.Attribute):
      r = self.ref(e.value, scope)
      if r.kind in ('repo', 'module'):
        x, _ = self.repo.attr(r, e.attr)
        return x or UNKNOWN
      return UNKNOWN
    return UNKNOWN

  def body(self, body, scope):
    for s in body:
      self.visit(s, scope)

  def visit(self, n, scope):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
      return self.function(n, scope)
    if isinstance(n, ast.ClassDef):
      for e in n.bases + [k.value for k in n.keywords] + n.decorator_list:
        self.visit(e, scope)
      old, oldw = self.cls, self.where
      self.cls = getattr(n, 'whole', n)
      self.where = n.name
      self.body(n.body, Scope(bound(self.cls.body), scope, n))
      self.cls, self.where = old, oldw
      return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
      inner = {}
      sc = Scope(inner, scope)
      for i, g in enumerate(n.generators):
        self.visit(g.iter, scope if i == 0 else sc)
        for t in ast.walk(g.target):
          if isinstance(t, ast.Name):
            inner[t.id] = ('var', t)
        for c in g.ifs:
          self.visit(c, sc)
      for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
        self.visit(e, sc)
      return
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      for a in n.names:
        self.counts['imports'] += 1
        if isinstance(n, ast.ImportFrom) and n.level:
          continue
        nm = a.asname or (a.name.split('.')[0] if isinstance(n, ast.Import) else a.name)
        if a.name == '*':
          continue
        _, e = self.repo.imported(n, nm)
        if e and not self.guarded:
          self.err(n, e)
      return
    if isinstance(n, ast.Try):
      names = set()
      for h in n.handlers:
        for x in ast.walk(h.type) if h.type is not None else []:
          if isinstance(x, ast.Name):
            names.add(x.id)
        if h.type is None:
          names.add('Exception')
      old = self.guarded
      self.guarded = old | names
      self.body(n.body, scope)
      self.guarded = old
      for h in n.handlers:
        if h.type is not None:
          self.visit(h.type, scope)
        self.body(h.body, scope)
      self.body(n.orelse, scope)
      self.body(n.finalbody, scope)
      return
    if isinstance(n, ast.Name):
      if isinstance(n.ctx, (ast.Load, ast.Del)):
        self.counts['names'] += 1
        if self.lookup(scope, n.id) is None and n.id not in BUILTINS and n.id not in self.globals_():
          if not (self.cls is not None and n.id == '__class__') and not self.guarded & {'NameError', 'Exception'}:
            self.err(n, "name '%s' is not defined" % n.id)
      return
    if isinstance(n, ast.Attribute):
      self.attribute(n, scope)
      self.visit(n.value, scope)
      return
    if isinstance(n, ast.Call):
      self.call(n, scope)
    for c in ast.iter_child_nodes(n):
      self.visit(c, scope)

  guarded = frozenset()

  def globals_(self):
    """Names declared global somewhere in the module."""
    out = set()
    for n in ast.walk(self.repo.mods[self.mod]):
      if isinstance(n, ast.Global):
        out.update(n.names)
    return out

  def function(self, n, scope):
    for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
      self.visit(d, scope)
    if isinstance(n, ast.Lambda):
      names = {p: ('var', n) for p in params(n.args)}
      for w in ast.walk(n.body):
        if isinstance(w, ast.NamedExpr):
          names[w.target.id] = ('var', w)
      self.visit(n.body, Scope(names, scope))
      return
    for d in n.decorator_list:
      self.visit(d, scope)
    for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
      if x.annotation is not None:
        self.visit(x.annotation, scope)
    names = {p: ('var', n) for p in params(n.args)}
    local = bound(n.body)
    for s in ast.walk(n):
      if isinstance(s, (ast.Global, ast.Nonlocal)):
        for g in s.names:
          local.pop(g, None)
    names.update(local)
    old = self.where
    self.where = '%s.%s' % (self.cls.name, n.name) if self.cls is not None else n.name
    self.body(n.body, Scope(names, scope))
    self.unbound(n, set(local) - set(params(n.args)))
    self.where = old

  def attribute(self, n, scope):
    self.counts['attributes'] += 1
    r = self.ref(n.value, scope)
    if r.kind in ('repo', 'module'):
      if isinstance(n.ctx, ast.Load):
        _, e = self.repo.attr(r, n.attr)
        if e and not self.guarded & {'AttributeError', 'Exception'} and not self.set_by_assignment(r, n.attr):
          self.err(n, e)
      return
    if r.kind == 'class' and r.module in self.repo.mods:
      if not self.has(r.node, n.attr):
        self.err(n, "class %s has no attribute '%s'" % (r.name, n.attr))
      return
    if r.kind != 'unknown' or not isinstance(n.ctx, ast.Load) or self.guarded & {'AttributeError', 'Exception'}:
      return
    if isinstance(n.value, ast.Name) and n.value.id == 'self' and self.cls is not None:
      if not self.has(self.cls, n.attr):
        self.err(n, "%s has no attribute '%s'" % (self.cls.name, n.attr))
      return
    if n.attr not in object_attrs() and n.attr not in self.repo.assigned and \
        not any(n.attr in a for a in self.repo.attrs.values()):
      self.err(n, "no class has an attribute '%s'" % n.attr)

  def set_by_assignment(self, r, attr):
    return attr in self.repo.assigned

  def has(self, cls, attr):
    """The class, one of its bases or one of its subclasses has the attribute."""
    names = {cls.name}
    external = False
    todo = [cls]
    while todo:
      c = todo.pop()
      for b in map(base_name, c.bases):
        if b in self.repo.classes:
          if b not in names:
            names.add(b)
            todo.append(self.repo.classes[b][1])
        elif b != 'object':
          external = True
    sub = {cls.name}
    grown = True
    while grown:
      grown = False
      for c, (_, n) in self.repo.classes.items():
        if c not in sub and sub & set(map(base_name, n.bases)):
          sub.add(c)
          grown = True
    names |= sub
    if any(attr in self.repo.attrs.get(c, ()) for c in names) or attr in class_attrs(cls):
      return True
    if attr in dir(object) or attr in ('__name__', '__dict__', '__module__'):
      return True
    return external and attr in object_attrs()

  def call(self, n, scope):
    npos = len([a for a in n.args if not isinstance(a, ast.Starred)])
    star = any(isinstance(a, ast.Starred) for a in n.args)
    kws = [k.arg for k in n.keywords if k.arg]
    dstar = any(k.arg is None for k in n.keywords)
    r = self.ref(n.func, scope)
    fn = None
    self_ = False
    if r.kind == 'func':
      fn = r.node
      if r.module in self.repo.mods and fn.decorator_list:
        fn = None
    elif r.kind == 'class':
      fn = constructor(self.repo, r)
      self_ = True
    elif isinstance(n.func, ast.Attribute) and r.kind == 'unknown':
      base = self.ref(n.func.value, scope)
      if base.kind == 'class':
        return
      defs = method_defs(self.repo, n.func.attr)
      if defs and n.func.attr not in object_attrs() and not any(d.decorator_list for d in defs):
        self.counts['calls'] += 1
        why = [accepts(d, npos, kws, star, dstar, True) for d in defs]
        if all(why):
          self.err(n, why[0])
      return
    elif isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) == 2 and \
        isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
      fake = ast.Attribute(value=n.args[0], attr=n.args[1].value, ctx=ast.Load(), lineno=n.lineno, col_offset=0)
      self.attribute(fake, scope)
      return
    if fn is None:
      return
    self.counts['calls'] += 1
    why = accepts(fn, npos, kws, star, dstar, self_)
    if why:
      self.err(n, why)

  # -- names that no assignment reaches -------------------------------------------
  def unbound(self, fn, local):
    """Uses of local variables that are unbound on every path to them."""
    def uses(e, may):
      for x in own(e):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in local and x.id not in may:
          self.err(x, "local variable '%s' is used before any assignment reaches it" % x.id)

    def stores(e, may):
      for x in ast.walk(e):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
          may.add(x.id)
        elif isinstance(x, ast.NamedExpr):
          may.add(x.target.id)

    def run(body, may):
      for s in body:
        may = stmt(s, may)
      return may

    def stmt(s, may):
      if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return may | {s.name}
      if isinstance(s, (ast.Import, ast.ImportFrom)):
        return may | {a.asname or a.name.split('.')[0] for a in s.names}
      may = set(may)
      if isinstance(s, ast.If):
        uses(s.test, may)
        stores(s.test, may)
        return run(s.body, may) | run(s.orelse, may)
      if isinstance(s, (ast.For, ast.While)):
        if isinstance(s, ast.For):
          uses(s.iter, may)
          stores(s.target, may)
        else:
          # everything the body stores may be bound in the test of a later round
          uses(s.test, may)
        inner = set(may)
        for x in s.body:
          stores(x, inner)
        run(s.body, inner)
        return run(s.orelse, inner) | inner
      if isinstance(s, ast.With):
        for i in s.items:
          uses(i.context_expr, may)
          if i.optional_vars is not None:
            stores(i.optional_vars, may)
        return run(s.body, may)
      if isinstance(s, ast.Try):
        inner = run(s.body, may)
        out = set(inner)
        for h in s.handlers:
          hm = set(inner)
          if h.name:
            hm.add(h.name)
          out |= run(h.body, hm)
        out |= run(s.orelse, inner)
        return run(s.finalbody, out)
      if isinstance(s, ast.AugAssign):
        if isinstance(s.target, ast.Name) and s.target.id in local and s.target.id not in may:
          self.err(s, "local variable '%s' is used before any assignment reaches it" % s.target.id)
      uses(s, may)
      stores(s, may)
      return may
    run(fn.body, set())


def own(e):
  """Nodes evaluated with e itself (not in nested functions)."""
  todo = [e]
  while todo:
    x = todo.pop()
    yield x
    if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      # comprehensions run at once, but their targets are local to them
      if not isinstance(x, (ast.Lambda, ast.FunctionDef)):
        todo.append(x.generators[0].iter)
      continue
    todo.extend(ast.iter_child_nodes(x))


# -- public names ---------------------------------------------------------------

PUBLIC = {
    'tensor_train_base': ['TensorTrainBase'],
    'tensor_train': ['TensorTrain'],
    'tensor_train_batch': ['TensorTrainBatch'],
    'variables': ['assign', 'get_variable'],
    'ops': ['add', 'cast', 'flat_inner', 'frobenius_norm', 'frobenius_norm_squared', 'full', 'matmul', 'multiply',
            'quadratic_form', 'bilinear_form', 'transpose', 'gather_nd', 'renormalize_tt_cores'],
    'batch_ops': ['concat_along_batch_dim', 'gram_matrix', 'multiply_along_batch_dim', 'pairwise_flat_inner'],
    'initializers': ['matrix_with_random_cores', 'matrix_batch_with_random_cores', 'tensor_with_random_cores',
                     'tensor_batch_with_random_cores', 'random_tensor', 'random_tensor_batch', 'random_matrix',
                     'random_matrix_batch', 'tensor_ones', 'tensor_zeros', 'matrix_ones', 'matrix_zeros', 'eye',
                     'ones_like', 'zeros_like', 'glorot_initializer', 'he_initializer', 'lecun_initializer'],
    'regularizers': ['cores_regularizer', 'l2_regularizer'],
    'riemannian': ['add_n_projected', 'pairwise_flat_inner_projected', 'project', 'project_matmul', 'project_sum',
                   'tangent_space_to_deltas'],
    'shapes': ['batch_size', 'clean_raw_shape', 'expand_batch_dim', 'is_batch_broadcasting_possible', 'lazy_batch_size',
               'lazy_raw_shape', 'lazy_shape', 'lazy_tt_ranks', 'raw_shape', 'shape', 'squeeze_batch_dim', 'tt_ranks'],
    'decompositions': ['orthogonalize_tt_cores', 'round', 'to_tt_matrix', 'to_tt_tensor'],
    'autodiff': ['gradients', 'hessian_vector_product'],
}
MODULES = {
    'approximate': ['add_n', 'reduce_sum_batch'],
    'kronecker': ['determinant', 'slog_determinant', 'inv', 'cholesky'],
    'nn': ['KerasDense'],
    'utils': ['unravel_index', 'replace_tf_svd_with_np_svd', 'in_eager_mode'],
}


def units(repo, mod):
  """(name, statements) of a module: one per definition, the rest together."""
  rest = []
  for s in repo.mods[mod].body:
    if isinstance(s, ast.FunctionDef):
      yield s.name, [s]
    elif isinstance(s, ast.ClassDef):
      for b in s.body:
        if isinstance(b, ast.FunctionDef):
          shell = ast.ClassDef(name=s.name, bases=[], keywords=[], body=[b], decorator_list=[])
          shell.whole = s
          yield '%s.%s' % (s.name, b.name), [ast.copy_location(shell, s)]
      shell = ast.ClassDef(name=s.name, bases=s.bases, keywords=s.keywords, decorator_list=s.decorator_list,
                           body=[b for b in s.body if not isinstance(b, ast.FunctionDef)])
      shell.whole = s
      rest.append(ast.copy_location(shell, s))
    else:
      rest.append(s)
  yield '<module>', rest


def resolve(repo, mod, name, depth=0):
  """Definition a module-level name stands for, through imports and aliases."""
  b = repo.globals.get(mod, {}).get(name)
  if b is None:
    return Ref('repo', '%s.%s' % (mod, name)) if '%s.%s' % (mod, name) in repo.mods else None
  if b[0] == 'import':
    r, _ = repo.imported(b[1], name)
    return r
  if b[0] in ('def', 'class'):
    return Ref('func' if b[0] == 'def' else 'class', name, b[1], mod)
  return UNKNOWN


REFERENCE_ERRORS = (NameError, AttributeError, ImportError)


@rule('C29')
def references(tier):
  repo = Repo(Program(REPO, PKG))
  obs = []
  for mod in sorted(repo.mods):
    for name, body in units(repo, mod):
      def fn(W, mod=mod, body=body):
        w = Walker(repo, mod)
        w.body(body, Scope(repo.globals[mod]))
        W.checked += sum(w.counts.values())
        if w.bad:
          W.bad('; '.join(m for _, m in w.bad[:3]), [x for x, _ in w.bad[:3]])
      obs.append(Ob('C29', 'references in %s %s' % (repo.files[mod], name), fn))
  public = set(n for v in PUBLIC.values() for n in v)
  for m in sorted(PUBLIC):
    for n in PUBLIC[m]:
      def fn(W, m=m, n=n):
        W.checked += 1
        r = resolve(repo, PKG, n)
        if r is None:
          W.bad('%s.%s is not exported' % (PKG, n), [repo.files[PKG]])
        if r.kind not in ('func', 'class', 'unknown'):
          W.bad('%s.%s is a %s' % (PKG, n, r.kind), [repo.files[PKG]])
        if r.node is not None and r.node.name != n and r.node.name in public:
          W.bad('%s.%s is bound to %s' % (PKG, n, r.node.name), ['%s:%d' % (repo.files[r.module], r.node.lineno)])
        v = W.fn(n)
        k = FuncV if n[0].islower() else ClassV
        if not isinstance(v, k):
          W.bad('%s.%s is a %s' % (PKG, n, W.I.typename(v)), [repo.files[PKG]])
        if isinstance(v, (FuncV, ClassV)) and v.name != n and v.name in public:
          W.bad('%s.%s is bound to %s' % (PKG, n, v.name), [repo.files[PKG]])
        if n not in W.attr(W.t3f, '__all__'):
          W.bad('%s is not in __all__' % n, [repo.files[PKG]])
      obs.append(Ob('C29', 'export %s' % n, fn))
  for m in sorted(MODULES):
    for n in MODULES[m]:
      def fn(W, m=m, n=n):
        W.checked += 1
        v = W.fn('%s.%s' % (m, n))
        if not isinstance(v, (FuncV, ClassV)):
          W.bad('%s.%s.%s is a %s' % (PKG, m, n, W.I.typename(v)), [repo.files[PKG]])
        if m not in W.attr(W.t3f, '__all__'):
          W.bad('%s is not in __all__' % m, [repo.files[PKG]])
      obs.append(Ob('C29', 'export %s.%s' % (m, n), fn))
  for c in C.CASES:
    ks = c.contexts + (c.more if tier == 'thorough' else [])
    if len(ks) > 60 and tier != 'thorough':
      ks = ks[::len(ks) // 40]
    for k in ks:
      for eager in (True, False):
        def fn(W, c=c, k=k):
          W.guard = located
          try:
            run = c.fn(W, k)
            if run is not None:
              run.call(W)
          except Missing as e:
            W.bad('%s: %s' % (e.e.etype.__name__, e.e.msg[:300]), e.e.where)
          except (Violated, PyRaise):
            pass             # other properties look at these
          W.checked += 1
        obs.append(Ob('C29', 'path %s [%s]%s' % (c.name, k, '' if eager else ' traced'), fn, eager=eager, setup=c.setup))
  return obs


class Missing(Exception):
  def __init__(self, e):
    Exception.__init__(self)
    self.e = e


def located(args, kw, f):
  try:
    return f()
  except PyRaise as e:
    if isinstance(e.etype, type) and issubclass(e.etype, REFERENCE_ERRORS):
      raise Missing(e)
    raise
