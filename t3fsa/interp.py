"""Abstract interpreter for the Python subset used by library code."""
import ast
import os
import threading
from fractions import Fraction

from . import dim as D
from .dim import Dim, NeedSplit
from . import term as T
from . import tensor as X
from .tensor import Tensor, Unsupported, OpError, DType
from .values import *  # noqa

MAX_STEPS = 400000
MAX_DEPTH = 60

_MISSING = object()


class ReturnX(Exception):
  def __init__(self, v):
    self.v = v


class BreakX(Exception):
  pass


class ContinueX(Exception):
  pass


class Env(object):
  __slots__ = ('vars', 'parent', 'locals', 'globals_', 'gl', 'nl', 'func', 'yields', 'isclass')

  def __init__(self, parent=None, locals_=None, gl=None, func=None):
    self.vars = {}
    self.parent = parent
    self.locals = locals_
    self.gl = ()
    self.nl = ()
    self.globals_ = gl
    self.func = func
    self.yields = None
    self.isclass = False


def _assigned(node, out, globals_, nonlocals):
  """Names bound in a function body (not descending into nested scopes)."""
  for ch in ast.iter_child_nodes(node):
    if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
      out.add(ch.name)
      for d in ch.decorator_list:
        _assigned(d, out, globals_, nonlocals)
      continue
    if isinstance(ch, ast.Lambda):
      continue
    if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      # comprehension targets are local to the comprehension; walrus leaks
      for w in ast.walk(ch):
        if isinstance(w, ast.NamedExpr):
          out.add(w.target.id)
      continue
    if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
      out.add(ch.id)
    elif isinstance(ch, ast.Global):
      globals_.update(ch.names)
    elif isinstance(ch, ast.Nonlocal):
      nonlocals.update(ch.names)
    elif isinstance(ch, (ast.Import, ast.ImportFrom)):
      for a in ch.names:
        out.add((a.asname or a.name).split('.')[0])
    elif isinstance(ch, ast.ExceptHandler) and ch.name:
      out.add(ch.name)
    _assigned(ch, out, globals_, nonlocals)


_scope_cache = {}


def scope_info(node):
  r = _scope_cache.get(id(node))
  if r is None:
    out, g, n = set(), set(), set()
    if isinstance(node, ast.Lambda):
      body = [node.body]
    else:
      body = node.body
    for b in body:
      m = ast.Module(body=[b], type_ignores=[]) if isinstance(b, ast.stmt) else ast.Expression(body=b)
      _assigned(m, out, g, n)
    gen = False
    if not isinstance(node, ast.Lambda):
      gen = _has_yield(node)
    r = (frozenset(out - g - n), frozenset(g), frozenset(n), gen, node)
    _scope_cache[id(node)] = r
  return r


def _has_yield(node):
  st = list(node.body)
  while st:
    x = st.pop()
    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    if isinstance(x, (ast.Yield, ast.YieldFrom)):
      return True
    st.extend(ast.iter_child_nodes(x))
  return False


EXC = {}
for _n in ('Exception', 'ValueError', 'TypeError', 'IndexError', 'KeyError', 'AttributeError',
           'NotImplementedError', 'RuntimeError', 'ZeroDivisionError', 'AssertionError',
           'ArithmeticError', 'LookupError', 'StopIteration', 'NameError', 'UnboundLocalError',
           'ImportError', 'OverflowError', 'BaseException', 'Warning', 'DeprecationWarning',
           'UserWarning', 'FutureWarning', 'OSError', 'IOError', 'RecursionError', 'ModuleNotFoundError',
           'KeyboardInterrupt', 'FloatingPointError', 'MemoryError', 'RuntimeWarning'):
  EXC[_n] = getattr(__import__('builtins'), _n)


class Program(object):
  """Parsed sources of the package under analysis."""

  def __init__(self, root, pkg):
    self.root = root
    self.pkg = pkg
    self.trees = {}
    self.files = {}
    self.src = {}
    base = os.path.join(root, pkg)
    for dp, dn, fn in os.walk(base):
      for f in sorted(fn):
        if not f.endswith('.py') or f.endswith('_test.py'):
          continue
        p = os.path.join(dp, f)
        rel = os.path.relpath(p, root)
        mod = rel[:-3].replace(os.sep, '.')
        if mod.endswith('.__init__'):
          mod = mod[:-9]
        self.files[mod] = rel
        with open(p, encoding='utf-8') as h:
          self.src[mod] = h.read()

  def tree(self, mod):
    if mod not in self.trees:
      self.trees[mod] = ast.parse(self.src[mod], self.files[mod])
    return self.trees[mod]


def bound_names(st):
  """Names a module-level statement binds."""
  out = set()
  for n in ast.walk(st):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
      out.add(n.id)
    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      out.add(n.name)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
      for a in n.names:
        out.add(a.asname or a.name.split('.')[0])
  return out


class Interp(object):

  def __init__(self, program, lib):
    self.prog = program
    self.lib = lib
    self.modules = {}
    self.steps = 0
    self.stack = []            # (file, funcname, lineno)
    self.frozen = {}           # id -> (obj, description)
    self.effects = []          # mutations of frozen objects
    self.casts = []            # (tensor, dtype, where) of every cast
    self.functions = set()
    self.callsites = set()
    self.lines = set()
    self.tapes = []
    self.order = None          # creation order of the tensors of a graph
    self.watch_defs = {}       # atom key -> Tensor (definition)
    self.cut = None            # atoms that stand for detached values, when those are tracked
    self.notes = []
    self.rand = 0
    self.on_call = None
    self.handling = []
    self.collections = {}
    self.variables = {}
    self.asserts = []
    self.frames = 0
    self.loading = set()
    self.builtins = lib.builtins(self)

  # -- errors -----------------------------------------------------------
  def where(self):
    return ['%s:%d %s' % (f, n, fn) for f, fn, n in self.stack]

  def err(self, etype, msg):
    raise PyRaise(etype, msg, self.where())

  # -- modules ----------------------------------------------------------
  def module(self, name):
    if name in self.modules:
      return self.modules[name]
    if name not in self.prog.files:
      return None
    env = Env()
    env.vars['__name__'] = name
    env.globals_ = env
    m = ModuleV(name, env, self.prog.files[name])
    self.modules[name] = m
    if '.' in name:
      par, last = name.rsplit('.', 1)
      pm = self.module(par)
      if pm is not None:
        pm.env.vars.setdefault(last, m)
    self.stack.append((m.file, '<module>', 0))
    d = self.frames
    try:
      env.func = m
      for st in self.prog.tree(name).body:
        try:
          self.stmt(st, env)
        except Unsupported as e:
          for n in bound_names(st):
            env.vars[n] = UnknownV(str(e))
    finally:
      self.stack.pop()
    return m

  def import_(self, name):
    root = name.split('.')[0]
    if root == self.prog.pkg:
      parts = name.split('.')
      m = None
      for i in range(1, len(parts) + 1):
        m = self.module('.'.join(parts[:i]))
        if m is None:
          self.err(ImportError, 'No module named %s' % name)
      return m
    return self.lib.module(self, name)

  # -- decisions --------------------------------------------------------
  def decide(self, key, test=None):
    if test is not None:
      T.TC.tests[key] = test
    if key in D.CTX.facts:
      return D.CTX.facts[key]
    raise NeedSplit(key, 'cond', None)

  def truth(self, v):
    if v is None or v is False:
      return False
    if v is True:
      return True
    if isinstance(v, (int, str, list, tuple, dict, set, bytes, frozenset)):
      return bool(v)
    if isinstance(v, Dim):
      return not D.decide_eq(v, 0)
    if isinstance(v, PyFloat):
      c = v.const()
      if c is not None:
        return c != 0 if not isinstance(c, Dim) else not D.decide_eq(c, 0)
      if v.t.top:
        raise Unsupported('condition on unknown float')
      return self.decide('nonzero:%s' % (v.t.canon,), ('nonzero', v.t))
    if isinstance(v, Inf):
      return True
    if isinstance(v, Arr):
      if len(v.data) == 1:
        return self.truth(v.data[0])
      if len(v.data) == 0:
        return False
      self.err(ValueError, 'The truth value of an array with more than one element is ambiguous')
    if isinstance(v, TShape):
      return v.dims is not None
    if isinstance(v, RangeV):
      return len(v.items()) > 0
    if isinstance(v, Tensor):
      if v.top:
        raise Unsupported('condition on unknown tensor: %s' % v.top)
      if v.shape != () and X.size_of(v) != 1:
        self.err(ValueError, 'The truth value of a tensor with more than one element is ambiguous')
      if not v.terms:
        return False
      if getattr(v.dtype, 'name', None) == 'bool':
        s = X.as_size(v)
        if s is not None:
          return s != 0
      return self.decide('nonzero:%s' % (v.canon,), ('nonzero', v))
    if isinstance(v, Inst):
      for nm in ('__bool__', '__len__'):
        f, _ = v.cls.lookup(nm)
        if f is not None:
          return self.truth(self.call(BoundV(f, v), [], {}))
      return True
    if isinstance(v, LibObj):
      raise Unsupported('condition on %s' % v.name)
    return True

  # -- frozen objects ----------------------------------------------------
  def freeze(self, obj, desc):
    if isinstance(obj, (list, dict, set, Arr, Inst, Var)) or isinstance(obj, Tensor) and obj.np:
      if id(obj) in self.frozen:
        return
      self.frozen[id(obj)] = (obj, desc)
    if isinstance(obj, (list, tuple)):
      for i, x in enumerate(obj):
        self.freeze(x, '%s[%d]' % (desc, i))
    elif isinstance(obj, dict):
      for k, x in obj.items():
        self.freeze(x, '%s[%r]' % (desc, k))
    elif isinstance(obj, Inst):
      for k, x in obj.attrs.items():
        self.freeze(x, '%s.%s' % (desc, k))

  def detach(self, t):
    """The value of a tensor outside the recorded computation: gradients do not pass."""
    if isinstance(t, Tensor) and not t.top and self.watch_defs:
      try:
        return X.substitute_atoms(t, self.watch_defs)
      except Unsupported:
        if self.cut is None:
          raise
        key = 'cut%d' % len(self.cut)
        self.cut.add(key)
        return X.from_atom(key, t.shape, t.dtype)
    return t

  def global_effect(self, what):
    self.effects.append((what, 'set', self.where()))

  def mutated(self, obj, how):
    f = self.frozen.get(id(obj))
    if f is not None:
      self.effects.append((f[1], how, self.where()))

  # -- statements --------------------------------------------------------
  def block(self, body, env):
    for s in body:
      self.stmt(s, env)

  def stmt(self, s, env):
    self.steps += 1
    if self.steps > MAX_STEPS:
      raise Unsupported('analysis budget exceeded (non-terminating loop?)')
    if self.stack:
      f = self.stack[-1]
      self.stack[-1] = (f[0], f[1], s.lineno)
      self.lines.add((f[0], s.lineno))
    getattr(self, 's_' + type(s).__name__, self.s_unknown)(s, env)

  def s_unknown(self, s, env):
    raise Unsupported('statement %s' % type(s).__name__)

  def s_Expr(self, s, env):
    self.ev(s.value, env)

  def s_Pass(self, s, env):
    pass

  def s_Return(self, s, env):
    raise ReturnX(None if s.value is None else self.ev(s.value, env))

  def s_Break(self, s, env):
    raise BreakX()

  def s_Continue(self, s, env):
    raise ContinueX()

  def s_Global(self, s, env):
    pass

  def s_Nonlocal(self, s, env):
    pass

  def s_Assign(self, s, env):
    v = self.ev(s.value, env)
    for t in s.targets:
      self.assign(t, v, env)

  def s_AnnAssign(self, s, env):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value, env), env)

  def s_AugAssign(self, s, env):
    op = type(s.op).__name__
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.name(t.id, env)
      self.setname(t.id, self.augop(op, cur, self.ev(s.value, env)), env)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value, env)
      cur = self.getattr(o, t.attr)
      self.setattr(o, t.attr, self.augop(op, cur, self.ev(s.value, env)))
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, env)
      i = self.ev(t.slice, env)
      cur = self.getitem(o, i)
      self.setitem(o, i, self.augop(op, cur, self.ev(s.value, env)))
    else:
      raise Unsupported('augmented assignment target')

  def augop(self, op, a, b):
    if isinstance(a, list) and op == 'Add':
      self.mutated(a, 'extended in place (+=)')
      a.extend(self.iterate(b))
      return a
    if isinstance(a, list) and op == 'Mult' and isinstance(b, int):
      self.mutated(a, 'repeated in place (*=)')
      a[:] = a * b
      return a
    if isinstance(a, Tensor) and a.np:
      self.mutated(a, 'updated in place')
    if isinstance(a, Arr) and a.flavor == 'np':
      self.mutated(a, 'updated in place')
      r = self.binop(op, a, b)
      if isinstance(r, Arr) and r.shape == a.shape:
        if a.kind == 'i' and r.kind == 'f':
          self.err(TypeError, 'Cannot cast ufunc output from float64 to int64 with casting rule same_kind')
        a.data[:] = r.data
        return a
      if isinstance(r, Arr):
        self.err(ValueError, 'non-broadcastable output operand')
      return r
    if isinstance(a, Inst):
      nm = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(op)
      if nm:
        f, _ = a.cls.lookup(nm)
        if f is not None:
          return self.call(BoundV(f, a), [b], {})
    return self.binop(op, a, b)

  def s_Delete(self, s, env):
    for t in s.targets:
      if isinstance(t, ast.Name):
        if t.id in env.vars:
          del env.vars[t.id]
      elif isinstance(t, ast.Subscript):
        o = self.ev(t.value, env)
        i = self.ev(t.slice, env)
        if isinstance(o, (list, dict)):
          self.mutated(o, 'del item')
          try:
            if isinstance(o, list):
              del o[self.lib.pyslice(self, i) if isinstance(i, slice) else self.cint(i)]
            else:
              del o[self.hashkey(i)]
          except (IndexError, KeyError) as e:
            self.err(type(e), str(e))
        else:
          raise Unsupported('del item')
      elif isinstance(t, ast.Attribute):
        o = self.ev(t.value, env)
        if isinstance(o, Inst):
          self.mutated(o, 'del attribute')
          o.attrs.pop(t.attr, None)
      else:
        raise Unsupported('del')

  def s_If(self, s, env):
    if self.truth(self.ev(s.test, env)):
      self.block(s.body, env)
    else:
      self.block(s.orelse, env)

  def s_While(self, s, env):
    n = 0
    while self.truth(self.ev(s.test, env)):
      n += 1
      if n > 5000:
        raise Unsupported('loop bound exceeded')
      self.steps += 1
      try:
        self.block(s.body, env)
      except BreakX:
        return
      except ContinueX:
        pass
    self.block(s.orelse, env)

  def s_For(self, s, env):
    it = self.ev(s.iter, env)
    for v in self.iter_live(it):
      self.assign(s.target, v, env)
      try:
        self.block(s.body, env)
      except BreakX:
        return
      except ContinueX:
        continue
    self.block(s.orelse, env)

  def iter_live(self, it):
    if isinstance(it, list):
      i = 0
      while i < len(it):
        yield it[i]
        i += 1
        if i > 5000:
          raise Unsupported('loop bound exceeded')
      return
    if isinstance(it, Count):
      n = 0
      while True:
        v = it.v
        it.v = self.binop('Add', it.v, it.step)
        yield v
        n += 1
        if n > 5000:
          raise Unsupported('loop bound exceeded')
    if isinstance(it, LazyGen):
      for v in it.run():
        yield v
      return
    if isinstance(it, Iter):
      while it.pos < len(it.items):
        it.pos += 1
        yield it.items[it.pos - 1]
      return
    for v in self.iterate(it):
      yield v

  def s_With(self, s, env):
    cms = []
    for item in s.items:
      c = self.ev(item.context_expr, env)
      v = self.enter(c)
      cms.append(c)
      if item.optional_vars is not None:
        self.assign(item.optional_vars, v, env)
    try:
      self.block(s.body, env)
    except PyRaise as e:
      for i, c in enumerate(reversed(cms)):
        if self.exit(c, e):
          for c2 in list(reversed(cms))[i + 1:]:
            self.exit(c2)
          return
      raise
    except (ReturnX, BreakX, ContinueX):
      for c in reversed(cms):
        self.exit(c)
      raise
    for c in reversed(cms):
      self.exit(c)

  def enter(self, c):
    if isinstance(c, CM):
      return c.enter()
    if isinstance(c, Tape):
      c.active = True
      self.tapes.append(c)
      return c
    if isinstance(c, Inst):
      f, _ = c.cls.lookup('__enter__')
      if f is not None:
        return self.call(BoundV(f, c), [], {})
    raise Unsupported('with %r' % (c,))

  def exit(self, c, e=None):
    """Leave a context; true if the exception e is suppressed."""
    if isinstance(c, CM):
      return c.exit() if e is None else c.failed(self, e)
    if isinstance(c, Tape):
      c.active = False
      if c in self.tapes:
        self.tapes.remove(c)
      c.forget()
      return
    if isinstance(c, Inst):
      f, _ = c.cls.lookup('__exit__')
      if f is not None:
        exc = [None, None, None] if e is None else [e.etype, e.inst or ExcInst(e.etype, (e.msg,)), None]
        return self.truth(self.call(BoundV(f, c), exc, {}))

  def s_Match(self, s, env):
    v = self.ev(s.subject, env)
    for c in s.cases:
      b = {}
      if self.matches(c.pattern, v, b, env):
        for k, x in b.items():
          self.setname(k, x, env)
        if c.guard is None or self.truth(self.ev(c.guard, env)):
          self.block(c.body, env)
          return

  def matches(self, p, v, b, env):
    k = type(p).__name__
    if k == 'MatchValue':
      return self.truth(self.lib.compare(self, 'Eq', v, self.ev(p.value, env)))
    if k == 'MatchSingleton':
      return v is p.value
    if k == 'MatchAs':
      if p.pattern is not None and not self.matches(p.pattern, v, b, env):
        return False
      if p.name is not None:
        b[p.name] = v
      return True
    if k == 'MatchOr':
      return any(self.matches(q, v, b, env) for q in p.patterns)
    if k == 'MatchSequence':
      if not isinstance(v, (list, tuple)):
        return False
      star = [i for i, q in enumerate(p.patterns) if type(q).__name__ == 'MatchStar']
      if not star:
        return len(v) == len(p.patterns) and all(self.matches(q, x, b, env) for q, x in zip(p.patterns, v))
      i = star[0]
      rest = len(p.patterns) - i - 1
      if len(v) < i + rest:
        return False
      if p.patterns[i].name is not None:
        b[p.patterns[i].name] = list(v[i:len(v) - rest])
      return all(self.matches(q, x, b, env) for q, x in zip(p.patterns[:i], v[:i])) and \
          all(self.matches(q, x, b, env) for q, x in zip(p.patterns[i + 1:], v[len(v) - rest:]))
    if k == 'MatchClass' and not p.patterns:
      if not self.truth(self.lib.isinst(self, v, self.ev(p.cls, env))):
        return False
      for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
        x = self.getattr(v, nm, None)
        if x is None or not self.matches(q, x, b, env):
          return False
      return True
    raise Unsupported('pattern %s' % k)

  def s_Raise(self, s, env):
    if s.exc is None:
      if self.handling:
        raise self.handling[-1]
      self.err(RuntimeError, 'No active exception to reraise')
    v = self.ev(s.exc, env)
    if isinstance(v, type) and issubclass(v, BaseException):
      raise PyRaise(v, '', self.where(), ExcInst(v, ()))
    if isinstance(v, ExcInst):
      raise PyRaise(v.etype, ', '.join(self.tostr(a) for a in v.args), self.where(), v)
    if isinstance(v, Inst):
      raise PyRaise(self.exc_base(v.cls), 'user exception %s' % v.cls.name, self.where(), v)
    if isinstance(v, ClassV):
      raise PyRaise(self.exc_base(v), 'user exception %s' % v.name, self.where(), None)
    self.err(TypeError, 'exceptions must derive from BaseException')

  def exc_base(self, cls):
    for c in cls.mro():
      for b in c.bases:
        if isinstance(b, type) and issubclass(b, BaseException):
          return b
    return Exception

  def s_Try(self, s, env):
    try:
      try:
        self.block(s.body, env)
      except PyRaise as e:
        for h in s.handlers:
          if h.type is None:
            match = True
          else:
            t = self.ev(h.type, env)
            match = self.exc_match(e, t)
          if match:
            if h.name:
              env.vars[h.name] = e.inst or ExcInst(e.etype, (e.msg,))
            self.handling.append(e)
            try:
              self.block(h.body, env)
            finally:
              self.handling.pop()
            break
        else:
          raise
      else:
        self.block(s.orelse, env)
    except (PyRaise, ReturnX, BreakX, ContinueX):
      self.block(s.finalbody, env)
      raise
    self.block(s.finalbody, env)

  def exc_match(self, e, t):
    if isinstance(t, tuple):
      return any(self.exc_match(e, x) for x in t)
    if isinstance(t, type):
      return issubclass(e.etype, t)
    if isinstance(t, ClassV):
      return isinstance(e.inst, Inst) and t in e.inst.cls.mro()
    if isinstance(t, LibObj):
      # library exception class
      return e.etype is TFError and t.name.split('.')[-1] in ('InvalidArgumentError', 'OpError')
    raise Unsupported('except %r' % (t,))

  def s_Assert(self, s, env):
    if not self.truth(self.ev(s.test, env)):
      msg = self.tostr(self.ev(s.msg, env)) if s.msg is not None else ''
      self.err(AssertionError, msg)

  def s_Import(self, s, env):
    for a in s.names:
      m = self.import_(a.name)
      if a.asname:
        self.setname(a.asname, m, env)
      else:
        root = a.name.split('.')[0]
        self.setname(root, self.import_(root), env)

  def s_ImportFrom(self, s, env):
    base = s.module or ''
    if s.level:
      cur = None
      e = env
      mod = self.cur_module(env)
      parts = mod.name.split('.')
      if not mod.file.endswith('__init__.py'):
        parts = parts[:-1]
      parts = parts[:len(parts) - (s.level - 1)]
      base = '.'.join(parts + ([base] if base else []))
    if base == '__future__':
      return
    m = self.import_(base)
    for a in s.names:
      if a.name == '*':
        if not isinstance(m, ModuleV):
          raise Unsupported('import * from library')
        for k, v in list(m.env.vars.items()):
          if not k.startswith('_'):
            self.setname(k, v, env)
        continue
      if isinstance(m, ModuleV):
        if a.name in m.env.vars:
          v = m.env.vars[a.name]
        else:
          v = self.module(m.name + '.' + a.name)
          if v is None:
            self.err(ImportError, 'cannot import name %s from %s' % (a.name, m.name))
      else:
        v = self.getattr(m, a.name)
      self.setname(a.asname or a.name, v, env)

  def cur_module(self, env):
    e = env
    while e is not None:
      if isinstance(e.func, ModuleV):
        return e.func
      if isinstance(e.func, FuncV):
        return e.func.module
      e = e.parent
    return None

  def s_FunctionDef(self, s, env):
    f = self.mkfunc(s, env)
    v = f
    for d in reversed(s.decorator_list):
      dv = self.ev(d, env)
      v = self.call(dv, [v], {})
    self.setname(s.name, v, env)

  def mkfunc(self, s, env):
    a = s.args
    defaults = [self.ev(x, env) for x in a.defaults]
    kwd = {}
    for k, dflt in zip(a.kwonlyargs, a.kw_defaults):
      if dflt is not None:
        kwd[k.arg] = self.ev(dflt, env)
    name = getattr(s, 'name', '<lambda>')
    return FuncV(s, env, self.cur_module(env), name, defaults, kwd)

  def s_ClassDef(self, s, env):
    bases = [self.ev(b, env) for b in s.bases]
    cenv = Env(env, func=env.func)
    cenv.globals_ = env.globals_
    cenv.isclass = True
    self.block(s.body, cenv)
    for b in bases:
      if isinstance(b, LibObj) and b.name == 'typing.NamedTuple':
        fields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign)]
        if any(isinstance(x, ast.FunctionDef) for x in s.body) or len(bases) > 1:
          raise Unsupported('methods of a NamedTuple')
        self.setname(s.name, self.lib.namedtuple(s.name, fields, dict(cenv.vars)), env)
        return
      if isinstance(b, LibObj) and b.name not in ('abc.ABC', 'typing.Generic', 'typing.Protocol') and \
          not b.name.startswith('tensorflow'):
        raise Unsupported('class derived from %s' % b.name)
    c = ClassV(s.name, bases, cenv.vars, self.cur_module(env))
    c.fields = [(x.target.id, x.value is not None) for x in s.body
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
    for k, v in c.attrs.items():
      x = v
      if isinstance(x, (StaticV, ClassMethV)):
        x = x.fn
      if isinstance(x, PropV):
        for y in (x.fget, x.fset):
          if isinstance(y, FuncV):
            y.cls = c
      if isinstance(x, FuncV):
        x.cls = c
    v = c
    for d in reversed(s.decorator_list):
      v = self.call(self.ev(d, env), [v], {})
    self.setname(s.name, v, env)

  # -- names ---------------------------------------------------------------
  def name(self, n, env):
    e = env
    first = True
    while e is not None:
      if e is env or not e.isclass:
        if n in e.gl and e.globals_ is not None:
          e = e.globals_
          continue
        if n in e.vars:
          v = e.vars[n]
          if isinstance(v, UnknownV):
            raise Unsupported(v.why)
          return v
        if e.locals is not None and n in e.locals:
          self.err(UnboundLocalError, "cannot access local variable '%s'" % n)
      e = e.parent
    if n in self.builtins:
      return self.builtins[n]
    self.err(NameError, "name '%s' is not defined" % n)

  def setname(self, n, v, env):
    if n in env.gl:
      env.globals_.vars[n] = v
      return
    if n in env.nl:
      e = env.parent
      while e is not None:
        if n in e.vars or (e.locals is not None and n in e.locals):
          e.vars[n] = v
          return
        e = e.parent
    env.vars[n] = v

  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      self.setname(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      items = self.iterate(v)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        k = star[0]
        after = len(t.elts) - k - 1
        if len(items) < k + after:
          self.err(ValueError, 'not enough values to unpack')
        for e, x in zip(t.elts[:k], items[:k]):
          self.assign(e, x, env)
        self.assign(t.elts[k].value, list(items[k:len(items) - after]), env)
        for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
          self.assign(e, x, env)
      else:
        if len(items) != len(t.elts):
          self.err(ValueError, 'cannot unpack %d values into %d names' % (len(items), len(t.elts)))
        for e, x in zip(t.elts, items):
          self.assign(e, x, env)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.ev(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
      self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, env)
    else:
      raise Unsupported('assignment target')

  # -- expressions ----------------------------------------------------------
  def ev(self, e, env):
    return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, env)

  def e_unknown(self, e, env):
    raise Unsupported('expression %s' % type(e).__name__)

  def e_Constant(self, e, env):
    v = e.value
    if isinstance(v, float):
      if v == float('inf'):
        return Inf(1)
      return PyFloat(Fraction(repr(v)) if 'e' not in repr(v) else Fraction(repr(v)))
    return v

  def e_Name(self, e, env):
    return self.name(e.id, env)

  def e_NamedExpr(self, e, env):
    v = self.ev(e.value, env)
    self.setname(e.target.id, v, env)
    return v

  def e_Tuple(self, e, env):
    return tuple(self.elts(e.elts, env))

  def e_List(self, e, env):
    return self.elts(e.elts, env)

  def e_Set(self, e, env):
    return set(self.hashkey(x) for x in self.elts(e.elts, env))

  def elts(self, es, env):
    out = []
    for x in es:
      if isinstance(x, ast.Starred):
        out.extend(self.iterate(self.ev(x.value, env)))
      else:
        out.append(self.ev(x, env))
    return out

  def hashkey(self, k):
    if isinstance(k, (list, dict, set)):
      self.err(TypeError, 'unhashable type')
    if isinstance(k, Arr) and k.shape == ():
      return k.data[0]
    return k

  def e_Dict(self, e, env):
    d = {}
    for k, v in zip(e.keys, e.values):
      if k is None:
        d.update(self.ev(v, env))
      else:
        d[self.hashkey(self.ev(k, env))] = self.ev(v, env)
    return d

  def e_Lambda(self, e, env):
    return self.mkfunc(e, env)

  def e_IfExp(self, e, env):
    return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

  def e_BoolOp(self, e, env):
    isand = isinstance(e.op, ast.And)
    v = None
    for i, x in enumerate(e.values):
      v = self.ev(x, env)
      if i == len(e.values) - 1:
        return v
      t = self.truth(v)
      if isand and not t:
        return v
      if not isand and t:
        return v
    return v

  def e_UnaryOp(self, e, env):
    v = self.ev(e.operand, env)
    op = type(e.op).__name__
    return self.unop(op, v)

  def unop(self, op, v):
    if op == 'Not':
      return not self.truth(v)
    if op == 'UAdd':
      return v
    if op == 'USub':
      if isinstance(v, Inst):
        f, _ = v.cls.lookup('__neg__')
        if f is None:
          self.err(TypeError, 'bad operand type for unary -')
        return self.call(BoundV(f, v), [], {})
      if isinstance(v, bool):
        return -int(v)
      if isinstance(v, (int, Dim)):
        return D.neg(v)
      if isinstance(v, Inf):
        return Inf(-v.sign)
      return self.binop('Mult', v, -1)
    if op == 'Invert':
      if isinstance(v, int):
        return ~v
      if isinstance(v, Arr):
        return Arr(v.shape, [not x for x in v.data], v.flavor)
    raise Unsupported('unary %s' % op)

  def e_BinOp(self, e, env):
    a = self.ev(e.left, env)
    b = self.ev(e.right, env)
    return self.binop(type(e.op).__name__, a, b)

  def e_Compare(self, e, env):
    a = self.ev(e.left, env)
    res = True
    for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
      b = self.ev(c, env)
      res = self.compare(type(op).__name__, a, b)
      if i < len(e.ops) - 1 and not self.truth(res):
        return res
      a = b
    return res

  def e_Attribute(self, e, env):
    return self.getattr(self.ev(e.value, env), e.attr)

  def e_Subscript(self, e, env):
    o = self.ev(e.value, env)
    return self.getitem(o, self.ev(e.slice, env))

  def e_Slice(self, e, env):
    f = lambda x: None if x is None else self.ev(x, env)
    return slice(f(e.lower), f(e.upper), f(e.step))

  def e_Starred(self, e, env):
    raise Unsupported('starred expression')

  def e_JoinedStr(self, e, env):
    out = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        out.append(v.value)
      else:
        x = self.ev(v.value, env)
        spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
        if spec and isinstance(x, (int, str)):
          out.append(format(x, spec))
        else:
          out.append(self.tostr(x))
    return ''.join(out)

  def e_FormattedValue(self, e, env):
    return self.tostr(self.ev(e.value, env))

  def e_Yield(self, e, env):
    x = env
    while x.yields is None:
      x = x.parent
    return x.yields.emit(None if e.value is None else self.ev(e.value, env))

  def e_YieldFrom(self, e, env):
    x = env
    while x.yields is None:
      x = x.parent
    for v in self.iter_live(self.ev(e.value, env)):
      x.yields.emit(v)

  def comp(self, gens, env, emit):
    cenv = Env(env, func=env.func)
    cenv.globals_ = env.globals_

    def rec(i):
      if i == len(gens):
        emit(cenv)
        return
      g = gens[i]
      it = self.ev(g.iter, env if i == 0 else cenv)
      for v in self.iter_live(it):
        self.assign(g.target, v, cenv)
        if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
          rec(i + 1)
    rec(0)

  def e_ListComp(self, e, env):
    out = []
    self.comp(e.generators, env, lambda c: out.append(self.ev(e.elt, c)))
    return out

  def e_SetComp(self, e, env):
    out = set()
    self.comp(e.generators, env, lambda c: out.add(self.hashkey(self.ev(e.elt, c))))
    return out

  def e_DictComp(self, e, env):
    out = {}

    def emit(c):
      out[self.hashkey(self.ev(e.key, c))] = self.ev(e.value, c)
    self.comp(e.generators, env, emit)
    return out

  def e_GeneratorExp(self, e, env):
    return LazyGen(self, e, env)

  def e_Call(self, e, env):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      x = env
      while x is not None and not (isinstance(x.func, FuncV) and x.func.cls is not None and x.locals is not None):
        x = x.parent
      fn = x.func
      a = fn.node.args
      first = (a.posonlyargs + a.args)[0].arg
      return SuperV(fn.cls, x.vars[first])
    f = self.ev(e.func, env)
    args = self.elts(e.args, env)
    kw = {}
    for k in e.keywords:
      if k.arg is None:
        m = self.ev(k.value, env)
        if not isinstance(m, dict):
          raise Unsupported('** of %r' % (m,))
        for kk in m:
          if kk in kw:
            self.err(TypeError, 'got multiple values for keyword argument %s' % kk)
        kw.update(m)
      else:
        kw[k.arg] = self.ev(k.value, env)
    if self.stack:
      st = self.stack[-1]
      self.stack[-1] = (st[0], st[1], e.lineno)
      self.callsites.add((st[0], e.lineno, e.col_offset))
    return self.call(f, args, kw)

  # -- calls -----------------------------------------------------------------
  def call(self, f, args, kw):
    if isinstance(f, FuncV):
      return self.callfn(f, args, kw)
    if isinstance(f, BoundV):
      return self.call(f.fn, [f.self_] + list(args), kw)
    if isinstance(f, Native):
      return self.callnative(f, args, kw)
    if isinstance(f, ClassV):
      return self.instantiate(f, args, kw)
    if isinstance(f, TypeV):
      if f.call is None:
        raise Unsupported('constructing %s' % f.name)
      return self.callnative(Native(f.name, f.call), args, kw)
    if isinstance(f, type) and issubclass(f, BaseException):
      return ExcInst(f, tuple(args))
    if isinstance(f, StaticV):
      return self.call(f.fn, args, kw)
    if isinstance(f, Inst):
      m, _ = f.cls.lookup('__call__')
      if m is not None:
        return self.call(BoundV(m, f), args, kw)
      r = self.lib.call_inst(self, f, args, kw)
      if r is not NotImplemented:
        return r
      self.err(TypeError, "'%s' object is not callable" % f.cls.name)
    if isinstance(f, LibObj):
      raise Unsupported('call of %s' % f.name)
    if isinstance(f, DType):
      return self.lib.cast_scalar(self, f, args[0])
    if callable(f) and hasattr(f, '_model'):
      return f(self, *args, **kw)
    self.err(TypeError, '%s is not callable' % self.typename(f))

  def callnative(self, f, args, kw):
    sig = self.lib.signature(f.fn)
    if sig is not None:
      try:
        sig.bind(self, *args, **kw)
      except TypeError as e:
        self.err(TypeError, '%s(): %s' % (f.name, e))
    try:
      return f.fn(self, *args, **kw)
    except OpError as e:
      self.err(TFError if e.etype == 'InvalidArgumentError' else EXC.get(e.etype, TFError),
               '%s: %s' % (f.name, e.msg))

  def bind(self, f, args, kw):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nposonly = len(a.posonlyargs)
    vals = {}
    n = len(args)
    if n > len(pos) and a.vararg is None:
      self.err(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, len(pos), n))
    for nm, v in zip(pos, args):
      vals[nm] = v
    if a.vararg is not None:
      vals[a.vararg.arg] = tuple(args[len(pos):])
    kwn = [x.arg for x in a.kwonlyargs]
    extra = {}
    for k, v in kw.items():
      if k in pos[nposonly:] or k in kwn:
        if k in vals:
          self.err(TypeError, "%s() got multiple values for argument '%s'" % (f.name, k))
        vals[k] = v
      elif a.kwarg is not None:
        extra[k] = v
      else:
        self.err(TypeError, "%s() got an unexpected keyword argument '%s'" % (f.name, k))
    if a.kwarg is not None:
      vals[a.kwarg.arg] = extra
    nd = len(f.defaults)
    for i, nm in enumerate(pos):
      if nm not in vals:
        k = i - (len(pos) - nd)
        if k >= 0:
          vals[nm] = f.defaults[k]
        else:
          self.err(TypeError, "%s() missing required argument '%s'" % (f.name, nm))
    for nm in kwn:
      if nm not in vals:
        if nm in f.kwdefaults:
          vals[nm] = f.kwdefaults[nm]
        else:
          self.err(TypeError, "%s() missing required keyword argument '%s'" % (f.name, nm))
    return vals

  def callfn(self, f, args, kw):
    vals = self.bind(f, args, kw)
    names, gl, nl, gen, _ = scope_info(f.node)
    env = Env(f.env, names | frozenset(vals), func=f)
    env.globals_ = f.module.env if f.module is not None else None
    env.gl, env.nl = gl, nl
    env.vars.update(vals)
    file = f.module.file if f.module is not None else '?'
    nm = (f.cls.name + '.' if f.cls is not None else '') + f.name
    if len(self.stack) > MAX_DEPTH:
      raise Unsupported('call depth exceeded')
    self.functions.add((file, nm, f.node.lineno))
    self.stack.append((file, nm, f.node.lineno))
    try:
      if self.on_call is not None:
        self.on_call(self, f, vals)
      if isinstance(f.node, ast.Lambda):
        return self.ev(f.node.body, env)
      if gen:
        env.yields = GenFn(self, f, env)
        return env.yields
      try:
        self.block(f.node.body, env)
      except ReturnX as r:
        return r.v
      return None
    except OpError as e:
      self.err(TFError if e.etype == 'InvalidArgumentError' else EXC.get(e.etype, TFError), e.msg)
    finally:
      self.stack.pop()

  def instantiate(self, cls, args, kw):
    for b in cls.mro():
      for x in b.bases:
        if isinstance(x, type) and issubclass(x, BaseException):
          i = Inst(cls)
          i.attrs['args'] = tuple(args)
          return i
    inst = Inst(cls)
    f, c = cls.lookup('__init__')
    if f is not None:
      self.call(BoundV(f, inst), args, kw)
    else:
      if self.lib.native_init(self, cls, inst, args, kw) is NotImplemented and (args or kw):
        self.err(TypeError, '%s() takes no arguments' % cls.name)
    return inst

  # -- attributes --------------------------------------------------------------
  def getattr(self, o, name, default=_MISSING):
    try:
      return self._getattr(o, name)
    except PyRaise as e:
      if default is not _MISSING and e.etype is AttributeError:
        return default
      raise

  def _getattr(self, o, name):
    if isinstance(o, Inst):
      v, c = o.cls.lookup(name)
      if isinstance(v, PropV):
        return self.call(v.fget, [o], {})
      if name in o.attrs:
        return o.attrs[name]
      if v is not None or c is not None:
        return self.bindattr(v, o)
      r = self.lib.native_attr(self, o, name)
      if r is not NotImplemented:
        return r
      if name == '__class__':
        return o.cls
      if name == '__dict__':
        return o.attrs
      g, _ = o.cls.lookup('__getattr__')
      if g is not None:
        return self.call(BoundV(g, o), [name], {})
      if hasattr(object, name) or name == '__module__':
        raise Unsupported('attribute %s of an object' % name)
      self.err(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.name, name))
    if isinstance(o, ModuleV):
      if name in o.env.vars:
        v = o.env.vars[name]
        if isinstance(v, UnknownV):
          raise Unsupported(v.why)
        return v
      m = self.modules.get(o.name + '.' + name)
      if m is not None:
        return m
      if name.startswith('__'):
        raise Unsupported('attribute %s of a module' % name)
      self.err(AttributeError, "module '%s' has no attribute '%s'" % (o.name, name))
    if isinstance(o, ClassV):
      v, c = o.lookup(name)
      if c is None:
        if name == '__name__':
          return o.name
        if hasattr(type, name):
          raise Unsupported('attribute %s of a class' % name)
        self.err(AttributeError, "type object '%s' has no attribute '%s'" % (o.name, name))
      if isinstance(v, StaticV):
        return v.fn
      if isinstance(v, ClassMethV):
        return BoundV(v.fn, o)
      return v
    if isinstance(o, SuperV):
      mro = o.self_.cls.mro()
      i = mro.index(o.cls)
      for c in mro[i + 1:]:
        if name in c.attrs:
          return self.bindattr(c.attrs[name], o.self_)
      r = self.lib.native_super(self, o, name)
      if r is not NotImplemented:
        return r
      self.err(AttributeError, "'super' object has no attribute '%s'" % name)
    if isinstance(o, FuncV):
      if name in ('__name__', '__qualname__'):
        return o.name
      if name == '__doc__':
        return None
      if name in o.attrs:
        return o.attrs[name]
      if name == '__dict__':
        return o.attrs
      if name in ('__defaults__', '__kwdefaults__', '__module__', '__globals__', '__code__', '__closure__', '__annotations__',
                  '__wrapped__', '__call__', '__get__', '__self__'):
        raise Unsupported('attribute %s of a function' % name)
      self.err(AttributeError, "'function' object has no attribute '%s'" % name)
    return self.lib.getattr(self, o, name)

  def bindattr(self, v, o):
    if isinstance(v, StaticV):
      return v.fn
    if isinstance(v, ClassMethV):
      return BoundV(v.fn, o.cls)
    if isinstance(v, FuncV):
      return BoundV(v, o)
    if isinstance(v, PropV):
      return self.call(v.fget, [o], {})
    return v

  def setattr(self, o, name, v):
    if isinstance(o, Inst):
      p, _ = o.cls.lookup(name)
      if isinstance(p, PropV):
        if p.fset is None:
          self.err(AttributeError, "property '%s' has no setter" % name)
        self.call(p.fset, [o, v], {})
        return
      self.mutated(o, 'attribute %s assigned' % name)
      o.attrs[name] = v
    elif isinstance(o, ModuleV):
      o.env.vars[name] = v
    elif isinstance(o, FuncV):
      o.attrs[name] = v
    elif isinstance(o, ClassV):
      o.attrs[name] = v
    elif isinstance(o, LibModule):
      self.lib.overrides[o.name + '.' + name] = v
      self.global_effect('the global %s.%s' % (o.name, name))
    else:
      raise Unsupported('attribute assignment on %s' % self.typename(o))

  # -- delegation to the library model -------------------------------------------
  def binop(self, op, a, b):
    try:
      return self.lib.binop(self, op, a, b)
    except OpError as e:
      self.err(TFError if e.etype == 'InvalidArgumentError' else EXC.get(e.etype, TFError), e.msg)

  def compare(self, op, a, b):
    return self.lib.compare(self, op, a, b)

  def getitem(self, o, i):
    try:
      return self.lib.getitem(self, o, i)
    except OpError as e:
      self.err(TFError if e.etype == 'InvalidArgumentError' else EXC.get(e.etype, TFError), e.msg)

  def setitem(self, o, i, v):
    return self.lib.setitem(self, o, i, v)

  def iterate(self, v):
    return self.lib.iterate(self, v)

  def tostr(self, v):
    return self.lib.tostr(self, v)

  def typename(self, v):
    return self.lib.typename(v)

  def cint(self, v):
    """Concrete Python int or raise."""
    return self.lib.cint(self, v)


class GenStop(BaseException):
  """Ends the body of a generator that is not consumed any further."""


class LazyGen(object):
  """Generator expression, evaluated when consumed (supports short circuits)."""

  def __init__(self, I, node, env):
    self.I = I
    self.node = node
    self.env = env
    self.first = I.ev(node.generators[0].iter, env)
    self.gen = None

  def run(self):
    if self.gen is None:
      self.gen = self._run()
    return self.gen

  def _run(self):
    I = self.I
    gens = self.node.generators
    cenv = Env(self.env, func=self.env.func)
    cenv.globals_ = self.env.globals_

    def rec(i):
      if i == len(gens):
        yield I.ev(self.node.elt, cenv)
        return
      g = gens[i]
      it = self.first if i == 0 else I.ev(g.iter, cenv)
      for v in I.iter_live(it):
        I.assign(g.target, v, cenv)
        if all(I.truth(I.ev(c, cenv)) for c in g.ifs):
          for x in rec(i + 1):
            yield x
    return rec(0)


class PyGen(LazyGen):
  """An iterator of the analysed program backed by a Python generator."""

  def __init__(self, gen, name='generator'):
    self.gen = gen
    self.name = name


class GenCM(CM):
  """Context manager made from a generator function."""

  def __init__(self, I, f, args, kw):
    self.I = I
    self.f, self.args, self.kw = f, args, kw

  def enter(self):
    self.g = self.I.call(self.f, self.args, self.kw)
    for v in self.g.run():
      return v
    self.I.err(RuntimeError, "generator didn't yield")

  def exit(self):
    for _ in self.g.run():
      self.I.err(RuntimeError, "generator didn't stop")

  def failed(self, I, e):
    self.g.inject = e
    try:
      for _ in self.g.run():
        I.err(RuntimeError, "generator didn't stop after throw()")
    except PyRaise as e2:
      if e2 is e:
        return False
      raise
    return True


class GenFn(LazyGen):
  """A call of a generator function.  The body is interpreted in a thread of its
  own that only runs while the consumer waits for the next item."""

  def __init__(self, I, f, env):
    self.I = I
    self.f = f
    self.env = env
    self.gen = None
    self.frames = [I.stack[-1]]
    self.go = threading.Semaphore(0)
    self.back = threading.Semaphore(0)
    self.out = None
    self.inject = None
    self.sent = None
    self.stop = False

  def emit(self, v):
    self.out = ('yield', v)
    self.back.release()
    self.go.acquire()
    if self.stop:
      raise GenStop()
    if self.inject is not None:
      e, self.inject = self.inject, None
      raise e
    v, self.sent = self.sent, None
    return v

  def _body(self):
    self.go.acquire()
    try:
      if not self.stop:
        self.I.block(self.f.node.body, self.env)
      self.out = ('done', None)
    except (ReturnX, GenStop):
      self.out = ('done', None)
    except BaseException as e:
      self.out = ('raise', e)
    self.back.release()

  def _run(self):
    I = self.I
    threading.stack_size(512 * 1024 * 1024)
    try:
      th = threading.Thread(target=self._body, daemon=True)
      th.start()
    finally:
      threading.stack_size(0)
    n = 0
    alive = True
    try:
      while True:
        saved = I.stack
        I.stack = saved + self.frames
        self.go.release()
        self.back.acquire()
        self.frames = I.stack[len(saved):]
        I.stack = saved
        kind, v = self.out
        if kind != 'yield':
          alive = False
        if kind == 'done':
          return
        if kind == 'raise':
          raise v
        yield v
        n += 1
        if n > 5000:
          raise Unsupported('loop bound exceeded')
    finally:
      if alive:
        self.stop = True
        self.go.release()
        self.back.acquire()
      th.join()
