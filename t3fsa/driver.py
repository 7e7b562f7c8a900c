"""Runs obligations: context partitioning, verdicts, parallel execution."""
import os
import resource
import signal
import sys
import time
import traceback
import warnings

from . import dim as D
from .dim import NeedSplit
from . import term as T
from . import tensor as X
from .tensor import Tensor, Unsupported, OpError
from .values import *  # noqa
from .interp import Program, Interp
from .library import Lib
from . import numeric

warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)

REPO = os.environ.get('T3FSA_REPO', '/repo')
PKG = 't3f'
MAX_PARTITIONS = 96


class Violated(Exception):
  def __init__(self, msg, where=None):
    Exception.__init__(self, msg)
    self.msg = msg
    self.where = where


class Undecided(Exception):
  pass


class Slow(BaseException):
  """An obligation used up its time."""


def _alarm(sig, frame):
  raise Slow()


class Infeasible(Exception):
  """The context contradicts itself; nothing to show."""


class Part(object):
  """Facts of one partition of a context."""

  def __init__(self):
    self.subst = {}
    self.le = []
    self.facts = {}
    self.lb = {}
    self.conds = []
    self.desc = []
    self.watch = set()       # positions (in creation order) of tensors differentiated by

  def copy(self):
    p = Part()
    p.subst = dict(self.subst)
    p.le = list(self.le)
    p.facts = dict(self.facts)
    p.lb = dict(self.lb)
    p.conds = list(self.conds)
    p.desc = list(self.desc)
    p.watch = set(self.watch)
    return p

  def apply(self):
    c = D.SizeCtx()
    c.subst = dict(self.subst)
    c.le = list(self.le)
    c.facts = dict(self.facts)
    c.lb = dict(self.lb)
    c.conds = list(self.conds)
    D.set_ctx(c)
    T.set_ctx(T.TermCtx())
    X._depcache.clear()

  def substitute(self, s, v):
    m = {s: v}
    self.subst = {k: D.subst(x, m) for k, x in self.subst.items()}
    self.subst[s] = v
    self.le = [(D.subst(a, m), D.subst(b, m)) for a, b in self.le]
    self.conds = [(k, D.subst(a, m), D.subst(b, m), v) for k, a, b, v in self.conds]
    self.lb.pop(s, None)


def split(part, ns):
  """The two refinements of part for an undecided fact."""
  t, f = part.copy(), part.copy()
  t.lb.update({k: v for k, v in D.CTX.lb.items() if k not in D.CTX.opaque})
  f.lb.update(t.lb)
  if ns.kind == 'eq':
    a, b = ns.payload
    sol = D.solve(a, b)
    if sol is not None:
      t.substitute(*sol)
      t.desc.append('%s == %s' % (sol[0], D.show(sol[1])))
    else:
      t.le.append((a, b))
      t.le.append((b, a))
      t.facts[ns.key] = True
      t.desc.append('%s == %s' % (D.show(a), D.show(b)))
    f.facts[ns.key] = False
    f.conds.append(('eq', a, b, False))
    f.desc.append('%s != %s' % (D.show(a), D.show(b)))
  elif ns.kind == 'lt':
    a, b = ns.payload
    t.le.append((D.add(a, 1), b))
    t.facts[ns.key] = True
    f.le.append((b, a))
    f.facts[ns.key] = False
    t.desc.append('%s < %s' % (D.show(a), D.show(b)))
    f.desc.append('%s >= %s' % (D.show(a), D.show(b)))
  else:
    t.facts[ns.key] = True
    f.facts[ns.key] = False
    t.desc.append('(%s)' % ns.key[:160])
    f.desc.append('not (%s)' % ns.key[:160])
  return t, f


class NeedWatch(Exception):
  """A graph gradient by tensors that exist already: run again, treating them as unknowns."""

  def __init__(self, positions):
    Exception.__init__(self)
    self.positions = positions


class Order(object):
  """Creation order of the tensors of a graph."""

  def __init__(self, I, watch):
    self.I = I
    self.watch = watch
    self.n = 0
    self.pos = {}
    self.keys = {}
    self.busy = False

  def __call__(self, t):
    if self.busy:
      return
    self.n += 1
    self.pos[t.uid] = self.n
    if self.n in self.watch and not t.top:
      from . import tfmodel as TFM
      self.busy = True
      try:
        self.keys[t.uid] = TFM.unknown(self.I, t)
      finally:
        self.busy = False


class World(object):
  """One abstract run: an interpreter plus helpers used by the obligations."""

  def __init__(self, prog, part, eager=True):
    self.prog = prog
    self.part = part
    self.I = Interp(prog, Lib(eager))
    if not eager:
      self.I.order = Order(self.I, part.watch)
      X.ALog.on_tensor = self.I.order
    self.t3f = self.I.import_(PKG)
    self.checked = 0
    self.soft = []           # comparisons that were neither proved nor refuted
    self.entry = None
    self.guard = None
    self.store = None        # 'var': operands keep their cores in variables
    self.made = {}           # operands of this call by name, and those of an earlier one
    self.earlier = None
    self.unknowns = None     # atoms of operands whose cores are differentiated by

  def fn(self, path):
    v = self.t3f
    for p in path.split('.'):
      v = self.I.getattr(v, p)
    return v

  def call(self, path, *args, **kw):
    f = self.fn(path) if isinstance(path, str) else path
    self.entry = path
    return self.around(args, kw, lambda: self.I.call(f, list(args), kw))

  def method(self, obj, name, *args, **kw):
    self.entry = name
    return self.around((obj,) + args, kw, lambda: self.I.call(self.I.getattr(obj, name), list(args), kw))

  def around(self, args, kw, f):
    """Hook for rules that look at every call of the library."""
    return f() if self.guard is None else self.guard(args, kw, f)

  def attr(self, obj, name):
    return self.I.getattr(obj, name)

  def hasattr(self, obj, name):
    try:
      self.I.getattr(obj, name)
      return True
    except PyRaise as e:
      if e.etype is AttributeError:
        return False
      raise

  def loc(self):
    """file:line of the entry point last called."""
    e = self.entry
    if isinstance(e, str):
      try:
        f = self.fn(e)
      except (PyRaise, Unsupported):
        f = None
      if isinstance(f, FuncV):
        return '%s:%d %s' % (f.module.file, f.node.lineno, f.name)
      return e
    return str(e)

  # -- verdict helpers ----------------------------------------------------------
  def bad(self, msg, where=None):
    raise Violated(msg, where or [self.loc()])

  def need(self, cond, msg):
    self.checked += 1
    if not cond:
      self.bad(msg)

  def tensor(self, v, what='result'):
    if isinstance(v, Var):
      v = v.t
    if isinstance(v, Tensor):
      return v
    if isinstance(v, (Arr, int, D.Dim, PyFloat, list, tuple)) and not isinstance(v, bool):
      from . import tfmodel as TFM
      return TFM.tens(self.I, v)
    self.bad('%s is a %s, not a tensor' % (what, self.I.typename(v)))

  def shape_is(self, got, want, what):
    self.checked += 1
    if got.shape is None:
      raise Unsupported(got.top)
    if len(got.shape) != len(want) or any(not D.same(a, b) for a, b in zip(got.shape, want)):
      self.bad('%s has shape (%s), expected (%s)' % (
          what, ', '.join(map(D.show, got.shape)), ', '.join(map(D.show, want))))

  def same(self, got, want, what='result', dtype=True, defs=True):
    """got (analysed value) equals want (oracle tensor)."""
    got = self.tensor(got, what)
    self.shape_is(got, want.shape, what)
    if dtype and want.dtype is not None and got.dtype is not None:
      self.checked += 1
      if not X.same_dtype(got.dtype, want.dtype):
        self.bad('%s has dtype %s, expected %s' % (what, got.dtype.name, want.dtype.name))
    if defs and self.I.watch_defs:
      got = X.substitute_atoms(got, self.I.watch_defs)
      want = X.substitute_atoms(want, self.I.watch_defs)
    self.checked += 1
    r = X.equal(got, want)
    if r is None:
      raise Unsupported('value of %s unknown: %s' % (what, got.top or want.top))
    if not r:
      r = numeric.differ(got, want)
      if r is False or r is None and numeric.switches(got):
        self.soft.append('normal forms of %s differ as text but agree at all sample points' % what)
        return
      d = X.difference(got, want)
      self.bad('%s differs from the specified value: %s' % (what, ' | '.join(d)))

  def expect_error(self, path, *args, **kw):
    """The call must end in one of the given exception types."""
    etypes = kw.pop('etypes', (ValueError,))
    why = kw.pop('why', 'invalid operands')
    self.checked += 1
    try:
      r = self.call(path, *args, **kw)
    except PyRaise as e:
      if any(isinstance(e.etype, type) and issubclass(e.etype, t) for t in etypes):
        return e
      self.bad('%s: raises %s (%s) instead of %s' % (
          why, getattr(e.etype, '__name__', e.etype), e.msg[:200], '/'.join(t.__name__ for t in etypes)), e.where)
    self.bad('%s: accepted, no %s is raised' % (why, '/'.join(t.__name__ for t in etypes)))


class Ob(object):
  """An obligation: context name + abstract run + rule."""

  def __init__(self, prop, name, fn, entry=None, eager=True, cap=None, setup=None, limit=None):
    self.prop = prop
    self.name = name
    self.fn = fn
    self.entry = entry
    self.eager = eager
    self.cap = cap or MAX_PARTITIONS
    self.setup = setup
    self.limit = limit


class Result(object):
  def __init__(self, ob):
    self.name = ob.name
    self.prop = ob.prop
    self.status = 'discharged'
    self.msg = ''
    self.where = None
    self.ctx = []
    self.parts = 0
    self.checked = 0
    self.functions = set()
    self.callsites = set()
    self.lines = set()
    self.wall = 0.0
    self.steps = 0


LIMIT = float(os.environ.get('T3FSA_LIMIT', '60'))


def run_ob(prog, ob):
  """One obligation within its time limit."""
  box = []
  old = signal.signal(signal.SIGPROF, _alarm)
  signal.setitimer(signal.ITIMER_PROF, ob.limit or LIMIT)
  try:
    return _run_ob(prog, ob, box)
  except Slow:
    r = box[0]
    r.status = 'undecided'
    r.msg = 'time limit'
    return r
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, old)


def _run_ob(prog, ob, box):
  r = Result(ob)
  box.append(r)
  t0 = time.time()
  p0 = Part()
  work = [p0]
  undecided = None
  while work:
    part = work.pop()
    r.parts += 1
    if r.parts > ob.cap:
      undecided = 'more than %d context partitions' % ob.cap
      break
    part.apply()
    W = None
    try:
      if ob.setup is not None:
        ob.setup(D.CTX)
      if part.le and D.contradictory():
        raise Infeasible()
      W = World(prog, part, ob.eager)
      try:
        ob.fn(W)
      finally:
        X.ALog.on_tensor = None
      if W.soft:
        raise Undecided(W.soft[0])
    except NeedSplit as ns:
      r.parts -= 1
      a, b = split(part, ns)
      work.append(b)
      work.append(a)
      continue
    except Infeasible:
      r.parts -= 1
      continue
    except NeedWatch as e:
      if not set(e.positions) <= part.watch:
        r.parts -= 1
        part.watch |= set(e.positions)
        work.append(part)
        continue
      undecided = 'graph gradient'
    except Violated as v:
      r.status = 'violated'
      r.msg = v.msg
      r.where = v.where
      r.ctx = part.desc
    except PyRaise as e:
      r.status = 'violated'
      r.msg = 'raises %s: %s' % (getattr(e.etype, '__name__', e.etype), e.msg[:300])
      r.where = e.where
      r.ctx = part.desc
    except OpError as e:
      r.status = 'violated'
      r.msg = 'raises %s: %s' % (e.etype, e.msg)
      r.ctx = part.desc
    except (Unsupported, Undecided) as e:
      undecided = '%s [%s]' % (e, (W.I.where()[-1:] if W is not None else '') or '')
      r.ctx = part.desc
      if os.environ.get('T3FSA_DEBUG'):
        traceback.print_exc()
    except RecursionError:
      undecided = 'recursion limit'
    except MemoryError:
      undecided = 'memory limit'
    except (AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError, ZeroDivisionError) as e:
      # a gap of the analyser itself
      undecided = 'analyser: %s: %s' % (type(e).__name__, e)
      if os.environ.get('T3FSA_DEBUG'):
        traceback.print_exc()
    if r.status == 'violated' and D.contradictory():
      r.status = 'discharged'
    elif r.status == 'violated' and (part.desc or D.CTX.le) and not numeric.feasible():
      # no sizes satisfy the partition: not a reachable state
      r.status = 'discharged'
      undecided = 'partition without sample sizes: %s' % ', '.join(part.desc)
    if W is not None:
      r.functions |= W.I.functions
      r.callsites |= W.I.callsites
      r.lines |= W.I.lines
      r.checked += W.checked
      r.steps += W.I.steps
    if r.status == 'violated':
      break
  if r.status != 'violated' and undecided:
    r.status = 'undecided'
    r.msg = undecided
  r.wall = time.time() - t0
  return r


# -- parallel ------------------------------------------------------------------
_G = {}


BUDGET = 600.0        # seconds for all obligations of a property
PATIENCE = 120.0      # seconds after which known violations are reported without the rest
MEMORY = 3 << 30      # bytes per worker


def _start():
  resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def _work(i):
  return i, run_ob(_G['prog'], _G['obs'][i])


def _spread(n):
  """All of range(n), neighbours far apart: a slow entry point does not hold up the others."""
  return sorted(range(n), key=lambda i: (i * 0.6180339887498949) % 1)


def run_all(obs, jobs=None):
  prog = Program(REPO, PKG)
  for m in list(prog.files):
    prog.tree(m)
  _G['prog'] = prog
  _G['obs'] = obs
  jobs = jobs or min(8, os.cpu_count() or 1)
  if jobs == 1 or len(obs) < 4:
    return [run_ob(prog, o) for o in obs], prog
  import multiprocessing as mp
  ctx = mp.get_context('fork')
  t0 = time.time()
  res = [None] * len(obs)
  bad = False
  with ctx.Pool(jobs, _start) as pool:
    todo = pool.imap_unordered(_work, _spread(len(obs)), chunksize=1)
    for _ in obs:
      spent = time.time() - t0
      try:
        i, r = todo.next(max(0.1, (PATIENCE if bad else BUDGET) - spent))
      except mp.TimeoutError:
        break
      res[i] = r
      bad = bad or r.status == 'violated'
  for i, r in enumerate(res):
    if r is None:
      res[i] = Result(obs[i])
      res[i].status = 'undecided'
      res[i].msg = 'not analysed within the time budget'
  return res, prog
