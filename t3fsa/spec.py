"""Oracle side: symbolic TT-objects and their dense meaning."""
from fractions import Fraction

from . import dim as D
from . import term as T
from . import tensor as X
from .tensor import Tensor
from .values import *  # noqa
from .lib import GENERIC, GENERIC2, DT


class TT(object):
  """A symbolic TT-object passed to the code, with its core atoms."""

  def __init__(self, inst, cores, n, m, r, batch, name):
    self.inst = inst
    self.cores = cores
    self.n = n
    self.m = m
    self.r = r
    self.batch = batch
    self.name = name
    self.d = len(cores)


def modes(name, d, ones=(), lb=2):
  return [1 if k in ones else D.sym('%s%d' % (name, k), lb, ('mode', k)) for k in range(d)]


def ranks(name, d, ones=(), lb=2):
  return [1] + [1 if k in ones else D.sym('%s%d' % (name, k), lb, ('rank', k)) for k in range(1, d)] + [1]


def cores_of(name, n, r, m=None, batch=None, dtype=GENERIC):
  out = []
  for k in range(len(n)):
    sh = [r[k], n[k]] + ([m[k]] if m is not None else []) + [r[k + 1]]
    if batch is not None:
      sh = [batch] + sh
    out.append(X.from_atom('%s%d' % (name, k), sh, dtype))
  return out


def make(W, name, n, r, m=None, batch=None, dtype=GENERIC, cores=None):
  """Build a TT-object of the package from fresh cores through its constructor."""
  first = W.earlier is None or name not in W.earlier
  cs = cores or cores_of(name if first else name + '_', n, r, m, batch, dtype)
  cls = 'TensorTrain' if batch is None else 'TensorTrainBatch'
  views = [c.view() for c in cs]
  if W.unknowns is not None:
    from . import tfmodel as TFM
    for v in views:
      W.unknowns.update(f[0].key for e in v.terms for f in e.fs)
      TFM.unknown(W.I, v)
  if not first and W.store == 'var':
    inst = W.earlier[name]
    for x, v in zip(W.attr(inst, 'tt_cores'), views):
      x.t = v
    return TT(inst, cs, n, m, r, batch, name)
  if W.store == 'var':
    views = [Var(v, '%s/core_%d' % (name, j)) for j, v in enumerate(views)]
    inst = W.call(cls, views, convert_to_tensors=False)
  else:
    inst = W.call(cls, views)
  if W.earlier is not None:
    W.made[name] = inst
  return TT(inst, cs, n, m, r, batch, name)


def dense_cores(cores, matrix, batch):
  """The dense tensor defined by cores (einsum of all of them)."""
  ins = []
  out = []
  rows, cols = [], []
  for k, c in enumerate(cores):
    l = ['B'] if batch else []
    l += ['r%d' % k, 'i%d' % k] + (['j%d' % k] if matrix else []) + ['r%d' % (k + 1)]
    ins.append(l)
    rows.append('i%d' % k)
    cols.append('j%d' % k)
  d = len(cores)
  out = (['B'] if batch else []) + ['r0'] + rows + (cols if matrix else []) + ['r%d' % d]
  t = X.einsum(ins, out, cores)
  o = 1 if batch else 0
  t = X.squeeze(t, [o, t.rank - 1])
  if matrix:
    sh = [t.shape[0]] if batch else []
    sh += [D.prod(t.shape[o:o + d]), D.prod(t.shape[o + d:])]
    t = X.reshape(t, sh)
  return t


def dense(tt):
  return dense_cores(tt.cores, tt.m is not None, tt.batch is not None)


def is_inst(W, v, cls):
  return isinstance(v, Inst) and W.fn(cls) in v.cls.mro()


def is_batch(W, v):
  return is_inst(W, v, 'TensorTrainBatch')


def is_tt(W, v):
  return isinstance(v, Inst) and W.fn('TensorTrainBase') in v.cls.mro()


def cores_in(W, inst, what='result'):
  """The cores an instance holds."""
  if not is_tt(W, inst):
    W.bad('%s is a %s, not a TT-object' % (what, W.I.typename(inst)))
  cs = W.attr(inst, 'tt_cores')
  return [W.tensor(c, 'core of ' + what) for c in W.I.iterate(cs)]


def core_kind(W, inst, cores=None, what='result'):
  """(is matrix, is batch) from the cores and class."""
  cores = cores if cores is not None else cores_in(W, inst, what)
  b = is_batch(W, inst)
  rk = cores[0].rank - (1 if b else 0)
  if rk not in (3, 4):
    W.bad('%s has %d-dimensional cores' % (what, cores[0].rank))
  return rk == 4, b


def wellformed(W, inst, what='result'):
  """Structural validity: chain of ranks, boundary ranks, batch sizes."""
  cores = cores_in(W, inst, what)
  if not cores:
    W.bad('%s has no cores' % what)
  mat, b = core_kind(W, inst, cores, what)
  o = 1 if b else 0
  W.checked += 1
  for k, c in enumerate(cores):
    if c.shape is None:
      raise X.Unsupported(c.top)
    if c.rank != cores[0].rank:
      W.bad('%s: core %d has rank %d, core 0 has rank %d' % (what, k, c.rank, cores[0].rank))
    if k and not D.same(c.shape[o], cores[k - 1].shape[-1]):
      W.bad('%s: core %d starts with TT-rank %s but core %d ends with %s' % (
          what, k, D.show(c.shape[o]), k - 1, D.show(cores[k - 1].shape[-1])))
    if b and not D.same(c.shape[0], cores[0].shape[0]):
      W.bad('%s: batch size of core %d is %s, of core 0 %s' % (
          what, k, D.show(c.shape[0]), D.show(cores[0].shape[0])))
  if not D.same(cores[0].shape[o], 1) or not D.same(cores[-1].shape[-1], 1):
    W.bad('%s: boundary TT-ranks are %s and %s' % (
        what, D.show(cores[0].shape[o]), D.show(cores[-1].shape[-1])))
  return cores, mat, b


def dense_inst(W, inst, what='result'):
  cores, mat, b = wellformed(W, inst, what)
  for c in cores:
    if c.top:
      raise X.Unsupported(c.top)
  return dense_cores(cores, mat, b)


def check_value(W, inst, want, what='result', batch=None, matrix=None, dtype=True):
  """inst is a TT-object representing exactly the dense tensor `want`."""
  cores, mat, b = wellformed(W, inst, what)
  if batch is not None and b != batch:
    W.bad('%s is %sa batch' % (what, '' if b else 'not '))
  if matrix is not None and mat != matrix:
    W.bad('%s is %sa TT-matrix' % (what, '' if mat else 'not '))
  t = dense_inst(W, inst, what)
  W.same(t, want, what, dtype)
  return t
