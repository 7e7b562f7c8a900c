"""Catalogue of analysed calls: contexts, operands and oracles.

A case builds symbolic operands for one entry point and returns a Run: the call
plus the oracle that its result has to satisfy.  The properties about single
operations use the oracle; the cross-cutting ones (purity, metadata, dtypes,
size typing, ...) re-analyse the same calls under their own rule.
"""
import itertools

from . import dim as D
from . import tensor as X
from . import spec as S
from .values import *  # noqa
from .lib import GENERIC, GENERIC2, DT
from .driver import Ob, Violated, Undecided, Infeasible


class K(object):
  """Context parameters of a case."""

  def __init__(self, **kw):
    self.__dict__.update(kw)
    self.kw = kw

  def get(self, name, default=None):
    return self.kw.get(name, default)

  def __str__(self):
    return ' '.join('%s=%s' % (k, v) for k, v in sorted(self.kw.items()))


class Run(object):
  def __init__(self, path, args, oracle, kw=None, operands=(), method=None, op=None,
               dense=False, pre=None, result=None):
    self.path = path
    self.args = list(args)
    self.kw = kw or {}
    self.oracle = oracle
    self.operands = list(operands)   # TT operands (for cross-cutting rules)
    self.method = method             # name of a method of args[0]
    self.op = op                     # binary operator symbol
    self.dense = dense               # dense operand or result is intended
    self.result = result             # 'tt', 'tensor', None

  def call(self, W):
    if self.op is not None:
      W.entry = self.path
      return W.around(self.args, {}, lambda: self.operator(W))
    if self.method is not None:
      return W.method(self.args[0], self.method, *self.args[1:], **self.kw)
    return W.call(self.path, *self.args, **self.kw)

  def operator(self, W):
    if self.op == 'neg':
      return W.I.unop('USub', self.args[0])
    if self.op == '[]':
      return W.I.getitem(self.args[0], self.args[1])
    return W.I.binop({'+': 'Add', '-': 'Sub', '*': 'Mult'}[self.op], self.args[0], self.args[1])


class Case(object):
  def __init__(self, props, name, fn, contexts, cross=True, eager=True, more=(), graph=False, setup=None, deep=()):
    self.props = props if isinstance(props, tuple) else (props,)
    self.more = list(more)           # extra contexts of the thorough tier
    self.deep = list(deep)           # extra contexts judged by the oracle only
    self.name = name
    self.fn = fn
    self.contexts = contexts
    self.cross = cross
    self.eager = eager
    self.graph = graph               # also analysed while tracing
    self.setup = setup


CASES = []


def case(props, name, contexts, **kw):
  def deco(fn):
    CASES.append(Case(props, name, fn, list(contexts), **kw))
    return fn
  return deco


def ctx(**kw):
  """Cartesian product of context parameters (each a list)."""
  names = sorted(kw)
  out = []
  for vals in itertools.product(*[kw[n] for n in names]):
    out.append(K(**dict(zip(names, vals))))
  return out


def dyn_batch(k):
  """Context switch: the symbolic batch sizes are unknown while tracing."""
  return k.get('dyn', False)


def bsize(k, kind, name='B'):
  if kind is None:
    return None
  if kind == 'B':
    if k.get('dyn'):
      D.CTX.dynamic.add(name)
    return D.sym(name, 2, ('batch', 0))
  if kind == 'C':
    if k.get('dyn'):
      D.CTX.dynamic.add(name + '2')
    return D.sym(name + '2', 2, ('batch', 1))
  return kind


def one_set(spec, d, which):
  """Positions whose size is 1 under the `ones` parameter."""
  if not spec:
    return ()
  if spec == 'r':
    return tuple(range(d + 1)) if which == 'r' else ()
  if spec == 'n':
    return tuple(range(d)) if which in ('n', 'm') else ()
  if spec == 'e':       # even modes and ranks
    return tuple(range(0, d + 1, 2))
  if spec == 'o':
    return tuple(range(1, d + 1, 2))
  if spec == 'first':
    return (0, 1)
  if spec == 'last':
    return (d - 1,)
  if spec == 'all':
    return tuple(range(d + 1))
  raise AssertionError(spec)


def modes(k, name='n', which='n'):
  return S.modes(name, k.d, one_set(k.get('ones'), k.d, which))


def ranks(k, name):
  return S.ranks(name, k.d, one_set(k.get('ones'), k.d, 'r'))


def operand(W, k, name, kind, n=None, m=None, mat=None, rname=None, r=None, dtype=GENERIC, bname='B'):
  mat = k.get('mat', False) if mat is None else mat
  n = n if n is not None else modes(k, 'n', 'n')
  if mat and m is None:
    m = modes(k, 'm', 'm')
  if not mat:
    m = None
  r = r if r is not None else ranks(k, rname or 'r' + name)
  return S.make(W, name, n, r, m, bsize(k, kind, bname), dtype)


def same_as(W, k, a):
  """The second operand of contexts where it is (or shares its cores with) the first."""
  if k.get('same') == 'object':
    return a
  if k.get('same') == 'cores':
    cls = 'TensorTrain' if a.batch is None else 'TensorTrainBatch'
    inst = W.call(cls, list(W.attr(a.inst, 'tt_cores')), convert_to_tensors=False)
    return S.TT(inst, a.cores, a.n, a.m, a.r, a.batch, a.name)
  return None


def stack_dense(t, batch):
  """Dense value with a leading batch axis (size 1 for single objects)."""
  return t if batch is not None else X.expand_dims(t, 0)


def res_batch(*ops):
  return any(o.batch is not None for o in ops)


def only_ones(*ops):
  """No operand has more than one batch element."""
  return all(o.batch is None or o.batch == 1 for o in ops)


def check_tt(W, res, want, ops, what='result', matrix=None, strict=False):
  """Compare the TT result with a dense oracle that has a leading batch axis.

  A result over one-element batches may come as a single object."""
  cores, mat, b = S.wellformed(W, res, what)
  if matrix is not None and mat != matrix:
    W.bad('%s is %sa TT-matrix' % (what, '' if mat else 'not '))
  if not res_batch(*ops):
    W.need(not b, '%s of single objects is a batch' % what)
  elif strict or not only_ones(*ops):
    W.need(b, '%s of a batch is not a batch' % what)
  t = S.dense_inst(W, res, what)
  if not b:
    t = X.expand_dims(t, 0)
  W.same(t, want, what)


def check_vec(W, res, want, ops, what='result', strict=False):
  """Compare numbers per batch element; want has the leading batch axis.  For a
  one-element batch both a number and a one-element vector are fine, unless
  strict (the result is documented to have the batch size)."""
  got = W.tensor(res, what)
  if got.shape is None:
    raise X.Unsupported(got.top)
  if res_batch(*ops) and not only_ones(*ops):
    W.same(got, want, what)
  elif not res_batch(*ops):
    W.same(got, X.squeeze(want, [0]), what)
  else:
    if got.rank == 0 and not strict:
      got = X.expand_dims(got, 0)
    W.same(got, want, what)


STD = ('', 'r', 'n', 'e', 'o', 'first', 'last', 'all')
PAIR = [(None, None), ('B', 'B'), (None, 'B'), ('B', None), (1, 'B'), ('B', 1), (1, 1), (None, 1), (1, None),
        (3, 3), (1, 3), (3, 1)]


def base_ctx(**kw):
  """All d with generic sizes, and d = 1..3 with some sizes equal to 1."""
  out = ctx(d=[1, 2, 3, 4], ones=[''], **kw)
  out += ctx(d=[1, 2, 3], ones=list(STD[1:]), **kw)
  return out


# -- C01 ----------------------------------------------------------------------

@case('C01', 'full', base_ctx(mat=[False, True], ba=[None, 'B', 1, 3]) + ctx(d=[5, 6], mat=[False, True], ba=[None, 'B']))
def c_full(W, k):
  a = operand(W, k, 'A', k.ba)
  want = S.dense(a)
  return Run('full', [a.inst], lambda r: W.same(r, want), operands=[a], dense=True)


# -- C02 ----------------------------------------------------------------------

def pair_ctx(**kw):
  out = ctx(d=[1, 2, 3], ones=[''], mat=[False, True], pair=PAIR, **kw)
  out += ctx(d=[4], ones=[''], mat=[False, True], pair=PAIR[:4], **kw)
  out += ctx(d=[2, 3], ones=['r', 'n', 'e', 'o', 'all'], mat=[False, True], pair=PAIR[:6], **kw)
  out += ctx(d=[1, 2, 3], mat=[False, True], pair=[(None, None), ('B', 'B'), (3, 3), (1, 1)], same=['object', 'cores'], **kw)
  return out


def _pair(W, k):
  n = modes(k, 'n', 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  a = operand(W, k, 'A', k.pair[0], n, m)
  b = same_as(W, k, a) or operand(W, k, 'Z', k.pair[1], n, m)
  return a, b, stack_dense(S.dense(a), a.batch), stack_dense(S.dense(b), b.batch)


@case('C02', 'add', pair_ctx())
def c_add(W, k):
  a, b, da, db = _pair(W, k)
  return Run('add', [a.inst, b.inst],
             lambda r: check_tt(W, r, X.add(da, db), (a, b), 'a + b', k.mat), operands=[a, b])


@case('C02', 'operator +', pair_ctx())
def c_add_op(W, k):
  a, b, da, db = _pair(W, k)
  return Run('TensorTrainBase.__add__', [a.inst, b.inst],
             lambda r: check_tt(W, r, X.add(da, db), (a, b), 'a + b', k.mat), operands=[a, b], op='+')


@case('C02', 'operator -', pair_ctx())
def c_sub_op(W, k):
  a, b, da, db = _pair(W, k)
  return Run('TensorTrainBase.__sub__', [a.inst, b.inst],
             lambda r: check_tt(W, r, X.add(da, db, -1), (a, b), 'a - b', k.mat), operands=[a, b], op='-')


@case('C02', 'operator neg', base_ctx(mat=[False, True], ba=[None, 'B', 1]))
def c_neg(W, k):
  a = operand(W, k, 'A', k.ba)
  da = stack_dense(S.dense(a), a.batch)
  return Run('TensorTrainBase.__neg__', [a.inst],
             lambda r: check_tt(W, r, X.mul(X.scalar(-1), da), (a,), '-a', k.mat), operands=[a], op='neg')


# -- C03 ----------------------------------------------------------------------

@case('C03', 'multiply', pair_ctx())
def c_mul(W, k):
  a, b, da, db = _pair(W, k)
  return Run('multiply', [a.inst, b.inst],
             lambda r: check_tt(W, r, X.mul(da, db), (a, b), 'a * b', k.mat), operands=[a, b])


@case('C03', 'operator *', pair_ctx())
def c_mul_op(W, k):
  a, b, da, db = _pair(W, k)
  return Run('TensorTrainBase.__mul__', [a.inst, b.inst],
             lambda r: check_tt(W, r, X.mul(da, db), (a, b), 'a * b', k.mat), operands=[a, b], op='*')


NUMS = ('sym', 2, -3, 0, 1, 'pyfloat', 'np', 'tf')


def number(W, v):
  if v == 'sym' or v == 'tf':
    t = X.from_atom('alpha', (), GENERIC)
    return t.view(), t
  if v == 'np':
    t = X.from_atom('alpha', (), None)
    return PyFloat(t.view(), np=True), t
  if v == 'pyfloat':
    t = X.from_atom('alpha', (), None)
    return PyFloat(t.view()), t
  return v, X.scalar(v)


@case('C03', 'multiply by a number', base_ctx(mat=[False, True], ba=[None, 'B', 1], num=['sym']) +
      ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B'], num=list(NUMS)))
def c_scal(W, k):
  a = operand(W, k, 'A', k.ba)
  da = stack_dense(S.dense(a), a.batch)
  c, tc = number(W, k.num)
  want = X.mul(tc.view(dtype=None), da)
  return Run('multiply', [a.inst, c], lambda r: check_tt(W, r, want, (a,), 'a * c', k.mat), operands=[a])


@case('C03', 'operator * with a number', ctx(d=[1, 2, 3, 4], mat=[False, True], ba=[None, 'B', 1],
                                              num=['pyfloat', -3, 2], side=['l', 'r']))
def c_scal_op(W, k):
  a = operand(W, k, 'A', k.ba)
  da = stack_dense(S.dense(a), a.batch)
  c, tc = number(W, k.num)
  want = X.mul(tc.view(dtype=None), da)
  args = [a.inst, c] if k.side == 'r' else [c, a.inst]
  return Run('TensorTrainBase.__mul__', args,
             lambda r: check_tt(W, r, want, (a,), 'c * a', k.mat), operands=[a], op='*')


def weights_val(W, k, b, kind):
  """Weights per batch element as a tf tensor, numpy array or list."""
  if kind == 'tf':
    w = X.from_atom('wt', (b,), GENERIC)
    return w.view(), w
  if kind == 'np':
    w = X.from_atom('wt', (b,), DT['float64'], np=True)
    return w.view(), w.view(dtype=None)
  w = [X.from_atom('wt%d' % i, (), None) for i in range(b)]
  return [PyFloat(x.view()) for x in w], X.from_elements((b,), w, None)


@case('C03', 'multiply_along_batch_dim', base_ctx(mat=[False, True], ba=['B', 1, 3], wk=['tf']) +
      ctx(d=[1, 2, 3], mat=[False, True], ba=[3], wk=['list']) + ctx(d=[2], mat=[False, True], ba=['B', 3], wk=['np']))
def c_mab(W, k):
  a = operand(W, k, 'A', k.ba)
  da = S.dense(a)
  w, tw = weights_val(W, k, a.batch, k.wk)
  wd = tw
  for _ in range(da.rank - 1):
    wd = X.expand_dims(wd, -1)
  want = X.mul(wd.view(dtype=None), da)
  return Run('multiply_along_batch_dim', [a.inst, w],
             lambda r: check_tt(W, r, want, (a,), 'w * a', k.mat, strict=True), operands=[a])


# -- C04 ----------------------------------------------------------------------

def dmat(a, b):
  """Batched dense matrix product with broadcasting of the leading axis."""
  ba, bb = a.shape[0], b.shape[0]
  if ba == 1 and bb != 1:
    return X.einsum([['i', 'j'], ['B', 'j', 'k']], ['B', 'i', 'k'], [X.squeeze(a, [0]), b])
  if bb == 1 and ba != 1:
    return X.einsum([['B', 'i', 'j'], ['j', 'k']], ['B', 'i', 'k'], [a, X.squeeze(b, [0])])
  return X.einsum([['B', 'i', 'j'], ['B', 'j', 'k']], ['B', 'i', 'k'], [a, b])


MM = ctx(d=[1, 2, 3], ones=[''], pair=PAIR) + ctx(d=[4], ones=[''], pair=PAIR[:4]) + \
    ctx(d=[1, 2, 3], ones=['r', 'n', 'e', 'o', 'all'], pair=PAIR[:6]) + \
    ctx(d=[1, 2, 3], pair=[(None, None), ('B', 'B'), (3, 3), (1, 1)], same=['object', 'cores'])


@case('C04', 'matmul TT x TT', MM)
def c_mm(W, k):
  n, m, p = modes(k, 'n'), modes(k, 'm', 'm'), modes(k, 'p')
  a = operand(W, k, 'A', k.pair[0], n, n if k.get('same') else m, True)
  b = same_as(W, k, a) or operand(W, k, 'Z', k.pair[1], m, p, True)
  want = dmat(stack_dense(S.dense(a), a.batch), stack_dense(S.dense(b), b.batch))
  return Run('matmul', [a.inst, b.inst], lambda r: check_tt(W, r, want, (a, b), 'A B', True), operands=[a, b])


@case('C04', 'matmul TT x column TT-vector', ctx(d=[1, 2, 3], pair=PAIR[:4]))
def c_mv(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  a = operand(W, k, 'A', k.pair[0], n, m, True)
  b = operand(W, k, 'Z', k.pair[1], m, [1] * k.d, True)
  want = dmat(stack_dense(S.dense(a), a.batch), stack_dense(S.dense(b), b.batch))
  return Run('matmul', [a.inst, b.inst], lambda r: check_tt(W, r, want, (a, b), 'A b', True), operands=[a, b])


def dense_input(name, shape, groups, dtype=GENERIC, static=None):
  return X.from_atom(name, shape, dtype, groups=groups, static=static)


@case('C04', 'matmul TT x dense', base_ctx() + ctx(d=[2], cols=[1]))
def c_mtd(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  a = operand(W, k, 'A', None, n, m, True)
  p = k.get('cols') or D.sym('P', 2, ('dense', 0))
  x = dense_input('x', (D.prod(m), p), [m, [p]])
  want = X.einsum([['i', 'j'], ['j', 'k']], ['i', 'k'], [S.dense(a), x])
  return Run('matmul', [a.inst, x.view()], lambda r: W.same(r, want, 'A x'), operands=[a], dense=True)


@case('C04', 'matmul dense x TT', base_ctx() + ctx(d=[2], cols=[1]))
def c_mdt(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  a = operand(W, k, 'A', None, n, m, True)
  p = k.get('cols') or D.sym('P', 2, ('dense', 0))
  x = dense_input('x', (p, D.prod(n)), [[p], n])
  want = X.einsum([['i', 'j'], ['j', 'k']], ['i', 'k'], [x, S.dense(a)])
  return Run('matmul', [x.view(), a.inst], lambda r: W.same(r, want, 'x A'), operands=[a], dense=True)


@case('C04', 'transpose', base_ctx(ba=[None, 'B', 1, 3]))
def c_tr(W, k):
  a = operand(W, k, 'A', k.ba, mat=True)
  da = stack_dense(S.dense(a), a.batch)
  return Run('transpose', [a.inst],
             lambda r: check_tt(W, r, X.transpose(da, [0, 2, 1]), (a,), "A'", True, strict=True), operands=[a])


# -- C05 ----------------------------------------------------------------------

def dinner(a, b):
  """Sum over everything but the (broadcast) leading axis."""
  p = X.mul(a, b)
  return X.reduce_sum(p, list(range(1, p.rank)))


@case('C05', 'flat_inner', pair_ctx())
def c_fi(W, k):
  a, b, da, db = _pair(W, k)
  want = dinner(da, db)
  return Run('flat_inner', [a.inst, b.inst], lambda r: check_vec(W, r, want, (a, b), '<a, b>'), operands=[a, b])


def sparse_of(W, k, shape, idx=None):
  from .values import Sparse
  N = D.sym('N', 2, ('nnz', 0))
  q = len(shape)
  ind = X.from_atom('idx', (N, q), DT['int64'])
  val = X.from_atom('val', (N,), GENERIC)
  return Sparse(ind.view(), val.view(), Arr((q,), list(shape), 'tf')), ind, val, N


@case('C05', 'flat_inner with sparse tensor', ctx(d=[1, 2, 3, 4], ones=['']) + ctx(d=[2, 3], ones=['r', 'e']))
def c_fis(W, k):
  a = operand(W, k, 'A', None, mat=False)
  sp, ind, val, N = sparse_of(W, k, a.n)
  el = gather_dense(S.dense(a), ind)
  want = X.reduce_sum(X.mul(el, val))
  return Run('flat_inner', [a.inst, sp], lambda r: W.same(r, want, '<a, sparse>'), operands=[a], dense=True)


def digit_columns(name, N, sizes):
  """Index vectors, one per mode, with values below the mode size."""
  out = []
  for i, n in enumerate(sizes):
    t = X.from_atom('%s%d' % (name, i), (N,), DT['int64'], nonneg=True)
    X.T.TC.below['%s%d' % (name, i)] = n
    out.append(t if n != 1 else X.const_fill(0, (N,), DT['int64']))
  return out


def linear_index(cols, sizes):
  t, stride = None, 1
  for c, n in reversed(list(zip(cols, sizes))):
    x = X.mul(X.scalar(stride), c)
    t = x if t is None else X.add(t, x)
    stride = D.mul(stride, n)
  return t


@case('C05', 'flat_inner with sparse matrix', ctx(d=[1, 2, 3], ones=['']) + ctx(d=[2, 3], ones=['r', 'e', 'o', 'n']) + ctx(d=[4], ones=['']))
def c_fism(W, k):
  from .values import Sparse
  a = operand(W, k, 'A', None, mat=True)
  N = D.sym('N', 2, ('nnz', 0))
  ri, ci = digit_columns('ri', N, a.n), digit_columns('ci', N, a.m)
  val = X.from_atom('val', (N,), GENERIC)
  ind = X.concat([X.expand_dims(z, 1) for z in [linear_index(ri, a.n), linear_index(ci, a.m)]], 1)
  sp = Sparse(ind.view(), val.view(), Arr((2,), [D.prod(a.n), D.prod(a.m)], 'tf'))
  el = gather_dense(X.reshape(S.dense(a), list(a.n) + list(a.m)), X.concat([X.expand_dims(z, 1) for z in ri + ci], 1))
  want = X.reduce_sum(X.mul(el, val))
  return Run('flat_inner', [a.inst, sp], lambda r: W.same(r, want, '<a, sparse>'), operands=[a], dense=True)


def gather_dense(dense_t, ind, cols=None):
  """Elements of dense_t addressed by the columns of the index matrix."""
  t = dense_t
  ax = X.axes(X.aligned(t))
  t = X.aligned(t)
  N = ind.shape[:-1]
  nl = [X.fresh(x) for x in N if x != 1]
  mp = {}
  for c in range(t.rank):
    col = X.index_axis(ind, len(N), c)
    if t.shape[c] == 1:
      continue
    mp[ax[c][0]] = X.to_leg(col)(nl)
  terms = [X.T.t_sub(X.T.freshen(x), mp) for x in t.terms]
  return X.Tensor(N, nl, terms, t.dtype)


@case('C05', 'frobenius_norm_squared', base_ctx(mat=[False, True], ba=[None, 'B', 1, 3], diff=[False, True]))
def c_fns(W, k):
  a = operand(W, k, 'A', k.ba)
  da = stack_dense(S.dense(a), a.batch)
  want = dinner(da, da)
  return Run('frobenius_norm_squared', [a.inst], lambda r: check_vec(W, r, want, (a,), '|a|^2', strict=True),
             kw={'differentiable': k.diff}, operands=[a])


@case('C05', 'frobenius_norm', ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B', 1], diff=[False, True], eps=[None, 'sym', 0]))
def c_fn(W, k):
  a = operand(W, k, 'A', k.ba)
  da = stack_dense(S.dense(a), a.batch)
  kw = {'differentiable': k.diff}
  if k.eps is None:
    e = X.scalar(S.Fraction(1, 100000))
  elif k.eps == 'sym':
    e = X.from_atom('eps', (), None, nonneg=True)
    kw['epsilon'] = PyFloat(e.view())
  else:
    e = X.scalar(0)
    kw['epsilon'] = 0.
    kw['epsilon'] = PyFloat(0)
  want = X.pow_const(X.add(dinner(da, da), e), S.Fraction(1, 2))
  return Run('frobenius_norm', [a.inst], lambda r: check_vec(W, r, want, (a,), '|a|', strict=True), kw=kw, operands=[a])


# -- C06 ----------------------------------------------------------------------

BP = [(None, None), ('B', 'B'), (None, 'B'), ('B', None), (3, 3)]
SAME = [(None, None), ('B', 'B'), (3, 3)]


@case('C06', 'bilinear_form', ctx(d=[1, 2, 3, 4], ones=[''], pair=BP) + ctx(d=[2, 3], ones=['r', 'n', 'e', 'o'], pair=BP[:4]) +
      ctx(d=[1, 2, 3], pair=SAME, same=['object', 'cores']))
def c_bf(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  if k.get('same'):
    m = n
  A = operand(W, k, 'A', None, n, m, True)
  b = operand(W, k, 'b', k.pair[0], n, [1] * k.d, True)
  c = same_as(W, k, b) or operand(W, k, 'c', k.pair[1], m, [1] * k.d, True)
  want = dinner(stack_dense(S.dense(b), b.batch),
                dmat(X.expand_dims(S.dense(A), 0), stack_dense(S.dense(c), c.batch)))
  return Run(k.get('fn', 'bilinear_form'), [A.inst, b.inst, c.inst],
             lambda r: check_vec(W, r, want, (b, c), "b'Ac"), operands=[A, b, c])


@case('C06', 'quadratic_form', ctx(d=[1, 2, 3], pair=BP[:2], fn=['quadratic_form']))
def c_qf(W, k):
  return c_bf(W, k)


@case('C06', 'bilinear_form_two_mat', ctx(d=[1, 2, 3], ones=[''], pair=BP) + ctx(d=[2], ones=['r', 'n', 'e', 'o'], pair=BP[:4]) +
      ctx(d=[1, 2, 3], pair=SAME, same=['object', 'cores']))
def c_bf2(W, k):
  n, m, p = modes(k, 'n'), modes(k, 'm', 'm'), modes(k, 'p')
  if k.get('same'):
    m = p = n
  A = operand(W, k, 'A', None, n, m, True)
  B = same_as(W, k, A) or operand(W, k, 'H', None, m, p, True)
  x = operand(W, k, 'x', k.pair[0], n, [1] * k.d, True)
  y = same_as(W, k, x) or operand(W, k, 'y', k.pair[1], p, [1] * k.d, True)
  By = dmat(X.expand_dims(S.dense(B), 0), stack_dense(S.dense(y), y.batch))
  want = dinner(stack_dense(S.dense(x), x.batch), dmat(X.expand_dims(S.dense(A), 0), By))
  return Run('ops.bilinear_form_two_mat', [x.inst, A.inst, B.inst, y.inst],
             lambda r: check_vec(W, r, want, (x, y), "x'ABy"), operands=[A, B, x, y])


def pairwise(a, b):
  """[p, ...], [q, ...] -> [p, q] inner products."""
  l = ['i%d' % i for i in range(a.rank - 1)]
  return X.einsum([['p'] + l, ['q'] + l], ['p', 'q'], [a, b])


PW = [('B', 'C'), ('B', 1), (1, 'C'), (1, 1), (2, 3), (3, 3)]


@case('C06', 'pairwise_flat_inner', ctx(d=[1, 2, 3, 4], ones=[''], mat=[False, True], pair=PW) +
      ctx(d=[2, 3], ones=['r', 'n', 'e', 'o'], mat=[False, True], pair=PW[:1]) +
      ctx(d=[1, 2, 3], mat=[False, True], pair=[('B', 'B'), (3, 3), (1, 1)], same=['object', 'cores']))
def c_pfi(W, k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  a = operand(W, k, 'A', k.pair[0], n, m)
  b = same_as(W, k, a) or operand(W, k, 'Z', k.pair[1], n, m)
  want = pairwise(S.dense(a), S.dense(b))
  return Run('pairwise_flat_inner', [a.inst, b.inst], lambda r: W.same(r, want, 'pairwise inner products'),
             operands=[a, b])


@case('C06', 'gram_matrix', ctx(d=[1, 2, 3, 4], mat=[False, True], ba=['B', 1, 3]))
def c_gram(W, k):
  a = operand(W, k, 'A', k.ba)
  da = S.dense(a)
  want = pairwise(da, da)
  return Run('gram_matrix', [a.inst], lambda r: W.same(r, want, 'Gram matrix'), operands=[a])


@case('C06', 'pairwise_flat_inner with matrix', ctx(d=[1, 2, 3], ones=[''], pair=PW) +
      ctx(d=[2, 3], ones=['r', 'e', 'o'], pair=PW[:1]) +
      ctx(d=[1, 2, 3], pair=[('B', 'B'), (3, 3), (1, 1)], same=['object', 'cores']))
def c_pfim(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  if k.get('same'):
    m = n
  a = operand(W, k, 'A', k.pair[0], n, [1] * k.d, True)
  b = same_as(W, k, a) or operand(W, k, 'Z', k.pair[1], m, [1] * k.d, True)
  M = operand(W, k, 'M', None, n, m, True)
  want = pairwise(S.dense(a), dmat(X.expand_dims(S.dense(M), 0), S.dense(b)))
  return Run('pairwise_flat_inner', [a.inst, b.inst, M.inst], lambda r: W.same(r, want, 'pairwise forms'),
             operands=[a, b, M])


@case('C06', 'gram_matrix with matrix', ctx(d=[1, 2, 3], ba=['B', 1, 3]))
def c_gramm(W, k):
  n = modes(k, 'n')
  a = operand(W, k, 'A', k.ba, n, [1] * k.d, True)
  M = operand(W, k, 'M', None, n, n, True)
  want = pairwise(S.dense(a), dmat(X.expand_dims(S.dense(M), 0), S.dense(a)))
  return Run('gram_matrix', [a.inst, M.inst], lambda r: W.same(r, want, 'Gram matrix'), operands=[a, M])


# -- C07 ----------------------------------------------------------------------

def index_object(v, sym):
  """An index as a Python integer, a NumPy integer or a scalar tensor."""
  if sym == 'np':
    return npint(v)
  if sym == 'ten':
    return X.scalar(v, DT['int32']).view()
  return v


def index_spec(k, d, pat, sizes, sym):
  """Python index objects and the matching dense operations for a pattern."""
  out = []
  for j, p in enumerate(pat):
    n = sizes[j]
    if p == 'i':       # symbolic non-negative integer below the size
      if sym == 'lit':
        out.append((0 if j % 2 == 0 else 1, 0 if j % 2 == 0 else 1))
      elif sym == 'neg':
        out.append((-1, D.sub(n, 1)))
      else:
        v = D.sym('ix%d' % j, 0, ('index', j))
        D.CTX.le.append((D.add(v, 1), n))
        out.append((index_object(v, sym), v))
    elif p == ':':
      out.append((slice(None, None, None), (0, n, 1)))
    elif p == 's':     # 1:
      out.append((slice(1, None, None), (1, n, 1)))
    elif p == 't':     # :-1
      out.append((slice(None, -1, None), (0, D.sub(n, 1), 1)))
    elif p == 'u':     # a:b symbolic
      lo = D.sym('lo%d' % j, 0, ('index', j))
      ln = D.sym('ln%d' % j, 2, ('slice', j))
      D.CTX.le.append((D.add(lo, ln), n))
      out.append((slice(index_object(lo, sym), index_object(D.add(lo, ln), sym), None), (lo, D.add(lo, ln), 1)))
    elif p == 'v':     # a:b:3 of a multiple of three elements
      lo = D.sym('lo%d' % j, 0, ('index', j))
      ln = D.mul(3, D.sym('ln%d' % j, 2, ('slice', j)))
      D.CTX.le.append((D.add(lo, ln), n))
      out.append((slice(lo, D.add(lo, ln), 3), (lo, D.add(lo, ln), 3)))
    elif p == '1':     # 1:2
      out.append((slice(1, 2, None), (1, 2, 1)))
  return out


def dense_index(t, specs):
  ax = 0
  for _, v in specs:
    if isinstance(v, tuple):
      t = X.slice_axis(t, ax, v[0], v[1], v[2])
      ax += 1
    else:
      t = X.index_axis(t, ax, v)
  return t


def patterns(d, alphabet='i:', limit=None):
  return [''.join(p) for p in itertools.product(alphabet, repeat=d)]


IDX = [K(d=d, pat=p, sym=s) for d in (1, 2, 3) for p in patterns(d) for s in ('sym', 'neg')] + \
    [K(d=4, pat=p, sym='sym') for p in patterns(4)] + \
    [K(d=3, pat=p, sym='sym') for p in patterns(3, 'iu')] + \
    [K(d=2, pat=p, sym='lit') for p in patterns(2, 'i:st1u')] + \
    [K(d=1, pat=p, sym=s, bare=True) for p in 'i:su' for s in ('sym', 'lit', 'neg')] + \
    [K(d=3, pat=p, sym='sym') for p in ('s:i', 'ts:', 'i1t', '1i1', 'iis', 'sii', 'isi')] + \
    [K(d=2, pat=p, sym=s) for p in patterns(2, 'i:u') for s in ('np', 'ten')] + \
    [K(d=1, pat=p, sym=s, bare=True) for p in 'iu' for s in ('np', 'ten')] + \
    [K(d=2, pat=p, sym='sym') for p in ('v:', 'iv', 'vi', 'vv')]


@case('C07', 'TensorTrain[...]', IDX)
def c_idx(W, k):
  a = operand(W, k, 'A', None, mat=False)
  specs = index_spec(k, k.d, k.pat, a.n, k.sym)
  want = dense_index(S.dense(a), specs)
  spec = tuple(s for s, _ in specs)
  if k.get('bare'):      # a[1] instead of a[1,]
    spec = spec[0]

  def oracle(r):
    if all(not isinstance(v, tuple) for _, v in specs):
      # every dimension dropped: the element itself
      if isinstance(r, Inst):
        W.bad('indexing with integers only returns a %s' % r.cls.name)
      W.same(r, want, 'element')
    else:
      S.check_value(W, r, want, 'a[%s]' % k.pat, batch=False, matrix=False)
  return Run('TensorTrain.__getitem__', [a.inst, spec], oracle, operands=[a], op='[]')


BIDX = [K(d=d, pat=b + p, sym=s) for d in (1, 2, 3) for b in 'i:' for p in patterns(d) for s in ('sym',)] + \
    [K(d=2, pat=b + p, sym='lit') for b in 'i:su' for p in patterns(2, 'i:su')] + \
    [K(d=2, pat=b + p, sym='neg') for b in 'i:' for p in patterns(2, 'i:')] + \
    [K(d=2, pat=b + p, sym=s) for b in 'i:u' for p in patterns(2, 'i:') for s in ('np', 'ten')] + \
    [K(d=2, pat=p, sym='sym') for p in ('v::', 'viv', 'ivi')]


@case('C07', 'TensorTrainBatch[..., full index]', BIDX)
def c_bidx(W, k):
  a = operand(W, k, 'A', 'B', mat=False)
  specs = index_spec(k, k.d + 1, k.pat, [a.batch] + a.n, k.sym)
  want = dense_index(S.dense(a), specs)
  spec = tuple(s for s, _ in specs)

  def oracle(r):
    if all(not isinstance(v, tuple) for _, v in specs[1:]):
      if isinstance(r, Inst):
        W.bad('indexing with integers only returns a %s' % r.cls.name)
      W.same(r, want, 'element')
    else:
      S.check_value(W, r, want, 'a[%s]' % k.pat, batch=isinstance(specs[0][1], tuple), matrix=False)
  return Run('TensorTrainBatch.__getitem__', [a.inst, spec], oracle, operands=[a], op='[]')


@case('C07', 'TensorTrainBatch[batch index]', ctx(d=[1, 2, 3], mat=[False, True], pat=['i', ':', 's', 't', 'u', '1'], sym=['sym', 'lit', 'neg']) +
      ctx(d=[1, 2], mat=[False, True], pat=['i', 'u'], sym=['np', 'ten']) + ctx(d=[1, 2], mat=[False, True], pat=['v'], sym=['sym']) +
      ctx(d=[2], mat=[False, True], pat=['i', ':'], sym=['lit'], ba=[1, 3], tup=[False, True]))
def c_bbidx(W, k):
  a = operand(W, k, 'A', k.get('ba', 'B'))
  specs = index_spec(k, 1, k.pat, [a.batch], k.sym)
  t = S.dense(a)
  v = specs[0][1]
  want = X.slice_axis(t, 0, v[0], v[1], v[2]) if isinstance(v, tuple) else X.index_axis(t, 0, v)
  arg = specs[0][0]
  return Run('TensorTrainBatch.__getitem__', [a.inst, (arg,) if k.get('tup') else arg],
             lambda r: S.check_value(W, r, want, 'a[%s]' % k.pat, batch=isinstance(v, tuple), matrix=k.mat),
             operands=[a], op='[]')


@case('C07', 'gather_nd', ctx(d=[1, 2, 3, 4], ones=[''], ba=[None, 'B'], N=['N', 1]) + ctx(d=[2, 3], ones=['r', 'e'], ba=[None, 'B'], N=['N']) +
      ctx(d=[1, 2, 3], ba=[None, 'B'], N=['NM', 'N1', '1M', 'NMP']))
def c_gnd(W, k):
  a = operand(W, k, 'A', k.ba, mat=False)
  N = tuple(1 if c in (1, '1') else D.sym(c, 2, ('nnz', 0)) for c in (k.N if isinstance(k.N, str) else [k.N]))
  q = k.d + (1 if k.ba else 0)
  ind = X.from_atom('idx', N + (q,), DT['int32'])
  want = gather_dense(S.dense(a), ind)
  return Run('gather_nd', [a.inst, ind.view()], lambda r: W.same(r, want, 'gathered elements'),
             operands=[a])


# -- C28 ----------------------------------------------------------------------

@case('C28', 'renormalize_tt_cores', base_ctx(mat=[False, True], ba=[None, 'B', 1, 3]))
def c_renorm(W, k):
  a = operand(W, k, 'A', k.ba)
  want = stack_dense(S.dense(a), a.batch)
  return Run('renormalize_tt_cores', [a.inst],
             lambda r: check_tt(W, r, want, (a,), 'renormalised object', k.mat, strict=True), operands=[a])


@case('C28', 'renormalize_tt_cores norms', base_ctx(mat=[False, True], ba=[None, 'B', 1, 3]))
def c_renorm_norms(W, k):
  a = operand(W, k, 'A', k.ba)

  def oracle(r):
    cores, mat, b = S.wellformed(W, r, 'renormalised object')
    W.need(mat == k.mat and b == (k.ba is not None), 'the kind of the object changes')
    def norm2(c):
      ls = 'abcde'[:c.rank]
      return X.einsum([ls, ls], 'a' if b else '', [c, c])
    old = [norm2(c) for c in a.cores]
    scale = X.scalar(1)
    for q in old:
      scale = X.mul(scale, X.pow_const(q, S.Fraction(1, 2 * k.d)))
    W.checked += k.d
    want = []
    for c, q in zip(a.cores, old):
      ls = 'abcde'[:c.rank]
      want.append(X.einsum([ls, 'a' if b else ''], ls, [c, X.mul(scale, X.pow_const(q, S.Fraction(-1, 2)))]))
    if all(X.equal(c, w) for c, w in zip(cores, want)):
      return
    sq = [norm2(c) for c in cores]
    for i, q in enumerate(sq[1:]):
      W.same(q, sq[0], 'the squared norm of core %d (compared with core 0)' % (i + 1))
  return Run('renormalize_tt_cores', [a.inst], oracle, kw={'epsilon': PyFloat(X.scalar(0).view())}, operands=[a])


@case('C28', 'expand_batch_dim', base_ctx(mat=[False, True], ba=[None, 'B', 1]))
def c_expand(W, k):
  a = operand(W, k, 'A', k.ba)
  want = stack_dense(S.dense(a), a.batch)

  def oracle(r):
    W.need(S.is_batch(W, r), 'expand_batch_dim does not return a batch')
    S.check_value(W, r, want, 'expanded object', batch=True, matrix=k.mat)
  return Run('expand_batch_dim', [a.inst], oracle, operands=[a])


@case('C28', 'squeeze_batch_dim', base_ctx(mat=[False, True], ba=[None, 'B', 1, 3]))
def c_squeeze(W, k):
  a = operand(W, k, 'A', k.ba)
  want = S.dense(a)

  def oracle(r):
    if k.ba == 1:
      S.check_value(W, r, X.squeeze(want, [0]), 'squeezed object', batch=False, matrix=k.mat)
    else:
      S.check_value(W, r, want, 'squeezed object', batch=k.ba is not None, matrix=k.mat)
  return Run('squeeze_batch_dim', [a.inst], oracle, operands=[a])


@case('C28', 'concat_along_batch_dim', ctx(d=[1, 2, 3], ones=[''], mat=[False, True], bs=['B', 'BC', 'B1', '1B', 'BCB', '11', '23']) +
      ctx(d=[2, 3], ones=['r', 'n', 'e', 'o'], mat=[False, True], bs=['BC']) +
      ctx(d=[1, 2, 3], mat=[False, True], bs=['BB', 'BBB', '33', '11'], same=['object', 'cores']))
def c_concat(W, k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  r = ranks(k, 'rA')
  ops = []
  for i, c in enumerate(k.bs):
    ops.append(same_as(W, k, ops[0]) if k.get('same') and ops else operand(W, k, 'A%d_' % i, c if c in 'BC' else int(c), n, m, r=r))
  want = X.concat([S.dense(o) for o in ops], 0)
  return Run('concat_along_batch_dim', [[o.inst for o in ops]],
             lambda res: S.check_value(W, res, want, 'concatenated batch', batch=True, matrix=k.mat),
             operands=ops)
