"""Rejected and accepted constructor arguments (C11) and operands (C12)."""
from . import dim as D
from . import term as T
from . import tensor as X
from . import spec as S
from fractions import Fraction

from .values import *  # noqa
from .lib import GENERIC, GENERIC2, DT
from .driver import Infeasible
from .cases import (Run, case, ctx, K, operand, modes, ranks, bsize)


def larger(x, name='e0'):
  """A size above x."""
  return D.add(x, D.sym(name, 1, ('mode', 9)))


# -- C11: constructors ---------------------------------------------------------

def _parts(k, dtype=GENERIC):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  r = ranks(k, 'r')
  b = bsize(k, k.ba)
  shapes = []
  for i in range(k.d):
    sh = [r[i], n[i]] + ([m[i]] if k.mat else []) + [r[i + 1]]
    shapes.append(([b] if b is not None else []) + sh)
  return n, m, r, b, shapes


def _cores(shapes, dtypes=None):
  return [X.from_atom('A%d' % i, sh, dtypes[i] if dtypes else GENERIC) for i, sh in enumerate(shapes)]


def _shape_arg(form, n, m):
  """An explicit shape in one of the accepted notations."""
  rows = [n] + ([m] if m is not None else [])
  if form == 'list':
    return [list(x) for x in rows] if m is not None else list(n)
  if form == 'tuple':
    return tuple(tuple(x) for x in rows) if m is not None else tuple(n)
  if form == 'ts':
    return tuple(TShape(tuple(x)) for x in rows) if m is not None else TShape(tuple(n))
  return tuple(TShape(tuple(x)) for x in rows)        # 'tts'


def _ranks_arg(form, r):
  return list(r) if form in ('list', 'tuple') else TShape(tuple(r))


def _cls(k):
  return 'TensorTrain' if k.ba is None else 'TensorTrainBatch'


KINDS = dict(mat=[False, True], ba=[None, 'B', 1, 3])
KIND2 = dict(mat=[False, True], ba=[None, 'B'])


def at(ds, first=0, last=0, **kw):
  """Contexts with every core position pos in first .. d - 1 + last."""
  out = []
  for d in ds:
    out += ctx(d=[d], pos=list(range(first, d + last)), **kw)
  return out


@case('C11', 'neighbouring ranks differ', at([2, 3, 4], 1, how=['up', 'down', 'one', 'to one'], meta=['', 'ts'], **KIND2),
      cross=False)
def c_neighbour(W, k):
  n, m, r, b, sh = _parts(k)
  o = 0 if b is None else 1
  p = k.pos
  if k.how == 'up':
    sh[p][o] = larger(r[p])
  elif k.how == 'down':
    sh[p - 1][-1] = larger(r[p])
  elif k.how == 'one':
    sh[p][o] = 1
  else:
    sh[p - 1][-1] = 1
  kw = {}
  if k.meta:
    kw = {'shape': _shape_arg(k.meta, n, m)}
  W.expect_error(_cls(k), [c.view() for c in _cores(sh)], **dict(
      kw, why='core %d starts with TT-rank %s, core %d ends with %s' % (
          p, D.show(sh[p][o]), p - 1, D.show(sh[p - 1][-1]))))


@case('C11', 'boundary ranks not 1', ctx(d=[1, 2, 3], how=['first', 'last', 'ring', 'both'], meta=['', 'ts'], **KIND2),
      cross=False)
def c_boundary(W, k):
  n, m, r, b, sh = _parts(k)
  o = 0 if b is None else 1
  x = D.sym('x', 2, ('rank', 0))
  if k.how != 'last':
    sh[0][o] = x
  if k.how != 'first':
    sh[-1][-1] = x if k.how == 'ring' else D.sym('y', 2, ('rank', 0))
  kw = {}
  if k.meta:
    kw = {'shape': _shape_arg(k.meta, n, m)}
  W.expect_error(_cls(k), [c.view() for c in _cores(sh)],
                 **dict(kw, why='boundary TT-ranks %s and %s' % (D.show(sh[0][o]), D.show(sh[-1][-1]))))


@case('C11', 'ring closed by explicit ranks', ctx(d=[1, 2, 3], **KIND2), cross=False)
def c_ring_meta(W, k):
  n, m, r, b, sh = _parts(k)
  o = 0 if b is None else 1
  x = D.sym('x', 2, ('rank', 0))
  sh[0][o] = x
  sh[-1][-1] = x
  W.expect_error(_cls(k), [c.view() for c in _cores(sh)], tt_ranks=[x] + list(r[1:-1]) + [x],
                 why='boundary TT-ranks above 1 together with such explicit ranks')


@case('C11', 'number of dimensions differs between cores', at([2, 3, 4], 0, **KIND2), cross=False)
def c_mixed(W, k):
  n, m, r, b, sh = _parts(k)
  p = k.pos
  if k.mat:
    del sh[p][-2]
  else:
    sh[p].insert(-1, D.sym('x', 2, ('mode', p)))
  W.expect_error(_cls(k), [c.view() for c in _cores(sh)],
                 why='core %d has %d dimensions, the others do not' % (p, len(sh[p])))


@case('C11', 'dtypes differ', at([2, 3, 4], 0, **KIND2), cross=False)
def c_dtypes(W, k):
  n, m, r, b, sh = _parts(k)
  dts = [DT['float32']] * k.d
  dts[k.pos] = DT['float64']
  W.expect_error(_cls(k), [c.view() for c in _cores(sh, dts)], why='core %d has another dtype' % k.pos)


@case('C11', 'batch sizes differ', at([2, 3, 4], 0, mat=[False, True], ba=['B', 3], how=['up', 'one'], meta=[False, True]) +
      at([1], 0, mat=[False, True], ba=['B', 3], how=['up'], meta=[True]), cross=False)
def c_batches(W, k):
  n, m, r, b, sh = _parts(k)
  sh[k.pos][0] = larger(b) if k.how == 'up' else 1
  kw = {'batch_size': b} if k.meta else {}
  W.expect_error('TensorTrainBatch', [c.view() for c in _cores(sh)],
                 **dict(kw, why='core %d has batch size %s instead of %s' % (k.pos, D.show(sh[k.pos][0]), D.show(b))))


@case('C11', 'explicit batch size contradicts the cores',
      ctx(d=[1, 2, 3], mat=[False, True], ba=['B', 1, 3], how=['up', 'down']), cross=False)
def c_bs(W, k):
  n, m, r, b, sh = _parts(k)
  if k.how == 'down':
    if k.ba == 1:
      raise Infeasible()
    bs = 1
  else:
    bs = larger(b)
  W.expect_error('TensorTrainBatch', [c.view() for c in _cores(sh)], batch_size=bs,
                 why='explicit batch size %s, cores have %s' % (D.show(bs), D.show(b)))


@case('C11', 'explicit shape contradicts the cores',
      at([1, 2, 3], 0, form=['list', 'tuple', 'ts', 'tts'], how=['up', 'down', 'perm'], mat=[False], ba=[None, 'B']) +
      at([1, 2, 3], 0, form=['list', 'tuple', 'ts'], how=['up', 'down', 'col up', 'col down', 'perm', 'swap'],
         mat=[True], ba=[None, 'B']), cross=False)
def c_shape(W, k):
  n, m, r, b, sh = _parts(k)
  n, m = list(n), None if m is None else list(m)
  p = k.pos
  if k.how == 'up':
    n[p] = larger(n[p])
  elif k.how == 'down':
    n[p] = 1
  elif k.how == 'col up':
    m[p] = larger(m[p])
  elif k.how == 'col down':
    m[p] = 1
  elif k.how == 'swap':          # the transposed shape
    m[p] = larger(n[p])
    sh[p][-2] = m[p]
    n, m = m, n
  else:                          # reversed order of the modes
    if k.d == 1 or p:
      raise Infeasible()
    n[-1] = larger(n[0])
    sh[-1][1 if b is None else 2] = n[-1]
    n.reverse()
  W.expect_error(_cls(k), [c.view() for c in _cores(sh)], shape=_shape_arg(k.form, n, m),
                 why='explicit shape contradicts core %d' % p)


@case('C11', 'explicit shape of another length or kind',
      ctx(d=[1, 2, 3], form=['list', 'ts'], how=['long', 'short', 'kind'], **KIND2), cross=False)
def c_shape_len(W, k):
  n, m, r, b, sh = _parts(k)
  n, m = list(n), None if m is None else list(m)
  if k.how == 'long':
    n.append(1)
    if m is not None:
      m.append(1)
  elif k.how == 'short':
    if k.d == 1:
      raise Infeasible()
    n.pop()
    if m is not None:
      m.pop()
  else:
    m = [1] * k.d if m is None else None
  W.expect_error(_cls(k), [c.view() for c in _cores(sh)], shape=_shape_arg(k.form, n, m),
                 why='%d cores and a shape that is %s' % (k.d, {'kind': 'of the other kind'}.get(k.how, 'too ' + k.how)))


@case('C11', 'explicit ranks contradict the cores', at([1, 2, 3], 0, 1, form=['list', 'ts'], how=['up', 'one'], **KIND2) +
      ctx(d=[1, 2, 3], pos=[-1], form=['list', 'ts'], how=['short'], **KIND2), cross=False)
def c_ranks(W, k):
  n, m, r, b, sh = _parts(k)
  r = list(r)
  if k.how == 'short':
    r.pop()
    why = 'too few explicit TT-ranks'
  elif k.how == 'up':
    r[k.pos] = larger(r[k.pos])
    why = 'explicit TT-rank %d contradicts the cores' % k.pos
  else:
    if D.same(r[k.pos], 1):
      raise Infeasible()
    r[k.pos] = 1
    why = 'explicit TT-rank %d contradicts the cores' % k.pos
  W.expect_error(_cls(k), [c.view() for c in _cores(sh)], tt_ranks=_ranks_arg(k.form, r), why=why)


@case('C11', 'consistent cores', ctx(d=[1, 2, 3, 4], ones=['', 'r', 'n', 'e', 'o', 'all'], meta=['', 'list'], conv=[True], **KINDS) +
      ctx(d=[1, 2, 3], ones=['', 'e'], meta=['', 'shape', 'ranks', 'bs', 'list', 'tuple', 'ts', 'tts'], conv=[True, False], **KIND2) +
      ctx(d=[1, 2, 3], ones=[''], meta=['', 'shape', 'ranks', 'ts'], conv=[True, False], mat=[False, True], ba=['B'], dyn=[True]) +
      ctx(d=[1, 2, 3], ones=['', 'e'], meta=['', 'list'], conv=[True], given=['np', 'nptuple', 'tuple', 'var'], **KIND2))
def c_accept(W, k):
  n, m, r, b, sh = _parts(k)
  cores = _cores(sh)
  kw = {}
  if k.meta in ('shape', 'list', 'tuple', 'ts', 'tts'):
    kw['shape'] = _shape_arg('list' if k.meta == 'shape' else k.meta, n, m)
  if k.meta in ('ranks', 'list', 'tuple', 'ts', 'tts'):
    kw['tt_ranks'] = _ranks_arg('list' if k.meta == 'ranks' else k.meta, r)
  if k.meta in ('bs', 'list', 'ts') and b is not None:
    kw['batch_size'] = b
  if not k.conv:
    kw['convert_to_tensors'] = False

  def oracle(res):
    got = S.cores_in(W, res, 'object')
    W.need(len(got) == len(cores), '%d cores kept of %d' % (len(got), len(cores)))
    for i, (g, c) in enumerate(zip(got, cores)):
      W.same(g, c, 'core %d' % i)
    S.wellformed(W, res)
  given = [c.view() for c in cores]
  if k.get('given') in ('np', 'nptuple'):
    given = [c.view(np=True) for c in cores]
  elif k.get('given') == 'var':
    given = [Var(c) for c in given]
  return Run(_cls(k), [tuple(given) if k.get('given') in ('nptuple', 'tuple') else given], oracle, kw=kw)


@case('C11', 'statically unknown sizes', ctx(d=[1, 2, 3], unk=['n', 'r', 'm', 'all'], meta=['', 'shape', 'ranks', 'both'], **KIND2),
      cross=False, eager=False)
def c_unknown(W, k):
  n, m, r, b, sh = _parts(k)
  for kind, xs in (('n', n), ('r', r), ('m', m or [])):
    if k.unk in (kind, 'all'):
      for x in xs:
        D.CTX.dynamic.update(x.syms() if not isinstance(x, int) else ())
  cores = _cores(sh)
  kw = {}
  if k.meta in ('shape', 'both'):
    kw['shape'] = _shape_arg('ts', n, m)
  if k.meta in ('ranks', 'both'):
    kw['tt_ranks'] = _ranks_arg('ts', r)

  def oracle(res):
    got = S.cores_in(W, res, 'object')
    W.need(len(got) == len(cores), '%d cores kept of %d' % (len(got), len(cores)))
    for i, (g, c) in enumerate(zip(got, cores)):
      W.same(g, c, 'core %d' % i)
  return Run(_cls(k), [[c.view() for c in cores]], oracle, kw=kw)


# -- C12: operands ---------------------------------------------------------------

ANY = (Exception,)          # rejected in whatever way, but never a value


def change(k, xs, pos, how, name='e0'):
  """The sizes xs with entry pos made different (or entries added / removed)."""
  xs = list(xs)
  if how == 'up':
    xs[pos] = larger(xs[pos], name)
  elif how == 'one':
    xs[pos] = 1
  elif how == 'swap':               # the product of the sizes stays the same
    if pos + 1 >= len(xs):
      raise Infeasible()
    xs[pos], xs[pos + 1] = xs[pos + 1], xs[pos]
  elif how == 'more':
    xs.append(D.sym('xm', 2, ('mode', len(xs))))
  elif how == 'more1':
    xs.append(1)
  elif how == 'fewer':
    if len(xs) == 1:
      raise Infeasible()
    xs.pop()
  else:
    raise AssertionError(how)
  return xs


def _apart(xs):
  """Neighbouring sizes that differ, so that swapping them matters."""
  return [D.add(xs[0], i) if i else xs[0] for i in range(len(xs))]


def op2(W, k, name, ba, n, m=None, ones_r=False, dtype=GENERIC):
  d = len(n)
  r = [1] * (d + 1) if ones_r or k.get('r1') else S.ranks('r' + name, d)
  return S.make(W, name, n, r, m, bsize(k, ba, 'B' if ba == 'B' else 'B'), dtype)


SHAPE_HOW = ['up', 'one', 'swap', 'more', 'more1', 'fewer']
BIN = ('add', 'multiply', 'flat_inner', 'operator +', 'operator -', 'operator *')
BP2 = [(None, None), ('B', 'B'), (None, 'B'), ('B', None)]


def binary(W, f, a, b, why, etypes=(ValueError,)):
  """The call (or operator) has to be rejected."""
  if f.startswith('operator'):
    op = {'+': 'Add', '-': 'Sub', '*': 'Mult'}[f[-1]]
    W.entry = 'TensorTrainBase.' + {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}[op]
    fn = Native(f, lambda I, x, y: I.binop(op, x, y))
    W.expect_error(fn, a, b, why=why, etypes=etypes)
  else:
    W.expect_error(f, a, b, why=why, etypes=etypes)


def shape_ctx(ds=(1, 2, 3), **kw):
  out = []
  for d in ds:
    out += ctx(d=[d], pos=list(range(d)), how=['up', 'one', 'swap'], **kw)
    out += ctx(d=[d], pos=[0], how=['more', 'more1', 'fewer'], **kw)
  return out


@case('C12', 'different shapes', shape_ctx(f=BIN, mat=[False], pair=BP2, side=['rows'], rev=[False, True]) +
      shape_ctx(f=BIN, mat=[True], pair=BP2[:3], side=['rows', 'cols', 'both'], rev=[False, True]) +
      shape_ctx((2, 3), f=BIN, mat=[False, True], pair=BP2[:2], side=['rows'], rev=[False, True], r1=[True]), cross=False)
def c_shapes(W, k):
  n = _apart(modes(k, 'n'))
  m = _apart(modes(k, 'm', 'm')) if k.mat else None
  n2, m2 = n, m
  if k.side in ('rows', 'both') or k.how in ('more', 'more1', 'fewer'):
    n2 = change(k, n, k.pos, k.how)
  if k.mat and (k.side in ('cols', 'both') or k.how in ('more', 'more1', 'fewer')):
    m2 = change(k, m, k.pos, k.how, 'e1')
  a = op2(W, k, 'A', k.pair[0], n, m)
  b = op2(W, k, 'Z', k.pair[1], n2, m2)
  if k.rev:
    a, b = b, a
  binary(W, k.f, a.inst, b.inst, 'operands of different shapes (%s, %s)' % (k.how, k.side))


@case('C12', 'tensor combined with matrix', ctx(f=BIN, d=[1, 2, 3], pair=BP2, rev=[False, True], flat=['', 'one']), cross=False)
def c_kinds(W, k):
  n = modes(k, 'n')
  m = [1] * k.d if k.flat else modes(k, 'm', 'm')
  a = op2(W, k, 'A', k.pair[0], n)
  b = op2(W, k, 'Z', k.pair[1], n, m)
  if k.rev:
    a, b = b, a
  binary(W, k.f, a.inst, b.inst, 'a TT-tensor combined with a TT-matrix')


def two_batches(k):
  """Batch sizes that cannot be broadcast."""
  b = D.sym('B', 2, ('batch', 0))
  if k.bs == 'sym':
    return b, D.add(b, D.sym('e0', 1, ('batch', 1)))
  return k.bs


@case('C12', 'batch sizes that do not broadcast', ctx(f=BIN + ('matmul',), d=[1, 2, 3], mat=[False, True],
                                                       bs=['sym', (2, 3), (3, 2), (2, 4), (6, 3)], rev=[False, True]), cross=False)
def c_bsizes(W, k):
  if k.f == 'matmul' and not k.mat:
    raise Infeasible()
  n = modes(k, 'n')
  m = (n if k.f == 'matmul' else modes(k, 'm', 'm')) if k.mat else None
  ba, bb = two_batches(k)
  a = S.make(W, 'A', n, S.ranks('ra', k.d), m, ba)
  b = S.make(W, 'Z', n, S.ranks('rb', k.d), m, bb)
  if k.rev:
    a, b = b, a
  binary(W, k.f, a.inst, b.inst, 'batch sizes %s and %s' % (D.show(ba), D.show(bb)))


@case('C12', 'matmul inner shapes', shape_ctx(pair=BP2, rev=[False, True]) + shape_ctx((2, 3), pair=BP2[:1], rev=[False, True], r1=[True]),
      cross=False)
def c_inner(W, k):
  n, m, p = modes(k, 'n'), _apart(modes(k, 'm', 'm')), modes(k, 'p')
  m2 = change(k, m, k.pos, k.how)
  n2, p2 = list(n), list(p)
  while len(p2) < len(m2):
    p2.append(1)
    n2.append(1)
  p2, n2 = p2[:len(m2)], n2[:len(m2)]
  if k.rev:
    a = op2(W, k, 'A', k.pair[0], n2, m2)
    b = op2(W, k, 'Z', k.pair[1], m, p)
  else:
    a = op2(W, k, 'A', k.pair[0], n, m)
    b = op2(W, k, 'Z', k.pair[1], m2, p2)
  W.expect_error('matmul', a.inst, b.inst, why='matrices that cannot be multiplied (%s)' % k.how)


@case('C12', 'matmul of a tensor', ctx(d=[1, 2, 3], pair=BP2, how=['left', 'right', 'both', 'dense left', 'dense right']), cross=False)
def c_mm_kind(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  t = op2(W, k, 'T', k.pair[0], n)
  M = op2(W, k, 'M', k.pair[1], n, n)
  y = D.sym('y', 2, ('dense', 0))
  if k.how == 'left':
    args = [t.inst, M.inst]
  elif k.how == 'right':
    args = [M.inst, t.inst]
  elif k.how == 'both':
    args = [t.inst, op2(W, k, 'V', k.pair[1], n).inst]
  elif k.how == 'dense left':
    args = [X.from_atom('X', (y, D.prod(n)), GENERIC).view(), t.inst]
  else:
    args = [t.inst, X.from_atom('X', (D.prod(n), y), GENERIC).view()]
  W.expect_error('matmul', *args, why='matmul with a TT-tensor (%s)' % k.how)


@case('C12', 'matmul with a dense matrix of the wrong size', ctx(d=[1, 2, 3], how=['up', 'one', 'other'], side=['l', 'r'], f=['matmul', 'ops']),
      cross=False)
def c_mm_dense(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  M = op2(W, k, 'M', None, n, m)
  y = D.sym('y', 2, ('dense', 0))
  inner = D.prod(m if k.side == 'r' else n)
  if k.how == 'up':
    inner = larger(inner)
  elif k.how == 'one':
    inner = 1
  else:              # the other side of the matrix
    n = _apart([D.add(m[0], 1)] + m[1:]) if k.d == 1 else [D.add(x, 1) for x in m]
    M = op2(W, k, 'M', None, n, m)
    inner = D.prod(n if k.side == 'r' else m)
  x = X.from_atom('X', (inner, y) if k.side == 'r' else (y, inner), GENERIC).view()
  f = 'matmul' if k.f == 'matmul' else ('ops.tt_dense_matmul' if k.side == 'r' else 'ops.dense_tt_matmul')
  W.expect_error(f, *([M.inst, x] if k.side == 'r' else [x, M.inst]), why='a dense matrix of the wrong size (%s)' % k.how)


@case('C12', 'operands without a TT-object', ctx(f=['matmul', 'flat_inner'], how=['dense', 'text', 'text left']), cross=False)
def c_nott(W, k):
  x = X.from_atom('X', (4, 4), GENERIC)
  M = S.make(W, 'M', [2, 2], S.ranks('r', 2), [2, 2])
  args = {'dense': [x.view(), x.view()], 'text': [M.inst, 'x'], 'text left': ['x', M.inst]}[k.how]
  W.expect_error(k.f, *args, why='unsupported operand types')


@case('C12', 'sparse tensor of another shape', shape_ctx(mat=[False]) + ctx(d=[1, 2, 3], pos=[0], how=['up', 'one', 'swap'], mat=[True]),
      cross=False)
def c_sparse(W, k):
  n = _apart(modes(k, 'n'))
  m = [D.add(x, 5) for x in n] if k.mat else None
  sh = [D.prod(n), D.prod(m)] if k.mat else list(n)
  sh = change(k, sh, k.pos, k.how)
  N = D.sym('N', 2, ('nnz', 0))
  sp = Sparse(X.from_atom('idx', (N, len(sh)), DT['int64']).view(), X.from_atom('val', (N,), GENERIC).view(),
              Arr((len(sh),), sh, 'tf'))
  a = op2(W, k, 'A', None, n, m)
  W.expect_error('flat_inner', a.inst, sp, why='a sparse tensor of another shape (%s)' % k.how)


@case('C12', 'transpose of something else', ctx(d=[1, 2, 3], ba=[None, 'B'], how=['tensor']) + ctx(d=[2], ba=[None], how=['dense']), cross=False)
def c_transp(W, k):
  x = op2(W, k, 'A', k.ba, modes(k, 'n')).inst if k.how == 'tensor' else X.from_atom('X', (4, 3), GENERIC).view()
  W.expect_error('transpose', x, why='transposing a ' + k.how)


BF_ARGS = ['b', 'c']


@case('C12', 'bilinear form shapes', shape_ctx(who=['b', 'c', 'both'], pair=BP2) +
      shape_ctx((2, 3), who=['b', 'c', 'both'], pair=BP2[:1], r1=[True]), cross=False)
def c_bf_shape(W, k):
  n, m = _apart(modes(k, 'n')), _apart(modes(k, 'm', 'm'))
  nb = change(k, n, k.pos, k.how) if k.who in ('b', 'both') else n
  mc = change(k, m, k.pos, k.how, 'e1') if k.who in ('c', 'both') else m
  A = op2(W, k, 'A', None, n, m)
  b = op2(W, k, 'b', k.pair[0], nb, [1] * len(nb))
  c = op2(W, k, 'c', k.pair[1], mc, [1] * len(mc))
  W.expect_error('bilinear_form', A.inst, b.inst, c.inst, why='inconsistent shapes (%s, %s)' % (k.who, k.how))


@case('C12', 'bilinear form kinds', ctx(d=[1, 2, 3], who=['A', 'b', 'c'], how=['tensor', 'dense'], pair=BP2), cross=False)
def c_bf_kind(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  if k.who == 'A':
    m = n
  args = {'A': op2(W, k, 'A', None, n, m).inst, 'b': op2(W, k, 'b', k.pair[0], n, [1] * k.d).inst,
          'c': op2(W, k, 'c', k.pair[1], m, [1] * k.d).inst}
  mine = {'A': n, 'b': n, 'c': m}[k.who]
  if k.how == 'tensor':
    args[k.who] = op2(W, k, 't', {'A': None, 'b': k.pair[0], 'c': k.pair[1]}[k.who], mine).inst
  else:
    args[k.who] = X.from_atom('X', (D.prod(mine), 1), GENERIC).view()
  W.expect_error('bilinear_form', args['A'], args['b'], args['c'], why='%s is a %s' % (k.who, k.how))


@case('C12', 'bilinear form batch sizes', ctx(d=[1, 2, 3], bs=['sym', (2, 3), (3, 2)], f=[1, 2]), cross=False)
def c_bf_bs(W, k):
  n, m, p = modes(k, 'n'), modes(k, 'm', 'm'), modes(k, 'p')
  ba, bb = two_batches(k)
  A = op2(W, k, 'A', None, n, m)
  if k.f == 1:
    b = S.make(W, 'b', n, S.ranks('rb', k.d), [1] * k.d, ba)
    c = S.make(W, 'c', m, S.ranks('rc', k.d), [1] * k.d, bb)
    W.expect_error('bilinear_form', A.inst, b.inst, c.inst, why='batch sizes %s and %s' % (D.show(ba), D.show(bb)))
  else:
    B = op2(W, k, 'H', None, m, p)
    b = S.make(W, 'b', n, S.ranks('rb', k.d), [1] * k.d, ba)
    c = S.make(W, 'c', p, S.ranks('rc', k.d), [1] * k.d, bb)
    W.expect_error('ops.bilinear_form_two_mat', b.inst, A.inst, B.inst, c.inst,
                   why='batch sizes %s and %s' % (D.show(ba), D.show(bb)))


@case('C12', 'bilinear form with two matrices, shapes', shape_ctx((1, 2, 3), who=['x', 'A', 'B', 'y'], pair=BP2[:2]) +
      shape_ctx((2,), who=['x', 'A', 'B', 'y'], pair=BP2[:1], r1=[True]), cross=False)
def c_bf2_shape(W, k):
  n, m, p = _apart(modes(k, 'n')), _apart(modes(k, 'm', 'm')), _apart(modes(k, 'p'))
  cut = lambda xs, l: (list(xs) + [1] * l)[:l]
  nx = change(k, n, k.pos, k.how) if k.who == 'x' else n
  ma = change(k, m, k.pos, k.how) if k.who == 'A' else m
  mb = change(k, m, k.pos, k.how) if k.who == 'B' else m
  py = change(k, p, k.pos, k.how) if k.who == 'y' else p
  x = op2(W, k, 'x', k.pair[0], nx, [1] * len(nx))
  A = op2(W, k, 'A', None, cut(n, len(ma)), ma)
  B = op2(W, k, 'H', None, mb, cut(p, len(mb)))
  y = op2(W, k, 'y', k.pair[1], py, [1] * len(py))
  W.expect_error('ops.bilinear_form_two_mat', x.inst, A.inst, B.inst, y.inst,
                 why='inconsistent shapes (%s, %s)' % (k.who, k.how))


@case('C12', 'bilinear form with two matrices, kinds', ctx(d=[1, 2], who=['x', 'A', 'B', 'y'], how=['tensor', 'dense'], pair=BP2[:2]), cross=False)
def c_bf2_kind(W, k):
  n = modes(k, 'n')
  one = [1] * k.d
  args = {'x': op2(W, k, 'x', k.pair[0], n, one).inst, 'A': op2(W, k, 'A', None, n, n).inst,
          'B': op2(W, k, 'H', None, n, n).inst, 'y': op2(W, k, 'y', k.pair[1], n, one).inst}
  if k.how == 'tensor':
    args[k.who] = op2(W, k, 't', {'x': k.pair[0], 'y': k.pair[1]}.get(k.who), n).inst
  else:
    args[k.who] = X.from_atom('X', (D.prod(n), 1), GENERIC).view()
  W.expect_error('ops.bilinear_form_two_mat', args['x'], args['A'], args['B'], args['y'],
                 why='%s is a %s' % (k.who, k.how))


@case('C12', 'cast of something else', ctx(how=['dense', 'number']), cross=False)
def c_castbad(W, k):
  W.expect_error('cast', 3 if k.how == 'number' else X.from_atom('X', (4, 3), GENERIC).view(), DT['float64'],
                 why='casting a ' + k.how)


@case('C12', 'gather_nd index count', ctx(d=[1, 2, 3], ba=[None, 'B'], how=['up', 'down', 'nobatch'], nd=[2, 3]), cross=False)
def c_gndbad(W, k):
  a = op2(W, k, 'A', k.ba, modes(k, 'n'))
  q = k.d + (1 if k.ba else 0) + (1 if k.how == 'up' else -1)
  if q < 1 or (k.how == 'nobatch' and k.ba is None):
    raise Infeasible()
  N = tuple([D.sym('N', 2, ('nnz', 0)), D.sym('M', 2, ('nnz', 1))][:k.nd - 1])
  W.expect_error('gather_nd', a.inst, X.from_atom('idx', N + (q,), DT['int32']).view(),
                 why='%d indices per element' % q)


@case('C12', 'gather_nd of a matrix', ctx(d=[1, 2], ba=[None, 'B'], q=[0, 1]), cross=False)
def c_gndmat(W, k):
  n = modes(k, 'n')
  a = op2(W, k, 'A', k.ba, n, modes(k, 'm', 'm'))
  N = D.sym('N', 2, ('nnz', 0))
  W.expect_error('gather_nd', a.inst, X.from_atom('idx', (N, k.d * (1 + k.q) + (1 if k.ba else 0)), DT['int32']).view(),
                 why='gathering from a TT-matrix', etypes=(ValueError, NotImplementedError))


@case('C12', 'number of indices', ctx(d=[1, 2, 3, 4], how=['more', 'fewer', 'int', 'slice', 'none'], ba=[None, 'B'], kind=['int', ':']), cross=False)
def c_idxbad(W, k):
  a = op2(W, k, 'A', k.ba, modes(k, 'n'))
  q = k.d + (1 if k.ba else 0)
  one = 0 if k.kind == 'int' else slice(None, None, None)
  if k.how in ('int', 'slice'):
    if k.ba or k.d == 1 or (k.how == 'int') != (k.kind == 'int'):
      raise Infeasible()
    spec = one
  elif k.how == 'none':
    spec = ()
  else:
    q += 1 if k.how == 'more' else -1
    if q < 1 or (k.ba and q == 1):
      raise Infeasible()
    spec = (one,) * q
  W.entry = 'TensorTrainBatch.__getitem__' if k.ba else 'TensorTrain.__getitem__'
  W.expect_error(Native('getitem', lambda I, o, i: I.getitem(o, i)), a.inst, spec, why='wrong number of indices')


@case('C12', 'concatenation of different batches', ctx(d=[1, 2, 3], mat=[False, True], num=[2, 3], pos=[0, 1, 2],
                                                       how=['single', 'shape', 'cols', 'rank', 'kind', 'more1']), cross=False)
def c_concat(W, k):
  if k.pos >= k.num or (k.how == 'cols' and not k.mat) or (k.how == 'rank' and k.d == 1):
    raise Infeasible()
  n, m = modes(k, 'n'), modes(k, 'm', 'm') if k.mat else None
  objs = []
  for i in range(k.num):
    n2, m2, r = list(n), None if m is None else list(m), S.ranks('r', k.d)
    b = D.sym('b%d' % i, 2, ('batch', i))
    if i == k.pos:
      if k.how == 'single':
        b = None
      elif k.how == 'shape':
        n2[-1] = larger(n2[-1])
      elif k.how == 'cols':
        m2[0] = larger(m2[0])
      elif k.how == 'rank':
        r[k.d - 1] = larger(r[k.d - 1])
      elif k.how == 'more1':
        n2.append(1)
        m2 = None if m2 is None else m2 + [1]
        r = r + [1]
      else:
        m2 = [1] * k.d if m2 is None else None
    objs.append(S.make(W, 'A%d' % i, n2, r, m2, b).inst)
  W.expect_error('concat_along_batch_dim', objs, why='object %d does not fit (%s)' % (k.pos, k.how))


@case('C12', 'weights of the wrong number', ctx(d=[1, 2], mat=[False, True], how=['up', 'one', '2d', '0d'], ba=['B', 3]), cross=False)
def c_weights(W, k):
  a = operand(W, k, 'A', k.ba)
  sh = {'up': (larger(a.batch),), 'one': (1,), '2d': (a.batch, 2), '0d': ()}[k.how]
  W.expect_error('multiply_along_batch_dim', a.inst, X.from_atom('wt', sh, GENERIC).view(), why='weights of shape (%s)' % k.how)


@case('C12', 'coefficients of the wrong shape', ctx(d=[1, 2], mat=[False, True], how=['up', 'one', 'mat up', 'mat one', '3d', '0d'], ba=[2, 3]),
      cross=False)
def c_coef(W, k):
  a = operand(W, k, 'A', k.ba)
  q = D.sym('q', 2, ('batch', 1))
  sh = {'up': (k.ba + 1,), 'one': (1,), 'mat up': (k.ba + 1, 2), 'mat one': (1, 2), '3d': (k.ba, 2, 2), '0d': ()}[k.how]
  W.expect_error('approximate.reduce_sum_batch', a.inst, 2, why='coefficients of shape (%s)' % k.how,
                 coef=X.from_atom('wt', sh, GENERIC).view())


@case('C12', 'pairwise products of different shapes', shape_ctx(mat=[False, True], rev=[False, True], side=['rows']) +
      shape_ctx((1, 2), mat=[True], rev=[False, True], side=['cols']) +
      shape_ctx((2, 3), mat=[False], rev=[False, True], r1=[True], side=['rows']) +
      ctx(d=[1, 2, 3], mat=[False, True], how=['kind'], pos=[0], rev=[False, True], side=['']), cross=False)
def c_pair_shape(W, k):
  n = _apart(modes(k, 'n'))
  m = _apart(modes(k, 'm', 'm')) if k.mat else None
  n2, m2 = n, m
  if k.how == 'kind':
    m2 = [1] * k.d if m is None else None
  else:
    if k.side == 'rows' or k.how in ('more', 'more1', 'fewer'):
      n2 = change(k, n, k.pos, k.how)
    if k.mat and (k.side == 'cols' or k.how in ('more', 'more1', 'fewer')):
      m2 = change(k, m, k.pos, k.how, 'e1')
  b1, b2 = D.sym('B', 2, ('batch', 0)), D.sym('B2', 2, ('batch', 1))
  r1 = lambda nm, l: [1] * (l + 1) if k.get('r1') else S.ranks(nm, l)
  a = S.make(W, 'A', n, r1('ra', len(n)), m, b1)
  b = S.make(W, 'Z', n2, r1('rb', len(n2)), m2, b2)
  if k.rev:
    a, b = b, a
  W.expect_error('pairwise_flat_inner', a.inst, b.inst, why='batches of different shapes (%s)' % k.how)


@case('C12', 'pairwise products with an unsuitable matrix', shape_ctx((1, 2), who=['1', '2']) +
      ctx(d=[1, 2], pos=[0], who=['1', '2', 'M'], how=['tensor']) + ctx(d=[1, 2], pos=[0], who=['1', '2', 'both'], how=['wide']), cross=False)
def c_pair_mat(W, k):
  n, m = _apart(modes(k, 'n')), _apart(modes(k, 'm', 'm'))
  b1, b2 = D.sym('B', 2, ('batch', 0)), D.sym('B2', 2, ('batch', 1))
  n1 = change(k, n, k.pos, k.how) if k.who == '1' and k.how not in ('tensor', 'wide') else n
  m2 = change(k, m, k.pos, k.how) if k.who == '2' and k.how not in ('tensor', 'wide') else m
  c1 = [3] * len(n1) if k.how == 'wide' and k.who in ('1', 'both') else [1] * len(n1)
  c2 = [3] * len(m2) if k.how == 'wide' and k.who in ('2', 'both') else [1] * len(m2)
  a = S.make(W, 'A', n1, S.ranks('ra', len(n1)), None if k.how == 'tensor' and k.who == '1' else c1, b1)
  b = S.make(W, 'Z', m2, S.ranks('rb', len(m2)), None if k.how == 'tensor' and k.who == '2' else c2, b2)
  M = S.make(W, 'M', n, S.ranks('rm', k.d), None if k.how == 'tensor' and k.who == 'M' else m)
  W.expect_error('pairwise_flat_inner', a.inst, b.inst, M.inst, why='%s does not fit (%s)' % (k.who, k.how))


PROJ = ('project', 'project_sum')


@case('C12', 'projection of another shape', shape_ctx((2, 3), f=PROJ, mat=[False], ba=[None, 'B'], side=['rows']) +
      shape_ctx((2,), f=PROJ, mat=[True], ba=[None, 'B'], side=['rows', 'cols']) +
      ctx(d=[2, 3], f=PROJ, mat=[False, True], ba=[None, 'B'], pos=[0], how=['kind', 'dtype', 'where batch', 'where one batch'], side=['']),
      cross=False)
def c_proj_bad(W, k):
  n = _apart(modes(k, 'n'))
  m = _apart(modes(k, 'm', 'm')) if k.mat else None
  n2, m2 = n, m
  dt = dw = GENERIC
  wb = None
  if k.how == 'kind':
    m2 = [1] * k.d if m is None else None
  elif k.how == 'dtype':
    dt, dw = DT['float64'], DT['float32']
  elif k.how.startswith('where'):
    wb = 1 if 'one' in k.how else D.sym('B2', 2, ('batch', 1))
  else:
    if k.side == 'rows' or k.how in ('more', 'more1', 'fewer'):
      n2 = change(k, n, k.pos, k.how)
    if k.mat and (k.side == 'cols' or k.how in ('more', 'more1', 'fewer')):
      m2 = change(k, m, k.pos, k.how, 'e1')
  what = op2(W, k, 'Z', k.ba, n2, m2, dtype=dt)
  where = S.make(W, 'A', n, S.ranks('ra', k.d), m, wb, dw)
  W.expect_error('riemannian.' + k.f, what.inst, where.inst, why='%s (%s)' % (k.f, k.how))


@case('C12', 'project_sum with wrong weights', ctx(d=[2], mat=[False, True], how=['up', 'one', '3d'], ba=['B', 3]) +
      ctx(d=[2], mat=[False, True], how=['up'], ba=[None]), cross=False)
def c_psum_w(W, k):
  what = operand(W, k, 'Z', k.ba)
  where = operand(W, k, 'A', None)
  b = what.batch or 1
  sh = {'up': (larger(b),), 'one': (1,), '3d': (b, 2, 2)}[k.how]
  W.expect_error('riemannian.project_sum', what.inst, where.inst, X.from_atom('wt', sh, GENERIC).view(),
                 why='weights of the wrong shape (%s)' % k.how, etypes=ANY)


@case('C12', 'project_matmul of unsuitable operands', shape_ctx((2,), who=['what', 'where'], ba=[None, 'B']) +
      ctx(d=[2, 3], pos=[0], who=['what', 'where', 'matrix'], how=['tensor'], ba=[None, 'B']) +
      ctx(d=[2], pos=[0], who=['what', 'where'], how=['dtype'], ba=[None, 'B']) +
      ctx(d=[2], pos=[0], who=['where'], how=['batch'], ba=[None, 'B']) +
      ctx(d=[2], pos=[0], who=['what', 'where'], how=['wide'], ba=[None, 'B']), cross=False)
def c_pm_bad(W, k):
  n, m = _apart(modes(k, 'n')), _apart(modes(k, 'm', 'm'))
  sp = ('tensor', 'wide', 'dtype', 'batch')
  nw = change(k, n, k.pos, k.how) if k.who == 'where' and k.how not in sp else n
  mw = change(k, m, k.pos, k.how) if k.who == 'what' and k.how not in sp else m
  col = lambda who, l: None if k.how == 'tensor' and k.who == who else [3 if k.how == 'wide' and k.who == who else 1] * l
  dt = lambda who: GENERIC if k.how != 'dtype' else DT['float64' if k.who == who else 'float32']
  where = S.make(W, 'A', nw, S.ranks('ra', len(nw)), col('where', len(nw)),
                 D.sym('B2', 2, ('batch', 1)) if k.how == 'batch' else None, dt('where'))
  what = op2(W, k, 'Z', k.ba, mw, col('what', len(mw)), dtype=dt('what'))
  M = S.make(W, 'M', n, S.ranks('rm', k.d), None if k.how == 'tensor' and k.who == 'matrix' else m, None,
             GENERIC if k.how != 'dtype' else DT['float32'])
  W.expect_error('riemannian.project_matmul', what.inst, where.inst, M.inst, why='%s does not fit (%s)' % (k.who, k.how))


@case('C12', 'rank bounds and tolerances', [K(f=f, d=d, how=h, ba=b) for f in ('to_tt_tensor', 'to_tt_matrix', 'round') for d in (1, 2, 3)
                                           for h in ('zero', 'negative', 'zero entry', 'negative entry', 'short', 'long', 'd-1', 'epsilon', 'float')
                                           for b in ((None, 'B') if f == 'round' else (None,))] +
      [K(f='round', d=d, how=h, ba=b, mat=True) for d in (1, 2) for h in ('zero', 'zero entry', 'short', 'long', 'epsilon') for b in (None, 'B')],
      cross=False)
def c_bounds(W, k):
  n = modes(k, 'n')
  kw = {}
  d = k.d
  if k.how == 'zero':
    kw['max_tt_rank'] = 0
  elif k.how == 'negative':
    kw['max_tt_rank'] = -1
  elif k.how in ('zero entry', 'negative entry'):
    v = [2] * (d + 1)
    v[d // 2] = 0 if k.how == 'zero entry' else -2
    kw['max_tt_rank'] = v
  elif k.how == 'short':
    kw['max_tt_rank'] = [2] * d
  elif k.how == 'd-1':
    kw['max_tt_rank'] = [2] * (d - 1)
    if d == 1:
      raise Infeasible()
  elif k.how == 'long':
    kw['max_tt_rank'] = [2] * (d + 2)
  elif k.how == 'float':
    kw['max_tt_rank'] = PyFloat(X.scalar(Fraction(1, 2)))
  else:
    kw['epsilon'] = PyFloat(X.scalar(Fraction(-1, 10)))
  if len(kw.get('max_tt_rank', ()) if isinstance(kw.get('max_tt_rank'), list) else (0, 0)) == 1:
    raise Infeasible()          # a one-element list is a single bound
  if k.f == 'to_tt_tensor':
    args = [X.from_atom('X', n, GENERIC).view()]
  elif k.f == 'to_tt_matrix':
    m = modes(k, 'm', 'm')
    args = [X.from_atom('X', (D.prod(n), D.prod(m)), GENERIC, groups=[n, m]).view(), [list(n), list(m)]]
  else:
    args = [operand(W, k, 'A', k.ba).inst]
  W.expect_error(k.f, *args, why='%s rank bound or tolerance' % k.how, **kw)


@case('C12', 'right-to-left orthogonalisation of a batch', ctx(d=[1, 2, 3], mat=[False, True], ba=['B', 1, 3]), cross=False)
def c_orthb(W, k):
  a = operand(W, k, 'A', k.ba)
  W.expect_error('orthogonalize_tt_cores', a.inst, left_to_right=False, why='an unsupported direction',
                 etypes=(ValueError, NotImplementedError))


@case('C12', 'batch size of a single object', ctx(f=['batch_size', 'lazy_batch_size'], d=[1, 2], mat=[False, True]), cross=False)
def c_bsz(W, k):
  W.expect_error('shapes.' + k.f, operand(W, k, 'A', None).inst, why='the batch size of a single TT-object')


@case('C12', 'initialising like something else', ctx(f=['ones_like', 'zeros_like'], how=['dense', 'number', 'list']), cross=False)
def c_like(W, k):
  x = {'dense': X.from_atom('X', (4, 3), GENERIC).view(), 'number': 3, 'list': [1, 2]}[k.how]
  W.expect_error(k.f, x, why='a %s instead of a TT-object' % k.how)


RND = ('random_tensor', 'random_tensor_batch', 'random_matrix', 'random_matrix_batch')


@case('C12', 'non-zero mean of random cores', ctx(f=RND), cross=False)
def c_mean(W, k):
  n = [2, 3]
  W.expect_error(k.f, [n, n] if 'matrix' in k.f else n, mean=PyFloat(X.scalar(Fraction(1, 3))),
                 why='an unsupported mean', etypes=(ValueError, NotImplementedError))


@case('C12', 'wrong number of coefficients', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B'], num=[1, 2, 3], how=['long', 'short']), cross=False)
def c_anp_coef(W, k):
  if k.how == 'short' and k.num == 1:
    raise Infeasible()
  x = operand(W, k, 'A', None)
  ts = [W.call('project', operand(W, k, 'Z%d' % i, k.ba, n=x.n, m=x.m).inst, x.inst) for i in range(k.num)]
  q = k.num + (1 if k.how == 'long' else -1)
  W.expect_error('add_n_projected', ts, X.from_atom('wt', (q,), GENERIC).view(), why='%d coefficients for %d objects' % (q, k.num))


@case('C12', 'unknown kernel initialiser', ctx(how=['text', 'none']), cross=False)
def c_kdinit(W, k):
  W.expect_error('nn.KerasDense', [2, 2], [3, 2], kernel_initializer='orthogonal' if k.how == 'text' else None,
                 why='an unknown kernel initialiser')
