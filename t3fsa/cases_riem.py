"""Cases for tangent spaces, projections and Riemannian autodiff.

Points of the manifold are taken at attainable TT-ranks (every rank is at most
what the neighbouring modes and ranks can carry) and of full rank: the tangent
space is only defined there."""
from . import dim as D
from . import tensor as X
from . import spec as S
from . import numeric
from .values import *  # noqa
from .lib import GENERIC
from .cases import (case, ctx, Run, K, modes, ranks, operand, bsize, check_tt, check_vec, stack_dense, same_as,
                    dense_input, number, weights_val)
from .driver import Undecided, Infeasible
from .cases_decomp import feasible


# -- oracle ---------------------------------------------------------------------

class Point(object):
  """A point with the spec's own orthogonalisations (modes merged)."""

  def __init__(self, a):
    self.d = d = a.d
    self.mat = a.m is not None
    self.n = a.n
    self.m = a.m
    self.s = [n if a.m is None else D.mul(n, a.m[i]) for i, n in enumerate(a.n)]
    cs = [X.reshape(c, [c.shape[0], self.s[i], c.shape[-1]]) for i, c in enumerate(a.cores)]
    U = list(cs)
    for k in range(d - 1):
      c = U[k]
      q, r = X.qr(X.reshape(c, [D.mul(c.shape[0], c.shape[1]), c.shape[2]]))
      U[k] = X.reshape(q, [c.shape[0], c.shape[1], q.shape[-1]])
      U[k + 1] = X.einsum([['a', 'b'], ['b', 'i', 'c']], ['a', 'i', 'c'], [r, U[k + 1]])
    V = list(U)
    for k in range(d - 1, 0, -1):
      c = V[k]
      q, r = X.qr(X.transpose(X.reshape(c, [c.shape[0], D.mul(c.shape[1], c.shape[2])]), [1, 0]))
      V[k] = X.reshape(X.transpose(q, [1, 0]), [q.shape[-1], c.shape[1], c.shape[2]])
      V[k - 1] = X.einsum([['a', 'i', 'b'], ['c', 'b']], ['a', 'i', 'c'], [V[k - 1], r])
    self.U, self.V = U, V

  def merged(self, t):
    """[B, (dense)] -> [B, s_1, ..., s_d] with row and column modes paired."""
    b = t.shape[0]
    if not self.mat:
      return t
    d = self.d
    t = X.reshape(t, [b] + list(self.n) + list(self.m))
    t = X.transpose(t, [0] + [1 + z for k in range(d) for z in (k, d + k)])
    return X.reshape(t, [b] + self.s)

  def split(self, t):
    b = t.shape[0]
    if not self.mat:
      return t
    d = self.d
    t = X.reshape(t, [b] + [z for k in range(d) for z in (self.n[k], self.m[k])])
    t = X.transpose(t, [0] + [1 + 2 * k for k in range(d)] + [2 + 2 * k for k in range(d)])
    return X.reshape(t, [b, D.prod(self.n), D.prod(self.m)])

  def term(self, t, left, right):
    """(U_1..U_left projector) x identity x (V_right.. projector) applied to t;
    left cores are projected by U, cores from index right on by V."""
    d = self.d
    ts, ins = [t], [['B'] + ['i%d' % k for k in range(d)]]
    out = ['B']
    for k in range(d):
      out.append('o%d' % k if k < left or k >= right else 'i%d' % k)
    for k in range(left):
      ts += [self.U[k], self.U[k]]
      ins += [['a%d' % k, 'i%d' % k, 'a%d' % (k + 1)], ['b%d' % k, 'o%d' % k, 'b%d' % (k + 1)]]
    if left:            # the interface of U with itself
      ins = [['c%d' % left if z in ('a%d' % left, 'b%d' % left) else z for z in l] for l in ins]
    for k in range(right, d):
      ts += [self.V[k], self.V[k]]
      ins += [['e%d' % k, 'i%d' % k, 'e%d' % (k + 1)], ['f%d' % k, 'o%d' % k, 'f%d' % (k + 1)]]
    if right < d:
      ins = [['g%d' % right if z in ('e%d' % right, 'f%d' % right) else z for z in l] for l in ins]
    return X.einsum(ins, out, ts)

  def project(self, t):
    """Orthogonal projection of [B, dense] onto the tangent space."""
    t = self.merged(t)
    d = self.d
    res = None
    for k in range(d):
      x = self.term(t, k, k + 1)
      res = x if res is None else X.add(res, x)
      if k < d - 1:
        res = X.add(res, self.term(t, k + 1, k + 1), -1)
    return self.split(res)

  def tangent(self, deltas, b):
    """Sum over positions of U..U delta V..V, with a leading batch axis."""
    d = self.d
    res = None
    for k in range(d):
      cores = [self.U[j] if j < k else (deltas[j] if j == k else self.V[j]) for j in range(d)]
      ins = []
      for j, c in enumerate(cores):
        l = ['r%d' % j, 'i%d' % j, 'r%d' % (j + 1)]
        ins.append((['B'] if b and j == k else []) + l)
      t = X.einsum(ins, (['B'] if b else []) + ['r0'] + ['i%d' % j for j in range(d)] + ['r%d' % d], cores)
      o = 1 if b else 0
      t = X.squeeze(t, [o, t.rank - 1])
      res = t if res is None else X.add(res, t)
    if not b:
      res = X.expand_dims(res, 0)
    return self.split(res)


def attainable(n, m, r):
  """Ranks with those set to 1 that the modes force to 1."""
  d = len(n)
  s = [n[k] if m is None else D.mul(n[k], m[k]) for k in range(d)]
  r = list(r)
  for k in range(1, d):
    if r[k - 1] == 1 and s[k - 1] == 1:
      r[k] = 1
  for k in range(d - 1, 0, -1):
    if r[k + 1] == 1 and s[k] == 1:
      r[k] = 1
  return r


def point(W, k, name='W', rname='rW'):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  r = attainable(n, m, ranks(k, rname))
  feasible(n, m, r)
  a = operand(W, k, name, None, n, m, r=r)
  return a, Point(a)


def remembers(W, res, where):
  p = W.attr(res, 'projection_on') if W.hasattr(res, 'projection_on') else None
  W.need(p is where.inst, 'the result does not remember the point it was projected on')


def rank_twice(W, res, where):
  cores, mat, b = S.wellformed(W, res)
  o = 1 if b else 0
  for j in range(1, len(cores)):
    W.need(D.same(cores[j].shape[o], D.mul(2, where.r[j])),
           'TT-rank %d of the projection is %s instead of twice %s' % (j, D.show(cores[j].shape[o]), D.show(where.r[j])))


# -- C13 ----------------------------------------------------------------------

@case('C13', 'project', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B', 1, 3]) +
      ctx(d=[2, 3], ones=['r', 'n', 'e', 'o', 'first', 'last'], mat=[False, True], ba=[None, 'B']) +
      ctx(d=[4], mat=[False], ba=[None, 'B']) + ctx(d=[2, 3], mat=[False, True], ba=[None], same=['object', 'cores']))
def c_project(W, k):
  x, p = point(W, k)
  a = same_as(W, k, x) or operand(W, k, 'A', k.ba, x.n, x.m)
  want = p.project(stack_dense(S.dense(a), a.batch))

  def oracle(res):
    remembers(W, res, x)
    rank_twice(W, res, x)
    check_tt(W, res, want, (a,), 'the projection', k.mat, strict=True)
  return Run('project', [a.inst, x.inst], oracle, operands=[a, x])


# -- C14 ----------------------------------------------------------------------

WKINDS = (None, 'vec', 'list', 'mat', 'mat1', 'np')


@case('C14', 'project_sum', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B', 1, 3], wk=[None]) +
      ctx(d=[2, 3], mat=[False, True], ba=['B', 1, 3], wk=['vec', 'mat', 'mat1']) +
      ctx(d=[2], mat=[False, True], ba=[3], wk=['list', 'np', 'nested']) +
      ctx(d=[2, 3], ones=['r', 'n', 'last'], mat=[False, True], ba=['B'], wk=[None, 'vec', 'mat']) +
      ctx(d=[4], mat=[False], ba=['B'], wk=['mat']))
def c_projsum(W, k):
  x, p = point(W, k)
  a = operand(W, k, 'A', k.ba, x.n, x.m)
  t = p.merged(stack_dense(S.dense(a), a.batch))
  axes = ['i%d' % j for j in range(k.d)]
  b = a.batch if a.batch is not None else 1
  out = False
  if k.wk is None:
    arg = None
    t = X.einsum([['B'] + axes], axes, [t])
  elif k.wk in ('vec', 'list', 'np'):
    arg, w = weights_val(W, k, b, {'vec': 'tf'}.get(k.wk, k.wk))
    t = X.einsum([['B'], ['B'] + axes], axes, [w, t])
  else:
    o = {'mat': D.sym('O', 2, ('batch', 2)), 'mat1': 1, 'nested': 2}[k.wk]
    if k.wk == 'nested':
      el = [[X.from_atom('wt%d_%d' % (i, j), (), None) for j in range(o)] for i in range(b)]
      arg = [[PyFloat(z.view()) for z in row] for row in el]
      w = X.from_elements((b, o), [z for row in el for z in row], None)
    else:
      w = X.from_atom('wt', (b, o), GENERIC)
      arg = w.view()
    t = X.einsum([['B', 'O'], ['B'] + axes], ['O'] + axes, [w, t])
    out = True
  if not out:
    t = X.expand_dims(t, 0)
  want = p.project(p.split(t))

  def oracle(res):
    remembers(W, res, x)
    cores, mat, bb = S.wellformed(W, res)
    W.need(mat == k.mat, 'the projection changes the kind of the object')
    if k.wk != 'mat1':
      W.need(bb == out, 'the projection of a sum is %sa batch' % ('' if bb else 'not '))
    got = S.dense_inst(W, res)
    W.same(got if bb else X.expand_dims(got, 0), want, 'the projected sum')
  return Run('project_sum', [a.inst, x.inst], oracle, kw={} if arg is None else {'weights': arg}, operands=[a, x])


@case('C14', 'project_matmul', ctx(d=[2, 3], ba=[None, 'B', 1, 3], mat=[True]) +
      ctx(d=[2, 3], ba=[None, 'B'], ones=['r', 'n', 'e', 'o', 'last'], mat=[True]) +
      ctx(d=[2, 3], ba=[None, 'B'], col=[True], mat=[True]))
def c_projmatmul(W, k):
  n = modes(k, 'n')
  m = [1] * k.d if k.get('col') else modes(k, 'm', 'm')
  r = attainable(n, m, ranks(k, 'rW'))
  feasible(n, m, r)
  x = operand(W, k, 'W', None, n, m, r=r)
  p = Point(x)
  a = operand(W, k, 'A', k.ba, n, m)
  M = operand(W, k, 'M', None, n, n)
  prod = X.einsum([['p', 'q'], ['B', 'q', 's']], ['B', 'p', 's'], [S.dense(M), stack_dense(S.dense(a), a.batch)])
  want = p.project(prod)

  def oracle(res):
    remembers(W, res, x)
    check_tt(W, res, want, (a,), 'the projected product', True, strict=True)
  return Run('project_matmul', [a.inst, x.inst, M.inst], oracle, operands=[a, x, M])


# -- C15 ----------------------------------------------------------------------

def projected(W, k, names, bs, x):
  """Symbolic objects projected onto x by the code, with their dense values."""
  out = []
  for nm, b in zip(names, bs):
    if out and k.get('same'):
      out.append(out[0])
      continue
    a = operand(W, k, nm, b, x.n, x.m, bname='B' if nm == 'A' or not k.get('two') else 'B' + nm)
    r = W.call('project', a.inst, x.inst)
    out.append((r, stack_dense(S.dense_inst(W, r), b), a))
  return out


@case('C15', 'pairwise_flat_inner_projected', ctx(d=[2, 3], mat=[False, True], pair=[('B', 'B'), (3, 'B'), (1, 'B'), (1, 1), (None, 'B'), (None, None)],
                                                  two=[True]) +
      ctx(d=[2, 3], mat=[False, True], pair=[('B', 'B'), (3, 3), (1, 1), (None, None)], same=['object']))
def c_pwproj(W, k):
  x, p = point(W, k)
  (a, da, ta), (b, db, tb) = projected(W, k, 'AZ', k.pair, x)
  axes = ['i%d' % j for j in range(2 if k.mat else k.d)]
  want = X.einsum([['P'] + axes, ['Q'] + axes], ['P', 'Q'], [da, db])

  def oracle(res):
    W.same(res, want, 'the Gram matrix')
  return Run('pairwise_flat_inner_projected', [a, b], oracle, operands=[ta, tb, x])


@case('C15', 'add_n_projected', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B', 1], num=[1, 2, 3], coef=[None, 'vec', 'list']) +
      ctx(d=[2, 3], mat=[False, True], ba=['B', 1, 3], num=[2, 3], coef=['mat']) +
      ctx(d=[4], mat=[False], ba=[None], num=[2], coef=['vec']) +
      ctx(d=[2, 3], mat=[False, True], ba=[None, 'B'], num=[2], coef=[None, 'vec'], same=['object']))
def c_addproj(W, k):
  x, p = point(W, k)
  ops = projected(W, k, 'AZY'[:k.num], [k.ba] * k.num, x)
  b = ops[0][2].batch
  if k.coef is None:
    arg, cs = None, [None] * k.num
  elif k.coef == 'list':
    cs = [X.from_atom('c%d' % i, (), None) for i in range(k.num)]
    arg = [PyFloat(c.view()) for c in cs]
  elif k.coef == 'vec':
    w = X.from_atom('c', (k.num,), GENERIC)
    arg = w.view()
    cs = [X.index_axis(w, 0, i) for i in range(k.num)]
  else:
    w = X.from_atom('c', (k.num, b), GENERIC)
    arg = w.view()
    cs = [X.index_axis(w, 0, i) for i in range(k.num)]
  want = None
  axes = ['i%d' % j for j in range(2 if k.mat else k.d)]
  for (r, v, a), c in zip(ops, cs):
    if c is not None:
      v = X.einsum([['B'] if k.coef == 'mat' else [], ['B'] + axes], ['B'] + axes, [c, v])
    want = v if want is None else X.add(want, v)

  def oracle(res):
    remembers(W, res, x)
    cores, mat, bb = S.wellformed(W, res)
    c0 = S.cores_in(W, ops[0][0])
    for j in range(k.d):
      W.shape_is(cores[j], c0[j].shape, 'core %d of the sum' % j)
    check_tt(W, res, want, [o[2] for o in ops], 'the sum', k.mat, strict=True)
  kw = {} if arg is None else {'coef': arg}
  return Run('add_n_projected', [[o[0] for o in ops]], oracle, kw=kw, operands=[o[2] for o in ops] + [x])


def unprojected(W, k, how, x, y):
  """(arguments, complaint): tangent vectors of which one does not belong to x."""
  a = operand(W, k, 'A', k.ba, x.n, x.m)
  z = operand(W, k, 'Z', k.ba, x.n, x.m)
  pa = W.call('project', a.inst, x.inst)
  if how == 'plain':
    return [pa, z.inst], 'the second object was not projected'
  if how == 'plain first':
    return [z.inst, pa], 'the first object was not projected'
  if how == 'none':
    return [a.inst, z.inst], 'no object was projected'
  pz = W.call('project', z.inst, y.inst)
  return [pa, pz], 'the objects were projected on different points'


HOWS = ('plain', 'plain first', 'none', 'points')


@case(('C15', 'C12'), 'foreign tangent vectors', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B'], how=HOWS,
                                           f=['add_n_projected', 'pairwise_flat_inner_projected']) +
      ctx(d=[2], mat=[False, True], ba=[None, 'B'], how=['third'], f=['add_n_projected']), cross=False)
def c_foreign(W, k):
  x, _ = point(W, k)
  y = operand(W, k, 'Y', None, x.n, x.m, r=x.r)
  if k.how == 'third':
    (a, b), _ = unprojected(W, k, 'points', x, x)
    c = W.call('project', operand(W, k, 'C', k.ba, x.n, x.m).inst, y.inst)
    args, why = [a, b, c], 'the third object was projected on another point'
  else:
    args, why = unprojected(W, k, k.how, x, y)
  W.expect_error(k.f, *([args] if k.f == 'add_n_projected' else args), why=why)


# -- C16 ----------------------------------------------------------------------

def left_right(W, k, x):
  """Optional precomputed orthogonalisations."""
  kw = {}
  if k.get('given') in ('left', 'both'):
    kw['left'] = W.call('orthogonalize_tt_cores', x.inst)
  if k.get('given') in ('right', 'both'):
    l = kw.get('left') or W.call('orthogonalize_tt_cores', x.inst)
    kw['right'] = W.call('orthogonalize_tt_cores', l, left_to_right=False)
  return kw


GIVEN = (None, 'left', 'right', 'both')


@case('C16', 'deltas of a projection', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B', 1, 3], given=GIVEN) +
      ctx(d=[2, 3], ones=['r', 'n', 'last'], mat=[False, True], ba=[None, 'B']) +
      ctx(d=[4], mat=[False], ba=[None, 'B']))
def c_roundtrip(W, k):
  x, p = point(W, k)
  (r, v, a), = projected(W, k, 'A', [k.ba], x)
  deltas = W.call('riemannian.tangent_space_to_deltas', r)
  kw = left_right(W, k, x)

  def oracle(res):
    remembers(W, res, x)
    check_tt(W, res, v, (a,), 'the rebuilt tensor', k.mat, strict=True)
  return Run('riemannian.deltas_to_tangent_space', [deltas, x.inst], oracle, kw=kw, operands=[a, x])


@case('C16', 'tangent_space_to_deltas', ctx(d=[2, 3, 4], mat=[False], ba=[None, 'B', 1]) +
      ctx(d=[2, 3], mat=[True], ba=[None, 'B', 1, 3]) +
      ctx(d=[2, 3], ones=['r', 'n', 'last'], mat=[False, True], ba=[None, 'B']))
def c_deltas(W, k):
  x, p = point(W, k)
  (r, v, a), = projected(W, k, 'A', [k.ba], x)

  def oracle(res):
    W.need(isinstance(res, (list, tuple)) and len(res) == k.d, 'there is not one delta per core')
    ds = []
    for j, t in enumerate(res):
      t = W.tensor(t, 'delta %d' % j)
      cs = ([x.r[j], x.n[j]] + ([x.m[j]] if k.mat else []) + [x.r[j + 1]])
      if k.ba is not None:
        cs = [a.batch] + cs
      W.shape_is(t, cs, 'delta %d' % j)
      ds.append(X.reshape(t, ([a.batch] if k.ba is not None else []) + [x.r[j], p.s[j], x.r[j + 1]]))
    W.same(p.tangent(ds, k.ba is not None), v, 'the tensor spanned by the deltas')
  return Run('riemannian.tangent_space_to_deltas', [r], oracle, operands=[a, x])


@case('C16', 'deltas_to_tangent_space', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B', 1, 3], given=GIVEN) +
      ctx(d=[2, 3], ones=['r', 'n', 'last'], mat=[False, True], ba=[None, 'B']) +
      ctx(d=[4], mat=[False], ba=[None, 'B']))
def c_fromdeltas(W, k):
  x, p = point(W, k)
  kw = left_right(W, k, x)
  b = bsize(k, k.ba)
  ds = []
  for j in range(k.d):
    cs = [x.r[j], x.n[j]] + ([x.m[j]] if k.mat else []) + [x.r[j + 1]]
    ds.append(X.from_atom('dl%d' % j, tuple(([b] if b is not None else []) + cs), GENERIC))
  want = p.tangent([X.reshape(t, ([b] if b is not None else []) + [x.r[j], p.s[j], x.r[j + 1]])
                    for j, t in enumerate(ds)], b is not None)

  def oracle(res):
    remembers(W, res, x)
    cores, mat, bb = S.wellformed(W, res)
    W.need(mat == k.mat, 'the result changes the kind of the object')
    W.need(bb == (b is not None), 'the result is %sa batch' % ('' if bb else 'not '))
    got = S.dense_inst(W, res)
    W.same(got if bb else X.expand_dims(got, 0), want, 'the tensor built from the deltas')
  return Run('riemannian.deltas_to_tangent_space', [[t.view() for t in ds], x.inst], oracle, kw=kw, operands=[x])


# -- C17 ----------------------------------------------------------------------

def dense_axes(k, p='i'):
  return ['%s%d' % (p, j) for j in range(2 if k.mat else k.d)]


def dense_shape(x, k):
  return (D.prod(x.n), D.prod(x.m)) if k.mat else tuple(x.n)


def of_dense(W, f):
  """A function of the represented tensor, whatever its representation."""
  return Native('f', lambda I, x: f(S.dense_inst(W, x)))


def symm(h, n):
  perm = list(range(n, 2 * n)) + list(range(n))
  return X.add(h, X.transpose(h, perm))


def function(W, k, x):
  """(function, gradient as a function of the dense point, Hessian or None)"""
  ax, sh = dense_axes(k), dense_shape(x, k)
  n = len(ax)
  G = X.from_atom('G', sh, GENERIC)
  if k.f == 'linear':
    return of_dense(W, lambda t: X.einsum([ax, ax], [], [G, t])), lambda t: G, None
  if k.f == 'quadratic':
    H = X.from_atom('H', sh + sh, GENERIC)
    bx = dense_axes(k, 'j')
    f = of_dense(W, lambda t: X.add(X.einsum([ax + bx, ax, bx], [], [H, t, t]), X.einsum([ax, ax], [], [G, t])))
    Hs = symm(H, n)
    return f, lambda t: X.add(X.einsum([ax + bx, bx], ax, [Hs, t]), G), Hs
  if k.f in ('flat_inner', 'flat_inner right', 'square'):
    t = operand(W, k, 'T', None, x.n, x.m)
    dt = S.dense(t)

    def call(I, v):
      r = W.call('flat_inner', *((t.inst, v) if k.f.endswith('right') else (v, t.inst)))
      return I.binop('Mult', r, r) if k.f == 'square' else r
    if k.f == 'square':
      H = X.einsum([ax, dense_axes(k, 'j')], ax + dense_axes(k, 'j'), [dt, dt])
      H = X.add(H, H)
      return Native('f', call), lambda v: X.einsum([ax + dense_axes(k, 'j'), dense_axes(k, 'j')], ax, [H, v]), H
    return Native('f', call), lambda v: dt, None
  if k.f == 'norm':
    def sq(I, v):
      return W.call('frobenius_norm_squared', v, differentiable=True)
    return Native('f', sq), lambda v: X.add(v, v), None
  if k.f == 'form':
    A = operand(W, k, 'M', None, x.n, x.n)
    M = S.dense(A)
    if not k.mat:
      raise Infeasible()
    S2 = X.add(M, X.transpose(M, [1, 0]))
    return (Native('f', lambda I, v: W.call('bilinear_form', A.inst, v, v)),
            lambda v: X.einsum([['p', 'q'], ['q', 's']], ['p', 's'], [S2, v]), S2)
  raise ValueError(k.f)


def column_point(W, k):
  """A point that is a column vector in TT-matrix format."""
  n = modes(k, 'n')
  m = [1] * k.d
  r = attainable(n, m, ranks(k, 'rW'))
  feasible(n, m, r)
  x = operand(W, k, 'W', None, n, m, r=r)
  return x, Point(x)


@case('C17', 'gradients', ctx(d=[2, 3], mat=[False, True], f=['linear', 'quadratic', 'flat_inner', 'flat_inner right', 'square', 'norm'],
                              check=[True, False]) +
      ctx(d=[2, 3], mat=[True], f=['form'], check=[True]) +
      ctx(d=[4], mat=[False], f=['linear'], check=[True]) +
      ctx(d=[2, 3], ones=['r', 'n', 'last'], mat=[False, True], f=['linear'], check=[True]) +
      ctx(d=[2, 3], ones=['n', 'last'], mat=[False, True], f=['quadratic'], check=[True]), graph=True)
def c_gradients(W, k):
  x, p = column_point(W, k) if k.f == 'form' else point(W, k)
  f, grad, _ = function(W, k, x)
  want = X.expand_dims(grad(S.dense(x)), 0)
  if k.f != 'norm':      # a multiple of the point is a tangent vector
    want = p.project(want)

  def oracle(res):
    remembers(W, res, x)
    check_tt(W, res, want, (), 'the Riemannian gradient', k.mat)
  return Run('gradients', [f, x.inst], oracle, kw={} if k.check else {'runtime_check': False}, operands=[x],
             dense=k.f in ('linear', 'quadratic'))


@case('C17', 'hessian_vector_product', ctx(d=[2, 3], mat=[False, True], f=['quadratic', 'square'], check=[True, False]) +
      ctx(d=[2], ones=['r', 'n', 'last'], mat=[False, True], f=['quadratic'], check=[True]) +
      ctx(d=[2, 3], mat=[True], f=['form'], check=[True]), graph=True)
def c_hessian(W, k):
  x, p = column_point(W, k) if k.f == 'form' else point(W, k)
  f, _, H = function(W, k, x)
  v = operand(W, k, 'A', None, x.n, x.m)
  ax, bx = dense_axes(k), dense_axes(k, 'j')
  pv = p.project(X.expand_dims(S.dense(v), 0))
  if k.f == 'form':
    hv = X.einsum([['p', 'q'], ['B', 'q', 's']], ['B', 'p', 's'], [H, pv])
  else:
    hv = X.einsum([ax + bx, ['B'] + bx], ['B'] + ax, [H, pv])
  want = p.project(hv)

  def oracle(res):
    remembers(W, res, x)
    check_tt(W, res, want, (), 'the Hessian-by-vector product', k.mat)
  return Run('hessian_vector_product', [f, x.inst, v.inst], oracle, kw={} if k.check else {'runtime_check': False},
             operands=[x, v], dense=k.f in ('linear', 'quadratic'))


CLOSE = ((1, 1), (-1, -1), (0, 0), (1000, 1000))
FAR = ((1, 2), (2, 1), (-1, -2), (-2, -1), (1, -1), (-1, 1), (1, 0), (0, 1), (-1, 0))


@case('C17', 'runtime check', ctx(d=[2, 3], mat=[False, True], f=['gradients', 'hessian_vector_product'], how=[None, True]),
      cross=False, graph=True)
def c_runtime(W, k):
  x, p = point(W, k)
  ax, sh = dense_axes(k), dense_shape(x, k)
  H = X.from_atom('H', sh + sh, GENERIC)
  calls = []

  def f(I, v):
    calls.append(v)
    t = S.dense_inst(W, v)
    c = X.from_atom('val%d' % len(calls), (), GENERIC)
    return X.add(c, X.einsum([ax + dense_axes(k, 'j'), ax, dense_axes(k, 'j')], [], [H, t, t]))
  kw = {} if k.how is None else {'runtime_check': True}
  args = [Native('f', f), x.inst]
  if k.f == 'hessian_vector_product':
    args.append(operand(W, k, 'A', None, x.n, x.m).inst)
  W.call(k.f, *args, **kw)
  W.need(len(calls) >= 2, 'the function is evaluated for a single representation, nothing can be compared')

  def passes(u, v):
    vals = {'H': 0, 'val1': float(u)}
    for j in range(2, len(calls) + 1):
      vals['val%d' % j] = float(v)
    for what, cond, where in W.I.asserts:
      r = numeric.at_values(cond, vals)
      if r is None:
        raise Undecided('value of the runtime check')
      if not r or r != r:
        return False
    return True
  for u, v in CLOSE:
    W.need(passes(u, v), 'equal function values %s are rejected by the runtime check' % u)
  for u, v in FAR:
    W.need(not passes(u, v), 'a function that returns %s and %s for two representations of one tensor is accepted' % (u, v))
