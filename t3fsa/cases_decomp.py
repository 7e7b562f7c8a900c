"""Cases for orthogonalisation, TT-SVD, rounding and approximate sums."""
from . import dim as D
from . import tensor as X
from . import spec as S
from .values import *  # noqa
from .lib import GENERIC
from .cases import (case, ctx, Run, K, modes, ranks, operand, bsize, base_ctx, check_tt, stack_dense, STD,
                    dense_input, number, weights_val)


# -- C08 ----------------------------------------------------------------------

def feasible(n, m, r, left=True, right=True):
  """Assume ranks a tensor of these mode sizes can attain (strictly generic)."""
  d = len(n)
  s = [n[k] if m is None else D.mul(n[k], m[k]) for k in range(d)]
  for k in range(1, d):
    if left:
      D.CTX.le.append((r[k], D.mul(r[k - 1], s[k - 1])))
    if right:
      D.CTX.le.append((r[k], D.mul(s[k], r[k + 1])))


def check_orth(W, cores, mat, b, left):
  """Every core but the last (first) has orthonormal columns (rows)."""
  d = len(cores)
  for k in (range(d - 1) if left else range(1, d)):
    c = cores[k]
    md = ['i', 'j'] if mat else ['i']
    B = ['B'] if b else []
    if left:
      g = X.einsum([B + ['a'] + md + ['s'], B + ['a'] + md + ['t']], B + ['s', 't'], [c, c])
    else:
      g = X.einsum([B + ['s'] + md + ['a'], B + ['t'] + md + ['a']], B + ['s', 't'], [c, c])
    n = c.shape[-1] if left else c.shape[1 if b else 0]
    W.same(g, X.eye(n, n, None, (c.shape[0],) if b else ()),
           'Gram matrix of the %s unfolding of core %d' % ('left' if left else 'right', k), dtype=False)


@case('C08', 'orthogonalize_tt_cores left to right',
      base_ctx(mat=[False, True], ba=[None, 'B', 1]) + ctx(d=[2, 3], mat=[False, True], ba=[None, 'B', 3], feas=[True]) +
      ctx(d=[3], mat=[False], ba=[None], feas=['none'], kwarg=[True]))
def c_orth(W, k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  r = ranks(k, 'rA')
  if k.get('feas'):
    feasible(n, m, r)
  a = operand(W, k, 'A', k.ba, n, m, r=r)
  want = stack_dense(S.dense(a), a.batch)

  def oracle(res):
    check_tt(W, res, want, (a,), 'orthogonalised object', k.mat, strict=True)
    cores, mat, b = S.wellformed(W, res)
    check_orth(W, cores, mat, b, True)
  return Run('orthogonalize_tt_cores', [a.inst], oracle, operands=[a],
             kw={'left_to_right': True} if k.get('kwarg') else {})


@case('C08', 'orthogonalize_tt_cores right to left',
      base_ctx(mat=[False, True]) + ctx(d=[2, 3], mat=[False, True], feas=[True]))
def c_orthr(W, k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  r = ranks(k, 'rA')
  if k.get('feas'):
    feasible(n, m, r)
  a = operand(W, k, 'A', None, n, m, r=r)
  want = stack_dense(S.dense(a), None)

  def oracle(res):
    check_tt(W, res, want, (a,), 'orthogonalised object', k.mat, strict=True)
    cores, mat, b = S.wellformed(W, res)
    check_orth(W, cores, mat, b, False)
  return Run('orthogonalize_tt_cores', [a.inst], oracle, kw={'left_to_right': False}, operands=[a])


# -- C09 ----------------------------------------------------------------------

def rank_bound(k, d, kind, big=()):
  """The rank argument and the bound per position (None: irrelevant)."""
  if kind == 'inf':          # larger than everything it is compared with
    M = D.sym('M', 2, ('bound', 0))
    for x in big:
      D.CTX.le.append((x, M))
    return M, [M] * (d + 1)
  if kind == 'inflist':
    M = D.sym('M', 2, ('bound', 0))
    for x in big:
      D.CTX.le.append((x, M))
    return [1] + [M] * (d - 1) + [1], [1] + [M] * (d - 1) + [1]
  if kind in ('np.inf', 'none'):
    return (Inf(1) if kind == 'np.inf' else None), [D.INT_MAX] * (d + 1)
  if kind == 'infs':
    return [1] + [Inf(1)] * (d - 1) + [1], [1] + [D.INT_MAX] * (d - 1) + [1]
  if kind == 'sym':
    M = D.sym('M', 2, ('bound', 0))
    return M, [M] * (d + 1)
  if kind in ('list', 'np', 'tuple'):
    Ms = [D.sym('M%d' % j, 1, ('bound', j)) for j in range(1, d)]
    l = [1] + Ms + [1]
    if kind == 'np':
      return Arr((d + 1,), list(l), 'np'), l
    return (tuple(l) if kind == 'tuple' else l), l
  return kind, [kind] * (d + 1)


def lead(t, axis, r):
  return t if D.same(t.shape[axis], r) else X.slice_axis(t, axis, 0, r, 1)


def tt_svd(t, b, bounds, reverse):
  """Reference TT-SVD of a dense tensor with n0 .. n_{d-1} axes.  b: leading
  batch axis.  Returns the dense value of the truncated tensor."""
  o = 1 if b else 0
  n = list(t.shape[o:])
  d = len(n)
  B = [t.shape[0]] if b else []
  if d == 1:
    return t
  order = range(d - 1, 0, -1) if reverse else range(d - 1)
  cores = []
  r = 1
  for k in order:
    if reverse:
      rows, cols = D.prod(n[:k]), D.mul(n[k], r)
      bound = bounds[k]
    else:
      rows, cols = D.mul(r, n[k]), D.prod(n[k + 1:])
      bound = bounds[k + 1]
    t = X.reshape(t, B + [rows, cols])
    s, u, v = X.svd(t)
    new = D.minimum(bound, s.shape[-1])
    s, u, v = lead(s, o, new), lead(u, o + 1, new), lead(v, o + 1, new)
    BB = ['B'] if b else []
    if reverse:
      cores.append(X.reshape(X.transpose(v, ([0] if b else []) + [o + 1, o]), B + [new, n[k], r]))
      t = X.einsum([BB + ['i', 'k'], BB + ['k']], BB + ['i', 'k'], [u, s])
    else:
      cores.append(X.reshape(u, B + [r, n[k], new]))
      t = X.einsum([BB + ['k'], BB + ['j', 'k']], BB + ['k', 'j'], [s, v])
    r = new
  if reverse:
    cores.append(X.reshape(t, B + [1, n[0], r]))
    cores.reverse()
  else:
    cores.append(X.reshape(t, B + [r, n[-1], 1]))
  return S.dense_cores(cores, False, b)


def truncated_ref(cores, mat, b, bounds, rev):
  """Value of one sweep of TT-SVD on the object given by cores."""
  d = len(cores)
  o = 1 if b else 0
  merged = []
  for c in cores:
    sh = list(c.shape)
    merged.append(X.reshape(c, sh[:o + 1] + [D.prod(sh[o + 1:-1])] + [sh[-1]]))
  t = S.dense_cores(merged, False, b)
  v = tt_svd(t, b, bounds, rev)
  if mat:
    n = [c.shape[o + 1] for c in cores]
    m = [c.shape[o + 2] for c in cores]
    sh = [z for p in zip(n, m) for z in p]
    v = X.reshape(v, ([v.shape[0]] if b else []) + sh)
    v = X.transpose(v, ([0] if b else []) + [o + 2 * q for q in range(d)] + [o + 2 * q + 1 for q in range(d)])
    v = X.reshape(v, ([v.shape[0]] if b else []) + [D.prod(n), D.prod(m)])
  return v


def same_any(W, got, wants, what):
  """got equals one of the reference values."""
  from .driver import Violated
  from .tensor import Unsupported
  und = None
  err = None
  for w in wants:
    try:
      W.same(got, w() if callable(w) else w, what)
      return
    except Unsupported as e:
      und = und or e
    except Violated as e:
      err = err or e
  if und is not None:
    raise und
  raise err


def round_ref(cores, mat, b, bounds):
  """Left-to-right orthogonalisation followed by a truncating right-to-left sweep."""
  o = 1 if b else 0
  B = ['B'] if b else []
  bs = [cores[0].shape[0]] if b else []
  d = len(cores)
  shp = [list(c.shape[o + 1:-1]) for c in cores]
  cs = [X.reshape(c, bs + [c.shape[o], D.prod(s), c.shape[-1]]) for c, s in zip(cores, shp)]
  for k in range(d - 1):
    c = cs[k]
    q, r = X.qr(X.reshape(c, bs + [D.mul(c.shape[o], c.shape[o + 1]), c.shape[-1]]))
    cs[k] = X.reshape(q, bs + [c.shape[o], c.shape[o + 1], q.shape[-1]])
    cs[k + 1] = X.einsum([B + ['a', 'b'], B + ['b', 'i', 'c']], B + ['a', 'i', 'c'], [r, cs[k + 1]])
  rk = 1
  for k in range(d - 1, 0, -1):
    c = cs[k]
    s, u, v = X.svd(X.reshape(c, bs + [c.shape[o], D.mul(c.shape[o + 1], rk)]))
    new = D.minimum(bounds[k], s.shape[-1])
    s, u, v = lead(s, o, new), lead(u, o + 1, new), lead(v, o + 1, new)
    cs[k] = X.reshape(X.transpose(v, ([0] if b else []) + [o + 1, o]), bs + [new, c.shape[o + 1], rk])
    cs[k - 1] = X.einsum([B + ['a', 'i', 'b'], B + ['b', 'k'], B + ['k']], B + ['a', 'i', 'k'], [cs[k - 1], u, s])
    rk = new
  out = [X.reshape(c, bs + [c.shape[o]] + s + [c.shape[-1]]) for c, s in zip(cs, shp)]
  return S.dense_cores(out, mat, b)


def check_bounds(W, res, bounds, attain=None):
  cores, mat, b = S.wellformed(W, res)
  o = 1 if b else 0
  for k in range(1, len(cores)):
    W.checked += 1
    x = cores[k].shape[o]
    if not D.nonneg(D.sub(bounds[k], x)):
      if D.nonneg(D.sub(x, D.add(bounds[k], 1))) or D.cmp_le(x, bounds[k]) is False:
        W.bad('TT-rank %d is %s, above the bound %s' % (k, D.show(x), D.show(bounds[k])))
      if D.decide_lt(bounds[k], x):
        W.bad('TT-rank %d is %s, which can exceed the bound %s' % (k, D.show(x), D.show(bounds[k])))
  return cores


EXACT = ('inf', 'inflist', 'np.inf', 'infs', 'none')
BOUNDS = ('inf', 'inflist', 1, 'sym', 'list', 'np', 'tuple', 2)


@case('C09', 'to_tt_tensor', ctx(d=[1, 2, 3, 4], bound=['inf']) + ctx(d=[1, 2, 3], bound=list(BOUNDS[1:])) +
      ctx(d=[2, 3], ones=['n', 'e', 'o'], bound=['inf', 'sym', 'list']) + ctx(d=[3], bound=['inf', 'list'], np=[True]) +
      ctx(d=[1, 2, 3], bound=['np.inf', 'infs']),
      deep=ctx(d=[4], bound=['sym', 1, 2]) + ctx(d=[5], bound=['inf', 'sym', 1, 2]))
def c_totens(W, k):
  n = modes(k, 'n')
  x = dense_input('x', tuple(n), [[s] for s in n])
  arg, bounds = rank_bound(k, k.d, k.bound, [D.prod(n[:j]) for j in range(1, k.d)])
  exact = k.bound in EXACT or k.d == 1

  def oracle(r):
    check_bounds(W, r, bounds)
    W.need(not S.is_batch(W, r), 'the result is a batch')
    got = S.dense_inst(W, r)
    same_any(W, got, [x] if exact else [lambda v=v: tt_svd(x, False, bounds, v) for v in (False, True)], 'the TT-tensor')
  return Run('to_tt_tensor', [x.view()], oracle, kw={'max_tt_rank': arg}, dense=True)


@case('C09', 'to_tt_matrix', ctx(d=[1, 2, 3], bound=['inf', 'sym', 'list', 1]) + ctx(d=[2], bound=['inflist', 'np', 2]) +
      ctx(d=[2, 3], ones=['n', 'e', 'o'], bound=['inf', 'list']) + ctx(d=[1, 2, 3], bound=['inf'], vec=['row', 'col']) +
      ctx(d=[2], bound=['np.inf', 'infs']),
      deep=ctx(d=[4], bound=['inf', 'sym', 1, 2]) + ctx(d=[5], bound=['inf', 1, 2]))
def c_tomat(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  if k.get('vec') == 'row':
    n = [1] * k.d
  if k.get('vec') == 'col':
    m = [1] * k.d
  x = dense_input('x', (D.prod(n), D.prod(m)), [n, m])
  s = [D.mul(a, b) for a, b in zip(n, m)]
  arg, bounds = rank_bound(k, k.d, k.bound, [D.prod(s[:j]) for j in range(1, k.d)])
  exact = k.bound in EXACT or k.d == 1
  shape = [None if k.get('vec') == 'row' else list(n), None if k.get('vec') == 'col' else list(m)]

  def oracle(r):
    check_bounds(W, r, bounds)
    cores, mat, b = S.wellformed(W, r)
    W.need(mat and not b, 'the result is not a single TT-matrix')
    got = S.dense_inst(W, r)
    if exact:
      W.same(got, x, 'the TT-matrix')
      return
    d = k.d
    t = X.reshape(x, n + m)
    t = X.reshape(X.transpose(t, [z for q in range(d) for z in (q, d + q)]), s)

    def ref(rev):
      v = X.reshape(tt_svd(t, False, bounds, rev), [z for p in zip(n, m) for z in p])
      v = X.transpose(v, [2 * q for q in range(d)] + [2 * q + 1 for q in range(d)])
      return X.reshape(v, x.shape)
    same_any(W, got, [lambda: ref(False), lambda: ref(True)], 'the TT-matrix')
  return Run('to_tt_matrix', [x.view(), shape], oracle, kw={'max_tt_rank': arg}, dense=True)


@case('C09', 'round', ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B'], bound=['inf', 'sym', 1]) +
      ctx(d=[4], mat=[False], ba=[None, 'B'], bound=['inf']) + ctx(d=[2, 3], mat=[False, True], ba=[1, 3], bound=['inf']) +
      ctx(d=[2, 3], mat=[False, True], ba=[None, 'B'], bound=['inflist', 'list', 'np', 'tuple', 2]) +
      ctx(d=[2, 3], ones=['r', 'n', 'e', 'o'], mat=[False, True], ba=[None, 'B'], bound=['inf']) +
      ctx(d=[2, 3], mat=[False, True], ba=[None, 'B'], bound=['inf', 'sym'], feas=[True]) +
      ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B'], bound=['none', 'np.inf', 'infs']),
      deep=ctx(d=[4], mat=[False, True], ba=[None, 'B'], bound=['inf', 'sym', 'list'], feas=[True]) +
      ctx(d=[5, 6], mat=[False, True], ba=[None, 'B'], bound=['inf'], feas=[True]))
def c_round(W, k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  r = ranks(k, 'rA')
  if k.get('feas'):
    feasible(n, m, r)
  a = operand(W, k, 'A', k.ba, n, m, r=r)
  arg, bounds = rank_bound(k, k.d, k.bound, r[1:-1])
  exact = k.bound in EXACT or k.d == 1
  want = stack_dense(S.dense(a), a.batch)

  def oracle(res):
    check_bounds(W, res, bounds)
    if exact:
      check_tt(W, res, want, (a,), 'the rounded object', k.mat, strict=True)
      return
    cores, mat, b = S.wellformed(W, res)
    W.need(mat == k.mat and b == (k.ba is not None), 'rounding changes the kind of the object')
    got = S.dense_inst(W, res)
    same_any(W, got, [lambda: round_ref(a.cores, k.mat, b, bounds),
                      lambda: truncated_ref(a.cores, k.mat, b, bounds, False)],
             'the rounded object')
  return Run('round', [a.inst, arg], oracle, operands=[a])


# -- C27 ----------------------------------------------------------------------

ABOUND = ('tight', 'tightlist', 2)


def roomy(n, m, r, top):
  """Modes that can carry the ranks of up to `top` summands."""
  d = len(n)
  s = [n[k] if m is None else D.mul(n[k], m[k]) for k in range(d)]
  if d == 1:
    return
  for j in range(1, top + 1):
    for k in range(1, d):
      lo = s[0] if k == 1 else D.mul(D.mul(j, r[k - 1]), s[k - 1])
      hi = s[-1] if k == d - 1 else D.mul(D.mul(j, r[k + 1]), s[k])
      D.CTX.le.append((D.mul(j, r[k]), lo))
      D.CTX.le.append((D.mul(j, r[k]), hi))


def sum_bound(k, n, m, r):
  """Rank argument of the approximate sums and the bound per position."""
  d = k.d
  if k.bound == 'tight':          # every rounding truncates
    M = D.sym('M', 1, ('bound', 0))
    for x in r[1:-1] + n:
      D.CTX.le.append((M, x))
    return M, [M] * (d + 1)
  if k.bound == 'tightlist':
    Ms = [D.sym('M%d' % j, 1, ('bound', j)) for j in range(1, d)]
    for M in Ms:
      for x in r[1:-1] + n:
        D.CTX.le.append((M, x))
    return [1] + Ms + [1], [1] + Ms + [1]
  return rank_bound(k, d, k.bound, [D.mul(2 * k.num, x) for x in r[1:-1]])


@case('C27', 'approximate.add_n', ctx(num=[1, 2, 3, 4, 5], d=[2], mat=[False, True], ba=[None], bound=['none'], room=[True]) +
      ctx(num=[2, 3], d=[1, 3], mat=[False, True], ba=[None], bound=['none'], room=[True]) +
      ctx(num=[7, 8], d=[2], mat=[False], ba=[None], bound=['none'], room=[True]) +
      ctx(num=[2, 3], d=[2], mat=[False, True], ba=['B', 1], bound=['none'], room=[True]) +
      ctx(num=[2], d=[2], mat=[False, True], ba=[None, 'B'], bound=['inf', 'none', 'sym']) +
      ctx(num=[3], d=[2], mat=[False, True], ba=[None, 'B'], bound=['none']) +
      ctx(num=[2, 3, 4], d=[2, 3], mat=[False, True], ba=[None], bound=list(ABOUND), room=[True]) +
      ctx(num=[2, 3], d=[2], mat=[False, True], ba=[None], bound=['none'], cont=['tuple'], room=[True]))
def c_approx_add(W, k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  ops = [operand(W, k, 'ABCDEFGH'[i], k.ba, n, m, rname='r') for i in range(k.num)]
  if k.get('room'):
    roomy(n, m, ops[0].r, k.num)
  arg, bounds = sum_bound(k, n, m, ops[0].r)
  want = None
  for o in ops:
    t = stack_dense(S.dense(o), o.batch)
    want = t if want is None else X.add(want, t)
  lst = [o.inst for o in ops]

  def oracle(res):
    if k.bound in EXACT or k.d == 1 or k.num == 1:
      check_tt(W, res, want, ops, 'the sum', k.mat, strict=True)
    else:
      cores, mat, b = S.wellformed(W, res)
      W.need(mat == k.mat and b == (k.ba is not None), 'the sum changes the kind of the object')
    if k.num > 1:
      check_bounds(W, res, bounds)
  return Run('approximate.add_n', [tuple(lst) if k.get('cont') else lst, arg], oracle, operands=ops)


@case('C27', 'approximate.reduce_sum_batch',
      ctx(num=[1, 2, 3, 4, 5], d=[2], mat=[False, True], coef=[None, 'vec', 'mat'], bound=['none'], room=[True]) +
      ctx(num=[2, 3], d=[1, 3], mat=[False, True], coef=[None, 'vec', 'mat'], bound=['none'], room=[True]) +
      ctx(num=[3, 4], d=[2], mat=[False], coef=['mat1', 'mat3', 'list', 'np', 'nested', 'zero'], bound=['none'], room=[True]) +
      ctx(num=[7, 8], d=[2], mat=[False], coef=[None, 'mat'], bound=['none'], room=[True]) +
      ctx(num=[2], d=[2], mat=[False, True], coef=[None, 'mat'], bound=['inf', 'none', 'sym']) +
      ctx(num=[2, 3], d=[2, 3], mat=[False, True], coef=[None, 'vec', 'mat'], bound=list(ABOUND), room=[True]))
def c_approx_sum(W, k):
  a = operand(W, k, 'A', k.num)
  if k.get('room'):
    roomy(a.n, a.m, a.r, {1: 1, 2: 2, 3: 4, 4: 4}.get(k.num, 8))
  arg, bounds = sum_bound(k, a.n, a.m, a.r)
  da = S.dense(a)
  axes = ['i%d' % j for j in range(2 if k.mat else k.d)]
  out = False
  co = None
  if k.coef is None:
    want = X.einsum([['B'] + axes], axes, [da])
  elif k.coef in ('vec', 'list', 'np'):
    co, w = weights_val(W, k, k.num, {'vec': 'tf'}.get(k.coef, k.coef))
    want = X.einsum([['B'], ['B'] + axes], axes, [w, da])
  elif k.coef == 'zero':
    co = [0] + [1] * (k.num - 1)
    w = X.from_elements((k.num,), [X.scalar(z) for z in co], None)
    want = X.einsum([['B'], ['B'] + axes], axes, [w, da])
  else:
    o = {'mat': 2, 'mat1': 1, 'mat3': 3, 'nested': 2}[k.coef]
    if k.coef == 'nested':
      el = [[X.from_atom('wt%d_%d' % (i, j), (), None) for j in range(o)] for i in range(k.num)]
      co = [[PyFloat(z.view()) for z in row] for row in el]
      w = X.from_elements((k.num, o), [z for row in el for z in row], None)
    else:
      w = X.from_atom('wt', (k.num, o), GENERIC)
      co = w.view()
    want = X.einsum([['B', 'O'], ['B'] + axes], ['O'] + axes, [w, da])
    out = True

  def oracle(res):
    cores, mat, b = S.wellformed(W, res)
    W.need(mat == k.mat, 'the sum changes the kind of the object')
    if k.coef != 'mat1':
      W.need(b == out, 'the sum is %sa batch' % ('' if b else 'not '))
    if k.bound in EXACT or k.d == 1 or k.num == 1:
      got = S.dense_inst(W, res)
      W.same(got if b else X.expand_dims(got, 0), want if out else X.expand_dims(want, 0), 'the sum')
    if k.num > 1:
      check_bounds(W, res, bounds)
  return Run('approximate.reduce_sum_batch', [a.inst, arg], oracle, kw={} if co is None else {'coef': co}, operands=[a])
