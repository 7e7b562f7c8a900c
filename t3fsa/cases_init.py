"""Cases for initialisers (C19-C21), variables and regularisers (C22), layer (C23)."""
from fractions import Fraction

from . import dim as D
from . import term as T
from . import tensor as X
from . import spec as S
from .tensor import Tensor, Unsupported
from .term import Term
from .values import *  # noqa
from .lib import GENERIC, DT
from .driver import Undecided
from .cases import case, ctx, Run, modes, ranks, operand, bsize, stack_dense


# -- arguments ------------------------------------------------------------------

def tensor_shape(k, n):
  return {'list': lambda: list(n), 'tuple': lambda: tuple(n), 'np': lambda: Arr((len(n),), list(n), 'np')}[k.get('form') or 'list']()


def matrix_shape(k, n, m):
  f = k.get('form') or 'list'
  if f == 'list':
    return [list(n), list(m)]
  if f == 'tuple':
    return (tuple(n), tuple(m))
  if f == 'np':
    return Arr((2, len(n)), list(n) + list(m), 'np')
  if f == 'col':           # column vector
    return [list(n), None]
  if f == 'row':
    return [None, list(m)]
  if f == 'rowt':
    return (None, tuple(m))
  raise ValueError(f)


def init_modes(k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm') if k.mat else None
  if k.get('huge'):      # more elements than any integer of NumPy can count
    n = [65536] * k.d
    m = [65536] * k.d if k.mat else None
  if k.mat and k.get('form') == 'col':
    m = [1] * k.d
  if k.mat and k.get('form') in ('row', 'rowt'):
    n = [1] * k.d
  return n, m


def rank_arg(k):
  """(argument or None for the default, ranks)"""
  d = k.d
  kind = k.get('rk')
  if kind is None:
    return None, [1] + [2] * (d - 1) + [1]
  if kind == 'sym':
    r = D.sym('r', 1, ('rank', 1))
    return r, [1] + [r] * (d - 1) + [1]
  if kind in ('list', 'np', 'tuple'):
    r = [1] + [D.sym('r%d' % j, 1, ('rank', j)) for j in range(1, d)] + [1]
    return {'list': list(r), 'tuple': tuple(r), 'np': Arr((d + 1,), list(r), 'np')}[kind], r
  return kind, [1] + [kind] * (d - 1) + [1]


def check_object(W, res, n, m, r, batch, dtype):
  """Kind, sizes, ranks, batch size and dtype of the cores."""
  cores, mat, b = S.wellformed(W, res)
  W.need(mat == (m is not None), 'the result is %sa TT-matrix' % ('' if mat else 'not '))
  W.need(b == (batch is not None), 'the result is %sa batch' % ('' if b else 'not '))
  W.need(len(cores) == len(n), 'the result has %d cores for %d dimensions' % (len(cores), len(n)))
  for j, c in enumerate(cores):
    sh = ([batch] if b else []) + [r[j], n[j]] + ([m[j]] if mat else []) + [r[j + 1]]
    W.shape_is(c, sh, 'core %d' % j)
    W.need(c.dtype is not None and X.same_dtype(c.dtype, dtype), 'core %d has dtype %s, requested %s' % (
        j, getattr(c.dtype, 'name', None), dtype.name))
  return cores


# -- C19 ----------------------------------------------------------------------

def const_dense(v, n, m, dtype):
  sh = (D.prod(n), D.prod(m)) if m is not None else tuple(n)
  return X.const_fill(v, sh, dtype)


def dtype_arg(k):
  if k.get('dt'):
    return {'dtype': GENERIC}, GENERIC
  return {}, DT['float32']


ICTX = ctx(d=[1, 2, 3, 4], form=['list', 'tuple', 'np'], dt=[True]) + ctx(d=[2, 3], form=['list'], dt=[False]) + \
    ctx(d=[1, 2, 3], ones=['n', 'e', 'o', 'last'], form=['list'], dt=[True])
MICTX = ctx(d=[1, 2, 3, 4], form=['list', 'tuple', 'np', 'row', 'col', 'rowt'], dt=[True]) + \
    ctx(d=[2, 3], form=['list'], dt=[False]) + ctx(d=[1, 2, 3], ones=['n', 'e', 'o', 'last'], form=['list', 'row', 'col'], dt=[True])


def with_mat(cs, mat):
  out = []
  for c in cs:
    kw = dict(c.kw)
    kw['mat'] = mat
    out += ctx(**{a: [b] for a, b in kw.items()})
  return out


for _f, _v, _mat in (('tensor_ones', 1, False), ('tensor_zeros', 0, False), ('matrix_ones', 1, True), ('matrix_zeros', 0, True)):
  def c_const(W, k, f=_f, v=_v):
    n, m = init_modes(k)
    kw, dt = dtype_arg(k)
    arg = matrix_shape(k, n, m) if k.mat else tensor_shape(k, n)

    def oracle(res):
      cores, mat, b = S.wellformed(W, res)
      W.need(mat == k.mat and not b, 'the result is of another kind')
      W.same(S.dense_inst(W, res), const_dense(v, n, m, dt), 'the constant')
    return Run(f, [arg], oracle, kw=kw, result='tt')
  case('C19', _f, with_mat(MICTX if _mat else ICTX, _mat))(c_const)


@case('C19', 'eye', with_mat(ICTX, True))
def c_eye(W, k):
  n = modes(k, 'n')
  kw, dt = dtype_arg(k)
  N = D.prod(n)

  def oracle(res):
    cores, mat, b = S.wellformed(W, res)
    W.need(mat and not b, 'the result is of another kind')
    d = len(n)
    es = [X.eye(x, x, dt) for x in n]
    t = X.einsum([['i%d' % j, 'j%d' % j] for j in range(d)], ['i%d' % j for j in range(d)] + ['j%d' % j for j in range(d)], es)
    W.same(S.dense_inst(W, res), X.reshape(t, [N, N]), 'the identity')
  return Run('eye', [tensor_shape(k, n)], oracle, kw=kw, result='tt')


@case('C19', 'ones_like and zeros_like', ctx(f=['ones_like', 'zeros_like'], d=[1, 2, 3, 4], mat=[False, True], ba=[None, 'B', 1, 3]) +
      ctx(f=['ones_like', 'zeros_like'], d=[2, 3], ones=['n', 'r', 'e', 'o', 'all'], mat=[False, True], ba=[None, 'B']))
def c_like(W, k):
  a = operand(W, k, 'A', k.ba)

  def oracle(res):
    cores, mat, b = S.wellformed(W, res)
    W.need(mat == k.mat, 'the result is of another kind')
    want = const_dense(1 if k.f == 'ones_like' else 0, a.n, a.m, GENERIC)
    W.need(not b, 'the result is a batch')
    W.same(S.dense_inst(W, res), want, 'the constant')
  return Run(k.f, [a.inst], oracle, operands=[a], result='tt')


# -- C20 ----------------------------------------------------------------------

# variances: standard normal, uniform on [-1/2, 1/2], standard normal cut at two deviations
RANDOM = {'gauss': Fraction(1), 'unif': Fraction(1, 12), 'trunc': Fraction(0.773741303461876)}


def rand_atoms(t):
  if t.top:
    raise Unsupported(t.top)
  return {a.key for x in t.terms for a, _, e in x.fs if a.kind in RANDOM}


def hidden_random(t):
  """Random numbers inside non-polynomial functions."""
  for x in t.terms:
    for a, _, e in x.fs:
      if a.kind in ('W', 'fn', 'abs', 'sign', 'log', 'Q', 'R', 'U', 'S', 'V', 'INV', 'CH', 'det'):
        for y in _inside(a):
          if y.kind in RANDOM:
            return True
  return False


def _inside(a):
  if a.kind in ('abs', 'sign', 'log'):
    return [a.par] + _inside(a.par)
  if a.kind == 'W':
    ts = [T.TC.deft[a.par]]
  elif a.kind == 'fn':
    ts = T.TC.deft[a.par[1]][2]
  elif a.kind in ('Q', 'R', 'U', 'S', 'V', 'det', 'INV', 'CH'):
    ts = [T.TC.deft[a.par[0]][1]]
  else:
    return []
  out = []
  for x in ts:
    for t in x.terms:
      for b, _, _ in t.fs:
        out.append(b)
        out += _inside(b)
  return out


def expectation(t):
  """Expected value over random atoms (independent entries, symmetric about 0)."""
  if hidden_random(t):
    raise Undecided('expectation of a non-polynomial function of random numbers')
  res = []
  for x in t.terms:
    rest = [f for f in x.fs if f[0].kind not in RANDOM]
    occ = {}
    for a, legs, e in x.fs:
      if a.kind in RANDOM:
        if isinstance(e, D.Dim) or Fraction(e).denominator != 1 or e < 0:
          raise Undecided('power of a random number')
        occ.setdefault(a.key, []).extend([(a, legs)] * int(e))
    if any(len(v) % 2 for v in occ.values()):
      continue
    if any(len(v) > 2 and v[0][0].kind != 'gauss' for v in occ.values()):
      raise Undecided('fourth moment of numbers that are not normal')
    coef = x.coef
    for v in occ.values():
      coef = coef * RANDOM[v[0][0].kind] ** (len(v) // 2)
    alts = [rest]
    for key in sorted(occ):
      nxt = []
      for pairing in pairings(occ[key]):
        fs = []
        for (a, l1), (_, l2) in pairing:
          fs += [(T.eye_atom(d), (p, q), 1) for d, p, q in zip(a.legdims, l1, l2)]
        nxt += [y + fs for y in alts]
      alts = nxt
    res += [Term(coef, fs, x.bound) for fs in alts]
  return Tensor(t.shape, t.flat, res, t.dtype, t.static)


def pairings(xs):
  if not xs:
    yield []
    return
  if len(xs) > 6:
    raise Undecided('moment of high order')
  for i in range(1, len(xs)):
    for rest in pairings(xs[1:i] + xs[i + 1:]):
      yield [(xs[0], xs[i])] + rest


def independent(W, cores):
  """Every core has random numbers of its own; entries of one core differ."""
  seen = {}
  for j, c in enumerate(cores):
    at = rand_atoms(c)
    W.need(at, 'core %d is not random' % j)
    for z in at:
      W.need(z not in seen, 'cores %s and %d share their random numbers' % (seen.get(z), j))
      seen[z] = j
    for x in c.terms:
      for a, legs, e in x.fs:
        if a.kind in RANDOM:
          used = set()
          for l in legs:
            used.update([l] if isinstance(l, int) else T.leg_labels(l, []))
          if not set(c.flat) <= used:
            W.bad('entries of core %d along some axis are the same random number' % j)


def rmodes(k):
  return init_modes(k)


def draw_ctx(mat, batch):
  forms = ['list', 'tuple', 'np'] + (['row', 'col'] if mat else [])
  bs = ['B', 1, 3, None] if batch else [None]
  out = ctx(d=[1, 2, 3, 4], form=['list'], rk=['sym', 'list', 1], bs=bs[:1], mat=[mat], batch=[batch])
  out += ctx(d=[1, 2, 3], form=forms, rk=['list', None], bs=bs, mat=[mat], batch=[batch])
  out += ctx(d=[2], form=['list'], rk=['np', 'tuple', 3], bs=bs, mat=[mat], batch=[batch])
  out += ctx(d=[2, 3], form=['list'], rk=['list'], ones=['n', 'e', 'o'], bs=bs[:1], mat=[mat], batch=[batch])
  return out


def huge_ctx(mat, batch):
  return ctx(d=[4], form=['list'], rk=['list'], bs=['B'] if batch else [None], mat=[mat], batch=[batch], huge=[True])


def draw_args(W, k, n, m):
  kw = {}
  arg, r = rank_arg(k)
  if arg is not None:
    kw['tt_rank'] = arg
  b = None
  if k.batch:
    b = 1
    if k.bs is not None:
      b = bsize(k, k.bs)
      kw['batch_size'] = b
  kw['dtype'] = GENERIC
  return kw, r, b


def real(name, nonneg=False):
  t = X.from_atom(name, (), None, nonneg=nonneg)
  return PyFloat(t.view()), t


for _f, _mat, _batch in (('tensor_with_random_cores', False, False), ('tensor_batch_with_random_cores', False, True),
                         ('matrix_with_random_cores', True, False), ('matrix_batch_with_random_cores', True, True)):
  def c_cores(W, k, f=_f):
    n, m = rmodes(k)
    kw, r, b = draw_args(W, k, n, m)
    mu = sd = None
    if k.get('ms', True):
      kw['mean'], mu = real('mu')
      kw['stddev'], sd = real('sd', True)
    arg = matrix_shape(k, n, m) if k.mat else tensor_shape(k, n)

    def oracle(res):
      cores = check_object(W, res, n, m, r, b, GENERIC)
      independent(W, cores)
      for j, c in enumerate(cores):
        e1 = expectation(c)
        W.same(e1, X.const_fill(mu, c.shape, GENERIC), 'the mean of core %d' % j)
        e2 = expectation(X.mul(c, c))
        W.same(e2, X.const_fill(X.add(X.mul(sd, sd), X.mul(mu, mu)), c.shape, GENERIC), 'the second moment of core %d' % j)
    return Run(f, [arg], oracle, kw=kw, result='tt')
  case('C20', _f, draw_ctx(_mat, _batch), deep=huge_ctx(_mat, _batch), graph=True)(c_cores)


def dense_moments(W, res, mean, var):
  t = S.dense_inst(W, res)
  if hidden_random(t):
    raise Undecided('non-polynomial function of random numbers')
  W.same(expectation(t), X.const_fill(mean, t.shape, t.dtype), 'the mean of the entries')
  W.same(expectation(X.mul(t, t)), X.const_fill(var, t.shape, t.dtype), 'the variance of the entries')


for _f, _mat, _batch in (('random_tensor', False, False), ('random_tensor_batch', False, True),
                         ('random_matrix', True, False), ('random_matrix_batch', True, True)):
  def c_entries(W, k, f=_f):
    n, m = rmodes(k)
    kw, r, b = draw_args(W, k, n, m)
    if k.get('default'):
      sd = X.scalar(1)
    else:
      kw['stddev'], sd = real('sd', True)
    arg = matrix_shape(k, n, m) if k.mat else tensor_shape(k, n)

    def oracle(res):
      cores = check_object(W, res, n, m, r, b, GENERIC)
      independent(W, cores)
      dense_moments(W, res, 0, X.mul(sd, sd))
    return Run(f, [arg], oracle, kw=kw, result='tt')
  case('C20', _f, draw_ctx(_mat, _batch) + ctx(d=[1, 2, 3], form=['list'], rk=['list'], bs=['B'], mat=[_mat], batch=[_batch],
                                                default=[True]), deep=huge_ctx(_mat, _batch), graph=True)(c_entries)


def quotient(a, t):
  return X.mul(X.scalar(a), X.pow_const(t, -1))


for _f in ('glorot', 'he', 'lecun'):
  def c_scaled(W, k, f=_f):
    n, m = rmodes(k)
    kw, r, b = draw_args(W, k, n, m)
    N, M = X.scalar(D.prod(n)), X.scalar(D.prod(m))
    var = {'glorot': lambda: quotient(2, X.add(N, M)), 'he': lambda: quotient(2, N),
           'lecun': lambda: quotient(1, N)}[f]()

    def oracle(res):
      cores = check_object(W, res, n, m, r, b, GENERIC)
      independent(W, cores)
      dense_moments(W, res, 0, var)
    return Run(f + '_initializer', [matrix_shape(k, n, m)], oracle, kw=kw, result='tt')
  case('C20', _f + '_initializer', draw_ctx(True, False), deep=huge_ctx(True, False), graph=True)(c_scaled)


@case('C20', 'default dtype', ctx(f=['tensor_with_random_cores', 'tensor_batch_with_random_cores', 'random_tensor', 'random_tensor_batch'],
                                  mat=[False], d=[2]) +
      ctx(f=['matrix_with_random_cores', 'matrix_batch_with_random_cores', 'random_matrix', 'random_matrix_batch',
             'glorot_initializer', 'he_initializer', 'lecun_initializer'], mat=[True], d=[2]))
def c_default(W, k):
  n, m = rmodes(k)
  arg = matrix_shape(k, n, m) if k.mat else tensor_shape(k, n)

  def oracle(res):
    check_object(W, res, n, m, [1, 2, 1], 1 if 'batch' in k.f else None, DT['float32'])
  return Run(k.f, [arg], oracle, result='tt')


@case('C20', 'unsupported mean', ctx(f=['random_tensor', 'random_tensor_batch'], mat=[False], d=[1, 2], mean=[1, -2, Fraction(1, 2), Fraction(-1, 100)]) +
      ctx(f=['random_matrix', 'random_matrix_batch'], mat=[True], d=[1, 2], mean=[1, -2, Fraction(1, 2), Fraction(-1, 100)]), cross=False)
def c_mean(W, k):
  n, m = rmodes(k)
  arg = matrix_shape(k, n, m) if k.mat else tensor_shape(k, n)
  try:
    res = W.call(k.f, arg, mean=PyFloat(X.scalar(k.mean)))
  except PyRaise as e:
    W.need(e.etype in (NotImplementedError, ValueError), 'a mean raises %s' % getattr(e.etype, '__name__', e.etype))
    return
  t = S.dense_inst(W, res)
  W.same(expectation(t), X.const_fill(k.mean, t.shape, t.dtype), 'the mean of the entries')


# -- C21 ----------------------------------------------------------------------

TENSORS = ('tensor_ones', 'tensor_zeros', 'eye', 'tensor_with_random_cores', 'tensor_batch_with_random_cores',
           'random_tensor', 'random_tensor_batch')
MATRICES = ('matrix_ones', 'matrix_zeros', 'matrix_with_random_cores', 'matrix_batch_with_random_cores',
            'random_matrix', 'random_matrix_batch', 'glorot_initializer', 'he_initializer', 'lecun_initializer')
RANKED = tuple(f for f in TENSORS + MATRICES if 'random' in f or 'initializer' in f)
BATCHED = tuple(f for f in RANKED if 'batch' in f)


def half(x):
  return PyFloat(X.scalar(Fraction(5, 2)))


BAD = {'zero': lambda: 0, 'negative': lambda: -3, 'fraction': lambda: half(0)}


def spoil(l, pos, v):
  l = list(l)
  l[pos] = v
  return l


def in_range(cs):
  return [c for c in cs if c.get('pos', 0) < c.d]


@case('C21', 'bad shape entry', in_range(ctx(f=TENSORS, d=[1, 2, 3], pos=[0, 1, 2], bad=list(BAD), mat=[False], form=['list', 'np']) +
      ctx(f=MATRICES, d=[1, 2, 3], pos=[0, 1, 2], bad=list(BAD), mat=[True], row=[0, 1], form=['list', 'np']) +
      ctx(f=MATRICES, d=[2], pos=[0, 1], bad=list(BAD), mat=[True], row=[0, 1], form=['vec'])), cross=False)
def c_badshape(W, k):
  n = modes(k, 'n')
  m = modes(k, 'm', 'm')
  bad = BAD[k.bad]()
  why = 'a shape with a %s entry at position %d' % (k.bad, k.pos)
  if not k.mat:
    arg = tensor_shape(k, spoil(n, k.pos, bad))
  else:
    if k.row == 0:
      n = spoil(n, k.pos, bad)
    else:
      m = spoil(m, k.pos, bad)
    if k.form == 'vec':
      arg = [n, None] if k.row == 0 else [None, m]
    else:
      arg = matrix_shape(k, n, m)
  W.expect_error(k.f, arg, why=why)


@case('C21', 'wrongly nested shape', ctx(f=TENSORS, how=['nested', 'scalar', 'deep']) +
      ctx(f=MATRICES, how=['flat', 'deep', 'three', 'lengths', 'lengths2']), cross=False)
def c_nesting(W, k):
  a = [D.sym('n%d' % j, 2, ('mode', j)) for j in range(6)]
  arg = {'nested': lambda: [a[:3], a[3:]], 'scalar': lambda: a[0], 'deep': lambda: [[[a[0], a[1]], [a[2], a[3]]]] * 2,
         'flat': lambda: a[:3], 'three': lambda: [a[:2], a[2:4], a[4:]], 'lengths': lambda: [a[:2], a[2:5]],
         'lengths2': lambda: [a[:3], a[3:4]]}[k.how]()
  W.expect_error(k.f, arg, why='a wrongly nested shape (%s)' % k.how)


@case('C21', 'bad ranks', in_range(ctx(f=RANKED, d=[1, 2, 3], how=['short', 'long', 'zero', 'negative', 'fraction'], form=['list', 'np']) +
      ctx(f=RANKED, d=[3, 4, 5], how=['shorter', 'inner', 'longer', 'double'], form=['list', 'np']) +
      ctx(f=RANKED, d=[2, 3], how=['zero list', 'negative list', 'fraction list'], pos=[1, 2], form=['list', 'np', 'tuple'])), cross=False)
def c_badranks(W, k):
  mat = k.f in MATRICES
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  r = [1] + [D.sym('r%d' % j, 1, ('rank', j)) for j in range(1, k.d)] + [1]
  how = k.how.split()
  if len(how) == 2:
    r[k.pos] = BAD[how[0]]()
  elif how[0] == 'short':
    r = r[:-1]
    if len(r) < 2:
      return None
  elif how[0] == 'long':
    r = r + [1]
  elif how[0] == 'shorter':
    r = r[:2]
  elif how[0] == 'inner':
    r = r[1:-1]
  elif how[0] == 'longer':
    r = r + [1, 1]
  elif how[0] == 'double':
    r = r + r
  else:
    r = BAD[how[0]]()
  if isinstance(r, list):
    r = {'list': lambda: r, 'tuple': lambda: tuple(r), 'np': lambda: Arr((len(r),), r, 'np')}[k.form]()
  W.expect_error(k.f, [n, m] if mat else n, why='TT-ranks (%s)' % k.how, tt_rank=r)


@case('C21', 'bad batch size', ctx(f=BATCHED, d=[1, 2], bad=list(BAD)), cross=False)
def c_badbatch(W, k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  W.expect_error(k.f, [n, m] if k.f in MATRICES else n, why='a %s batch size' % k.bad, batch_size=BAD[k.bad]())


# -- C22 ----------------------------------------------------------------------

VCTX = ctx(d=[1, 2, 3, 4], mat=[False, True], ba=[None, 'B']) + ctx(d=[2], mat=[False, True], ba=[1, 3]) + \
    ctx(d=[2, 3], ones=['n', 'r', 'o'], mat=[False, True], ba=[None, 'B'])
VSHORT = ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B'])


def var_cores(W, v, like, what='the variable'):
  """The cores of v are variables of their own with the kind and shape of like."""
  cores, mat, b = S.wellformed(W, v, what)
  W.need(mat == (like.m is not None) and b == (like.batch is not None), '%s is of another kind' % what)
  vs = list(W.attr(v, 'tt_cores'))
  W.need(len(vs) == len(like.cores), '%s has %d cores instead of %d' % (what, len(vs), len(like.cores)))
  for j, c in enumerate(vs):
    W.need(isinstance(c, Var), 'core %d of %s is not a variable' % (j, what))
    W.need(all(c is not x for x in vs[:j]), '%s uses one variable for several cores' % what)
  return vs


def holds(W, vs, value, what):
  for j, (v, c) in enumerate(zip(vs, value.cores)):
    W.same(v.t, c, 'core %d of %s' % (j, what))


for _eager in (True, False):
  @case('C22', 'get_variable (%s)' % ('eager' if _eager else 'graph'), VCTX, eager=_eager)
  def c_getvar(W, k):
    a = operand(W, k, 'A', k.ba)

    def oracle(v):
      holds(W, var_cores(W, v, a), a, 'the variable')
      W.same(S.dense_inst(W, v), S.dense(a), 'the value of the variable')
    return Run('get_variable', ['v'], oracle, kw={'initializer': a.inst}, operands=[a], result='tt')

  @case('C22', 'several variables (%s)' % ('eager' if _eager else 'graph'), VSHORT, eager=_eager, cross=False)
  def c_several(W, k):
    a, b = operand(W, k, 'A', k.ba), operand(W, k, 'E', k.ba)
    v = W.call('get_variable', 'v', initializer=a.inst)
    w = W.call('get_variable', 'w', initializer=b.inst, trainable=False)
    vs, ws = var_cores(W, v, a), var_cores(W, w, b, 'the second variable')
    W.need(not any(x is y for x in vs for y in ws), 'two variables share a core')
    holds(W, vs, a, 'the first variable')
    holds(W, ws, b, 'the second variable')
    W.need(all(x.trainable for x in vs), 'a core of a trainable variable is not trainable')
    W.need(not any(x.trainable for x in ws), 'a core of a non-trainable variable is trainable')

  @case('C22', 'requested dtype (%s)' % ('eager' if _eager else 'graph'), ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B']), eager=_eager, cross=False)
  def c_vardtype(W, k):
    a = operand(W, k, 'A', k.ba)
    v = W.call('get_variable', 'v', initializer=a.inst, dtype=GENERIC)
    holds(W, var_cores(W, v, a), a, 'the variable')
    a = operand(W, k, 'E', k.ba, dtype=DT['float32'])
    W.expect_error('get_variable', 'w', initializer=a.inst, dtype=DT['float64'], why='a dtype other than that of the initialiser')

  @case(('C22', 'C12'), 'missing initialiser (%s)' % ('eager' if _eager else 'graph'), ctx(dt=[False, True]), eager=_eager, cross=False)
  def c_noinit(W, k):
    kw = {'dtype': GENERIC} if k.dt else {}
    W.expect_error('get_variable', 'v', why='a new variable without initialiser', **kw)

  @case('C22', 'regularizer of a variable (%s)' % ('eager' if _eager else 'graph'), VSHORT, eager=_eager, cross=False)
  def c_varreg(W, k):
    a = operand(W, k, 'A', k.ba)
    seen = []

    def reg(I, tt):
      seen.append(tt)
      return X.from_atom('loss', (), GENERIC)
    v = W.call('get_variable', 'v', initializer=a.inst, regularizer=Native('regularizer', reg))
    W.call('get_variable', 'w', initializer=a.inst)
    W.call('get_variable', 'u', initializer=a.inst, regularizer=Native('none', lambda I, tt: None))
    W.need(len(seen) == 1, 'the regulariser is applied %d times to a new variable' % len(seen))
    holds(W, var_cores(W, seen[0], a), a, 'the regularised object')
    W.need(all(x is y for x, y in zip(W.attr(seen[0], 'tt_cores'), W.attr(v, 'tt_cores'))),
           'the regulariser is applied to something else than the variable')
    ls = W.I.collections.get('regularization_losses', [])
    W.need(len(ls) == 1, '%d losses are collected for one regularised variable' % len(ls))
    W.same(ls[0], X.from_atom('loss', (), GENERIC), 'the collected loss')


def in_scope(W, name, reuse, f):
  """Run f inside tf.compat.v1.variable_scope(name, reuse=reuse)."""
  from . import tfmodel as TFM
  cm = TFM.variable_scope_v1(W.I, name, reuse=reuse)
  cm.enter()
  try:
    return f()
  finally:
    cm.exit()


@case('C22', 'reuse', ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B'], scope=['', 's', 's/t']), eager=False, cross=False)
def c_reuse(W, k):
  a, b = operand(W, k, 'A', k.ba), operand(W, k, 'E', k.ba)

  def within(names, reuse, f):
    for x in reversed(names[1:]):
      f = lambda x=x, f=f: in_scope(W, x, None, f)
    return in_scope(W, names[0], reuse, f) if names else in_scope(W, '', reuse, f)
  names = k.scope.split('/') if k.scope else []

  def create():
    return [W.call('get_variable', 'v', initializer=a.inst), W.call('get_variable', 'w', initializer=b.inst)]

  def fetch():
    return [W.call('get_variable', 'v'), W.call('get_variable', 'w')]
  if names:
    v, w = within(names, None, create)
    v1, w1 = within(names, True, fetch)
  else:
    v, w = create()
    v1, w1 = in_scope(W, '', True, fetch)
  for x, y, o, what in ((v, v1, a, 'v'), (w, w1, b, 'w')):
    vs, us = var_cores(W, x, o), var_cores(W, y, o)
    W.need(all(p is q for p, q in zip(vs, us)), 'fetching %r under reuse returns other variables' % what)
    holds(W, us, o, 'the fetched variable')
  in_scope(W, names[0] if names else '', True, lambda: W.expect_error(
      'get_variable', 'other', why='fetching a variable that was never created'))
  if names:
    W.need(True, '')
    in_scope(W, 'elsewhere', True, lambda: W.expect_error(
        'get_variable', 'v', why='fetching a variable of another scope'))
    within(names, None, lambda: W.expect_error('get_variable', 'v', initializer=a.inst, why='creating a variable twice'))
  else:
    W.expect_error('get_variable', 'v', initializer=a.inst, why='creating a variable twice')


@case('C22', 'reuse among similar names', ctx(d=[1, 2], mat=[False, True], ba=[None, 'B'], scope=['', 's', 's/t'], order=['forth', 'back']), eager=False, cross=False)
def c_similar(W, k):
  spots = [('', 'v'), ('', 'xv'), ('', 'vx'), ('s', 'v'), ('s', 'vx'), ('t', 'v'), ('s/t', 'v'), ('s/t', 'xv'), ('', 'core_0')]
  if k.order == 'back':
    spots.reverse()
  made = {}

  def at(scope, reuse, f):
    names = scope.split('/') if scope else ['']
    for x in reversed(names[1:]):
      f = lambda x=x, f=f: in_scope(W, x, None, f)
    return in_scope(W, names[0], reuse, f)
  for j, (s, v) in enumerate(spots):
    a = operand(W, k, 'A%d' % j, k.ba, rname='r')
    made[s, v] = a, at(s, None, lambda: W.call('get_variable', v, initializer=a.inst))
  for s, v in spots:
    if s != k.scope:
      continue
    a, old = made[s, v]
    new = at(s, True, lambda: W.call('get_variable', v))
    vs, us = var_cores(W, old, a), var_cores(W, new, a)
    W.need(all(p is q for p, q in zip(vs, us)), 'fetching %r in scope %r under reuse returns other variables' % (v, s))
    holds(W, us, a, 'the fetched variable')


@case('C22', 'assign', VCTX + ctx(d=[2, 3], mat=[False, True], ba=[None, 'B'], name=['x']) +
      ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B'], trainable=[False]))
def c_assign(W, k):
  a, b = operand(W, k, 'A', k.ba, rname='r'), operand(W, k, 'E', k.ba, rname='r')
  how = {'trainable': False} if k.get('trainable') is False else {}
  v = W.call('get_variable', 'v', initializer=a.inst, **how)
  w = W.call('get_variable', 'w', initializer=a.inst)
  vs, ws = var_cores(W, v, a), var_cores(W, w, a)

  def oracle(res):
    holds(W, vs, b, 'the assigned variable')
    W.need(all(x is y for x, y in zip(vs, W.attr(v, 'tt_cores'))), 'assigning replaces the variables of the object')
    holds(W, ws, a, 'another variable')
    W.same(S.dense_inst(W, res, 'the result of assign'), S.dense(b), 'the result of assign')
    W.call('assign', v, w)
    holds(W, vs, a, 'the variable assigned twice')
    W.call('assign', w, b.inst)
    holds(W, ws, b, 'the other variable')
    holds(W, vs, a, 'the variable after assigning another')
  kw = {'name': k.name} if k.get('name') else {}
  return Run('assign', [v, b.inst], oracle, kw=kw, operands=[a, b], result='tt')


@case('C22', 'assign of another shape', ctx(d=[2, 3], mat=[False, True], ba=[None, 'B'], how=['mode', 'rank', 'shorter', 'longer']) +
      ctx(d=[1], mat=[False, True], ba=[None, 'B'], how=['mode', 'longer']), cross=False)
def c_badassign(W, k):
  from .cases import K
  n, m, r = modes(k, 'n'), modes(k, 'm', 'm'), ranks(k, 'r')
  a = operand(W, k, 'A', k.ba, n, m, r=r)
  kw = dict(k.kw)
  if k.how == 'mode':
    n = n[:-1] + [D.add(n[-1], 1)]
  elif k.how == 'rank':
    r = r[:-2] + [D.add(r[-2], 1), 1]
  elif k.how == 'shorter':
    n, m, r = n[:-1], m[:-1], r[:-2] + [1]
    kw['d'] = k.d - 1
  else:
    n, m = n + [2], m + [3]
    r = r[:-1] + [2, 1]
    kw['d'] = k.d + 1
  b = operand(W, K(**kw), 'E', k.ba, n, m, r=r)
  v = W.call('get_variable', 'v', initializer=a.inst)
  W.expect_error('assign', v, b.inst, why='an object of another shape (%s)' % k.how)


def scale_arg(k):
  if k.get('scale') == 'tensor':
    t = X.from_atom('scale', (), GENERIC)
    return t, t
  t = X.scalar(Fraction(3, 7))
  return PyFloat(t), t


@case('C22', 'l2_regularizer', ctx(d=[1, 2, 3, 4], mat=[False, True], scale=['float', 'tensor']) +
      ctx(d=[2, 3], mat=[False, True], scale=['float'], ones=['n', 'r', 'o']) + ctx(d=[2], mat=[False], scale=['float'], scope=['x']), cross=False)
def c_l2(W, k):
  a = operand(W, k, 'A', None)
  arg, t = scale_arg(k)
  f = W.call('l2_regularizer', arg, **({'scope': k.scope} if k.get('scope') else {}))
  res = W.I.call(f, [a.inst], {})
  x = S.dense(a)
  ax = list(range(x.rank))
  want = X.mul(t, X.reduce_sum(X.mul(x, x), ax))
  W.same(res, want, 'the penalty')


@case('C22', 'cores_regularizer', ctx(d=[1, 2, 3, 4], mat=[False, True], ba=[None, 'B'], scale=['float', 'tensor'], fn=['cube', 'any']), cross=False)
def c_coresreg(W, k):
  a = operand(W, k, 'A', k.ba)
  arg, t = scale_arg(k)
  pen = {'cube': lambda c: X.reduce_sum(X.mul(c, X.mul(c, c)), list(range(c.rank))),
         'any': lambda c: X.reduce_sum(X.unary(c, 'penalty'), list(range(c.rank)))}[k.fn]
  f = W.call('cores_regularizer', Native('core_regularizer', lambda I, c: pen(W.tensor(c))), arg)
  res = W.I.call(f, [a.inst], {})
  want = None
  for c in a.cores:
    want = pen(c) if want is None else X.add(want, pen(c))
  W.same(res, X.mul(t, want), 'the penalty')


@case('C22', 'bad scale', ctx(f=['l2_regularizer', 'cores_regularizer'], how=['integer', 'negative', 'tiny']), cross=False)
def c_badscale(W, k):
  v = {'integer': lambda: 3, 'negative': lambda: PyFloat(X.scalar(-2)), 'tiny': lambda: PyFloat(X.scalar(Fraction(-1, 1000)))}[k.how]()
  W.expect_error(k.f, *([Native('r', lambda I, c: c)] if k.f[0] == 'c' else []) + [v], why='a %s scale' % k.how)


@case('C22', 'zero scale', ctx(f=['l2_regularizer', 'cores_regularizer'], d=[2], mat=[False]), cross=False)
def c_zeroscale(W, k):
  a = operand(W, k, 'A', None)
  f = W.call(k.f, *([Native('r', lambda I, c: W.bad('the disabled regulariser is applied'))] if k.f[0] == 'c' else []) + [PyFloat(X.scalar(0))])
  res = W.I.call(f, [a.inst], {})
  if res is not None:
    W.same(res, X.scalar(0), 'the disabled penalty', dtype=False)


# -- C23 ----------------------------------------------------------------------

ACT = (None, 'relu', 'sigmoid', 'tanh', 'softmax', 'linear')


def layer_args(k):
  n, m = modes(k, 'n'), modes(k, 'm', 'm')
  kw = {}
  arg, r = rank_arg(k)
  if arg is not None:
    kw['tt_rank'] = arg
  if k.get('init'):
    kw['kernel_initializer'] = k.init
  if k.get('act'):
    kw['activation'] = k.act
  bias = None
  if k.get('bias') is False:
    kw['use_bias'] = False
  elif k.get('bias') == 0:
    kw['bias_initializer'] = PyFloat(X.scalar(0))
    bias = X.scalar(0)
  elif k.get('bias') == 'value':
    kw['bias_initializer'], bias = real('b0')
  else:
    if k.get('bias') is True:
      kw['use_bias'] = True
    bias = X.scalar(Fraction(1, 10))
  return n, m, r, kw, bias


@case('C23', 'KerasDense', ctx(d=[1, 2, 3, 4], rk=[None, 'sym'], bias=[None, False], act=[None, 'relu']) +
      ctx(d=[1, 2, 3], rk=['list', 1], bias=['value', 0], act=[None], init=['glorot', 'he', 'lecun']) +
      ctx(d=[2], rk=['np', 'tuple', 3], bias=[True], act=['sigmoid', 'tanh', 'softmax', 'linear'], form=['list', 'tuple', 'np']) +
      ctx(d=[1, 2, 3], rk=['list'], bias=[None, False], act=['relu'], ones=['n', 'e', 'o', 'last']) +
      ctx(d=[2], rk=['list'], bias=[None], act=['relu'], xb=[1, 3]), cross=False)
def c_keras(W, k):
  n, m, r, kw, bias = layer_args(k)
  layer = W.call('nn.KerasDense', tensor_shape(k, n), tensor_shape(k, m), **kw)
  mats = [v for v in layer.attrs.values() if isinstance(v, Inst)]
  N, M = D.prod(n), D.prod(m)
  ws = list(W.attr(layer, 'trainable_weights'))
  # x W + b
  B = k.get('xb') or D.sym('X', 1, ('batch', 0))
  x = X.from_atom('x', (B, N), DT['float32'])
  res = W.I.call(layer, [x], {})
  W.entry = 'nn.KerasDense'
  # which variables the layer owns: the cores in order, and the bias
  want_n = k.d + (0 if bias is None else 1)
  W.need(len(ws) == want_n, 'the layer has %d trainable weights, expected %d' % (len(ws), want_n))
  cores = [v for v in ws if v.t.rank == 4]
  rest = [v for v in ws if v.t.rank != 4]
  W.need(len(cores) == k.d, 'the layer has %d trainable cores, expected %d' % (len(cores), k.d))
  for j, c in enumerate(cores):
    W.shape_is(c.t, [r[j], n[j], m[j], r[j + 1]], 'core %d of the layer' % j)
  independent(W, [c.t for c in cores])
  t = S.dense_cores([c.t for c in cores], True, False)
  f = k.get('init') or 'glorot'
  var = {'glorot': lambda: quotient(2, X.add(X.scalar(N), X.scalar(M))), 'he': lambda: quotient(2, X.scalar(N)),
         'lecun': lambda: quotient(1, X.scalar(N))}[f]()
  W.same(expectation(t), X.const_fill(0, t.shape, t.dtype), 'the mean of the weight matrix')
  W.same(expectation(X.mul(t, t)), X.const_fill(var, t.shape, t.dtype), 'the variance of the weight matrix')
  want = X.einsum([['B', 'i'], ['i', 'j']], ['B', 'j'], [x, t])
  if bias is not None:
    W.same(rest[0].t, X.const_fill(bias, (M,), DT['float32']), 'the initial bias')
    want = X.add(want, X.einsum([['B'], ['j']], ['B', 'j'], [X.const_fill(1, (B,), DT['float32']), rest[0].t]))
  act = k.get('act')
  if act == 'softmax':
    want = X.opaque_fn('act_softmax', [want])
  elif act and act != 'linear':
    want = X.unary(want, 'act_' + act)
  W.same(res, want, 'the output of the layer')
  # the output follows the current values of all its variables
  new = []
  from . import tfmodel as TFM
  for j, v in enumerate(ws):
    y = X.from_atom('new%d' % j, v.t.shape, DT['float32'])
    TFM.var_assign(W.I, v.inner if isinstance(v, KVar) else v, y)
    new.append(y)
  res = W.I.call(layer, [x], {})
  W.entry = 'nn.KerasDense'
  t = S.dense_cores([v.t for v in cores], True, False)
  want = X.einsum([['B', 'i'], ['i', 'j']], ['B', 'j'], [x, t])
  if bias is not None:
    want = X.add(want, X.einsum([['B'], ['j']], ['B', 'j'], [X.const_fill(1, (B,), DT['float32']), rest[0].t]))
  if act == 'softmax':
    want = X.opaque_fn('act_softmax', [want])
  elif act and act != 'linear':
    want = X.unary(want, 'act_' + act)
  W.same(res, want, 'the output of the layer for other values of the weights')
  sh = W.method(layer, 'compute_output_shape', (B, N))
  W.need(isinstance(sh, (tuple, list, TShape)) and len(list(W.I.lib.iterate(W.I, sh))) == 2, 'the output shape is not a pair')
  p, q = list(W.I.lib.iterate(W.I, sh))
  W.need(D.same(p, B) and D.same(q, M), 'the reported output shape is wrong')


@case('C23', 'two layers', ctx(d=[1, 2, 3], bias=[None, False]), cross=False)
def c_keras2(W, k):
  n, m, r, kw, bias = layer_args(k)
  a = W.call('nn.KerasDense', list(n), list(m), **kw)
  b = W.call('nn.KerasDense', list(n), list(m), **kw)
  va, vb = list(W.attr(a, 'trainable_weights')), list(W.attr(b, 'trainable_weights'))
  W.need(va and vb and not any(x.inner is y.inner for x in va for y in vb), 'two layers share variables')
  independent(W, [v.t for v in va + vb if v.t.rank == 4])


@case('C23', 'unknown names', ctx(what=['kernel_initializer', 'activation'], name=['unknown', 'Glorot', 'uniform']), cross=False)
def c_kerasbad(W, k):
  n, m = [2, 3], [4, 5]
  try:
    layer = W.call('nn.KerasDense', n, m, **{k.what: k.name})
    W.I.call(layer, [X.from_atom('x', (7, 6), DT['float32'])], {})
  except PyRaise as e:
    W.need(e.etype is ValueError, 'an unknown %s raises %s' % (k.what, getattr(e.etype, '__name__', e.etype)))
    return
  W.bad('an unknown %s is accepted' % k.what)
