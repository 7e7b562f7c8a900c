"""Cases for Kronecker-product linear algebra (C18)."""
from . import dim as D
from . import tensor as X
from . import spec as S
from .cases import case, ctx, Run, modes, operand, check_tt, check_vec, stack_dense, bsize


def factors(W, k):
  """A rank-1 TT-matrix with square cores and its factors [B, n, n]."""
  n = modes(k, 'n') if not k.get('size') else [k.size] * k.d
  a = operand(W, k, 'A', k.ba, n, n, r=[1] * (k.d + 1))
  fs = []
  for c in a.cores:
    o = 0 if a.batch is None else 1
    f = X.squeeze(c, [o, c.rank - 1])
    fs.append(stack_dense(f, a.batch))
  return a, n, fs


def kron(fs):
  d = len(fs)
  ins = [['B', 'i%d' % j, 'j%d' % j] for j in range(d)]
  t = X.einsum(ins, ['B'] + ['i%d' % j for j in range(d)] + ['j%d' % j for j in range(d)], fs)
  s = D.prod([f.shape[-1] for f in fs])
  return X.reshape(t, [fs[0].shape[0], s, s])


KCTX = (ctx(d=[1, 2, 3, 4], ba=[None, 'B', 1, 3], mat=[True]) +
        ctx(d=[1, 2, 3], ba=[None, 'B'], ones=['n', 'e', 'o', 'last'], mat=[True]) +
        ctx(d=[4], ba=[None, 'B'], size=[1000], mat=[True]))


def power(n, j):
  return D.prod([x for i, x in enumerate(n) if i != j])


@case('C18', 'determinant', KCTX)
def c_det(W, k):
  a, n, fs = factors(W, k)
  want = None
  for j, f in enumerate(fs):
    t = X.pow_const(X.linalg_atom(f, 'det'), power(n, j))
    want = t if want is None else X.mul(want, t)
  return Run('kronecker.determinant', [a.inst], lambda r: check_vec(W, r, want, (a,), 'the determinant'), operands=[a])


@case('C18', 'slog_determinant', KCTX)
def c_slogdet(W, k):
  a, n, fs = factors(W, k)
  sign = log = None
  for j, f in enumerate(fs):
    det = X.linalg_atom(f, 'det')
    s = X.pow_const(X.unary(det, 'sign'), power(n, j))
    l = X.mul(X.scalar(power(n, j)), X.unary(X.unary(det, 'abs'), 'log'))
    sign = s if sign is None else X.mul(sign, s)
    log = l if log is None else X.add(log, l)

  def oracle(res):
    W.need(isinstance(res, (tuple, list)) and len(res) == 2, 'the result is not a pair of sign and logarithm')
    check_vec(W, res[0], sign, (a,), 'the sign of the determinant')
    check_vec(W, res[1], log, (a,), 'the logarithm of the determinant')
  return Run('kronecker.slog_determinant', [a.inst], oracle, operands=[a])


@case('C18', 'inv', KCTX)
def c_inv(W, k):
  a, n, fs = factors(W, k)
  want = kron([X.linalg_atom(f, 'inv') for f in fs])
  return Run('kronecker.inv', [a.inst], lambda r: check_tt(W, r, want, (a,), 'the inverse', True, strict=True), operands=[a])


@case('C18', 'cholesky', KCTX)
def c_chol(W, k):
  a, n, fs = factors(W, k)
  want = kron([X.linalg_atom(f, 'chol') for f in fs])
  return Run('kronecker.cholesky', [a.inst], lambda r: check_tt(W, r, want, (a,), 'the Cholesky factor', True, strict=True),
             operands=[a])


KF = ('determinant', 'slog_determinant', 'inv', 'cholesky')


def distinct(*xs):
  """Sizes that differ: the second is larger."""
  x = D.sym('e0', 1, ('mode', 9))
  return D.add(xs[0], x)


@case(('C18', 'C12'), 'not a Kronecker product', ctx(f=KF, d=[2, 3], ba=[None, 'B'], how=['rank', 'tensor', 'tensor1']) +
      ctx(f=KF, d=[1, 2, 3], ba=[None, 'B'], how=['square first', 'square last', 'swap', 'ones']) +
      ctx(f=KF, d=[3, 4], ba=[None, 'B'], how=['rank last']), cross=False)
def c_notkron(W, k):
  n = modes(k, 'n')
  m = list(n)
  r = [1] * (k.d + 1)
  mat = True
  if k.how == 'rank':
    r[1] = D.sym('r1', 2, ('rank', 1))
    why = 'an operand with a TT-rank above one'
  elif k.how == 'rank last':
    r[k.d - 1] = D.sym('r1', 2, ('rank', 1))
    why = 'an operand with a TT-rank above one'
  elif k.how == 'tensor':
    mat = False
    r = None
    why = 'a TT-tensor'
  elif k.how == 'tensor1':
    mat = False
    why = 'a rank-1 TT-tensor'
  elif k.how == 'square first':
    m[0] = distinct(n[0])
    why = 'an operand whose first core is not square'
  elif k.how == 'square last':
    m[-1] = distinct(n[-1])
    why = 'an operand whose last core is not square'
  elif k.how == 'swap':       # square as a whole
    n[-1] = distinct(n[0])
    m = list(reversed(n))
    why = 'an operand whose cores are not square although the matrix is'
    if k.d == 1:
      m = [distinct(n[0])]
  else:
    m = [1] * k.d
    why = 'a column vector'
  a = operand(W, k, 'A', k.ba, n, m if mat else None, mat=mat, r=r)
  W.expect_error('kronecker.' + k.f, a.inst, why=why)
