"""Index arithmetic and descriptions."""
import re

from . import dim as D
from . import tensor as X
from . import spec as S
from .values import *  # noqa
from .lib import DT
from .driver import Violated
from .cases import case, ctx, Run, digit_columns, linear_index


# -- C35 ------------------------------------------------------------------------

@case('C35', 'unravel_index', ctx(d=[1, 2, 3, 4, 5], ones=[''], dt=['int64', 'int32'], given=['tf']) +
      ctx(d=[2, 3, 4], ones=['first', 'last', 'all', 'even'], dt=['int64'], given=['tf']) +
      ctx(d=[1, 2, 3], ones=['', 'first'], dt=['int64'], given=['np', 'list']), cross=False, graph=True)
def c_unravel(W, k):
  one = {'': (), 'first': (0,), 'last': (k.d - 1,), 'all': range(k.d), 'even': range(0, k.d, 2)}[k.ones]
  n = S.modes('n', k.d, one)
  N = D.sym('N', 1, ('nnz', 0))
  cols = [c.view(dtype=DT[k.dt]) for c in digit_columns('i', N, n)]
  lin = linear_index(cols, n).view(dtype=DT[k.dt])
  sh = Arr((k.d,), list(n), k.given) if k.given != 'list' else list(n)
  if k.given == 'tf':
    sh = W.I.call(W.attr(LibModule('tensorflow'), 'cast'), [sh, DT[k.dt]], {})
  want = X.concat([X.expand_dims(c, 1) for c in cols], 1).view(dtype=DT[k.dt])

  def oracle(r):
    W.same(r, want, 'the multi-index', dtype=False)
    for t, to, where in W.I.casts:       # integers a floating type does not hold exactly
      W.checked += 1
      if t.dtype is not None and (t.dtype.name, to.name) in ROUNDED:
        raise Violated('indices of type %s are rounded to %s' % (t.dtype.name, to.name), where)
  return Run('utils.unravel_index', [lin, sh], oracle)


ROUNDED = {('int64', 'float64'), ('int64', 'float32'), ('int64', 'float16'), ('int32', 'float32'), ('int32', 'float16')}


# -- C36 ------------------------------------------------------------------------

def numbers(text):
  return [int(x) for x in re.findall(r'\d+', text)]


def contains(seq, part):
  return any(seq[i:i + len(part)] == part for i in range(len(seq) - len(part) + 1))


SIZES = {1: ([7], [11], [1, 1]), 2: ([7, 13], [11, 17], [1, 3, 1]), 3: ([7, 13, 19], [11, 17, 23], [1, 3, 5, 1]),
         4: ([2, 31, 2, 37], [41, 2, 43, 2], [1, 2, 2, 3, 1])}


@case('C36', 'description', ctx(d=[1, 2, 3, 4], mat=[False, True], ba=[None, 29, 1], var=[False, True]), cross=False, graph=True)
def c_describe(W, k):
  n, m, r = SIZES[k.d]
  cs = S.cores_of('A', n, r, m if k.mat else None, k.ba)
  if k.var:
    cs = [Var(c, 'v%d' % i) for i, c in enumerate(cs)]
  inst = W.call('TensorTrain' if k.ba is None else 'TensorTrainBatch', cs, **({'convert_to_tensors': False} if k.var else {}))
  text = described(W, inst)
  got = numbers(text)
  for what, part in (('shape', n) if not k.mat else ('row shape', n), ('column shape', m if k.mat else []), ('TT-ranks', r)):
    W.need(contains(got, part), 'the description %r does not give the %s %s' % (text, what, part))
  if k.mat:
    sz = [product(n), product(m)]
    W.need(contains(got, sz), 'the description %r does not give the size %s' % (text, sz))
  if k.ba is not None:
    W.need(k.ba in got, 'the description %r does not give the batch size' % text)
  W.need(('variable' in text) == k.var, 'the description %r is wrong about being a variable' % text)
  W.need(('atri' in text) == k.mat, 'the description %r is wrong about being a matrix' % text)
  W.need(('batch' in text) == (k.ba is not None), 'the description %r is wrong about being a batch' % text)
  return None


def product(xs):
  p = 1
  for x in xs:
    p *= x
  return p


def described(W, inst):
  W.entry = '%s.__str__' % inst.cls.name
  t = W.I.lib.tostr(W.I, inst)
  W.need(isinstance(t, str), 'the description is a %s' % W.I.typename(t))
  return t


def unknown_sizes(ctx):
  ctx.dyn_tags = ('mode', 'rank', 'batch')


@case('C36', 'description of unknown sizes', ctx(d=[1, 2, 3], mat=[False, True], ba=[None, 'B'], var=[False]), cross=False,
      eager=False, setup=unknown_sizes)
def c_describe_unknown(W, k):
  n, r = S.modes('n', k.d), S.ranks('r', k.d)
  m = S.modes('m', k.d) if k.mat else None
  x = S.make(W, 'A', n, r, m, D.sym('B', 2, ('batch', 0)) if k.ba else None)
  described(W, x.inst)
  return None
