"""C43: contractions, factorisations and intermediates against documented costs.

The cost of a step is a polynomial in the symbolic sizes; it is within a
documented complexity when every monomial divides one of its monomials after
the sizes of all cores are identified (n0, n1 -> n).  A contraction of several
tensors is within it when some pairwise order is."""
import re

from . import dim as D
from . import tensor as X
from . import spec as S
from .cases_riem import feasible
from .driver import Ob
from .tensor import Unsupported


def var(s):
  return re.sub(r'\d+$', '', s)


def budget(text):
  """'B ra^2 n + ra' -> list of {variable: exponent}"""
  out = []
  for mono in text.split('+'):
    m = {}
    for f in mono.split():
      v, _, e = f.partition('^')
      m[v] = m.get(v, 0) + int(e or 1)
    out.append(m)
  return out


def inside(mono, bud, depth=0):
  """A monomial (tuple of (symbol, exponent)) divides a monomial of the budget."""
  m = {}
  for s, e in mono:
    if not isinstance(e, int) and getattr(e, 'denominator', 2) != 1:
      raise Unsupported('exponent of a size')
    o = D.CTX.opaque.get(s)
    if o is not None:
      rest = D.Dim({tuple(x for x in mono if x[0] != s): 1})
      if o[0] not in ('min', 'max') or e < 0 or depth > 6:
        raise Unsupported('size %s' % s)
      alt = [within(D.mul(rest, D.prod([a] * int(e))), bud, depth + 1) for a in o[1:]]
      return any(alt) if o[0] == 'min' else all(alt)
    if e > 0:
      m[var(s)] = m.get(var(s), 0) + e
  if any(all(b.get(v, 0) >= e for v, e in m.items()) for b in bud):
    return True
  if depth > 3:
    return False
  have = dict(mono)
  for a, b in D.CTX.le:
    # a product of sizes known to be at most another size
    if isinstance(a, D.Dim) and len(a.p) == 1 and isinstance(b, D.Dim):
      (f, c), = a.p.items()
      if c == 1 and len(f) and sum(e for _, e in f) > 1 and all(have.get(s, 0) >= e for s, e in f):
        d = dict(f)
        rest = tuple((s, e - d.get(s, 0)) for s, e in mono if e != d.get(s, 0))
        if within(D.mul(D.Dim({rest: 1}), b), bud, depth + 1):
          return True
  return False


def within(size, bud, depth=0):
  if not isinstance(size, D.Dim):
    return True
  return all(inside(m, bud, depth) for m in size.p)


def order(ins, out, dims, bud):
  """Some pairwise order of the contraction stays within the budget."""
  n = len(ins)
  if n > 8:
    raise Unsupported('contraction of %d tensors' % n)
  ok = {}
  full = (1 << n) - 1

  def letters(mask):
    return {c for i in range(n) if mask >> i & 1 for c in ins[i]}

  def left(mask):
    other = letters(full & ~mask) | set(out)
    return letters(mask) & other if bin(mask).count('1') > 1 or n == 1 else letters(mask)
  for mask in sorted(range(1, full + 1), key=lambda x: bin(x).count('1')):
    if bin(mask).count('1') == 1:
      ok[mask] = True
      continue
    sub = (mask - 1) & mask
    ok[mask] = False
    while sub:
      if ok[sub] and ok[mask ^ sub] and sub > (mask ^ sub):
        if within(D.prod([dims[c] for c in sorted(left(sub) | left(mask ^ sub), key=str)]), bud):
          ok[mask] = True
          break
      sub = (sub - 1) & mask
  return ok[full]


class Meter(object):
  """Looks at every step of one call."""

  def __init__(self, W, bud):
    self.W, self.bud = W, budget(bud)
    self.steps = 0
    self.bad = None
    self.seen = {}

  def report(self, what, size):
    if self.bad is None:
      self.bad = ('%s of cost %s' % (what, D.show(size)), self.W.I.where()[-3:])

  def tensor(self, t):
    self.W.checked += 1
    if t.shape is None or self.bad:
      return
    key = tuple(map(D.show, t.shape))
    if key not in self.seen:
      self.seen[key] = within(D.prod(list(t.shape)), self.bud)
    if not self.seen[key]:
      self.report('an intermediate', D.prod(list(t.shape)))

  def einsum(self, ins, out, dims):
    self.steps += 1
    self.W.checked += 1
    if not self.bad and not order(ins, out, dims, self.bud):
      self.report('a contraction', D.prod([dims[c] for c in sorted(dims, key=str)]))

  def factor(self, shape, k):
    self.steps += 1
    self.W.checked += 1
    size = D.mul(D.prod(list(shape)), k)
    if not self.bad and not within(size, self.bud):
      self.report('a factorisation', size)

  def run(self, entry, *args, **kw):
    L = X.ALog
    L.on_tensor, L.on_einsum, L.on_factor = self.tensor, self.einsum, self.factor
    try:
      self.W.call(entry, *args, **kw)
    finally:
      L.on_tensor = L.on_einsum = L.on_factor = None
    if self.bad:
      self.W.bad('%s exceeds the documented complexity' % self.bad[0], self.bad[1])
    return self.steps


def tt(W, name, d, rname, n, m, batch=None, r=None):
  return S.make(W, name, n, r or S.ranks(rname, d), m, batch)


def point(W, d, n, m):
  r = S.ranks('w', d)
  feasible(n, m, r)
  return tt(W, 'W', d, 'w', n, m, r=r)


def operations():
  """(name, contexts, budget of the context, call)"""
  B = lambda x, s: D.sym(s, 2, ('batch', 0)) if x else None

  def prod(*parts):
    return ' '.join(p for p in parts if p)
  out = []
  for mat in (False, True):
    nm = 'n m' if mat else 'n'
    for ba, bb in ((0, 0), (1, 0), (0, 1), (1, 1)):
      def fn(W, M, d, n, m, ba=ba, bb=bb):
        return M.run('flat_inner', tt(W, 'A', d, 'a', n, m, B(ba, 'B')).inst, tt(W, 'E', d, 'b', n, m, B(bb, 'B')).inst)
      b = 'B' if ba or bb else ''
      out.append(('flat_inner mat=%d batches=%d%d' % (mat, ba, bb), mat, '%s + %s' % (
          prod(b, 'a^2 b', nm), prod(b, 'a b^2', nm)), fn))

    def fn(W, M, d, n, m):
      return M.run('pairwise_flat_inner', tt(W, 'A', d, 'a', n, m, B(1, 'B')).inst, tt(W, 'E', d, 'b', n, m, B(1, 'C')).inst)
    out.append(('pairwise_flat_inner mat=%d' % mat, mat, 'B C a^2 b %s + B C a b^2 %s' % (nm, nm), fn))

    def fn(W, M, d, n, m):
      return M.run('gram_matrix', tt(W, 'A', d, 'a', n, m, B(1, 'B')).inst)
    out.append(('gram_matrix mat=%d' % mat, mat, 'B^2 a^3 %s' % nm, fn))
    for right in (0, 1):
      for ba in (0, 1) if not right else (0,):
        def fn(W, M, d, n, m, right=right, ba=ba):
          if ba:
            r = S.ranks('w', d)
            feasible(n, m, r)
            x = tt(W, 'W', d, 'w', n, m, B(1, 'B'), r)
          else:
            x = point(W, d, n, m)
          return M.run('orthogonalize_tt_cores', x.inst, left_to_right=not right)
        out.append(('orthogonalize_tt_cores mat=%d right=%d batch=%d' % (mat, right, ba), mat,
                    prod('B' if ba else '', 'w^3', nm), fn))
    for ba in (0, 1):
      b = 'B' if ba else ''
      cost = 'w^3 %s + %s + %s' % (nm, prod(b, 'a^2 w', nm), prod(b, 'a w^2', nm))

      def fn(W, M, d, n, m, ba=ba):
        return M.run('project', tt(W, 'A', d, 'a', n, m, B(ba, 'B')).inst, point(W, d, n, m).inst)
      out.append(('project mat=%d batch=%d' % (mat, ba), mat, cost, fn))
      for wts in (0, 1):
        if wts and not ba:
          continue

        def fn(W, M, d, n, m, ba=ba, wts=wts):
          kw = {'weights': X.from_atom('wt', (B(1, 'B'),), S.GENERIC)} if wts else {}
          return M.run('project_sum', tt(W, 'A', d, 'a', n, m, B(ba, 'B')).inst, point(W, d, n, m).inst, **kw)
        out.append(('project_sum mat=%d batch=%d weights=%d' % (mat, ba, wts), mat, cost, fn))

    def fn(W, M, d, n, m):
      x = point(W, d, n, m)
      a, b = [W.call('project', tt(W, nm, d, r, n, m, B(1, s)).inst, x.inst) for nm, r, s in (('A', 'a', 'B'), ('E', 'b', 'C'))]
      return M.run('pairwise_flat_inner_projected', a, b)
    out.append(('pairwise_flat_inner_projected mat=%d' % mat, mat, 'B C w^2 %s' % nm, fn))
  one = lambda n: [1] * len(n)

  def fn(W, M, d, n, m):
    return M.run('pairwise_flat_inner', tt(W, 'A', d, 'a', n, one(n), B(1, 'B')).inst,
                 tt(W, 'E', d, 'b', m, one(n), B(1, 'C')).inst, tt(W, 'M', d, 'R', n, m).inst)
  out.append(('pairwise_flat_inner with a matrix', True,
              'B C R a^2 b n + B C R^2 a b n m + B C R a b^2 m', fn))

  def fn(W, M, d, n, m):
    return M.run('gram_matrix', tt(W, 'A', d, 'a', n, one(n), B(1, 'B')).inst, tt(W, 'M', d, 'R', n, n).inst)
  out.append(('gram_matrix with a matrix', True, 'B^2 R a^3 n + B^2 R^2 a^2 n^2', fn))
  for ba, bb in ((0, 0), (1, 0), (0, 1), (1, 1)):
    def fn(W, M, d, n, m, ba=ba, bb=bb):
      return M.run('bilinear_form', tt(W, 'M', d, 'R', n, m).inst, tt(W, 'A', d, 'a', n, one(n), B(ba, 'B')).inst,
                   tt(W, 'E', d, 'b', m, one(n), B(bb, 'B')).inst)
    b = 'B' if ba or bb else ''
    out.append(('bilinear_form batches=%d%d' % (ba, bb), True, ' + '.join(
        prod(b, x) for x in ('R a^2 b n', 'R^2 a b n m', 'R a b^2 m')), fn))
  for ba in (0, 1):
    def fn(W, M, d, n, m, ba=ba):
      return M.run('project_matmul', tt(W, 'A', d, 'a', n, m, B(ba, 'B')).inst, point(W, d, n, m).inst,
                   tt(W, 'M', d, 'R', n, n).inst)
    b = 'B' if ba else ''
    out.append(('project_matmul batch=%d' % ba, True, 'w^3 n m + ' + ' + '.join(
        prod(b, x) for x in ('R a^2 w n m', 'R^2 a w n^2 m', 'R a w^2 n m')), fn))
  return out


def obligations(tier):
  obs = []
  for name, mat, bud, call in operations():
    for d in (2, 3, 4, 5):
      def fn(W, mat=mat, bud=bud, call=call, d=d):
        call(W, Meter(W, bud), d, S.modes('n', d), S.modes('m', d) if mat else None)
      obs.append(Ob('C43', '%s [d=%d]' % (name, d), fn))

    def fn(W, mat=mat, bud=bud, call=call):
      c = {}
      for d in (2, 4, 8):
        c[d] = call(W, Meter(W, bud), d, S.modes('n', d), S.modes('m', d) if mat else None)
      W.checked += 1
      if c[8] - c[4] > 2 * (c[4] - c[2]) + 2:
        W.bad('the number of contractions and factorisations grows faster than the number of cores '
              '(%d, %d and %d for 2, 4 and 8 cores)' % (c[2], c[4], c[8]))
    obs.append(Ob('C43', '%s [number of steps]' % name, fn))
  return obs
