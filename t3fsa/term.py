"""Tensor-network terms and their normal form.

A value is a finite sum of terms.  A term is

    coef * sum_{bound labels} prod_f  atom_f[legs_f] ** exp_f

with a rational coefficient.  Labels not bound are output labels.  A leg is an
index expression: a label (int), ('c', v) a constant, ('a', label, off, stride)
an affine function of a label, ('m', ((leg, dim), ...)) a row-major merge, or
('g', id, legs) a value looked up in an integer tensor (definition `id`).
"""
from fractions import Fraction
import itertools

from . import dim as D
from .dim import Dim


class Unsupported(Exception):
  """The analysis has no transfer function for this; obligation is undecided."""


# ----------------------------------------------------------------------------
# labels, atoms, definitions

class TermCtx(object):

  def __init__(self):
    self.ld = {}
    self.n = 0
    self.defs = {}      # canonical string -> id
    self.deft = {}      # id -> definition payload
    self.atoms = {}
    self.below = {}     # key of a non-negative integer atom -> strict bound
    self.tests = {}     # key of a decided fact about data -> (kind, scalar)


TC = TermCtx()


def set_ctx(c):
  global TC
  TC = c


def fresh(dim):
  TC.n += 1
  TC.ld[TC.n] = dim
  return TC.n


def ldim(l):
  return TC.ld[l]


class Atom(object):
  __slots__ = ('key', 'kind', 'par', 'nonneg', 'legdims')

  def __init__(self, key, kind, par=None, nonneg=False, legdims=None):
    self.key = key
    self.kind = kind
    self.par = par
    self.nonneg = nonneg
    self.legdims = legdims

  def __repr__(self):
    return self.key


def atom(key, kind, par=None, nonneg=False, legdims=None):
  a = TC.atoms.get(key)
  if a is None:
    a = Atom(key, kind, par, nonneg, legdims)
    TC.atoms[key] = a
  return a


def defid(canon, payload):
  i = TC.defs.get(canon)
  if i is None:
    i = len(TC.defs) + 1
    TC.defs[canon] = i
    TC.deft[i] = payload
  return i


def eye_atom(n):
  return atom('I<%s>' % D.show(n), 'eye', n, nonneg=True, legdims=(n, n))


def inj_atom(off, ln, total):
  return atom('J<%s,%s,%s>' % (D.show(off), D.show(ln), D.show(total)), 'inj',
              (off, ln, total), nonneg=True, legdims=(ln, total))


def size_atom(s):
  return atom('#' + s, 'size', s, nonneg=True, legdims=())


def num_atom(p):
  return atom('p%d' % p, 'num', p, nonneg=True, legdims=())


# ----------------------------------------------------------------------------
# legs

def leg_labels(leg, out):
  if isinstance(leg, int):
    out.append(leg)
  else:
    k = leg[0]
    if k == 'a':
      out.append(leg[1])
    elif k == 'm':
      for x, _ in leg[1]:
        leg_labels(x, out)
    elif k == 'g':
      for x in leg[2]:
        leg_labels(x, out)
  return out


def mk_affine(label, off, stride):
  if off == 0 and stride == 1:
    return label
  return ('a', label, off, stride)


def mk_merge(comps):
  flat = []
  for leg, d in comps:
    if isinstance(leg, tuple) and leg[0] == 'm':
      flat.extend(leg[1])
    elif d == 1:
      continue
    else:
      flat.append((leg, d))
  if not flat:
    return ('c', 0)
  if len(flat) == 1:
    return flat[0][0]
  if all(isinstance(l, tuple) and l[0] == 'c' for l, _ in flat):
    v = 0
    for l, d in flat:
      v = D.add(D.mul(v, d), l[1])
    return ('c', v)
  return ('m', tuple(flat))


def leg_sub(leg, mp):
  """Substitute labels by legs."""
  if isinstance(leg, int):
    return mp.get(leg, leg)
  k = leg[0]
  if k == 'c':
    return leg
  if k == 'a':
    r = mp.get(leg[1])
    if r is None:
      return leg
    if isinstance(r, int):
      return ('a', r, leg[2], leg[3])
    if r[0] == 'c':
      return ('c', D.add(leg[2], D.mul(leg[3], r[1])))
    if r[0] == 'a':
      return mk_affine(r[1], D.add(leg[2], D.mul(leg[3], r[2])),
                       D.mul(leg[3], r[3]))
    if r[0] == 'g':
      i = defid('aff(%s,%s,%s)' % (r[1], D.show(leg[2]), D.show(leg[3])),
                ('affg', r[1], leg[2], leg[3]))
      return ('g', i, r[2])
    raise Unsupported('affine of merged index')
  if k == 'm':
    return mk_merge(tuple((leg_sub(x, mp), d) for x, d in leg[1]))
  if k == 'g':
    return ('g', leg[1], tuple(leg_sub(x, mp) for x in leg[2]))
  raise AssertionError(leg)


class Term(object):
  __slots__ = ('coef', 'fs', 'bound')

  def __init__(self, coef, fs, bound):
    self.coef = coef
    self.fs = fs            # list of (atom, legs, exp)
    self.bound = bound      # frozenset of summed labels

  def labels(self):
    s = set()
    for _, legs, _ in self.fs:
      for l in legs:
        if isinstance(l, int):
          s.add(l)
        else:
          s.update(leg_labels(l, []))
    return s


def t_sub(t, mp, bound=None):
  """Substitute labels in a term (bound labels in mp must be handled by caller)."""
  return Term(t.coef, [(a, tuple(leg_sub(l, mp) for l in legs), e)
                       for a, legs, e in t.fs],
              t.bound if bound is None else bound)


def freshen(t):
  """Rename bound labels of a term to fresh ones."""
  if not t.bound:
    return t
  mp = {l: fresh(ldim(l)) for l in sorted(t.bound)}
  return t_sub(t, mp, frozenset(mp.values()))


def dim_factors(x):
  """Size x as list of (coef, [size factors])."""
  res = []
  for m, c in D.poly(x).items():
    res.append((Fraction(c), [(size_atom(v), (), e) for v, e in m]))
  return res


def mul_dim(t, x):
  return [Term(t.coef * c, t.fs + f, t.bound) for c, f in dim_factors(x)]


# ----------------------------------------------------------------------------
# exponents: int / Fraction / Dim

def e_add(a, b):
  r = D.add(a, b)
  return r


def e_mul(a, b):
  return D.mul(a, b)


def e_is(a, n):
  return not isinstance(a, Dim) and a == n


def _isprimefac(n):
  fs = {}
  p = 2
  while p * p <= n:
    while n % p == 0:
      fs[p] = fs.get(p, 0) + 1
      n //= p
    p += 1
    if p > 10 ** 5:
      break
  if n > 1:
    fs[n] = fs.get(n, 0) + 1
  return fs


def coef_pow(c, e):
  """(coef, factors) for Fraction c ** e."""
  c = Fraction(c)
  if not isinstance(e, Dim):
    e = Fraction(e)
    if e.denominator == 1:
      if c == 0 and e < 0:
        raise Unsupported('0 ** negative')
      return c ** int(e), []
  if c == 1:
    return Fraction(1), []
  if c == 0:
    return Fraction(0), []
  if c < 0:
    a = atom('(-1)', 'neg1', None, legdims=())
    cc, ff = coef_pow(-c, e)
    return cc, ff + [(a, (), e)]
  out = []
  for p, k in _isprimefac(c.numerator).items():
    out.append((num_atom(p), (), e_mul(e, k)))
  for p, k in _isprimefac(c.denominator).items():
    out.append((num_atom(p), (), e_mul(e, -k)))
  return Fraction(1), out


# ----------------------------------------------------------------------------
# simplification of one term

def _fix_vanished(t):
  """Bound labels that no longer occur contribute a factor of their size."""
  if not t.bound:
    return [t]
  gone = t.bound - t.labels()
  if not gone:
    return [t]
  ts = [Term(t.coef, t.fs, t.bound - gone)]
  for l in gone:
    nxt = []
    for x in ts:
      nxt.extend(mul_dim(x, ldim(l)))
    ts = nxt
  return ts


def _occ(t):
  """label -> list of factor indices (with multiplicity)."""
  o = {}
  for i, (_, legs, _) in enumerate(t.fs):
    for l in legs:
      if isinstance(l, int):
        o.setdefault(l, []).append(i)
      else:
        for x in leg_labels(l, []):
          o.setdefault(x, []).append(i)
  return o


def _subst_bound(t, label, leg, drop):
  """Replace bound `label` by `leg`, dropping factor index `drop`."""
  fs = []
  mp = {label: leg}
  for i, (a, legs, e) in enumerate(t.fs):
    if i == drop:
      continue
    fs.append((a, tuple(leg_sub(l, mp) for l in legs), e))
  return Term(t.coef, fs, t.bound - {label})


def _merge_exps(t):
  """Combine equal factors; fold numeric and special atoms.  Returns Term or None."""
  d = {}
  order = []
  for a, legs, e in t.fs:
    k = (a.key, legs)
    if k in d:
      d[k][2] = e_add(d[k][2], e)
    else:
      d[k] = [a, legs, e]
      order.append(k)
  coef = t.coef
  fs = []
  for k in order:
    a, legs, e = d[k]
    if e_is(e, 0):
      continue
    if a.kind in ('eye', 'inj') and not e_is(e, 1):
      if not isinstance(e, Dim) and e > 0:
        e = 1
    if a.kind == 'num' and not isinstance(e, Dim):
      e = Fraction(e)
      ip = e.numerator // e.denominator
      coef = coef * Fraction(a.par) ** ip
      e = e - ip
      if e == 0:
        continue
    if a.kind == 'neg1' and not isinstance(e, Dim) and Fraction(e).denominator == 1:
      if int(e) % 2:
        coef = -coef
      continue
    if a.kind == 'abs' and not isinstance(e, Dim) and Fraction(e).denominator == 1 and int(e) % 2 == 0:
      fs.append((a.par, legs, int(e)))
      continue
    if isinstance(e, Fraction) and e.denominator == 1:
      e = int(e)
    fs.append((a, legs, e))
  # |x| * sign(x) = x ; sign(x) * x = |x|
  names = {}
  for i, (a, legs, e) in enumerate(fs):
    names[(a.key, legs)] = i
  changed = False
  for i, f in enumerate(fs):
    if f is None:
      continue
    a, legs, e = f
    if a.kind == 'sign' and not isinstance(e, Dim) and Fraction(e).denominator == 1:
      ip = int(e)
      if ip % 2 == 0 and ip != 0:
        # sign(x)^2 = 1 for x != 0
        fs[i] = None
        changed = True
        continue
      j = names.get(('abs(%s)' % a.par.key, legs))
      if j is not None and fs[j] is not None and ip % 2 == 1:
        b, bl, be = fs[j]
        if not isinstance(be, Dim) and Fraction(be).denominator == 1 and int(be) % 2 == 1:
          fs[j] = (a.par, legs, be)
          fs[i] = None
          changed = True
  if changed:
    return _merge_exps(Term(coef, [f for f in fs if f is not None], t.bound))
  if coef == 0:
    return None
  return Term(coef, fs, t.bound)


def _rng_cmp(lo1, hi1, lo2, hi2):
  """Relation of half-open ranges: 'eq','disj','in' (1 in 2),'out' (2 in 1), None."""
  if lo1 == lo2 and hi1 == hi2:
    return 'eq'
  if D.cmp_le(hi1, lo2) or D.cmp_le(hi2, lo1):
    return 'disj'
  if D.cmp_le(lo2, lo1) and D.cmp_le(hi1, hi2):
    return 'in'
  if D.cmp_le(lo1, lo2) and D.cmp_le(hi2, hi1):
    return 'out'
  return None


def _as_affine(leg):
  if isinstance(leg, int):
    return (leg, 0, 1)
  if leg[0] == 'a':
    return (leg[1], leg[2], leg[3])
  return None


def _expand_concrete(t, label):
  """Sum over values of a small concrete label (bound or output)."""
  n = ldim(label)
  if isinstance(n, Dim) or n > 64:
    return None
  res = []
  for c in range(n):
    mp = {label: ('c', c)}
    u = t_sub(t, mp, t.bound - {label})
    if label not in t.bound:
      u.fs = [(eye_atom(n), (label, ('c', c)), 1)] + u.fs
    res.append(u)
  return res


def _step(t):
  """Apply one rewrite.  Returns None (no change) or a list of terms."""
  fs = t.fs
  bound = t.bound
  occ = _occ(t)
  s_occ = {}
  for i, (a, legs, e) in enumerate(fs):
    k = a.kind
    if k == 'eye':
      x, y = legs
      if x == y:
        return [Term(t.coef, fs[:i] + fs[i + 1:], bound)]
      xc = isinstance(x, tuple) and x[0] == 'c'
      yc = isinstance(y, tuple) and y[0] == 'c'
      if xc and yc:
        r = D.cmp_eq(x[1], y[1])
        if r is True:
          return [Term(t.coef, fs[:i] + fs[i + 1:], bound)]
        if r is False:
          return []
      for p, q in ((x, y), (y, x)):
        if isinstance(p, int) and p in bound:
          if isinstance(q, int):
            if ldim(p) == ldim(q) or ldim(p) == a.par:
              return [_subst_bound(t, p, q, i)]
          elif q[0] in ('c', 'g') and ldim(p) == a.par:
            return [_subst_bound(t, p, q, i)]
          elif q[0] == 'a' and ldim(p) == a.par:
            return [_subst_bound(t, p, q, i)]
          elif q[0] == 'm' and ldim(p) == a.par:
            if p not in leg_labels(q, []):
              return [_subst_bound(t, p, q, i)]
      # output label pinned to a constant: use the constant elsewhere
      for p, q in ((x, y), (y, x)):
        if isinstance(p, int) and isinstance(q, tuple) and q[0] == 'c' and len(occ[p]) > 1:
          mp = {p: q}
          nf = [f if j == i else (f[0], tuple(leg_sub(l, mp) for l in f[1]), f[2])
                for j, f in enumerate(fs)]
          return [Term(t.coef, nf, bound)]
      # eye[affine, const]: solve for the label when concrete
      for p, q in ((x, y), (y, x)):
        if isinstance(p, tuple) and p[0] == 'a' and isinstance(q, tuple) and q[0] == 'c':
          n = ldim(p[1])
          dq = D.sub(q[1], p[2])
          v = D.divexact(dq, p[3])
          if v is not None and not isinstance(v, Dim):
            if Fraction(v).denominator != 1 or v < 0:
              return []
            if not isinstance(n, Dim) and v >= n:
              return []
            if D.cmp_lt(int(v), n) is True:
              return [Term(t.coef, fs[:i] + [(eye_atom(n), (p[1], ('c', int(v))), 1)] + fs[i + 1:], bound)]
      # composite against composite
      if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'm' and y[0] == 'm' and \
          [d for _, d in x[1]] == [d for _, d in y[1]]:
        nf = [(eye_atom(d), (lx, ly), 1) for (lx, d), (ly, _) in zip(x[1], y[1])]
        return [Term(t.coef, fs[:i] + nf + fs[i + 1:], bound)]
      if isinstance(x, tuple) and isinstance(y, tuple) and {x[0], y[0]} == {'m', 'c'}:
        m, c = (x, y) if x[0] == 'm' else (y, x)
        if not isinstance(c[1], Dim) and all(not isinstance(d, Dim) for _, d in m[1]):
          v = c[1]
          nf = []
          for l, d in reversed(m[1]):
            nf.append((eye_atom(d), (l, ('c', v % d)), 1))
            v //= d
          return [Term(t.coef, fs[:i] + nf + fs[i + 1:], bound)]
    elif k == 'inj':
      al, s = legs
      off, ln, total = a.par
      if ln == total:
        return [Term(t.coef, fs[:i] + [(eye_atom(total), (al, s), 1)] + fs[i + 1:], bound)]
      if isinstance(s, tuple) and s[0] == 'c':
        c = s[1]
        inside = D.cmp_le(off, c)
        below = D.cmp_lt(c, D.add(off, ln))
        if inside is False or below is False:
          return []
        if inside and below:
          return [Term(t.coef, fs[:i] + [(eye_atom(ln), (al, ('c', D.sub(c, off))), 1)] + fs[i + 1:], bound)]
      af = _as_affine(s)
      if af is not None:
        lab, o, st = af
        m = ldim(lab)
        if st == 1 and not (o == 0 and m == total):
          rel = _rng_cmp(o, D.add(o, m), off, D.add(off, ln))
          if rel == 'eq':
            return [Term(t.coef, fs[:i] + [(eye_atom(ln), (al, lab), 1)] + fs[i + 1:], bound)]
          if rel == 'disj':
            return []
          if rel == 'in':
            return [Term(t.coef, fs[:i] + [(eye_atom(ln), (al, mk_affine(lab, D.sub(o, off), 1)), 1)] + fs[i + 1:], bound)]
          if rel == 'out':
            return [Term(t.coef, fs[:i] + [(inj_atom(D.sub(off, o), ln, m), (al, lab), 1)] + fs[i + 1:], bound)]
          if lab not in bound or True:
            ex = _expand_concrete(t, lab)
            if ex is not None:
              return ex
        elif st != 1:
          ex = _expand_concrete(t, lab)
          if ex is not None:
            return ex
        if isinstance(s, int):
          for j in s_occ.get(s, ()):
            b, bl, _ = fs[j]
            if b.kind != 'inj':
              continue
            if b.par[2] != total:
              continue
            rel = _rng_cmp(b.par[0], D.add(b.par[0], b.par[1]), off, D.add(off, ln))
            if rel == 'disj':
              return []
            if rel == 'eq':
              nf = fs[:i] + [(eye_atom(ln), (al, bl[0]), 1)] + fs[i + 1:]
              return [Term(t.coef, nf, bound)]
          if s in bound and len(occ[s]) == 1:
            return [Term(t.coef, fs[:i] + fs[i + 1:], bound - {s})]
          s_occ.setdefault(s, []).append(i)
    elif k == 'W':
      if not isinstance(e, Dim) and Fraction(e).denominator == 1 and e >= 1:
        T = TC.deft[a.par]
        res = [Term(t.coef, fs[:i] + fs[i + 1:], bound)]
        for _ in range(int(e)):
          res = [_mul2(u, _inst(T, v, legs)) for u in res for v in T.terms]
        return res
  r = _orth_rules(t, occ)
  if r is not None:
    return r
  return _label_merge(t, occ)


def _inst(T, v, legs):
  """Instantiate definition term v of tensor T with output labels := legs."""
  v = freshen(v)
  return t_sub(v, dict(zip(T.flat, legs)))


def _mul2(u, v):
  return Term(u.coef * v.coef, u.fs + v.fs, u.bound | v.bound)


def _orth_rules(t, occ):
  fs = t.fs
  bound = t.bound
  groups = {}
  for i, (a, legs, e) in enumerate(fs):
    if a.kind in ('Q', 'R', 'U', 'S', 'V', 'CH', 'INV'):
      groups.setdefault(a.par[0], []).append(i)
  for did, idxs in groups.items():
    payload = TC.deft[did]
    nb, nr, nc, K = payload[2], payload[3], payload[4], payload[5]
    A = payload[1]
    if payload[0] == 'qr':
      for i in idxs:
        a, legs, e = fs[i]
        if a.kind != 'Q' or not e_is(e, 1):
          continue
        s = legs[-1]
        for j in idxs:
          b, bl, be = fs[j]
          if b.kind == 'R' and e_is(be, 1) and bl[nb] == s and bl[:nb] == legs[:nb] and \
              _summed(s, K, bound, occ, 2):
            outlegs = legs[:nb] + legs[nb:nb + nr] + bl[nb + 1:]
            base = Term(t.coef, [f for k, f in enumerate(fs) if k not in (i, j)], bound - {s})
            return [_mul2(base, _inst(A, v, outlegs)) for v in A.terms]
      r = _iso(t, occ, idxs, 'Q', nb, nr, K)
      if r is not None:
        return r
      # R' R -> A' A
      rs = [i for i in idxs if fs[i][0].kind == 'R']
      for x, i in enumerate(rs):
        _, legs, e = fs[i]
        s = legs[nb]
        if e_is(e, 2) and _summed(s, K, bound, occ, 1):
          return _square(t, A, (i,), legs[:nb], legs[nb + 1:], legs[nb + 1:], s, 'cols', nb, nr)
        if not e_is(e, 1):
          continue
        for j in rs[x + 1:]:
          _, bl, be = fs[j]
          if e_is(be, 1) and bl[nb] == s and bl[:nb] == legs[:nb] and _summed(s, K, bound, occ, 2):
            return _square(t, A, (i, j), legs[:nb], legs[nb + 1:], bl[nb + 1:], s, 'cols', nb, nr)
    elif payload[0] == 'svd':
      for i in idxs:
        a, legs, e = fs[i]
        if a.kind != 'S':
          continue
        s = legs[-1]
        us = [j for j in idxs if fs[j][0].kind == 'U' and fs[j][1][-1] == s
              and fs[j][1][:nb] == legs[:nb]]
        vs = [j for j in idxs if fs[j][0].kind == 'V' and fs[j][1][-1] == s
              and fs[j][1][:nb] == legs[:nb]]
        if e_is(e, 1) and len(us) == 1 and len(vs) == 1 and e_is(fs[us[0]][2], 1) and \
            e_is(fs[vs[0]][2], 1) and _summed(s, K, bound, occ, 3):
          outlegs = legs[:nb] + fs[us[0]][1][nb:nb + nr] + fs[vs[0]][1][nb:nb + nc]
          base = Term(t.coef, [f for k, f in enumerate(fs) if k not in (i, us[0], vs[0])], bound - {s})
          return [_mul2(base, _inst(A, v, outlegs)) for v in A.terms]
        if e_is(e, 2):
          # U S^2 U' -> A A', V S^2 V' -> A' A, sum S^2 -> |A|^2
          for xs, other, which, nn in ((us, vs, 'rows', nr), (vs, us, 'cols', nc)):
            if other:
              continue
            if len(xs) == 2 and all(e_is(fs[j][2], 1) for j in xs) and _summed(s, K, bound, occ, 3):
              return _square(t, A, (i,) + tuple(xs), legs[:nb], fs[xs[0]][1][nb:nb + nn],
                             fs[xs[1]][1][nb:nb + nn], s, which, nb, nr)
            if len(xs) == 1 and e_is(fs[xs[0]][2], 2) and _summed(s, K, bound, occ, 2):
              l = fs[xs[0]][1][nb:nb + nn]
              return _square(t, A, (i,) + tuple(xs), legs[:nb], l, l, s, which, nb, nr)
          if not us and not vs and _summed(s, K, bound, occ, 1):
            l = tuple(fresh(ldim(x)) for x in A.flat[nb:nb + nr])
            r = _square(t, A, (i,), legs[:nb], l, l, s, 'rows', nb, nr)
            return [Term(x.coef, x.fs, x.bound | frozenset(l)) for x in r]
      for kind, nn in (('U', nr), ('V', nc)):
        r = _iso(t, occ, idxs, kind, nb, nn, K)
        if r is not None:
          return r
    elif payload[0] == 'chol':
      # L[b, i, s] L[b, j, s] -> A[b, i, j]
      for i in idxs:
        for j in idxs:
          if i >= j:
            continue
          a, legs, e = fs[i]
          b, bl, be = fs[j]
          if a.kind == 'CH' and b.kind == 'CH' and e_is(e, 1) and e_is(be, 1):
            s = legs[-1]
            if isinstance(s, int) and s == bl[-1] and s in bound and len(occ[s]) == 2 and \
                ldim(s) == K and legs[:nb] == bl[:nb]:
              outlegs = legs[:nb] + (legs[nb], bl[nb])
              base = Term(t.coef, [f for k, f in enumerate(fs) if k not in (i, j)], bound - {s})
              return [_mul2(base, _inst(A, v, outlegs)) for v in A.terms]
    elif payload[0] == 'inv':
      at = payload[6]   # the argument when it is a bare atom: (atom, perm)
      if at is not None:
        for i in idxs:
          a, legs, e = fs[i]
          if a.kind != 'INV' or not e_is(e, 1):
            continue
          for j, (b, bl, be) in enumerate(fs):
            if b.key != at[0].key or not e_is(be, 1):
              continue
            # argument legs in flat order
            fl = tuple(bl[p] for p in at[1])
            if fl[:nb] != legs[:nb]:
              continue
            for (x, y), (o1, o2) in (((legs[nb], fl[nb + 1]), (legs[nb + 1], fl[nb])),
                                     ((legs[nb + 1], fl[nb]), (legs[nb], fl[nb + 1]))):
              if isinstance(x, int) and x == y and x in bound and len(occ[x]) == 2 and ldim(x) == K:
                base = Term(t.coef, [f for k, f in enumerate(fs) if k not in (i, j)] +
                            [(eye_atom(K), (o1, o2), 1)], bound - {x})
                return [base]
  return None


def _summed(s, K, bound, occ, n):
  """Leg s runs over all of a factorisation's inner index, used n times."""
  if isinstance(s, int):
    return s in bound and len(occ[s]) == n and ldim(s) == K
  return K == 1 and s == ('c', 0)


def _square(t, A, drop, batch, la, lb, s, which, nb, nr):
  """Replace dropped factors by A A' (which='rows') or A' A (which='cols') with
  free legs la, lb; s is the inner label that disappears."""
  base = Term(t.coef, [f for k, f in enumerate(t.fs) if k not in drop], t.bound - {s})
  if which == 'cols':
    mid = tuple(fresh(ldim(x)) for x in A.flat[nb:nb + nr])
    l1, l2 = batch + mid + tuple(la), batch + mid + tuple(lb)
  else:
    mid = tuple(fresh(ldim(x)) for x in A.flat[nb + nr:])
    l1, l2 = batch + tuple(la) + mid, batch + tuple(lb) + mid
  base = Term(base.coef, base.fs, base.bound | frozenset(mid))
  return [_mul2(_mul2(base, _inst(A, u, l1)), _inst(A, v, l2)) for u in A.terms for v in A.terms]


def _iso(t, occ, idxs, kind, nb, nn, K):
  """X[b,a..,s] X[b,a..,u] summed over a.. -> eye[s,u] for isometries X."""
  fs = t.fs
  bound = t.bound
  cand = [i for i in idxs if fs[i][0].kind == kind]
  for x, i in enumerate(cand):
    a, legs, e = fs[i]
    rows = legs[nb:nb + nn]
    rows_ok = all(isinstance(l, int) and l in bound for l in rows) and len(set(rows)) == len(rows)
    if not rows_ok:
      continue
    full = all(ldim(l) == d for l, d in zip(rows, a.legdims[nb:nb + nn]))
    if not full:
      continue
    if e_is(e, 2):
      if all(len(occ[l]) == 1 for l in rows):
        return [Term(t.coef, fs[:i] + fs[i + 1:], bound - set(rows))]
      continue
    if not e_is(e, 1):
      continue
    for j in cand[x + 1:]:
      b, bl, be = fs[j]
      if not e_is(be, 1) or bl[nb:nb + nn] != rows or bl[:nb] != legs[:nb]:
        continue
      if all(len(occ[l]) == 2 for l in rows):
        nf = [f for k, f in enumerate(fs) if k not in (i, j)]
        nf.append((eye_atom(K), (legs[-1], bl[-1]), 1))
        return [Term(t.coef, nf, bound - set(rows))]
  return None


def _label_merge(t, occ):
  """Merge bound labels that only occur together inside one merged leg shape."""
  groups = {}
  for a, legs, e in t.fs:
    for l in legs:
      if isinstance(l, tuple) and l[0] == 'm':
        for (x, dx), (y, dy) in zip(l[1], l[1][1:]):
          if isinstance(x, int) and isinstance(y, int) and x in t.bound and y in t.bound and x != y:
            groups.setdefault((x, y), 0)
            groups[(x, y)] += 1
  for (x, y), c in groups.items():
    if len(occ[x]) == c and len(occ[y]) == c and ldim(x) == dict_dim(t, x) and ldim(y) == dict_dim(t, y):
      z = fresh(D.mul(ldim(x), ldim(y)))

      def rep(l):
        if isinstance(l, tuple) and l[0] == 'm':
          out = []
          k = 0
          while k < len(l[1]):
            if l[1][k][0] == x and k + 1 < len(l[1]) and l[1][k + 1][0] == y:
              out.append((z, ldim(z)))
              k += 2
            else:
              out.append(l[1][k])
              k += 1
          return mk_merge(tuple(out))
        return l
      fs = [(a, tuple(rep(l) for l in legs), e) for a, legs, e in t.fs]
      return [Term(t.coef, fs, (t.bound - {x, y}) | {z})]
  return None


def dict_dim(t, x):
  for a, legs, e in t.fs:
    for l in legs:
      if isinstance(l, tuple) and l[0] == 'm':
        for y, d in l[1]:
          if y == x:
            return d
  return None


def simplify_terms(terms):
  """Normalise a list of terms to a list of irreducible terms (not merged)."""
  out = []
  work = list(terms)
  n = 0
  while work:
    n += 1
    if n > 200000:
      raise Unsupported('normalisation does not terminate')
    t = work.pop()
    if t.coef == 0:
      continue
    ts = _fix_vanished(t)
    if len(ts) != 1 or ts[0] is not t:
      work.extend(ts)
      continue
    t = _merge_exps(t)
    if t is None:
      continue
    ts = _fix_vanished(t)
    if len(ts) != 1 or ts[0] is not t:
      work.extend(ts)
      continue
    r = _step(t)
    if r is None:
      out.append(t)
    else:
      work.extend(r)
  return out


# ----------------------------------------------------------------------------
# canonical form

def _legcol(l, col):
  if isinstance(l, int):
    return col[l]
  k = l[0]
  if k == 'c':
    return 'c%s' % D.show(l[1])
  if k == 'a':
    return 'a(%s;%s;%s)' % (col[l[1]], D.show(l[2]), D.show(l[3]))
  if k == 'm':
    return 'm(%s)' % ','.join('%s:%s' % (_legcol(x, col), D.show(d)) for x, d in l[1])
  if k == 'g':
    return 'g%d(%s)' % (l[1], ','.join(_legcol(x, col) for x in l[2]))


def _leglist(a, legs, col):
  r = [_legcol(l, col) for l in legs]
  if a.kind == 'eye':
    r.sort()
  return r


def _pin_outputs(t, outpos):
  """With eye[o1, o2] between output labels, use the first one elsewhere."""
  par = {}
  for a, legs, e in t.fs:
    if a.kind == 'eye' and all(isinstance(l, int) and l in outpos for l in legs) and \
        all(ldim(l) == a.par for l in legs):
      x, y = legs
      while x in par:
        x = par[x]
      while y in par:
        y = par[y]
      if x == y:
        continue
      if outpos[x] > outpos[y]:
        x, y = y, x
      par[y] = x
  if not par:
    return t
  mp = {}
  eyes = []
  for y in par:
    x = y
    while x in par:
      x = par[x]
    mp[y] = x
    eyes.append((eye_atom(ldim(y)), (x, y), 1))
  fs = []
  for a, legs, e in t.fs:
    if a.kind == 'eye' and all(isinstance(l, int) and l in outpos for l in legs) and \
        all(ldim(l) == a.par for l in legs):
      continue
    fs.append((a, tuple(leg_sub(l, mp) for l in legs), e))
  return Term(t.coef, fs + eyes, t.bound)


def canon_term(t, outpos):
  """Canonical string of a term (without coefficient)."""
  bound = sorted(t.bound)
  col = {}
  for l, p in outpos.items():
    col[l] = 'o%d' % p
  for l in bound:
    col[l] = 'x' + D.show(ldim(l))
  for l in t.labels():
    if l not in col:
      raise AssertionError('free label')
  fs = t.fs
  return _canon_rec(fs, bound, col)


def _refine(fs, bound, col):
  nclass = len(set(col[l] for l in bound))
  while True:
    sig = {l: [] for l in bound}
    for a, legs, e in fs:
      cs = [_legcol(l, col) for l in legs]
      sym = a.kind == 'eye'
      if sym:
        cs.sort()
      base = '%s^%s[%s]' % (a.key, D.show(e), ','.join(cs))
      for p, l in enumerate(legs):
        if sym:
          p = 0
        if isinstance(l, int):
          if l in sig:
            sig[l].append('%d@%s' % (p, base))
        else:
          for q, x in enumerate(leg_labels(l, [])):
            if x in sig:
              sig[x].append('%d.%d@%s' % (p, q, base))
    new = {l: (col[l], tuple(sorted(sig[l]))) for l in bound}
    ranks = {v: i for i, v in enumerate(sorted(set(new.values())))}
    ncol = dict(col)
    for l in bound:
      ncol[l] = 'y%03d' % ranks[new[l]]
    n2 = len(ranks)
    col = ncol
    if n2 == nclass:
      return col
    nclass = n2


def _canon_rec(fs, bound, col, depth=0):
  if bound:
    col = _refine(fs, bound, col)
    classes = {}
    for l in bound:
      classes.setdefault(col[l], []).append(l)
    tie = None
    for c in sorted(classes):
      if len(classes[c]) > 1:
        tie = classes[c]
        break
    if tie is not None:
      best = None
      if depth > 6:
        tie = tie[:1]
      for l in tie:
        c2 = dict(col)
        c2[l] = col[l] + '!'
        s = _canon_rec(fs, bound, c2, depth + 1)
        if best is None or s < best:
          best = s
      return best
  parts = sorted('%s%s[%s]' % (a.key, '' if e_is(e, 1) else '^' + D.show(e),
                              ','.join(_leglist(a, legs, col)))
                 for a, legs, e in fs)
  return ' '.join(parts)


def combine(terms, outlabels):
  """Simplify, canonicalise and merge like terms.

  Returns (terms, canon) with canon a sorted tuple of (string, coef)."""
  outpos = {l: i for i, l in enumerate(outlabels)}
  d = {}
  work = simplify_terms(terms)
  for _ in range(4):
    pinned = [_pin_outputs(t, outpos) for t in work]
    if all(a is b for a, b in zip(pinned, work)):
      break
    work = simplify_terms(pinned)
  for t in work:
    k = canon_term(t, outpos)
    if k in d:
      d[k] = (d[k][0] + t.coef, d[k][1])
    else:
      d[k] = (t.coef, t)
  res = []
  can = []
  for k in sorted(d):
    c, t = d[k]
    if c == 0:
      continue
    res.append(Term(c, t.fs, t.bound))
    can.append((k, c))
  return res, tuple(can)
