"""Abstract tensors: symbolic shape plus a normalised sum of network terms."""
import itertools
from fractions import Fraction

from . import dim as D
from .dim import Dim
from . import term as T
from .term import Term, Unsupported, fresh, ldim


class OpError(Exception):
  """An operation that raises for these argument shapes/dtypes."""

  def __init__(self, etype, msg):
    Exception.__init__(self, msg)
    self.etype = etype
    self.msg = msg


class DType(object):
  def __init__(self, name, generic=False):
    self.name = name
    self.generic = generic

  def __repr__(self):
    return 'dtype(%s)' % self.name


class ALog(object):
  """Side records of the run: sizes of intermediates, dtype mixes, ..."""
  on_tensor = None
  on_einsum = None
  on_factor = None


class Tensor(object):
  __slots__ = ('shape', 'static', 'flat', 'terms', 'canon', 'dtype', 'top',
               'np', '_axes', 'var', 'uid', 'frozen', 'wide')
  _uid = 0

  def __init__(self, shape, flat, terms, dtype, static=None, normalized=False,
               np=False):
    self.shape = tuple(shape)
    self.flat = tuple(flat)
    self.dtype = dtype
    self.static = tuple(static) if static is not None else (True,) * len(self.shape)
    self.top = None
    self.np = np
    self._axes = None
    self.var = None
    self.frozen = None
    self.wide = False
    Tensor._uid += 1
    self.uid = Tensor._uid
    if normalized:
      self.terms = terms[0]
      self.canon = terms[1]
    else:
      self.terms, self.canon = T.combine(terms, self.flat)
    if ALog.on_tensor is not None:
      ALog.on_tensor(self)

  @property
  def rank(self):
    return len(self.shape)

  def view(self, **kw):
    """A tensor with the same value and changed attributes."""
    n = Tensor.__new__(Tensor)
    for s in Tensor.__slots__:
      setattr(n, s, getattr(self, s))
    n.var = None
    n.frozen = None
    Tensor._uid += 1
    n.uid = Tensor._uid
    n._axes = self._axes
    for k, v in kw.items():
      setattr(n, k, v)
    if ALog.on_tensor is not None:
      ALog.on_tensor(n)
    return n

  def __repr__(self):
    return 'Tensor(%s)' % ','.join(D.show(d) for d in self.shape)


def top(reason, shape=None, dtype=None, static=None):
  t = Tensor.__new__(Tensor)
  t.shape = tuple(shape) if shape is not None else None
  t.static = static if static is not None else ((True,) * len(shape) if shape is not None else None)
  t.flat = ()
  t.terms = None
  t.canon = None
  t.dtype = dtype
  t.top = reason
  t.np = False
  t._axes = None
  t.var = None
  t.frozen = None
  t.wide = False
  Tensor._uid += 1
  t.uid = Tensor._uid
  return t


# ----------------------------------------------------------------------------
# construction

def from_atom(key, shape, dtype, static=None, nonneg=False, np=False, groups=None,
              kind='in', par=None):
  """An input tensor with arbitrary contents.  groups: per axis list of factor
  sizes (so that a dense axis may be a product of mode sizes)."""
  groups = groups or [[d] for d in shape]
  flat = []
  legs = []
  ld = []
  for g in groups:
    for d in g:
      if d == 1:
        continue
      l = fresh(d)
      flat.append(l)
      legs.append(l)
      ld.append(d)
  a = T.atom(key, kind, par, nonneg=nonneg, legdims=tuple(ld))
  return Tensor(shape, flat, [Term(Fraction(1), [(a, tuple(legs), 1)], frozenset())],
                dtype, static, np=np)


def const_fill(value, shape, dtype, static=None, np=False):
  """Tensor filled with a scalar tensor / rational."""
  flat = [fresh(d) for d in shape if d != 1]
  if isinstance(value, Tensor):
    return Tensor(shape, flat, value.terms, dtype, static, np=np)
  c = Fraction(value)
  terms = [Term(c, [], frozenset())] if c != 0 else []
  return Tensor(shape, flat, terms, dtype, static, np=np)


def scalar(value, dtype=None):
  if isinstance(value, Dim):
    terms = [Term(c, f, frozenset()) for c, f in T.dim_factors(value)]
    return Tensor((), (), terms, dtype)
  c = Fraction(value)
  return Tensor((), (), [Term(c, [], frozenset())] if c != 0 else [], dtype)


def eye(n, m, dtype, batch=(), static=None):
  fb = [fresh(b) for b in batch if b != 1]
  if n == m:
    if n == 1:
      return Tensor(tuple(batch) + (n, m), fb, [Term(Fraction(1), [], frozenset())], dtype, static)
    i, j = fresh(n), fresh(n)
    return Tensor(tuple(batch) + (n, m), fb + [i, j],
                  [Term(Fraction(1), [(T.eye_atom(n), (i, j), 1)], frozenset())], dtype, static)
  raise Unsupported('rectangular eye')


def from_elements(shape, elems, dtype, np=False):
  """Concrete-shape tensor from scalar entries (row-major list of scalars)."""
  flat = [fresh(d) for d in shape if d != 1]
  big = [d for d in shape if d != 1]
  terms = []
  # all-equal fast path
  vals = [e if isinstance(e, Tensor) else scalar(e) for e in elems]
  if vals and all(v.canon == vals[0].canon for v in vals):
    return Tensor(shape, flat, [T.freshen(t) for t in vals[0].terms], dtype, np=np)
  idx = [0] * len(big)
  for v in vals:
    hot = [(T.eye_atom(d), (l, ('c', i)), 1) for d, l, i in zip(big, flat, idx)]
    for t in v.terms:
      t = T.freshen(t)
      terms.append(Term(t.coef, hot + t.fs, t.bound))
    for k in reversed(range(len(big))):
      idx[k] += 1
      if idx[k] < big[k]:
        break
      idx[k] = 0
  return Tensor(shape, flat, terms, dtype, np=np)


# ----------------------------------------------------------------------------
# axes

def axes(t):
  """Labels per axis, or None when the labels do not align with the shape."""
  if t.top:
    raise Unsupported(t.top)
  if t._axes is not None:
    return t._axes
  res = []
  k = 0
  fl = t.flat
  for d in t.shape:
    if d == 1:
      res.append(())
      continue
    cur = []
    p = 1
    while p != d:
      if k >= len(fl):
        return None
      cur.append(fl[k])
      p = D.mul(p, ldim(fl[k]))
      k += 1
    res.append(tuple(cur))
  if k != len(fl):
    return None
  t._axes = res
  return res


def split_labels(t, want):
  """Try to re-factor the flat labels so that they align with sizes `want`
  (a list of sizes whose product is the total).  Returns new tensor or None."""
  fl = list(t.flat)
  have = [ldim(l) for l in fl]
  want = [w for w in want if w != 1]
  mp = {}
  newflat = []
  i = j = 0
  hi = None      # remaining size of current label, list of pieces
  # walk both factorisations with a running common refinement
  cur_pieces = []
  rem_h = have[0] if have else None
  wq = list(want)
  while i < len(fl):
    if not wq:
      return None
    w = wq[0]
    if rem_h == w:
      cur_pieces.append(w)
      wq.pop(0)
      _flush(fl[i], cur_pieces, mp, newflat)
      cur_pieces = []
      i += 1
      rem_h = have[i] if i < len(fl) else None
      continue
    q = D.divexact(rem_h, w)
    if q is not None and D.is_integral(q) and q != 1 and D.lower(q) >= 1:
      cur_pieces.append(w)
      wq.pop(0)
      rem_h = q
      continue
    q = D.divexact(w, rem_h)
    if q is not None and D.is_integral(q) and D.lower(q) >= 1:
      cur_pieces.append(rem_h)
      wq[0] = q
      _flush(fl[i], cur_pieces, mp, newflat)
      cur_pieces = []
      i += 1
      rem_h = have[i] if i < len(fl) else None
      if wq[0] == 1:
        wq.pop(0)
      continue
    return None
  if any(w != 1 for w in wq):
    return None
  if not mp:
    return t
  terms = [T.t_sub(x, mp) for x in t.terms]
  r = Tensor(t.shape, newflat, terms, t.dtype, t.static)
  r.np = t.np
  return r


def _flush(label, pieces, mp, newflat):
  if len(pieces) == 1:
    newflat.append(label)
    return
  ls = [fresh(p) for p in pieces]
  mp[label] = ('m', tuple((l, p) for l, p in zip(ls, pieces)))
  newflat.extend(ls)


def common_factors(xs, ys):
  """The common refinement of two factorisations of one size, or None."""
  xs, ys = list(xs), list(ys)
  res = []
  while xs and ys:
    x, y = xs[0], ys[0]
    if x == y:
      res.append(x)
      xs.pop(0)
      ys.pop(0)
      continue
    for u, v in ((xs, ys), (ys, xs)):
      q = D.divexact(u[0], v[0])
      if q is not None and D.is_integral(q) and q != 1 and D.lower(q) >= 1:
        res.append(v.pop(0))
        u[0] = q
        break
    else:
      return None
  return None if xs or ys else res


def unify(lists):
  """Factor sizes all of the axes can be split into; the whole axis as one
  factor if there are none (its labels then have to be joined)."""
  res = lists[0]
  for x in lists[1:]:
    res = common_factors(res, x)
    if res is None:
      return [D.prod(lists[0])]
  return res


def join_axis(t, i):
  """t with one label for axis i instead of several."""
  ax = axes(t)
  a = ax[i]
  n = t.shape[i]
  s = fresh(n)
  terms = []
  for x in t.terms:
    loc = {l: fresh(ldim(l)) for l in a}
    y = T.t_sub(T.freshen(x), loc)
    f = (T.eye_atom(n), (T.mk_merge(tuple((loc[l], ldim(l)) for l in a)), s), 1)
    terms.append(Term(y.coef, y.fs + [f], y.bound | frozenset(loc.values())))
  flat = [l for k, b in enumerate(ax) for l in ((s,) if k == i else b)]
  return Tensor(t.shape, flat, terms, t.dtype, t.static, np=t.np)


def aligned(t):
  """t with labels aligned to its shape (or Unsupported)."""
  if axes(t) is not None:
    return t
  r = split_labels(t, t.shape)
  if r is not None and axes(r) is not None:
    return r
  r = rejoin(t)
  if r is not None and axes(r) is not None:
    return r
  raise Unsupported('reshape does not align with index structure')


def rejoin(t):
  """t with one label per axis wherever axes and labels share no factorisation;
  such an axis is tied to the old labels by equality of the row-major position."""
  fl, sh = list(t.flat), [d for d in t.shape if d != 1]
  flat, ties = [], []
  i = j = 0
  while i < len(fl) or j < len(sh):
    ls, ds = [], []
    p = q = 1
    while not ls or p != q:
      # extend the side that divides the other, in turn when neither does
      more = D.divexact(q, p) if ls and ds else None
      if more is None or not D.is_integral(more):
        more = D.divexact(p, q) if ls and ds else None
        left = len(ls) <= len(ds) if more is None or not D.is_integral(more) else False
      else:
        left = True
      if i < len(fl) and (left or j >= len(sh)):
        ls.append(fl[i])
        p = D.mul(p, ldim(fl[i]))
        i += 1
      elif j < len(sh):
        ds.append(sh[j])
        q = D.mul(q, sh[j])
        j += 1
      else:
        return None
    if len(ds) == 1:
      flat.extend(ls)
      continue
    new = [fresh(d) for d in ds]
    flat.extend(new)
    ties.append((ls, new, p))
  terms = []
  for x in t.terms:
    loc = {l: fresh(ldim(l)) for ls, _, _ in ties for l in ls}
    y = T.t_sub(T.freshen(x), loc)
    fs = [(T.eye_atom(p), (T.mk_merge(tuple((loc[l], ldim(l)) for l in ls)),
                           T.mk_merge(tuple((l, ldim(l)) for l in new))), 1) for ls, new, p in ties]
    terms.append(Term(y.coef, y.fs + fs, y.bound | frozenset(loc.values())))
  return Tensor(t.shape, flat, terms, t.dtype, t.static, np=t.np)


def size_of(t):
  return D.prod(t.shape)


# ----------------------------------------------------------------------------
# equality

def equal(a, b):
  """True/False/None (None: undecided)."""
  if a.top or b.top:
    return None
  if len(a.shape) != len(b.shape) or any(x != y for x, y in zip(a.shape, b.shape)):
    return False
  if [ldim(l) for l in a.flat] != [ldim(l) for l in b.flat]:
    a2 = split_labels(a, [ldim(l) for l in b.flat])
    b2 = split_labels(b, [ldim(l) for l in (a2 or a).flat])
    if a2 is None or b2 is None or [ldim(l) for l in a2.flat] != [ldim(l) for l in b2.flat]:
      if not a.terms and not b.terms:
        return True
      a2, b2 = aligned(a), aligned(b)
      st = [unify([[ldim(l) for l in x], [ldim(l) for l in y]]) for x, y in zip(axes(a2), axes(b2))]
      a2, b2 = _refine_axes(a2, st), _refine_axes(b2, st)
    a, b = a2, b2
  if a.canon == b.canon:
    return True
  return _equal_expanded(a, b)


SMALL = 9


def _small(l):
  d = ldim(l)
  return not isinstance(d, Dim) and d <= SMALL


def _unroll(t, mp, flat):
  """Terms with free labels fixed by mp and sums over constant sizes written out."""
  terms = []
  for x in t.terms:
    todo = sorted(l for l in x.bound if _small(l))
    n = 1
    for l in todo:
      n *= ldim(l)
    if n > 64:
      return None
    for idx in itertools.product(*[range(ldim(l)) for l in todo]):
      m = dict(mp)
      m.update((l, ('c', i)) for l, i in zip(todo, idx))
      terms.append(T.t_sub(x, m, frozenset(x.bound) - frozenset(todo)))
  if len(terms) > 400:
    return None
  return Tensor(tuple(ldim(l) for l in flat), flat, terms, t.dtype)


def _equal_expanded(a, b):
  """Second attempt for sizes that are constants: compare position by position."""
  pos = [i for i, l in enumerate(a.flat) if _small(l)]
  if not pos and not any(_small(l) for t in (a, b) for x in t.terms for l in x.bound):
    return False
  n = 1
  for i in pos:
    n *= ldim(a.flat[i])
  if n > 64:
    return False
  for idx in itertools.product(*[range(ldim(a.flat[i])) for i in pos]):
    two = []
    for t in (a, b):
      mp = {t.flat[i]: ('c', v) for i, v in zip(pos, idx)}
      u = _unroll(t, mp, [l for i, l in enumerate(t.flat) if i not in pos])
      if u is None:
        return False
      two.append(u)
    if two[0].canon != two[1].canon:
      return False
  return True


def difference(a, b, limit=6):
  """Human-readable description of differing terms."""
  da, db = dict(a.canon), dict(b.canon)
  out = []
  for k in sorted(set(da) | set(db)):
    if da.get(k) != db.get(k):
      out.append('%s: code %s, spec %s' % (k if len(k) < 400 else k[:400] + '...',
                                           da.get(k, 0), db.get(k, 0)))
  return out[:limit]


# ----------------------------------------------------------------------------
# structural operations

def reshape(t, shape, static=None):
  """shape may contain one None for -1."""
  if t.top:
    if t.shape is None or any(s is None for s in shape):
      return top(t.top, None, t.dtype)
    return top(t.top, shape, t.dtype, static)
  total = size_of(t)
  shape = list(shape)
  if None in shape:
    i = shape.index(None)
    rest = D.prod([s for s in shape if s is not None])
    q = D.divexact(total, rest)
    if q is None or not D.is_integral(q) and q != 1:
      # try to align with labels: prefix/suffix products
      q = _infer_by_labels(t, shape, i)
      if q is None:
        raise OpError('InvalidArgumentError',
                      'cannot reshape %s elements into shape %s' % (
                          D.show(total), [D.show(s) if s is not None else '-1' for s in shape]))
    shape[i] = q
  else:
    if not D.same(D.prod(shape), total):
      raise OpError('InvalidArgumentError', 'cannot reshape %s (shape %s) into shape %s' % (
          D.show(total), [D.show(s) for s in t.shape], [D.show(s) for s in shape]))
  r = t.view(shape=tuple(shape), _axes=None,
             static=tuple(static) if static is not None else (True,) * len(shape))
  r.np = t.np
  return r


def _infer_by_labels(t, shape, i):
  fl = list(t.flat)
  lo = 0
  for s in shape[:i]:
    p = 1
    while p != s:
      if lo >= len(fl):
        return None
      p = D.mul(p, ldim(fl[lo]))
      lo += 1
  hi = len(fl)
  for s in reversed(shape[i + 1:]):
    p = 1
    while p != s:
      if hi <= lo:
        return None
      hi -= 1
      p = D.mul(p, ldim(fl[hi]))
  return D.prod(ldim(l) for l in fl[lo:hi])


def transpose(t, perm):
  if t.top:
    if t.shape is None:
      return top(t.top, None, t.dtype)
    return top(t.top, [t.shape[p] for p in perm], t.dtype, [t.static[p] for p in perm])
  if sorted(perm) != list(range(t.rank)):
    raise OpError('ValueError', 'transpose permutation %s for rank %d' % (perm, t.rank))
  t = aligned(t)
  ax = axes(t)
  flat = []
  for p in perm:
    flat.extend(ax[p])
  return Tensor([t.shape[p] for p in perm], flat, t.terms, t.dtype,
                [t.static[p] for p in perm], np=t.np)


def expand_dims(t, axis):
  n = t.rank + 1
  if axis < -n or axis >= n:
    raise OpError('InvalidArgumentError', 'expand_dims axis out of range')
  if axis < 0:
    axis += n
  sh = t.shape[:axis] + (1,) + t.shape[axis:]
  st = t.static[:axis] + (True,) + t.static[axis:]
  return t.view(shape=sh, static=st, _axes=None)


def squeeze(t, axis=None):
  """axis None: drops every dimension that is 1 (statically or symbolically)."""
  if axis is None:
    for d in t.shape:
      if d != 1 and D.cmp_eq(d, 1) is not False:
        raise Unsupported('squeeze of a dimension that may be 1')
    keep = [i for i, d in enumerate(t.shape) if d != 1]
  else:
    if isinstance(axis, int):
      axis = [axis]
    axis = [a + t.rank if a < 0 else a for a in axis]
    for a in axis:
      if a < 0 or a >= t.rank or t.shape[a] != 1:
        raise OpError('InvalidArgumentError', 'squeeze of dimension %s of size %s' % (
            a, D.show(t.shape[a]) if 0 <= a < t.rank else '?'))
    keep = [i for i in range(t.rank) if i not in axis]
  return t.view(shape=tuple(t.shape[i] for i in keep),
                static=tuple(t.static[i] for i in keep), _axes=None)


def _fresh_copy(t):
  """Rename output labels to fresh ones; returns (terms, flat, axes)."""
  ax = axes(t)
  mp = {l: fresh(ldim(l)) for l in t.flat}
  terms = []
  for x in t.terms:
    x = T.freshen(x)
    terms.append(T.t_sub(x, mp))
  return terms, [mp[l] for l in t.flat], [tuple(mp[l] for l in a) for a in ax]


def copy_fresh(t):
  if t.top:
    return t
  t = aligned(t)
  mp = {l: fresh(ldim(l)) for l in t.flat}
  terms = [T.t_sub(T.freshen(x), mp) for x in t.terms]
  r = Tensor(t.shape, [mp[l] for l in t.flat], (terms, t.canon), t.dtype, t.static,
             normalized=True, np=t.np)
  return r


def check_dtypes(ts, op):
  dt = None
  for t in ts:
    if t.dtype is None:
      continue
    if dt is None:
      dt = t.dtype
    elif not same_dtype(dt, t.dtype):
      raise OpError('InvalidArgumentError', '%s: dtype mismatch %s vs %s' % (
          op, dt.name, t.dtype.name))
  return dt


def same_dtype(a, b):
  return a is b or (a is not None and b is not None and a.name == b.name)


def concat(ts, axis):
  if not ts:
    raise OpError('ValueError', 'concat of nothing')
  dt = check_dtypes(ts, 'concat')
  rank = ts[0].rank if not ts[0].top or ts[0].shape is not None else None
  for t in ts:
    if t.top and t.shape is None:
      return top(t.top, None, dt)
  rank = len(ts[0].shape)
  if any(len(t.shape) != rank for t in ts):
    raise OpError('InvalidArgumentError', 'concat of different ranks')
  if axis < -rank or axis >= rank:
    raise OpError('InvalidArgumentError', 'concat axis %d out of range for rank %d' % (axis, rank))
  if axis < 0:
    axis += rank
  for i in range(rank):
    if i == axis:
      continue
    for t in ts:
      if not D.same(t.shape[i], ts[0].shape[i]):
        raise OpError('InvalidArgumentError', 'concat along axis %d: dimension %d differs: %s vs %s' % (
            axis, i, D.show(ts[0].shape[i]), D.show(t.shape[i])))
  total = 0
  for t in ts:
    total = D.add(total, t.shape[axis])
  shape = list(ts[0].shape)
  shape[axis] = total
  static = list(ts[0].static)
  for i in range(rank):
    if i == axis:
      static[i] = all(t.static[i] for t in ts)
    else:
      static[i] = any(t.static[i] for t in ts)
  for t in ts:
    if t.top:
      return top(t.top, shape, dt, static)
  if len(ts) == 1:
    return ts[0].view()
  # common refinement of the other axes
  ts = [aligned(t) for t in ts]
  flat_ax = []
  # common factor structure of each non-concat axis
  struct = []
  for i in range(rank):
    if i == axis:
      struct.append(None)
      continue
    struct.append(unify([[ldim(l) for l in axes(t)[i]] for t in ts]))
  outax = [None if i == axis else tuple(fresh(d) for d in struct[i]) for i in range(rank)]
  s = fresh(total)
  terms = []
  off = 0
  for t in ts:
    ln = t.shape[axis]
    t = _refine_axes(t, struct)
    ax = axes(t)
    mp = {}
    for i in range(rank):
      if i != axis:
        for l, o in zip(ax[i], outax[i]):
          mp[l] = o
    for x in t.terms:
      x = T.freshen(x)
      loc = {l: fresh(ldim(l)) for l in ax[axis]}
      m2 = dict(mp)
      m2.update(loc)
      y = T.t_sub(x, m2)
      if ln == 1:
        leg = ('c', 0)
      else:
        leg = T.mk_merge(tuple((loc[l], ldim(l)) for l in ax[axis]))
      if ln == 1:
        f = (T.eye_atom(total), (s, ('c', off)), 1)
      else:
        f = (T.inj_atom(off, ln, total), (leg, s), 1)
      terms.append(Term(y.coef, y.fs + [f], y.bound | frozenset(loc.values())))
    off = D.add(off, ln)
  outax[axis] = (s,) if total != 1 else ()
  flat = [l for a in outax for l in a]
  return Tensor(shape, flat, terms, dt, static, np=all(t.np for t in ts))


def _refine_axes(t, struct):
  """Split labels of t so that axis i has factor sizes struct[i] (None: keep)."""
  for i, a in enumerate(axes(t)):
    if struct[i] is not None and len(struct[i]) == 1 and len(a) > 1:
      t = join_axis(t, i)
  ax = axes(t)
  want = []
  changed = False
  for i, a in enumerate(ax):
    ds = [ldim(l) for l in a]
    if struct[i] is not None and ds != list(struct[i]):
      want.extend(struct[i])
      changed = True
    else:
      want.extend(ds)
  if not changed:
    return t
  r = split_labels(t, want)
  if r is None or axes(r) is None:
    raise Unsupported('incompatible index factorisations')
  for i, a in enumerate(axes(r)):
    if struct[i] is not None and [ldim(l) for l in a] != list(struct[i]):
      raise Unsupported('incompatible index factorisations')
  return r


def slice_axis(t, axis, start, stop, step, static_dim=True):
  """start/stop in [0, n], step a positive int; new dim = ceil((stop-start)/step)."""
  n = t.shape[axis]
  if step == 1:
    m = D.sub(stop, start)
  else:
    d = D.sub(stop, start)
    if isinstance(d, Dim):
      m = D.divexact(d, step)
      if m is None or not D.is_integral(m):
        raise Unsupported('strided slice of symbolic size')
    else:
      m = max(0, -(-d // step))
  sh = t.shape[:axis] + (m,) + t.shape[axis + 1:]
  st = t.static[:axis] + (static_dim,) + t.static[axis + 1:]
  if start == 0 and step == 1 and m == n:
    return t.view(static=st)
  if t.top:
    return top(t.top, sh, t.dtype, st)
  if not isinstance(m, Dim) and m <= 0:
    sh = t.shape[:axis] + (0,) + t.shape[axis + 1:]
    flat = [fresh(d) for d in sh if d != 1]
    return Tensor(sh, flat, [], t.dtype, st, np=t.np)
  t = aligned(t)
  ax = axes(t)
  labs = ax[axis]
  if len(labs) == 1:
    old = labs[0]
  elif len(labs) == 0:
    return t.view(static=st)
  else:
    old = None
  if m == 1:
    newl = ()
    rep = ('c', start)
  else:
    nl = fresh(m)
    newl = (nl,)
    rep = T.mk_affine(nl, start, step)
  if old is None:
    # merged axis
    if isinstance(rep, tuple) and rep[0] == 'c' and not isinstance(rep[1], Dim) and \
        all(not isinstance(ldim(l), Dim) for l in labs):
      v = rep[1]
      mp = {}
      for l in reversed(labs):
        mp[l] = ('c', v % ldim(l))
        v //= ldim(l)
    elif isinstance(rep, tuple) and rep[0] == 'c' and rep[1] == 0:
      mp = {l: ('c', 0) for l in labs}
    else:
      # slice of the leading factor by whole blocks
      inner = D.prod(ldim(l) for l in labs[1:])
      a = D.divexact(start, inner)
      b = D.divexact(stop, inner)
      if step == 1 and a is not None and b is not None and D.is_integral(a) | (a == 0) and D.is_integral(b):
        m0 = D.sub(b, a)
        if m0 == 1:
          mp = {labs[0]: ('c', a)}
          newl = tuple(labs[1:])
        else:
          nl = fresh(m0)
          mp = {labs[0]: T.mk_affine(nl, a, 1)}
          newl = (nl,) + tuple(labs[1:])
      else:
        raise Unsupported('slice of a merged axis')
  else:
    mp = {old: rep}
  flat = []
  for i, a in enumerate(ax):
    flat.extend(newl if i == axis else a)
  terms = [T.t_sub(x, mp) for x in t.terms]
  return Tensor(sh, flat, terms, t.dtype, st, np=t.np)


def index_axis(t, axis, idx):
  """Select one position (drops the axis).  idx: int/Dim or a leg."""
  if t.top:
    return top(t.top, t.shape[:axis] + t.shape[axis + 1:], t.dtype,
               t.static[:axis] + t.static[axis + 1:])
  t = aligned(t)
  ax = axes(t)
  labs = ax[axis]
  sh = t.shape[:axis] + t.shape[axis + 1:]
  st = t.static[:axis] + t.static[axis + 1:]
  leg = idx if isinstance(idx, tuple) else ('c', idx)
  if len(labs) == 0:
    return t.view(shape=sh, static=st, _axes=None)
  if len(labs) > 1:
    if leg[0] == 'c' and not isinstance(leg[1], Dim) and all(not isinstance(ldim(l), Dim) for l in labs):
      v = leg[1]
      mp = {}
      for l in reversed(labs):
        mp[l] = ('c', v % ldim(l))
        v //= ldim(l)
    elif leg == ('c', 0):
      mp = {l: leg for l in labs}
    else:
      raise Unsupported('indexing a merged axis')
  else:
    mp = {labs[0]: leg}
  flat = [l for i, a in enumerate(ax) if i != axis for l in a]
  return Tensor(sh, flat, [T.t_sub(x, mp) for x in t.terms], t.dtype, st, np=t.np)


# ----------------------------------------------------------------------------
# contraction

def einsum(ins, out, ts):
  """ins: list of lists of letters per operand; out: list of letters."""
  dt = check_dtypes(ts, 'einsum')
  dims = {}
  known = {}
  for letters, t in zip(ins, ts):
    if t.top and t.shape is None:
      return top(t.top, None, dt)
    if len(letters) != len(t.shape):
      raise OpError('ValueError', 'einsum subscript %s does not match rank %d' % (
          ''.join(map(str, letters)), len(t.shape)))
    for c, d, s in zip(letters, t.shape, t.static):
      if c in dims:
        if not D.same(dims[c], d):
          raise OpError('InvalidArgumentError', 'einsum index %s has sizes %s and %s' % (
              c, D.show(dims[c]), D.show(d)))
        known[c] = known[c] or s
      else:
        dims[c] = d
        known[c] = s
  for c in out:
    if c not in dims:
      raise OpError('ValueError', 'einsum output index %s not in inputs' % c)
  if ALog.on_einsum is not None:
    ALog.on_einsum(ins, out, dims)
  shape = [dims[c] for c in out]
  static = [known[c] for c in out]
  for t in ts:
    if t.top:
      return top(t.top, shape, dt, static)
  ts = [aligned(t) for t in ts]
  # factor structure per letter
  struct = {}
  for letters, t in zip(ins, ts):
    for c, a in zip(letters, axes(t)):
      struct.setdefault(c, []).append([ldim(l) for l in a])
  struct = {c: unify(x) for c, x in struct.items()}
  labs = {c: tuple(fresh(d) for d in struct[c]) for c in struct}
  parts = None
  for letters, t in zip(ins, ts):
    t = _refine_axes(t, [struct[c] for c in letters])
    ax = axes(t)
    mp = {}
    extra = []
    for c, a in zip(letters, ax):
      for l, o in zip(a, labs[c]):
        mp[l] = o
    cur = []
    for x in t.terms:
      x = T.freshen(x)
      cur.append(T.t_sub(x, mp))
    if parts is None:
      parts = cur
    else:
      parts = [Term(u.coef * v.coef, u.fs + v.fs, u.bound | v.bound) for u in parts for v in cur]
      if len(parts) > 40:
        # prune early: simplification removes incompatible blocks
        free = set()
        for c in labs:
          free.update(labs[c])
        parts = T.simplify_terms(parts)
  bound = frozenset(l for c in labs if c not in out for l in labs[c])
  terms = [Term(u.coef, u.fs, u.bound | bound) for u in parts]
  flat = [l for c in out for l in labs[c]]
  if len(set(out)) != len(out):
    raise OpError('ValueError', 'einsum output index repeated')
  return Tensor(shape, flat, terms, dt, static, np=all(t.np for t in ts))


def broadcast_shapes(ts, op):
  rank = max(len(t.shape) for t in ts)
  shape = []
  static = []
  for i in range(rank):
    d = 1
    s = True
    for t in ts:
      k = i - (rank - len(t.shape))
      if k < 0:
        continue
      x = t.shape[k]
      if x == 1:
        continue
      if d == 1:
        d, s = x, t.static[k]
      elif not D.same(d, x):
        raise OpError('InvalidArgumentError', '%s: incompatible shapes %s' % (
            op, ' vs '.join('[%s]' % ','.join(D.show(y) for y in u.shape) for u in ts)))
      else:
        s = s or t.static[k]
    shape.append(d)
    static.append(s)
  return shape, static


def _broadcast_prep(ts, op):
  dt = check_dtypes(ts, op)
  for t in ts:
    if t.top and t.shape is None:
      return None, None, None, dt, None
  shape, static = broadcast_shapes(ts, op)
  if any(t.top for t in ts):
    return None, shape, static, dt, None
  rank = len(shape)
  al = [aligned(t) for t in ts]
  struct = [[] for _ in range(rank)]
  for t in al:
    for k, a in enumerate(axes(t)):
      if t.shape[k] != 1:
        struct[k + rank - len(t.shape)].append([ldim(l) for l in a])
  struct = [unify(x) if x else [] for x in struct]
  labs = [tuple(fresh(d) for d in s) for s in struct]
  outs = []
  for t in al:
    st = []
    for k, d in enumerate(t.shape):
      i = k + rank - len(t.shape)
      st.append(struct[i] if d != 1 else [])
    t = _refine_axes(t, st)
    mp = {}
    for k, a in enumerate(axes(t)):
      i = k + rank - len(t.shape)
      for l, o in zip(a, labs[i]):
        mp[l] = o
    outs.append([T.t_sub(T.freshen(x), mp) for x in t.terms])
  flat = [l for a in labs for l in a]
  return outs, shape, static, dt, flat


def add(a, b, sign=1):
  outs, shape, static, dt, flat = _broadcast_prep([a, b], 'add')
  if outs is None:
    return top(a.top or b.top, shape, dt, static)
  terms = outs[0] + [Term(t.coef * sign, t.fs, t.bound) for t in outs[1]]
  return Tensor(shape, flat, terms, dt, static, np=a.np and b.np)


def mul(a, b):
  outs, shape, static, dt, flat = _broadcast_prep([a, b], 'multiply')
  if outs is None:
    return top(a.top or b.top, shape, dt, static)
  terms = [Term(u.coef * v.coef, u.fs + v.fs, u.bound | v.bound) for u in outs[0] for v in outs[1]]
  return Tensor(shape, flat, terms, dt, static, np=a.np and b.np)


def reduce_sum(t, axis=None, keepdims=False):
  if t.top:
    if t.shape is None:
      return top(t.top, None, t.dtype)
  rank = len(t.shape)
  if axis is None:
    axis = list(range(rank))
  elif isinstance(axis, int):
    axis = [axis]
  axis = [a + rank if a < 0 else a for a in axis]
  for a in axis:
    if a < 0 or a >= rank:
      raise OpError('InvalidArgumentError', 'reduction axis out of range')
  sh = [1 if i in axis else d for i, d in enumerate(t.shape) if keepdims or i not in axis]
  st = [True if i in axis else s for i, s in enumerate(t.static) if keepdims or i not in axis]
  if t.top:
    return top(t.top, sh, t.dtype, st)
  t = aligned(t)
  ax = axes(t)
  bound = frozenset(l for i in axis for l in ax[i])
  flat = [l for i, a in enumerate(ax) if i not in axis for l in a]
  terms = [Term(x.coef, x.fs, x.bound | bound) for x in t.terms]
  return Tensor(sh, flat, terms, t.dtype, st, np=t.np)


# ----------------------------------------------------------------------------
# elementwise functions

def definition(t, tag=''):
  """Definition id of a tensor value as a function of its flat labels."""
  can = '%s{%s|%s}' % (tag, ','.join(D.show(ldim(l)) for l in t.flat),
                       ' + '.join('%s*%s' % (c, k) for k, c in t.canon))
  return T.defid(can, t)


def _hot_label(ts_terms, flat):
  """An output label pinned by constants in some term (concrete small axis)."""
  for terms in ts_terms:
    for t in terms:
      for a, legs, e in t.fs:
        if a.kind == 'eye':
          for p, q in ((legs[0], legs[1]), (legs[1], legs[0])):
            if isinstance(p, int) and p in flat and isinstance(q, tuple) and q[0] == 'c':
              if not isinstance(ldim(p), Dim):
                return p
  return None


def _pointwise(outs, shape, static, dt, flat, f, np):
  """Apply scalar-term function f(list of [terms]) -> terms, splitting axes whose
  entries are given individually."""
  h = _hot_label(outs, set(flat))
  if h is not None and ldim(h) <= 64:
    res = []
    for c in range(ldim(h)):
      mp = {h: ('c', c)}
      sub = [T.simplify_terms([T.t_sub(x, mp) for x in o]) for o in outs]
      fl = [l for l in flat if l != h]
      r = _pointwise(sub, None, None, dt, fl, f, np)
      for x in r:
        res.append(Term(x.coef, [(T.eye_atom(ldim(h)), (h, ('c', c)), 1)] + x.fs, x.bound))
  else:
    res = f(outs, flat)
  return res


def pointwise(ts, f, op):
  outs, shape, static, dt, flat = _broadcast_prep(ts, op)
  if outs is None:
    r = [t.top for t in ts if t.top][0]
    return top(r, shape, dt, static)
  outs = [T.simplify_terms(o) for o in outs]
  res = _pointwise(outs, shape, static, dt, flat, f, None)
  return Tensor(shape, flat, res, dt, static, np=all(t.np for t in ts))


def _used(terms, flat):
  s = set()
  for t in terms:
    s |= t.labels()
  return [l for l in flat if l in s]


def _opaque_fn(name, args, flat, extra='', nonneg=False):
  """Atom for name(args...) as function of the labels it depends on."""
  used = []
  allt = []
  for a in args:
    for l in _used(a, flat):
      if l not in used:
        used.append(l)
  used = [l for l in flat if l in used]
  parts = []
  for a in args:
    tt = Tensor([ldim(l) for l in used], used, a, None)
    parts.append(tt)
  # Normalise order of labels by first appearance in canonical strings is not
  # needed: the order follows the axis order.
  can = '%s(%s%s){%s}' % (name, extra, ';'.join(
      ' + '.join('%s*%s' % (c, k) for k, c in p.canon) for p in parts),
      ','.join(D.show(ldim(l)) for l in used))
  i = T.defid(can, ('fn', name, parts, extra))
  a = T.atom('%s#%d' % (name, i), 'fn', (name, i), nonneg=nonneg,
             legdims=tuple(ldim(l) for l in used))
  return [Term(Fraction(1), [(a, tuple(used), 1)], frozenset())]


def _atom_abs(a):
  if a.nonneg or a.kind == 'abs':
    return a
  if a.kind == 'sign':
    return None
  return T.atom('abs(%s)' % a.key, 'abs', a, nonneg=True, legdims=a.legdims)


def abs_terms(terms, flat):
  if len(terms) == 0:
    return []
  if len(terms) == 1 and not terms[0].bound:
    t = terms[0]
    fs = []
    for a, legs, e in t.fs:
      if not isinstance(e, Dim) and Fraction(e).denominator == 1 and int(e) % 2 == 0:
        fs.append((a, legs, e))
        continue
      b = _atom_abs(a)
      if b is not None:
        fs.append((b, legs, e))
    return [Term(abs(t.coef), fs, t.bound)]
  if _is_nonneg(terms):
    return terms
  used = _used(terms, flat)
  w = _wrap(terms, used)
  b = _atom_abs(w[0])
  return [Term(Fraction(1), [(b, w[1], 1)], frozenset())]


def _is_nonneg(terms):
  for t in terms:
    if t.coef < 0:
      return False
    for a, legs, e in t.fs:
      ev = not isinstance(e, Dim) and Fraction(e).denominator == 1 and int(e) % 2 == 0
      if not (a.nonneg or ev):
        return False
  return True


def sign_terms(terms, flat):
  if len(terms) == 0:
    return []
  if len(terms) == 1 and not terms[0].bound:
    t = terms[0]
    fs = []
    for a, legs, e in t.fs:
      if a.nonneg:
        continue
      if isinstance(e, Dim) or Fraction(e).denominator != 1:
        b = T.atom('sign(%s)' % a.key, 'sign', a, legdims=a.legdims)
        fs.append((b, legs, e))
        continue
      if int(e) % 2 == 0:
        continue
      b = a if a.kind == 'sign' else T.atom('sign(%s)' % a.key, 'sign', a, legdims=a.legdims)
      fs.append((b, legs, 1))
    return [Term(Fraction(1 if t.coef > 0 else -1), fs, t.bound)]
  used = _used(terms, flat)
  w = _wrap(terms, used)
  b = T.atom('sign(%s)' % w[0].key, 'sign', w[0], legdims=w[0].legdims)
  return [Term(Fraction(1), [(b, w[1], 1)], frozenset())]


def _wrap(terms, used):
  tt = Tensor([ldim(l) for l in used], used, terms, None)
  i = definition(tt)
  a = T.atom('W#%d' % i, 'W', i, nonneg=_is_nonneg(terms),
             legdims=tuple(ldim(l) for l in used))
  return a, tuple(used)


def pow_terms(terms, e, flat):
  """terms ** e for a constant exponent e (Fraction/int/Dim)."""
  if not isinstance(e, Dim):
    e = Fraction(e)
    if e == 0:
      return [Term(Fraction(1), [], frozenset())]
    if e == 1:
      return terms
  if len(terms) == 0:
    if isinstance(e, Dim) or e > 0:
      return []
    raise Unsupported('0 ** negative')
  if len(terms) == 1 and not terms[0].bound:
    t = terms[0]
    c, ff = T.coef_pow(t.coef, e)
    fs = list(ff)
    for a, legs, x in t.fs:
      # (x**2)**(1/2) = |x|
      if not isinstance(x, Dim) and not isinstance(e, Dim) and Fraction(x).denominator == 1 and \
          int(x) % 2 == 0 and Fraction(e).denominator % 2 == 0 and not a.nonneg:
        a = _atom_abs(a) or a
      fs.append((a, legs, T.e_mul(x, e)))
    return [Term(c, fs, frozenset())]
  if not isinstance(e, Dim) and e.denominator == 1 and 0 < e <= 4:
    r = None
    for _ in range(int(e)):
      if r is None:
        r = [T.freshen(x) for x in terms]
      else:
        r = [T._mul2(u, T.freshen(v)) for u in r for v in terms]
    return r
  used = _used(terms, flat)
  # pull the common rational content out for a canonical base
  w = _wrap(terms, used)
  return [Term(Fraction(1), [(w[0], w[1], e)], frozenset())]


def log_terms(terms, flat):
  if len(terms) == 1 and not terms[0].bound:
    t = terms[0]
    res = []
    if t.coef < 0:
      return _opaque_fn('log', [terms], flat)
    if t.coef != 1:
      a = T.atom('log(%s)' % t.coef, 'logc', t.coef, legdims=())
      res.append(Term(Fraction(1), [(a, (), 1)], frozenset()))
    for a, legs, e in t.fs:
      la = T.atom('log(%s)' % a.key, 'log', a, legdims=a.legdims)
      for c, f in T.dim_factors(e):
        res.append(Term(c, [(la, legs, 1)] + f, frozenset()))
    return res
  if not terms:
    raise Unsupported('log(0)')
  used = _used(terms, flat)
  w = _wrap(terms, used)
  la = T.atom('log(%s)' % w[0].key, 'log', w[0], legdims=w[0].legdims)
  return [Term(Fraction(1), [(la, w[1], 1)], frozenset())]


def exp_terms(terms, flat):
  fs = []
  rest = []
  for t in terms:
    logs = [f for f in t.fs if f[0].kind == 'log']
    others = [f for f in t.fs if f[0].kind != 'log']
    if len(logs) == 1 and T.e_is(logs[0][2], 1) and not t.bound and \
        all(f[0].kind == 'size' for f in others):
      e = t.coef
      for a, _, x in others:
        e = D.mul(e, Dim({((a.par, x),): 1}))
      e = D.mk(D.poly(e)) if isinstance(e, Dim) else e
      fs.append((logs[0][0].par, logs[0][1], e))
    else:
      rest.append(t)
  if rest:
    r = _opaque_fn('exp', [rest], flat, nonneg=True)
    fs = fs + r[0].fs
  return [Term(Fraction(1), fs, frozenset())]


def known_negative(t):
  """The sign of a scalar when the facts of the partition settle it."""
  f = D.CTX.facts.get('lt:%s' % (t.canon,))
  if f is not None:
    return f
  z = scalar(0, t.dtype)
  for op, p, q, neg in (('Lt', t, z, True), ('LtE', z, t, False), ('Lt', z, t, False)):
    r = D.CTX.facts.get('nonzero:%s' % (opaque_fn('cmp' + op, [p, q]).canon,))
    if r is not None and (r or op != 'Lt' or p is t):
      return neg if r else not neg
  return None


def neg_(t):
  return mul(t, scalar(-1))


def unary(t, name):
  if name in ('abs', 'sign') and D.CTX.facts and not t.top and not t.flat:
    neg = known_negative(t)
    if neg is True:
      return neg_(t) if name == 'abs' else scalar(-1, t.dtype).view(shape=t.shape, static=t.static)
    if neg is False and name == 'abs':
      return t
  f = {'abs': abs_terms, 'sign': sign_terms, 'log': log_terms, 'exp': exp_terms}.get(name)
  if f is None:
    nn = name in ('relu', 'sigmoid', 'softplus')
    return pointwise([t], lambda o, fl: _opaque_fn(name, [o[0]], fl, nonneg=nn), name)
  return pointwise([t], lambda o, fl: f(o[0], fl), name)


def pow_const(t, e):
  return pointwise([t], lambda o, fl: pow_terms(o[0], e, fl), 'pow')


def as_size(t):
  """Scalar tensor made of sizes only -> Dim / int / Fraction, else None."""
  if t.top or t.flat:
    return None
  r = 0
  for x in t.terms:
    if x.bound:
      return None
    m = x.coef
    for a, legs, e in x.fs:
      if a.kind != 'size':
        return None
      m = D.mul(m, Dim({((a.par, e),): 1}))
    r = D.add(r, m)
  if isinstance(r, Fraction) and r.denominator == 1:
    r = int(r)
  return r


def opaque_fn(name, ts, extra='', nonneg=False):
  return pointwise(ts, lambda o, fl: _opaque_fn(name, o, fl, extra, nonneg), name)


# ----------------------------------------------------------------------------
# factorizations.  t: [..., rows, cols]

def _mat_parts(t):
  t = aligned(t)
  ax = axes(t)
  bl = [l for a in ax[:-2] for l in a]
  return t, bl, list(ax[-2]), list(ax[-1])


def _factor_def(t, kind, K, extra=None):
  t, bl, rl, cl = _mat_parts(t)
  tt = Tensor([ldim(l) for l in t.flat], t.flat, (t.terms, t.canon), t.dtype, normalized=True)
  can = '%s[%d,%d,%d]{%s|%s}' % (kind, len(bl), len(rl), len(cl),
                                 ','.join(D.show(ldim(l)) for l in t.flat),
                                 ' + '.join('%s*%s' % (c, k) for k, c in t.canon))
  i = T.defid(can, (kind, tt, len(bl), len(rl), len(cl), K, extra))
  return t, bl, rl, cl, i


def _newfl(ls):
  return [fresh(ldim(l)) for l in ls]


def qr(t):
  n, m = t.shape[-2], t.shape[-1]
  K = D.minimum(n, m)
  if ALog.on_factor is not None:
    ALog.on_factor(t.shape, K)
  batch = t.shape[:-2]
  bst = t.static[:-2]
  kst = t.static[-2] and t.static[-1]
  qs, rs = batch + (n, K), batch + (K, m)
  if t.top:
    return (top(t.top, qs, t.dtype, bst + (t.static[-2], kst)),
            top(t.top, rs, t.dtype, bst + (kst, t.static[-1])))
  t, bl, rl, cl, i = _factor_def(t, 'qr', K)
  bd = [ldim(l) for l in bl]
  kd = [] if K == 1 else [K]
  # 1 x m matrix: Q is +-1; keep it as an atom without leg
  b1, r1, s1 = _newfl(bl), _newfl(rl), [fresh(d) for d in kd]
  qa = T.atom('Q%d' % i, 'Q', (i,), legdims=tuple(bd + [ldim(l) for l in rl] + (kd or [1])))
  legs = tuple(b1 + r1 + (s1 or [('c', 0)]))
  Q = Tensor(qs, b1 + r1 + s1, [Term(Fraction(1), [(qa, legs, 1)], frozenset())], t.dtype,
             bst + (t.static[-2], kst))
  b2, c2, s2 = _newfl(bl), _newfl(cl), [fresh(d) for d in kd]
  ra = T.atom('R%d' % i, 'R', (i,), legdims=tuple(bd + (kd or [1]) + [ldim(l) for l in cl]))
  legs = tuple(b2 + (s2 or [('c', 0)]) + c2)
  R = Tensor(rs, b2 + s2 + c2, [Term(Fraction(1), [(ra, legs, 1)], frozenset())], t.dtype,
             bst + (kst, t.static[-1]))
  return Q, R


def svd(t):
  n, m = t.shape[-2], t.shape[-1]
  K = D.minimum(n, m)
  if ALog.on_factor is not None:
    ALog.on_factor(t.shape, K)
  batch = t.shape[:-2]
  bst = t.static[:-2]
  kst = t.static[-2] and t.static[-1]
  us, ss, vs = batch + (n, K), batch + (K,), batch + (m, K)
  if t.top:
    return (top(t.top, ss, t.dtype, bst + (kst,)), top(t.top, us, t.dtype, bst + (t.static[-2], kst)),
            top(t.top, vs, t.dtype, bst + (t.static[-1], kst)))
  t, bl, rl, cl, i = _factor_def(t, 'svd', K)
  bd = [ldim(l) for l in bl]
  kd = [] if K == 1 else [K]
  res = []
  b, r, s = _newfl(bl), _newfl(rl), [fresh(d) for d in kd]
  ua = T.atom('U%d' % i, 'U', (i,), legdims=tuple(bd + [ldim(l) for l in rl] + (kd or [1])))
  U = Tensor(us, b + r + s, [Term(Fraction(1), [(ua, tuple(b + r + (s or [('c', 0)])), 1)], frozenset())],
             t.dtype, bst + (t.static[-2], kst))
  b, s = _newfl(bl), [fresh(d) for d in kd]
  sa = T.atom('S%d' % i, 'S', (i,), nonneg=True, legdims=tuple(bd + (kd or [1])))
  S = Tensor(ss, b + s, [Term(Fraction(1), [(sa, tuple(b + (s or [('c', 0)])), 1)], frozenset())],
             t.dtype, bst + (kst,))
  b, c, s = _newfl(bl), _newfl(cl), [fresh(d) for d in kd]
  va = T.atom('V%d' % i, 'V', (i,), legdims=tuple(bd + [ldim(l) for l in cl] + (kd or [1])))
  V = Tensor(vs, b + c + s, [Term(Fraction(1), [(va, tuple(b + c + (s or [('c', 0)])), 1)], frozenset())],
             t.dtype, bst + (t.static[-1], kst))
  return S, U, V


def svd_full(t):
  """The same with the singular vectors completed to square orthogonal matrices."""
  S, U, V = svd(t)

  def complete(F, side):
    n, K = F.shape[-2], F.shape[-1]
    if D.decide_eq(n, K):
      return F
    if F.top:
      return top(F.top, F.shape[:-1] + (n,), F.dtype)
    key = [a.par for x in F.terms for a, _, _ in x.fs if a.kind in 'UV']
    P = from_atom('%sP%s' % (side, key[0][0]), F.shape[:-1] + (D.sub(n, K),), F.dtype)
    return concat([F, P], F.rank - 1)
  return S, complete(U, 'U'), complete(V, 'V')


def diag(t):
  """[..., n] -> [..., n, n]"""
  n = t.shape[-1]
  sh = t.shape + (n,)
  st = t.static + (t.static[-1],)
  if t.top:
    return top(t.top, sh, t.dtype, st)
  t = aligned(t)
  ax = axes(t)
  if n == 1:
    return t.view(shape=sh, static=st, _axes=None)
  last = ax[-1]
  new = [fresh(ldim(l)) for l in last]
  eyes = [(T.eye_atom(ldim(l)), (l, o), 1) for l, o in zip(last, new)]
  terms = [Term(x.coef, x.fs + eyes, x.bound) for x in t.terms]
  return Tensor(sh, list(t.flat) + new, terms, t.dtype, st, np=t.np)


def diag_part(t):
  return einsum([['b%d' % i for i in range(t.rank - 2)] + ['i', 'i']],
                ['b%d' % i for i in range(t.rank - 2)] + ['i'], [t])


def linalg_atom(t, kind):
  """det / inv / chol of [..., n, n] as atoms keyed by the argument."""
  n, m = t.shape[-2], t.shape[-1]
  if n != m:
    raise OpError('InvalidArgumentError', '%s of a non-square matrix %s x %s' % (
        kind, D.show(n), D.show(m)))
  batch, bst = t.shape[:-2], t.static[:-2]
  if t.top:
    if kind == 'det':
      return top(t.top, batch, t.dtype, bst)
    return top(t.top, t.shape, t.dtype, t.static)
  if len(t.terms) == 0 and kind == 'det':
    return Tensor(batch, [fresh(d) for d in batch if d != 1], [], t.dtype, bst)
  if n == 1:
    if kind == 'det':
      return t.view(shape=batch, static=bst, _axes=None)
    return pow_const(t, Fraction(1, 2) if kind == 'chol' else -1)
  extra = None
  tt = aligned(t)
  if kind == 'inv' and len(tt.terms) == 1 and tt.terms[0].coef == 1 and len(tt.terms[0].fs) == 1 \
      and not tt.terms[0].bound:
    a, legs, e = tt.terms[0].fs[0]
    if T.e_is(e, 1) and all(isinstance(l, int) for l in legs) and sorted(legs) == sorted(tt.flat):
      extra = (a, tuple(legs.index(l) for l in tt.flat))
  t, bl, rl, cl, i = _factor_def(t, kind, n, extra)
  b = _newfl(bl)
  bd = [ldim(l) for l in bl]
  if kind == 'det':
    a = T.atom('det%d' % i, 'det', (i,), legdims=tuple(bd))
    return Tensor(batch, b, [Term(Fraction(1), [(a, tuple(b), 1)], frozenset())], t.dtype, bst)
  r, c = _newfl(rl), _newfl(cl)
  if kind == 'inv':
    a = T.atom('inv%d' % i, 'INV', (i,), legdims=tuple(bd + [ldim(l) for l in rl + cl]))
  else:
    a = T.atom('chol%d' % i, 'CH', (i,), legdims=tuple(bd + [ldim(l) for l in rl + cl]))
  if len(rl) != 1 or len(cl) != 1:
    raise Unsupported('%s of a matrix with merged index' % kind)
  return Tensor(t.shape, b + r + c, [Term(Fraction(1), [(a, tuple(b + r + c), 1)], frozenset())],
                t.dtype, t.static)


def to_leg(t):
  """An integer scalar-valued tensor as (leg maker): returns function legs->leg."""
  if t.top:
    raise Unsupported(t.top)
  t = aligned(t)
  if not t.flat:
    s = as_size(t)
    if s is not None:
      return lambda legs: ('c', s)
  # constant over labels?
  i = definition(t, 'int')
  return lambda legs: ('g', i, tuple(legs))


def _digits(terms):
  """Sum of multiples of bounded integer atoms -> [(multiple, bound - 1, term)]."""
  out = []
  for x in terms:
    if x.bound:
      return None
    m, top_ = x.coef, None
    for a, legs, e in x.fs:
      if a.kind == 'size':
        m = D.mul(m, Dim({((a.par, e),): 1}))
      elif a.key in T.TC.below and e == 1 and top_ is None:
        top_ = D.sub(T.TC.below[a.key], 1)
      else:
        return None
    out.append((m, 1 if top_ is None else top_, x))
  return out


def divmod_terms(op, num, s):
  """num // s or num % s when num splits into multiples of s and a rest below s."""
  ds = _digits(num)
  if ds is None:
    return None
  quo, rest, most = [], [], 0
  for m, top_, x in ds:
    q = D.divexact(m, s)
    if q is not None and D.is_integral(q):
      # the multiple is kept as it is, its size factors are divided
      fs = [f for f in x.fs if f[0].kind != 'size']
      quo.append((q, fs))
    else:
      rest.append(x)
      most = D.add(most, D.mul(m, top_))
  if rest and not (D.nonneg(D.sub(D.sub(s, 1), most)) and D.nonneg(most)):
    return None
  if op == 'Mod':
    return rest
  out = []
  for q, fs in quo:
    for z in scalar(q).terms:
      out.append(Term(z.coef, list(z.fs) + list(fs), frozenset()))
  return out


def int_divmod(op, ta, tb):
  """Elementwise // or % of integer tensors."""
  name = 'floordiv' if op == 'FloorDiv' else 'mod'

  def f(o, fl):
    if not _used(o[1], fl):
      s = as_size(Tensor((), (), o[1], None))
      if s is not None and not isinstance(s, Fraction):
        r = divmod_terms(op, o[0], s)
        if r is not None:
          return r
    return _opaque_fn(name, o, fl)
  return pointwise([ta, tb], f, name)


def _gather_merged(t, idx, ax, axis, sh, st):
  """Index into an axis that is a product of modes: one digit per mode."""
  nl = _newfl(idx.flat)
  mp = {}
  stride = 1
  for l in reversed(ax[axis]):
    dig = int_divmod('Mod', int_divmod('FloorDiv', idx, scalar(stride)), scalar(ldim(l)))
    mp[l] = to_leg(dig)(nl)
    stride = D.mul(stride, ldim(l))
  flat = [l for a in ax[:axis] for l in a] + nl + [l for a in ax[axis + 1:] for l in a]
  return Tensor(sh, flat, [T.t_sub(T.freshen(x), mp) for x in t.terms], t.dtype, st)


def gather(t, idx, axis):
  """tf.gather along one axis with an integer tensor."""
  if axis < 0:
    axis += t.rank
  sh = t.shape[:axis] + idx.shape + t.shape[axis + 1:]
  st = t.static[:axis] + idx.static + t.static[axis + 1:]
  if t.top or idx.top:
    return top(t.top or idx.top, sh, t.dtype, st)
  t = aligned(t)
  idx = aligned(idx)
  ax = axes(t)
  labs = ax[axis]
  if t.shape[axis] == 1:
    nl = _newfl(idx.flat)
    flat = [l for a in ax[:axis] for l in a] + nl + [l for a in ax[axis + 1:] for l in a]
    return Tensor(sh, flat, t.terms, t.dtype, st)
  if len(labs) != 1:
    return _gather_merged(t, idx, ax, axis, sh, st)
  # entries given individually: expand
  h = _hot_label([idx.terms], set(idx.flat))
  nl = _newfl(idx.flat)
  flat = [l for a in ax[:axis] for l in a] + nl + [l for a in ax[axis + 1:] for l in a]
  if h is not None:
    pos = idx.flat.index(h)
    terms = []
    for c in range(ldim(h)):
      sub = Tensor([ldim(l) for l in idx.flat if l != h], [l for l in idx.flat if l != h],
                   [T.t_sub(x, {h: ('c', c)}) for x in idx.terms], None)
      leg = to_leg(sub)([l for k, l in enumerate(nl) if k != pos])
      for x in t.terms:
        y = T.t_sub(T.freshen(x), {labs[0]: leg})
        terms.append(Term(y.coef, y.fs + [(T.eye_atom(ldim(h)), (nl[pos], ('c', c)), 1)], y.bound))
    return Tensor(sh, flat, terms, t.dtype, st)
  leg = to_leg(idx)(nl)
  return Tensor(sh, flat, [T.t_sub(T.freshen(x), {labs[0]: leg}) for x in t.terms], t.dtype, st)


def tile(t, reps):
  """Repeat; exact when the tiled axis has size 1 (broadcast) or rep is 1."""
  if len(reps) != t.rank:
    raise OpError('InvalidArgumentError', 'tile multiples %d for rank %d' % (len(reps), t.rank))
  sh = [D.mul(d, r) for d, r in zip(t.shape, reps)]
  if t.top:
    return top(t.top, sh, t.dtype)
  t = aligned(t)
  ax = axes(t)
  flat = []
  mp_eye = []
  for a, d, r in zip(ax, t.shape, reps):
    if r == 1:
      flat.extend(a)
    else:
      # index = rep * n + i : new leading broadcast label
      flat.append(fresh(r))
      flat.extend(a)
  return Tensor(sh, flat, t.terms, t.dtype, t.static, np=t.np)


# ----------------------------------------------------------------------------
# derivative with respect to an atom

def derivative(v, atomkey, target):
  """d v / d target where v's terms contain the atom (plain factors).  Result
  axes: v axes + target axes."""
  if v.top:
    return top(v.top, v.shape + target.shape, target.dtype)
  out = [fresh(d) for d in _atom_out_dims(target)]
  terms = []
  for t in v.terms:
    for i, (a, legs, e) in enumerate(t.fs):
      if a.kind in ('W', 'fn', 'Q', 'R', 'U', 'S', 'V', 'abs', 'sign', 'log', 'det', 'INV', 'CH') and \
          _depends(a, atomkey):
        if a.kind == 'W':
          X = T.TC.deft[a.par]
          dX = derivative(X, atomkey, target)
          dl = list(dX.flat)
          base = Term(t.coef, t.fs[:i] + t.fs[i + 1:], t.bound)
          if isinstance(e, Dim):
            raise Unsupported('derivative of symbolic power')
          pw = (a, legs, e - 1)
          for y in dX.terms:
            y = T.freshen(y)
            y = T.t_sub(y, dict(zip(dl, list(legs) + out)))
            terms.append(Term(base.coef * y.coef * Fraction(e), base.fs + [pw] + y.fs, base.bound | y.bound))
          continue
        raise Unsupported('derivative through %s' % a.kind)
      if a.key == atomkey:
        if isinstance(e, Dim):
          raise Unsupported('derivative of symbolic power')
        fs = t.fs[:i] + t.fs[i + 1:]
        if not T.e_is(e, 1):
          fs = fs + [(a, legs, e - 1)]
        eyes = [(T.eye_atom(d), (o, l), 1) for d, o, l in zip(a.legdims, out, legs)]
        terms.append(Term(t.coef * Fraction(e), fs + eyes, t.bound))
  return Tensor(tuple(v.shape) + tuple(target.shape), list(v.flat) + out, terms,
                target.dtype, tuple(v.static) + tuple(target.static))


def _atom_out_dims(target):
  return [ldim(l) for l in target.flat]


_depcache = {}


def _depends(a, atomkey):
  par = a.par
  if a.kind in ('abs', 'sign', 'log'):
    return par.key == atomkey or _depends(par, atomkey)
  if a.kind == 'W':
    ts = [T.TC.deft[par]]
  elif a.kind == 'fn':
    ts = T.TC.deft[par[1]][2]
  elif a.kind in ('Q', 'R', 'U', 'S', 'V', 'det', 'INV', 'CH'):
    ts = [T.TC.deft[par[0]][1]]
  else:
    return False
  for x in ts:
    for t in x.terms:
      for b, _, _ in t.fs:
        if b.key == atomkey or _depends(b, atomkey):
          return True
  return False


def substitute_atoms(t, defs):
  """Replace atoms by their definitions: defs: key -> Tensor (labels = flat)."""
  if t.top or not defs:
    return t
  terms = list(t.terms)
  changed = False
  res = []
  while terms:
    x = terms.pop()
    for i, (a, legs, e) in enumerate(x.fs):
      if a.key in defs:
        if isinstance(e, Dim) or Fraction(e).denominator != 1 or e < 0:
          raise Unsupported('power of a watched tensor')
        changed = True
        X = defs[a.key]
        rest = [Term(x.coef, x.fs[:i] + x.fs[i + 1:], x.bound)]
        for _ in range(int(e)):
          rest = [T._mul2(u, T._inst(X, v, legs)) for u in rest for v in X.terms]
        terms.extend(rest)
        break
      elif a.kind in ('W', 'fn', 'Q', 'R', 'U', 'S', 'V', 'abs', 'sign', 'log', 'det', 'INV', 'CH') and \
          any(_depends(a, k) for k in defs):
        raise Unsupported('substitution inside %s' % a.kind)
    else:
      res.append(x)
  if not changed:
    return t
  return Tensor(t.shape, t.flat, res, t.dtype, t.static)
