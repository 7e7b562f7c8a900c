"""Point evaluation of normal forms.

Only used to withhold a verdict: two canonical forms that differ as text but
agree at sample points are reported as undecided instead of violated (the
rewrite system is not complete).  It evaluates abstract terms of the analysis;
no analysed code is run.
"""
import hashlib
import math
import random

from fractions import Fraction

from . import dim as D
from .dim import Dim, poly
from . import term as T


class NoValue(Exception):
  pass


def h01(*key):
  h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
  return int.from_bytes(h, 'big') / 2.0 ** 64


def gauss(*key):
  u, v = h01(0, *key), h01(1, *key)
  return math.sqrt(-2 * math.log(u + 1e-300)) * math.cos(2 * math.pi * v) + 0.1


class Sizes(object):
  """A random assignment of the size symbols consistent with the context."""

  def __init__(self, seed):
    self.rng = random.Random(seed)
    self.v = {}

  def fit(self, tries=400):
    lb = {s: b for s, b in D.CTX.lb.items() if s not in D.CTX.opaque}
    le = list(D.CTX.le)
    cond = list(getattr(D.CTX, 'conds', ()))
    for k in range(tries):
      self.v = {s: b + self.rng.choice((0, 0, 1, 1, 2) if k < tries // 2 else (0, 1, 2, 3, 5, 8))
                for s, b in sorted(lb.items())}
      try:
        if k % 2:
          self.repair(lb, le, cond)
        if all(self.num(a) <= self.num(b) for a, b in le) and \
            all((self.num(a) == self.num(b) if kind == 'eq' else self.num(a) < self.num(b)) == val
                for kind, a, b, val in cond):
          return True
      except (NoValue, ZeroDivisionError):
        continue
    return False

  def repair(self, lb, le, cond):
    """Enlarge symbols of the larger side of order facts that fail."""
    facts = [(a, b, 0) for a, b in le] + [((a, b, 1) if val else (b, a, 0)) for kind, a, b, val in cond if kind == 'lt']
    for _ in range(80):
      bad = [(a, b, g) for a, b, g in facts if self.num(a) + g > self.num(b)]
      if not bad:
        return
      a, b, g = self.rng.choice(bad)
      up = sorted({s for m, c in poly(b).items() if c > 0 for s, e in m if s in lb})
      if not up:
        return
      gap = self.num(a) + g - self.num(b)
      s = self.rng.choice(up)
      v = self.v[s] + (1 if len(up) > 1 and self.rng.random() < 0.5 else max(1, min(int(gap), 40)))
      self.v = {x: y for x, y in self.v.items() if x in lb}
      self.v[s] = v

  def num(self, x):
    if not isinstance(x, Dim):
      return x
    r = 0
    for m, c in x.p.items():
      t = Fraction(c) if not isinstance(c, (int, Fraction)) else c
      for s, e in m:
        b = self.symval(s)
        if isinstance(e, Dim) or (isinstance(e, Fraction) and e.denominator != 1):
          t = float(t) * float(b) ** float(self.num(e) if isinstance(e, Dim) else e)
        elif e < 0:
          t = t / Fraction(b) ** int(-e) if not isinstance(t, float) else t / b ** int(-e)
        else:
          t = t * b ** int(e)
      r = r + t
    if isinstance(r, Fraction) and r.denominator == 1:
      r = int(r)
    return r

  def symval(self, s):
    if s in self.v:
      return self.v[s]
    o = D.CTX.opaque.get(s)
    if o is None:
      raise NoValue(s)
    args = [self.num(a) for a in o[1:]]
    if o[0] == 'min':
      r = min(args)
    elif o[0] == 'max':
      r = max(args)
    elif o[0] == 'floordiv':
      r = args[0] // args[1]
    else:
      raise NoValue(s)
    self.v[s] = r
    return r


class Eval(object):

  def __init__(self, sizes, seed):
    self.z = sizes
    self.seed = seed
    self.cache = {}
    self.fact = {}
    self.depth = 0
    self.vals = {}        # values prescribed for atoms
    self.ieee = False     # division by zero gives inf/nan instead of no value
    self.wide = False     # elements of a batch have very different magnitudes
    self.scale = 1.0      # magnitude of all inputs
    self.singular = False # matrices whose determinant is taken are singular

  def ld(self, l):
    n = self.z.num(T.ldim(l))
    if not isinstance(n, int) or n < 1 or n > 200:
      raise NoValue('size')
    return n

  # legs -----------------------------------------------------------------------
  def leg(self, l, env):
    if isinstance(l, int):
      return env[l]
    k = l[0]
    if k == 'c':
      return int(self.z.num(l[1]))
    if k == 'a':
      return int(self.z.num(l[2]) + self.z.num(l[3]) * env[l[1]])
    if k == 'm':
      v = 0
      for x, d in l[1]:
        n = self.z.num(d)
        v = v * n + self.leg(x, env) % n
      return v
    if k == 'g':
      return self.gval(l[1], [self.leg(x, env) for x in l[2]])
    raise NoValue('leg')

  def gval(self, i, idx):
    p = T.TC.deft[i]
    if isinstance(p, tuple) and p[0] == 'affg':
      return int(self.z.num(p[2]) + self.z.num(p[3]) * self.gval(p[1], idx))
    return int(round(self.at(p, idx)))

  # atoms ----------------------------------------------------------------------
  def atom(self, a, idx):
    key = (a.key, idx)
    r = self.cache.get(key)
    if r is None:
      r = self._atom(a, idx)
      self.cache[key] = r
    return r

  def _atom(self, a, idx):
    if a.key in self.vals:
      return self.vals[a.key]
    k = a.kind
    if k == 'eye':
      return 1.0 if idx[0] == idx[1] else 0.0
    if k == 'inj':
      off, ln, total = [self.z.num(x) for x in a.par]
      return 1.0 if idx[0] + off == idx[1] else 0.0
    if k == 'size':
      return float(self.z.symval(a.par))
    if k == 'num':
      return float(a.par)
    if k == 'neg1':
      return -1.0
    if k == 'iota':
      return float(idx[0])
    if k in ('in', 'watch', 'gauss', 'unif', 'trunc'):
      if a.par == 'spd':
        return self.spd(a, idx)
      if a.key.startswith('idx'):
        return float(int(h01(self.seed, a.key, idx) * 10 ** 6))
      if a.key in T.TC.below:
        return float(int(h01(self.seed, a.key, idx) * self.z.num(T.TC.below[a.key])))
      v = gauss(self.seed, a.key, idx)
      if k == 'in':
        v *= self.scale
      if self.wide and k == 'in' and idx and a.legdims and _batch(a.legdims[0]):
        v *= 10.0 ** (4 * (1 - idx[0] % 3))
      return abs(v) + 0.05 * self.scale if a.nonneg else v
    if k == 'abs':
      return abs(self.atom(a.par, idx))
    if k == 'sign':
      v = self.atom(a.par, idx)
      return (v > 0) - (v < 0) + 0.0
    if k == 'log':
      v = self.atom(a.par, idx)
      if v == 0 and self.singular:
        return -math.inf
      if v <= 0:
        raise NoValue('log')
      return math.log(v)
    if k == 'logc':
      return math.log(float(a.par))
    if k == 'W':
      return self.at(T.TC.deft[a.par], idx)
    if k == 'fn':
      return self.fn(a, idx)
    if k in ('Q', 'R', 'U', 'S', 'V', 'CH', 'INV', 'det'):
      return self.factor(a, idx)
    raise NoValue(k)

  def spd(self, a, idx):
    b, i, j = idx[:-2], idx[-2], idx[-1]
    n = int(self.z.num(a.legdims[-1]))
    g = [[gauss(self.seed, a.key, b, x, y) for y in range(n)] for x in (i, j)]
    return sum(p * q for p, q in zip(*g)) + (n if i == j else 0)

  def fn(self, a, idx):
    name, i = a.par
    parts = T.TC.deft[i][2]
    extra = T.TC.deft[i][3]
    if a.key.startswith('red_'):
      tt = parts[0]
      red = tt.flat[len(idx):]
      vals = [self.at(tt, idx + c) for c in _box([self.ld(l) for l in red])]
      return {'max': max, 'min': min, 'any': lambda v: float(any(v)), 'all': lambda v: float(all(v))}[name](vals)
    v = [self.at(p, idx) for p in parts]
    try:
      return self.fnval(name, v, extra)
    except (OverflowError, ValueError, ZeroDivisionError):
      raise NoValue(name)

  def fnval(self, name, v, extra):
    x = v[0] if v else None
    if name == 'max':
      return max(v)
    if name == 'min':
      return min(v)
    if name == 'clip':
      return min(max(v[0], v[1]), v[2])
    if name == 'where':
      return v[1] if v[0] else v[2]
    if name == 'cmpLt':
      return float(v[0] < v[1])
    if name == 'cmpLtE':
      return float(v[0] <= v[1])
    if name == 'cmpEq':
      return float(abs(v[0] - v[1]) < 1e-9)
    if name == 'cmpNotEq':
      return float(abs(v[0] - v[1]) >= 1e-9)
    if name == 'floordiv':
      return float(math.floor(v[0] / v[1] + 1e-9))
    if name == 'mod':
      return v[0] - v[1] * math.floor(v[0] / v[1] + 1e-9)
    if name == 'trunc':
      return float(int(x + (1e-9 if x > 0 else -1e-9)))
    if name == 'pow':
      return v[0] ** v[1] if v[0] > 0 else _no('pow')
    if name == 'exp':
      return math.exp(x)
    if name == 'log':
      if x == 0 and self.singular:
        return -math.inf
      return math.log(x) if x > 0 else _no('log')
    if name in ('relu', 'act_relu'):
      return max(x, 0.0)
    if name in ('tanh', 'act_tanh'):
      return math.tanh(x)
    if name in ('sigmoid', 'act_sigmoid'):
      return 1 / (1 + math.exp(-x))
    if name in ('sin', 'cos', 'tan', 'floor', 'ceil'):
      return float(getattr(math, name)(x))
    return gauss(name, extra, tuple('%.6g' % y for y in v))

  def factor(self, a, idx):
    did = a.par[0]
    if a.kind == 'det' and self.singular:
      return 0.0
    kind, A, nb, nr, nc, K, _ = T.TC.deft[did]
    rows = [self.ld(l) for l in A.flat[nb:nb + nr]]
    cols = [self.ld(l) for l in A.flat[nb + nr:]]
    b = idx[:nb]
    f = self.fact.get((did, b))
    if f is None:
      M = [[self.at(A, b + r + c) for c in _box(cols)] for r in _box(rows)]
      f = {'qr': _qr, 'svd': _svd, 'chol': _chol, 'inv': _inv, 'det': _det}[kind](M)
      self.fact[(did, b)] = f
    rest = idx[nb:]
    if a.kind == 'det':
      return f
    if a.kind == 'Q':
      return f[0][_ravel(rest[:nr], rows)][rest[nr]]
    if a.kind == 'R':
      return f[1][rest[0]][_ravel(rest[1:], cols)]
    if a.kind == 'U':
      return f[0][_ravel(rest[:nr], rows)][rest[nr]]
    if a.kind == 'S':
      return f[1][rest[0]]
    if a.kind == 'V':
      return f[2][_ravel(rest[:nc], cols)][rest[nc]]
    return f[_ravel(rest[:nr], rows)][_ravel(rest[nr:], cols)]

  # terms ----------------------------------------------------------------------
  def at(self, t, idx):
    """Value of tensor t at flat label positions idx."""
    if t.top:
      raise NoValue(t.top)
    env = dict(zip(t.flat, idx))
    key = ('at', id(t), tuple(idx))
    r = self.cache.get(key)
    if r is None:
      self.depth += 1
      if self.depth > 60:
        raise NoValue('depth')
      r = [self.term(x, env) for x in t.terms]
      r = sum(r) if self.ieee else math.fsum(r)
      self.depth -= 1
      self.cache[key] = r
    return r

  def term(self, t, env):
    """Sum over bound labels by bucket elimination."""
    if self.vals and any(self.vals.get(a.key) == 0 and T.e_is(e, 1) for a, _, e in t.fs) and \
        not any(a.kind == 'W' for a, _, e in t.fs):
      return 0.0
    tables = []
    c = float(t.coef)
    for a, legs, e in t.fs:
      labs = []
      for l in legs:
        for x in ([l] if isinstance(l, int) else T.leg_labels(l, [])):
          if x not in env and x not in labs:
            labs.append(x)
      ev = float(self.z.num(e))
      ld = [self.z.num(d) for d in a.legdims] if a.legdims is not None else None
      tab = {}
      for pt in _box([self.ld(l) for l in labs]):
        en = dict(env)
        en.update(zip(labs, pt))
        idx = []
        for k, l in enumerate(legs):
          i = self.leg(l, en)
          if ld is not None and k < len(ld) and not isinstance(l, int) and _has_g(l):
            i %= ld[k]
          idx.append(i)
        v = self.atom(a, tuple(idx))
        if ev != 1.0:
          if self.ieee and v == 0 and ev < 0:
            tab[pt] = float('inf')
            continue
          if v == 0 and ev < 0 or v < 0 and ev != int(ev):
            raise NoValue('power')
          v = v ** ev
        tab[pt] = v
      tables.append((tuple(labs), tab))
    todo = list(t.bound)
    while True:
      sc = [x for x in tables if not x[0]]
      for x in sc:
        c *= x[1][()]
      tables = [x for x in tables if x[0]]
      if not tables:
        break
      # cheapest label to eliminate
      best = None
      for l in {l for x in tables for l in x[0]}:
        ls = {y for x in tables if l in x[0] for y in x[0]}
        cost = 1
        for y in ls:
          cost *= self.ld(y)
        if best is None or (cost, l) < best[0]:
          best = ((cost, l), ls)
      (cost, l), ls = best
      if cost > 200000:
        raise NoValue('too large')
      rest = tuple(y for y in ls if y != l)
      use = [x for x in tables if l in x[0]]
      tables = [x for x in tables if l not in x[0]]
      tab = {}
      for pt in _box([self.ld(y) for y in rest]):
        en = dict(zip(rest, pt))
        s = 0.0
        for v in range(self.ld(l)):
          en[l] = v
          p = 1.0
          for labs, tb in use:
            p *= tb[tuple(en[y] for y in labs)]
            if p == 0.0:
              break
          s += p
        tab[pt] = s
      tables.append((rest, tab))
      todo.remove(l)
    for l in todo:
      c *= self.ld(l)
    return c


def _no(x):
  raise NoValue(x)


def _has_g(l):
  if l[0] == 'g':
    return True
  return l[0] == 'm' and any(not isinstance(x, int) and _has_g(x) for x, _ in l[1])


def _box(dims):
  out = [()]
  for d in dims:
    out = [o + (i,) for o in out for i in range(d)]
  return out


def _ravel(idx, dims):
  v = 0
  for i, d in zip(idx, dims):
    v = v * d + i
  return v


def _dot(a, b):
  return sum(x * y for x, y in zip(a, b))


def _orth(vecs, n, k):
  """Extend vecs to k orthonormal vectors of length n."""
  out = list(vecs)
  e = 0
  while len(out) < k:
    v = [1.0 if i == e else 0.1 * math.sin(i + e) for i in range(n)]
    for _ in range(2):
      for u in out:
        s = _dot(u, v)
        v = [x - s * y for x, y in zip(v, u)]
    nv = math.sqrt(_dot(v, v))
    e += 1
    if nv > 1e-6:
      out.append([x / nv for x in v])
    if e > 10 * n + 10:
      raise NoValue('orth')
  return out


def _qr(M):
  n, m = len(M), len(M[0])
  K = min(n, m)
  q = []
  cols = [[M[i][j] for i in range(n)] for j in range(m)]
  scale = max([abs(x) for r in M for x in r] + [1e-30])
  for j in range(K):
    v = cols[j]
    for _ in range(2):
      for u in q:
        s = _dot(u, v)
        v = [x - s * y for x, y in zip(v, u)]
    nv = math.sqrt(_dot(v, v))
    if nv < 1e-9 * scale:
      q = _orth(q, n, len(q) + 1)
    else:
      q.append([x / nv for x in v])
  Q = [[q[k][i] for k in range(K)] for i in range(n)]
  R = [[_dot(q[k], cols[j]) if j >= k else 0.0 for j in range(m)] for k in range(K)]
  return Q, R


def _svd(M):
  n, m = len(M), len(M[0])
  if n < m:
    U, S, V = _svd([[M[i][j] for i in range(n)] for j in range(m)])
    return V, S, U
  a = [[M[i][j] for i in range(n)] for j in range(m)]      # columns
  v = [[1.0 if i == j else 0.0 for i in range(m)] for j in range(m)]
  for _ in range(60):
    off = 0.0
    for p in range(m):
      for q in range(p + 1, m):
        al, be, ga = _dot(a[p], a[p]), _dot(a[q], a[q]), _dot(a[p], a[q])
        if abs(ga) <= 1e-15 * math.sqrt(al * be) or ga == 0:
          continue
        off = max(off, abs(ga))
        z = (be - al) / (2 * ga)
        t = (1 if z >= 0 else -1) / (abs(z) + math.sqrt(1 + z * z))
        c = 1 / math.sqrt(1 + t * t)
        s = c * t
        a[p], a[q] = [c * x - s * y for x, y in zip(a[p], a[q])], [s * x + c * y for x, y in zip(a[p], a[q])]
        v[p], v[q] = [c * x - s * y for x, y in zip(v[p], v[q])], [s * x + c * y for x, y in zip(v[p], v[q])]
    if off == 0.0:
      break
  sv = [math.sqrt(_dot(c, c)) for c in a]
  order = sorted(range(m), key=lambda k: -sv[k])
  top = max(sv + [1e-300])
  u = []
  S, V = [], []
  for k in order:
    S.append(sv[k])
    V.append(v[k])
    if sv[k] > 1e-10 * top:
      w = [x / sv[k] for x in a[k]]
      # fix the sign by the largest entry
      j = max(range(n), key=lambda i: (round(abs(w[i]), 9), -i))
      if w[j] < 0:
        w = [-x for x in w]
        V[-1] = [-x for x in V[-1]]
      u.append(w)
  u = _orth(u, n, m)
  return [[u[k][i] for k in range(m)] for i in range(n)], S, [[V[k][i] for k in range(m)] for i in range(m)]


def _chol(M):
  n = len(M)
  L = [[0.0] * n for _ in range(n)]
  for i in range(n):
    for j in range(i + 1):
      s = M[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
      if i == j:
        if s <= 0:
          raise NoValue('not positive definite')
        L[i][i] = math.sqrt(s)
      else:
        L[i][j] = s / L[j][j]
  return L


def _inv(M):
  n = len(M)
  a = [list(r) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
  for i in range(n):
    p = max(range(i, n), key=lambda r: abs(a[r][i]))
    if abs(a[p][i]) < 1e-12:
      raise NoValue('singular')
    a[i], a[p] = a[p], a[i]
    d = a[i][i]
    a[i] = [x / d for x in a[i]]
    for r in range(n):
      if r != i and a[r][i]:
        f = a[r][i]
        a[r] = [x - f * y for x, y in zip(a[r], a[i])]
  return [r[n:] for r in a]


def _det(M):
  a = [list(r) for r in M]
  n = len(a)
  d = 1.0
  for i in range(n):
    p = max(range(i, n), key=lambda r: abs(a[r][i]))
    if a[p][i] == 0:
      return 0.0
    if p != i:
      a[i], a[p] = a[p], a[i]
      d = -d
    d *= a[i][i]
    for r in range(i + 1, n):
      f = a[r][i] / a[i][i]
      a[r] = [x - f * y for x, y in zip(a[r], a[i])]
  return d


def _unflat(lin, dims):
  out = []
  for d in reversed(dims):
    out.append(lin % d)
    lin //= d
  return tuple(reversed(out))


def _batch(d):
  return isinstance(d, Dim) and any((D.CTX.owner.get(s) or ('',))[0] == 'batch' for s in d.syms())


def switches(t, depth=0):
  """Piecewise functions (max, where, ...) occur in t."""
  for x in t.terms:
    for a, _, _ in x.fs:
      while a.kind in ('abs', 'sign', 'log'):
        a = a.par
      if a.kind == 'fn':
        if a.par[0] in ('max', 'min', 'where', 'clip'):
          return True
        if depth < 5 and any(switches(y, depth + 1) for y in T.TC.deft[a.par[1]][2]):
          return True
      if a.kind == 'W' and depth < 5 and switches(T.TC.deft[a.par], depth + 1):
        return True
  return False


def _tests():
  """Decided facts about data that the current partition rests on."""
  return [(kind, t, D.CTX.facts[key]) for key, (kind, t) in sorted(T.TC.tests.items())
          if key in D.CTX.facts]


def _scalars(t, out, depth=0):
  """Keys of the scalar inputs t is computed from."""
  for x in t.terms:
    for a, _, _ in x.fs:
      while a.kind in ('abs', 'sign', 'log'):
        a = a.par
      if a.kind == 'in' and not a.legdims:
        out.add(a.key)
      elif depth < 5 and a.kind == 'W':
        _scalars(T.TC.deft[a.par], out, depth + 1)
      elif depth < 5 and a.kind == 'fn':
        for y in T.TC.deft[a.par[1]][2]:
          _scalars(y, out, depth + 1)


def _holds(ev, tests):
  for kind, t, val in tests:
    v = ev.at(t, (0,) * len(t.flat))
    if (v < 0 if kind == 'lt' else v == 0 if kind == 'eq' else v != 0) != val:
      return False
  return True


def _sample(seed, k, wide=False):
  """An evaluation whose data satisfy the facts of the partition, or None;
  False when the facts could be evaluated but not satisfied."""
  z = Sizes(seed * 1000 + k)
  if not z.fit():
    return None
  tests = _tests()
  if not tests:
    ev = Eval(z, (seed, k))
    ev.wide = wide
    return ev
  names = set()
  for _, t, _ in tests:
    _scalars(t, names)
  res = None
  for n in range(80):
    ev = Eval(z, (seed, k, n))
    ev.wide = wide
    rng = random.Random(1000 * k + n)
    if n >= 20:
      ev.vals = {a: float(rng.choice((0, 1, -1, 2, -2, 0.5, 1e-8, 1e8))) for a in sorted(names) if rng.random() < 0.8}
    if n % 4 == 3:
      ev.scale = rng.choice((0.0, 1e-7, 1e-3, 1e3, 1e7))
    try:
      if _holds(ev, tests):
        return ev
      res = False
    except (NoValue, OverflowError, ZeroDivisionError, KeyError, IndexError, RecursionError):
      continue
  return res


def feasible():
  """Some sizes satisfy the facts of the current partition."""
  return Sizes(7).fit(4000) and _sample(7, 0) is not False


def differ(a, b, seed=1, rounds=3, points=24):
  """True: the values differ at a sample point.  False: they agree everywhere
  sampled.  None: no sample could be evaluated."""
  seen = False
  for k in range(rounds + (5 if switches(a) or switches(b) else 0)):
    try:
      ev = _sample(seed, k, rounds <= k < rounds + 2)
      if not ev:
        continue
      if k == rounds + 4:
        ev.singular = True
      elif k >= rounds + 2 and not _tests():
        ev.scale = 1e-3 if k % 2 else 1e3
      da = [ev.ld(l) for l in a.flat]
      db = [ev.ld(l) for l in b.flat]
      na = nb = 1
      for d in da:
        na *= d
      for d in db:
        nb *= d
      if na != nb:
        return None
      rng = random.Random(k)
      lins = range(na) if na <= points else sorted(rng.sample(range(na), points))
      vals = []
      for lin in lins:
        x, y = ev.at(a, _unflat(lin, da)), ev.at(b, _unflat(lin, db))
        if x != x or y != y:
          continue
        if ev.singular:
          if x != y and (math.isinf(x) or math.isinf(y)):
            return True
          continue
        seen = True
        vals.append((x, y))
      if ev.scale != 1.0:
        top = max([max(abs(x), abs(y)) for x, y in vals] + [1e-300])
        if any(abs(x - y) > 1e-4 * top for x, y in vals):
          return True
        continue
      for x, y in vals:
        if abs(x - y) > (1e-4 * max(abs(x), abs(y), 1e-12) if ev.wide else 1e-5 * max(1.0, abs(x), abs(y))):
          return True
    except (NoValue, OverflowError, ZeroDivisionError, KeyError, IndexError, RecursionError):
      continue
  return False if seen else None


def at_values(t, vals, seed=1):
  """Value of a scalar term when the named atoms have the given values."""
  z = Sizes(seed)
  if not z.fit():
    return None
  ev = Eval(z, (seed, 0))
  ev.vals = dict(vals)
  ev.ieee = True
  try:
    return ev.at(t, ())
  except (NoValue, OverflowError, KeyError, IndexError, RecursionError):
    return None
  except ZeroDivisionError:
    return float('nan')
