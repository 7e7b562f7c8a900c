"""Symbolic sizes: Laurent polynomials with rational coefficients over symbols.

A symbol stands for an arbitrary integer >= its lower bound.  Opaque symbols
stand for min(...) and floor quotients of other sizes.  Constants are plain
Python ints / Fractions (normalised by `mk`).
"""
from fractions import Fraction
from functools import lru_cache


class SizeCtx(object):
  """Per-context facts about size symbols."""

  def __init__(self):
    self.lb = {}            # symbol -> lower bound
    self.opaque = {}        # symbol -> ('min', args) | ('floordiv', a, b)
    self.le = []            # list of (a, b): a <= b assumed
    self.subst = {}         # symbol -> value (identification of sizes)
    self.facts = {}         # comparison key -> bool
    self.owner = {}         # symbol -> class tag ('mode', core idx) etc.
    self.dynamic = set()    # symbols without a static value
    self.dyn_tags = ()      # owner classes that have no static value
    self.dyn_pick = None    # or which (name, owner) have none
    self.conds = []         # (kind, a, b, truth) behind facts


class NeedSplit(Exception):
  """The analysis needs a fact; the driver partitions the context."""

  def __init__(self, key, kind, payload):
    Exception.__init__(self, key)
    self.key = key
    self.kind = kind
    self.payload = payload


CTX = SizeCtx()


def set_ctx(c):
  global CTX
  CTX = c
  _lbcache.clear()


_lbcache = {}


class Dim(object):
  __slots__ = ('p', '_h')

  def __init__(self, p):
    self.p = p              # dict: monomial (tuple of (sym, exp)) -> Fraction/int
    self._h = None

  def __hash__(self):
    if self._h is None:
      self._h = hash(frozenset(self.p.items()))
    return self._h

  def same(self, o):
    return isinstance(o, Dim) and self.p == o.p

  def __eq__(self, o):      # structural
    return isinstance(o, Dim) and self.p == o.p

  def __ne__(self, o):
    return not self == o

  def __repr__(self):
    return show(self)

  def syms(self):
    s = set()
    for m in self.p:
      for v, _ in m:
        s.add(v)
    return s


def show(x):
  if not isinstance(x, Dim):
    return str(x)
  parts = []
  for m in sorted(x.p):
    c = x.p[m]
    f = []
    for v, e in m:
      f.append(v if e == 1 else '%s^%s' % (v, e))
    s = '*'.join(f)
    if not s:
      parts.append(str(c))
    elif c == 1:
      parts.append(s)
    else:
      parts.append('%s*%s' % (c, s))
  return '+'.join(parts) if parts else '0'


def _norm_c(c):
  if isinstance(c, Fraction) and c.denominator == 1:
    return int(c)
  return c


def mk(p):
  q = {}
  for m, c in p.items():
    if c != 0:
      q[m] = _norm_c(c)
  if not q:
    return 0
  if len(q) == 1 and () in q:
    return q[()]
  return Dim(q)


def poly(x):
  if isinstance(x, Dim):
    return x.p
  if isinstance(x, bool):
    x = int(x)
  return {(): x} if x != 0 else {}


def sym(name, lb=2, owner=None):
  if name in CTX.subst:
    return CTX.subst[name]
  CTX.lb.setdefault(name, lb)
  if owner is not None:
    CTX.owner[name] = owner
    if owner[0] in CTX.dyn_tags or CTX.dyn_pick is not None and CTX.dyn_pick(name, owner):
      CTX.dynamic.add(name)
  return Dim({((name, 1),): 1})


def is_const(x):
  return not isinstance(x, Dim)


def add(a, b):
  if not isinstance(a, Dim) and not isinstance(b, Dim):
    return _norm_c(a + b)
  q = dict(poly(a))
  for m, c in poly(b).items():
    q[m] = q.get(m, 0) + c
  return mk(q)


def neg(a):
  if not isinstance(a, Dim):
    return -a
  return Dim({m: -c for m, c in a.p.items()})


def sub(a, b):
  return add(a, neg(b))


def _mulmono(m1, m2):
  if not m1:
    return m2
  if not m2:
    return m1
  d = dict(m1)
  for v, e in m2:
    n = d.get(v, 0) + e
    if n == 0:
      d.pop(v, None)
    else:
      d[v] = n
  return tuple(sorted(d.items()))


def mul(a, b):
  if not isinstance(a, Dim) and not isinstance(b, Dim):
    return _norm_c(a * b)
  q = {}
  for m1, c1 in poly(a).items():
    for m2, c2 in poly(b).items():
      m = _mulmono(m1, m2)
      q[m] = q.get(m, 0) + c1 * c2
  return mk(q)


def prod(xs):
  r = 1
  for x in xs:
    r = mul(r, x)
  return r


def powi(a, n):
  r = 1
  for _ in range(n):
    r = mul(r, a)
  return r


def divexact(a, b):
  """a / b as a Laurent polynomial, or None when not representable."""
  if not isinstance(b, Dim):
    if b == 0:
      return None
    return mk({m: Fraction(c) / b for m, c in poly(a).items()})
  if a == b:
    return 1
  if len(b.p) == 1:
    (m, c), = b.p.items()
    inv = tuple((v, -e) for v, e in m)
    return mk({_mulmono(k, inv): Fraction(x) / c for k, x in poly(a).items()})
  # multivariate exact division by leading-term elimination
  rem = dict(poly(a))
  quo = {}
  bl = max(b.p)
  bc = b.p[bl]
  for _ in range(200):
    if not rem:
      return mk(quo)
    ml = max(rem)
    t = _mulmono(ml, tuple((v, -e) for v, e in bl))
    if any(e < 0 for _, e in t):
      return None
    tc = Fraction(rem[ml]) / bc
    quo[t] = quo.get(t, 0) + tc
    for m, c in b.p.items():
      k = _mulmono(m, t)
      rem[k] = rem.get(k, 0) - tc * c
      if rem[k] == 0:
        del rem[k]
  return None


def is_integral(a):
  """Polynomial with integer coefficients and non-negative exponents."""
  return all(isinstance(c, int) or c.denominator == 1 for c in poly(a).values()) and \
      all(e > 0 for m in poly(a) for _, e in m)


def opaque(kind, args):
  name = '%s(%s)' % (kind, ','.join(show(a) for a in args))
  if name not in CTX.lb:
    CTX.opaque[name] = (kind,) + tuple(args)
    if kind == 'min':
      CTX.lb[name] = min(lower(a) for a in args)
    elif kind == 'max':
      CTX.lb[name] = max(lower(a) for a in args)
    else:
      CTX.lb[name] = 0
  return Dim({((name, 1),): 1})


def lower(a):
  """A lower bound of a (constant) by shifting every symbol to its bound."""
  if not isinstance(a, Dim):
    return a
  r = _lbcache.get(a)
  if r is not None:
    return r
  r = _lower(a)
  _lbcache[a] = r
  return r


def _lower(a):
  # substitute v = lb + y, y >= 0; if all coefficients of non-constant
  # monomials are >= 0, the constant coefficient is a lower bound.
  res = {(): 0}
  out = {}
  for m, c in a.p.items():
    cur = {(): c}
    for v, e in m:
      lb = CTX.lb.get(v, 1)
      if not isinstance(e, int) or e < 0:
        if c > 0:
          cur = {(): 0}     # positive term, bounded below by 0
          break
        return float('-inf')
      for _ in range(e):
        nxt = {}
        for k, x in cur.items():
          nxt[k] = nxt.get(k, 0) + x * lb
          kk = _mulmono(k, ((v, 1),))
          nxt[kk] = nxt.get(kk, 0) + x
        cur = nxt
    for k, x in cur.items():
      out[k] = out.get(k, 0) + x
  for k, x in out.items():
    if k and x < 0:
      return float('-inf')
  return out.get((), 0)


# Sizes, ranks and products of them are taken to fit a 32-bit integer.
INT_MAX = 2 ** 31 - 1


def nonneg(a, depth=0):
  """True when a >= 0 is provable."""
  if lower(a) >= 0:
    return True
  if isinstance(a, Dim) and a.p.get((), 0) >= INT_MAX - 1:
    return True
  if depth >= 2 or not isinstance(a, Dim):
    return False
  # use a <= b facts: a_diff = a - (fb - fa) >= 0 suffices
  cands = list(CTX.le)
  for s in a.syms():
    o = CTX.opaque.get(s)
    if o and o[0] == 'min':
      me = Dim({((s, 1),): 1})
      cands += [(me, x) for x in o[1:]]
    if o and o[0] == 'max':
      me = Dim({((s, 1),): 1})
      cands += [(x, me) for x in o[1:]]
  for fa, fb in cands:
    d = sub(fb, fa)
    if isinstance(d, Dim) and not (d.syms() & a.syms()):
      continue
    if nonneg(sub(a, d), depth + 1):
      return True
  return False


def _primitive(d):
  """d without its common monomial factor (symbols are positive)."""
  if not isinstance(d, Dim) or () in d.p:
    return d
  com = None
  for m in d.p:
    dm = {v: e for v, e in m if CTX.lb.get(v, 1) >= 1 and isinstance(e, int) and e > 0}
    com = dm if com is None else {v: min(e, dm[v]) for v, e in com.items() if v in dm}
    if not com:
      return d
  q = {}
  for m, c in d.p.items():
    q[tuple((v, e - com.get(v, 0)) for v, e in m if e != com.get(v, 0))] = c
  return mk(q)


def cmp_eq(a, b):
  """True / False / None."""
  d = sub(a, b)
  if not isinstance(d, Dim):
    return d == 0
  d = _primitive(d)
  if not isinstance(d, Dim):
    return d == 0
  if lower(d) > 0 or lower(neg(d)) > 0:
    return False
  if nonneg(sub(d, 1)) or nonneg(sub(neg(d), 1)):
    return False
  return None


def cmp_lt(a, b):
  d = sub(b, a)
  if not isinstance(d, Dim):
    return d > 0
  d = _primitive(d)
  if not isinstance(d, Dim):
    return d > 0
  if nonneg(sub(d, 1)):
    return True
  if nonneg(neg(d)):
    return False
  return None


def cmp_le(a, b):
  r = cmp_lt(b, a)
  return None if r is None else (not r)


def _eqkey(a, b):
  d = _primitive(sub(a, b))
  k1, k2 = show(d), show(neg(d))
  return '%s==0' % min(k1, k2)


def decide_eq(a, b):
  r = cmp_eq(a, b)
  if r is not None:
    return r
  k = _eqkey(a, b)
  if k in CTX.facts:
    return CTX.facts[k]
  _resolve(sub(a, b))
  raise NeedSplit(k, 'eq', (a, b))


def decide_lt(a, b):
  r = cmp_lt(a, b)
  if r is not None:
    return r
  k = '%s<%s' % (show(a), show(b))
  if k in CTX.facts:
    return CTX.facts[k]
  _resolve(sub(a, b))
  raise NeedSplit(k, 'lt', (a, b))


def _resolve(d):
  """Partition on which argument of a min/max inside d is attained."""
  for s in sorted(d.syms(), key=lambda s: (len(s), s)):
    o = CTX.opaque.get(s)
    if o is None or o[0] not in ('min', 'max'):
      continue
    for x in o[1:]:
      for y in o[1:]:
        if x is not y and show(x) < show(y):
          dd = sub(y, x)
          if isinstance(dd, Dim) and not nonneg(dd) and not nonneg(neg(dd)):
            if isinstance(dd, Dim) and any(v in CTX.opaque for v in dd.syms()):
              _resolve(dd)
            k = '%s<%s' % (show(x), show(y))
            if k not in CTX.facts:
              raise NeedSplit(k, 'lt', (x, y))


def has_opaque(a):
  return isinstance(a, Dim) and any(s in CTX.opaque for s in a.syms())


def same(a, b):
  """Sizes agree?  Structural for plain symbols (they are generic); sizes that
  involve min/quotients are decided by facts."""
  if a == b:
    return True
  if has_opaque(a) or has_opaque(b):
    return decide_eq(a, b)
  if CTX.le or CTX.facts:
    r = cmp_eq(a, b)
    if r is None and CTX.facts.get(_eqkey(a, b)):
      return True
  return False


def minimum(*args):
  xs = []
  for a in args:
    if isinstance(a, Dim) and len(a.p) == 1:
      (m, c), = a.p.items()
      if c == 1 and len(m) == 1 and m[0][1] == 1:
        o = CTX.opaque.get(m[0][0])
        if o and o[0] == 'min':
          xs += list(o[1:])
          continue
    xs.append(a)
  keep = []
  for i, x in enumerate(xs):
    drop = False
    for j, y in enumerate(xs):
      if i == j:
        continue
      if x == y:
        if j < i:
          drop = True
      elif nonneg(sub(x, y)) and not (nonneg(sub(y, x)) and j > i):
        drop = True
      if drop:
        break
    if not drop:
      keep.append(x)
  if len(keep) == 1:
    return keep[0]
  keep.sort(key=show)
  return opaque('min', keep)


def maximum(*args):
  keep = []
  for i, x in enumerate(args):
    drop = False
    for j, y in enumerate(args):
      if i == j:
        continue
      if x == y:
        drop = j < i
      elif nonneg(sub(y, x)):
        drop = not (nonneg(sub(x, y)) and j > i)
      if drop:
        break
    if not drop:
      keep.append(x)
  if len(keep) == 1:
    return keep[0]
  keep.sort(key=show)
  return opaque('max', keep)


def floordiv(a, b):
  if not isinstance(a, Dim) and not isinstance(b, Dim):
    return a // b
  q = divexact(a, b)
  if q is not None and is_integral(q):
    return q
  if isinstance(a, Dim) and not isinstance(b, Dim) and b > 0:
    # separate the part divisible by b
    div = {m: c for m, c in a.p.items() if c % b == 0 and all(e > 0 for _, e in m)}
    rest = {m: c for m, c in a.p.items() if m not in div}
    rr = mk(rest)
    if not isinstance(rr, Dim):
      return add(mk({m: c // b for m, c in div.items()}), rr // b)
  return opaque('floordiv', (a, b))


def mod(a, b):
  if not isinstance(a, Dim) and not isinstance(b, Dim):
    return a % b
  return sub(a, mul(b, floordiv(a, b)))


def solve(a, b):
  """Solve a == b for a plain symbol with unit coefficient: (sym, value)."""
  d = sub(a, b)
  if not isinstance(d, Dim):
    return None
  best = None
  for m, c in d.p.items():
    if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
      s = m[0][0]
      if s in CTX.opaque:
        continue
      rest = mk({k: -x * c for k, x in d.p.items() if k != m})
      if isinstance(rest, Dim) and s in rest.syms():
        continue
      if not isinstance(rest, Dim):
        if rest < CTX.lb.get(s, 1) or not isinstance(rest, int):
          continue
      elif lower(rest) < CTX.lb.get(s, 1):
        continue
      cand = (s, rest)
      if best is None or s > best[0]:
        best = cand
  return best


def subst(x, sub_):
  if not isinstance(x, Dim):
    return x
  r = 0
  for m, c in x.p.items():
    t = c
    for v, e in m:
      if v in sub_:
        val = sub_[v]
      else:
        val = Dim({((v, 1),): 1})
      if isinstance(e, int) and e > 0:
        t = mul(t, powi(val, e))
      else:
        t = mul(t, Dim({((v, e),): 1}))
    r = add(r, t)
  return r


def key(x):
  return show(x)


def contradictory():
  """True if the assumed inequalities exclude each other: a cycle a <= ... < a in
  the graph of differences, with divisibility of monomials and lower bounds."""
  nodes = {}
  edges = []

  def node(x):
    p = dict(poly(x))
    c = p.pop((), 0)
    k = frozenset(p.items())
    nodes.setdefault(k, p)
    return k, c
  for a, b in CTX.le:
    (ka, ca), (kb, cb) = node(a), node(b)
    edges.append((ka, kb, cb - ca))         # a' - b' <= cb - ca
  if len(edges) < 2:
    return False
  zero, _ = node(0)
  ks = list(nodes)
  mono = {k: dict(list(nodes[k])[0]) for k in ks if len(nodes[k]) == 1 and list(nodes[k].values()) == [1]}
  for k in ks:
    if k in mono and all(e >= 0 for e in mono[k].values()):
      lo = 1
      for s, e in mono[k].items():
        lo *= max(0, CTX.lb.get(s, 0)) ** e
      edges.append((zero, k, -lo))          # 0 - k <= -lower bound
      for j in ks:
        if j != k and j in mono and all(mono[k].get(s, 0) >= e >= 0 for s, e in mono[j].items()) and \
            all(CTX.lb.get(s, 0) >= 1 for s in mono[k]):
          edges.append((j, k, 0))           # a divisor is not larger
  dist = {k: 0 for k in ks}
  for i in range(len(ks) + 1):
    changed = False
    for a, b, w in edges:
      # a - b <= w
      if dist[b] + w < dist[a]:
        dist[a] = dist[b] + w
        changed = True
    if not changed:
      return False
  return True
