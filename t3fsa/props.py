"""Which obligations decide which property."""
import ast
import glob
import os
import warnings

from . import cases as C
from . import cases_decomp  # noqa
from . import cases_riem  # noqa
from . import cases_kron  # noqa
from . import cases_init  # noqa
from . import cases_valid  # noqa
from . import cases_misc  # noqa
from .driver import Ob, REPO
from .rules import RULES
from . import names  # noqa: registers its rule


# Properties whose operands may be large or kept in variables.
LONG = {'C01': (5, 6, 8), 'C02': (5, 6, 8), 'C03': (5, 6, 8), 'C04': (5, 6), 'C05': (5, 6), 'C06': (5, 6), 'C07': (5, 6),
        'C08': (5, 6), 'C13': (5,), 'C14': (5,), 'C15': (5,), 'C16': (5,), 'C17': (5,), 'C18': (5, 6), 'C19': (5, 6), 'C20': (5, 6),
        'C22': (5, 6), 'C28': (5, 6)}
STORED = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C27', 'C28'}


def thresholds():
  """Integers in the bodies of functions that a number of cores may be compared with."""
  global _THRESHOLDS
  if _THRESHOLDS is None:
    out = set()
    for path in sorted(glob.glob(os.path.join(REPO, 't3f', '*.py'))):
      if path.endswith('_test.py'):
        continue
      try:
        with open(path) as f:
          with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(f.read())
      except SyntaxError:
        continue
      for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
          for s in fn.body if isinstance(fn.body, list) else [fn.body]:
            out |= {n.value for n in ast.walk(s) if isinstance(n, ast.Constant) and type(n.value) is int and 4 < n.value <= 16}
    _THRESHOLDS = tuple(sorted(out))[:4]
  return _THRESHOLDS


_THRESHOLDS = None


def beyond(c, ks, top, seen):
  """Contexts with as many cores (or summands) as constants of the source mention, and one more."""
  out = []
  for v in thresholds():
    for d in (v, v + 1):
      for k in ks:
        if k.d == top and c.props[0] in LONG:
          out.append(C.K(**dict(k.kw, d=d)))
        if k.get('num') and k.d == 2:
          out.append(C.K(**dict(k.kw, num=d)))
  return [q for q in out if str(q) not in seen and not seen.add(str(q))]


def deeper(c):
  """Contexts judged by the oracle only: more cores than usual, and operands kept in variables."""
  ks = [k for k in c.contexts if k.get('d') and not k.get('ones') and k.get('same') is None and k.get('pat') is None]
  out = list(c.deep)
  if not ks or c.name == 'default dtype':
    return out
  seen = set(map(str, c.contexts + out))
  top = max(k.d for k in ks if k.d <= 3)
  for d in (4,) + LONG.get(c.props[0], ()) if c.props[0] in LONG else ():
    for k in ks:
      q = C.K(**dict(k.kw, d=d))
      if k.d == top and str(q) not in seen:
        out.append(q)
  out += beyond(c, ks, top, seen | set(map(str, out)))
  if c.props[0] in STORED:
    out += [C.K(**dict(k.kw, store='var')) for k in ks if k.d in (2, 3) and not (c.props[0] in ('C09', 'C27') and (k.d > 2 or k.get('num', 0) > 3))]
  return out


def value_obs(prop, tier):
  """The oracle of every case that belongs to the property."""
  out = []
  for c in C.CASES:
    if prop not in c.props:
      continue
    for k in c.contexts + deeper(c) + (c.more if tier == 'thorough' else []):
      def fn(W, c=c, k=k):
        W.store = k.get('store')
        run = c.fn(W, k)
        if run is not None:          # otherwise the case has judged by itself
          run.oracle(run.call(W))
      out.append(Ob(prop, '%s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
      if c.graph:
        out.append(Ob(prop, '%s [%s] traced' % (c.name, k), fn, eager=False, setup=c.setup))
  return out




def obligations(prop, tier='quick'):
  obs = value_obs(prop, tier)
  if prop in RULES:
    obs += RULES[prop](tier)
  return obs


def properties():
  ids = set(RULES)
  for c in C.CASES:
    ids.update(c.props)
  return sorted(ids)
