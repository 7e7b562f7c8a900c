"""Cross-cutting rules: the catalogued calls re-analysed under one rule each."""
from fractions import Fraction

from . import dim as D
from . import term as T
from . import tensor as X
from . import spec as S
from . import cases as C
from . import cost
from . import tfmodel as TFM
from .values import *  # noqa
from .lib import dynamic, is_float, GENERIC, GENERIC2, DT
from .driver import Ob

RULES = {}


def rule(prop):
  def deco(fn):
    RULES[prop] = fn
    return fn
  return deco


def cross(tier):
  """(case, context) pairs that cross-cutting rules look at."""
  for c in C.CASES:
    if c.cross:
      for k in c.contexts + (c.more if tier == 'thorough' else []):
        yield c, k


# -- C21: valid arguments are never rejected ---------------------------------------

@rule('C21')
def accepted(tier):
  obs = []
  for c, k in cross(tier):
    if not set(c.props) & {'C19', 'C20'}:
      continue

    def fn(W, c=c, k=k):
      run = c.fn(W, k)
      if run is not None:
        W.checked += 1
        run.call(W)
    obs.append(Ob('C21', 'valid arguments: %s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
  return obs


# -- C31: batch size unknown while tracing ---------------------------------------

def unknown_batch(ctx):
  ctx.dyn_tags = ('batch',)


@rule('C31')
def dynamic_batch(tier):
  obs = []
  for c, k in cross(tier):
    if not batched(k):
      continue

    def fn(W, c=c, k=k):
      run = c.fn(W, k)
      if run is not None:
        run.oracle(run.call(W))
    obs.append(Ob('C31', '%s [%s]' % (c.name, k), fn, eager=False, setup=unknown_batch))
  return obs


def batched(k):
  """The context has an operand whose batch size is a symbol."""
  for v in k.kw.values():
    if v in ('B', 'C') or isinstance(v, tuple) and ('B' in v or 'C' in v):
      return True
  return False


# -- C32: any size unknown while tracing -------------------------------------------

NEED_STATIC = (      # these need sizes while tracing
    'flat_inner with sparse matrix', 'approximate.reduce_sum_batch', 'deltas of a projection', 'tangent_space_to_deltas',
    'gradients', 'hessian_vector_product', 'ones_like and zeros_like')


def unknown_sizes(ctx):
  ctx.dyn_tags = ('batch', 'mode', 'rank')


@rule('C32')
def dynamic_sizes(tier):
  obs = []
  for c, k in cross(tier):
    if c.name in NEED_STATIC or not c.eager or set(c.props) & set(STATIC_PROPS):
      continue

    def fn(W, c=c, k=k):
      run = c.fn(W, k)
      if run is not None:
        run.oracle(run.call(W))
    obs.append(Ob('C32', '%s [%s]' % (c.name, k), fn, eager=False, setup=unknown_sizes))
    if k.get('d') in (2, 3) and k.get('ones', '') in ('', 'e') and not k.get('same'):
      for what, pick in PARTLY:
        def setup(ctx, pick=pick):
          ctx.dyn_pick = pick
        obs.append(Ob('C32', '%s [%s] %s' % (c.name, k, what), fn, eager=False, setup=setup))
  return obs


# some sizes are known while tracing, others are not
PARTLY = [
    ('columns and odd ranks unknown', lambda name, owner: owner[0] == 'mode' and name[0] == 'm' or owner[0] == 'rank' and owner[1] % 2),
    ('first mode and ranks of one operand unknown', lambda name, owner: owner == ('mode', 0) or name.startswith('rA')),
    ('last modes, other ranks and batch sizes unknown', lambda name, owner: owner[0] == 'batch' or owner[0] == 'mode' and owner[1] or
     owner[0] == 'rank' and not name.startswith('rA'))]


STATIC_PROPS = ('C19', 'C20', 'C21', 'C22', 'C23', 'C11')     # sizes are arguments there


# -- C10: reported metadata ----------------------------------------------------

def tt_values(W, v, what='result', seen=None):
  """The TT-objects inside a returned value."""
  if S.is_tt(W, v):
    yield v, what
  elif isinstance(v, (list, tuple)):
    for i, x in enumerate(v):
      for y in tt_values(W, x, '%s[%d]' % (what, i)):
        yield y
  elif isinstance(v, dict):
    for i, x in v.items():
      for y in tt_values(W, x, '%s[%r]' % (what, i)):
        yield y


def _static(W, got, true, what):
  """A size known before running: None only if it is not known."""
  W.checked += 1
  if got is None:
    if not dynamic(true):
      W.bad('%s is reported as unknown, but it is %s' % (what, D.show(true)))
    return
  if isinstance(got, Arr) and got.shape == () and got.flavor != 'tf':
    got = got.data[0]
  if isinstance(got, bool) or not isinstance(got, (int, D.Dim)):
    W.bad('%s is a %s, not a number' % (what, W.I.typename(got)))
  if not D.same(got, true):
    W.bad('%s is reported as %s, but the cores have %s' % (what, D.show(got), D.show(true)))


def _tshape(W, got, true, what):
  if not isinstance(got, TShape):
    W.bad('%s is a %s, not a TensorShape' % (what, W.I.typename(got)))
  if got.dims is None or len(got.dims) != len(true):
    W.bad('%s is reported as %r, but the cores have (%s)' % (what, got, ', '.join(map(D.show, true))))
  for i, (a, b) in enumerate(zip(got.dims, true)):
    _static(W, a, b, '%s[%d]' % (what, i))


def _dynamic(W, got, true, what):
  """An integer tensor (or array) holding the given sizes."""
  flat = true if not isinstance(true[0] if true else None, list) else [x for r in true for x in r]
  dims = [len(true)] if flat is true else [len(true), len(true[0])]
  W.same(got, X.from_elements(tuple(dims), [X.scalar(x) for x in flat], None), what, dtype=False)


def report(W, inst, what='result'):
  """The metadata of a TT-object agrees with its cores."""
  cores, mat, b = S.wellformed(W, inst, what)
  o = 1 if b else 0
  d = len(cores)
  rows = [c.shape[o + 1] for c in cores]
  cols = [c.shape[o + 2] for c in cores] if mat else None
  ranks = [c.shape[o] for c in cores] + [cores[-1].shape[-1]]
  raw = [rows] + ([cols] if mat else [])
  dense = ([cores[0].shape[0]] if b else []) + ([D.prod(rows), D.prod(cols)] if mat else rows)
  _static(W, W.method(inst, 'ndims'), d, what + '.ndims()')
  W.need(W.I.truth(W.method(inst, 'is_tt_matrix')) == mat, '%s.is_tt_matrix() is wrong' % what)
  got = W.method(inst, 'get_raw_shape')
  if not isinstance(got, (list, tuple)) or len(got) != len(raw):
    W.bad('%s.get_raw_shape() does not have %d entries' % (what, len(raw)))
  for i, (g, w) in enumerate(zip(got, raw)):
    _tshape(W, g, w, '%s.get_raw_shape()[%d]' % (what, i))
  _tshape(W, W.method(inst, 'get_shape'), dense, what + '.get_shape()')
  _tshape(W, W.method(inst, 'get_tt_ranks'), ranks, what + '.get_tt_ranks()')
  _static(W, W.attr(inst, 'left_tt_rank_dim'), o, what + '.left_tt_rank_dim')
  _static(W, W.attr(inst, 'right_tt_rank_dim'), cores[0].rank - 1, what + '.right_tt_rank_dim')
  W.need(all(X.same_dtype(c.dtype, cores[0].dtype) for c in cores), '%s has cores of different dtypes' % what)
  W.need(X.same_dtype(W.attr(inst, 'dtype'), cores[0].dtype), '%s.dtype is wrong' % what)
  if b:
    _static(W, W.attr(inst, 'batch_size'), cores[0].shape[0], what + '.batch_size')
  for lazy in ('', 'lazy_'):
    _dynamic(W, W.call('shapes.%stt_ranks' % lazy, inst), ranks, '%stt_ranks(%s)' % (lazy, what))
    _dynamic(W, W.call('shapes.%sraw_shape' % lazy, inst), raw, '%sraw_shape(%s)' % (lazy, what))
    _dynamic(W, W.call('shapes.%sshape' % lazy, inst), dense, '%sshape(%s)' % (lazy, what))
    if b:
      got = W.call('shapes.%sbatch_size' % lazy, inst)
      W.same(got, X.scalar(cores[0].shape[0]), '%sbatch_size(%s)' % (lazy, what), dtype=False)


def metadata(c, k):
  def fn(W):
    run = c.fn(W, k)
    if run is None:
      return
    for inst, what in list(tt_values(W, run.call(W))):
      report(W, inst, what)
  return fn


@rule('C10')
def reported(tier):
  obs = []
  for c, k in cross(tier):
    if k.get('size'):
      continue             # run-time shapes have 32 bits
    obs.append(Ob('C10', '%s [%s]' % (c.name, k), metadata(c, k), eager=c.eager))
    if batched(k):
      obs.append(Ob('C10', '%s [%s] unknown batch size' % (c.name, k), metadata(c, k), eager=False, setup=unknown_batch))
  for k in C.ctx(d=[1, 2, 3, 4], mat=[False, True], ba=[None, 'B'], ones=['', 'e', 'o'],
                 unknown=[('mode',), ('rank',), ('mode', 'rank'), ('batch', 'mode'), ('batch', 'mode', 'rank')]):
    def fn(W, k=k):
      report(W, C.operand(W, k, 'A', k.ba).inst, 'object')

    def setup(ctx, k=k):
      ctx.dyn_tags = k.unknown
    obs.append(Ob('C10', 'queries on unknown sizes [%s]' % k, fn, eager=False, setup=setup))
  for k in C.ctx(d=[7, 10], n=[1000, 3000], mat=[False, True], ba=[None, 1, 7]):
    obs.append(Ob('C10', 'very large shapes [%s]' % k, large(k)))
  return obs


def large(k):
  """Sizes beyond the range of machine integers; what is known statically has to be exact."""
  def fn(W):
    n = [k.n] * k.d
    a = S.make(W, 'A', n, [1] * (k.d + 1), n if k.mat else None, k.ba)
    want = ([k.ba] if k.ba else []) + ([k.n ** k.d] * 2 if k.mat else n)
    _tshape(W, W.method(a.inst, 'get_shape'), want, 'object.get_shape()')
    _dynamic(W, W.call('shapes.lazy_shape', a.inst), want, 'lazy_shape(object)')
    _dynamic(W, W.call('shapes.lazy_raw_shape', a.inst), [n] * (2 if k.mat else 1), 'lazy_raw_shape(object)')
  return fn


# -- C25: dtypes --------------------------------------------------------------

def tensors_in(W, v, what='result'):
  """(tensor, description) of all the data tensors in a returned value."""
  if S.is_tt(W, v):
    for i, c in enumerate(S.cores_in(W, v, what)):
      yield c, '%s.tt_cores[%d]' % (what, i)
  elif isinstance(v, (list, tuple)):
    for i, x in enumerate(v):
      for y in tensors_in(W, x, '%s[%d]' % (what, i)):
        yield y
  elif isinstance(v, Var):
    yield v.t, what
  elif isinstance(v, Tensor):
    yield v, what


def exact_in_float32(t):
  """A constant that every floating dtype holds exactly."""
  if t.top:
    return False
  c = X.as_size(t) if t.rank == 0 else None
  if c is None:
    return not t.terms
  if isinstance(c, D.Dim):
    return True            # an integer size
  c = Fraction(c)
  q = c.denominator
  return q & (q - 1) == 0 and abs(c.numerator) < 2 ** 11 and q <= 2 ** 14


NARROW = ('float32', 'float16', 'bfloat16', 'half')


def precision(W):
  """No value of the operand dtype passes through a fixed narrower dtype."""
  for t, dt, where in W.I.casts:
    src = t.dtype
    if src is None or not is_float(src) or not is_float(dt) or X.same_dtype(src, dt):
      continue
    W.checked += 1
    if dt.name in NARROW and not exact_in_float32(t):
      W.bad('a %s value is converted to %s' % (src.name, dt.name), where[-3:])
    if src.name in NARROW and not exact_in_float32(t):
      W.bad('a value is rounded to %s before it becomes %s' % (src.name, dt.name), where[-3:])


@rule('C25')
def dtypes(tier):
  obs = []
  for c, k in cross(tier):
    def fn(W, c=c, k=k):
      run = c.fn(W, k)
      if run is None:
        return
      want = set(t.dtype.name for t, _ in tensors_in(W, run.args) if t.dtype is not None and is_float(t.dtype))
      W.I.casts = []
      res = run.call(W)
      if want == {GENERIC.name}:
        for t, what in tensors_in(W, res):
          if t.dtype is not None and is_float(t.dtype):
            W.need(X.same_dtype(t.dtype, GENERIC), '%s has dtype %s, the operands have another one' % (what, t.dtype.name))
      else:
        run.oracle(res)
      precision(W)
    obs.append(Ob('C25', '%s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
  for k in C.base_ctx(mat=[False, True], ba=[None, 'B', 1, 3], dt=['T2', 'float64', 'float32', 'float16', 'bfloat16']):
    obs.append(Ob('C25', 'cast [%s]' % k, casting(k)))
  return obs


def casting(k):
  def fn(W):
    a = C.operand(W, k, 'A', k.ba)
    dt = GENERIC2 if k.dt == 'T2' else DT[k.dt]
    res = W.call('cast', a.inst, dt)
    C.check_tt(W, res, C.stack_dense(S.dense(a), a.batch).view(dtype=dt), (a,), 'cast(a)', k.mat, strict=True)
    for i, (c, o) in enumerate(zip(S.cores_in(W, res, 'the result'), a.cores)):
      W.need(c.rank == o.rank and all(D.same(x, y) for x, y in zip(c.shape, o.shape)),
             'core %d has another shape than before' % i)
    for i, c in enumerate(S.cores_in(W, res, 'the result')):
      W.need(X.same_dtype(c.dtype, dt), 'core %d has dtype %s, not the requested one' % (i, c.dtype.name))
    for t, to, where in W.I.casts:
      if not X.same_dtype(t.dtype, to) and not X.same_dtype(to, dt):
        W.bad('the values pass through %s' % to.name, where[-3:])
  return fn


# -- C24: effects -------------------------------------------------------------

def state(W, v, seen=None):
  """What an observer can see of a value; compared before and after a call."""
  seen = seen or {}
  if id(v) in seen:
    return ('seen', seen[id(v)])
  if isinstance(v, (list, tuple, dict, set, Inst, Arr, Var)):
    seen = dict(seen)
    seen[id(v)] = len(seen)
  if isinstance(v, (list, tuple)):
    return (type(v).__name__, tuple(state(W, x, seen) for x in v))
  if isinstance(v, dict):
    return ('dict', tuple((k, state(W, x, seen)) for k, x in v.items()))
  if isinstance(v, set):
    return ('set', frozenset(v))
  if isinstance(v, Arr):
    return ('array', v.shape, v.kind, tuple(state(W, x, seen) for x in v.data))
  if isinstance(v, Var):
    return ('variable', state(W, v.t, seen))
  if isinstance(v, Inst):
    if not S.is_tt(W, v):
      return ('object', id(v))
    return ('object', v.cls.name, tuple((a, state(W, x, seen)) for a, x in sorted(v.attrs.items())))
  if isinstance(v, Tensor):
    return ('tensor', v.dtype and v.dtype.name, v.np, None if v.shape is None else tuple(map(D.show, v.shape)),
            tuple(map(repr, v.canon)) if not v.top else v.top)
  if isinstance(v, TShape):
    return ('shape', None if v.dims is None else tuple(state(W, x, seen) for x in v.dims))
  if isinstance(v, (int, str, bool, float, Fraction)) or v is None:
    return (type(v).__name__, v)
  if isinstance(v, Dim):
    return ('size', D.show(v))
  if isinstance(v, PyFloat):
    return ('float', state(W, v.t, seen))
  return ('id', id(v))


def modules(W):
  """State of the modules: global variables, defaults and class attributes."""
  out = {}
  for name, m in sorted(W.I.modules.items()):
    if m is None:
      continue
    for g, v in m.env.vars.items():
      if not isinstance(v, ModuleV):
        out['%s.%s' % (name, g)] = state(W, v)
      if isinstance(v, FuncV):
        out['%s.%s.<defaults>' % (name, g)] = functions(W, v)
      elif isinstance(v, ClassV):
        for a, x in v.attrs.items():
          out['%s.%s.%s' % (name, g, a)] = (state(W, x), functions(W, x) if isinstance(x, FuncV) else None)
  return out


def functions(W, f):
  return state(W, [f.defaults, f.kwdefaults, f.attrs])


def private(a, b):
  """b only has further underscore attributes."""
  if a == b:
    return True
  if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[:1] != b[:1]:
    return False
  if a[0] == 'object' and len(a) == 3 and len(b) == 3 and a[1] == b[1]:
    da, db = dict(a[2]), dict(b[2])
    return all(k in db and private(x, db[k]) for k, x in da.items()) and \
        all(k.startswith('_') for k in db if k not in da)
  if a[0] in ('list', 'tuple'):
    return len(a[1]) == len(b[1]) and all(private(x, y) for x, y in zip(a[1], b[1]))
  return False


def grown(a, b):
  """b only has further entries in dictionaries (what they are used for is the matter of `again`)."""
  if a == b:
    return True
  if not (isinstance(a, tuple) and isinstance(b, tuple)):
    return False
  if a[:1] == b[:1] == ('dict',):
    da, db = dict(a[1]), dict(b[1])
    return all(k in db and grown(x, db[k]) for k, x in da.items())
  return len(a) == len(b) and a[:1] != ('variable',) and all(grown(x, y) for x, y in zip(a, b))


def unchanged(W):
  I = W.I
  mods = modules(W)

  def guard(args, kw, f):
    named = [('argument %d' % (i + 1), a) for i, a in enumerate(args)] + \
        [('argument %s' % n, a) for n, a in sorted(kw.items())]
    if W.entry in ('assign', 'variables.assign'):
      named = named[1:]
    before = [state(W, a) for _, a in named]
    I.frozen = {}
    I.effects = []
    for n, a in named:
      I.freeze(a, n)
    try:
      return f()
    finally:
      W.checked += len(named)
      for (n, a), b in zip(named, before):
        if not private(b, state(W, a)):
          blame(W, n)
      now = modules(W)
      for n in sorted(now):
        if n not in mods or not grown(mods[n], now[n]):
          blame(W, 'the module state %s' % n)
      for what, how, where in I.effects:
        if what.startswith('the global') or how == 'updated in place':
          W.bad('%s is changed (%s)' % (what, how), where[-3:])
      I.frozen = {}
  return guard


def blame(W, what):
  for n, how, where in W.I.effects:
    if n.startswith(what):
      W.bad('%s is changed: %s (%s)' % (what, n, how), where[-3:])
  W.bad('%s is changed' % what)


@rule('C24')
def effects(tier):
  obs = []
  for c in C.CASES:
    ks = c.contexts + (c.more if tier == 'thorough' else [])
    if not c.cross and tier != 'thorough' and len(ks) > 200:
      ks = ks[::7]         # rejected calls stop before they do anything
    for k in ks:
      def fn(W, c=c, k=k):
        W.guard = unchanged(W)
        run = c.fn(W, k)
        if run is not None:
          run.call(W)
      obs.append(Ob('C24', '%s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
    if c.cross and 'get_variable' not in c.name:
      qs = [k for k in ks if k.get('d') == 2 and not k.get('ones') and k.get('same') is None]
      for k in qs[::max(1, len(qs) // 6)] if tier != 'thorough' else qs:
        for store in (None, 'var'):
          obs.append(Ob('C24', '%s [%s%s] again' % (c.name, k, ' store=var' if store else ''), again(c, k, store),
                        eager=c.eager, setup=c.setup))
  return obs


def again(c, k, store):
  """The same call a second time with other contents: new objects, or the same
  objects whose variables have been assigned to in between."""
  def fn(W):
    W.store = store
    W.earlier = {}
    run = c.fn(W, k)
    if run is None:
      return
    run.call(W)
    W.earlier, W.made = W.made, {}
    run = c.fn(W, k)
    run.oracle(run.call(W))
  return fn


# -- C26: batch elements ------------------------------------------------------

def _is_batch(d):
  return isinstance(d, D.Dim) and any((D.CTX.owner.get(s) or ('',))[0] == 'batch' for s in d.syms())


def _arguments(a):
  """(tensor, number of leading labels taken element by element) inside an atom."""
  if a.kind in ('abs', 'sign', 'log'):
    return _arguments(a.par)
  if a.kind == 'W':
    x = T.TC.deft[a.par]
    return [(x, len(x.flat))]
  if a.kind == 'fn':
    n = len(a.legdims)
    return [(x, n) for x in T.TC.deft[a.par[1]][2]]
  if a.kind in ('Q', 'R', 'U', 'S', 'V', 'det', 'INV', 'CH'):
    p = T.TC.deft[a.par[0]]
    return [(p[1], p[2])]
  return []


def mixing(t, outer, done=None):
  """A description of how t depends on other batch elements than those its
  labels `outer` select, or None."""
  done = set() if done is None else done
  for x in t.terms:
    for a, legs, _ in x.fs:
      for i, l in enumerate(legs):
        d = a.legdims[i] if a.legdims is not None and i < len(a.legdims) else None
        if d is None or not _is_batch(d):
          continue
        if l in outer:
          continue
        if isinstance(l, int):
          return '%s is summed over the batch' % a.key if l in x.bound else '%s takes another element' % a.key
        return 'a fixed or shifted element of %s is used' % a.key
      if a.key in done:
        continue
      done.add(a.key)
      for y, n in _arguments(a):
        inner = [l for l in y.flat if _is_batch(T.ldim(l))]
        if any(l not in y.flat[:n] for l in inner):
          return 'the batch is merged into the argument of %s' % a.key
        r = mixing(y, set(inner), done)
        if r:
          return r
  return None


WHOLE_BATCH = ('gather_nd', 'TensorTrainBatch[..., full index]', 'TensorTrainBatch[batch index]',
               'concat_along_batch_dim', 'pairwise_flat_inner', 'gram_matrix', 'pairwise_flat_inner with matrix',
               'gram_matrix with matrix', 'approximate.reduce_sum_batch', 'project_sum',
               'pairwise_flat_inner_projected')


@rule('C26')
def elementwise(tier):
  obs = []
  for c, k in cross(tier):
    if c.name in WHOLE_BATCH or not batched(k):
      continue

    def fn(W, c=c, k=k):
      run = c.fn(W, k)
      if run is None:
        return
      separate(W, run.call(W))
    obs.append(Ob('C26', '%s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
  return obs


def separate(W, v, what='the result'):
  if S.is_tt(W, v):
    cores = S.cores_in(W, v, what)
    if all(alone(c) is None for c in cores):
      W.checked += len(cores)
      return
    separate(W, S.dense_inst(W, v, what), what)
  elif isinstance(v, (list, tuple)):
    for i, x in enumerate(v):
      separate(W, x, '%s[%d]' % (what, i))
  elif isinstance(v, Var):
    separate(W, v.t, what)
  elif isinstance(v, Tensor):
    W.checked += 1
    r = alone(v)
    if r:
      W.bad('%s: %s' % (what, r))


def alone(t):
  if t.top:
    raise T.Unsupported(t.top)
  t = X.aligned(t)
  first = X.axes(t)[0] if t.rank else []
  outer = set(l for l in first if _is_batch(T.ldim(l)))
  return mixing(t, outer)


# -- C30: sizes of intermediates ----------------------------------------------

@rule('C30')
def linear_memory(tier):
  obs = []
  for c, k in cross(tier):
    if k.d < 2:
      continue

    def fn(W, c=c, k=k):
      run = c.fn(W, k)
      if run is None or run.dense:
        return
      big = []

      def look(t):
        W.checked += 1
        if t.shape is None or big:
          return
        cores = spread(t.shape)
        if len(cores) > 1:
          big.append((t.shape, W.I.where()[-3:]))
      X.ALog.on_tensor = look
      try:
        res = run.call(W)
      finally:
        X.ALog.on_tensor = None
      if big:
        W.bad('an intermediate of size %s grows with the mode sizes of several cores' % (
            ' x '.join(map(D.show, big[0][0]))), big[0][1])
    obs.append(Ob('C30', '%s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
  return obs


def modes_in(d):
  out = set()
  if isinstance(d, D.Dim):
    for x in d.syms():
      o = D.CTX.owner.get(x)
      if o and o[0] == 'mode':
        out.add(o[1])
  return out


def spread(shape):
  """Cores whose mode sizes the size of a tensor is not bounded independently of.

  A product of mode sizes known to be at most a TT-rank counts as a TT-rank."""
  cores = set()
  for d in shape:
    cores |= modes_in(d)
  if len(cores) < 2:
    return cores
  small = []
  for a, b in D.CTX.le:
    if isinstance(a, D.Dim) and modes_in(a) and not modes_in(b):
      mono = [m for m, _ in a.p.items() if m]
      if len(mono) == 1:
        small.append(mono[0])
  return bounded(D.prod(list(shape)), small)


def bounded(size, small):
  """The fewest cores left after dividing by products that are bounded by ranks."""
  best = modes_in(size)
  for i, m in enumerate(small):
    if len(best) < 2:
      break
    q = D.divexact(size, D.Dim({m: 1}))
    if q is not None and all(e > 0 for x in D.poly(q) for _, e in x):
      r = bounded(q, small[i + 1:])
      best = r if len(r) < len(best) else best
  return best


# -- C33: NumPy SVD ---------------------------------------------------------------

def replaced(W, times=1):
  for _ in range(times):
    W.call('utils.replace_tf_svd_with_np_svd')
  return W.attr(LibModule('tensorflow.linalg'), 'svd')


@rule('C33')
def numpy_svd(tier):
  obs = []
  for times in (1, 2):
    for batch in (0, 1, 2):
      for how in ('plain', 'values', 'keywords', 'named', 'full', 'positional'):
        def fn(W, times=times, batch=batch, how=how):
          sh = [D.sym('b%d' % i, 2, ('batch', i)) for i in range(batch)] + [D.sym('p', 1), D.sym('q', 1)]
          A = X.from_atom('A', sh, GENERIC)
          svd = replaced(W, times)
          full = how in ('full', 'positional')
          want = (X.svd_full if full else X.svd)(A)
          kw = {'plain': {}, 'values': {'compute_uv': False}, 'keywords': {'full_matrices': False, 'compute_uv': True},
                'named': {'name': 'x'}, 'full': {'full_matrices': True}, 'positional': {}}[how]
          got = W.I.call(svd, [A] + ([True, True] if how == 'positional' else []), kw)
          W.entry = 'utils.replace_tf_svd_with_np_svd'
          if how == 'values':
            return W.same(got, want[0], 'the singular values')
          got = list(W.I.iterate(got))
          W.need(len(got) == 3, 'the replacement returns %d values' % len(got))
          for g, w, n in zip(got, want, ('the singular values', 'the left singular vectors', 'the right singular vectors')):
            W.same(g, w, n)
        obs.append(Ob('C33', 'svd [batch=%d how=%s replaced=%d]' % (batch, how, times), fn))
  for c in C.CASES:
    if 'C09' not in c.props and 'C19' not in c.props:
      continue
    for k in c.contexts + (c.more if tier == 'thorough' else []):
      def fn(W, c=c, k=k):
        replaced(W)
        run = c.fn(W, k)
        if run is not None:
          run.oracle(run.call(W))
      obs.append(Ob('C33', '%s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
  return obs


# -- C34: gradients pass -----------------------------------------------------------

def float_tensors(W, v, seen=None):
  """Floating tensors an observer finds in a result."""
  seen = seen if seen is not None else set()
  if id(v) in seen:
    return []
  seen.add(id(v))
  if isinstance(v, Var):
    v = v.t
  if isinstance(v, Tensor):
    return [v]
  if isinstance(v, PyFloat):
    return [v.t]
  if isinstance(v, (list, tuple)):
    return [t for x in v for t in float_tensors(W, x, seen)]
  if isinstance(v, Inst) and S.is_tt(W, v):
    return S.cores_in(W, v)
  return []


@rule('C34')
def differentiable(tier):
  obs = []
  for c, k in cross(tier):
    def fn(W, c=c, k=k):
      W.unknowns = W.I.cut = keys = set()
      run = c.fn(W, k)
      if run is None:
        return
      for t in run.args:
        if isinstance(t, Tensor) and not t.np:
          make_unknown(W, t, keys)
      if not keys:
        return
      attached(W, run.call(W), keys)
    obs.append(Ob('C34', '%s [%s]' % (c.name, k), fn, eager=c.eager, setup=c.setup))
  for d in (1, 2, 3):
    for kw in ({}, {'use_bias': False}, {'activation': 'relu'}):
      def fn(W, d=d, kw=kw):
        n, m = S.modes('n', d), S.modes('m', d)
        layer = W.call('nn.KerasDense', list(n), list(m), **kw)
        keys = set()
        for j, v in enumerate(W.I.iterate(W.attr(layer, 'trainable_weights'))):
          TFM.var_assign(W.I, v.inner if isinstance(v, KVar) else v, X.from_atom('weight%d' % j, v.t.shape, v.t.dtype))
          make_unknown(W, v.t, keys)
        x = X.from_atom('x', (D.sym('X', 1, ('batch', 0)), D.prod(n)), DT['float32'])
        make_unknown(W, x, keys)
        W.entry = 'nn.KerasDense'
        attached(W, W.I.call(layer, [x], {}), keys)
      obs.append(Ob('C34', 'KerasDense [d=%d %s]' % (d, kw), fn))
  return obs


def make_unknown(W, t, keys):
  if not t.top and is_float(t.dtype) and t.flat and not any(f[0].kind == 'watch' for e in t.terms for f in e.fs):
    keys.update(f[0].key for e in t.terms for f in e.fs)
    TFM.unknown(W.I, t)


def attached(W, res, keys):
  for t in float_tensors(W, res):
    W.checked += 1
    if t.top:
      raise Unsupported(t.top)
    for e in t.terms:
      for f in e.fs:
        for q in keys:
          if f[0].key == q or X._depends(f[0], q):
            W.bad('a value of the operands enters the result without its gradient (%s)' % q)


# -- C43: documented complexities ----------------------------------------------------

RULES['C43'] = cost.obligations
