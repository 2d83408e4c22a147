"""Sequential machines for terms, and exhaustive comparison of them.

A term extracted from a grammar is turned into a machine that reads an
arbitrary string symbol by symbol and emits its (best) rewrite with bounded
delay.  Two machines are compared on *all* strings by exploring the reachable
states of their product; a difference comes with a shortest witness string.

Symbols are one-character strings and ('sym', name) for generated symbols.
"""

import collections
import heapq
import itertools

from . import terms

BOS = ('sym', 'BOS')
EOS = ('sym', 'EOS')


class Cannot(Exception):
  """The term is outside what these machines express."""


class Ambiguous(Exception):
  """The relation has several equally good outputs."""

  def __init__(self, what, outs=()):
    super().__init__(what)
    self.outs = outs


# --- finite relations ---------------------------------------------------------


def parse(s):
  return terms.parse_string(s)


_FIN = {}


def finite(t, cap=200000):
  """{(in, out): weight} of a term denoting a finite relation."""
  r = _FIN.get(t)
  if r is None:
    r = _FIN[t] = _finite(t, cap)
  return r


def _put(d, k, w):
  if k not in d or w < d[k]:
    d[k] = w


def _finite(t, cap):
  a = t.args
  out = {}
  if t.op == 'empty':
    return out
  if t.op == 'str':
    s = parse(a[0])
    out[s, s] = 0.0
  elif t.op in ('smap', 'sfile'):
    for e in a[0]:
      _put(out, (parse(e[0]), parse(e[1])), e[2])
  elif t.op == 'union':
    for x in a[0]:
      for k, w in finite(x, cap).items():
        _put(out, k, w)
  elif t.op == 'concat':
    out = {((), ()): 0.0}
    for x in a[0]:
      fx = finite(x, cap)
      if len(out) * len(fx) > cap:
        raise Cannot('too many strings in %r' % (t,))
      new = {}
      for (i, o), w in out.items():
        for (i2, o2), w2 in fx.items():
          _put(new, (i + i2, o + o2), w + w2)
      out = new
  elif t.op == 'cross':
    fa, fb = finite(a[0], cap), finite(a[1], cap)
    if len(fa) * len(fb) > cap:
      raise Cannot('too many pairs in %r' % (t,))
    for (i, _), w in fa.items():
      for (_, o), w2 in fb.items():
        _put(out, (i, o), w + w2)
  elif t.op == 'invert':
    out = {(o, i): w for (i, o), w in finite(a[0], cap).items()}
  elif t.op == 'project':
    k = 0 if a[1] == 'input' else 1
    for p, w in finite(a[0], cap).items():
      _put(out, (p[k], p[k]), w)
  elif t.op == 'weighted':
    out = {k: w + a[1] for k, w in finite(a[0], cap).items()}
  elif t.op == 'closure' and a[2] is not None:
    base = finite(a[0], cap)
    cur = {((), ()): 0.0}
    if a[1] == 0:
      out.update(cur)
    for n in range(1, a[2] + 1):
      if len(cur) * len(base) > cap:
        raise Cannot('too many strings in %r' % (t,))
      new = {}
      for (i, o), w in cur.items():
        for (i2, o2), w2 in base.items():
          _put(new, (i + i2, o + o2), w + w2)
      cur = new
      if n >= a[1]:
        for k, w in cur.items():
          _put(out, k, w)
  elif t.op == 'difference':
    fb = {i for i, _ in finite(a[1], cap)}
    out = {k: w for k, w in finite(a[0], cap).items() if k[0] not in fb}
  elif t.op == 'intersect':
    fb = {i: w for (i, _), w in finite(a[1], cap).items()}
    out = {k: w + fb[k[0]] for k, w in finite(a[0], cap).items()
           if k[0] in fb}
  elif t.op == 'compose':
    out = finite(a[0][0], cap)
    for x in a[0][1:]:
      if is_sigma_star(x):
        chars = sigma_star_symbols(x)
        if chars is not None:
          out = {k: w for k, w in out.items() if all(c in chars for c in k[1])}
        continue
      new = {}
      try:
        fx = collections.defaultdict(list)
        for (i, o), w in finite(x, cap).items():
          fx[i].append((o, w))
        for (i, m), w in out.items():
          for o, w2 in fx.get(m, ()):
            _put(new, (i, o), w + w2)
      except Cannot:
        mach = machine(x)
        for (i, m), w in out.items():
          o = run(mach, m)
          if o is not None:
            _put(new, (i, o), w)
      out = new
  elif t.op == 'class':
    cs = terms.BYTE_CLASSES.get(a[0])
    if not cs:
      raise Cannot('class %s' % a[0])
    for c in cs:
      out[(c,), (c,)] = 0.0
  elif t.op == 'manual':
    out = _manual(t)
  elif t.op == 'cdrewrite':
    raise Cannot('cdrewrite is not finite')
  else:
    raise Cannot('%s is not finite' % t.op)
  if len(out) > cap:
    raise Cannot('too many strings')
  return out


def _manual(t):
  """A hand-built one-step acceptor: args[0] is a tuple of labels."""
  out = {}
  for i, _ in t.args[0]:
    if i in (0, ('sym', '<epsilon>')):
      s = ()
    elif isinstance(i, int):
      s = (chr(i),)
    else:
      s = (i,)
    out[s, s] = 0.0
  return out


def symbols_of(t):
  """The set of one-symbol strings of an acceptor, or None if unbounded."""
  if t.op == 'class':
    cs = terms.BYTE_CLASSES.get(t.args[0])
    if t.args[0] in ('BYTE', 'VALID_UTF8_CHAR'):
      return None
    return set(cs) if cs else None
  if t.op == 'union':
    out = set()
    for x in t.args[0]:
      s = symbols_of(x)
      if s is None:
        return None
      out |= s
    return out
  out = set()
  for (i, o), _ in finite(t).items():
    if i != o or len(i) > 1:
      raise Cannot('not a set of symbols: %r' % (t,))
    out.update(i)
  out.discard(('sym', '<epsilon>'))
  return out


def is_sigma_star(t):
  if t.op != 'closure' or t.args[1] != 0 or t.args[2] is not None:
    return False
  try:
    symbols_of(t.args[0])
    return True
  except Cannot:
    return False


def sigma_star_symbols(t):
  if not is_sigma_star(t):
    raise Cannot('sigma is %r' % (t,))
  return symbols_of(t.args[0])


# --- automata for rational terms --------------------------------------------


class Nfa:
  """arcs[s] = [(in symbol or None, out tuple, weight, next)]."""

  def __init__(self):
    self.arcs = []
    self.start = self.new()
    self.finals = {}

  def new(self):
    self.arcs.append([])
    return len(self.arcs) - 1

  def arc(self, s, i, o, w, n):
    self.arcs[s].append((i, o, w, n))


def _build(n, t, s, e, flip):
  """Adds the paths of t (inverted if flip) from state s to state e."""
  a = t.args
  op = t.op
  if op == 'empty':
    return
  if op in ('str', 'smap', 'sfile', 'manual') or op == 'class':
    if op == 'class' and symbols_of(t) is None:
      raise Cannot('unbounded class')
    for (i, o), w in finite(t).items():
      if flip:
        i, o = o, i
      _path(n, i, o, w, s, e)
  elif op == 'union':
    for x in a[0]:
      _build(n, x, s, e, flip)
  elif op == 'concat':
    cur = s
    for k, x in enumerate(a[0]):
      nxt = e if k == len(a[0]) - 1 else n.new()
      # A private state keeps closures of neighbours apart.
      _build(n, x, cur, nxt, flip)
      cur = nxt
  elif op == 'closure':
    lo, hi = a[1], a[2]
    cur = s
    for _ in range(lo):
      m = n.new()
      _build(n, a[0], cur, m, flip)
      cur = m
    if hi is None:
      loop = n.new()
      n.arc(cur, None, (), 0.0, loop)
      back = n.new()
      _build(n, a[0], loop, back, flip)
      n.arc(back, None, (), 0.0, loop)
      n.arc(loop, None, (), 0.0, e)
    else:
      n.arc(cur, None, (), 0.0, e)
      for _ in range(hi - lo):
        m = n.new()
        _build(n, a[0], cur, m, flip)
        n.arc(m, None, (), 0.0, e)
        cur = m
  elif op == 'cross':
    try:
      rel = finite(t)
    except Cannot:
      rel = None
    if rel is not None:
      for (i, o), w in rel.items():
        if flip:
          i, o = o, i
        _path(n, i, o, w, s, e)
    else:
      m = n.new()
      _build_side(n, a[0], s, m, 'output' if flip else 'input')
      _build_side(n, a[1], m, e, 'input' if flip else 'output')
  elif op == 'invert':
    _build(n, a[0], s, e, not flip)
  elif op == 'weighted':
    m = n.new()
    _build(n, a[0], s, m, flip)
    n.arc(m, None, (), a[1], e)
  elif op in ('project', 'difference', 'intersect', 'compose'):
    for (i, o), w in finite(t).items():
      if flip:
        i, o = o, i
      _path(n, i, o, w, s, e)
  else:
    raise Cannot('%s in a rational term' % op)


def _build_side(n, t, s, e, side):
  m = Nfa()
  f = m.new()
  _build(m, t, m.start, f, False)
  base = len(n.arcs)
  n.arcs.extend([] for _ in m.arcs)
  for q, arcs in enumerate(m.arcs):
    for i, o, w, r in arcs:
      syms = () if i is None else (i,)
      if side == 'input':
        n.arc(base + q, i, (), w, base + r)
      else:
        n.arc(base + q, None, syms, w, base + r)
  n.arc(s, None, (), 0.0, base + m.start)
  n.arc(base + f, None, (), 0.0, e)


def _path(n, i, o, w, s, e):
  if not i:
    n.arc(s, None, tuple(o), w, e)
    return
  cur = s
  for k, c in enumerate(i):
    last = k == len(i) - 1
    nxt = e if last else n.new()
    n.arc(cur, c, tuple(o) if last else (), w if last else 0.0, nxt)
    cur = nxt


_NFA = {}


def nfa(t):
  r = _NFA.get(t)
  if r is None:
    n = Nfa()
    e = n.new()
    _build(n, t, n.start, e, False)
    n.finals[e] = 0.0
    r = _NFA[t] = n
    _trim(n)
  return r


def _trim(n):
  back = collections.defaultdict(list)
  for q, arcs in enumerate(n.arcs):
    for a in arcs:
      back[a[3]].append(q)
  alive = set(n.finals)
  stack = list(alive)
  while stack:
    for p in back[stack.pop()]:
      if p not in alive:
        alive.add(p)
        stack.append(p)
  n.arcs = [[a for a in arcs if a[3] in alive] for arcs in n.arcs]
  n.alive = alive
  by = []
  for arcs in n.arcs:
    d = collections.defaultdict(list)
    for i, o, w, r in arcs:
      d[i].append((o, w, r))
    by.append(d)
  n.by = by


class Better:
  """Bounds on how much worse one state's future can be than another's.

  worse(q, p) is an upper bound, over all input continuations accepted from q,
  of (cost from p) - (cost from q); infinite if p may reject one.  A weighted
  simulation computed over the pairs that are asked for.
  """
  CAP = 8.0

  def __init__(self, n):
    self.n = n
    self.core = {}
    self.d = {}
    self.deps = {}

  def free(self, q):
    """Epsilon-free view: ({symbol: {next: weight}}, final weight)."""
    r = self.core.get(q)
    if r is None:
      n = self.n
      dist = {q: 0.0}
      todo = [q]
      while todo:
        x = todo.pop()
        for _, w, y in n.by[x].get(None, ()):
          if y not in dist or dist[x] + w < dist[y]:
            dist[y] = dist[x] + w
            todo.append(y)
      arcs = {}
      fin = min([d + n.finals[x] for x, d in dist.items() if x in n.finals],
                default=float('inf'))
      for x, d in dist.items():
        for c, xs in n.by[x].items():
          if c is not None:
            t = arcs.setdefault(c, {})
            for _, w, y in xs:
              if y not in t or d + w < t[y]:
                t[y] = d + w
      r = self.core[q] = (arcs, fin)
    return r

  def worse(self, q, p):
    if q == p:
      return 0.0
    k = (q, p)
    if k not in self.d:
      self._solve(k)
    return self.d[k]

  def _solve(self, k0):
    inf = float('inf')
    new = set()
    stack = [k0]
    users = collections.defaultdict(set)
    while stack:
      k = stack.pop()
      if k in new or k in self.d:
        continue
      new.add(k)
      q, p = k
      aq, _ = self.free(q)
      ap, _ = self.free(p)
      if not aq.keys() <= ap.keys():
        continue
      for c, tq in aq.items():
        for x in tq:
          for y in ap[c]:
            if x != y:
              users[x, y].add(k)
              stack.append((x, y))
    val = {k: -inf for k in new}

    def get(x, y):
      if x == y:
        return 0.0
      v = val.get((x, y))
      return self.d[x, y] if v is None else v

    todo = collections.deque(new)
    queued = set(new)
    while todo:
      k = todo.popleft()
      queued.discard(k)
      q, p = k
      aq, fq = self.free(q)
      ap, fp = self.free(p)
      if not aq.keys() <= ap.keys():
        v = inf
      else:
        v = -inf if fq == inf else fp - fq
        for c, tq in aq.items():
          tp = ap[c]
          for x, wx in tq.items():
            b = min(wy - wx + get(x, y) for y, wy in tp.items())
            if b > v:
              v = b
            if v == inf:
              break
          if v == inf:
            break
        if v > self.CAP:
          v = inf
      if v > val[k]:
        val[k] = v
        for u in users[k]:
          if u not in queued:
            queued.add(u)
            todo.append(u)
    self.d.update(val)


# --- machines -----------------------------------------------------------------


class Machine:
  functional = True

  def __init__(self):
    self._memo = {}

  def step(self, state, c):
    k = (state, c)
    try:
      return self._memo[k]
    except KeyError:
      pass
    r = self._memo[k] = self._step(state, c)
    return r

  def symbols(self):
    """The symbols it treats specially, or None."""
    return None


class Identity(Machine):
  """sigma*."""

  def __init__(self, chars):
    super().__init__()
    self.start = 0
    self.chars = chars

  def _step(self, state, c):
    if self.chars is not None and c not in self.chars:
      return None
    return 0, (c,)

  def end(self, state):
    return ()


class Guard(Machine):
  """The identity on the domain of m."""

  def __init__(self, m):
    super().__init__()
    self.m, self.start = m, m.start

  def _step(self, state, c):
    r = self.m.step(state, c)
    return None if r is None else (r[0], (c,))

  def end(self, state):
    return None if self.m.end(state) is None else ()


class Rational(Machine):
  """Best-path output of a weighted rational relation, determinized."""
  MAX_OUT = 6

  def __init__(self, t, then=None):
    super().__init__()
    self.n = nfa(t)
    self.term = t
    self.then = then        # rewriting applied to the output afterwards
    self._key = {}
    self.functional = False
    if not hasattr(self.n, 'better'):
      self.n.better = Better(self.n)
    self.start = self._norm(self._close({self.n.start: (0.0, frozenset([()]))}))[0]

  def _merge(self, outs):
    """Equally good outputs that the following stages identify are one."""
    if len(outs) > 1 and self.then is not None:
      seen = {}
      for o in sorted(outs, key=str):
        k = self._key.get(o)
        if k is None:
          k = self._key[o] = run(self.then, o)
        seen.setdefault(k, o)
      outs = frozenset(seen.values())
    return outs

  def _close(self, h):
    """Epsilon closure keeping the best outputs per state."""
    n = self.n
    heap = [(w, q) for q, (w, _) in h.items()]
    heapq.heapify(heap)
    todo = collections.deque(h)
    # Weights are non-negative: Bellman-Ford over few states.
    count = collections.Counter()
    while todo:
      q = todo.popleft()
      count[q] += 1
      if count[q] > 200:
        raise Cannot('output-producing epsilon loop')
      w, outs = h[q]
      for o, w2, r in n.by[q].get(None, ()):
        nw = w + w2
        no = frozenset(x + o for x in outs) if o else outs
        old = h.get(r)
        if old is None or nw < old[0]:
          h[r] = (nw, no)
          todo.append(r)
        elif nw == old[0] and not no <= old[1]:
          h[r] = (nw, self._merge(old[1] | no))
          if h[r][1] == old[1]:
            continue
          if len(h[r][1]) > self.MAX_OUT:
            raise Ambiguous('many outputs', h[r][1])
          todo.append(r)
    return h

  def _norm(self, h):
    """State and emitted prefix."""
    # Drop states that only pass on by epsilon.
    keep = {q: v for q, v in h.items()
            if q in self.n.finals or any(k is not None for k in self.n.by[q])}
    if not keep:
      return None, ()
    base = min(w for w, _ in keep.values())
    if len(keep) > 1:
      # Drop hypotheses that some other one beats whatever follows.
      worse = self.n.better.worse
      for q in sorted(keep, key=lambda q: -keep[q][0]):
        wq = keep[q][0]
        if any(p != q and w <= wq and w + worse(q, p) < wq
               for p, (w, _) in keep.items()):
          del keep[q]
    pre = None
    for _, outs in keep.values():
      for o in outs:
        if pre is None:
          pre = o
        else:
          k = 0
          m = min(len(pre), len(o))
          while k < m and pre[k] == o[k]:
            k += 1
          pre = pre[:k]
    k = len(pre)
    state = frozenset(
        (q, w - base, outs if not k else frozenset(o[k:] for o in outs))
        for q, (w, outs) in keep.items())
    return state, pre

  def _step(self, state, c):
    h = {}
    by = self.n.by
    for q, w, outs in state:
      for o, w2, r in by[q].get(c, ()):
        nw = w + w2
        no = frozenset(x + o for x in outs) if o else outs
        old = h.get(r)
        if old is None or nw < old[0]:
          h[r] = (nw, no)
        elif nw == old[0]:
          h[r] = (nw, self._merge(old[1] | no))
    if not h:
      return None
    s, pre = self._norm(self._close(h))
    if s is None:
      return None
    if any(len(o) > 60 for _, _, outs in s for o in outs):
      raise Cannot('unbounded delay')
    return s, pre

  def ends(self, state):
    """(set of best final outputs)."""
    best, outs = None, set()
    for q, w, o in state:
      if q in self.n.finals:
        w = w + self.n.finals[q]
        if best is None or w < best:
          best, outs = w, set(o)
        elif w == best:
          outs |= o
    return outs

  def end(self, state):
    outs = self._merge(self.ends(state))
    if not outs:
      return None
    if len(outs) > 1:
      raise Ambiguous('several outputs of equal weight', outs)
    return next(iter(outs))


class CdRewrite(Machine):
  """Obligatory left-to-right context-dependent rewriting, finite rules."""

  def __init__(self, t):
    super().__init__()
    tau, l, r, sig, direction, mode = t.args
    self.term = t
    if direction != 'ltr' or mode != 'obl':
      raise Cannot('cdrewrite mode %s/%s' % (direction, mode))
    self.sigma = sigma_star_symbols(sig)
    rules = collections.defaultdict(list)
    self.pairs = {}
    for (i, o), w in finite(tau).items():
      if not i:
        if o:
          raise Cannot('insertion rule')
        continue
      rules[i[0]].append((i, o))
      self.pairs.setdefault(i, set()).add(o)
    self.rules = dict(rules)
    self.left = self._ctx(l)
    self.right = self._ctx(r)
    self.lprefix = set()
    for s in self.left or ():
      for k in range(len(s) + 1):
        self.lprefix.add(s[:k])
    self.rprefix = set()
    for s in self.right or ():
      for k in range(len(s)):
        self.rprefix.add(s[:k])
    self.lmax = max([len(s) for s in self.left or ()] or [0])
    self.start = (self._tail((BOS,)), ())

  def _ctx(self, t):
    f = {i for i, _ in finite(t)}
    if () in f:
      return None
    return f

  def _tail(self, out):
    if self.left is None:
      return ()
    out = out[-self.lmax:] if self.lmax else ()
    while out not in self.lprefix:
      out = out[1:]
    return out

  def _left_ok(self, tail):
    if self.left is None:
      return True
    return any(tail[k:] in self.left for k in range(len(tail)))

  def _drain(self, tail, pend, ended):
    out = []
    while pend and pend[0] is not EOS:
      c = pend[0]
      rs = self.rules.get(c)
      hit = None
      if rs and self._left_ok(tail):
        wait = False
        for i, o in rs:
          k = len(i)
          if len(pend) < k:
            if not ended and i[:len(pend)] == pend:
              wait = True
            continue
          if pend[:k] != i:
            continue
          if self.right is not None:
            rest = pend[k:]
            ok = any(rest[:j] in self.right for j in range(1, len(rest) + 1))
            if not ok:
              if not ended and rest in self.rprefix:
                wait = True
              continue
          if hit is not None and hit != (i, o):
            raise Ambiguous('rules %r and %r both apply' % (hit, (i, o)),
                              {hit, (i, o)})
          hit = (i, o)
        if wait:
          break
      if hit:
        i, o = hit
        out.extend(o)
        pend = pend[len(i):]
        if self.left is not None:
          tail = self._tail(tail + o)
      else:
        out.append(c)
        pend = pend[1:]
        if self.left is not None:
          tail = self._tail(tail + (c,))
    return (tail, pend), tuple(out)

  def _step(self, state, c):
    if self.sigma is not None and c not in self.sigma:
      return None
    tail, pend = state
    return self._drain(tail, pend + (c,), False)

  def end(self, state):
    tail, pend = state
    return self._drain(tail, pend + (EOS,), True)[1]


class Pipe(Machine):

  def __init__(self, ms):
    super().__init__()
    self.ms = ms
    self.start = tuple(m.start for m in ms)
    self.functional = all(m.functional for m in ms)

  def _step(self, state, c):
    cur = (c,)
    new = list(state)
    for k, m in enumerate(self.ms):
      st = new[k]
      out = ()
      for x in cur:
        r = m.step(st, x)
        if r is None:
          return None
        st, o = r
        out += o
      new[k] = st
      cur = out
    return tuple(new), cur

  def end(self, state):
    cur = ()
    for st, m in zip(state, self.ms):
      out = ()
      for x in cur:
        r = m.step(st, x)
        if r is None:
          return None
        st, o = r
        out += o
      e = m.end(st)
      if e is None:
        return None
      cur = out + e
    return cur


_MACH = {}


def machines(t, then=()):
  """The chain of machines of a term; `then` are terms applied afterwards."""
  if t.op == 'compose':
    out = []
    for k, x in enumerate(t.args[0]):
      out.extend(machines(x, t.args[0][k + 1:] + then))
    return out
  if t.op != 'cdrewrite' and not is_sigma_star(t):
    then = tuple(x for x in then if x.op == 'cdrewrite')
  else:
    then = ()
  r = _MACH.get((t, then))
  if r is None:
    if t.op == 'cdrewrite':
      r = CdRewrite(t)
    elif is_sigma_star(t):
      r = Identity(sigma_star_symbols(t))
    else:
      r = Rational(t, pipe(*[machine(x) for x in then]) if then else None)
    _MACH[t, then] = r
  return [r]


def machine(t):
  ms = machines(t)
  for k, m in enumerate(ms[:-1]):
    if m.functional:
      continue
    outs = {x for arcs in m.n.arcs for a in arcs for x in a[1]}
    for x in ms[k + 1:]:
      if isinstance(x, CdRewrite):
        outs |= {y for os in x.pairs.values() for o in os for y in o}
      elif isinstance(x, Identity) and (x.chars is None or outs <= x.chars):
        pass
      else:
        raise Cannot('a weighted relation feeds a partial one')
  return ms[0] if len(ms) == 1 else Pipe(ms)


def pipe(*ms):
  out = []
  for m in ms:
    out.extend(m.ms if isinstance(m, Pipe) else [m])
  return out[0] if len(out) == 1 else Pipe(out)


def run(m, s):
  """Output tuple of machine m on symbols s, or None."""
  st = m.start
  out = ()
  for c in s:
    r = m.step(st, c)
    if r is None:
      return None
    st, o = r
    out += o
  e = m.end(st)
  return None if e is None else out + e


def rewrite(m, text):
  """Output string of m on a plain string."""
  o = run(m, tuple(text))
  return None if o is None else show(o)


def show(o):
  return ''.join(x if isinstance(x, str) else '[%s]' % x[1] for x in o)


# --- acceptors ----------------------------------------------------------------


class Acceptor:
  """Lazily determinized acceptor of (one side of) a rational term."""

  def __init__(self, t, side='input'):
    if side == 'output':
      t = terms.invert(t)
    self.n = nfa(t)
    self._memo = {}
    self._can = {}
    self.start = self._close({self.n.start})

  def _close(self, s):
    s = set(s)
    st = list(s)
    while st:
      q = st.pop()
      for _, _, r in self.n.by[q].get(None, ()):
        if r not in s:
          s.add(r)
          st.append(r)
    return frozenset(q for q in s if q in self.n.finals or
                     any(k is not None for k in self.n.by[q]))

  def step(self, s, c):
    k = (s, c)
    if k not in self._memo:
      new = set()
      for q in s:
        for _, _, r in self.n.by[q].get(c, ()):
          new.add(r)
      self._memo[k] = self._close(new) or None
    return self._memo[k]

  def final(self, s):
    return any(q in self.n.finals for q in s)

  def next(self, s):
    out = set()
    for q in s:
      out.update(k for k in self.n.by[q] if k is not None)
    return out


class AnyOf:
  """alphabet* as a filter."""

  def __init__(self, alphabet):
    self.start = 0
    self.alphabet = set(alphabet)

  def step(self, s, c):
    return 0 if c in self.alphabet else None

  def final(self, s):
    return True

  def next(self, s):
    return self.alphabet


class Domain:
  """The domain of machine m as a filter."""

  def __init__(self, m):
    self.m, self.start = m, m.start

  def step(self, s, c):
    r = self.m.step(s, c)
    return None if r is None else r[0]

  def final(self, s):
    return self.m.end(s) is not None

  def next(self, s):
    return ALL


class _All:

  def __and__(self, x):
    return x

  __rand__ = __and__


ALL = _All()


class Both:
  """Intersection of two filters."""

  def __init__(self, a, b):
    self.a, self.b = a, b
    self.start = (a.start, b.start)

  def step(self, s, c):
    x = self.a.step(s[0], c)
    if x is None:
      return None
    y = self.b.step(s[1], c)
    return None if y is None else (x, y)

  def final(self, s):
    return self.a.final(s[0]) and self.b.final(s[1])

  def next(self, s):
    return self.a.next(s[0]) & self.b.next(s[1])


def included(a, b, limit=200000):
  """A string of acceptor a that b rejects, or None; and states explored."""
  start = (a.start, b.start)
  parent = {start: None}
  todo = collections.deque([start])
  while todo:
    k = todo.popleft()
    s, u = k
    if a.final(s) and (u is None or not b.final(u)):
      return show(_witness(parent, k)), len(parent)
    if len(parent) > limit:
      raise Cannot('state limit')
    for c in sorted(a.next(s), key=str):
      s2 = a.step(s, c)
      if s2 is None:
        continue
      u2 = None if u is None else b.step(u, c)
      k2 = (s2, u2)
      if k2 not in parent:
        parent[k2] = (k, c)
        todo.append(k2)
  return None, len(parent)


def completion(filt, state, limit=20000):
  """A shortest string leading from state to a final one, or None."""
  if isinstance(filt, AnyOf):
    return ()
  parent = {state: None}
  todo = collections.deque([state])
  while todo:
    k = todo.popleft()
    if filt.final(k):
      return _witness(parent, k)
    if len(parent) > limit:
      raise Cannot('no completion found')
    for c in sorted(filt.next(k), key=str):
      k2 = filt.step(k, c)
      if k2 is not None and k2 not in parent:
        parent[k2] = (k, c)
        todo.append(k2)
  return None


def _witness(parent, k):
  out = []
  while parent[k] is not None:
    k, c = parent[k]
    out.append(c)
  return tuple(reversed(out))


class Failure(tuple):
  """(witness, kind, detail); diff is the first differing pair of symbols."""

  def __new__(cls, t, diff=None):
    self = super().__new__(cls, t)
    self.diff = diff
    return self


class Result:

  def __init__(self, states, transitions, failures):
    self.states, self.transitions, self.failures = states, transitions, failures


def compare(a, b, filt, limit=2000000, max_failures=20, view=None,
            partial=None):
  """Explores the product of machines a and b over the language of `filt`.

  Reports strings of the language on which the outputs differ, or on which one
  machine rejects.  `view` maps an output symbol to the symbols compared (for
  comparison up to an equivalence).  `partial`: None - both must accept;
  'both' - rejecting alike is fine; 'domain' - b defines the domain, a must
  accept whatever b accepts.  Failures are grouped by kind and first
  differing pair of symbols, with one (shortest) witness per group.
  Returns Result; failures are (witness, kind, detail).
  """
  view = view or (lambda x: (x,))
  vm = {}

  def V(o):
    if not o:
      return o
    r = ()
    for x in o:
      v = vm.get(x)
      if v is None:
        v = vm[x] = tuple(view(x))
      r += v
    return r

  def delay(d, oa, ob):
    """d = (pending of a, pending of b), one of them empty."""
    x, y = d[0] + V(oa), d[1] + V(ob)
    k = 0
    m = min(len(x), len(y))
    while k < m and x[k] == y[k]:
      k += 1
    x, y = x[k:], y[k:]
    if x and y:
      return None
    return (x, y)

  start = (filt.start, a.start, b.start, ((), ()))
  parent = {start: None}
  todo = collections.deque([start])
  fails = []
  trans = 0

  groups = set()

  def fail(k, c, kind, detail, diff=None):
    g = (kind, diff if diff is not None else detail)
    if g in groups:
      return
    w = _witness(parent, k)
    if c is not None:
      rest = completion(filt, filt.step(k[0], c))
      if rest is None:
        return
      w += (c,) + rest
    groups.add(g)
    fails.append(Failure((show(w), kind, detail), diff))

  def first(x, y):
    for p, q in itertools.zip_longest(x, y):
      if p != q:
        return (p, q)

  while todo and len(fails) < max_failures:
    k = todo.popleft()
    f, sa, sb, d = k
    if filt.final(f):
      try:
        ea, eb = a.end(sa), b.end(sb)
      except Ambiguous as e:
        fail(k, None, 'ambiguous', _outs(e))
        continue
      if ea is None or eb is None:
        if not (partial and ea is None and eb is None or
                partial == 'domain' and eb is None):
          fail(k, None, 'rejected', 'first' if ea is None else 'second')
      else:
        x, y = d[0] + V(ea), d[1] + V(eb)
        if x != y:
          fail(k, None, 'differs', '%r / %r' % (show(x), show(y)),
               first(x, y))
    for c in sorted(filt.next(f), key=str):
      f2 = filt.step(f, c)
      if f2 is None:
        continue
      trans += 1
      try:
        ra, rb = a.step(sa, c), b.step(sb, c)
      except Ambiguous as e:
        fail(k, c, 'ambiguous', _outs(e))
        continue
      if partial == 'domain' and (
          rb is None or ra is None and completion(
              Both(filt, Domain(b)), (f2, rb[0])) is None):
        continue
      if ra is None or rb is None:
        if not (partial == 'both' and ra is None and rb is None):
          fail(k, c, 'rejected', 'first' if ra is None else 'second')
        continue
      d2 = delay(d, ra[1], rb[1])
      if d2 is None:
        fail(k, c, 'differs', '%r / %r' % (
            show(d[0] + V(ra[1])), show(d[1] + V(rb[1]))),
             first(d[0] + V(ra[1]), d[1] + V(rb[1])))
        continue
      if len(d2[0]) > 60 or len(d2[1]) > 60:
        raise Cannot('unbounded delay')
      k2 = (f2, ra[0], rb[0], d2)
      if k2 not in parent:
        parent[k2] = (k, c)
        todo.append(k2)
        if len(parent) > limit:
          raise Cannot('more than %d product states' % limit)
  return Result(len(parent), trans, fails)


def _outs(e):
  return '%s: %s' % (e, ', '.join(
      repr(show(o)) if not (o and isinstance(o[0], tuple) and o[0]
                            and o[0][0] != 'sym') else repr(o)
      for o in sorted(e.outs, key=str)))


def reduced(alphabet, *ms, keep=2, acceptors=()):
  """Representatives of the symbols that the machines only copy.

  A symbol that no rule mentions, and that occurs in contexts only as a
  one-symbol alternative, is copied without influencing anything but those
  contexts; two representatives of each class of such symbols stand for all.
  Returns (alphabet, number of classes merged).
  """
  flat = []
  for m in ms:
    flat.extend(m.ms if isinstance(m, Pipe) else [m])
  busy = set()
  sig = collections.defaultdict(list)
  for k, m in enumerate(flat):
    if isinstance(m, CdRewrite):
      for i, os in m.pairs.items():
        busy.update(i)
        for o in os:
          busy.update(o)
      for side, ctx in (('l', m.left), ('r', m.right)):
        for s in ctx or ():
          if len(s) > 1:
            busy.update(s)
          elif s:
            sig[s[0]].append((k, side))
      if m.sigma is not None:
        for c in m.sigma:
          sig[c].append((k, 's'))
    elif isinstance(m, Identity):
      for c in m.chars or ():
        sig[c].append((k, 'i'))
    else:
      return set(alphabet), 0
  for k, a in enumerate(acceptors):
    for q, d in enumerate(a.n.by):
      for c, arcs in d.items():
        if c is not None:
          sig[c].extend((k, 'a', q, r) for _, _, r in arcs)
  out = set()
  classes = collections.defaultdict(list)
  for c in sorted(alphabet, key=str):
    if c in busy:
      out.add(c)
    else:
      classes[tuple(sorted(set(sig[c])))].append(c)
  for cs in classes.values():
    out.update(cs[:keep])
  return out, len(classes)


def preserves(m, filt, target, limit=500000, max_failures=10):
  """Strings of `filt` whose image under m the acceptor `target` rejects."""
  start = (filt.start, m.start, target.start)
  parent = {start: None}
  todo = collections.deque([start])
  fails = []
  trans = 0

  def feed(t, out):
    for x in out:
      if t is None:
        return None
      t = target.step(t, x)
    return t

  while todo and len(fails) < max_failures:
    k = todo.popleft()
    f, s, t = k
    if filt.final(f):
      e = m.end(s)
      t2 = None if e is None else feed(t, e)
      if t2 is None or not target.final(t2):
        fails.append((show(_witness(parent, k)), 'rejected', ''))
        continue
    for c in sorted(filt.next(f), key=str):
      f2 = filt.step(f, c)
      if f2 is None:
        continue
      trans += 1
      try:
        r = m.step(s, c)
      except Ambiguous as e:
        fails.append((show(_witness(parent, k) + (c,)), 'ambiguous', _outs(e)))
        continue
      t2 = None if r is None else feed(t, r[1])
      if r is None or t2 is None:
        # Every completion of this input within the filter is a failure.
        rest = completion(filt, f2)
        if rest is not None:
          fails.append((show(_witness(parent, k) + (c,) + rest), 'rejected',
                        ''))
        continue
      k2 = (f2, r[0], t2)
      if k2 not in parent:
        parent[k2] = (k, c)
        todo.append(k2)
        if len(parent) > limit:
          raise Cannot('more than %d product states' % limit)
  return Result(len(parent), trans, fails)



class Table(Machine):
  """An explicit, onward, minimal sequential transducer.

  delta[s] = {symbol: (next, out)}; fin[s] = final output or absent; `lead`
  is emitted before the first symbol is read (kept apart: see `step`).
  """

  def __init__(self, delta, fin, start, lead):
    super().__init__()
    self.delta, self.fin, self.lead = delta, fin, lead
    self.start = start if not lead else ('lead', start)

  def step(self, s, c):
    if type(s) is tuple:
      r = self.delta[s[1]].get(c)
      return None if r is None else (r[0], self.lead + r[1])
    return self.delta[s].get(c)

  def end(self, s):
    if type(s) is tuple:
      f = self.fin.get(s[1])
      return None if f is None else self.lead + f
    return self.fin.get(s)

  def __len__(self):
    return len(self.delta)


def tabulate(m, alphabet, limit=400000):
  """The explicit machine of m over an alphabet; Ambiguous propagates."""
  index = {m.start: 0}
  todo = [m.start]
  delta, fin = [], {}
  alphabet = sorted(alphabet, key=str)
  k = 0
  while k < len(todo):
    s = todo[k]
    e = m.end(s)
    if e is not None:
      fin[k] = e
    d = {}
    for c in alphabet:
      r = m.step(s, c)
      if r is None:
        continue
      n = index.get(r[0])
      if n is None:
        n = index[r[0]] = len(todo)
        todo.append(r[0])
        if len(todo) > limit:
          raise Cannot('more than %d states' % limit)
      d[c] = (n, r[1])
    delta.append(d)
    k += 1
  return _minimize(delta, fin)


def _lcp(a, b):
  if a is None:
    return b
  k = 0
  m = min(len(a), len(b))
  while k < m and a[k] == b[k]:
    k += 1
  return a if k == len(a) else a[:k]


def _minimize(delta, fin):
  n = len(delta)
  # Trim states that cannot reach a final one.
  back = collections.defaultdict(set)
  for s, d in enumerate(delta):
    for t, _ in d.values():
      back[t].add(s)
  alive = set(fin)
  stack = list(fin)
  while stack:
    for p in back[stack.pop()]:
      if p not in alive:
        alive.add(p)
        stack.append(p)
  if 0 not in alive:
    return Table([{}], {}, 0, ())
  delta = [{c: (t, o) for c, (t, o) in d.items() if t in alive}
           for d in delta]
  # Longest common prefixes of all futures (greatest fixpoint from above).
  pre = [None] * n
  todo = collections.deque(alive)
  queued = set(alive)
  while todo:
    s = todo.popleft()
    queued.discard(s)
    p = fin.get(s)
    for t, o in delta[s].values():
      if pre[t] is None:
        continue
      if p is not None and len(p) == 0:
        break
      p = _lcp(p, o + pre[t])
    if p != pre[s]:
      pre[s] = p
      for q in back[s]:
        if q in alive and q not in queued:
          queued.add(q)
          todo.append(q)
  lead = pre[0]
  nd = []
  for s, d in enumerate(delta):
    if s not in alive:
      nd.append({})
      continue
    k = len(pre[s])
    nd.append({c: (t, (o + pre[t])[k:]) for c, (t, o) in d.items()})
  nf = {s: f[len(pre[s]):] for s, f in fin.items()}
  # Partition refinement.
  block = [0] * n
  sig = {}
  for s in range(n):
    key = (s in alive, nf.get(s), tuple(sorted(
        ((c, o) for c, (t, o) in nd[s].items()), key=str)))
    block[s] = sig.setdefault(key, len(sig))
  count = len(sig)
  order = [sorted(d, key=str) for d in nd]
  while True:
    sig = {}
    new = [0] * n
    for s in range(n):
      d = nd[s]
      key = (block[s],) + tuple(block[d[c][0]] for c in order[s])
      new[s] = sig.setdefault(key, len(sig))
    block = new
    if len(sig) == count:
      break
    count = len(sig)
  rep = {}
  for s in range(n):
    rep.setdefault(block[s], s)
  out, fout, ren = [], {}, {}
  work = [block[0]]
  ren[block[0]] = 0
  k = 0
  while k < len(work):
    s = rep[work[k]]
    d = {}
    for c, (t, o) in nd[s].items():
      b = block[t]
      if b not in ren:
        ren[b] = len(work)
        work.append(b)
      d[c] = (ren[b], o)
    out.append(d)
    if s in nf:
      fout[k] = nf[s]
    k += 1
  return Table(out, fout, 0, lead)


_TAB = {}


def compiled(m, alphabet, limit=400000):
  """Minimal machine of a chain over an alphabet, composed stage by stage."""
  alphabet = frozenset(alphabet)
  ms = m.ms if isinstance(m, Pipe) else [m]
  key = alphabet
  cur = None
  for k, x in enumerate(ms):
    key = (key, id(x))
    t = _TAB.get(key)
    if t is None:
      t = tabulate(x if cur is None else Pipe([cur, x]), alphabet, limit)
      _TAB[key] = t
      t.keep = x
    cur = t
  return cur


# --- byte twins ---------------------------------------------------------------


def sigma_of(t):
  """The character alphabet term that a utf8 rewrite cascade is declared over."""
  best = None
  for x in terms.subterms(t):
    if x.op == 'cdrewrite' and x.args[3].op == 'closure':
      s = x.args[3].args[0]
      if s.op != 'class' and (best is None or _size(s) < _size(best)):
        best = s
  return best


def _size(s):
  try:
    return len(symbols_of(s))
  except Cannot:
    return 1 << 30


def lift(t, sigma=None):
  """The character-level reading of a byte-level term.

  Strings become strings of characters, `any byte` becomes the alphabet
  `sigma`; valid UTF-8 text is rewritten alike by both.
  """
  memo = {}

  def f(x):
    if isinstance(x, tuple):
      return tuple(f(y) for y in x)
    if not isinstance(x, terms.Term):
      return x
    r = memo.get(x)
    if r is None:
      r = memo[x] = g(x)
    return r

  def g(x):
    if x.op == 'str':
      return terms.mk('str', x.args[0], 'utf8')
    if x.op == 'class' and x.args[0] == 'BYTE' and sigma is not None:
      return sigma
    if x.op == 'union':
      return terms.union([f(y) for y in x.args[0]])
    a = tuple('utf8' if y == 'byte' else f(y) for y in x.args)
    return terms.mk(x.op, *a)

  return f(t)
