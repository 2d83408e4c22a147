"""Automata of grammar terms, for questions the sequential engine cannot reach.

The terms that abstract interpretation extracts are compiled to finite-state
transducers with the OpenFst algorithms (through pynini, used as an automata
library only: nothing of the repository is imported), and questions about all
strings are decided on them: inclusion, equivalence, functionality, the shape
of the output language.
"""

import collections

import pynini
from pynini.lib import byte as _byte
from pynini.lib import utf8 as _utf8

from . import terms

ONE = pynini.accep('')


class Cannot(Exception):
  pass


_MEMO = {}
_KEEP = []


def _opt(f):
  return f.optimize()


def fst(t):
  """The transducer of term t."""
  stack = [t]
  while stack:
    x = stack[-1]
    if x.id in _MEMO:
      stack.pop()
      continue
    kids = [y for y in _children(x) if y.id not in _MEMO]
    if kids:
      stack.extend(kids)
      continue
    _MEMO[x.id] = _make(x)
    _KEEP.append(x)
    stack.pop()
  return _MEMO[t.id]


def _children(t):
  for a in t.args:
    if isinstance(a, terms.Term):
      yield a
    elif isinstance(a, tuple):
      for y in a:
        if isinstance(y, terms.Term):
          yield y


def compose(fs):
  """Composition, cheapest neighbours first (it is associative)."""
  fs = list(fs)
  while len(fs) > 1:
    prod = [a.num_states() * b.num_states() for a, b in zip(fs, fs[1:])]
    i = prod.index(min(prod))
    fs[i:i + 2] = [_opt(pynini.compose(fs[i], fs[i + 1]))]
  return fs[0]


def _make(t):
  op, a = t.op, t.args
  g = lambda x: _MEMO[x.id]
  if op == 'str':
    return pynini.accep(a[0], token_type=a[1])
  if op in ('smap', 'sfile'):
    rows = [[e[0], e[1], str(e[2])] if e[2] else [e[0], e[1]] for e in a[0]]
    if not rows:
      return pynini.Fst()
    tok = a[1] if len(a) > 1 and isinstance(a[1], str) else 'byte'
    out = a[2] if len(a) > 2 and isinstance(a[2], str) else tok
    return pynini.string_map(rows, input_token_type=tok, output_token_type=out)
  if op == 'empty':
    return pynini.Fst()
  if op == 'union':
    return _opt(pynini.union(*[g(x) for x in a[0]])) if a[0] else pynini.Fst()
  if op == 'concat':
    out = pynini.accep('')
    for x in a[0]:
      out = out + g(x)
    return _opt(out)
  if op == 'compose':
    return compose([g(x) for x in a[0]])
  if op == 'closure':
    lo, hi = a[1], a[2]
    return _opt(pynini.closure(g(a[0]), lo, hi or 0))
  if op == 'cross':
    return pynini.cross(g(a[0]), g(a[1]))
  if op == 'invert':
    return pynini.invert(g(a[0]))
  if op == 'project':
    return _opt(pynini.project(g(a[0]), a[1]).rmepsilon())
  if op == 'difference':
    b = pynini.determinize(pynini.epsnormalize(g(a[1])).rmepsilon())
    return _opt(pynini.difference(g(a[0]), b))
  if op == 'intersect':
    return _opt(pynini.intersect(g(a[0]), g(a[1])))
  if op == 'weighted':
    return g(a[0]) + pynini.accep('', weight=a[1])
  if op == 'cdrewrite':
    tau, l, r, sigma = (g(x) for x in a[:4])
    direction = a[4] if len(a) > 4 else 'ltr'
    mode = a[5] if len(a) > 5 else 'obl'
    return _opt(pynini.cdrewrite(tau, l, r, sigma, direction, mode))
  if op == 'class':
    if a[0] == 'VALID_UTF8_CHAR':
      return _utf8.VALID_UTF8_CHAR
    return getattr(_byte, a[0])
  if op == 'manual':
    f = pynini.Fst()
    s, e = f.add_state(), f.add_state()
    f.set_start(s)
    f.set_final(e)
    for i, o in a[0]:
      if not isinstance(i, int) or not isinstance(o, int):
        raise Cannot('symbolic label')
      f.add_arc(s, pynini.Arc(i, o, pynini.Weight.one('tropical'), e))
    return f
  raise Cannot(op)


# --- decisions ---------------------------------------------------------------


def unweighted(f):
  return pynini.arcmap(f, map_type='rmweight')


def inputs(f):
  return unweighted(pynini.project(f, 'input').rmepsilon()).optimize()


def outputs(f):
  return unweighted(pynini.project(f, 'output').rmepsilon()).optimize()


def dfa(a):
  return pynini.determinize(unweighted(a).rmepsilon()).minimize()


def example(a, tok='byte'):
  """A shortest string of acceptor a, or None if it is empty."""
  a = unweighted(a).connect()
  if a.start() == -1:
    return None
  one = pynini.arcmap(a, map_type='plus', weight=1.0)
  s = pynini.shortestpath(one)
  labels = []
  q = s.start()
  while True:
    arcs = list(s.arcs(q))
    if not arcs:
      break
    if arcs[0].ilabel:
      labels.append(arcs[0].ilabel)
    q = arcs[0].nextstate
  return text(labels, tok)


def text(labels, tok='byte'):
  if tok == 'byte' and all(x < 256 for x in labels):
    return bytes(labels).decode('utf8', 'backslashreplace')
  return ''.join(chr(x) if x < 0xE000 or x > 0x10FFFF else '<%d>' % x
                 for x in labels)


def missing(a, b, tok='byte'):
  """A shortest string of acceptor a that acceptor b does not accept."""
  return example(pynini.difference(unweighted(a), dfa(b)), tok)


def paths(f, s, n=4, tok='byte'):
  """Some outputs of f on string s (for messages)."""
  l = pynini.compose(pynini.accep(pynini.escape(s), token_type=tok), f)
  l = unweighted(pynini.project(l, 'output')).rmepsilon()
  if l.connect().start() == -1:
    return []
  return list(pynini.shortestpath(l, nshortest=n, unique=True).paths(
      output_token_type=tok).ostrings())


def best(f, s, tok='byte'):
  """The output of least weight of f on string s, or None."""
  l = pynini.compose(pynini.accep(pynini.escape(s), token_type=tok), f)
  l = pynini.shortestpath(l)
  return next(iter(l.paths(output_token_type=tok).ostrings()), None)


def not_identity(f, tok='byte', limit=2000000):
  """A pair (i, o) of relation f with i != o, or None if f is an identity.

  Every state of a trim transducer that computes an identity has one delay:
  the label string by which one side is ahead.
  """
  f = unweighted(f).connect()
  s0 = f.start()
  if s0 == -1:
    return None
  delay = {s0: (0, ())}
  back = {s0: None}
  todo = [s0]

  def norm(i, o):
    k = 0
    while k < len(i) and k < len(o) and i[k] == o[k]:
      k += 1
    i, o = i[k:], o[k:]
    if i and o:
      return None
    return (1, i) if i else (-1, o) if o else (0, ())

  def path(s):
    i, o = [], []
    while back[s] is not None:
      s, arc = back[s]
      i.append(arc[0])
      o.append(arc[1])
    return i[::-1], o[::-1]

  def rest(s):
    # A shortest completion.
    seen = {s: None}
    q = [s]
    for x in q:
      if float(f.final(x)) != float('inf'):
        i, o = [], []
        while seen[x] is not None:
          x, arc = seen[x]
          i.append(arc[0])
          o.append(arc[1])
        return i[::-1], o[::-1]
      for arc in f.arcs(x):
        if arc.nextstate not in seen:
          seen[arc.nextstate] = (x, (arc.ilabel, arc.olabel))
          q.append(arc.nextstate)
    return [], []

  def witness(s, arc=None):
    i, o = path(s)
    if arc is not None:
      i, o = i + [arc.ilabel], o + [arc.olabel]
      s = arc.nextstate
    i2, o2 = rest(s)
    return (text([x for x in i + i2 if x], tok),
            text([x for x in o + o2 if x], tok))

  pos = 0
  while pos < len(todo):
    s = todo[pos]
    pos += 1
    d, w = delay[s]
    if float(f.final(s)) != float('inf') and w:
      return witness(s)
    for arc in f.arcs(s):
      i = (w if d > 0 else ()) + ((arc.ilabel,) if arc.ilabel else ())
      o = (w if d < 0 else ()) + ((arc.olabel,) if arc.olabel else ())
      n = norm(i, o)
      if n is None:
        return witness(s, arc)
      if arc.nextstate not in delay:
        delay[arc.nextstate] = n
        back[arc.nextstate] = (s, (arc.ilabel, arc.olabel))
        todo.append(arc.nextstate)
      elif delay[arc.nextstate] != n:
        # Two delays: the completion exposes one of the two paths.
        a = witness(s, arc)
        if a[0] != a[1]:
          return a
        b = witness(arc.nextstate)
        if b[0] != b[1]:
          return b
        return a
    if pos > limit:
      raise Cannot('too many states')
  return None


def two_outputs(f, tok='byte'):
  """Two different outputs f has for one input, or None if f is functional."""
  f = unweighted(f)
  return not_identity(pynini.compose(pynini.invert(f), f), tok)


def ambiguous(f, tok='byte'):
  """(input, output, other output), or None if f is functional."""
  r = two_outputs(f, tok)
  if r is None:
    return None
  u = unweighted(f)
  side = lambda o: inputs(pynini.compose(u, pynini.accep(
      pynini.escape(o), token_type=tok)))
  try:
    w = example(pynini.intersect(side(r[0]), side(r[1])), tok)
  except pynini.FstOpError:
    w = None
  return (w,) + tuple(r)


def differ(f, g, tok='byte'):
  """(output of f, output of g) on one input, or an input only one accepts."""
  a, b = inputs(f), inputs(g)
  m = missing(a, b, tok)
  if m is not None:
    return ('only the first accepts', m)
  m = missing(b, a, tok)
  if m is not None:
    return ('only the second accepts', m)
  r = not_identity(pynini.compose(pynini.invert(unweighted(f)),
                                  unweighted(g)), tok)
  if r is not None:
    return ('outputs', r)
  return None


def contained(f, g, tok='byte'):
  """A string f rewrites in a way g does not, or None.  Sound when None: the
  label paths of f are among those of g."""
  enc = pynini.EncodeMapper('standard', encode_labels=True)
  a = unweighted(f).encode(enc)
  b = unweighted(g).encode(enc)
  d = pynini.difference(a, pynini.determinize(b.rmepsilon()))
  if d.connect().start() == -1:
    return None
  d.decode(enc)
  return example(pynini.project(d, 'input').rmepsilon(), tok)


def alphabet(f, side='output'):
  out = set()
  f = f.copy().connect()
  for s in f.states():
    for arc in f.arcs(s):
      out.add(arc.olabel if side == 'output' else arc.ilabel)
  out.discard(0)
  return out


def outside(f, r, words=None, tok='byte', limit=400000, lag=20):
  """(input, output of f) that relation r lacks, or None.

  r need not be functional: the set of r's states that agree with what f has
  read and written is tracked along each path of f, each with what one of the
  two has written beyond the other (`lag` symbols at most: r's pairs are short,
  so that agreement never needs more).
  """
  f = unweighted(f)
  if words is not None:
    f = pynini.compose(words, f)
  f = f.copy().connect()
  if f.start() == -1:
    return None
  r = unweighted(r).copy().connect()
  f = f.rmepsilon()
  r = r.rmepsilon()
  fin = pynini.Weight.zero(f.weight_type())
  zr = pynini.Weight.zero(r.weight_type())
  rfinal = {s for s in r.states() if r.final(s) != zr}
  by = {}
  for s in r.states():
    for a in r.arcs(s):
      by.setdefault((s, a.ilabel), []).append((a.nextstate, a.olabel))

  def emit(d, x, mine):
    """Delay d after the output x of f (mine) or of r; None: disagreement."""
    if not x:
      return d
    side, s = d
    if not s or side == mine:
      return (mine, s + (x,))
    if s[0] != x:
      return None
    return (side, s[1:]) if len(s) > 1 else (True, ())

  def spread(items):
    seen, todo = set(items), list(items)
    while todo:
      s, d = todo.pop()
      for q, o in by.get((s, 0), ()):
        e = emit(d, o, False)
        if e is not None and len(e[1]) <= lag and (q, e) not in seen:
          seen.add((q, e))
          todo.append((q, e))
    return frozenset(seen)

  def advance(items, i, o):
    out = set()
    for s, d in items:
      e = emit(d, o, True)
      if e is None:
        continue
      if not i:
        out.add((s, e))
        continue
      for q, x in by.get((s, i), ()):
        e2 = emit(e, x, False)
        if e2 is not None and len(e2[1]) <= lag:
          out.add((q, e2))
    return spread(out)

  start = (f.start(), spread({(r.start(), (True, ()))}))
  back = {start: None}
  todo = collections.deque([start])
  while todo:
    k = todo.popleft()
    s, items = k
    bad = not items or f.final(s) != fin and not any(
        q in rfinal and not d[1] for q, d in items)
    if bad:
      # The path so far, completed to a path of f.
      i, o = [], []
      x = k
      while back[x]:
        x, a, b = back[x]
        i.append(a)
        o.append(b)
      i, o = i[::-1], o[::-1]
      if f.final(s) == fin or not items:
        g = f.copy()
        g.set_start(s)
        p = pynini.shortestpath(pynini.arcmap(g, map_type='plus', weight=1.0))
        q = p.start()
        while q != -1:
          arcs = list(p.arcs(q))
          if not arcs:
            break
          i.append(arcs[0].ilabel)
          o.append(arcs[0].olabel)
          q = arcs[0].nextstate
      return (text([x for x in i if x], tok), text([x for x in o if x], tok))
    for a in f.arcs(s):
      n = (a.nextstate, advance(items, a.ilabel, a.olabel))
      if n not in back:
        if len(back) > limit:
          raise Cannot('too many states')
        back[n] = (k, a.ilabel, a.olabel)
        todo.append(n)
  outside.states = len(back)
  return None
outside.states = 0
