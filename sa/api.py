"""What a call of the Python API computes, as a relation on its text argument.

The API function is interpreted with an unknown text (absint.Sym); each path
gives the conditions it was taken under and its outcome, both reduced to
normal forms over "the text rewritten by the FSTs F1, F2, ..." so that
different ways of writing the same pipeline compare equal.
"""

from . import absint
from . import terms


class Unknown(Exception):
  """The value is not of a form that the analysis understands."""


def stages(term):
  """(source, [FST terms]) of a rewritten unknown text."""
  if term.op == 'shortestpath':
    term = term.args[0]
  parts = list(term.args[0]) if term.op == 'compose' else [term]
  head = parts[0]
  if head.op == 'project' and len(parts) == 1:
    return stages(head.args[0])
  if head.op not in ('escape', 'symstr'):
    raise Unknown('not a rewrite of the text: %r' % (term,))
  src, inner = source(terms.SYMS[head.args[0]])
  if head.op == 'symstr':
    inner = inner + ['text-not-escaped']
  return src, inner + parts[1:]


def source(s):
  if s.op == 'fst_string':
    return stages(s.args[0])
  if s.op in ('str',) and len(s.args) == 1 and isinstance(s.args[0],
                                                           absint.Sym):
    return source(s.args[0])
  return s, []


def nf(s):
  """Normal form of a text value."""
  src, st = source(s)
  return (src.key(), tuple(x if isinstance(x, str) else x.id for x in st))


def condition(s, value=True):
  """(normal form of a text, True if it has an image) and the polarity."""
  if s.op == 'not':
    return condition(s.args[0], not value)
  if s.op in ('bool', 'accepted') and isinstance(s.args[0], terms.Term):
    return ('accepts',) + _term_nf(s.args[0]), value
  if s.op == 'bool':
    return condition(s.args[0], value)
  if s.op in ('start', 'num_states'):
    return condition(absint.Sym('!=', (s, 0)), value)
  if s.op in ('==', '!=', '<', '<=', '>', '>='):
    a, b = s.args
    op = s.op
    if isinstance(b, absint.Sym) and not isinstance(a, absint.Sym):
      a, b = b, a
      op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if isinstance(a, absint.Sym) and isinstance(b, int):
      lo = {'start': -1, 'num_states': 0}.get(a.op)
      if lo is not None:
        table = {('==', lo): False, ('!=', lo): True, ('>', lo): True,
                 ('<=', lo): False, ('>=', lo + 1): True,
                 ('<', lo + 1): False}
        k = table.get((op, b))
        if k is not None:
          return ('accepts',) + _term_nf(a.args[0]), value == k
  raise Unknown('condition %r' % (s,))


def _term_nf(t):
  src, st = stages(t)
  return src.key(), tuple(x if isinstance(x, str) else x.id for x in st)


def paths(interp, thunk):
  """[(conditions {nf: bool}, 'return'|'raise', value)] of a call."""
  out = []
  for decisions, kind, value in absint.explore(interp, thunk):
    c = {}
    ok = True
    for s, v, _ in decisions:
      k, p = condition(s, v)
      if c.get(k, p) != p:
        ok = False          # contradictory: not a path
      c[k] = p
    if ok:
      out.append((c, kind, value))
  return out


def rewritten(text, *fsts):
  """Normal form of `text` rewritten by the FSTs in turn."""
  st = []
  for f in fsts:
    st += list(f.args[0]) if f.op == 'compose' else [f]
  return (text.key(), tuple(x.id for x in st))


def accepts(text, *fsts):
  return ('accepts',) + rewritten(text, *fsts)
