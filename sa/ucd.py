"""Reference machines from the Unicode character database."""

import functools
import unicodedata as ud

from . import seq


@functools.lru_cache(None)
def nfd1(c):
  """Full canonical decomposition of one symbol."""
  return tuple(ud.normalize('NFD', c)) if isinstance(c, str) else (c,)


def ccc(c):
  return ud.combining(c) if isinstance(c, str) else 0


@functools.lru_cache(None)
def compose2(a, b):
  """The primary composite of a + b, or None."""
  if not (isinstance(a, str) and isinstance(b, str)):
    return None
  s = ud.normalize('NFC', a + b)
  if len(s) == 1 and ud.normalize('NFD', s) == ud.normalize('NFD', a + b):
    return s
  return None


class Nfc(seq.Machine):
  """Canonical decomposition followed by composition of adjacent characters.

  Equals Unicode NFC on strings whose combining marks are in canonical order
  and where a mark composes only with its immediate neighbour (see Ordered).
  """

  def __init__(self):
    super().__init__()
    self.start = None

  def _step(self, pend, c):
    out = ()
    for d in nfd1(c):
      k = compose2(pend, d) if pend is not None else None
      if k is not None:
        pend = k
      else:
        if pend is not None:
          out += (pend,)
        pend = d
    return pend, out

  def end(self, pend):
    return () if pend is None else (pend,)


class Ordered:
  """Filter: strings on which adjacent composition is full NFC.

  Combining marks appear in canonical order, and no mark could compose with a
  base from which other marks separate it.
  """

  def __init__(self, alphabet):
    self.alphabet = set(alphabet)
    self.start = (None, None, 0)      # composed base, last char, its class

  def next(self, s):
    return self.alphabet

  def step(self, s, c):
    base, last, cl = s
    for d in nfd1(c):
      k = ccc(d)
      if k and cl > k:
        return None
      if base is not None and last is not None and last != base:
        # d is separated from the base by marks.
        if (k and cl < k) and compose2(base, d) is not None:
          return None
        if not k and cl == 0 and compose2(base, d) is not None:
          return None
      if last is not None and last == base:
        x = compose2(base, d)
        if x is not None:
          base = last = x
          cl = k
          continue
      if k == 0:
        base = d
      last = d
      cl = k
    return (base, last, cl)

  def final(self, s):
    return True


class Composed:
  """Filter: strings without composable pairs or decomposable characters."""

  def __init__(self, alphabet):
    self.alphabet = {c for c in alphabet if not isinstance(c, str) or
                     ud.normalize('NFC', c) == c}
    self.start = None

  def next(self, s):
    return self.alphabet

  def step(self, s, c):
    if c not in self.alphabet or s is not None and compose2(s, c):
      return None
    return c if isinstance(c, str) else None

  def final(self, s):
    return True


def category(c):
  return ud.category(c) if isinstance(c, str) else 'Sym'


def name(c):
  return ud.name(c, 'U+%04X' % ord(c)) if isinstance(c, str) else str(c)


def hexes(s):
  return ' '.join('%04X' % ord(c) for c in s)
