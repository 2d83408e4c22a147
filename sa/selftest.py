"""Positive examples: each engine must reject a tiny broken instance."""

from . import seq
from . import terms
from . import ucd


def _s(x):
  return terms.mk('str', x, 'utf8')


def _rw(a, b):
  star = terms.closure(terms.union([_s(c) for c in 'abc']), 0, None)
  return terms.mk('cdrewrite', terms.cross(_s(a), _s(b)), terms.EPS, terms.EPS,
                  star, 'ltr', 'obl')


def main():
  ok, bad = seq.machine(_rw('a', 'b')), seq.machine(_rw('ab', 'b'))
  f = seq.AnyOf('abc')
  assert not seq.compare(seq.pipe(ok, ok), ok, f).failures
  w = seq.compare(seq.pipe(bad, bad), bad, f).failures
  assert w and w[0][0] == 'aab', w
  assert seq.run(seq.pipe(ucd.Nfc()), tuple('\u0915\u093c')) is not None
  print('selftest ok')
  return 0
