"""NFC grammars equal Unicode NFC on every string of their domain.

Each entry of the NFC archives is extracted from the grammar sources as a
term, turned into a sequential machine, and its product with a reference
machine derived from the Unicode character database is explored to the end:
every string over the script's alphabet whose combining marks are in canonical
order (the grammars compose adjacent characters; they never reorder).
"""

import collections
import unicodedata

from . import common
from .. import seq
from .. import ucd

LEVEL = 'proof'


def check(ctx, n, entry, term, where, restrict=None):
  m = seq.machine(term)
  a = common.alphabet(m)
  if restrict:
    a = {c for c in a if restrict(c)}
  a = {c for c in a if isinstance(c, str)}
  ctx.ob('alphabet', entry, len(a) >= 20, where, '%d symbols' % len(a))
  # Nothing Unicode normalizes is left out of the domain: every character of
  # the blocks the script occupies that has a canonical decomposition.
  blocks = collections.Counter(ord(c) >> 7 for c in a if ord(c) > 0x37f)
  own = {c for b, k in blocks.items() if k >= 20 for c in map(
      chr, range(b << 7, (b + 1) << 7)) if ucd.nfd1(c) != (c,)}
  ctx.ob('composites-in-alphabet', entry, own <= a or bool(restrict), where,
         'not read by the grammar: ' + common.hexes(sorted(own - a)))
  r, _ = seq.reduced(a, m)
  # Anything Unicode itself treats specially is kept besides what the rules
  # mention; all other symbols are copied by both sides.
  r |= {c for c in a if ucd.nfd1(c) != (c,) or ucd.ccc(c)}
  r |= {x for c in r for x in ucd.nfd1(c)} & a
  r |= {x for c in a for d in a for x in (c, d) if ucd.compose2(c, d)}
  missing = {x for c in a for x in ucd.nfd1(c)
             if unicodedata.normalize('NFC', c) != c} - a
  ctx.ob('decompositions-in-alphabet', entry, not missing, where,
         common.hexes(sorted(missing)))
  res = n.add(seq.compare(seq.compiled(m, r), ucd.Nfc(), ucd.Ordered(r)))
  common.report(ctx, 'nfc-equals-unicode', entry, where, res,
                '(grammar / Unicode)')


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  jobs = []
  ar = common.Archives(p, common.BRAHMIC, ['nfc'])
  for s in common.SCRIPTS:
    where = 'nisaba/scripts/brahmic/data/%s/nfc.textproto' % s
    ctx.analysed.add(where)
    for kind in ar.KINDS:
      ctx.ob('entry', '%s (%s)' % (s, kind), s.upper() in ar.far('nfc', kind),
             where, 'no NFC grammar for the script')
  # The pan-Brahmic grammar is declared over the alphabets of all scripts.
  names = sorted(set(ar.far('nfc')) | set(ar.far('nfc', 'byte')))
  for tag, kind, e in ar.items({e: [('nfc', e)] for e in names}):
    if e not in ar.far('nfc', kind):
      continue
    where = 'nisaba/scripts/brahmic/data/%s/nfc.textproto' % e.capitalize()
    if e.capitalize() not in common.SCRIPTS:
      where = 'nisaba/scripts/brahmic/nfc.py'
    jobs.append((tag, ar.far('nfc', kind)[e], where, None))
  ab = common.Archives(p, common.ABJAD, ['nfc'])
  for tag, kind, e in ab.items({e: [('nfc', e)] for e in ab.far('nfc')}):
    where = 'nisaba/scripts/abjad_alphabet/data/%s/nfc.textproto' % (
        e.capitalize())
    ctx.analysed.add(where)
    jobs.append((tag, ab.far('nfc', kind)[e], where,
                 lambda c: isinstance(c, str) and
                 ucd.name(c).startswith('ARABIC')))
  common.parallel(ctx, n, lambda c, n, j: check(c, n, *j), jobs)
  ctx.analysed.update(['nisaba/scripts/brahmic/nfc.py',
                       'nisaba/scripts/abjad_alphabet/nfc.py',
                       'nisaba/scripts/utils/rewrite.py'])
  ctx.floor('nfc-equals-unicode', 22)
  ctx.assumptions.append(
      'combining marks in canonical order; no mark separated by other marks '
      'from a base it composes with')
