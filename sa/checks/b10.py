"""Reversible romanization of Perso-Arabic text loses nothing.

The chain script -> Latin -> script, extracted from the grammar sources as
sequential machines, equals the canonical composition of the text, for every
string over the characters of the romanization tables; the romanization is
single-valued there, and its output is free of Arabic letters.
"""

import unicodedata

from . import common
from .. import seq
from .. import ucd

LEVEL = 'proof'


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  base = 'nisaba/scripts/abjad_alphabet/'
  where = base + 'data/Arab/reversible_roman.textproto'
  ar = common.Archives(p, common.ABJAD, ['nfc', 'reversible_roman'])
  for tag, kind, _ in ar.items({'ARAB': [
      ('nfc', 'ARAB'), ('reversible_roman', 'FROM_ARAB'),
      ('reversible_roman', 'TO_ARAB')]}):
    analyse(ctx, n, tag, where, ar.far('nfc', kind),
            ar.far('reversible_roman', kind))
  ctx.analysed.update([where, base + 'reversible_roman.py', base + 'nfc.py',
                       base + 'data/Arab/nfc.textproto'])
  ctx.floor('round-trip', 1)


def analyse(ctx, n, tag, where, nfc, far):
  nfc = seq.machine(nfc['ARAB'])
  missing = [x for x in ('FROM_ARAB', 'TO_ARAB') if x not in far]
  if not ctx.ob('entries', tag, not missing, where, str(missing)):
    return
  f, t = seq.machine(far['FROM_ARAB']), seq.machine(far['TO_ARAB'])
  native = {c for c in common.alphabet(nfc)
            if isinstance(c, str) and ucd.name(c).startswith('ARABIC') and
            unicodedata.decomposition(c)[:1] != '<'}
  native = {c for c in native if seq.run(f, (c,)) is not None}
  ctx.ob('alphabet', tag, len(native) > 150, where,
         '%d characters' % len(native))
  d = seq.AnyOf(native)
  r = n.add(seq.compare(seq.pipe(f, t), nfc, d))
  common.report(ctx, 'round-trip', tag, where, r,
                '(script->Latin->script / NFC of the text)')
  r = n.add(seq.compare(seq.pipe(f, t), ucd.Nfc(),
                        seq.Both(ucd.Ordered(native), d)))
  common.report(ctx, 'round-trip-unicode', tag, where, r,
                '(script->Latin->script / Unicode NFC of the text)')

  class Latin:
    start = 0

    def step(self, s, c):
      if not isinstance(c, str) or 'ARABIC' in ucd.name(c):
        return None
      return 0

    def final(self, s):
      return True

  r = n.add(seq.preserves(f, d, Latin()))
  common.report(ctx, 'output-latin', tag, where, r)
