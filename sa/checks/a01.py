"""Perso-Arabic visual and reading normalization are stable functions.

For every language of the archives, the normalizations extracted from the
grammar sources are compiled to minimal sequential machines and compared on
all strings of Arabic-script characters: single-valued and total; equal on
canonically equivalent texts; visually normalized text is canonically
composed; presentation forms normalize like the letters they stand for;
visual normalization of text without combining marks, and reading
normalization of any text, is idempotent; zero-width characters that the
normalization removes never survive.
"""

import unicodedata

from . import common
from .. import seq
from .. import ucd

LEVEL = 'proof'

# Tags of the ISO 639 languages and the one script of the archives.
LANGUAGES = 'AR AZB BAL CKB FA KS MS PA PRS PS SD UG UR UZ'.split()
FORMS = ('<initial>', '<medial>', '<final>', '<isolated>')


def form_of(c):
  """The text a presentation form stands for, or None."""
  d = unicodedata.decomposition(c).split()
  if not d or d[0] not in FORMS:
    return None
  return tuple(chr(int(x, 16)) for x in d[1:])


class Replace(seq.Machine):
  """Replaces single symbols."""

  def __init__(self, table):
    super().__init__()
    self.table, self.start = table, 0

  def _step(self, state, c):
    return 0, self.table.get(c, (c,))

  def end(self, state):
    return ()


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  base = 'nisaba/scripts/abjad_alphabet/data/Arab/'
  ar = common.Archives(p, common.ABJAD, ['nfc', 'visual_norm', 'reading_norm'])
  for l in LANGUAGES:
    for kind in ar.KINDS:
      ctx.ob('entry', '%s (%s)' % (l, kind),
             l in ar.far('visual_norm', kind) and
             l in ar.far('reading_norm', kind), base + l.lower(),
             'no normalization for the language')
  names = sorted(set(ar.far('visual_norm')) | set(ar.far('reading_norm')))
  entries = {l: [('nfc', 'ARAB'), ('visual_norm', l), ('reading_norm', l)]
             for l in names}
  for kind in ar.KINDS:
    todo = {name: tag for tag, k, name in ar.items(entries) if k == kind}
    if todo:
      languages(ctx, n, base, ar.far('nfc', kind)['ARAB'],
                ar.far('visual_norm', kind), ar.far('reading_norm', kind),
                todo)
  ctx.analysed.update(['nisaba/scripts/abjad_alphabet/visual_norm.py',
                       'nisaba/scripts/abjad_alphabet/visual_norm_common.py',
                       'nisaba/scripts/abjad_alphabet/reading_norm.py',
                       'nisaba/scripts/abjad_alphabet/util.py'])
  ctx.floor('idempotent', 14)
  ctx.assumptions.append(
      'canonical invariance: combining marks in canonical order')


def languages(ctx, n, base, nfc, vn, rn, tags):
  nf = seq.machine(nfc)
  v = {l: seq.machine(vn[l]) for l in sorted(vn) if l in tags}
  m = {l: seq.machine(rn[l]) for l in sorted(rn) if l in tags}
  full = {c for c in common.alphabet(nf) if isinstance(c, str)}
  arab = {c for c in full if ucd.name(c).startswith('ARABIC')}
  forms = {c: form_of(c) for c in arab if form_of(c)}
  letters = arab - set(forms)
  ctx.ob('alphabet', 'Arab', len(letters) > 150 and len(forms) > 600, base,
         '%d letters and marks, %d presentation forms' % (
             len(letters), len(forms)))
  r, _ = seq.reduced(letters, nf, *v.values(), *m.values())
  r |= {x for c in r for x in ucd.nfd1(c)} & letters
  unmarked = seq.AnyOf({c for c in r if unicodedata.category(c)[0] != 'M'})
  anyof = seq.AnyOf(r)
  ordered = seq.Both(ucd.Ordered(r), anyof)
  wide = r | set(forms) | {x for f in forms.values() for x in f} & full
  width = {c for c in full if c in '\u200b\u200c\u200d\u2060\ufeff'}

  def check(ctx, n, l):
    where = '%s%s/visual_norm.textproto' % (base, l.lower())
    ctx.analysed.add(where)

    def cmp(rule, x, y, f, note):
      common.report(ctx, rule, tags[l], where, n.add(seq.compare(x, y, f)), note)

    if l in v:
      t = seq.compiled(v[l], r)
      cmp('total', t, t, anyof, '')
      cmp('idempotent', seq.pipe(t, t), t, unmarked, '(twice / once)')
      cmp('canonical-invariant', seq.pipe(ucd.Nfc(), t), t, ordered,
          '(after NFC / directly)')
      cmp('output-normalized', seq.pipe(t, ucd.Nfc()), t, ordered,
          '(NFC of it / it)')
      # The law for a prefix of the chain implies it for the chain.
      ms = v[l].ms if isinstance(v[l], seq.Pipe) else [v[l]]
      for k in range(1, len(ms) + 1):
        tw = seq.compiled(seq.pipe(*ms[:k]), wide)
        res = n.add(seq.compare(seq.pipe(Replace(forms), tw), tw,
                                seq.AnyOf(wide)))
        if not res.failures:
          break
      common.report(ctx, 'presentation-forms', tags[l], where, res,
                    '(of the letters / of the form)')
      tz = seq.compiled(v[l], r | width)
      common.report(ctx, 'zero-width', tags[l], where, n.add(
          seq.preserves(tz, seq.AnyOf(r | width),
                        seq.AnyOf((full | r) - {'\u200b'}))))
    if l in m:
      where = '%s%s/reading_norm.textproto' % (base, l.lower())
      ctx.analysed.add(where)
      t = seq.compiled(m[l], r)
      cmp('reading-total', t, t, anyof, '')
      cmp('reading-idempotent', seq.pipe(t, t), t, anyof, '(twice / once)')

  common.parallel(ctx, n, check, sorted(tags))
