"""Visual normalization is a stable, canonical-invariant function.

Each entry of the visual normalization archives is extracted as a chain of
context-dependent rewrites, compiled to its minimal sequential machine, and
compared on all strings: single-valued and total over the script's alphabet;
equal on canonically equivalent texts; and, on every well-formed text,
idempotent and canonically normalized, and still well-formed if the text was
canonically composed.  Joiners survive
only between a virama and a letter, and zero width spaces never do.
"""

import unicodedata

from . import common
from .. import seq
from .. import ucd

LEVEL = 'proof'


class JoinerLaw:
  """Acceptor: a joiner has a virama on one side, a letter on the other."""

  def __init__(self):
    self.start = '^'

  def _class(self, c):
    if c == '\u200b':
      return None
    if c in common.JOINERS:
      return 'J'
    if not isinstance(c, str):
      return None
    if ucd.ccc(c) == 9:
      return 'V'
    # A nukta (class 7) is part of its letter.
    return 'L' if unicodedata.category(c) == 'Lo' or ucd.ccc(c) == 7 else 'x'

  def step(self, s, c):
    k = self._class(c)
    if k is None:
      return None
    if k == 'J':
      return {'V': 'VJ', 'L': 'LJ'}.get(s)
    if s == 'VJ' and k != 'L' or s == 'LJ' and k != 'V':
      return None
    return k

  def final(self, s):
    return s not in ('VJ', 'LJ')

  def next(self, s):
    return seq.ALL


class Plain:
  """Acceptor: no joiners, nuktas only on letters, no sign that competes with
  another of its shape (U+0310 CANDRABINDU, U+0945 VOWEL SIGN CANDRA E)."""

  start = '^'

  def step(self, s, c):
    if not isinstance(c, str) or c in common.JOINERS or c in '\u0310\u0945':
      return None
    if ucd.ccc(c) == 7:
      return 'x' if s == 'L' else None
    return 'L' if unicodedata.category(c) == 'Lo' else 'x'

  def final(self, s):
    return True

  def next(self, s):
    return seq.ALL


class Short:
  """Texts of at most n symbols."""

  start = 0

  def __init__(self, n):
    self.n = n

  def step(self, s, c):
    return s + 1 if s < self.n else None

  def final(self, s):
    return True

  def next(self, s):
    return seq.ALL


class Joined:
  """Acceptor: text that acceptor w takes without its joiners."""

  def __init__(self, w, skip):
    self.w, self.start, self.skip = w, w.start, skip

  def step(self, s, c):
    return s if c in self.skip else self.w.step(s, c)

  def final(self, s):
    return self.w.final(s)

  def next(self, s):
    return self.w.next(s) | self.skip


class Accepted(seq.Machine):
  """The identity on the language of acceptor w."""

  def __init__(self, w):
    super().__init__()
    self.w, self.start = w, w.start

  def _step(self, s, c):
    q = self.w.step(s, c)
    return None if q is None else (q, (c,))

  def end(self, s):
    return () if self.w.final(s) else None


# A word-initial KHANDA TA or chillu, which ZERO WIDTH JOINER spells out, is
# not well-formed (a TODO of the tables).
ZWJ_LETTERS = ('BENG', 'MLYM')
# Joiners there select other spellings, which are rewritten in turn.
JOINER_SPELLINGS = ('DEVA', 'MLYM', 'TAML')


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  ar = common.Archives(p, common.BRAHMIC, ['visual_norm', 'wellformed', 'nfc'])
  entries = [s.upper() for s in common.SCRIPTS] + ['AS', 'BN']
  for e in entries:
    for kind in ar.KINDS:
      ctx.ob('entry', '%s (%s)' % (e, kind), e in ar.far('visual_norm', kind),
             'nisaba/scripts/brahmic/visual_norm.py',
             'no visual normalization grammar')

  def check(ctx, n, item):
    e, kind, name = item
    s = common.script_of(name)
    vn, wf, nfc = (ar.far(x, kind) for x in ('visual_norm', 'wellformed',
                                             'nfc'))
    if name not in vn:
      return
    where = 'nisaba/scripts/brahmic/data/%s/visual_rewrite.textproto' % (
        s.capitalize())
    ctx.analysed.add(where)
    v, nf, w = seq.machine(vn[name]), seq.machine(nfc[s]), seq.Acceptor(wf[s])
    a = common.alphabet(v)
    r, _ = seq.reduced(a, v, nf, acceptors=[w])
    r |= {x for c in r for x in ucd.nfd1(c)} & a
    r |= {c for c in a if ucd.ccc(c) == 9}
    tv, tn = seq.compiled(v, r), seq.compiled(nf, r)
    anyof = seq.AnyOf(r)
    wr = seq.Both(w, anyof)

    def cmp(rule, x, y, f, note):
      common.report(ctx, rule, e, where, n.add(seq.compare(x, y, f)), note)

    cmp('total', tv, tv, anyof, '')
    cmp('idempotent', seq.pipe(tv, tv), tv, wr, '(twice / once)')
    cmp('canonical-invariant', seq.pipe(tn, tv), tv, anyof,
        '(after NFC / directly)')
    cmp('canonical-invariant', seq.pipe(ucd.Nfc(), tv), tv,
        seq.Both(ucd.Ordered(r), anyof), '(after Unicode NFC / directly)')
    cmp('output-normalized', seq.pipe(tv, tn), tv, wr, '(NFC of it / it)')
    common.report(ctx, 'output-well-formed', e, where,
                  n.add(seq.preserves(tv, seq.Both(w, ucd.Composed(r)), w)))
    common.report(ctx, 'joiners', e, where,
                  n.add(seq.preserves(tv, anyof, JoinerLaw())))
    # Ill-formed text, too, once it is normalized to well-formed text.
    g = Accepted(w)
    common.report(ctx, 'fixed-point', e, where, n.add(seq.compare(
        seq.pipe(tv, g, tv), seq.pipe(tv, g), seq.Both(Plain(), anyof),
        partial='domain')), '(twice / once)')
    cmp('pair-fixed-point', seq.pipe(tv, tv), tv,
        seq.Both(Short(2), seq.AnyOf(r - {'\u0310'})), '(twice / once)')
    skip = set('\u200c\u200d')
    if s in ZWJ_LETTERS:
      skip.discard('\u200d')
    f = seq.Both(seq.Both(JoinerLaw(), Joined(w, skip)),
                 seq.Both(ucd.Composed(r), anyof))
    common.report(ctx, 'output-well-formed-joiners', e, where,
                  n.add(seq.preserves(tv, f, w)))
    if s not in JOINER_SPELLINGS:
      cmp('idempotent-joiners', seq.pipe(tv, tv), tv, f, '(twice / once)')

  names = sorted(set(entries) | set(ar.far('visual_norm')) |
                 set(ar.far('visual_norm', 'byte')))
  common.parallel(ctx, n, check, ar.items({
      e: [('visual_norm', e), ('wellformed', common.script_of(e)),
          ('nfc', common.script_of(e))] for e in names}))
  ctx.analysed.update(['nisaba/scripts/brahmic/visual_norm.py',
                       'nisaba/scripts/brahmic/char_util.py',
                       'nisaba/scripts/utils/rule.py',
                       'nisaba/scripts/utils/rewrite.py'])
  ctx.floor('idempotent', 22)
  ctx.floor('fixed-point', 22)
