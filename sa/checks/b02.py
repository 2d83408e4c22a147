"""ISO 15919 romanization round-trips on every well-formed string.

For each script the chain native -> ISO -> native, extracted from the grammar
sources and tables as sequential machines, is compared with the identity (up
to canonical equivalence, i.e. on canonical decompositions) over the whole
language that the script's well-formedness acceptor accepts, where it must
also be total; and over all other strings of the script's characters, on the
domain of the romanization.
"""

from . import common
from .. import seq
from .. import ucd

LEVEL = 'proof'


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  ar = common.Archives(p, common.BRAHMIC, ['iso', 'wellformed'])

  def check(ctx, n, item):
    tag, kind, e = item
    s = e.capitalize()
    iso, wf = ar.far('iso', kind), ar.far('wellformed', kind)
    where = 'nisaba/scripts/brahmic/data/%s' % s
    ctx.analysed.add(where)
    missing = [x for x in ('FROM_' + e, 'TO_' + e) if x not in iso]
    if e not in wf:
      missing.append('wellformed ' + e)
    if not ctx.ob('entries', tag, not missing, where, 'missing %s' % missing):
      return
    f, t = seq.machine(iso['FROM_' + e]), seq.machine(iso['TO_' + e])
    w = seq.Acceptor(wf[e])
    r = n.add(seq.compare(seq.pipe(f, t), seq.Identity(None), w,
                          view=ucd.nfd1))
    common.report(ctx, 'iso-round-trip', tag, where, r,
                  '(native->ISO->native / the string)')
    # Ill-formed text: whatever is romanized at all comes back, too.
    a = {c for d in w.n.by for c in d if isinstance(c, str)}
    ctx.ob('romanizable-alphabet', tag, len(a) >= 20, where,
           '%d characters' % len(a))
    r = n.add(seq.compare(seq.pipe(f, t), seq.Guard(f), seq.AnyOf(a),
                          view=ucd.nfd1, partial='domain'))
    common.report(ctx, 'iso-round-trip-any', tag, where, r,
                  '(native->ISO->native / the string)')

  common.parallel(ctx, n, check, ar.items({
      s.upper(): [('iso', 'FROM_' + s.upper()), ('iso', 'TO_' + s.upper()),
                  ('wellformed', s.upper())] for s in common.SCRIPTS}))
  ctx.analysed.update(['nisaba/scripts/brahmic/iso.py',
                       'nisaba/scripts/brahmic/wellformed.py',
                       'nisaba/scripts/brahmic/fixed.py'])
  ctx.floor('iso-round-trip', 20)
