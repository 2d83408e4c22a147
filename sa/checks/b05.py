"""Reading normalization of Brahmic text is a stable function.

Every entry of the reading normalization archive, as a sequential machine
extracted from the grammar sources: single-valued and total on every string of
the script's alphabet; on visually normalized text it is idempotent and keeps
well-formed text canonically composed; canonically equivalent texts get the
same reading once visually normalized.
"""

from . import common
from .. import seq
from .. import ucd

LEVEL = 'proof'


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  ar = common.Archives(p, common.BRAHMIC, ['reading_norm', 'visual_norm',
                                           'wellformed', 'nfc'])

  def check(ctx, n, item):
    tag, kind, e = item
    s = common.script_of(e)
    rn, vn, wf, nfc = (ar.far(x, kind) for x in (
        'reading_norm', 'visual_norm', 'wellformed', 'nfc'))
    if e not in rn:
      return
    where = 'nisaba/scripts/brahmic/data/%s/%sreading_norm.textproto' % (
        s.capitalize(), '' if s == e else e.lower() + '/')
    ctx.analysed.add(where)
    m, v = seq.machine(rn[e]), seq.machine(vn[s])
    nf, w = seq.machine(nfc[s]), seq.Acceptor(wf[s])
    a = common.alphabet(m)
    r, _ = seq.reduced(a, m, v, nf, acceptors=[w])
    r |= {x for c in r for x in ucd.nfd1(c)} & a
    t, tv, tn = (seq.compiled(x, r) for x in (m, v, nf))
    anyof = seq.AnyOf(r)
    plain = seq.AnyOf(r - common.JOINERS)
    wr = seq.Both(w, anyof)

    def cmp(rule, x, y, f, note):
      common.report(ctx, rule, tag, where, n.add(seq.compare(x, y, f)), note)

    cmp('total', t, t, anyof, '')
    tvt = seq.compiled(seq.Pipe([tv, t]), r)
    cmp('idempotent', seq.pipe(tvt, t), tvt, plain, '(twice / once)')
    cmp('idempotent', seq.pipe(tvt, t), tvt, wr, '(twice / once)')
    cmp('output-normalized', seq.pipe(tvt, tn), tvt, wr, '(NFC of it / it)')
    cmp('canonical-invariant', seq.pipe(tn, tvt), tvt, plain,
        '(after NFC / directly)')

  for e in ('BENG', 'HI', 'LEPC', 'MLYM'):
    for kind in ar.KINDS:
      ctx.ob('entry', '%s (%s)' % (e, kind), e in ar.far('reading_norm', kind),
             'nisaba/scripts/brahmic/reading_norm.py',
             'no reading normalization grammar')
  names = sorted(set(ar.far('reading_norm')) |
                 set(ar.far('reading_norm', 'byte')))
  common.parallel(ctx, n, check, ar.items({
      e: [('reading_norm', e)] + [(x, common.script_of(e)) for x in (
          'visual_norm', 'wellformed', 'nfc')] for e in names}))
  ctx.analysed.update(['nisaba/scripts/brahmic/reading_norm.py',
                       'nisaba/scripts/utils/rule.py',
                       'nisaba/scripts/utils/rewrite.py'])
  ctx.floor('idempotent', 4)
