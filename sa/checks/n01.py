"""Deromanization and letter spelling give well-formed text for every word."""

from . import common
from . import natlit
from .. import autom as A

LEVEL = 'proof'
D = 'deromanization'
# archive, entry, the Brahmic script whose letters it writes (itself or as
# ISO text), whether the output is ISO text
DEROM = (('hi_iso', 'ISO', 'DEVA', True), ('hi_deva', 'DEVA', 'DEVA', False),
         ('ta_iso', 'ISO', 'TAML', True), ('ta_taml', 'TAML', 'TAML', False))


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  items = [(x, t) for x in DEROM for t in ('', '_utf8')]

  def check(rec, k, item):
    (name, entry, script, iso), tok = item
    derom(rec, k, p, name, entry, script, iso, tok)

  common.parallel(ctx, n, check, items)
  for r in ('total', 'lowercase-only', 'single-valued', 'well-formed'):
    ctx.floor(r, len(items))
  ctx.analysed.update(natlit.DIR + 'brahmic/' + x for x in (
      'deromanizer.py', 'derom_inventory.py'))


def derom(rec, n, p, name, entry, script, iso, tok):
  where = natlit.DIR + '%s/%s.py' % (D, name)
  f = natlit.load(rec.ob, p, natlit.ROOT + '%s:%s%s.far' % (D, name, tok),
                  entry, where)
  if f is None:
    return
  kind = 'utf8' if tok else 'byte'
  n.runs += 5
  n.states += f.num_states()
  n.transitions += sum(f.num_arcs(s) for s in f.states())
  tag = name + tok
  w = A.missing(natlit.LATIN, A.inputs(f))
  rec.ob('total', tag, w is None, where, 'no output for %r' % w)
  w = A.missing(A.inputs(f), natlit.LATIN)
  rec.ob('lowercase-only', tag, w is None, where, 'accepts %r' % w)
  r = A.ambiguous(f, kind)
  rec.ob('single-valued', tag, r is None, where,
         '%r has the outputs %r and %r' % (r or ('', '', '')))
  base = '//nisaba/scripts/brahmic:'
  if iso:
    g = A.fst(p.far(base + 'iso%s.far' % tok)['TO_' + script])
    w = A.missing(A.outputs(f), A.inputs(g), kind)
    rec.ob('well-formed', tag, w is None, where,
           'output %r is not ISO text of %s' % (w, script))
  else:
    g = A.fst(p.far(base + 'wellformed%s.far' % tok)[script])
    w = A.missing(A.outputs(f), A.inputs(g), kind)
    rec.ob('well-formed', tag, w is None, where,
           'output %r is not well-formed %s' % (w, script))
  rec.analysed.add(where)
  rec.analysed.add(natlit.params(name[:2]))
