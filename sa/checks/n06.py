"""The end-to-end archives hold the same grammars as the separate ones."""

from . import common
from . import natlit
from .. import autom as A

LEVEL = 'proof'
LANGS = ('hi', 'kn', 'ml', 'ta', 'te')
ITEMS = [(l, s) for l in LANGS for s in ('psaf', 'psac', 'ipa', 'nat')
         if s != 'nat' or l not in ('kn', 'te')]


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project

  def check(rec, k, item):
    lang, sch = item
    label, entry, where = natlit.scheme(lang, sch)
    src = natlit.DIR + 'languages/%s_e2e.py' % lang
    rec.analysed.update([src, where, natlit.params(lang)])
    for tok in ('', '_utf8'):
      tag = '%s %s%s' % (lang, sch, tok)
      far = p.far(natlit.ROOT + 'languages:%s_e2e%s.far' % (lang, tok))
      sep = p.far(label[:-len('.far')] + tok + '.far')
      if not rec.ob('entries', tag, entry in far and entry in sep, src,
                    'no ' + entry):
        continue
      k.runs += 1
      if far[entry] is sep[entry]:
        rec.ob('same-function', tag, True, src)
        continue
      f, g = A.fst(far[entry]), A.fst(sep[entry])
      k.states += f.num_states() + g.num_states()
      r = A.differ(f, g, 'utf8' if tok else 'byte')
      rec.ob('same-function', tag, r is None, src,
             '(%s / %s) %s' % (src, where, r))

  common.parallel(ctx, n, check, ITEMS)
  ctx.floor('same-function', 2 * len(ITEMS))
