"""Romanization spells each letter with its value.

The transducers of the romanization grammars are included in the relation of
letters.py: for every word, the output is a concatenation of values of the
word's letters, in order.
"""

import pynini

from . import common
from . import letters
from . import natlit
from .. import autom as A

LEVEL = 'proof'
SCHEMES = ('psaf', 'psac', 'nat')
LAG = {'psac': 4, 'nat': 5, 'psaf': 10, 'ipa': 12}


def run(ctx):
  decide(ctx, SCHEMES)
  ctx.analysed.add(natlit.DIR + 'brahmic/romanizer.py')


def decide(ctx, schemes):
  n = common.Count(ctx)
  _ = ctx.project

  def check(rec, k, item):
    lang, sch = item
    label, entry, where = natlit.scheme(lang, sch)
    f = natlit.load(rec.ob, ctx.project, label, entry, where)
    if f is None:
      return
    if sch == 'nat':  # Hindi acronyms are in upper case
      f = pynini.compose(f, natlit.LATIN).optimize()
    r = A.outside(f, letters.relation(lang, sch), letters.words(lang, sch),
                  lag=LAG[sch], limit=2000000)
    k.runs += 1
    k.states += A.outside.states
    rec.ob('letter-values', '%s %s' % (lang, sch), r is None, where,
           '%r is written %r, which is not made of the values of its letters'
           % (r or ('', '')))
    rec.analysed.update([where, natlit.params(lang)])

  common.parallel(ctx, n, check,
                  [(l, s) for s in reversed(schemes) for l in natlit.LANGS])
  ctx.floor('letter-values', len(natlit.LANGS) * len(schemes))
  ctx.analysed.update([natlit.DIR + 'brahmic/g2p.py',
                       natlit.DIR + 'brahmic/phoneme_inventory.py',
                       natlit.DIR + 'brahmic/grapheme_inventory.py',
                       natlit.DIR + 'utils/rewrite_functions.py'])
