"""The pan-Brahmic romanization covers every script and never fails."""

import pynini

from . import common
from .. import autom as A
from .. import terms

LEVEL = 'proof'
WHERE = 'nisaba/scripts/brahmic/iso.py'


def run(ctx):
  n = common.Count(ctx)
  far = ctx.project.far(common.BRAHMIC + 'iso.far')
  ctx.need('FROM_BRAHMIC' in far, 'no FROM_BRAHMIC')
  t = far['FROM_BRAHMIC']
  parts = []
  for s in common.SCRIPTS:
    if ctx.ob('script', s, 'FROM_' + s.upper() in far, WHERE,
              'no romanization of the script'):
      parts.append((s, far['FROM_' + s.upper()]))
  f = A.fst(t)
  n.runs += 1
  n.states += f.num_states()
  n.transitions += sum(f.num_arcs(s) for s in f.states())
  every = pynini.union(*['[%d]' % i for i in range(1, 256)]).star.optimize()
  w = A.missing(every, A.inputs(f))
  ctx.ob('never-fails', 'FROM_BRAHMIC', w is None, WHERE,
         'no output for %r' % w)
  # Text of one script: whatever its own grammar makes of it is among the
  # outputs, at the same weight.
  tau = next((x.args[0] for x in terms.subterms(t) if x.op == 'cdrewrite'),
             None)
  have = set(tau.args[0]) if tau is not None and tau.op == 'union' else set()
  for s, x in parts:
    if x in have:
      ctx.ob('includes', s, True, WHERE)
      continue
    g = A.fst(x)
    n.runs += 1
    r = A.contained(g, f)
    ctx.ob('includes', s, r is None, WHERE,
           'does not romanize %r of the script as FROM_%s does' % (
               r, s.upper()))
  # Text that no script has is copied.
  own = pynini.union(*[A.inputs(A.fst(x)) for _, x in parts]).optimize()
  other = pynini.difference(every, A.dfa(own.star)).optimize()
  ascii_ = pynini.union(*['[%d]' % i for i in range(1, 128)]).star.optimize()
  copy = pynini.intersect(other, ascii_).optimize()
  r = A.not_identity(pynini.compose(copy, f))
  ctx.ob('copies', 'ASCII', r is None, WHERE, '%r becomes %r' % (
      r or ('', '')))
  ctx.floor('includes', 20)
  ctx.analysed.add(WHERE)
