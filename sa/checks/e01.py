"""English letters are spelled out one by one, in well-formed text."""

import json
import os
import re

import pynini

from . import common
from . import natlit
from .. import autom as A

LEVEL = 'proof'
SPEC = json.load(open(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'spec', 'spellout.json'), encoding='utf8'))
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
ZWNJ = '\u200c'
ZWNJ_SCRIPTS = ('KNDA', 'MLYM', 'TELU')
SRC = natlit.DIR + 'brahmic/en_spellout.py'


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  common.parallel(
      ctx, n, lambda rec, k, item: spell(rec, k, p, *item),
      [(e, t) for e in SPEC['languages'] for t in ('', '_utf8')])
  k = 2 * len(SPEC['languages'])
  for r in ('total', 'letters-only', 'single-valued', 'case', 'letterwise'):
    ctx.floor(r, k)
  ctx.analysed.update([SRC, natlit.DIR + 'deromanization/en_spellout.py'])


def one(f, s, kind):
  r = A.paths(f, s, 2, kind)
  return r[0] if len(r) == 1 else None


def spell(rec, n, p, entry, tok):
  kind = 'utf8' if tok else 'byte'
  tag = entry + tok
  f = natlit.load(rec.ob, p, natlit.ROOT + 'deromanization:en_spellout%s.far'
                  % tok, entry, SRC)
  if f is None:
    return
  n.runs += 5
  n.states += f.num_states()
  w = A.missing(natlit.LATIN_UPPER, A.inputs(f))
  rec.ob('total', tag, w is None, SRC, 'no spelling for %r' % w)
  w = A.missing(A.inputs(f), natlit.LATIN_UPPER)
  rec.ob('letters-only', tag, w is None, SRC, 'accepts %r' % w)
  r = A.ambiguous(f, kind)
  if not rec.ob('single-valued', tag, r is None, SRC,
                '%r has the spellings %r and %r' % (r or ('', '', ''))):
    return
  lower = pynini.union(*[pynini.cross(x, x.lower()) for x in
                         LETTERS + LETTERS.upper()]).star.optimize()
  r = A.differ(f, pynini.compose(lower, f), kind)
  rec.ob('case', tag, r is None, SRC, 'case matters: %s' % (r,))
  script = entry.split('_')[1]
  last, inner = {}, {}
  end = one(f, 'a', kind)
  for x in LETTERS:
    last[x] = one(f, x, kind)
    two = one(f, x + 'a', kind)
    ok = bool(last[x] and two and end and two.endswith(end) and
              two[:len(two) - len(end)].startswith(last[x]))
    if not rec.ob('letter', tag + ' ' + x, ok, SRC,
                  'spelling %r, before another letter %r' % (last[x], two)):
      return
    inner[x] = two[:len(two) - len(end)]
    sep = inner[x][len(last[x]):]
    if script == 'ARAB':
      want = ' '
    elif script in ZWNJ_SCRIPTS and ucd_virama(last[x][-1]):
      want = ZWNJ
    else:
      want = ''
    rec.ob('separator', tag + ' ' + x, sep == want, SRC,
           '%r is separated by %r' % (x, sep))
    rec.ob('no-stray-separator', tag + ' ' + x,
           not set(last[x]) & set(ZWNJ + ' \u200d'), SRC, repr(last[x]))
  mk = lambda d: pynini.union(*[pynini.cross(
      x, pynini.accep(pynini.escape(d[x]), token_type=kind)) for x in
                                LETTERS]).optimize()
  model = (mk(inner).star + mk(last)).union(pynini.accep('')).optimize()
  r = A.differ(pynini.compose(natlit.LATIN, f), model, kind)
  rec.ob('letterwise', tag, r is None, SRC,
         'the spelling of a word is not that of its letters: %s' % (r,))
  iso = well = None
  if script != 'ARAB':
    base = '//nisaba/scripts/brahmic:'
    iso = A.fst(p.far(base + 'iso.far')['FROM_' + script])
    well = A.fst(p.far(base + 'wellformed%s.far' % tok)[script])
  for x in LETTERS:
    t = last[x]
    if iso is not None:
      t = A.best(iso, t)
      rec.ob('well-formed', tag + ' ' + x, bool(A.paths(well, last[x], 1,
                                                        kind)),
             SRC, 'spelling %r is not well-formed' % last[x])
    rec.ob('letter-name', tag + ' ' + x, bool(t and re.fullmatch(
        SPEC['names'][x], t)), SRC, '%r is spelled %r (%s)' % (
            x, last[x], t))
  rec.analysed.add(SRC)


def ucd_virama(c):
  import unicodedata
  return unicodedata.combining(c) == 9
