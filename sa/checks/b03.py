"""Romanization follows the ISO 15919 scheme letter by letter.

The romanization extracted from the grammars is compared, on every well-formed
string of each script, with an independent reference romanizer: a table of
letter values (sa/spec/iso.json) and the rules of the scheme (inherent vowel,
virama, vowel signs, a dot before an independent vowel that follows another
letter's vowel, a dash before a stray vowel sign).  The pan-Brahmic entry must
be the obligatory rewriting with the union of all the script romanizations.
"""

import json
import os

from . import common
from .. import seq
from .. import terms
from .. import ucd

LEVEL = 'proof'

CLASSES = ('consonant', 'vowel_sign', 'vowel', 'vowel_length_sign', 'coda',
           'dead_consonant', 'standalone', 'virama')
SYMBOLS = {'\u200c': '|', '\u200d': '+'}


class Reference(seq.Machine):
  """Longest-match romanizer; states are (what precedes, pending text)."""

  def __init__(self, table):
    super().__init__()
    self.tokens = {}
    for k in CLASSES:
      for native, latin in table.get(k, {}).items():
        self.tokens[native] = (k, latin)
    for c, s in table.get('consonant', {}).items():
      for x, y in table.get('subjoined_consonant', {}).items():
        self.tokens[c + x] = ('consonant', s + y)
    for native, latin in SYMBOLS.items():
      self.tokens[native] = ('symbol', latin)
    for v in table.get('virama', {}):
      self.tokens[v] = ('virama', '')
    self.inherent = ''.join(table.get('inherent_vowel', {}).values())
    self.prefixes = {t[:i] for t in self.tokens for i in range(1, len(t))}
    self.heads = {t[0] for t in self.tokens}
    # A sign that extends the last letter of a token belongs to that letter.
    self.prefixes |= {t for t in self.tokens for u in self.tokens
                      if len(t) > 1 and len(u) > 1 and u[0] == t[-1]}
    self.start = ('start', '')

  def _emit(self, prev, token):
    """(new state, Latin) or None."""
    k, latin = self.tokens[token]
    flush = self.inherent if prev == 'consonant' else ''
    if prev == 'consonant' and not self.inherent and k not in (
        'vowel_sign', 'virama'):
      return None
    if k == 'consonant':
      return k, flush + latin
    if k == 'virama':
      return ('dead', '') if prev == 'consonant' else ('other', '˘')
    if k == 'vowel_sign':
      return 'vowel', latin if prev == 'consonant' else '-' + latin
    if k == 'vowel':
      dot = '.' if prev in ('consonant', 'dead', 'vowel') else ''
      return 'vowel', flush + dot + latin
    return 'other', flush + latin

  def _take(self, prev, text, last):
    """Consumes tokens while the longest match is certain."""
    out = ''
    while text and (last or text not in self.prefixes):
      for i in range(len(text), 0, -1):
        if text[:i] in self.tokens and text[i:i + 1] in self.heads | {''}:
          break
      else:
        return None
      if i == len(text) and not last and text in self.prefixes:
        break
      r = self._emit(prev, text[:i])
      if r is None:
        return None
      prev, text = r[0], text[i:]
      out += r[1]
    return prev, text, out

  def _step(self, state, c):
    if not isinstance(c, str):
      return None
    r = self._take(state[0], state[1] + c, False)
    return r and ((r[0], r[1]), tuple(r[2]))

  def end(self, state):
    r = self._take(state[0], state[1], True)
    if r is None:
      return None
    out = r[2]
    if r[0] == 'consonant':
      if not self.inherent:
        return None
      out += self.inherent
    return tuple(out)


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  path = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'spec',
                      'iso.json')
  with open(path, encoding='utf8') as f:
    spec = json.load(f)
  ar = common.Archives(p, common.BRAHMIC, ['iso', 'wellformed', 'nfc'])

  def check(ctx, n, item):
    tag, kind, e = item
    s = e.capitalize()
    where = 'nisaba/scripts/brahmic/data/%s' % s
    ctx.analysed.add(where)
    iso, wf, nfc = (ar.far(x, kind) for x in ('iso', 'wellformed', 'nfc'))
    f = seq.machine(iso['FROM_' + e])
    ref = Reference(spec[s])
    w = seq.Acceptor(wf[e])
    known = {c for t in ref.tokens for c in t}
    known |= {x for c in known for x in ucd.nfd1(c)} | {
        ucd.compose2(x, y) for x in known for y in known} - {None}
    a = {c for d in w.n.by for c in d if isinstance(c, str)} & known
    filt = seq.Both(w, seq.AnyOf(a))
    nf = seq.machine(nfc[e])
    if not any(ucd.nfd1(c) != (c,) or ucd.ccc(c) for c in a):
      nf = seq.Identity(None)
    r = n.add(seq.compare(f, seq.pipe(nf, ref), filt))
    common.report(ctx, 'letter-values', tag, where, r,
                  '(romanization / ISO 15919 scheme)')

  common.parallel(ctx, n, check, ar.items({
      s.upper(): [('iso', 'FROM_' + s.upper()), ('wellformed', s.upper()),
                  ('nfc', s.upper())] for s in common.SCRIPTS}))
  ctx.floor('letter-values', 20)

  # The pan-Brahmic romanization that the Python API applies.
  where = 'nisaba/scripts/brahmic/iso.py'
  far = p.far(common.BRAHMIC + 'iso.far')
  t = far.get('FROM_BRAHMIC')
  ok = t is not None and t.op == 'cdrewrite'
  ctx.ob('pan-brahmic', 'FROM_BRAHMIC is a rewrite', ok, where, repr(t))
  if not ok:
    return
  parts = alternatives(t.args[0])
  ours = {x: s for s in common.SCRIPTS
          for x in alternatives(far['FROM_' + s.upper()])}
  for s in common.SCRIPTS:
    x = alternatives(far['FROM_' + s.upper()])
    ctx.ob('pan-brahmic', s, set(x) <= set(parts), where,
           'the romanization of the script is not part of it')
  extra = [x for x in parts if x not in ours]
  ctx.ob('pan-brahmic', 'nothing else', not extra, where, repr(extra[:2]))
  ctx.ob('pan-brahmic', 'anywhere',
         all(x.op == 'str' and x.args[0] == '' for x in t.args[1:3]) and
         t.args[5] == 'obl', where, repr(t.args[1:3] + t.args[4:]))
  sig = t.args[3]
  ctx.ob('pan-brahmic', 'any text', sig.op == 'closure' and any(
      x.op == 'class' and x.args[0] == 'BYTE'
      for x in alternatives(sig.args[0])), where, repr(sig))
  ctx.analysed.add(where)


def alternatives(t):
  return list(t.args[0]) if t.op == 'union' else [t]
