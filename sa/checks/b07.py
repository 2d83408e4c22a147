"""The byte and the UTF-8 archive of a grammar are the same function."""

import pynini

from . import common
from . import natlit
from .. import autom as A
from .. import seq
from .. import terms

LEVEL = 'proof'
BR = ('fixed', 'iso', 'nfc', 'reading_norm', 'visual_norm', 'wellformed')
AB = ('nfc', 'reading_norm', 'reversible_roman', 'visual_norm')


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  jobs = []
  for pkg, names in ((common.BRAHMIC, BR), (common.ABJAD, AB)):
    ar = common.Archives(p, pkg, names)
    for name in names:
      where = '%s%s.py' % (pkg[2:].replace(':', '/'), name)
      ctx.analysed.add(where)
      u, b = ar.far(name), ar.far(name, 'byte')
      for e in sorted(set(u) | set(b)):
        tag = '%s %s' % (name, e)
        if ctx.ob('entries', tag, e in u and e in b, where,
                  'in one of the two archives only'):
          jobs.append(('chars', tag, where, (u[e], b[e])))
  for t in p.grammar_targets():
    label = t['label']
    d = t['designators']
    if not label.startswith(natlit.ROOT) or set(d) != {'byte', 'utf8'}:
      continue
    jobs.append(('bytes', label, '', d))
  common.parallel(ctx, n, lambda rec, k, j: twin(rec, k, p, *j), jobs)
  ctx.floor('entries', 190)
  ctx.floor('same-function', 190)


def twin(rec, n, p, how, tag, where, what):
  if how == 'chars':
    u, b = what
    n.runs += 1
    if u is b:
      # The byte grammar, read over the characters of the script, is the
      # UTF-8 grammar.
      rec.ob('same-function', tag, True, where)
      return
    if tag == 'iso FROM_BRAHMIC':
      # Too wide for one machine: whether the UTF-8 one takes any text that
      # the byte one takes is decided on the text of the supported scripts.
      x = A.inputs(A.fst(p.far(common.BRAHMIC + 'iso_utf8.far')[
          'FROM_BRAHMIC']))
      for s in common.SCRIPTS:
        w = A.missing(A.inputs(A.fst(p.far(
            common.BRAHMIC + 'iso_utf8.far')['FROM_' + s.upper()])), x, 'utf8')
        rec.ob('same-function', '%s, %s text' % (tag, s), w is None, where,
               'the UTF-8 one has no output for %r' % w, key=tag)
      return
    if tag.startswith('wellformed'):
      x, y = seq.Acceptor(u), seq.Acceptor(b)
      for l, r, note in ((x, y, 'UTF-8'), (y, x, 'byte')):
        w = seq.included(l, r)
        rec.ob('same-function', tag, w is None, where,
               'only the %s one accepts %r' % (note, w))
      return
    x, y = seq.machine(u), seq.machine(b)
    a, _ = seq.reduced(common.alphabet(x) | common.alphabet(y), x, y)
    r = n.add(seq.compare(seq.compiled(x, a), seq.compiled(y, a),
                          seq.AnyOf(a)))
    common.report(rec, 'same-function', tag, where, r, '(UTF-8 / byte)')
    return
  byte, utf8 = (p.far(tag[:tag.index(':') + 1] + what[k])
                for k in ('byte', 'utf8'))
  where = tag[2:].replace(':', '/') + '.py'
  rec.analysed.add(where)
  for e in sorted(set(byte) | set(utf8)):
    t = tag.split('/')[-1] + ' ' + e
    if not rec.ob('entries', t, e in byte and e in utf8, where,
                  'in one of the two archives only'):
      continue
    f, g = A.fst(byte[e]), A.fst(utf8[e])
    n.runs += 1
    n.states += f.num_states() + g.num_states()
    g = pynini.compose(encode(A.alphabet(g, 'input')), g)
    g = pynini.compose(g, pynini.invert(encode(A.alphabet(g, 'output'))))
    r = A.differ(f, g)
    rec.ob('same-function', t, r is None, where, '(byte / UTF-8) %s' % (r,))


def encode(labels):
  """UTF-8 bytes to code points."""
  return pynini.union(*[pynini.cross(
      pynini.escape(chr(x)), pynini.accep('[%d]' % x))
                        for x in labels if x < 0xd800]).star.optimize()
