"""Every ISO word has exactly one romanization, in the Latin alphabet."""

from . import common
from . import natlit
from .. import autom as A

LEVEL = 'proof'
SCHEMES = ('nat', 'psaf', 'psac')


def run(ctx):
  n = common.Count(ctx)
  _ = ctx.project
  common.parallel(ctx, n, lambda rec, k, lang: language(
      rec, k, ctx.project, lang, SCHEMES), natlit.LANGS)
  for r in ('total', 'single-valued', 'alphabet'):
    ctx.floor(r, len(natlit.LANGS) * len(SCHEMES))
  ctx.analysed.add(natlit.DIR + 'brahmic/romanizer.py')


def language(rec, n, p, lang, schemes):
  for sch in schemes:
    label, entry, where = natlit.scheme(lang, sch)
    f = natlit.load(rec.ob, p, label, entry, where)
    if f is None:
      continue
    if sch == 'ipa':
      alphabet = IPA
    elif sch == 'nat' and lang == 'hi':
      alphabet = natlit.LATIN_UPPER
    else:
      alphabet = natlit.LATIN
    decide(rec, n, '%s %s' % (lang, sch), where, f, natlit.WORDS, alphabet)
    rec.analysed.update([where, natlit.params(lang)])


def decide(rec, n, tag, where, f, words, alphabet):
  n.runs += 3
  n.states += f.num_states()
  n.transitions += sum(f.num_arcs(s) for s in f.states())
  w = A.missing(words, A.inputs(f))
  rec.ob('total', tag, w is None, where, 'no output for %r' % w)
  r = A.ambiguous(f)
  rec.ob('single-valued', tag, r is None, where,
         '%r has the outputs %r and %r' % (r or ('', '', '')))
  o = A.missing(A.outputs(f), alphabet)
  rec.ob('alphabet', tag, o is None, where,
         'output %r has symbols outside the target alphabet' % o)


# The phones of the IPA chart that the languages have, with the diacritics of
# aspiration, length and (as ~) nasality.
IPA = natlit.union(
    list('bdfhjklmnpqrstxzŋɖɡɣɭɲɳɻɽɾʂʃʈʋaeiouæɔəɛʰː~') +
    ['t̪', 'd̪', 'n̪', 't͡ʃ', 'd͡ʒ', 'a͡i', 'a͡u']).star.optimize()
