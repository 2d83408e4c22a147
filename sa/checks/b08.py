"""Well-formedness is the syllable structure of the script.

The acceptor of every script is compared, as a language, with one built from
the definition: the classes of its letters (sa/spec/iso.json), the exceptional
sequences and the joiner sequences (sa/spec/wellformed.json), and the shape of
a syllable.
"""

import json
import os

import pynini

from . import common
from .. import autom as A

LEVEL = 'proof'
SPEC = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'spec')
# Vowels are always written.
NO_INHERENT = {'Thaa'}


def load(name):
  with open(os.path.join(SPEC, name), encoding='utf8') as f:
    return json.load(f)


def reference(letters, more, inherent, tok):
  def of(words):
    words = [w for w in words]
    return pynini.string_map(
        words, input_token_type=tok, output_token_type=tok) if words else (
            pynini.Fst())

  def opt(f):
    return pynini.union(pynini.accep(''), f)

  cls = {k: of(letters.get(k, ())) for k in (
      'consonant', 'subjoined_consonant', 'dead_consonant', 'virama', 'vowel',
      'vowel_sign', 'vowel_length_sign', 'coda', 'standalone')}
  letter = cls['consonant'] + opt(cls['subjoined_consonant'])
  link = pynini.union(cls['virama'], of(more.get('preserve', ())))
  cluster = letter + opt(pynini.closure(link + letter))
  nucleus = pynini.union(
      cls['vowel'],
      cluster + (opt(cls['vowel_sign']) if inherent else cls['vowel_sign']))
  syllable = nucleus + opt(cls['vowel_length_sign']) + opt(cls['coda']) + opt(
      cls['dead_consonant'])
  dead = cluster + cls['virama'] + opt(cls['dead_consonant'])
  unit = pynini.union(syllable, dead, cls['standalone'],
                      of(more.get('accept', ())))
  return A.dfa(pynini.closure(unit))


def run(ctx):
  n = common.Count(ctx)
  p = ctx.project
  letters, more = load('iso.json'), load('wellformed.json')
  where = 'nisaba/scripts/brahmic/wellformed.py'

  def check(rec, k, item):
    script, tok = item
    entry = script.upper()
    far = p.far(common.BRAHMIC + 'wellformed%s.far' % (
        '_utf8' if tok == 'utf8' else ''))
    rec.analysed.update([where, 'nisaba/scripts/brahmic/data/' + script])
    tag = '%s (%s)' % (entry, tok)
    if not rec.ob('entry', tag, entry in far, where, 'no ' + entry):
      return
    f = A.fst(far[entry])
    k.runs += 1
    k.states += f.num_states()
    g = A.not_identity(f, tok)
    rec.ob('acceptor', tag, g is None, where, 'it changes text: %s' % (g,))
    lang = A.inputs(f)
    ref = reference(letters[script], more.get(script, {}),
                    script not in NO_INHERENT, tok)
    lost, extra = A.missing(ref, lang, tok), A.missing(lang, ref, tok)
    rec.ob('accepts-well-formed', tag, lost is None, where,
           'rejects %r' % (lost,))
    rec.ob('rejects-ill-formed', tag, extra is None, where,
           'accepts %r' % (extra,))

  common.parallel(ctx, n, check, [
      (s, t) for s in common.SCRIPTS for t in ('byte', 'utf8')])
  ctx.floor('accepts-well-formed', 2 * len(common.SCRIPTS))
