"""Shared by the checks of the natural transliteration grammars."""

import json
import os

import pynini

from .. import autom as A

ROOT = '//nisaba/scripts/natural_translit/'
DIR = 'nisaba/scripts/natural_translit/'
SPEC = json.load(open(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'spec', 'natlit.json'), encoding='utf8'))
LANGS = tuple(SPEC['languages'])
SCRIPT = SPEC['languages']

BYTES = pynini.union(*['[%d]' % i for i in range(1, 256)]).star.optimize()


def lit(s):
  return pynini.escape(s)


def union(xs):
  return pynini.union(*[lit(x) for x in xs]).optimize()


LETTERS = tuple(SPEC['letters'])
WORDS = union(LETTERS).star.optimize()


def has(*alts):
  """Strings with one of alts inside."""
  return A.dfa(BYTES + union(alts) + BYTES)


LATIN = union('abcdefghijklmnopqrstuvwxyz').star.optimize()
LATIN_UPPER = union('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
                   ).star.optimize()


def scheme(lang, sch):
  """(label of the archive, entry, source file) of a romanization scheme."""
  d = 'g2p' if sch == 'ipa' else 'romanization'
  name = '%s_iso_%s' % (lang, sch)
  return (ROOT + '%s:%s.far' % (d, name), 'ISO_TO_' + sch.upper(),
          DIR + '%s/%s.py' % (d, name))


def load(ctx_ob, p, label, entry, where):
  """The automaton of an archive entry, or None (reported)."""
  try:
    far = p.far(label)
  except KeyError:
    far = None
  if not ctx_ob('entries', label + ' ' + entry, far is not None and
                entry in far, where, 'no such archive or entry'):
    return None
  return A.fst(far[entry])


def params(lang):
  return DIR + 'language_params/%s.py' % lang
