"""Letter values of the romanization schemes and of pronunciation.

relation(lang, scheme) is the relation "the output is the concatenation of the
values of the word's letters": each letter (or letter sequence with a value of
its own) stands for one of the values listed for it, and the inherent vowel a
may be silent, though never the first vowel of a word and never in two
successive syllables.  It is written from the documentation of the schemes and
standard values of ISO 15919 letters, not derived from the grammars.
"""

import pynini

from . import natlit as N

VOCALIC = 'r\u0325'


def _parse(s):
  return {k: set(v.split('/')) for k, v in
          (x.split(':') for x in s.split())}


ROMAN = _parse(
    'k:k kʰ:kh g:g gʰ:gh ṅ:ng c:ch cʰ:chh j:j jʰ:jh ñ:ny '
    'ṭ:t ṭʰ:th ḍ:d ḍʰ:dh ṇ:n t:t tʰ:th d:d dʰ:dh n:n '
    'p:p pʰ:ph/f b:b bʰ:bh m:m y:y r:r l:l v:v ś:sh ṣ:sh s:s h:h '
    'ḷ:l ḻ:zh ṟ:r ṉ:n f:f q:k x:kh ġ:g z:z ṛ:rd ṛʰ:dh ẏ:yh ḥ:h '
    'jñ:gny/ny/dny/gy/gg '
    'a:a ā:aa æ:ae e:e ē:ee ê:ae i:i ī:ii o:o ō:oo ô:o u:u ū:uu '
    'ạ:a õ:oo ḵ:g ḫ:h ẖ:h ṯ:t ṃ:n '
    'ai:ai au:au r\u0325:ru/ri m\u0310:n/m ṁ:n/m/ng')
PHONES = _parse(
    'k:k kʰ:kʰ g:ɡ gʰ:ɡʰ ṅ:ŋ c:t͡ʃ cʰ:t͡ʃʰ j:d͡ʒ jʰ:d͡ʒʰ ñ:ɲ '
    'ṭ:ʈ ṭʰ:ʈʰ ḍ:ɖ ḍʰ:ɖʰ ṇ:ɳ t:t̪ tʰ:t̪ʰ d:d̪ dʰ:d̪ʰ n:n̪ '
    'p:p pʰ:pʰ/f b:b bʰ:bʰ m:m y:j r:ɾ l:l v:ʋ ś:ʃ ṣ:ʂ s:s h:h '
    'ḷ:ɭ ḻ:ɻ ṟ:r ṉ:n f:f q:q x:x ġ:ɣ z:z ṛ:ɽ ṛʰ:ɽʰ ẏ:jʰ ḥ:h '
    'a:ə ā:aː æ:æ e:e ē:eː ê:æ i:i ī:iː o:o ō:oː ô:ɔ u:u ū:uː '
    'ạ:ə õ:oː ḵ:ɡ ḫ:h ẖ:h ṯ:t ṃ:~ '
    'ai:a͡i au:a͡u r\u0325:ru/ri/rə m\u0310:~/n̪/m/ŋ/ɲ/n/ɳ ṁ:n̪/m/ŋ/ɲ/n/ɳ')
# The nasal that an anusvara stands for before each class of consonants.
NASALS = (('ŋ', 'k kʰ g gʰ'), ('ɲ', 'c cʰ j jʰ'), ('ɳ', 'ṭ ṭʰ ḍ ḍʰ'),
          ('n̪', 't tʰ d dʰ'), ('m', 'p pʰ b bʰ m'))
# Punjabi: a tippi is a nasal, and an addak doubles the consonant behind it.
TIPPI, ADDAK = 'ṃ', '˖'
NASAL = 'ṁ', TIPPI
ONSETS = ('k kʰ g gʰ c cʰ j jʰ ṭ ṭʰ ḍ ḍʰ t tʰ d dʰ n p pʰ b bʰ m y r l v ś s h '
          'ḷ f x ġ z ṛ')
# How the letter is written inside this module where another one follows that
# it takes its value from.
MARKS = {'ṁ': 'Ṁ', TIPPI: 'Ṃ', ADDAK: '⁺'}
VOICED = dict(zip('kcṭtp', 'gjḍdb'))
DRAVIDIAN_STOPS = _parse('ṯ:t/d k:k/g c:ch/s/j ṭ:t/d t:t/d p:p/b ṟ:r/t/d/dr')
DRAVIDIAN_PHONES = _parse('ṯ:t/d k:k/ɡ c:t͡ʃ/s/d͡ʒ ṭ:ʈ/ɖ t:t̪/d̪ p:p/b ṟ:r/t/d')


def _phones(lang):
  d = dict(PHONES)
  up = lambda s: d.update(_parse(s))
  d['jñ'] = {x + y for x in ('', 'ɡ', 'd̪', 'd͡ʒ') for y in ('ɲ', 'j')}
  if lang in ('hi', 'mr', 'pa'):
    up('ai:ɛː au:ɔː i:i/iː u:u/uː')
  if lang in ('te', 'ml', 'ta'):
    up('a:a')
  if lang == 'kn':
    up('r:r')
  if lang in ('bn', 'kn', 'ml', 'ta', 'te'):
    up('ạ:a')
  if lang in ('kn', 'ml'):
    up('a:a')
  if lang == 'mr':
    up('mh:mʰ lh:lʰ vh:ʋʰ ṟh:rʰ nh:n̪ʰ')
  if lang == 'bn':
    up('a:æ/ɔ ẏ:j b:b/ʋ bʰ:bʰ/ʋ ōẏ:ʋ')
    d['jñ'].add('ɡɡ')
  if lang == 'pa':
    up('u:u/uː/o ṁva:o~ ẏ:jʰ/j ṃ:~/n̪/m/ŋ/ɲ/n/ɳ')
  if lang in ('ta', 'ml'):
    d.update(DRAVIDIAN_PHONES)
    up('ṉṟ:ndr')
  _aspirates(lang, d)
  _nasals(lang, d, lambda x: x, lambda x: x)
  if lang in ('hi', 'pa'):
    d['ṁ'] = d['ṁ'] | {'~'}
  return d


def _aspirates(lang, d):
  for x in [x for x in d if x.endswith('ʰ')]:
    if lang == 'pa':  # doubled or in a cluster
      d[x] = d[x] | d[x[:-1]]
    if lang == 'ml' and x[0] in VOICED:
      d[x] = d[x] | d[VOICED[x[0]] + 'ʰ']


def _roman(lang, scheme):
  d = dict(ROMAN)

  up = lambda s: d.update(_parse(s))
  if scheme != 'psaf':
    up('õ:o ā:a ē:e ī:i ō:o ū:u')
  if lang in ('ml', 'ta'):
    d[VOCALIC] = {'ri', 'ru', 'ra'}
  if lang in ('ml', 'ta'):
    d.update(DRAVIDIAN_STOPS)
  if lang == 'bn':
    up('ê:a æ:a b:b/v bʰ:bh/v ṛ:r ṛʰ:rdh ẏ:y ōẏ:v ṁ:ng')
  if lang == 'pa':
    up('ṛʰ:rdh/rd/dh/d u:u/o ṁva:on ẏ:yh/y ṃ:n/m/ng/ny')
  if scheme == 'nat':
    _natural(lang, up)
  _aspirates(lang, d)
  _nasals(lang, d, lambda x: {'m': 'm', 'ŋ': 'ng'}.get(x, 'n') if (
      lang == 'bn') else x if x == 'm' else 'n', lambda x: {
          'm': 'm', 'ŋ': 'ng', 'ɲ': 'ny'}.get(x, 'n'))
  return d


def _nasals(lang, d, anusvara, tippi):
  """The values of anusvara, tippi and addak with the letters behind them."""
  for nasal, cs in NASALS:
    for x in [x for x in d for c in cs.split() if x == c or x[0] == c != 'm']:
      d[('ṁ' if x == 'm' else MARKS['ṁ']) + x] = {anusvara('ŋ' if lang == 'bn' else nasal) + y
                           for y in d[x]}
      if lang == 'pa':
        d[(TIPPI if x == 'm' else MARKS[TIPPI]) + x] = {tippi(nasal) + y for y in d[x]}
      if 'ōṁ' in d and x != 'm':
        d['ō' + MARKS['ṁ'] + x] = {'ao' + y for y in d[MARKS['ṁ'] + x]}
  if lang == 'pa':
    for x in ONSETS.split():
      d[MARKS[ADDAK] + x] = {z + y for y in d[x] for z in d[x.rstrip('ʰ')]}
  else:
    d[ADDAK] = {''}


def marking(lang, d):
  """From letters to those of this module."""
  f = N.BYTES
  for x, m in MARKS.items():
    if x != '˖' or lang == 'pa':
      keys = [k[1:] for k in d if k[0] == m]
      if keys:
        f = (f @ pynini.cdrewrite(pynini.cross(N.lit(x), N.lit(m)), '',
                                  N.union(keys), N.BYTES)).optimize()
  return f


def _natural(lang, up):
  up('v:v/w cc:cch ccʰ:chh śś:ssh ṣṣ:ssh')
  if lang in ('ta', 'ml'):
    up('t:th/d ē:e/ae ō:o/oa ī:ee ū:oo ñ:ny/n/gn jñ:ny/n tt:th ṟṟ:ttr')
  if lang == 'bn':
    up('ṛ:r/rd ōẏ:w b:b/v/w bʰ:bh/v/w ñ:n/ny m\u0310ō:n ām\u0310:aon ām\u0310ō:aon r\u0325ẏ:ri iẏ:i īẏ:i uẏ:u ūẏ:u aiẏ:ai')
  if lang == 'pa':
    up('ṛ:r/rd')
  if lang == 'hi':
    up('ṛʰ:rh')
  if lang in ('gu', 'mr', 'hi'):
    up('gāv:gaon gāva:gaon ōṁ:aon/aom ōṁb:aomb ōṁp:aomp ōṁm:aomm '
       'ōṁbʰ:aombh ōṁpʰ:aomph/aomf ō:o/oa ^ā:aa')


def values(lang, scheme):
  return _phones(lang) if scheme == 'ipa' else _roman(lang, scheme)


def is_vowel(k):
  return k[0] in 'aạāæeēêiīoōôõuū' or k == VOCALIC


def _cross(k, vs):
  return pynini.union(*[pynini.cross(N.lit(k), N.lit(v)) for v in vs])


def _put(f, a, b, g):
  """Adds transducer g between the states a and b of f."""
  at = {s: f.add_state() for s in g.states()}
  zero = pynini.Weight.zero(g.weight_type())
  f.add_arc(a, pynini.Arc(0, 0, 0, at[g.start()]))
  for s in g.states():
    for x in g.arcs(s):
      f.add_arc(at[s], pynini.Arc(x.ilabel, x.olabel, 0, at[x.nextstate]))
    if g.final(s) != zero:
      f.add_arc(at[s], pynini.Arc(0, 0, 0, b))


def relation(lang, scheme):
  """Letter by letter, with the rules of the silent a."""
  d = values(lang, scheme)
  one = lambda t: pynini.union(*[_cross(k, d[k]) for k in d if t(k)]
                              ).optimize()
  mixed = lambda k: k[0] != '^' and not is_vowel(k) and (
      VOCALIC in k or any(is_vowel(x) for x in k[1:]))
  cons = one(lambda k: k[0] != '^' and not is_vowel(k) and not mixed(k))
  vows = one(lambda k: k[0] != '^' and is_vowel(k))
  silent = pynini.cross('a', '')
  f = pynini.Fst()
  # Start, consonants before the first vowel, after a vowel, after a
  # consonant, after a silent a, after a consonant behind a silent a.
  q = {n: f.add_state() for n in ('S', 'C0', 'V', 'C', 'D', 'CD')}
  f.set_start(q['S'])
  for n, m in dict(S='C0', C0='C0', V='C', C='C', D='CD', CD='CD').items():
    f.set_final(q[n])
    _put(f, q[n], q[m], cons)
    _put(f, q[n], q['V'], vows)
    for k in d:
      if mixed(k):
        _put(f, q[n], q['V' if is_vowel(k[-1]) else 'C'], _cross(k, d[k]))
  for k in d:
    if k[0] == '^':
      _put(f, q['S'], q['V'], _cross(k[1:], d[k]))
  for n in 'CV':
    _put(f, q[n], q['D'], silent)
  if lang == 'ml':  # the vowel of a final consonant
    end = f.add_state()
    f.set_final(end)
    for n in ('C0', 'C', 'CD'):
      _put(f, q[n], end, _cross('', {'ə', 'u'} if scheme == 'ipa' else {'u'}))
  f = (marking(lang, d) @ f.optimize()).optimize()
  return (f @ collapse()).optimize() if scheme == 'psac' else f


def collapse():
  """PSAC writes a letter, or a pair standing for one, once."""
  letters = 'abcdefghijklmnopqrstuvwxyz'
  pairs = ('ae', 'ai', 'au', 'ch', 'dh', 'kh', 'ng', 'ny', 'rd', 'sh', 'th',
           'zh')
  s = pynini.union(*letters).star.optimize()
  once = lambda xs: pynini.cdrewrite(pynini.union(*[
      pynini.cross(x + x, x) for x in xs]), '', '', s)
  return (once(pairs) @ once(letters)).optimize()


def words(lang, scheme):
  """All letter sequences but an a right after a vowel; for NAT and PSAC,
  syllables of at most two consonants around single vowels."""
  d = values(lang, scheme)
  plain = {m: x for x, m in MARKS.items()}
  d = {plain.get(k[0], k[0]) + k[1:]: v for k, v in d.items()}
  vs = [k for k in d if is_vowel(k) and (len(k) == 1 or k in (
      'ai', 'au', VOCALIC))]
  if scheme in ('psaf', 'ipa'):
    w = N.union([k for k in d if k[0] != '^']).closure()
    return pynini.difference(w, A_dfa(
        [v + 'a' for v in vs] + [x + y for x in NASAL for y in NASAL])
                            ).optimize()
  c = N.union([k for k in d if k[0] != '^' and not is_vowel(k) and
               len(k.replace('ʰ', '').replace('\u0310', '').lstrip(ADDAK)) == 1])
  w = (pynini.closure(c, 0, 2) + N.union(vs)).closure() + pynini.closure(
      c, 0, 2)
  single = [v for v in vs if len(v) == 1]
  return pynini.difference(w.optimize(), A_dfa(
      [x + y for x in single for y in single if x + y not in ('ai', 'au')] +
      [x + y for x in single for y in ('ai', 'au')] +
      [x + y for x in ('ai', 'au') for y in vs] +
      [x + y for x in NASAL for y in NASAL])).optimize()


def A_dfa(parts):
  return N.has(*parts)
