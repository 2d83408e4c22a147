"""Writes properties.jsonl and MANIFEST.json (one source for both)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = []
NA = []

TERM = ('abstract interpretation of the grammar sources into FST terms; '
        'exhaustive product-automaton comparison')
NOTE = ('All strings over the stated alphabet, no length bound. Trusts the '
        'Python/BUILD interpreter and the pynini model in sa/ (validated '
        'against the built archives) and the Unicode database.')


def prop(pid, title, statement, over, quant, why, files, mech, observe,
         technique=TERM, level='proof', note=NOTE, na=None, state=None):
  d = {
      'id': pid, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': quant},
      'why_tests_cant': why,
      'anchors': {'files': files,
                  'mechanism': [{'name': n, 'where': w} for n, w in mech],
                  'observe_at': observe, 'hook_needed': None}}
  if state:
    d['anchors']['state'] = state
  PROPS.append(d)
  if na:
    NA.append({'property': pid, 'reason': na})
  else:
    CHECKS.append({
        'property': pid,
        'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': technique, 'level': level, 'level_note': note})


B = 'nisaba/scripts/brahmic/'
A = 'nisaba/scripts/abjad_alphabet/'
U = 'nisaba/scripts/utils/'
T = 'nisaba/scripts/natural_translit/'

prop('B01', 'NFC grammars implement Unicode NFC',
     'For every supported Brahmic script, for the pan-Brahmic grammar and for '
     'the Arabic script, the NFC rewrite of any text over the script whose '
     'combining marks are in canonical order is exactly its Unicode '
     'Normalization Form C.',
     ['inputs'], 'every string over the script alphabet with marks in '
     'canonical order, every script',
     'The tests run a few dozen listed words and random samples through each '
     'grammar; equality with Unicode on all strings, including sequences of '
     'marks across rule boundaries, is never checked.',
     [B + 'nfc.py', A + 'nfc.py', B + 'data/*/nfc.textproto',
      A + 'data/Arab/nfc.textproto'],
     [('NFC rewrite', B + 'nfc.py:generator_main'),
      ('Arabic NFC rewrite', A + 'nfc.py:generator_main')],
     ['brahmic.Nfc()', 'abjad_alphabet.Nfc()', 'nfc.far'])
prop('B02', 'ISO 15919 romanization round-trips',
     'Romanizing any well-formed text of a Brahmic script to ISO 15919 always '
     'succeeds, and converting the result back gives the original text up to '
     'canonical equivalence. Ill-formed text that can be romanized at all also '
     'comes back unchanged.',
     ['inputs'], 'every well-formed string of each of the 20 scripts, and '
     'every other string over its characters that is romanized',
     'The tests check listed pairs and a random sample of generated strings '
     'per script; ambiguity between tokens shows only on particular '
     'concatenations.',
     [B + 'iso.py', B + 'wellformed.py', B + 'data'],
     [('native to ISO conversion', B + 'iso.py:brahmic_to_iso'),
      ('well-formedness acceptor', B + 'wellformed.py:accept_well_formed')],
     ['iso.far FROM_*/TO_*', 'brahmic.IsoTo*'])
prop('B04', 'Visual normalization is stable and canonical-invariant',
     'Visual normalization gives exactly one result for every text over the '
     "script's alphabet and the same result for canonically equivalent texts. "
     'On well-formed text it is idempotent, its result is in NFC, and '
     'canonically composed well-formed text stays well-formed. Any text '
     'without joiners (nuktas only on letters) whose result is well-formed '
     'is normalized in one step, as is any text of one or two characters '
     '(other than U+0310). Text well-formed but for joiners beside '
     'viramas normalizes to well-formed text (but for ZWJ in Bengali and '
     'Malayalam), idempotently (but for Devanagari, Malayalam, Tamil). '
     'Joiners survive only next to a virama, zero width spaces never.',
     ['inputs'], 'every string over the alphabet of each of the 20 scripts '
     'and the language-specific variants',
     'The tests list input/output pairs; idempotence and invariance are '
     'relations over all strings, and cascaded rewrites interact only on '
     'particular sequences.',
     [B + 'visual_norm.py', B + 'char_util.py', U + 'rule.py',
      U + 'rewrite.py', B + 'data/*/visual_rewrite.textproto'],
     [('visual normalization cascade',
       B + 'visual_norm.py:core_visual_norm_fsts'),
      ('mark deduplication', B + 'char_util.py:dedup_marks_fst')],
     ['brahmic.VisualNorm*', 'visual_norm.far'])
prop('B05', 'Brahmic reading normalization is stable',
     'Reading normalization gives exactly one result for every text over the '
     "script's alphabet. On visually normalized text it is idempotent and "
     'insensitive to canonical equivalence, and its result on well-formed '
     'text is in NFC.',
     ['inputs'], 'every string over the alphabet (without joiners, or '
     'well-formed), every entry of the archive',
     'The tests list a few pairs per language; they cannot show that applying '
     'the cascade again changes nothing on any other string.',
     [B + 'reading_norm.py', U + 'rule.py',
      B + 'data/*/reading_norm.textproto'],
     [('reading normalization cascade',
       B + 'reading_norm.py:_reading_norm_fst')],
     ['brahmic.ReadingNorm*', 'reading_norm.far'])
prop('A01', 'Perso-Arabic normalization is stable in every language',
     'For every supported Perso-Arabic language, visual normalization gives '
     'exactly one result for any text, the same for canonically equivalent '
     'texts and for presentation forms and the letters they stand for; the '
     'result is in NFC and free of zero width spaces. Visual normalization of '
     'text without combining marks and reading normalization of any text are '
     'idempotent.',
     ['inputs'], 'every string of Arabic-script characters of the alphabet, '
     'every one of the 14 languages',
     'The tests compare listed pairs per language; contextual (isolated, '
     'final, medial) rewrites interact on particular letter sequences only.',
     [A + 'visual_norm.py', A + 'visual_norm_common.py',
      A + 'reading_norm.py', A + 'data/Arab'],
     [('positional rewrite cascade', A + 'visual_norm.py'),
      ('presentation forms', A + 'data/Arab/presentation_forms.textproto')],
     ['abjad_alphabet.VisualNorm', 'abjad_alphabet.ReadingNorm'])
prop('B10', 'Perso-Arabic romanization is reversible',
     'Romanizing any text over the supported Arabic-script characters and '
     'converting the result back gives the NFC form of the text, and the '
     'romanization contains no Arabic letter.',
     ['inputs'], 'every string over the romanizable Arabic characters',
     'The tests romanize single letters and listed words; ambiguity of the '
     'Latin side appears only when letters are concatenated.',
     [A + 'reversible_roman.py', A + 'data/Arab/reversible_roman.textproto'],
     [('romanization relation', A + 'reversible_roman.py:generator_main')],
     ['abjad_alphabet.ToReversibleRoman',
      'abjad_alphabet.FromReversibleRoman'])


prop('B03', 'Romanization follows ISO 15919 letter by letter',
     'Every well-formed text of a Brahmic script is romanized by the ISO 15919 '
     'scheme: each letter by the value of its table, a consonant without sign '
     'or virama with the inherent vowel, a dot before an independent vowel '
     'directly after a consonant or vowel, a dash before a stray vowel sign, a '
     'breve for a stray virama. The pan-Brahmic romanization rewrites any text '
     'with the romanizations of all supported scripts.',
     ['inputs'], 'every well-formed string of each of the 20 scripts',
     'The tests hold a few words per script; the conversion picks the '
     'lightest of many overlapping analyses, which depends on neighbours.',
     [B + 'iso.py', B + 'data'],
     [('native to ISO conversion', B + 'iso.py:brahmic_to_iso'),
      ('pan-Brahmic union', B + 'iso.py:generator_main')],
     ['iso.far FROM_*', 'brahmic.ToIso'],
     note=NOTE + ' The letter values are a frozen table (sa/spec/iso.json); '
     'the composition rules an independent reference romanizer. The '
     'pan-Brahmic entry is decided structurally.')
prop('B11', 'The Python API applies exactly the grammar it names',
     'Every function of the Brahmic and Perso-Arabic packages, called with '
     'any tag in any letter case and any text (brackets and backslashes '
     'included), in any order of calls, yields the text rewritten by the '
     'grammar the archive holds for that tag. Unsupported tags raise '
     'KeyError, ScriptError or TagError, unrewritable text FstInputError, '
     'ill-formed words IllFormedError; line-wise normalization treats exactly '
     'the maximal runs of characters that are not ignored.',
     ['inputs', 'histories'], 'every text, every supported tag, both orders '
     'of all calls in one process, any ignored characters',
     'The tests call a few functions on a few words; caching, escaping and '
     'error paths depend on the text and on earlier calls.',
     [B + '__init__.py', A + '__init__.py', U + 'far.py', U + 'file.py'],
     [('text application', U + 'far.py:Far.FstWrapper.ApplyOnText'),
      ('acceptance', U + 'far.py:Far.FstWrapper.AcceptText'),
      ('word-wise normalization', B + '__init__.py:NormalizingAcceptor')],
     ['brahmic.*', 'abjad_alphabet.*'],
     technique='path-sensitive abstract interpretation of the API with an '
     'opaque text; normal forms of the resulting rewrite pipelines',
     note='All texts and tags; trusts the model of pynini escape, composition '
     'and shortest path.')
prop('U01', 'Rewrite cascades apply every rule in the defined order',
     'Composing a list of rewrites applies each exactly once and in list '
     'order, whatever their sizes. In an unordered rule table a rule is '
     'applied before every rule whose left-hand side its own contains, and '
     'two results for one left-hand side are refused; an ordered table is '
     'applied row by row. No row of a table is lost or changed on reading.',
     ['inputs'], 'lists of up to 5 (thorough: 6) rewrites under all size '
     'patterns; all containment structures of up to 4 rules; every rule table '
     'of the repository',
     'The order of composition is picked by automaton sizes, so a wrong '
     'order shows only for particular grammars.',
     [U + 'rewrite.py', U + 'rule.py'],
     [('size-ordered composition', U + 'rewrite.py:ComposeFsts'),
      ('rule partition', U + 'rule.py:partition_unordered'),
      ('table reader', U + 'rule.py:rules_from_string_path')],
     ['every far built from rule tables'], level='other',
     technique='abstract interpretation over opaque rewrites with exhaustive '
     'case split on the order of their sizes',
     note='Complete for the tables in the tree and for lists up to the '
     'stated length; longer lists by uniformity of the recursion.')

exec(open(os.path.join(HERE, 'tools', 'registry_more.py')).read()
     if os.path.exists(os.path.join(HERE, 'tools', 'registry_more.py'))
     else '')

PROPS.sort(key=lambda d: d['id'])
CHECKS.sort(key=lambda d: d['property'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for d in PROPS:
    f.write(json.dumps(d, ensure_ascii=False) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump({'version': 1,
             'setup_cmd': './check --selftest',
             'checks': CHECKS,
             'not_applicable': sorted(NA, key=lambda d: d['property']),
             'notes': 'Generated by tools/registry.py; checks interpret '
                      "/repo's sources and need no build."},
            f, indent=1, ensure_ascii=False)
  f.write('\n')
