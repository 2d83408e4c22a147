AUT = ('abstract interpretation of the grammar sources into FST terms; '
       'automata constructions and inclusion/functionality decisions on them')
NOTE2 = ('All strings, no length bound. Trusts the Python/BUILD interpreter in '
         'sa/ and the automata operations of the installed pynini library, '
         'which build and compare the automata of the extracted terms; no code '
         'of /repo is run.')
LANGS9 = ('Bengali, Gujarati, Hindi, Kannada, Malayalam, Marathi, Punjabi, '
          'Tamil and Telugu')

prop('N01', 'Deromanization never fails and yields readable text',
     'The Hindi and Tamil deromanization grammars (to ISO and to Devanagari or '
     'Tamil script) give exactly one output for every string of lower-case '
     'Latin letters and accept nothing else; every native-script output is '
     'well-formed text of the script, and every ISO output is one that the '
     'ISO-to-script grammar reads.',
     ['inputs'], 'every string over a-z, four grammars, byte and UTF-8 archives',
     'The documentation promises that deromanization never fails for any '
     'string of Latin letters; the tests try a few hundred words.',
     [T + 'brahmic/deromanizer.py', T + 'brahmic/derom_inventory.py',
      T + 'deromanization/*.py', T + 'language_params/{hi,ta}.py'],
     [('deromanization rules', T + 'brahmic/deromanizer.py:Deromanizer'),
      ('mappings', T + 'brahmic/derom_inventory.py:DeromMapping')],
     ['hi_iso.far', 'hi_deva.far', 'ta_iso.far', 'ta_taml.far'],
     technique=AUT, note=NOTE2)

prop('N02', 'Every ISO word has exactly one romanization, in Latin letters',
     'For ' + LANGS9 + ' and each of the schemes NAT, PSAF and PSAC: every '
     'sequence of ISO 15919 letters the grammars know has an output, never two '
     'different ones, and the output consists of the letters a to z only '
     '(Hindi NAT also writes acronyms in A to Z).',
     ['inputs'], 'every sequence of ISO letters, 9 languages, 3 schemes',
     'The rules interact through alignments and contexts; a letter sequence '
     'without output or with two outputs shows only on words the test lists '
     'do not contain.',
     [T + 'brahmic/g2p.py', T + 'brahmic/romanizer.py',
      T + 'brahmic/grapheme_inventory.py', T + 'brahmic/phoneme_inventory.py',
      T + 'language_params/*.py', T + 'romanization/*.py'],
     [('grapheme to phoneme', T + 'brahmic/g2p.py'),
      ('romanization rules', T + 'brahmic/romanizer.py')],
     ['<lang>_iso_nat.far', '<lang>_iso_psaf.far', '<lang>_iso_psac.far'],
     technique=AUT, note=NOTE2)

prop('N03', 'Every ISO word has exactly one pronunciation, in IPA',
     'For ' + LANGS9 + ': every sequence of ISO 15919 letters the grammars '
     'know has a pronunciation, never two different ones, written only in the '
     'IPA symbols of the languages\' phones, aspiration, length and '
     'nasalization.',
     ['inputs'], 'every sequence of ISO letters, 9 languages',
     'Tests list some words per language; internal markers, leftover '
     'boundaries or a missing or doubled pronunciation show elsewhere.',
     [T + 'brahmic/g2p.py', T + 'phonology/transcriptor.py',
      T + 'brahmic/phoneme_inventory.py', T + 'language_params/*.py',
      T + 'g2p/*.py'],
     [('grapheme to phoneme', T + 'brahmic/g2p.py'),
      ('transcription', T + 'phonology/transcriptor.py:txn_to_ipa')],
     ['<lang>_iso_ipa.far'], technique=AUT, note=NOTE2)

LETTERS = (
    'the values are those of ISO 15919 and of the schemes (sa/checks/'
    'letters.py)')
prop('N04', 'Romanization spells every letter with its value',
     'For ' + LANGS9 + ' and each of the schemes NAT, PSAF and PSAC, the '
     'romanization of a word is a concatenation of the documented spellings '
     'of its letters, in the order of the word: each consonant and vowel has '
     'its own value (k k, kʰ kh, c ch, ś ṣ sh, ñ ny, ...; long vowels doubled '
     'in PSAF only), an anusvara is the nasal of the consonant that follows '
     '(n, m before labials, ng in Bengali), no letter is lost, added or '
     'moved. Only the inherent vowel a may be silent, never as the first '
     'vowel of the word nor twice in succession. PSAC writes repeated letters '
     'once. Conventions of a language (Tamil and Malayalam voicing and th, '
     'Bengali v for b, Punjabi tone letters, ...) are alternatives in a '
     'fixed table.',
     ['inputs'], 'every sequence of consonant, vowel and nasalization letters '
     'without an a after a vowel (PSAF), every word of syllables of at most '
     'two consonants (NAT, PSAC); 9 languages. Not Hindi words read as '
     'acronyms',
     'Tests compare some words; a wrong value in one context, a lost or '
     'misplaced letter shows on other words only.',
     [T + 'brahmic/g2p.py', T + 'brahmic/romanizer.py',
      T + 'brahmic/grapheme_inventory.py', T + 'brahmic/phoneme_inventory.py',
      T + 'utils/rewrite_functions.py', T + 'utils/alignment.py',
      T + 'language_params/*.py', T + 'romanization/*.py'],
     [('grapheme to phoneme', T + 'brahmic/g2p.py'),
      ('romanization rules', T + 'brahmic/romanizer.py'),
      ('letter and phone values', T + 'brahmic/phoneme_inventory.py')],
     ['<lang>_iso_nat.far', '<lang>_iso_psaf.far', '<lang>_iso_psac.far'],
     technique=AUT + ' (inclusion of a transducer in a reference relation)',
     note=NOTE2)

prop('N05', 'Pronunciation gives every letter its phone',
     'For ' + LANGS9 + ', the IPA transcription of a word is a concatenation '
     'of the phones of its letters, in order: each consonant and vowel has '
     'its standard phone, aspiration and length, an anusvara is the nasal '
     'of the place of articulation of the stop that follows, no phone is '
     'lost, added or moved; only the inherent vowel a may be silent, never as '
     'the first vowel of the word nor twice in succession. Allophones of a '
     'language are alternatives in a fixed table.',
     ['inputs'], 'every sequence of consonant, vowel and nasalization letters '
     'without an a after a vowel; 9 languages',
     'Tests compare some words; a wrong phone in one context shows on other '
     'words only.',
     [T + 'brahmic/g2p.py', T + 'phonology/transcriptor.py',
      T + 'brahmic/phoneme_inventory.py', T + 'phonology/*.py',
      T + 'language_params/*.py', T + 'g2p/*.py'],
     [('grapheme to phoneme', T + 'brahmic/g2p.py'),
      ('transcription', T + 'phonology/transcriptor.py:txn_to_ipa')],
     ['<lang>_iso_ipa.far'],
     technique=AUT + ' (inclusion of a transducer in a reference relation)',
     note=NOTE2)

prop('N06', 'End-to-end archives agree with the separate grammars',
     'For Hindi, Kannada, Malayalam, Tamil and Telugu, the PSAF, PSAC and IPA '
     '(except in Kannada and Telugu also the NAT) entries of the end-to-end archive are the same functions as the '
     'separately built romanization and pronunciation grammars.',
     ['inputs'], 'every input string, 5 languages, 4 schemes, both archives',
     'Each archive is tested on its own short word list.',
     [T + 'languages/*.py', T + 'romanization/*.py', T + 'g2p/*.py'],
     [('end-to-end export', T + 'languages/hi_e2e.py:generator_main')],
     ['<lang>_e2e.far'], technique=AUT, note=NOTE2)

prop('E01', 'English spell-out spells every word letter by letter',
     'For all 13 languages, the spell-out grammar accepts exactly the strings '
     'of Latin letters, whatever their case, gives one output, and spells a '
     'word as the concatenation of its letters\' spellings: separated by one '
     'space in Arabic script, by a zero width non-joiner after a virama in '
     'Kannada, Malayalam and Telugu, by nothing elsewhere, with no separator '
     'at the end. The spelling of each letter is well-formed text of the '
     'script and is the name of that English letter.',
     ['inputs'], 'every string over A-Z and a-z, 13 languages',
     'Tests spell a dozen words per language; most letters are never looked '
     'at, nor any separator position but the last.',
     [T + 'brahmic/en_spellout.py', T + 'deromanization/en_spellout.py'],
     [('speller', T + 'brahmic/en_spellout.py:speller'),
      ('letter table', T + 'brahmic/en_spellout.py:_spellout_inventory')],
     ['en_spellout.far'], technique=AUT, note=NOTE2)

prop('B06', 'The pan-Brahmic romanization never fails and covers every script',
     'brahmic.ToIso() (iso FROM_BRAHMIC) has an output for every text, '
     'includes what the grammar of each of the 20 supported scripts makes of '
     'text of its script, and copies ASCII text that no script has.',
     ['inputs'], 'every byte string; all 20 scripts',
     'The documentation promises that this rewrite never fails; tests try one '
     'sentence per script.',
     [B + 'iso.py', B + 'data/*'],
     [('pan-Brahmic rewrite', B + 'iso.py:generator_main')],
     ['brahmic.ToIso()', 'iso.far FROM_BRAHMIC'], technique=AUT, note=NOTE2)

prop('B07', 'Byte and UTF-8 archives of a grammar are the same function',
     'Every grammar exported for bytes and for UTF-8 characters (Brahmic, '
     'abjad, natural transliteration) has the same entries in both archives, '
     'and over text of its alphabet both compute the same outputs.',
     ['inputs'], 'every string over the grammar\'s alphabet, about 190 pairs of '
     'entries',
     'The Python API and the command-line tools use different archives; the '
     'tests run the same few words through both.',
     [B + '*.py', A + '*.py', T + '**/*.py', U + 'char.py'],
     [('token types', B + 'util.py:OpenSigma'),
      ('per-token export', B + 'iso.py:generator_main')],
     ['*.far and *_utf8.far'], technique=TERM + '; ' + AUT, note=NOTE2)

OWN = ('ownership and side-effect analysis of the syntax trees: per-function '
       'summaries (operands changed, origin of the result, origin of stored '
       'values) to a fixpoint over the class hierarchy')

prop('L01', 'Only constructors and declared mutators change library objects',
     'In the natural transliteration class library (symbols, features, feature '
     'sets and profiles, expressions, alignments, operations, lattices, '
     'inventories, FST lists), queries, comparisons, copies and operators '
     'leave their operands and the shared constants as they were: only '
     'constructors and the documented mutators (add, remove, replace, update, '
     'set_*, add_*, new_profile, feature_pair, ...) change an object. Copies, '
     'set operations and expression operators return new objects; copies share '
     'no feature profile, value set or item list with the original; a profile '
     'given to a symbol is kept as a copy; the containers of an object belong '
     'to it alone; and no default argument is shared between objects that '
     'change it.',
     ['inputs', 'histories'],
     'every function of 26 modules (about 430), every receiver and operand',
     'A hidden change of an operand shows only when the operand is used again, '
     'in an order of calls that no test makes; the inventories are shared by '
     'every grammar in the process.',
     [T + 'utils/*.py', T + 'phonology/**/*.py', T + 'script/**/*.py'],
     [('value sets and profiles', T + 'utils/feature.py:Feature'),
      ('expressions', T + 'utils/expression.py:Expression'),
      ('symbols', T + 'utils/symbol.py:Symbol')],
     ['results and operands of the public methods'], technique=OWN,
     level='other',
     note='Sound up to these assumptions: what a new object holds and changes '
          'is its own unless a rule says otherwise; a method called on a '
          'receiver of unknown class changes it only if every method of that '
          'name does; symbols are meant to be shared.')

prop('B08', 'Well-formedness is the syllable structure of the script',
     'For each of the 20 Brahmic scripts, wellformed.far (and its UTF-8 '
     'variant) accepts exactly the sequences of syllables, and leaves accepted '
     'text unchanged. A syllable is (a) an independent vowel, or a consonant '
     'cluster with an optional vowel sign (obligatory in Thaana, which has no '
     'inherent vowel), followed by an optional vowel length sign, an optional '
     'coda sign and an optional dead consonant, in this order; (b) a consonant '
     'cluster with a final virama and an optional dead consonant; (c) a '
     'standalone symbol; or (d) a listed exceptional sequence of the script '
     '(accept table). A consonant cluster is one or more consonants, each with '
     'an optional subjoined consonant, linked by the virama or by one of the '
     'listed joiner sequences of the script (preserve table).',
     ['inputs'], 'every string; 20 scripts, byte and UTF-8 acceptors',
     'Tests try a handful of words per script; acceptance is a statement about '
     'all strings, including the ones that must be refused.',
     [B + 'wellformed.py', B + 'util.py', B + 'data/*'],
     [('acceptor', B + 'wellformed.py:accept_well_formed')],
     ['brahmic.WellFormed(script)', 'wellformed.far, wellformed_utf8.far'],
     technique=TERM + '; ' + AUT, note=NOTE2)

prop('P01', 'The thread pool runs every function once, in order, and shuts down',
     'ThreadPool (nisaba/port): every function given to Schedule is taken '
     'from the queue by one worker and called exactly once, functions are '
     'taken in the order they were scheduled, and no function is called with '
     'the lock of the pool held. The queue is only used with the lock held; a '
     'worker never reads an empty queue; StartWorkers starts the number of '
     'threads asked for. The destructor loses no function: it queues a '
     'shutdown signal for every thread behind the functions scheduled so far '
     'and, without the lock, joins every thread; a worker ends when it takes '
     'its signal and only then. The lock is never taken twice by a thread and '
     'always released.',
     ['schedules'], 'every interleaving of any number of threads and calls',
     'Races and lost functions need a particular interleaving, which a test '
     'cannot choose.',
     ['nisaba/port/thread_pool.h'],
     [('worker', 'nisaba/port/thread_pool.h:WorkLoop'),
      ('shutdown', 'nisaba/port/thread_pool.h:~ThreadPool')],
     ['functions run, end of the destructor'],
     technique='typestate and lock analysis: interprocedural interpretation of '
     "clang's syntax tree over the states of the lock, the queue and the item "
     'taken, loops to a fixpoint or summarized by their trip count',
     note='Trusts absl::Mutex, std::queue and std::thread; StartWorkers is '
          'called once; nothing is scheduled while the pool is destroyed.')
