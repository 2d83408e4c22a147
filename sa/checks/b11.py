"""The Python API applies exactly the grammar it names to any text.

Every public function of the Brahmic and Perso-Arabic packages is interpreted
with an unknown text, along every path and in several orders of calls; the
value it computes must be the text, escaped, rewritten by the FST that the
archive holds under the documented name, the exceptions the documented ones,
and words must be split exactly at the ignored characters.
"""

import string
import sys

from . import common
from .. import absint
from .. import api
from .. import project

LEVEL = 'proof'
B = 'nisaba/scripts/brahmic/__init__.py'
A = 'nisaba/scripts/abjad_alphabet/__init__.py'


def is_one_or_more(pattern):
  """Is it one class of characters repeated once or more?"""
  try:
    import re._parser as sre
  except ImportError:
    import sre_parse as sre
  p = list(sre.parse(pattern))
  if len(p) != 1 or str(p[0][0]) != 'MAX_REPEAT':
    return False
  lo, hi, body = p[0][1]
  return lo == 1 and str(hi) == 'MAXREPEAT' and len(body) == 1


def split_error(pattern, flags, ignore):
  """Why the pattern does not match maximal runs of other characters."""
  import re
  real = re.compile(pattern, flags)
  if not is_one_or_more(pattern):
    return 'not a run of characters: %r' % pattern
  probe = set(map(chr, range(0x3000))) | set(ignore)
  bad = [c for c in sorted(probe)
         if bool(real.fullmatch(c)) == (c in ignore)]
  return bad and 'wrong for %r' % (bad[:5],)


def run(ctx):
  p = ctx.project
  text = absint.Sym('text', cls=str)
  bf = {k: p.far(common.BRAHMIC + k + '.far')
        for k in ('iso', 'nfc', 'visual_norm', 'wellformed')}
  af = {k: p.far(common.ABJAD + k + '.far')
        for k in ('reversible_roman', 'nfc', 'visual_norm', 'reading_norm')}
  ctx.analysed.update([B, A, 'nisaba/scripts/utils/far.py',
                       'nisaba/scripts/utils/file.py'])
  langs = sorted(af['visual_norm'])
  ctx.ob('languages', 'abjad', len(langs) >= 14, A, str(langs))

  def tags(s):
    return (s, s.lower(), s.upper())

  def apply_spec(f):
    ok = api.accepts(text, f)
    return lambda c: (('return', api.rewritten(text, f)) if c.get(ok, True)
                      else ('raise', 'FstInputError'))

  def accept_spec(f):
    return lambda c: ('accepts', api.accepts(text, f))

  def norm_spec(v, w, x=text):
    has, good = api.accepts(x, v), api.accepts(x, v, w)

    def spec(c):
      if not c.get(has, True):
        return 'raise', 'FstInputError'
      if good in c and not c[good]:
        return 'raise', 'IllFormedError'
      return 'return', api.rewritten(x, v), {good: True}
    return spec

  def chain_spec(*fs, x=text):
    def spec(c):
      for i in range(1, len(fs) + 1):
        if not c.get(api.accepts(x, *fs[:i]), True):
          return 'raise', 'FstInputError'
      return 'return', api.rewritten(x, *fs)
    return spec

  def judge(name, where, ps, spec):
    """Compares every path with the specification."""
    for c, kind, value in ps:
      want = spec(c)
      if kind == 'raise':
        got = ('raise', type(value).__name__)
        ok = want[:2] == got
      elif want[0] == 'accepts':
        if isinstance(value, bool):
          # The decision was taken by a branch.
          ok = want[1] in c and c[want[1]] == value
          got = value, c
        else:
          got = api.condition(value)
          ok = got == (want[1], True)
      else:
        if isinstance(value, absint.Sym) and value.op == 'sub':
          pattern, flags, inner, src = value.args
          err = split_error(pattern, flags, string.whitespace)
          ctx.ob('split', name, not err, where, err, key=name.split('(')[0])
          ctx.ob('split-source', name, src is text, where, repr(src))
          value = inner
        got = ('return', api.nf(value))
        ok = want[:2] == got and all(
            c.get(k) == v for k, v in (want[2] if len(want) > 2 else
                                       {}).items())
      ctx.ob('call', name, ok, where,
             'outcome %s under %s, expected %s' % (
                 describe(got), describe(c), describe(want)),
             key=name)
    ctx.ob('paths', name, bool(ps), where)

  def describe(x):
    return repr(x)[:300]

  def calls(b, a, interp):
    """All calls: (name, where, thunk, spec)."""
    out = []

    def add(name, where, thunk, spec):
      out.append((name, where, thunk, spec))
    # Evaluated as a user would: the archive object is made once per call.
    add('brahmic.ToIso()', B, lambda: b.ToIso().ApplyOnText(text),
        apply_spec(bf['iso']['FROM_BRAHMIC']))
    add('brahmic.Nfc()', B, lambda: b.Nfc().ApplyOnText(text),
        apply_spec(bf['nfc']['BRAHMIC']))
    for s in list(common.SCRIPTS) + ['As', 'Bn']:
      for t in tags(s):
        up = s.upper()
        add('brahmic.VisualNorm(%r)' % t, B,
            lambda t=t: b.VisualNorm(t).ApplyOnText(text),
            apply_spec(bf['visual_norm'][up]))
        if len(s) == 2:
          continue
        add('brahmic.IsoTo(%r)' % t, B,
            lambda t=t: b.IsoTo(t).ApplyOnText(text),
            apply_spec(bf['iso']['TO_' + up]))
        add('brahmic.WellFormed(%r)' % t, B,
            lambda t=t: b.WellFormed(t).AcceptText(text),
            accept_spec(bf['wellformed'][up]))
        v, w = bf['visual_norm'][up], bf['wellformed'][up]
        add('brahmic.NormalizingAcceptor(%r).ApplyOnWord' % t, B,
            lambda t=t: b.NormalizingAcceptor(t).ApplyOnWord(text),
            norm_spec(v, w))
        if t == s:
          add('brahmic.NormalizingAcceptor(%r).ApplyOnText' % t, B,
              lambda t=t: b.NormalizingAcceptor(t).ApplyOnText(text),
              ('word', lambda x, v=v, w=w: norm_spec(v, w, x)))
    add('abjad.ToReversibleRoman()', A,
        lambda: a.ToReversibleRoman().ApplyOnText(text), 'roman')
    add('abjad.FromReversibleRoman()', A,
        lambda: a.FromReversibleRoman().ApplyOnText(text),
        apply_spec(af['reversible_roman']['TO_ARAB']))
    add('abjad.Nfc()', A, lambda: a.Nfc().ApplyOnText(text),
        apply_spec(af['nfc']['ARAB']))
    for l in langs:
      for t in (l.lower(), l):
        v, n = af['visual_norm'][l], af['nfc']['ARAB']
        add('abjad.VisualNorm(%r)' % t, A,
            lambda t=t: a.VisualNorm(t).ApplyOnText(text), apply_spec(v))
        add('abjad.ReadingNorm(%r)' % t, A,
            lambda t=t: a.ReadingNorm(t).ApplyOnText(text),
            apply_spec(af['reading_norm'][l]))
        add('abjad.Normalizer(%r).ApplyOnWord' % t, A,
            lambda t=t: a.Normalizer(t).ApplyOnWord(text), chain_spec(n, v))
        add('abjad.Normalizer(%r).ApplyOnText' % t, A,
            lambda t=t: a.Normalizer(t).ApplyOnText(text),
            ('word', lambda x, v=v, n=n: chain_spec(n, v, x=x)))
    v, n = af['visual_norm']['UR'], af['nfc']['ARAB']
    add('abjad.VisualNorm()', A, lambda: a.VisualNorm().ApplyOnText(text),
        apply_spec(v))
    add('abjad.ReadingNorm()', A, lambda: a.ReadingNorm().ApplyOnText(text),
        apply_spec(af['reading_norm']['UR']))
    add('abjad.Normalizer().ApplyOnWord', A,
        lambda: a.Normalizer().ApplyOnWord(text), chain_spec(n, v))
    return out

  def roman_ok(ps, name):
    """The reversible romanization, other characters passing through."""
    f = af['reversible_roman']['FROM_ARAB']
    for c, kind, value in ps:
      if kind == 'raise':
        ctx.ob('call', name, type(value).__name__ == 'FstInputError', A,
               repr(value), key=name)
        continue
      src, st = api.source(value)
      t = st[0] if len(st) == 1 else None
      ok = (src is text and t is not None and not isinstance(t, str) and
            t.op == 'cdrewrite' and t.args[0] is f and
            t.args[1].op == 'str' and t.args[1].args[0] == '' and
            t.args[2].op == 'str' and t.args[2].args[0] == '' and
            t.args[3].op == 'closure' and t.args[3].args[0].op == 'class' and
            t.args[3].args[0].args[0] == 'BYTE' and
            t.args[4:] == ('ltr', 'obl'))
      ctx.ob('call', name, ok, A, describe(st), key=name)

  # One process, every call, in order and then again in reverse order: what
  # a call computes does not depend on the calls before it.
  for order in ('forward', 'backward'):
    proc = project.Process(p)
    b = proc.interp.import_module('nisaba.scripts.brahmic')
    a = proc.interp.import_module('nisaba.scripts.abjad_alphabet')
    todo = calls(b, a, proc.interp)
    if order == 'backward':
      todo = todo[::-1]
    for name, where, thunk, spec in todo:
      try:
        ps = api.paths(proc.interp, thunk)
        if spec == 'roman':
          roman_ok(ps, name)
          continue
        if isinstance(spec, tuple):
          words = {s.key(): s for c, k, v in ps
                   if k == 'return' and v.op == 'sub'
                   for s in [api.source(v.args[2])[0]]}
          ok = len(words) == 1 and list(words.values())[0].op == 'word'
          if not ctx.ob('by-word', name, ok, where, describe(ps)):
            continue
          spec = spec[1](list(words.values())[0])
        judge(name, where, ps, spec)
      except api.Unknown as e:
        ctx.ob('call', name, False, where, 'computes %s' % e, key=name)
    # Names that do not exist.
    for bad in ('Xxxx', '', 'DEV', 'BRAHMIC '):
      for name, thunk, exc in (
          ('VisualNorm', lambda: b.VisualNorm(bad), 'KeyError'),
          ('WellFormed', lambda: b.WellFormed(bad), 'KeyError'),
          ('IsoTo', lambda: b.IsoTo(bad), 'KeyError'),
          ('NormalizingAcceptor', lambda: b.NormalizingAcceptor(bad),
           'ScriptError'),
          ('abjad.VisualNorm', lambda: a.VisualNorm(bad), 'KeyError'),
          ('abjad.ReadingNorm', lambda: a.ReadingNorm(bad), 'KeyError'),
          ('abjad.Normalizer', lambda: a.Normalizer(bad), 'TagError')):
        got = [(k, type(v).__name__) for _, k, v in
               absint.explore(proc.interp, thunk)]
        ctx.ob('unsupported', '%s(%r)' % (name, bad), got == [('raise', exc)],
               A if 'abjad' in name else B, str(got), key=name)
    # Any characters to ignore, however regular expressions read them.
    for ignore in [c for c in string.punctuation + ' \t\n'] + [
        'a-z', '^a', ']a', '\\d', 'a]', '-a', 'a^-]\\', string.punctuation,
        string.punctuation[::-1]]:
      for cls, tag in ((b.NormalizingAcceptor, 'Deva'), (a.Normalizer, 'ur')):
        for _, k, v in absint.explore(
            proc.interp, lambda: cls(tag, ignore).ApplyOnText(text)):
          if k == 'raise':
            err = type(v).__name__ not in (
                'IllFormedError', 'FstInputError') and repr(v)
          elif not isinstance(v, absint.Sym) or v.op != 'sub':
            err = 'not split into words'
          else:
            err = split_error(v.args[0], v.args[1], ignore)
          ctx.ob('ignore', '%s(%r, %r)' % (cls.__name__, tag, ignore),
                 not err, B if tag == 'Deva' else A, err, key=cls.__name__)
  ctx.floor('call', 500)
  ctx.assumptions.append('pynini semantics of escape, composition and '
                         'shortestpath as modelled')
