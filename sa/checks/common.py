"""Shared by the checks of the Brahmic and Abjad grammars."""

import re

from .. import seq
from .. import terms
from .. import ucd

BRAHMIC = '//nisaba/scripts/brahmic:'
ABJAD = '//nisaba/scripts/abjad_alphabet:'

JOINERS = set('\u200b\u200c\u200d')

# The scripts the documentation advertises (README of //nisaba/scripts/brahmic).
SCRIPTS = tuple('Beng Bugi Deva Gujr Guru Knda Lepc Limb Mlym Mtei Newa Orya '
                'Sinh Sylo Takr Taml Telu Tglg Thaa Tirh'.split())


def script_of(entry):
  """The script whose tables a FAR entry of Brahmic uses."""
  return {'AS': 'BENG', 'BN': 'BENG', 'HI': 'DEVA'}.get(entry, entry)


def alphabet(m):
  """The symbols that a rewriting machine is declared over."""
  for x in m.ms if isinstance(m, seq.Pipe) else [m]:
    a = getattr(x, 'sigma', None) or getattr(x, 'chars', None)
    if a:
      return set(a)
  return set()


def canonical(chars):
  """chars with their canonical decompositions."""
  return set(chars) | {x for c in chars for x in ucd.nfd1(c)}


class Archives:
  """FAR entries at character level, from both of their token types.

  The command-line tools use the utf8 archives and the Python API the byte
  ones.  Where the two are the same cascade (read over the script's
  characters), one analysis covers both; otherwise each is analysed.
  """

  KINDS = ('utf8', 'byte')

  def __init__(self, project, package, names):
    self.fars = {}
    sig = None
    if package == BRAHMIC:
      sig = project.far(package + 'sigma_utf8.far')
    for name in names:
      u = project.far(package + name + '_utf8.far')
      b = project.far(package + name + '.far')
      for k in u:
        if sig is not None:
          s = sig.get(script_of(re.sub('^(FROM|TO)_', '', k)))
        else:
          s = None
        t = seq.lift(u[k], s)
        self.fars.setdefault((name, 'utf8'), {})[k] = t
        if k in b:
          if s is None:
            s = seq.sigma_of(u[k])
          lb = seq.lift(b[k], s)
          self.fars.setdefault((name, 'byte'), {})[k] = lb
      for k in set(b) - set(u):
        self.fars.setdefault((name, 'byte'), {})[k] = seq.lift(b[k])

  def far(self, name, kind='utf8'):
    return self.fars.get((name, kind), {})

  def items(self, entries):
    """(tag, kind, entry) to analyse; entries: {entry: [(far, name), ...]}."""
    out = []
    for e, parts in entries.items():
      for kind in self.KINDS:
        same = kind != 'utf8' and all(
            self.far(f, kind).get(k) is self.far(f).get(k) for f, k in parts)
        if not same:
          out.append((e if kind == 'utf8' else e + ' (byte)', kind, e))
    return out


def report(ctx, rule, entry, where, res, note=''):
  """One obligation per comparison; its failures keyed by what differs."""
  if not res.failures:
    ctx.ob(rule, entry, True, where)
    return True
  for f in res.failures:
    w, kind, detail = f
    d = getattr(f, 'diff', None)
    key = '%s:%s' % (entry, kind)
    if d is not None:
      key += ':' + '/'.join('-' if x is None else ucd.hexes(x)
                            if isinstance(x, str) else str(x[1]) for x in d)
    elif kind != 'ambiguous':
      key += ':' + hexes(w)
    ctx.ob(rule, '%s on %r (%s)' % (entry, w, hexes(w)), False, where,
           '%s %s %s' % (kind, detail, note), key=key)
  return False


def hexes(w):
  return re.sub(r'\s+', ' ', ' '.join('%04X' % ord(c) for c in w))


class Count:
  """Totals for the evidence."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.states = self.transitions = self.runs = 0

  def add(self, r):
    self.states += r.states
    self.transitions += r.transitions
    self.runs += 1
    self.note()
    return r

  def note(self):
    self.ctx.notes['products_explored'] = self.runs
    self.ctx.notes['product_states'] = self.states
    self.ctx.notes['product_transitions'] = self.transitions


class Recorder:
  """What a worker process found, replayed on the context by the parent."""

  def __init__(self):
    self.calls = []
    self.notes = {}
    self.analysed = set()
    self.error = None

  def ob(self, rule, instance, ok, where='', detail='', key=None):
    self.calls.append((rule, str(instance), bool(ok), str(where), str(detail),
                       key))
    return ok


_JOB = None


def _work(k):
  fn, items = _JOB
  rec = Recorder()
  n = Count(rec)
  try:
    fn(rec, n, items[k])
  except seq.Ambiguous as e:
    rec.ob('single-valued', items[k] if isinstance(items[k], str) else k,
           False, '', str(e))
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    rec.error = '%s: %s\n%s' % (type(e).__name__, e,
                                traceback.format_exc(limit=-4))
  return rec.calls, (n.runs, n.states, n.transitions), rec.analysed, rec.error


def parallel(ctx, n, fn, items):
  """fn(recorder, count, item) for every item, on all cores."""
  global _JOB
  import multiprocessing
  import os
  items = list(items)
  _JOB = (fn, items)
  mp = multiprocessing.get_context('fork')
  with mp.Pool(min(8, os.cpu_count() or 1, max(1, len(items)))) as pool:
    out = pool.map(_work, range(len(items)), chunksize=1)
  errors = []
  for calls, (r, s, t), analysed, error in out:
    for rule, instance, ok, where, detail, key in calls:
      ctx.ob(rule, instance, ok, where, detail, key)
    n.runs, n.states, n.transitions = n.runs + r, n.states + s, (
        n.transitions + t)
    ctx.analysed.update(analysed)
    if error:
      errors.append(error)
  n.note()
  if errors:
    raise RuntimeError(errors[0])
