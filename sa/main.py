"""Runs one check: python -m sa.main <property id> [--tier quick|thorough].

Exit 0: the property holds on everything analysed (or only known findings).
Exit 1: a violation, with a VIOLATION line.
Exit 2: the analysis could not be carried out (an anchor vanished, the source
uses something the interpreter does not model); nothing is claimed then.
"""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import absint
from . import seq

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)


class Anchor(Exception):
  """Something the rule needs is no longer in the source."""


class Ctx:

  def __init__(self, pid, tier):
    self.pid, self.tier = pid, tier
    self.t0 = time.time()
    self.rules = {}         # rule -> [checked, failed]
    self.failures = []      # dicts
    self.samples = []
    self.notes = {}
    self.assumptions = []
    self.analysed = set()   # files, functions, tables
    self._project = None

  # The model of the repository, shared by the rules of a check.
  @property
  def project(self):
    if self._project is None:
      from . import project
      self._project = project.Project()
      if self._project.errors:
        raise Anchor('BUILD files do not evaluate: %s' %
                     (self._project.errors[:3],))
    return self._project

  def ob(self, rule, instance, ok, where='', detail='', key=None):
    """One obligation of `rule` about `instance`."""
    r = self.rules.setdefault(rule, [0, 0])
    r[0] += 1
    if r[0] <= 2:
      self.samples.append({'rule': rule, 'instance': str(instance),
                           'where': str(where), 'holds': bool(ok)})
    if not ok:
      r[1] += 1
      self.failures.append({
          'rule': rule, 'instance': str(instance), 'where': str(where),
          'detail': str(detail), 'key': '%s|%s' % (rule, key or instance)})
    return ok

  def floor(self, rule, n):
    """The rule must have met at least n instances."""
    got = self.rules.get(rule, [0])[0]
    if got < n:
      raise Anchor('rule %s met %d instances, at least %d expected' % (
          rule, got, n))

  def need(self, cond, what):
    if not cond:
      raise Anchor(what)


def known_findings():
  out = {}
  path = os.path.join(HERE, 'known_findings.jsonl')
  if os.path.exists(path):
    with open(path, encoding='utf8') as f:
      for line in f:
        line = line.strip()
        if not line or line.startswith('#') or line.startswith('fixed:'):
          continue
        d = json.loads(line)
        out.setdefault(d['property'], {})[d['key']] = d['what']
  return out


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('property', nargs='?')
  ap.add_argument('--selftest', action='store_true')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  a = ap.parse_args(argv)
  if a.selftest:
    from . import selftest
    return selftest.main()
  pid = a.property
  mod = importlib.import_module('sa.checks.' + pid.lower())
  ctx = Ctx(pid, a.tier if a.tier in ('quick', 'thorough') else 'quick')
  error = None
  try:
    mod.run(ctx)
  except Anchor as e:
    error = 'anchor: %s' % e
  except seq.Ambiguous as e:
    ctx.ob('single-valued', 'a rewrite', False, '', str(e))
  except (Exception, absint.AnalysisError) as e:
    error = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))
  known = known_findings().get(pid, {})
  fresh, seen = [], set()
  for f in ctx.failures:
    if f['key'] in known:
      if f['key'] not in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[f['key']]))
      seen.add(f['key'])
    else:
      fresh.append(f)
  n = sum(r[0] for r in ctx.rules.values())
  bad = sum(r[1] for r in ctx.rules.values())
  ev = {
      'property': pid, 'tier': ctx.tier,
      'seed': int(os.environ.get('VERIF_SEED') or 1),
      'level': getattr(mod, 'LEVEL', 'other'),
      'coverage': {
          'explanation': getattr(mod, 'EXPLANATION', mod.__doc__ or pid),
          'obligations': n, 'discharged': n - bad,
          'rules': {k: {'instances': v[0], 'failed': v[1]}
                    for k, v in sorted(ctx.rules.items())},
          'analysed': sorted(map(str, ctx.analysed))[:400],
          'analysed_count': len(ctx.analysed),
          'samples': ctx.samples[:40],
          'checker_cmd': 'check %s --tier %s' % (pid, ctx.tier),
          'trusted_base': ['sa/absint.py (semantics of the Python subset)',
                           'sa/terms.py, sa/project.py (models of pynini, the '
                           'build rules and the file system)',
                           'the Unicode database of the Python runtime'],
      },
      'assumptions': ctx.assumptions,
      'wall_s': round(time.time() - ctx.t0, 3),
      'violations': len(fresh),
  }
  ev['coverage'].update(ctx.notes)
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w',
            encoding='utf8') as f:
    json.dump(ev, f, indent=1, ensure_ascii=False, sort_keys=True)
    f.write('\n')
  if fresh:
    replay = os.path.join(HERE, 'evidence', pid + '.violations.json')
    with open(replay, 'w', encoding='utf8') as f:
      json.dump(fresh, f, indent=1, ensure_ascii=False)
      f.write('\n')
    for x in fresh[:25]:
      print('%s: rule %s: %s: %s' % (x['where'] or '?', x['rule'],
                                     x['instance'], x['detail']))
    if len(fresh) > 25:
      print('... and %d more' % (len(fresh) - 25))
    print('VIOLATION property=%s replay=%s' % (pid, replay))
    if error:
      print('note: the analysis stopped early: ' + error)
    return 1
  if error:
    print('ERROR property=%s: %s' % (pid, error))
    return 2
  print('OK property=%s obligations=%d rules=%d files=%d %.1fs' % (
      pid, n, len(ctx.rules), len(ctx.analysed), time.time() - ctx.t0))
  return 0


if __name__ == '__main__':
  sys.exit(main())
