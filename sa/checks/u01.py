"""Rewrite cascades apply every rule, in the defined order.

The composition helper is interpreted on lists of opaque FSTs under every
weak order of their sizes (its only branching), the rule partitioner on every
small containment structure of left-hand sides and on every table of the
repository, and the readers of rule tables on the generated tables: nothing
may be dropped, duplicated or reordered.
"""

import itertools

from .. import project
from .. import terms

LEVEL = 'other'
R = 'nisaba/scripts/utils/rewrite.py'
RULE = 'nisaba/scripts/utils/rule.py'


def run(ctx):
  p = ctx.project
  proc = project.Process(p)
  lib = proc.lib
  ur = proc.interp.import_module('nisaba.scripts.utils.rewrite')
  rl = proc.interp.import_module('nisaba.scripts.utils.rule')
  ctx.analysed.update([R, RULE])

  # Composition: all lists up to length 5, all size patterns.
  atoms = [terms.mk('opaque', i) for i in range(6)]
  sizes = {}

  def oracle(t):
    if t in sizes:
      return sizes[t]
    return sizes.setdefault(t, composed_size[0])
  lib.size_oracle = oracle
  longest = 5 if ctx.tier == 'quick' else 6
  for k in range(1, longest + 1):
    bad = None
    count = 0
    for pattern in itertools.product(range(1, min(k, 4) + 1), repeat=k):
      for composed in (0, 1, 9):
        composed_size = [composed]
        sizes.clear()
        sizes.update(zip(atoms, pattern))
        count += 1
        try:
          got = ur.ComposeFsts(iter([lib.F(t) for t in atoms[:k]])).term
        except Exception as e:  # pylint: disable=broad-except
          got = repr(e)
        if got is not terms.compose(atoms[:k]):
          bad = bad or (pattern, composed, got)
        if k == 1:
          break
    ctx.ob('compose-order', '%d FSTs' % k, bad is None, R, bad)
    ctx.notes['size_patterns_%d' % k] = count
  lib.size_oracle = None
  empty = ur.ComposeFsts([]).term
  ctx.ob('compose-order', 'no FSTs', terms.is_empty(empty), R, repr(empty))
  sig = lib.F(terms.mk('opaque', 'sigma'))
  got = ur.ComposeFsts([], sig).term
  ctx.ob('compose-order', 'default', got is sig.term, R, repr(got))

  # Rewrites of a list are in order, in context-free obligatory mode.
  def stages(t):
    return list(t.args[0]) if t.op == 'compose' else [t]

  def rewrite_ok(x, tau):
    return (x.op == 'cdrewrite' and x.args[0] is tau and
            all(c.op == 'str' and c.args[0] == '' for c in x.args[1:3]) and
            x.args[3] is terms.closure(sig.term, 0, None) and
            x.args[5] == 'obl')
  for k in range(1, 5):
    got = stages(ur.RewriteAndComposeFsts(
        [lib.F(t) for t in atoms[:k]], sig).term)
    ok = len(got) == k and all(map(rewrite_ok, got, atoms))
    ctx.ob('rewrite-each', '%d rules' % k, ok, R, repr(got))
  got = ur.RewriteAndComposeFsts([], sig).term
  ctx.ob('rewrite-each', 'no rules', got is terms.closure(sig.term, 0, None),
         R, repr(got))
  l, r = (lib.F(terms.mk('opaque', x)) for x in 'lr')
  got = ur.Rewrite(lib.F(atoms[0]), sig, l, r).term
  ctx.ob('rewrite-each', 'contexts',
         got.op == 'cdrewrite' and got.args[1] is l.term and
         got.args[2] is r.term, R, repr(got))

  # Partition of unordered rules.
  def partition_error(rules, parts):
    parts = [list(x) for x in parts]
    flat = [x for y in parts for x in y]
    if sorted(map(tuple, flat)) != sorted(set(map(tuple, rules))):
      return 'rules %s become %s' % (rules, parts)
    at = {tuple(x): i for i, y in enumerate(parts) for x in y}
    for a in at:
      for b in at:
        if a != b and a[0] in b[0] and at[b] >= at[a]:
          return '%s is not applied before %s' % (b, a)
    return None

  lhs = ['a', 'b', 'ab', 'ba', 'aa', 'aba', 'bab', 'abab']
  count = 0
  bad = None
  for k in range(1, 5 if ctx.tier == 'quick' else 6):
    for xs in itertools.permutations(lhs, k) if k < 4 else (
        itertools.combinations(lhs, k)):
      rules = [rl.Rule(x, 'r%d' % i) for i, x in enumerate(xs)]
      count += 1
      try:
        parts = rl.partition_unordered(rules)
      except Exception as e:  # pylint: disable=broad-except
        bad = bad or '%s: %r' % (rules, e)
        continue
      bad = bad or partition_error(rules, parts)
  ctx.ob('partition', 'all containment structures of up to 4 of 8 '
         'left-hand sides', bad is None, RULE, bad)
  ctx.notes['partitions'] = count

  # One left-hand side cannot have two results.
  try:
    rl.partition_unordered([rl.Rule('a', 'b'), rl.Rule('a', 'c')])
    ok = False
  except ValueError:
    ok = True
  ctx.ob('partition', 'conflicting rules are refused', ok, RULE,
         'two rules for one text are accepted')

  # Every rule table of the repository.
  tables = []
  for label in sorted(p.outputs):
    if (label.endswith('.tsv') and '/data' in label and any(
        x in label for x in ('nfc', 'norm', 'rewrite', 'before_consonant',
                             'after_consonant', 'fixed',
                             'presentation_forms'))):
      tables.append(label)
  ctx.ob('tables', 'rule tables', len(tables) > 60, RULE, str(len(tables)))
  for label in tables:
    want = []
    for line in p.text(label).split('\n'):
      if not line or line.startswith('#'):
        continue
      f = line.split('\t')
      want.append(tuple(unescape(x) for x in (f + [''])[:2]))
    path = '/RUNFILES/com_google_nisaba/' + label[2:].replace(':', '/')
    try:
      got = [tuple(x) for x in rl.rules_from_string_path(path)]
      again = [tuple(x) for x in rl.rules_from_string_file(
          path[len('/RUNFILES/'):])]
    except Exception as e:  # pylint: disable=broad-except
      ctx.ob('read-all', label, False, RULE, repr(e))
      continue
    where = label[2:].replace(':', '/').replace('.tsv', '.textproto')
    ctx.ob('read-all', label, got == want and again == want, RULE,
           'read %s, the table has %s' % (got[:3], want[:3]))
    if 'fixed' not in label:
      rules = [rl.Rule(*x) for x in want]
      try:
        err = partition_error(rules, rl.partition_unordered(rules))
      except Exception as e:  # pylint: disable=broad-except
        err = repr(e)
      ctx.ob('partition', label, err is None, where, err)
    ctx.analysed.add(where)

  # The two ways of compiling a table.
  def taus(t):
    """The rule pairs of every stage of a cascade."""
    out = []
    for x in stages(t):
      if x.op != 'cdrewrite':
        return None
      tau = x.args[0]
      if tau.op == 'smap':
        out.append({(i, o) for i, o, _ in tau.args[0]})
      elif tau.op == 'cross' and all(y.op == 'str' for y in tau.args[:2]):
        out.append({(tau.args[0].args[0], tau.args[1].args[0])})
      elif tau.op == 'str':
        out.append({(tau.args[0], tau.args[0])})
      else:
        return None
    return out
  rules = [rl.Rule(x, y) for x, y in
           [('b', 'a'), ('ab', 'c'), ('a', 'b'), ('c', 'ab')]]
  for perm in itertools.permutations(rules):
    got = taus(getattr(rl, CASCADE)(iter(perm), sig).term) if hasattr(
        rl, CASCADE) else [{tuple(r)} for r in perm]
    ctx.ob('cascade', '%s' % (perm,), got == [{tuple(r)} for r in perm], RULE,
           'applied as %s' % (got,), key='cascade')
    got = taus(rl.fst_from_rules(list(perm), sig).term)
    flat = [r for s in got or [] for r in s]
    at = {r: i for i, s in enumerate(got or []) for r in s}
    ok = (sorted(flat) == sorted(map(tuple, rules)) and
          at['ab', 'c'] < at['a', 'b'] and at['ab', 'c'] < at['b', 'a'] and
          at['c', 'ab'] <= max(at.values()))
    ctx.ob('unordered', '%s' % (perm,), ok, RULE, 'applied as %s' % (got,),
           key='unordered')
  # The cascade as the grammars see it.
  fixed = p.text('//nisaba/scripts/brahmic/data/Mlym:fixed.tsv')
  want = [{tuple(unescape(x) for x in (line.split('\t') + [''])[:2])}
          for line in fixed.split('\n') if line and not line.startswith('#')]
  got = taus(rl.fst_from_cascading_rule_file(
      'com_google_nisaba/nisaba/scripts/brahmic/data/Mlym/fixed.tsv',
      sig).term)
  ctx.ob('cascade', 'Mlym/fixed.tsv', got == want, RULE,
         'first difference %r' % (next(
             ((x, y) for x, y in itertools.zip_longest(got or [], want)
              if x != y), None),))
  ctx.floor('read-all', 60)


CASCADE = '_fst_from_cascading_rules'


def unescape(x):
  out, i = '', 0
  while i < len(x):
    if x[i] == '\\' and i + 1 < len(x):
      i += 1
    out += x[i]
    i += 1
  return out
