"""The thread pool runs every function exactly once and shuts down.

A typestate analysis of nisaba/port/thread_pool.h over clang's syntax tree.
The methods of the class are interpreted on an abstract state: is the lock
held, is the queue known to be non-empty, what the item taken from the queue
is (unknown, the shutdown signal, a function), was it removed, was it called.
Private helpers, lambdas and conditions are followed; loops are iterated to a
fixpoint of the finite state, counted loops are summarized by their bound.
"""

import os

from .. import absint, cxx

LEVEL = 'proof'
FILE = 'nisaba/port/thread_pool.h'
REPO = absint.REPO


class Unsupported(Exception):

  def __init__(self, node, what):
    super().__init__(what)
    self.node = node


class State:
  """An abstract state; immutable use: copy() before a change."""

  FIELDS = ('held', 'scopes', 'nonempty', 'taken', 'vars', 'stopped', 'events')

  def __init__(self):
    self.held = False
    self.scopes = ()      # lock objects alive: (variable id, holds)
    self.nonempty = None  # None: unknown
    self.taken = None     # None, 'front' (not removed)
    self.vars = {}        # id -> value
    self.stopped = False
    self.events = ()

  def copy(self, **kw):
    s = State()
    for f in self.FIELDS:
      v = getattr(self, f)
      setattr(s, f, dict(v) if f == 'vars' else v)
    for k, v in kw.items():
      setattr(s, k, v)
    return s

  def key(self):
    return (self.held, self.scopes, self.nonempty, self.taken,
            tuple(sorted(self.vars.items(), key=repr)), self.stopped,
            self.events)


def dedup(states):
  seen, out = set(), []
  for s in states:
    k = s.key()
    if k not in seen:
      seen.add(k)
      out.append(s)
  return out


# Values are tuples: ('item',) the front of the queue, not known to be null or
# not; ('func',) a function from the queue; ('null',) no function; ('moved',);
# ('called',); ('arg',) the argument of Schedule; ('bool', b); ('count', n, k)
# the number n (a field or the number of threads) plus k; ('int', k);
# ('thread',); ('worker', node); ('cond', node); ('other',).
OTHER = ('other',)


class Pool:
  """Interprets the methods of the class."""

  def __init__(self, repo):
    docs = cxx.parse(repo, FILE, 'nisaba::')
    self.lines = cxx.Lines(repo, FILE)
    self.funcs, self.cls = {}, None
    for d in docs:
      for n in cxx.walk(d):
        if n['kind'] in ('CXXMethodDecl', 'CXXDestructorDecl', 'FunctionDecl',
                         'CXXConstructorDecl') and n.get('name') != '__invoke':
          if any(c['kind'] == 'CompoundStmt' for c in cxx.children(n)):
            self.funcs[n['id']] = n
        if n['kind'] == 'CXXRecordDecl' and n.get('name') == 'ThreadPool' and (
            n.get('completeDefinition')):
          self.cls = self.cls or n
    if self.cls is None:
      raise Unsupported(docs[0] if docs else {}, 'no class ThreadPool')
    self.fields = {}
    for n in cxx.children(self.cls):
      if n['kind'] == 'FieldDecl':
        self.fields[n['name']] = cxx.qual_type(n)
    self.mutexes = [k for k, t in self.fields.items() if t == 'absl::Mutex']
    self.queues = [k for k, t in self.fields.items()
                   if 'function<void' in t and t.startswith(
                       ('std::queue<', 'std::deque<', 'std::list<'))]
    self.pools = [k for k, t in self.fields.items()
                  if t.startswith('std::vector<std::thread')]
    self.violations = []
    self.accesses = 0
    self.steps = 0
    self.depth = 0
    self.ends = None     # which end of the queue is pushed to
    self.visited = set()

  def bad(self, node, rule, text):
    v = (rule, self.lines.where(node), text)
    if v not in self.violations:
      self.violations.append(v)

  # Names.

  def field(self, node):
    """The name of the field of this object an expression is, if it is one."""
    node = cxx.strip(node)
    if node['kind'] == 'UnaryOperator' and node.get('opcode') in '&*':
      return self.field(cxx.children(node)[0])
    if node['kind'] == 'MemberExpr' and node.get('name') in self.fields:
      base = cxx.children(node)
      if base and self.is_this(base[0]):
        return node['name']
    return None

  def is_this(self, node):
    """Is the expression the pool itself (the class has no other)?"""
    node = cxx.strip(node)
    return node['kind'] == 'CXXThisExpr' or node['kind'] == 'DeclRefExpr' and (
        'ThreadPool' in cxx.qual_type(node))

  def source(self, node):
    """The variable whose value is copied or moved by an expression."""
    node = cxx.strip(node)
    kids = cxx.children(node)
    if node['kind'] == 'CXXConstructExpr' and len(kids) == 1:
      return self.source(kids[0])
    return self.var(node)

  def var(self, node):
    node = cxx.strip(node)
    if node['kind'] == 'DeclRefExpr':
      return node['referencedDecl']['id']
    if node['kind'] == 'UnaryOperator' and node.get('opcode') == '*':
      return self.var(cxx.children(node)[0])
    return None

  # Locks.

  def lock(self, s, node):
    if s.held:
      self.bad(node, 'lock-order', 'the lock is taken while it is held')
    return s.copy(held=True, nonempty=None)

  def unlock(self, s, node):
    if not s.held:
      self.bad(node, 'lock-order', 'the lock is released while it is not held')
    if s.taken == 'front':
      self.bad(node, 'exactly-once', 'the lock is released between reading the '
               'front of the queue and removing it: another worker runs the '
               'same function')
    return s.copy(held=False, nonempty=None)

  def condition(self, s, node):
    """States after waiting for a condition (an absl::Condition)."""
    node = cxx.strip(node)
    args = cxx.children(node)
    fn = None
    for a in args:
      for n in cxx.walk(a):
        if n['kind'] == 'DeclRefExpr' and (
            n['referencedDecl'].get('id') in self.funcs):
          fn = self.funcs[n['referencedDecl']['id']]
        if n['kind'] == 'LambdaExpr':
          fn = self.lambda_method(n)
        if n['kind'] == 'DeclRefExpr' and not fn:
          v = s.vars.get(n['referencedDecl'].get('id'))
          if v and v[0] in ('cond', 'lambda'):
            fn = v[1]
      if fn:
        break
    if not fn:
      raise Unsupported(node, 'a condition that is not a method or a lambda')
    out = []
    s = s.copy(nonempty=None)
    for v, t in self.invoke(fn, [('this',)], s):
      if v[0] != 'bool':
        raise Unsupported(node, 'the value of the condition')
      if v[1]:
        out.append(t)
    return out

  # Expressions: lists of (value, state).

  def evals(self, nodes, s):
    out = [((), s)]
    for n in nodes:
      out = [(vs + (v,), t2) for vs, t in out for v, t2 in self.eval(n, t)]
    return out

  def eval(self, node, s):
    self.steps += 1
    if self.steps > 200000:
      raise Unsupported(node, 'too many paths')
    node = cxx.strip(node)
    k = node['kind']
    kids = cxx.children(node)
    f = self.field(node) if k == 'MemberExpr' else None
    if f:
      if f in self.queues:
        self.guard(node, s, f)
        return [(('queue',), s)]
      if f in self.pools:
        return [(('threads',), s)]
      if f in self.mutexes:
        return [(('mutex',), s)]
      return [(('count', f, 0), s)]
    if k == 'CXXBoolLiteralExpr':
      return [(('bool', bool(node.get('value'))), s)]
    if k == 'CXXNullPtrLiteralExpr':
      return [(('null',), s)]
    if k == 'IntegerLiteral':
      return [(('int', int(node['value'])), s)]
    if k == 'DeclRefExpr':
      d = node['referencedDecl']
      if d.get('id') in self.funcs:
        return [(('method', d['id']), s)]
      return [(self.load(s, d['id']), s)]
    if k == 'CXXThisExpr':
      return [(('this',), s)]
    if k == 'LambdaExpr':
      return [(('lambda', self.lambda_method(node)), s)]
    if k == 'UnaryOperator':
      op = node['opcode']
      if op == '!':
        out = []
        for v, t in self.truth(kids[0], s):
          out.append((('bool', not v), t))
        return out
      if op in ('++', '--'):
        i = self.var(kids[0])
        if i is not None:
          t = s.copy()
          t.vars[i] = OTHER
          return [(OTHER, t)]
        return [(OTHER, s)]
      return self.eval(kids[0], s)
    if k == 'BinaryOperator':
      op = node['opcode']
      if op in ('&&', '||'):
        out = []
        for v, t in self.truth(kids[0], s):
          if v == (op == '&&'):
            out += [(('bool', w), u) for w, u in self.truth(kids[1], t)]
          else:
            out.append((('bool', v), t))
        return out
      if op == '=':
        return self.assign(kids[0], kids[1], s)
      if op == ',':
        out = []
        for _, t in self.eval(kids[0], s):
          out += self.eval(kids[1], t)
        return out
      out = []
      for vs, t in self.evals(kids, s):
        out += self.arith(op, vs, t)
      return out
    if k == 'CompoundAssignOperator':
      i = self.var(kids[0])
      t = s.copy()
      if i is not None:
        t.vars[i] = OTHER
      return [(OTHER, t)]
    if k == 'ConditionalOperator':
      out = []
      for v, t in self.truth(kids[0], s):
        out += self.eval(kids[1 if v else 2], t)
      return out
    if k == 'CXXOperatorCallExpr':
      return self.operator(node, s)
    if k == 'CXXMemberCallExpr':
      return self.member_call(node, s)
    if k == 'CallExpr':
      return self.call(node, s)
    if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
      return self.construct(node, s)
    if k in ('CXXDefaultArgExpr', 'StringLiteral', 'SourceLocExpr',
             'PredefinedExpr', 'FloatingLiteral', 'CharacterLiteral',
             'ImplicitValueInitExpr', 'CXXScalarValueInitExpr',
             'UnaryExprOrTypeTraitExpr'):
      return [(OTHER, s)]
    if k == 'MemberExpr':
      return [(OTHER, t) for _, t in self.eval(kids[0], s)] if kids else [
          (OTHER, s)]
    if k == 'ArraySubscriptExpr':
      return [(OTHER, t) for _, t in self.evals(kids, s)]
    raise Unsupported(node, 'expression ' + k)

  def load(self, s, i):
    v = s.vars.get(i, OTHER)
    seen = 0
    while v[0] == 'ref' and seen < 20:
      v = s.vars.get(v[1], OTHER)
      seen += 1
    return v

  def target(self, s, i):
    seen = 0
    while s.vars.get(i, OTHER)[0] == 'ref' and seen < 20:
      i = s.vars[i][1]
      seen += 1
    return i

  def guard(self, node, s, f):
    self.accesses += 1
    self.visited.add(node.get('id'))
    if not s.held:
      self.bad(node, 'guarded', '%s is used without the lock' % f)

  def arith(self, op, vs, s):
    a, b = vs
    if op in ('+', '-') and a[0] == 'count' and b[0] == 'int':
      return [(('count', a[1], a[2] + (b[1] if op == '+' else -b[1])), s)]
    if op == '+' and a[0] == 'int' and b[0] == 'count':
      return [(('count', b[1], b[2] + a[1]), s)]
    if a[0] == b[0] == 'int' and op in ('+', '-'):
      return [(('int', a[1] + b[1] if op == '+' else a[1] - b[1]), s)]
    if op in ('==', '!=', '<', '>', '<=', '>='):
      if a[0] == 'qsize' or b[0] == 'qsize':
        if b[0] == 'qsize':
          a, b = b, a
          op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if b == ('int', 0):
          if op in ('!=', '>'):
            return self.emptiness(s, False)
          if op in ('==', '<='):
            return self.emptiness(s, True)
        if b == ('int', 1) and op == '>=':
          return self.emptiness(s, False)
        if b == ('int', 1) and op == '<':
          return self.emptiness(s, True)
      return [(('bool', True), s), (('bool', False), s)]
    return [(OTHER, s)]

  def emptiness(self, s, want_empty):
    """The value of `queue is empty` (or is not), with what it tells."""
    out = []
    if s.nonempty is not True:
      out.append((('bool', want_empty), s.copy(nonempty=False)))
    if s.nonempty is not False:
      out.append((('bool', not want_empty), s.copy(nonempty=True)))
    return out

  def truth(self, node, s):
    """(bool, state) of an expression used as a condition."""
    node = cxx.strip(node)
    i = self.var(node)
    if i is not None and self.load(s, i)[0] in (
        'item', 'func', 'null', 'called', 'moved', 'arg'):
      return self.is_function(i, s)
    out = []
    for v, t in self.eval(node, s):
      if v[0] == 'bool':
        out.append((v[1], t))
      elif v[0] == 'null':
        out.append((False, t))
      elif v[0] in ('func', 'arg'):
        out.append((True, t))
      elif v[0] == 'qsize':
        out += [(w[1], u) for w, u in self.emptiness(t, False)]
      else:
        out += [(True, t), (False, t)]
    return out

  def is_function(self, i, s):
    """Branches on whether the variable holds a function."""
    i = self.target(s, i)
    v = s.vars.get(i, OTHER)
    if v[0] == 'item':
      yes, no = s.copy(), s.copy(stopped=True)
      yes.vars[i], no.vars[i] = ('func',), ('null',)
      return [(True, yes), (False, no)]
    if v[0] in ('func', 'called', 'arg'):
      return [(True, s)]
    if v[0] == 'null':
      return [(False, s)]
    return [(True, s), (False, s)]

  def drop(self, s, i, node):
    """The value of a variable is overwritten or goes out of scope."""
    v = s.vars.get(i)
    if v in (('item',), ('func',)):
      self.bad(node, 'exactly-once',
               'a function taken from the queue is dropped without being '
               'called')

  def assign(self, lhs, rhs, s):
    i = self.var(lhs)
    out = []
    for v, t in self.eval(rhs, s):
      if i is None:
        t2 = [u for _, u in self.eval(lhs, t)]
        out += [(v, u) for u in t2]
        continue
      j = self.target(t, i)
      self.drop(t, j, lhs)
      t = t.copy()
      t.vars[j] = v
      out.append((v, t))
    return out

  def consume(self, node, s):
    """(value, state) of an argument that is moved or copied from."""
    return self.eval(node, s)

  def run(self, v, i, node, s):
    """Calls a function value."""
    if v[0] == 'lambda':
      return self.invoke(v[1], [], s)
    if v[0] in ('item', 'func', 'null', 'called', 'moved', 'arg'):
      if s.held:
        self.bad(node, 'unlocked-call', 'a function of the queue is called '
                 'with the lock held')
      if v[0] == 'item':
        self.bad(node, 'exactly-once', 'what was taken from the queue is '
                 'called before it is told from the shutdown signal')
      elif v[0] in ('null', 'moved'):
        self.bad(node, 'exactly-once', 'an empty function is called')
      elif v[0] == 'called':
        self.bad(node, 'exactly-once', 'a function is called twice')
      elif v[0] == 'arg':
        self.bad(node, 'exactly-once', 'a function to be scheduled is called '
                 'on the scheduling thread')
      t = s.copy()
      if i is not None:
        t.vars[self.target(t, i)] = ('called',)
      return [(OTHER, t)]
    return [(OTHER, s)]

  def operator(self, node, s):
    kids = cxx.children(node)
    callee = cxx.strip(kids[0])
    name = (callee.get('referencedDecl') or {}).get('name', '')
    args = kids[1:]
    if name == 'operator()':
      i = self.var(args[0])
      out = []
      for v, t in self.eval(args[0], s):
        for _, u in self.evals(args[1:], t):
          out += self.run(v, i, node, u)
      return out
    if name == 'operator=':
      return self.assign(args[0], args[1], s)
    if name in ('operator==', 'operator!='):
      for a, b in ((0, 1), (1, 0)):
        if len(args) == 2 and cxx.strip(
            args[b])['kind'] == 'CXXNullPtrLiteralExpr':
          i = self.var(args[a])
          if i is not None:
            return [(('bool', w == (name == 'operator!=')), t)
                    for w, t in self.is_function(i, s)]
      return [(('bool', b), t) for _, t in self.evals(args, s)
              for b in (True, False)]
    if name == 'operator[]' and args:
      out = []
      for vs, t in self.evals(args, s):
        if vs[0][0] == 'threads':
          out.append((('thread',), t))
        elif vs[0][0] == 'queue':
          raise Unsupported(node, 'indexing of the queue')
        else:
          out.append((OTHER, t))
      return out
    out = []
    for vs, t in self.evals(args, s):
      out.append((('thread',) if any(v[0] in ('threads', 'thread') for v in vs)
                  else OTHER,
                  t))
    return out

  def member_call(self, node, s):
    kids = cxx.children(node)
    me = cxx.strip(kids[0])
    args = [a for a in kids[1:] if a['kind'] != 'CXXDefaultArgExpr']
    name = me.get('name', '')
    base = cxx.children(me)
    decl = me.get('referencedMemberDecl')
    if base and self.is_this(base[0]) and decl in self.funcs:
      out = []
      for vs, t in self.pass_args(self.funcs[decl], args, s):
        out += self.invoke(self.funcs[decl], vs, t)
      return out
    f = self.field(base[0]) if base else None
    if f in self.mutexes:
      return self.mutex_call(name, args, node, s)
    if f in self.queues:
      self.guard(base[0], s, f)
      return self.queue_call(name, args, node, s)
    if f in self.pools:
      return self.threads_call(name, args, node, s)
    i = self.var(base[0]) if base else None
    if name in ('Release', 'Unlock') and i is not None and any(
        x == i for x, _ in s.scopes):
      t = self.unlock(s, node)
      t.scopes = tuple((x, h and x != i) for x, h in s.scopes)
      return [(OTHER, t)]
    out = []
    for v, t in (self.eval(base[0], s) if base else [(OTHER, s)]):
      if v[0] == 'thread' and name == 'join':
        if t.held:
          self.bad(node, 'lock-order', 'threads are joined with the lock held')
        out.append((OTHER, t.copy(events=t.events + ('join',))))
        continue
      if v[0] == 'thread' and name == 'detach':
        self.bad(node, 'shutdown', 'a worker thread is detached')
      if v[0] == 'thread' and name == 'joinable':
        out.append((('bool', True), t))
        continue
      if v[0] == 'queue':
        out += self.queue_call(name, args, node, t)
        continue
      if v[0] == 'threads':
        out += self.threads_call(name, args, node, t)
        continue
      if v[0] in ('item', 'func', 'null', 'called', 'moved', 'arg'):
        if name == 'operator bool':
          out += [(('bool', w), u) for w, u in self.is_function(i, t)]
          continue
        if name == 'operator()':
          out += self.run(v, i, node, t)
          continue
        if name == 'swap' and i is not None and args:
          j = self.var(args[0])
          if j is None:
            for w, u in self.eval(args[0], t):
              self.drop(u, self.target(u, i), node)
              u = u.copy()
              u.vars[self.target(u, i)] = w
              out.append((OTHER, u))
            continue
          if j is not None:
            u = t.copy()
            a, b = self.target(u, i), self.target(u, j)
            u.vars[a], u.vars[b] = u.vars.get(b, OTHER), u.vars.get(a, OTHER)
            out.append((OTHER, u))
            continue
        raise Unsupported(node, 'method %s of a queued function' % name)
      for _, u in self.evals(args, t):
        out.append((OTHER, u))
    return out

  def mutex_call(self, name, args, node, s):
    if name in ('Lock', 'lock', 'WriterLock'):
      return [(OTHER, self.lock(s, node))]
    if name in ('Unlock', 'unlock', 'WriterUnlock'):
      return [(OTHER, self.unlock(s, node))]
    if name == 'LockWhen':
      return [(OTHER, t) for t in self.condition(self.lock(s, node), args[0])]
    if name == 'Await':
      if not s.held:
        self.bad(node, 'lock-order', 'Await without the lock')
      if s.taken == 'front':
        self.bad(node, 'exactly-once', 'waiting between reading the front of '
                 'the queue and removing it')
      return [(OTHER, t) for t in self.condition(s, args[0])]
    if name in ('AwaitWithTimeout', 'AwaitWithDeadline', 'LockWhenWithTimeout',
                'LockWhenWithDeadline'):
      if name.startswith('Lock'):
        s = self.lock(s, node)
      elif not s.held:
        self.bad(node, 'lock-order', 'Await without the lock')
      # Whether the condition held is the result.
      return [(('bool', True), t) for t in self.condition(s, args[0])] + [
          (('bool', False), s.copy(nonempty=None))]
    if name in ('TryLock', 'try_lock'):
      return [(('bool', True), self.lock(s, node)), (('bool', False), s)]
    if name in ('AssertHeld', 'AssertNotHeld', 'AssertReaderHeld'):
      return [(OTHER, s)]
    raise Unsupported(node, 'Mutex::' + name)

  def queue_call(self, name, args, node, s):
    if name == 'empty':
      return self.emptiness(s, True)
    if name == 'size':
      return [(('qsize',), s)]
    if name in ('front', 'back'):
      if self.fields[self.queues[0]].startswith('std::queue') and (
          name == 'back'):
        self.bad(node, 'first-in-first-out', 'the newest function is taken')
      if s.nonempty is not True:
        self.bad(node, 'exactly-once', 'the queue may be empty where its '
                 'front is read')
      if s.taken == 'front':
        self.bad(node, 'exactly-once',
                 'the front of the queue is read twice before it is removed')
      if s.stopped:
        self.bad(node, 'shutdown', 'a worker goes on after its shutdown signal')
      self.order(name, node)
      return [(('item',), s.copy(taken='front'))]
    if name in ('pop', 'pop_front', 'pop_back'):
      if s.nonempty is not True:
        self.bad(node, 'exactly-once',
                 'the queue may be empty where its front is removed')
      if s.taken != 'front':
        self.bad(node, 'exactly-once',
                 'a function is removed from the queue without being taken')
      if name != 'pop':
        self.order(name, node)
      return [(OTHER, s.copy(taken=None, nonempty=None))]
    if name in ('push', 'push_back', 'push_front', 'emplace', 'emplace_back',
                'emplace_front'):
      self.order(name, node)
      out = []
      for vs, t in self.evals(args, s):
        v = vs[0] if vs else ('null',)
        ev = {'null': 'signal', 'arg': 'func', 'item': 'again',
              'func': 'again'}.get(v[0], 'other')
        if ev == 'other':
          self.bad(node, 'exactly-once',
                   'something else than the scheduled function is queued')
        out.append((OTHER, t.copy(events=t.events + (ev,), nonempty=True)))
      return out
    if name in ('clear', 'swap', 'erase', 'resize'):
      self.bad(node, 'exactly-once', 'functions are removed from the queue '
               'without being called')
      return [(OTHER, s)]
    raise Unsupported(node, 'queue method ' + name)

  def order(self, name, node):
    """Checks that functions are taken from the end they are not pushed to."""
    side = None
    if name in ('push', 'push_back', 'emplace', 'emplace_back', 'back',
                'pop_back'):
      side = 'back'
    elif name in ('push_front', 'emplace_front', 'front', 'pop_front'):
      side = 'front'
    use = 'in' if name.startswith(('push', 'emplace')) else 'out'
    self.sides = getattr(self, 'sides', {})
    other = self.sides.setdefault(use, side)
    if other != side or self.sides.get('in') == self.sides.get('out'):
      self.bad(node, 'first-in-first-out',
               'functions are not taken in the order they were scheduled')

  def threads_call(self, name, args, node, s):
    if name == 'size':
      return [(('count', 'threads', 0), s)]
    if name in ('push_back', 'emplace_back'):
      out = []
      for vs, t in self.evals(args, s):
        w = self.worker_of(vs)
        if w is None:
          raise Unsupported(node, 'what a thread runs')
        self.worker = w
        out.append((OTHER, t.copy(events=t.events + ('start',))))
      return out
    if name in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'back',
                'front', 'at'):
      return [(('thread',), t) for _, t in self.evals(args, s)]
    if name in ('reserve', 'empty', 'shrink_to_fit', 'capacity'):
      return [(OTHER, t) for _, t in self.evals(args, s)]
    if name in ('clear', 'pop_back', 'erase', 'resize'):
      return [(OTHER, t.copy(events=t.events + ('forget',)))
              for _, t in self.evals(args, s)]
    raise Unsupported(node, 'method %s of the threads' % name)

  def worker_of(self, vs):
    for v in vs:
      if v[0] == 'worker':
        return v[1]
      if v[0] == 'method':
        return self.funcs[v[1]]
      if v[0] == 'lambda':
        return v[1]
    return None

  def construct(self, node, s):
    kids = [a for a in cxx.children(node) if a['kind'] != 'CXXDefaultArgExpr']
    t = cxx.qual_type(node)
    if t == 'std::thread' or t.startswith('std::thread'):
      out = []
      for vs, u in self.evals(kids, s):
        w = self.worker_of(vs)
        out.append(((('worker', w) if w is not None else
                     vs[0] if vs else OTHER), u))
      return out
    if 'function<' in t or 'value_type' in t:
      if not kids:
        return [(('null',), s)]
      return self.eval(kids[0], s)
    if 'Condition' in t:
      return [(('condition',), s)]
    return [(vs[0] if len(vs) == 1 else OTHER, u)
            for vs, u in self.evals(kids, s)]

  def call(self, node, s):
    kids = cxx.children(node)
    callee = cxx.strip(kids[0])
    d = callee.get('referencedDecl') or {}
    name = d.get('name', '')
    args = [a for a in kids[1:] if a['kind'] != 'CXXDefaultArgExpr']
    if d.get('id') in self.funcs:
      out = []
      for vs, t in self.pass_args(self.funcs[d['id']], args, s):
        out += self.invoke(self.funcs[d['id']], vs, t)
      return out
    if name in ('move', 'forward', 'exchange') and args:
      i = self.var(args[0])
      out = []
      for vs, t in self.evals(args, s):
        v = vs[0]
        if v[0] == 'moved':
          self.bad(node, 'exactly-once', 'a function is moved from twice')
        if i is not None:
          t = t.copy()
          t.vars[self.target(t, i)] = ('moved',)
        out.append((v, t))
      return out
    if name == 'swap' and len(args) == 2:
      i, j = self.var(args[0]), self.var(args[1])
      out = []
      for vs, t in self.evals(args, s):
        if i is not None:
          t = t.copy()
          t.vars[self.target(t, i)] = vs[1]
        if j is not None:
          t = t.copy()
          t.vars[self.target(t, j)] = vs[0]
        out.append((OTHER, t))
      return out
    if name == '__assert_fail':
      return []
    if name in ('abort', 'exit', 'terminate'):
      return []
    out = []
    for vs, t in self.evals(args, s):
      if any(v[0] in ('item', 'func', 'queue', 'mutex') for v in vs):
        raise Unsupported(node, 'call of %s' % name)
      out.append((OTHER, t))
    return out

  def lambda_method(self, node):
    for n in cxx.walk(node):
      if n['kind'] == 'CXXMethodDecl' and n.get('name') == 'operator()':
        return n
    raise Unsupported(node, 'lambda')

  def pass_args(self, fn, args, s):
    params = [c for c in cxx.children(fn) if c['kind'] == 'ParmVarDecl']
    out = [((), s)]
    for k, a in enumerate(args):
      ref = k < len(params) and '&' in (
          params[k].get('type') or {}).get('qualType', '')
      i = self.var(a)
      nxt = []
      for vs, t in out:
        if ref and i is not None:
          nxt.append((vs + (('ref', self.target(t, i)),), t))
        elif (params[k].get('type') or {}).get('qualType', '').endswith('*') and (
            i is not None) and cxx.strip(a).get('opcode') == '&':
          nxt.append((vs + (('ref', self.target(t, i)),), t))
        else:
          nxt += [(vs + (v,), u) for v, u in self.eval(a, t)]
      out = nxt
    return out

  def invoke(self, fn, args, s):
    """(value, state) after a call of a function with a body."""
    self.depth += 1
    if self.depth > 40:
      raise Unsupported(fn, 'recursion')
    try:
      params = [c for c in cxx.children(fn) if c['kind'] == 'ParmVarDecl']
      t = s.copy()
      for p, v in zip(params, args):
        t.vars[p['id']] = v
      body = [c for c in cxx.children(fn) if c['kind'] == 'CompoundStmt']
      if not body:
        raise Unsupported(fn, 'no body')
      outer = s.scopes
      o = self.exec(body[0], [t])
      out = [(OTHER, u) for u in o['normal']] + o['return']
      res = []
      for v, u in out:
        u = self.leave(u, outer, fn)
        u = u.copy()
        for p in params:
          self.drop(u, p['id'], fn)
          u.vars.pop(p['id'], None)
        res.append((v, u))
      return res
    finally:
      self.depth -= 1

  # Statements: outcomes normal, break, continue (states), return (value,
  # state).

  def leave(self, s, outer, node):
    """Leaves the scopes of lock objects declared since `outer`."""
    extra = s.scopes[len(outer):]
    for _, holds in reversed(extra):
      if holds:
        s = self.unlock(s, node)
    return s.copy(scopes=s.scopes[:len(outer)])

  def block_leave(self, s, outer, decls, node):
    s = self.leave(s, outer, node)
    for d in decls:
      if d in s.vars:
        self.drop(s, d, node)
    if any(d in s.vars for d in decls):
      s = s.copy()
      for d in decls:
        s.vars.pop(d, None)
    return s

  def exec(self, node, states):
    out = {'normal': dedup(states), 'break': [], 'continue': [], 'return': []}
    if not states:
      return out
    k = node['kind']
    kids = cxx.children(node)

    def seq(stmts, states):
      o = {'normal': states, 'break': [], 'continue': [], 'return': []}
      for st in stmts:
        p = self.exec(st, o['normal'])
        o['normal'] = p['normal']
        for key in ('break', 'continue', 'return'):
          o[key] += p[key]
      return o

    if k == 'CompoundStmt':
      res = {'normal': [], 'break': [], 'continue': [], 'return': []}
      decls = [d['id'] for st in kids if st['kind'] == 'DeclStmt'
               for d in cxx.children(st) if d['kind'] == 'VarDecl']
      for s in out['normal']:
        o = seq(kids, [s])
        for key in ('normal', 'break', 'continue'):
          res[key] += [self.block_leave(u, s.scopes, decls, node)
                       for u in o[key]]
        for v, u in o['return']:
          res['return'].append((v, self.block_leave(u, s.scopes, decls, node)))
      return res
    if k == 'DeclStmt':
      states = out['normal']
      for d in kids:
        if d['kind'] == 'VarDecl':
          states = [u for s in states for u in self.declare(d, s)]
      out['normal'] = dedup(states)
      return out
    if k == 'IfStmt':
      parts = list(kids)
      if node.get('hasInit'):
        p = self.exec(parts.pop(0), out['normal'])
        out['normal'] = p['normal']
      if node.get('hasVar'):
        p = self.exec(parts.pop(0), out['normal'])
        out['normal'] = p['normal']
      res = {'normal': [], 'break': [], 'continue': [], 'return': []}
      for s in out['normal']:
        for v, t in self.truth(parts[0], s):
          if v or len(parts) > 2:
            o = self.exec(parts[1 if v else 2], [t])
            for key in res:
              res[key] += o[key]
          else:
            res['normal'].append(t)
      return res
    if k in ('WhileStmt', 'DoStmt', 'ForStmt', 'CXXForRangeStmt'):
      return self.loop(node, out['normal'])
    if k == 'BreakStmt':
      return {'normal': [], 'break': out['normal'], 'continue': [],
              'return': []}
    if k == 'ContinueStmt':
      return {'normal': [], 'break': [], 'continue': out['normal'],
              'return': []}
    if k == 'ReturnStmt':
      rets = []
      for s in out['normal']:
        if not kids:
          rets.append((OTHER, s))
          continue
        i = self.source(kids[0])
        for v, t in self.eval(kids[0], s):
          if i is not None and v[0] in ('item', 'func'):
            t = t.copy()
            t.vars[self.target(t, i)] = ('moved',)
          rets.append((v, t))
      return {'normal': [], 'break': [], 'continue': [], 'return': rets}
    if k == 'NullStmt':
      return out
    out['normal'] = dedup([t for s in out['normal']
                           for _, t in self.eval(node, s)])
    return out

  def declare(self, d, s):
    kids = cxx.children(d)
    kids = [c for c in kids if not c['kind'].endswith('Attr')]
    t = cxx.qual_type(d)
    if 'MutexLock' in t:
      init = cxx.strip(kids[0])
      args = [a for a in cxx.children(init) if a['kind'] != 'CXXDefaultArgExpr']
      if not args or self.field(args[0]) not in self.mutexes:
        raise Unsupported(d, 'a lock on something else')
      u = self.lock(s, d)
      u.scopes = u.scopes + ((d['id'], True),)
      if len(args) > 1:
        return self.condition(u, args[1])
      return [u]
    if not kids:
      u = s.copy()
      u.vars[d['id']] = ('null',) if 'function<' in t else OTHER
      return [u]
    init = kids[-1]
    if 'Condition' in t:
      fn = None
      for n in cxx.walk(init):
        if n['kind'] == 'LambdaExpr':
          fn = self.lambda_method(n)
        elif n['kind'] == 'DeclRefExpr' and (
            n['referencedDecl'].get('id') in self.funcs):
          fn = self.funcs[n['referencedDecl']['id']]
      u = s.copy()
      u.vars[d['id']] = ('cond', fn)
      return [u]
    i = self.var(init)
    if (d.get('type') or {}).get('qualType', '').endswith('&') and (
        i is not None):
      u = s.copy()
      u.vars[d['id']] = ('ref', self.target(s, i))
      return [u]
    out = []
    for v, u in self.eval(init, s):
      u = u.copy()
      u.vars[d['id']] = v
      out.append(u)
    return out

  def loop(self, node, states):
    n = self.counted(node, states)
    if n is not None:
      return n
    kids = cxx.children(node)
    k = node['kind']
    init, cond, inc, body, first = None, None, None, kids[-1], False
    decls = []
    if k == 'WhileStmt':
      cond = kids[0]
    elif k == 'DoStmt':
      body, cond, first = kids[0], kids[1], True
    elif k == 'ForStmt':
      raw = node.get('inner', [])
      if len(raw) == 5:
        init, _, cond, inc, body = [c if c and c.get('kind') else None
                                    for c in raw]
    else:
      raise Unsupported(node, 'range loop')
    res = {'normal': [], 'break': [], 'continue': [], 'return': []}
    if init:
      states = self.exec(init, states)['normal']
      decls = [d['id'] for d in cxx.children(init) if d['kind'] == 'VarDecl']
    seen, work = set(), list(states)
    skip = first
    while work:
      s = work.pop()
      key = (s.key(), skip)
      if key in seen:
        continue
      seen.add(key)
      if len(seen) > 5000:
        raise Unsupported(node, 'a loop with too many states')
      entered = []
      if cond is None or skip:
        entered = [s]
      else:
        for v, t in self.truth(cond, s):
          if v:
            entered.append(t)
          else:
            res['normal'].append(t)
      skip = False
      before = s.events
      o = self.exec(body, entered)
      res['normal'] += o['break']
      res['return'] += o['return']
      nxt = o['normal'] + o['continue']
      if inc:
        nxt = [t for u in nxt for _, t in self.eval(inc, u)]
      for t in nxt:
        if t.events != before:
          raise Unsupported(node, 'a loop that is not counted')
      work += nxt
    if decls:
      for key in ('normal',):
        for u in res[key]:
          for d in decls:
            u.vars.pop(d, None)
    res['normal'] = dedup(res['normal'])
    return res

  def trips(self, cond, inc, body, states):
    """(counter, number of iterations) of a loop, or (None, None)."""
    none = (None, None)

    def step(node):
      node = cxx.strip(node)
      kids = cxx.children(node)
      if node['kind'] == 'UnaryOperator' and node.get('opcode') in (
          '++', '--'):
        return self.var(kids[0]), 1 if node['opcode'] == '++' else -1
      if node['kind'] == 'CompoundAssignOperator' and node.get(
          'opcode') in ('+=', '-=') and cxx.strip(kids[1])[
              'kind'] == 'IntegerLiteral':
        by = int(cxx.strip(kids[1])['value'])
        return self.var(kids[0]), by if node['opcode'] == '+=' else -by
      return None, 0

    # `while (n--)`, `while (n-- > 0)`.
    if inc is None:
      test = cond
      if cond['kind'] == 'BinaryOperator' and cond['opcode'] in (
          '>', '!=') and cxx.strip(cxx.children(cond)[1]).get('value') == '0':
        test = cxx.strip(cxx.children(cond)[0])
      i, by = step(test)
      if i is not None and by == -1 and test.get('isPostfix'):
        vals = {self.load(s, i) for s in states}
        if len(vals) == 1:
          v = vals.pop()
          return (i, v) if v[0] == 'count' else none
        return none
    if cond['kind'] != 'BinaryOperator' or cond['opcode'] not in (
        '<', '>', '<=', '>=', '!='):
      return none
    left, right = cxx.children(cond)
    op = cond['opcode']
    flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}

    def counter(node):
      node = cxx.strip(node)
      if node['kind'] == 'BinaryOperator' and node['opcode'] in '+-' and (
          cxx.strip(cxx.children(node)[1])['kind'] == 'IntegerLiteral'):
        k = int(cxx.strip(cxx.children(node)[1])['value'])
        return self.var(cxx.children(node)[0]), (
            k if node['opcode'] == '+' else -k)
      return self.var(node), 0

    moved = {}
    for x in ([inc] if inc else []) + (
        cxx.children(body) if body['kind'] == 'CompoundStmt' else [body]):
      i, by = step(x)
      if i is not None:
        moved[i] = None if i in moved else by
    every = [x for x in cxx.walk(body) if step(x)[0] is not None] + (
        [inc] if inc else [])
    i, shift = counter(left)
    if i not in moved:
      i, shift = counter(right)
      left, right, op = right, left, flip.get(op, op)
    if i not in moved:
      # While there are fewer threads than asked for.
      vals = {(a, b) for s in states for a, _ in self.eval(left, s)
              for b, _ in self.eval(right, s)}
      if len(vals) == 1:
        a, b = vals.pop()
        if op == '>' and b == ('count', 'threads', 0):
          a, b, op = b, a, '<'
        if a == ('count', 'threads', 0) and b[0] == 'count' and op in (
            '<', '!=') and 'start' in self.body_events(body, states):
          return '', b
      return none
    by = moved[i]
    if by not in (1, -1) or sum(step(x)[0] == i for x in every) != 1 or any(
        x['kind'] == 'ContinueStmt' for x in cxx.walk(body)) and not inc:
      return none
    starts = {self.load(s, i) for s in states}
    ends = {v for s in states for v, _ in self.eval(right, s)}
    if len(starts) != 1 or len(ends) != 1:
      return none
    start, end = starts.pop(), ends.pop()
    if start[0] not in ('int', 'count') or end[0] not in ('int', 'count'):
      return none
    if by == -1:
      start, end, shift = end, start, -shift
      op = flip.get(op, op)
    if op not in ('<', '!=', '<='):
      return none
    extra = (1 if op == '<=' else 0) - shift
    if start[0] != 'int':
      return none
    if end[0] == 'int':
      return i, ('count', '', end[1] - start[1] + extra)
    return i, ('count', end[1], end[2] - start[1] + extra)

  def body_events(self, body, states):
    out = set()
    for s in states:
      o = self.exec(body, [s.copy(events=())])
      for u in o['normal'] + o['continue']:
        out |= {e for e in u.events}
    return out

  def counted(self, node, states):
    """Outcomes of a loop run a known number of times, or None."""
    k = node['kind']
    raw = node.get('inner', [])
    body = cxx.children(node)[-1]
    var = over = None
    low, bound = 0, None
    if k == 'CXXForRangeStmt':
      decl = [c for c in cxx.children(node) if c['kind'] == 'DeclStmt']
      rng = cxx.children(decl[0])[0]
      if self.field(cxx.children(rng)[-1]) not in self.pools:
        return None
      bound = ('count', 'threads', 0)
      var = cxx.children(decl[-1])[0]['id']
      over = ('thread',)
    elif k == 'ForStmt' and len(raw) == 5 and raw[2].get('kind') and (
        raw[3].get('kind')):
      if raw[0].get('kind'):
        if raw[0]['kind'] == 'DeclStmt':
          ds = [c for c in cxx.children(raw[0]) if c['kind'] == 'VarDecl']
          names = [x.get('name') for x in cxx.walk(raw[0])
                   if x['kind'] == 'MemberExpr']
          ends = [x.get('name') for x in cxx.walk(raw[2])
                  if x['kind'] == 'MemberExpr']
          if {'begin', 'cbegin'} & set(names) and {'end', 'cend'} & set(ends):
            cond = cxx.strip(raw[2])
            if cond['kind'] == 'CXXOperatorCallExpr':
              bound, over = ('count', 'threads', 0), ('thread',)
              var = ds[0]['id']
        states = self.exec(raw[0], states)['normal']
      if bound is None:
        var, bound = self.trips(cxx.strip(raw[2]), cxx.strip(raw[3]), body,
                                states)
    elif k == 'WhileStmt':
      cond = cxx.strip(cxx.children(node)[0])
      var, bound = self.trips(cond, None, body, states)
    if bound is None:
      return None
    res = {'normal': [], 'break': [], 'continue': [], 'return': []}
    for s in states:
      t = s.copy(events=())
      t.vars[var] = over or OTHER
      o = self.exec(body, [t])
      if o['return']:
        raise Unsupported(node, 'a counted loop left by return')
      ends = o['normal'] + o['continue']
      evs = {u.events for u in ends}
      for u in ends:
        ev = (('times',) + bound[1:] + (u.events,),) if u.events else ()
        if u.held != s.held:
          self.bad(node, 'lock-order', 'a loop changes whether the lock is held')
        u = u.copy(events=s.events + ev, scopes=s.scopes)
        u.vars.pop(var, None)
        res['normal'].append(u)
      for u in o['break']:
        u = u.copy(events=s.events + (('times', 'some', 0, u.events),))
        u.vars.pop(var, None)
        res['normal'].append(u)
      del evs
    res['normal'] = dedup(res['normal'])
    return res


def flatten(events):
  """[(event, bound)] with bound None (once) or (n, k)."""
  out = []
  for e in events:
    if isinstance(e, tuple):
      inner = flatten(e[3])
      for x, b in inner:
        out.append((x, (e[1], e[2]) if b is None else ('nested', 0)))
    else:
      out.append((e, None))
  return out


def run(ctx):
  ctx.analysed.add(FILE)
  pool = None
  try:
    pool = Pool(REPO)
    analyse(ctx, pool)
  except Unsupported as e:
    where = pool.lines.where(e.node) if pool else FILE
    raise RuntimeError('%s: not understood: %s' % (where, e)) from e


def analyse(ctx, pool):
  """Interprets every entry point of the class and judges the outcomes."""
  cls = pool.cls
  ctx.need(len(pool.mutexes) == 1, 'one absl::Mutex in ThreadPool')
  ctx.need(len(pool.queues) == 1, 'one queue of functions in ThreadPool')
  ctx.need(len(pool.pools) == 1, 'one vector of threads in ThreadPool')
  public, access = [], 'private'
  for n in cxx.children(cls):
    if n['kind'] == 'AccessSpecDecl':
      access = n.get('access') or access
    if n['id'] in pool.funcs and access == 'public':
      public.append(n)
  names = {}
  pool.worker = None
  outcomes = {}
  for n in public:
    name = n.get('name')
    names[name] = n
    s = State()
    params = [c for c in cxx.children(n) if c['kind'] == 'ParmVarDecl']
    args = [('arg',) if 'function<' in cxx.qual_type(p) else OTHER
            for p in params]
    outcomes[name] = pool.invoke(n, args, s)
    for _, u in outcomes[name]:
      if u.held:
        pool.bad(n, 'lock-order', '%s returns with the lock held' % name)
  ctx.need('Schedule' in names, 'ThreadPool::Schedule')
  ctx.need('StartWorkers' in names, 'ThreadPool::StartWorkers')
  ctx.need('~ThreadPool' in names, 'ThreadPool::~ThreadPool')

  # Schedule: every path queues its argument, once.
  for _, u in outcomes['Schedule']:
    ev = flatten(u.events)
    if [x for x, _ in ev] != ['func'] or ev[0][1]:
      pool.bad(names['Schedule'], 'exactly-once',
               'a path through Schedule queues the function %s' % (
                   'never' if not ev else 'more than once'))
  for name, outs in outcomes.items():
    if name in ('Schedule', '~ThreadPool'):
      continue
    for _, u in outs:
      for x, _ in flatten(u.events):
        if x in ('signal', 'again', 'join', 'forget'):
          pool.bad(names[name], 'shutdown', '%s: %s' % (name, x))

  # StartWorkers: as many threads as asked for.
  asked = [k for k, t in pool.fields.items() if t.startswith(
      ('const int', 'int', 'const size_t', 'size_t', 'const unsigned'))]
  for _, u in outcomes['StartWorkers']:
    ev = flatten(u.events)
    if [x for x, _ in ev] != ['start'] or not ev[0][1] or (
        ev[0][1][0] not in asked or ev[0][1][1] != 0):
      pool.bad(names['StartWorkers'], 'workers',
               'StartWorkers does not start the number of threads asked for')

  # The destructor: a signal for every thread, then all are joined.
  for _, u in outcomes['~ThreadPool']:
    ev = flatten(u.events)
    d = names['~ThreadPool']
    sig = [b for x, b in ev if x == 'signal']
    join = [b for x, b in ev if x == 'join']
    enough = any(b and b[0] in asked + ['threads'] and b[1] >= 0 for b in sig)
    if not enough:
      pool.bad(d, 'shutdown', 'the destructor may signal fewer threads than '
               'there are')
    if not any(b and b[0] in asked + ['threads'] and b[1] >= 0 for b in join):
      pool.bad(d, 'shutdown', 'the destructor does not join every thread')
    order = [x for x, _ in ev if x in ('signal', 'join', 'forget')]
    if order != sorted(order, key=('signal', 'join', 'forget').index):
      pool.bad(d, 'shutdown', 'threads are joined before they are all signalled')

  # The worker.
  ctx.need(pool.worker is not None, 'the function the threads run')
  for _, u in pool.invoke(pool.worker, [], State()):
    if not u.stopped:
      pool.bad(pool.worker, 'shutdown',
               'a worker may end without its shutdown signal')
    if u.held:
      pool.bad(pool.worker, 'lock-order', 'a worker ends with the lock held')
    for x, _ in flatten(u.events):
      pool.bad(pool.worker, 'exactly-once', 'a worker queues functions')
  ctx.need(getattr(pool, 'sides', {}).keys() == {'in', 'out'},
           'functions are queued and taken')

  rules = ('exactly-once', 'guarded', 'unlocked-call', 'first-in-first-out',
           'lock-order', 'shutdown', 'workers')
  for rule in rules:
    found = [v for v in pool.violations if v[0] == rule]
    if not found:
      ctx.ob(rule, 'ThreadPool', True, FILE, '')
    for _, where, text in found:
      ctx.ob(rule, 'ThreadPool', False, where, text,
             key='%s|%s' % (rule, text))
  ctx.notes.update({
      'methods': sorted(map(str, names)), 'worker': pool.worker.get('name'),
      'accesses of the queue on abstract paths': pool.accesses,
      'abstract steps': pool.steps})
  ctx.floor('exactly-once', 1)
  ctx.floor('guarded', 1)
