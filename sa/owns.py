"""Ownership and side effects of Python functions, from their syntax trees.

Every value is described by where it (and, one and two levels down, what it
holds) comes from: F (made by this call), a parameter, or G (a constant of a
module or class). Summaries - which parameters are changed, what is returned,
what is kept in which field - are computed over the class hierarchy to a
fixpoint. Changing a value that is not F is an effect of the function.
"""

import ast
import os

F, G = 'F', 'G'
E0 = frozenset()
NONE = (E0, E0, E0)
FRESH = (frozenset([F]), E0, E0)

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem',
            'difference_update', 'intersection_update',
            'symmetric_difference_update',
            # of FSTs
            'add_state', 'add_states', 'add_arc', 'set_start', 'set_final',
            'delete_states', 'delete_arcs'}
STORING = {'append', 'extend', 'insert', 'add', 'update', 'setdefault'}
ELEMENT = {'pop', 'popitem', 'get', 'setdefault', '__next__'}
NEW = {'copy', 'union', 'difference', 'intersection',
       'symmetric_difference', 'items', 'values', 'keys', '__iter__'}
STR = {'join', 'format', 'upper', 'lower', 'title', 'capitalize', 'strip',
       'replace', 'rjust', 'ljust', 'split', 'startswith', 'endswith',
       'string', 'encode', 'decode', 'index', 'count'}
PRIMCALL = {'len', 'isinstance', 'hasattr', 'any', 'all', 'bool', 'int', 'str',
            'float', 'hash', 'ord', 'chr', 'hex', 'repr', 'abs', 'round',
            'type', 'callable', 'issubclass', 'print', 'id', 'range', 'sum'}
WRAP = {'list', 'set', 'tuple', 'frozenset', 'sorted', 'reversed', 'iter',
        'dict', 'enumerate', 'zip', 'filter', 'map'}
DUNDER = {ast.Add: '__add__', ast.BitOr: '__or__', ast.RShift: '__rshift__',
          ast.Sub: '__sub__', ast.MatMult: '__matmul__'}


def join(*vs):
  return tuple(frozenset().union(*[v[i] for v in vs]) for i in range(3))


def inside(o):
  """The origin of what a value of that origin holds."""
  return o if o in (F, G) or o.endswith('.') else o + '.'


def held(v):
  return v[1] | v[2] | frozenset(inside(o) for o in v[0] if o != F)


def below(v):
  """What v holds."""
  prm = frozenset(inside(o) for o in v[0] if o != F)
  deeper = v[1] | prm if prm else v[1]
  return (deeper, v[2] | prm, v[2] | prm)


def holding(*vs):
  v = join(*vs) if vs else NONE
  return (frozenset([F]), v[0], v[1] | v[2])


class Cls:

  def __init__(self, name, mod, node, outer):
    self.name, self.mod, self.node, self.outer = name, mod, node, outer
    self.bases, self.methods, self.attrs, self.inner = [], {}, {}, {}
    self.subs = []

  def mro(self):
    out = [self]
    for b in self.bases:
      for c in b.mro():
        if c in out:
          out.remove(c)
        out.append(c)
    return out

  def family(self):
    out, todo = [], [self]
    while todo:
      c = todo.pop()
      if c not in out:
        out.append(c)
        todo += c.subs
    return out

  def find(self, name):
    for c in self.mro():
      if name in c.methods:
        return c.methods[name]
    return None

  def lookup(self, name):
    for c in self.mro():
      for d in (c.inner, c.methods, c.attrs):
        if name in d:
          return d[name]
    return None


class Fn:

  def __init__(self, node, mod, cls):
    self.node, self.mod, self.cls = node, mod, cls
    self.name = node.name
    a = node.args
    self.params = [x.arg for x in a.posonlyargs + a.args]
    self.vararg = a.vararg.arg if a.vararg else None
    self.kwonly = [x.arg for x in a.kwonlyargs]
    self.kwarg = a.kwarg.arg if a.kwarg else None
    self.deco = {d.id for d in node.decorator_list if isinstance(d, ast.Name)}
    self.mut = {}       # root -> where it is changed
    self.ret = NONE
    self.keeps = {}     # field -> origins stored there
    self.gives = {}     # attribute of a new object -> origins
    d = {}
    self.types = {x.arg: x.annotation for x in
                  a.posonlyargs + a.args + a.kwonlyargs}
    pos = a.posonlyargs + a.args
    for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
      d[x.arg] = v
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
      if v is not None:
        d[x.arg] = v
    self.defaults = d

  def roots(self):
    return self.params + self.kwonly + [
        x for x in (self.vararg, self.kwarg) if x]

  @property
  def qual(self):
    return '%s:%s%s' % (self.mod.path, qualname(self.cls) + '.'
                        if self.cls else '', self.name)


def qualname(c):
  return (qualname(c.outer) + '.' if c.outer else '') + c.name


class Mod:

  def __init__(self, name, path, tree):
    self.name, self.path, self.tree = name, path, tree
    self.env = {}


CONST = object()
VAR = object()


class Program:

  def __init__(self, repo, modules):
    self.mods, self.fns, self.classes = {}, [], []
    for m in modules:
      path = m.replace('.', '/') + '.py'
      full = os.path.join(repo, path)
      tree = ast.parse(open(full, encoding='utf8').read())
      self.mods[m] = Mod(m, path, tree)
    for m in self.mods.values():
      self.declare(m)
    for c in self.classes:
      for b in c.node.bases:
        t = self.static(b, c.mod, c.outer, {})
        if isinstance(t, Cls):
          c.bases.append(t)
          t.subs.append(c)
    self.by_name = {}
    for f in self.fns:
      if f.cls is not None:
        self.by_name.setdefault(f.name, []).append(f)
    self.why = None

  def declare(self, m):
    for s in ast.walk(m.tree):
      if isinstance(s, ast.ImportFrom) and s.module:
        for a in s.names:
          full = s.module + '.' + a.name
          m.env[a.asname or a.name] = self.mods.get(full, ('ext', full))
      elif isinstance(s, ast.Import):
        for a in s.names:
          m.env[(a.asname or a.name).split('.')[0]] = ('ext', a.name)
    self.body(m.tree.body, m, None, m.env)

  def body(self, stmts, m, cls, env):
    for s in stmts:
      if isinstance(s, ast.FunctionDef):
        f = Fn(s, m, cls)
        self.fns.append(f)
        (cls.methods if cls else env)[s.name] = f
      elif isinstance(s, ast.ClassDef):
        c = Cls(s.name, m, s, cls)
        self.classes.append(c)
        (cls.inner if cls else env)[s.name] = c
        self.body(s.body, m, c, c.attrs)
      elif isinstance(s, (ast.Assign, ast.AnnAssign)):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
        if s.value is None:
          continue
        lit = self.literal(s.value)
        for t in ts:
          for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
              (cls.attrs if cls else env).setdefault(
                  n.id, CONST if lit else VAR)

  def literal(self, v):
    if isinstance(v, ast.Constant):
      return True
    if isinstance(v, ast.UnaryOp):
      return self.literal(v.operand)
    if isinstance(v, ast.Tuple):
      return all(self.literal(x) for x in v.elts)
    if isinstance(v, ast.BinOp):
      return self.literal(v.left) and self.literal(v.right)
    if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and (
        v.value.id in ('Union', 'Optional')):
      return True
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and (
        v.func.id == 'TypeVar')

  # Static names: a module, class, function, CONST, VAR, ('ext', name) or None.

  def static(self, e, mod, cls, env):
    if isinstance(e, ast.Name):
      if e.id in env:
        return None
      c = cls
      if e.id in mod.env:
        return mod.env[e.id]
      while c is not None:
        if e.id in c.inner:
          return c.inner[e.id]
        c = c.outer
      return ('builtin', e.id)
    if isinstance(e, ast.Attribute):
      t = self.static(e.value, mod, cls, env)
      if isinstance(t, Mod):
        return t.env.get(e.attr)
      if isinstance(t, Cls):
        r = t.lookup(e.attr)
        return VAR if r is None else r
      if isinstance(t, tuple) and t[0] == 'ext':
        return ('ext', t[1] + '.' + e.attr)
    return None

  # Fixpoint.

  def solve(self):
    for _ in range(30):
      self.changed = False
      for f in self.fns:
        Body(self, f).run()
      if not self.changed:
        return
    raise RuntimeError('no fixpoint')


class Body:

  def __init__(self, prog, fn):
    self.p, self.f = prog, fn

  def run(self):
    f = self.f
    self.env = {}
    for r in f.roots():
      o = frozenset([r + '.'])
      v = (frozenset([r]), o, o)
      if self.scalar_type(f.types.get(r)):
        v = NONE
      if r in (f.vararg, f.kwarg):
        v = (frozenset([F]), o, o)   # the tuple itself is new
      self.env[r] = v
    if f.params and 'classmethod' in f.deco:
      self.env[f.params[0]] = NONE
    self.selfname = f.params[0] if f.cls and f.params and not (
        {'staticmethod', 'classmethod'} & f.deco) else None
    self.clsname = f.params[0] if f.cls and f.params and (
        'classmethod' in f.deco) else None
    self.assigned, self.fields, self.made = {}, {}, None
    self.local_types()
    self.block(f.node.body)

  SCALARS = {'str', 'int', 'float', 'bool', 'None', 'OptionalBool'}

  def scalar_type(self, t):
    """An annotation that admits texts, numbers and truth values only."""
    if t is None:
      return False
    if isinstance(t, ast.Constant):
      return t.value is None or t.value in self.SCALARS
    if isinstance(t, ast.Name):
      return t.id in self.SCALARS
    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and (
        t.value.id in ('Union', 'Optional')):
      xs = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
      return all(self.scalar_type(x) for x in xs)
    if isinstance(t, ast.BinOp):
      return self.scalar_type(t.left) and self.scalar_type(t.right)
    return False

  def scalar(self, e):
    if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare)):
      return True
    if isinstance(e, ast.BinOp):
      return self.scalar(e.left) or self.scalar(e.right)
    if isinstance(e, ast.IfExp):
      return self.scalar(e.body) and self.scalar(e.orelse)
    if isinstance(e, ast.Call):
      f = e.func
      if isinstance(f, ast.Name) and f.id in PRIMCALL:
        return True
      return isinstance(f, ast.Attribute) and f.attr in STR
    if isinstance(e, ast.Name):
      return e.id in self.f.types and self.scalar_type(self.f.types[e.id])
    return False

  # Recording.

  def changes(self, v, node, what):
    for o in v[0]:
      if o != F and o not in self.f.mut:
        self.f.mut[o] = '%s line %d: %s' % (self.f.qual, node.lineno, what)
        self.p.changed = True

  def returns(self, v):
    n = join(self.f.ret, v)
    if n != self.f.ret:
      self.f.ret = n
      self.p.changed = True

  def keep(self, field, v, node):
    if field.startswith('__') and field != '__call__':
      return
    k = self.f.keeps.setdefault(field, {})
    for o in v[0]:
      if o not in k:
        k[o] = '%s line %d' % (self.f.qual, node.lineno)
        self.p.changed = True

  # Statements.

  def block(self, body):
    for s in body:
      self.stmt(s)

  def merge(self, a, b):
    out = dict(a)
    for k, v in b.items():
      out[k] = join(out[k], v) if k in out else v
    return out

  def stmt(self, s):
    k = type(s)
    if k is ast.Expr:
      self.ev(s.value)
    elif k is ast.Return:
      if s.value is not None:
        self.returns(self.ev(s.value))
    elif k is ast.Assign:
      self.made = None
      v = self.ev(s.value)
      made = self.made if isinstance(s.value, ast.Call) else None
      self.made = None
      for t in s.targets:
        if isinstance(t, ast.Name):
          self.fields.pop(t.id, None)
          if made is not None and made[0] is s.value:
            self.fields[t.id] = made[1]
        if isinstance(t, ast.Tuple) and isinstance(
            s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
          vs = [self.ev(x) for x in s.value.elts]
          for x, y in zip(t.elts, vs):
            self.assign(x, y, s)
        else:
          self.assign(t, v, s)
    elif k is ast.AnnAssign:
      if s.value is not None:
        self.assign(s.target, self.ev(s.value), s)
    elif k is ast.AugAssign:
      old, new = self.ev(s.target), self.ev(s.value)
      if isinstance(s.target, ast.Name):
        if self.scalar(s.value) or not (old[0] | new[0]):
          self.env[s.target.id] = NONE
          return
        self.changes(old, s, 'augmented in place')
        v = (old[0], old[1] | new[1], old[2] | new[2]) if old[0] else (
            old if not new[0] else join(old, FRESH, (E0, new[1], new[2])))
        self.env[s.target.id] = v
      else:
        # The place is written, whatever it holds.
        inner = below(self.ev(s.target.value))
        del inner
        self.assign(s.target, NONE, s)
    elif k is ast.Delete:
      for t in s.targets:
        if isinstance(t, (ast.Subscript, ast.Attribute)):
          self.changes(self.ev(t.value), s, 'deletes from it')
    elif k is ast.If:
      self.ev(s.test)
      e0 = dict(self.env)
      self.env = self.narrow(s.test, dict(e0), True)
      self.block(s.body)
      a = self.env
      self.env = self.narrow(s.test, dict(e0), False)
      self.block(s.orelse)
      if ends(s.body):
        pass
      elif s.orelse and ends(s.orelse):
        self.env = a
      else:
        self.env = self.merge(a, self.env)
    elif k in (ast.For, ast.While):
      if k is ast.For:
        it = self.ev(s.iter)
      for _ in range(3):
        e0 = dict(self.env)
        if k is ast.For:
          self.assign(s.target, self.items(s.iter, it), s)
        else:
          self.ev(s.test)
        self.block(s.body)
        self.env = self.merge(e0, self.env)
        if self.env == e0:
          break
      self.block(s.orelse)
    elif k is ast.With:
      for i in s.items:
        v = self.ev(i.context_expr)
        if i.optional_vars is not None:
          self.assign(i.optional_vars, v, s)
      self.block(s.body)
    elif k is ast.Try:
      e0 = dict(self.env)
      self.block(s.body)
      self.block(s.orelse)
      self.env = self.merge(e0, self.env)
      for h in s.handlers:
        if h.name:
          self.env[h.name] = NONE
        self.block(h.body)
      self.block(s.finalbody)
    elif k is ast.Match:
      v = self.ev(s.subject)
      e0, out = dict(self.env), dict(self.env)
      for c in s.cases:
        self.env = dict(e0)
        for n in ast.walk(c.pattern):
          if isinstance(n, ast.MatchAs) and n.name:
            self.env[n.name] = v
        self.block(c.body)
        out = self.merge(out, self.env)
      self.env = out
    elif k is ast.Raise:
      if s.exc is not None:
        self.ev(s.exc)
    elif k is ast.Assert:
      self.ev(s.test)
    elif k is ast.FunctionDef:
      # A local function: its body counts as run here.
      e0 = dict(self.env)
      for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
        self.env[a.arg] = NONE
      r = self.f.ret
      ch = self.p.changed
      self.block(s.body)
      self.f.ret, self.p.changed = r, ch
      self.env = e0
      self.env[s.name] = NONE

  def narrow(self, test, env, value):
    """A variable known to be a text, a number or a symbol (symbols are meant
    to be shared) is owned by nobody."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
      return self.narrow(test.operand, env, not value)
    if isinstance(test, ast.Call) and isinstance(
        test.func, ast.Name) and test.func.id == 'isinstance' and value and (
            isinstance(test.args[0], ast.Name)):
      t = test.args[1]
      name = t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '')
      if name in ('str', 'int', 'float', 'bool', 'Symbol', 'Atomic'):
        env[test.args[0].id] = NONE
    return env

  def assign(self, t, v, node):
    if isinstance(t, ast.Name):
      self.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        self.assign(x, below(v), node)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, holding(below(v)), node)
    elif isinstance(t, (ast.Attribute, ast.Subscript)):
      st = self.p.static(t.value, self.f.mod, self.f.cls, self.env)
      if isinstance(t, ast.Attribute) and (isinstance(st, Cls) or (
          isinstance(t.value, ast.Name) and t.value.id == self.clsname)):
        self.changes((frozenset([G]), E0, E0), node, 'sets ' + t.attr)
        return
      base = self.ev(t.value)
      self.changes(base, node, 'sets .%s' % t.attr if isinstance(
          t, ast.Attribute) else 'stores an item')
      if F in base[0]:
        self.f.gives.setdefault(
            '.' + t.attr if isinstance(t, ast.Attribute) else 'item',
            set()).update(v[0])
      if isinstance(t, ast.Attribute) and self.is_self(t.value):
        self.keep(t.attr, v, node)
      elif isinstance(t, ast.Subscript):
        ch = self.channel(t.value)
        if ch:
          self.keep(ch, v, node)
        self.ev(t.slice)
      self.pour(t.value, v)

  def is_self(self, e):
    return isinstance(e, ast.Name) and e.id == self.selfname

  def channel(self, e):
    """Name of the field of self that the expression denotes."""
    if isinstance(e, ast.Attribute) and self.is_self(e.value):
      return e.attr
    if isinstance(e, ast.Call):
      return self.channel(e.func)
    return None

  def pour(self, e, v):
    """v is now held by (something reachable from) the expression."""
    while isinstance(e, (ast.Attribute, ast.Subscript)):
      e = e.value
    if isinstance(e, ast.Name) and e.id in self.env:
      o = self.env[e.id]
      if F in o[0]:
        self.env[e.id] = (o[0], o[1] | v[0], o[2] | v[1] | v[2])

  # Expressions.

  def ev(self, e):
    k = type(e)
    if k is ast.Name:
      if e.id in self.env:
        return self.env[e.id]
      t = self.p.static(e, self.f.mod, self.f.cls, self.env)
      if t is VAR:
        g = frozenset([G])
        return (g, g, g)
      return NONE
    if k is ast.Constant:
      return NONE
    if k is ast.Attribute:
      t = self.p.static(e, self.f.mod, self.f.cls, self.env)
      if t is VAR:
        g = frozenset([G])
        return (g, g, g)
      if t is not None:
        return NONE
      v = self.ev(e.value)
      # Properties are calls.
      own = isinstance(e.value, ast.Name) and e.value.id == self.selfname
      for f in self.candidates(e):
        if 'property' in f.deco:
          return self.apply(f, [v], {}, e, True, own)
      if isinstance(e.value, ast.Name) and e.attr in self.fields.get(
          e.value.id, ()):
        return self.fields[e.value.id][e.attr]
      c = self.owner(e.value)
      if c is not None:
        r = c.lookup(e.attr)
        if r is CONST or isinstance(r, (Cls, Fn)):
          return NONE
        if r is VAR and not any(e.attr in f.keeps for f in self.p.fns
                                if f.cls in c.mro()):
          g = frozenset([G])
          return (g, g, g)
      return below(v)
    if k is ast.Subscript:
      v = self.ev(e.value)
      if isinstance(e.slice, ast.Slice):
        return (frozenset([F]) if v[0] else E0, below(v)[0], below(v)[1])
      self.ev(e.slice)
      return below(v)
    if k in (ast.List, ast.Tuple, ast.Set):
      vs = []
      for x in e.elts:
        if isinstance(x, ast.Starred):
          vs.append(below(self.ev(x.value)))
        else:
          vs.append(self.ev(x))
      h = holding(*vs)
      return h if k is not ast.Tuple or any(h[1:]) else NONE
    if k is ast.Dict:
      vs = [below(self.ev(v)) if kk is None else self.ev(v)
            for kk, v in zip(e.keys, e.values)]
      for kk in e.keys:
        if kk is not None:
          self.ev(kk)
      return holding(*vs)
    if k in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
      e0 = dict(self.env)
      for g in e.generators:
        self.assign(g.target, self.items(g.iter, self.ev(g.iter)), e)
        for c in g.ifs:
          self.ev(c)
      if k is ast.DictComp:
        self.ev(e.key)
        r = holding(self.ev(e.value))
      else:
        r = holding(self.ev(e.elt))
      self.env = e0
      return r
    if k is ast.IfExp:
      self.ev(e.test)
      return join(self.ev(e.body), self.ev(e.orelse))
    if k is ast.BoolOp:
      return join(*[self.ev(x) for x in e.values])
    if k is ast.Compare:
      self.ev(e.left)
      for c in e.comparators:
        self.ev(c)
      return NONE
    if k is ast.UnaryOp:
      self.ev(e.operand)
      return NONE
    if k is ast.BinOp:
      a, b = self.ev(e.left), self.ev(e.right)
      for f in self.p.by_name.get(DUNDER.get(type(e.op), ''), ()):
        self.apply(f, [a, b], {}, e, False)
      if not a[0] and not b[0]:
        return NONE
      return holding(a, b, below(a), below(b))
    if k is ast.JoinedStr:
      for x in e.values:
        if isinstance(x, ast.FormattedValue):
          self.ev(x.value)
      return NONE
    if k is ast.Lambda:
      e0 = dict(self.env)
      for a in e.args.args:
        self.env[a.arg] = NONE
      self.ev(e.body)
      self.env = e0
      return NONE
    if k is ast.Starred:
      return below(self.ev(e.value))
    if k is ast.NamedExpr:
      v = self.ev(e.value)
      self.assign(e.target, v, e)
      return v
    if k is ast.Call:
      return self.call(e)
    if k in (ast.Yield, ast.YieldFrom):
      if e.value is not None:
        v = self.ev(e.value)
        self.returns(holding(v) if k is ast.Yield else v)
      return NONE
    if k is ast.Await:
      return self.ev(e.value)
    raise RuntimeError('%s at %s:%d' % (k.__name__, self.f.qual, e.lineno))

  def items(self, e, v):
    """What iterating gives."""
    return below(v)

  def owner(self, e):
    """The class an expression is known to be an instance of."""
    if isinstance(e, ast.Name) and e.id in (
        self.selfname, self.clsname) and e.id:
      return self.f.cls
    return self.typeof(e)

  def annotated(self, t, fn):
    """The class an annotation names."""
    if isinstance(t, ast.Constant) and isinstance(t.value, str):
      try:
        t = ast.parse(t.value, mode='eval').body
      except SyntaxError:
        return None
    if isinstance(t, (ast.Name, ast.Attribute)):
      r = self.p.static(t, fn.mod, fn.cls, {})
      if isinstance(r, Cls):
        return r
      if isinstance(t, ast.Name) and t.id in ('list', 'dict', 'set', 'tuple'):
        return Cls(t.id, fn.mod, t, None)
    if isinstance(t, ast.Subscript):
      return self.annotated(t.value, fn) if isinstance(
          t.value, ast.Name) and t.value.id in (
              'list', 'dict', 'set', 'tuple') else None
    return None

  def typeof(self, e):
    if isinstance(e, ast.Name):
      if e.id in self.assigned:
        return self.assigned[e.id]
      return self.annotated(self.f.types.get(e.id), self.f)
    if isinstance(e, (ast.List, ast.ListComp)):
      return Cls('list', self.f.mod, e, None)
    if isinstance(e, (ast.Dict, ast.DictComp)):
      return Cls('dict', self.f.mod, e, None)
    if isinstance(e, (ast.Set, ast.SetComp)):
      return Cls('set', self.f.mod, e, None)
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and (
        not isinstance(e.slice, ast.Slice)):
      vs = [n.value for n in ast.walk(self.f.node)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and
            isinstance(n.targets[0], ast.Subscript) and
            ast.dump(n.targets[0].value) == ast.dump(e.value).replace(
                'Store()', 'Load()')]
      ts = [self.typeof(v) for v in vs]
      if ts and all(t is not None and t.name == ts[0].name for t in ts):
        return ts[0]
      return None
    if isinstance(e, ast.Call):
      if isinstance(e.func, ast.Name) and e.func.id in (
          'list', 'dict', 'set', 'sorted'):
        return Cls('list' if e.func.id == 'sorted' else e.func.id,
                   self.f.mod, e, None)
      t = self.p.static(e.func, self.f.mod, self.f.cls, self.env)
      if isinstance(t, Cls):
        return t
      if isinstance(t, Fn):
        return self.annotated(t.node.returns, t)
      if isinstance(e.func, ast.Attribute):
        return self.agreed(self.candidates(e.func))
    if isinstance(e, ast.Attribute):
      return self.agreed([f for f in self.candidates(e)
                          if 'property' in f.deco])
    return None

  def agreed(self, fs):
    ts = [self.annotated(f.node.returns, f) for f in fs]
    if ts and all(t is not None and t.name == ts[0].name for t in ts):
      return ts[0]
    return None

  def local_types(self):
    """Types of variables whose every assignment agrees."""
    self.assigned = {}
    seen = {}
    for n in ast.walk(self.f.node):
      ts, v = [], None
      if isinstance(n, ast.Assign):
        ts, v = n.targets, n.value
      elif isinstance(n, ast.AnnAssign):
        ts, v = [n.target], n.value
      elif isinstance(n, (ast.For, ast.comprehension)):
        ts = [n.target]
      elif isinstance(n, ast.With):
        ts = [i.optional_vars for i in n.items if i.optional_vars]
      elif isinstance(n, ast.NamedExpr):
        ts, v = [n.target], n.value
      for t in ts:
        for x in ast.walk(t):
          if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            seen.setdefault(x.id, []).append(v if x is t else None)
    for x, vs in seen.items():
      if x in self.f.roots():
        continue
      ks = [self.typeof(v) if v is not None else None for v in vs]
      if ks[0] is not None and all(
          k is not None and k.name == ks[0].name for k in ks):
        self.assigned[x] = ks[0]
    for x in seen:
      if x in self.f.types and x in self.f.roots():
        self.assigned[x] = None

  def candidates(self, e):
    """Methods that an attribute may name."""
    name = e.attr
    base = e.value
    if isinstance(base, ast.Call) and isinstance(
        base.func, ast.Name) and base.func.id == 'super':
      for c in self.f.cls.mro()[1:]:
        if name in c.methods:
          # Cooperative inheritance may reach any base.
          return [d.methods[name] for d in self.f.cls.mro()[1:]
                  if name in d.methods]
      return []
    c = self.owner(base)
    if c is not None:
      m = c.find(name)
      out = [m] if m else []
      for d in c.family():
        if name in d.methods and d.methods[name] not in out:
          out.append(d.methods[name])
      return out
    return self.p.by_name.get(name, [])

  def call(self, e):
    fn = e.func
    args, kw = [], {}
    for a in e.args:
      if isinstance(a, ast.Starred):
        args.append(('*', below(self.ev(a.value))))
      else:
        args.append(self.ev(a))
    for k in e.keywords:
      v = self.ev(k.value)
      kw[k.arg or '**'] = below(v) if k.arg is None else v
    flat = [a[1] if len(a) == 2 else a for a in args] + list(kw.values())
    if isinstance(fn, ast.Name) and fn.id == 'super':
      return self.env.get(self.selfname or self.clsname, NONE)
    t = self.p.static(fn, self.f.mod, self.f.cls, self.env)
    if isinstance(fn, ast.Name) and fn.id in self.env:
      if fn.id == self.clsname:
        t = self.f.cls
      else:
        return holding(*flat)       # a function held in a variable
    if isinstance(t, Cls):
      return self.construct(t, args, kw, flat, e)
    if isinstance(t, Fn):
      if t.cls is not None and 'classmethod' in t.deco:
        args = [NONE] + args
      return self.apply(t, args, kw, e)
    if isinstance(t, tuple) and t[0] == 'builtin':
      return self.builtin(t[1], flat, e)
    if isinstance(t, tuple) and t[0] == 'ext':
      if t[1].endswith('from_iterable'):
        return (frozenset([F]), below(below(flat[0]))[0],
                below(below(flat[0]))[1])
      if t[1].startswith('itertools'):
        return holding(*[below(v) for v in flat])
      if t[1] == 'copy.copy':
        return (frozenset([F]), below(flat[0])[0], below(flat[0])[1])
      return FRESH
    if isinstance(fn, ast.Attribute):
      recv = self.ev(fn.value)
      cs = self.candidates(fn)
      isself = self.owner(fn.value) is not None and (
          self.owner(fn.value).name not in ('list', 'dict', 'set', 'tuple'))
      sup = isinstance(fn.value, ast.Call) and isinstance(
          fn.value.func, ast.Name) and fn.value.func.id == 'super'
      out = []
      # By name alone, a receiver is changed if every method of that name does.
      certain = isself or sup or all(
          set(f.params[:1] + [x + '.' for x in f.params[:1]]) & set(f.mut)
          for f in cs if not {'staticmethod', 'classmethod'} & f.deco)
      own = sup or isinstance(fn.value, ast.Name) and (
          fn.value.id == self.selfname)
      if fn.attr in NEW and not isself and not sup:
        return self.foreign_method(fn, recv, flat, e)
      for f in cs:
        if 'staticmethod' in f.deco:
          out.append(self.apply(f, args, kw, e, isself, own))
        else:
          first = NONE if 'classmethod' in f.deco else recv
          out.append(self.apply(
              f, [first] + args, kw, e, certain, own))
      if not isself and not sup:
        inner = None
        for c in self.p.classes:
          if c.name == fn.attr:
            inner = c
        if inner is not None and not cs:
          return self.construct(inner, args, kw, flat, e)
        out.append(self.foreign_method(fn, recv, flat, e))
      elif not cs:
        c = self.f.cls.lookup(fn.attr) if self.f.cls else None
        if isinstance(c, Cls):
          return self.construct(c, args, kw, flat, e)
        out.append(self.foreign_method(fn, recv, flat, e))
      self.kept_by_call(fn, flat, e)
      return join(*out) if out else NONE
    self.ev(fn)
    return holding(*flat)

  def kept_by_call(self, fn, flat, e):
    """self.add_item(x), self._items.append(x), ... keep x."""
    if fn.attr in STORING | {'add_item', 'add_suppl', '_add_field',
                             'new_profile'}:
      ch = self.channel(fn.value)
      if ch:
        for v in flat:
          self.keep(ch, v if fn.attr not in ('extend', 'update') else below(v),
                    e)
      elif self.is_self(fn.value) and fn.attr in ('add_item',):
        for v in flat[:1]:
          self.keep('add_item', v, e)
      if fn.attr in STORING and flat:
        self.pour(fn.value, flat[-1] if fn.attr not in (
            'extend', 'update') else below(flat[-1]))

  def foreign_method(self, fn, recv, flat, e):
    """The method of a built-in container of that name."""
    n = fn.attr
    if n in MUTATORS:
      self.changes(recv, e, '.%s()' % n)
    if n in ELEMENT:
      return join(below(recv), *flat[1:2])
    if n in NEW:
      v = below(recv)
      if n in ('items',):
        return (frozenset([F]), frozenset([F]) | v[0], v[0] | v[1])
      out = (frozenset([F]), v[0], v[1])
      if n == 'union':
        out = join(out, *[holding(below(x)) for x in flat])
      return out
    if n in STR or n in MUTATORS:
      return NONE
    if self.p.by_name.get(n):
      return NONE
    return NONE if not recv[0] else holding(*flat)

  def construct(self, c, args, kw, flat, e):
    m = c.find('__init__')
    fields = {}
    if m is not None:
      self.apply(m, [FRESH] + args, kw, e)
      for field, origins in m.keeps.items():
        vs = [self.bound.get(o.rstrip('.'), NONE) for o in origins
              if o not in (F, G)]
        if F in origins:
          vs.append(FRESH)
        if G in origins:
          g = frozenset([G])
          vs.append((g, g, g))
        fields[field] = join(*vs) if vs else NONE
    self.made = (e, fields)
    return holding(*flat)

  def apply(self, f, args, kw, e, effects=True, own=True):
    """Effects of calling f on the values; its result in our terms."""
    bind = {}
    i = 0
    for a in args:
      if len(a) == 2:
        for r in f.params[i:]:
          bind[r] = join(bind.get(r, NONE), a[1])
        if f.vararg:
          bind[f.vararg] = join(bind.get(f.vararg, NONE), a[1])
        continue
      if i < len(f.params):
        bind[f.params[i]] = join(bind.get(f.params[i], NONE), a)
        i += 1
      elif f.vararg:
        bind[f.vararg] = join(bind.get(f.vararg, NONE), a)
    for k, v in kw.items():
      if k == '**':
        for r in f.params + f.kwonly:
          bind[r] = join(bind.get(r, NONE), v)
      elif k in f.params or k in f.kwonly:
        bind[k] = join(bind.get(k, NONE), v)
      elif f.kwarg:
        bind[f.kwarg] = join(bind.get(f.kwarg, NONE), v)
    self.bound = bind
    for r, where in list(f.mut.items()) if effects else ():
      if r == G:
        continue     # reported where it happens
      if r.endswith('.'):
        # What a new object holds and changes itself is its own.
        os_ = {inside(o) for o in bind.get(r[:-1], NONE)[0] if o != F}
      else:
        os_ = bind.get(r, NONE)[0]
      for o in os_ - {F}:
        if o not in self.f.mut:
          self.f.mut[o] = '%s line %d -> %s' % (self.f.qual, e.lineno, where)
          self.p.changed = True
    return self.result(f.ret, bind, own)

  def result(self, ret, bind, own):
    out = []
    for lvl in range(3):
      s = set()
      for o in ret[lvl]:
        if o in (F, G):
          s.add(o)
        elif o.endswith('.'):
          if own:
            s |= held(bind.get(o[:-1], NONE))
        else:
          s |= bind.get(o, NONE)[0]
      out.append(s)
    for o in ret[0]:
      if o not in (F, G) and not o.endswith('.'):
        v = bind.get(o, NONE)
        out[1] |= v[1]
        out[2] |= v[2]
    for o in ret[1]:
      if o not in (F, G) and not o.endswith('.'):
        out[2] |= bind.get(o, NONE)[1]
    return tuple(frozenset(x) for x in out)

  def builtin(self, name, flat, e):
    if name in PRIMCALL:
      return NONE
    if name in WRAP:
      v = join(*[below(x) for x in flat]) if flat else NONE
      if name in ('enumerate', 'zip'):
        return (frozenset([F]), frozenset([F]) | v[0], v[0] | v[1] | v[2])
      return (frozenset([F]), v[0], v[1] | v[2])
    if name in ('min', 'max', 'next'):
      return join(*[below(x) for x in flat]) if len(flat) == 1 else join(*flat)
    if name == 'getattr':
      return join(below(flat[0]), *flat[2:])
    if name == 'setattr':
      self.changes(flat[0], e, 'setattr')
      if F in flat[0][0]:
        self.f.gives.setdefault('setattr', set()).update(flat[2][0])
      if isinstance(e.args[0], ast.Name):
        self.pour(e.args[0], flat[2])
      return NONE
    if name == 'vars':
      return flat[0]
    return holding(*flat)


def ends(body):
  return bool(body) and isinstance(
      body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
