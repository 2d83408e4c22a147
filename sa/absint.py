"""Abstract interpreter for the Python subset the repository is written in.

It walks the syntax tree of /repo's current source.  Values that the source
determines are propagated as constants; values of the finite-state library are
*terms* of an uninterpreted algebra (see terms.py), so no automaton is ever
built; values that only exist at run time are `Sym` objects, and a branch on
one of them is explored both ways (see `explore`).  External modules are
either models (terms.py, models.py) or a whitelist of pure standard modules.

Nothing of /repo is imported or executed by the host interpreter.
"""

import ast
import builtins
import collections
import collections.abc
import contextlib
import inspect
import os
import threading
import types
import typing

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisError(BaseException):
  """The analysis cannot go on; never caught by interpreted code."""


class Unsupported(AnalysisError):
  pass


class _Break(Exception):
  pass


class _Continue(Exception):
  pass


class _Return(Exception):

  def __init__(self, value):
    self.value = value


class Scope:
  __slots__ = ('vars', 'parent', 'globals', 'kind', 'decl', 'yields', 'cell')

  def __init__(self, vars_, parent, globals_, kind):
    self.vars = vars_
    self.parent = parent
    self.globals = globals_
    self.kind = kind          # 'module', 'function', 'class', 'comp', 'cell'
    self.decl = None          # name -> 'global'/'nonlocal'
    self.yields = None
    self.cell = None


class Frame:
  __slots__ = ('path', 'func', 'line')

  def __init__(self, path, func):
    self.path, self.func, self.line = path, func, 0

  def site(self):
    return (self.path, self.func, self.line)


class Yields:
  """What a generator yielded, and the value it returned."""

  def __init__(self, items, value):
    self._items, self.value = iter(items), value

  def __iter__(self):
    return self

  def __next__(self):
    return next(self._items)


class LazyGenerator:
  """A generator that runs up to its next yield only (context managers)."""

  def __init__(self, interp, run):
    self._interp, self._run = interp, run
    self._thread = None
    self._go, self._back = threading.Semaphore(0), threading.Semaphore(0)
    self._sent = self._out = None

  def __iter__(self):
    return self

  def __next__(self):
    return self._resume(None)

  def send(self, value):
    return self._resume(value)

  def throw(self, typ, value=None, tb=None):
    return self._resume(None, value if isinstance(value, BaseException) else
                        typ if isinstance(typ, BaseException) else typ())

  def close(self):
    pass

  def _resume(self, value, error=None):
    if self._thread is None:
      if error is not None:
        raise error
      self._frames = list(self._interp.frames)
      self._thread = threading.Thread(target=self._main, daemon=True)
      self._swap(self._thread.start)
    else:
      self._sent = (value, error)
      self._swap(self._go.release)
    kind, x = self._out
    if kind == 'raise':
      raise x
    if kind == 'return':
      raise StopIteration(x)
    return x

  def _swap(self, start):
    mine, self._interp.frames[:] = (
        list(self._interp.frames), self._frames)
    start()
    self._back.acquire()
    self._frames = list(self._interp.frames)
    self._interp.frames[:] = mine

  def _main(self):
    try:
      self._out = ('return', self._run(self))
    except BaseException as e:  # pylint: disable=broad-except
      self._out = ('raise', e)
    self._back.release()

  def append(self, x):
    self._out = ('yield', x)
    self._back.release()
    self._go.acquire()
    value, error = self._sent
    if error is not None:
      raise error
    return value

  def extend(self, xs):
    for x in xs:
      self.append(x)


class FnInfo:
  """What is known of an interpreted function."""

  lazy = False  # a generator that is not run ahead

  def __init__(self, node, path, qualname, module):
    self.node, self.path, self.qualname, self.module = (
        node, path, qualname, module)


class ModuleObj(types.ModuleType):
  """A module of the interpreted program."""


MUTATORS = {
    list: {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
           'reverse'},
    dict: {'update', 'setdefault', 'pop', 'popitem', 'clear'},
    set: {'add', 'update', 'remove', 'discard', 'pop', 'clear',
          'intersection_update', 'difference_update',
          'symmetric_difference_update'},
}

_BINOPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
    ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b,
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
    ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
    ast.BitAnd: lambda a, b: a & b, ast.FloorDiv: lambda a, b: a // b,
    ast.MatMult: lambda a, b: a @ b,
}


def _iop(name, binop):
  def f(a, b):
    import operator
    return getattr(operator, name)(a, b)
  return f


_IOPS = {
    ast.Add: _iop('iadd', None), ast.Sub: _iop('isub', None),
    ast.Mult: _iop('imul', None), ast.Div: _iop('itruediv', None),
    ast.Mod: _iop('imod', None), ast.Pow: _iop('ipow', None),
    ast.LShift: _iop('ilshift', None), ast.RShift: _iop('irshift', None),
    ast.BitOr: _iop('ior', None), ast.BitXor: _iop('ixor', None),
    ast.BitAnd: _iop('iand', None), ast.FloorDiv: _iop('ifloordiv', None),
    ast.MatMult: _iop('imatmul', None),
}

_CMPS = {
    ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b,
    ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
    ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
    ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
    ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
}

# Pure standard modules, folded as constants.
REAL_MODULES = {
    'itertools', 'functools', 're', 'string', 'typing', 'collections',
    'collections.abc', 'unicodedata', 'enum', 'copy', 'math', 'errno',
    'operator', 'dataclasses', 'abc', '__future__', 'inspect', 'warnings',
    'types', 'numbers', 'json', 'textwrap', 'contextlib', 'logging', 'io',
    'random', 'heapq', 'bisect', 'statistics', 'weakref', 'sys', 'time',
    'tabulate', 'typing_extensions', 'numpy', 'statistics', 'difflib',
}

_LOCAL_CACHE = {}


def _has_yield(node):
  r = _LOCAL_CACHE.get(node)
  if r is None:
    r = False
    stack = list(node.body)
    while stack:
      n = stack.pop()
      if isinstance(n, (ast.Yield, ast.YieldFrom)):
        r = True
        break
      if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        continue
      stack.extend(ast.iter_child_nodes(n))
    _LOCAL_CACHE[node] = r
  return r


_AST_CACHE = {}


def parse_file(path, text=None):
  if text is None:
    key = path
    if key in _AST_CACHE:
      return _AST_CACHE[key]
    with open(path, encoding='utf8') as f:
      text = f.read()
  else:
    key = (path, text)
    if key in _AST_CACHE:
      return _AST_CACHE[key]
  tree = ast.parse(text, filename=path)
  _AST_CACHE[key] = tree
  return tree


MEMO_FNS = {'partition_unordered'}
_MEMO = {}


def _plain_key(x):
  if isinstance(x, (str, int, float, bool, type(None))):
    return x
  if isinstance(x, (list, tuple)):
    out = []
    for y in x:
      k = _plain_key(y)
      if k is None and y is not None:
        return None
      out.append(k)
    return (type(x).__name__, tuple(out))
  return None


class Interp:
  """One interpreted program (one process of the real system)."""

  def __init__(self, models=None, overrides=None, repo=None, step_limit=80_000_000):
    self.repo = repo or REPO
    self.modules = {}
    self.models = dict(models or {})   # module name -> object or factory
    self.overrides = dict(overrides or {})  # module name -> (path, text)
    self.frames = []
    self.step_limit = step_limit
    self.steps = 0
    self.builtins = dict(vars(builtins))
    self.builtins['__import__'] = self._no_import
    self.builtins['open'] = self._open
    self.builtins['super'] = super
    self.builtins['exec'] = self._deny('exec')
    self.builtins['eval'] = self._deny('eval')
    self.builtins['input'] = self._deny('input')
    self.builtins['print'] = lambda *a, **k: None
    self.models.setdefault('re', make_re())
    self.opener = None
    self.on_mutate = None      # f(obj, how, site)
    self.on_call = None        # f(fninfo, args, kwargs, site)
    self.decide = None         # f(sym, site) -> bool
    self.fn_calls = collections.Counter()
    self.sources = set()

  def _deny(self, what):
    def f(*a, **k):
      raise Unsupported('call of %s at %s' % (what, self.site_str()))
    return f

  def _no_import(self, *a, **k):
    raise Unsupported('__import__')

  def _open(self, path, *a, **k):
    if self.opener is None:
      raise Unsupported('open() at %s' % self.site_str())
    return self.opener(path, *a, **k)

  # --- sites ---------------------------------------------------------------

  def site(self):
    return self.frames[-1].site() if self.frames else ('?', '?', 0)

  def stack_sites(self):
    return tuple(f.site() for f in reversed(self.frames))

  def site_str(self):
    p, f, l = self.site()
    return '%s:%d (%s)' % (os.path.relpath(p, self.repo) if
                           p.startswith('/') else p, l, f)

  def rel(self, path):
    return os.path.relpath(path, self.repo) if path.startswith(
        self.repo) else path

  # --- modules -------------------------------------------------------------

  def find_source(self, name):
    if name in self.overrides:
      return self.overrides[name]
    base = os.path.join(self.repo, *name.split('.'))
    if os.path.isfile(base + '.py'):
      return base + '.py', None
    if os.path.isfile(base + '/__init__.py'):
      return base + '/__init__.py', None
    if os.path.isdir(base):
      return None, ''
    return None

  def import_module(self, name):
    if name in self.modules:
      return self.modules[name]
    if name in self.models:
      m = self.models[name]
      if callable(m) and not isinstance(m, types.ModuleType):
        m = m(self)
      self.modules[name] = m
      self._attach(name, m)
      return m
    if name in REAL_MODULES:
      import importlib
      m = importlib.import_module(name)
      self.modules[name] = m
      return m
    src = self.find_source(name)
    if src is None:
      # A package all of whose submodules are models.
      if any(k.startswith(name + '.') for k in self.models):
        m = ModuleObj(name)
        self.modules[name] = m
        self._attach(name, m)
        return m
      raise ModuleNotFoundError('No module named %r (at %s)' % (
          name, self.site_str()))
    path, text = src
    if '.' in name:
      self.import_module(name.rsplit('.', 1)[0])
      if name in self.modules:
        return self.modules[name]
    m = ModuleObj(name)
    m.__dict__['__file__'] = path
    self.modules[name] = m
    if path is None:
      self._attach(name, m)
      return m
    try:
      self.exec_module(m, path, text)
    except BaseException:
      self.modules.pop(name, None)
      raise
    self._attach(name, m)
    return m

  def _attach(self, name, m):
    if '.' in name:
      parent, leaf = name.rsplit('.', 1)
      pm = self.modules.get(parent)
      if pm is not None and leaf not in vars(pm):
        try:
          setattr(pm, leaf, m)
        except (AttributeError, TypeError):
          pass

  def exec_module(self, m, path, text=None):
    tree = parse_file(path, text)
    self.sources.add(path)
    g = m.__dict__
    g['__name__'] = m.__name__
    g['__builtins__'] = self.builtins
    scope = Scope(g, None, g, 'module')
    self.frames.append(Frame(path, '<module>'))
    try:
      self.block(tree.body, scope)
    finally:
      self.frames.pop()

  # --- names ---------------------------------------------------------------

  def load(self, name, scope):
    s = scope
    first = True
    while s is not None:
      if s.kind == 'module':
        break
      if s.kind != 'class' or first:
        if s.decl and s.decl.get(name) == 'global':
          break
        if name in s.vars:
          return s.vars[name]
      if s.kind != 'comp':
        first = False
      s = s.parent
    g = scope.globals
    if name in g:
      return g[name]
    if name in self.builtins:
      return self.builtins[name]
    raise NameError('name %r is not defined at %s' % (name, self.site_str()))

  def store(self, name, value, scope):
    s = scope
    if s.decl and name in s.decl:
      if s.decl[name] == 'global':
        s.globals[name] = value
        return
      p = s.parent
      while p is not None:
        if p.kind == 'function' and name in p.vars:
          p.vars[name] = value
          return
        p = p.parent
      raise NameError(name)
    s.vars[name] = value

  # --- statements ----------------------------------------------------------

  def block(self, stmts, scope):
    for st in stmts:
      self.stmt(st, scope)

  def stmt(self, n, scope):
    self.steps += 1
    if self.steps > self.step_limit:
      raise AnalysisError('step limit reached at %s' % self.site_str())
    self.frames[-1].line = n.lineno
    m = getattr(self, 's_' + type(n).__name__, None)
    if m is None:
      raise Unsupported('statement %s at %s' % (
          type(n).__name__, self.site_str()))
    m(n, scope)

  def s_Expr(self, n, scope):
    if isinstance(n.value, ast.Constant):
      return
    self.ev(n.value, scope)

  def s_Pass(self, n, scope):
    pass

  def s_Break(self, n, scope):
    raise _Break()

  def s_Continue(self, n, scope):
    raise _Continue()

  def s_Return(self, n, scope):
    raise _Return(self.ev(n.value, scope) if n.value else None)

  def s_Global(self, n, scope):
    scope.decl = scope.decl or {}
    for x in n.names:
      scope.decl[x] = 'global'

  def s_Nonlocal(self, n, scope):
    scope.decl = scope.decl or {}
    for x in n.names:
      scope.decl[x] = 'nonlocal'

  def s_Assign(self, n, scope):
    v = self.ev(n.value, scope)
    for t in n.targets:
      self.assign(t, v, scope)

  def s_AnnAssign(self, n, scope):
    if n.value is not None:
      self.assign(n.target, self.ev(n.value, scope), scope)
    if scope.kind == 'class' and isinstance(n.target, ast.Name):
      ann = scope.vars.get('__annotations__')
      if ann is None:
        ann = {}
        scope.vars['__annotations__'] = ann
      try:
        v = self.ev(n.annotation, scope)
      except Exception:
        v = ast.unparse(n.annotation)
      ann[n.target.id] = v

  def s_AugAssign(self, n, scope):
    t = n.target
    op = _IOPS[type(n.op)]
    if isinstance(t, ast.Name):
      cur = self.load(t.id, scope)
      rhs = self.ev(n.value, scope)
      self.note_inplace(cur, n.op)
      self.store(t.id, op(cur, rhs), scope)
    elif isinstance(t, ast.Attribute):
      obj = self.ev(t.value, scope)
      cur = self.getattr(obj, t.attr)
      rhs = self.ev(n.value, scope)
      self.note_inplace(cur, n.op)
      self.setattr(obj, t.attr, op(cur, rhs))
    elif isinstance(t, ast.Subscript):
      obj = self.ev(t.value, scope)
      key = self.ev(t.slice, scope)
      cur = obj[key]
      rhs = self.ev(n.value, scope)
      self.note_inplace(cur, n.op)
      self.setitem(obj, key, op(cur, rhs))
    else:
      raise Unsupported('augmented target')

  def note_inplace(self, cur, op):
    if self.on_mutate and isinstance(cur, (list, set, dict)):
      self.on_mutate(cur, 'augmented assignment', self.site())

  def setattr(self, obj, name, value):
    if self.on_mutate:
      self.on_mutate(obj, 'store to .' + name, self.site())
    setattr(obj, name, value)

  def setitem(self, obj, key, value):
    if self.on_mutate:
      self.on_mutate(obj, 'item store', self.site())
    obj[key] = value

  def assign(self, t, v, scope):
    if isinstance(t, ast.Name):
      self.store(t.id, v, scope)
    elif isinstance(t, (ast.Tuple, ast.List)):
      items = list(v)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        i = star[0]
        after = len(t.elts) - i - 1
        if len(items) < len(t.elts) - 1:
          raise ValueError('not enough values to unpack')
        for e, x in zip(t.elts[:i], items[:i]):
          self.assign(e, x, scope)
        self.assign(t.elts[i].value, items[i:len(items) - after], scope)
        for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
          self.assign(e, x, scope)
      else:
        if len(items) != len(t.elts):
          raise ValueError('cannot unpack %d values into %d at %s' % (
              len(items), len(t.elts), self.site_str()))
        for e, x in zip(t.elts, items):
          self.assign(e, x, scope)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.ev(t.value, scope), t.attr, v)
    elif isinstance(t, ast.Subscript):
      self.setitem(self.ev(t.value, scope), self.ev(t.slice, scope), v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, scope)
    else:
      raise Unsupported('assignment target')

  def s_Delete(self, n, scope):
    for t in n.targets:
      if isinstance(t, ast.Name):
        del scope.vars[t.id]
      elif isinstance(t, ast.Subscript):
        obj = self.ev(t.value, scope)
        if self.on_mutate:
          self.on_mutate(obj, 'item deletion', self.site())
        del obj[self.ev(t.slice, scope)]
      elif isinstance(t, ast.Attribute):
        delattr(self.ev(t.value, scope), t.attr)

  def truth(self, v):
    if isinstance(v, Sym):
      if self.decide is None:
        raise Unsupported('branch on unknown %r at %s' % (v, self.site_str()))
      return self.decide(v, self.site())
    return bool(v)

  def s_If(self, n, scope):
    if self.truth(self.ev(n.test, scope)):
      self.block(n.body, scope)
    else:
      self.block(n.orelse, scope)

  def s_While(self, n, scope):
    while self.truth(self.ev(n.test, scope)):
      self.steps += 1
      if self.steps > self.step_limit:
        raise AnalysisError('step limit')
      try:
        self.block(n.body, scope)
      except _Break:
        return
      except _Continue:
        continue
    self.block(n.orelse, scope)

  def s_For(self, n, scope):
    for x in self.ev(n.iter, scope):
      self.frames[-1].line = n.lineno
      self.assign(n.target, x, scope)
      try:
        self.block(n.body, scope)
      except _Break:
        return
      except _Continue:
        continue
    self.block(n.orelse, scope)

  def s_With(self, n, scope):
    self._with(n.items, n.body, scope)

  def _with(self, items, body, scope):
    if not items:
      self.block(body, scope)
      return
    it = items[0]
    with self.ev(it.context_expr, scope) as v:
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, scope)
      self._with(items[1:], body, scope)

  def s_Raise(self, n, scope):
    if n.exc is None:
      cur = scope_exc(self)
      raise cur
    exc = self.ev(n.exc, scope)
    if isinstance(exc, type):
      exc = exc()
    try:
      exc._sa_site = self.site()
    except Exception:
      pass
    if n.cause is not None:
      raise exc from self.ev(n.cause, scope)
    raise exc

  def s_Try(self, n, scope):
    depth = len(self.frames)
    try:
      try:
        self.block(n.body, scope)
      except (_Break, _Continue, _Return):
        raise
      except Exception as e:
        del self.frames[depth:]
        for h in n.handlers:
          if h.type is None:
            ok = True
          else:
            types_ = self.ev(h.type, scope)
            ok = isinstance(e, types_)
          if ok:
            if h.name:
              scope.vars[h.name] = e
            _EXC.append(e)
            try:
              self.block(h.body, scope)
            finally:
              _EXC.pop()
              if h.name:
                scope.vars.pop(h.name, None)
            break
        else:
          raise
      else:
        self.block(n.orelse, scope)
    finally:
      self.block(n.finalbody, scope)

  def s_Assert(self, n, scope):
    if not self.truth(self.ev(n.test, scope)):
      raise AssertionError(self.ev(n.msg, scope) if n.msg else '')

  def s_Import(self, n, scope):
    for a in n.names:
      m = self.import_module(a.name)
      if a.asname:
        self.store(a.asname, m, scope)
      else:
        root = a.name.split('.')[0]
        self.store(root, self.import_module(root) if root != a.name else m,
                   scope)

  def s_ImportFrom(self, n, scope):
    if n.level:
      raise Unsupported('relative import at %s' % self.site_str())
    if n.module == '__future__':
      return
    base = self.import_module(n.module)
    for a in n.names:
      if a.name == '*':
        for k, v in vars(base).items():
          if not k.startswith('_'):
            self.store(k, v, scope)
        continue
      sub = n.module + '.' + a.name
      if hasattr(base, a.name):
        v = getattr(base, a.name)
      else:
        try:
          v = self.import_module(sub)
        except ModuleNotFoundError:
          raise ImportError('cannot import name %r from %r' % (
              a.name, n.module)) from None
      self.store(a.asname or a.name, v, scope)

  def s_FunctionDef(self, n, scope):
    fn = self.make_function(n, scope, n.name)
    for d in reversed(n.decorator_list):
      dec = self.ev(d, scope)
      if dec is contextlib.contextmanager:
        fn._sa.lazy = True
      fn = dec(fn)
    self.store(n.name, fn, scope)

  def s_ClassDef(self, n, scope):
    bases = []
    for b in n.bases:
      if isinstance(b, ast.Starred):
        bases.extend(self.ev(b.value, scope))
      else:
        bases.append(self.ev(b, scope))
    kw = {k.arg: self.ev(k.value, scope) for k in n.keywords}
    orig = tuple(bases)
    resolved = types.resolve_bases(orig)
    meta, ns, kw = types.prepare_class(n.name, resolved, kw)
    if resolved is not orig and resolved != orig:
      ns['__orig_bases__'] = orig
    cell = Scope({}, scope, scope.globals, 'cell')
    body = Scope(ns, cell, scope.globals, 'class')
    ns['__module__'] = scope.globals.get('__name__', '?')
    prefix = ''
    if scope.kind == 'class':
      prefix = scope.vars.get('__qualname__', '') + '.'
    ns['__qualname__'] = prefix + n.name
    if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
        n.body[0].value, ast.Constant):
      ns['__doc__'] = n.body[0].value.value
    self.block(n.body, body)
    cls = meta(n.name, resolved, ns, **kw)
    cell.vars['__class__'] = cls
    try:
      cls._sa_node = n
      cls._sa_path = self.frames[-1].path
    except (AttributeError, TypeError):
      pass
    for d in reversed(n.decorator_list):
      cls = self.ev(d, scope)(cls)
    self.store(n.name, cls, scope)

  def s_TypeAlias(self, n, scope):
    self.store(n.name.id, typing.TypeAliasType(n.name.id, object), scope)

  def s_Match(self, n, scope):
    subject = self.ev(n.subject, scope)
    for c in n.cases:
      if self._pattern(c.pattern, subject, scope) and (
          c.guard is None or self.truth(self.ev(c.guard, scope))):
        self.block(c.body, scope)
        return

  def _pattern(self, p, v, scope):
    if isinstance(p, ast.MatchValue):
      return self.truth(v == self.ev(p.value, scope))
    if isinstance(p, ast.MatchSingleton):
      return v is p.value
    if isinstance(p, ast.MatchAs):
      if p.pattern is not None and not self._pattern(p.pattern, v, scope):
        return False
      if p.name:
        self.store(p.name, v, scope)
      return True
    if isinstance(p, ast.MatchOr):
      return any(self._pattern(q, v, scope) for q in p.patterns)
    if isinstance(p, ast.MatchSequence):
      if not isinstance(v, collections.abc.Sequence) or isinstance(
          v, (str, bytes)):
        return False
      v, ps = list(v), p.patterns
      star = [i for i, q in enumerate(ps) if isinstance(q, ast.MatchStar)]
      if star:
        i = star[0]
        rest = len(ps) - i - 1
        if len(v) < len(ps) - 1:
          return False
        if ps[i].name:
          self.store(ps[i].name, v[i:len(v) - rest], scope)
        ps = ps[:i] + ps[i + 1:]
        v = v[:i] + v[len(v) - rest:]
      return len(v) == len(ps) and all(
          self._pattern(q, x, scope) for q, x in zip(ps, v))
    if isinstance(p, ast.MatchMapping):
      if not isinstance(v, collections.abc.Mapping):
        return False
      keys = [self.ev(k, scope) for k in p.keys]
      if not all(k in v and self._pattern(q, v[k], scope)
                 for k, q in zip(keys, p.patterns)):
        return False
      if p.rest:
        self.store(p.rest, {k: x for k, x in v.items() if k not in keys},
                   scope)
      return True
    if isinstance(p, ast.MatchClass):
      cls = self.ev(p.cls, scope)
      if not isinstance(v, cls):
        return False
      names = list(p.kwd_attrs)
      ps = list(p.kwd_patterns)
      if p.patterns:
        if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list,
                   set, str, tuple):
          if not self._pattern(p.patterns[0], v, scope):
            return False
        else:
          names = list(cls.__match_args__[:len(p.patterns)]) + names
          ps = p.patterns + ps
      return all(hasattr(v, a) and self._pattern(q, getattr(v, a), scope)
                 for a, q in zip(names, ps))
    raise Unsupported('pattern %s at %s' % (type(p).__name__, self.site_str()))

  # --- functions -----------------------------------------------------------

  def make_function(self, n, scope, name):
    a = n.args
    defaults = [self.ev(d, scope) for d in a.defaults]
    kwdefaults = {x.arg: self.ev(d, scope)
                  for x, d in zip(a.kwonlyargs, a.kw_defaults)
                  if d is not None}
    path = self.frames[-1].path
    qual = name
    if scope.kind == 'class':
      qual = scope.vars.get('__qualname__', '') + '.' + name
    elif scope.kind == 'function':
      qual = self.frames[-1].func + '.' + name
    info = FnInfo(n, path, qual, scope.globals.get('__name__'))
    interp = self

    def fn(*args, **kwargs):
      return interp.call_fn(info, scope, defaults, kwdefaults, args, kwargs)

    fn.__name__ = name
    fn.__qualname__ = qual
    fn.__module__ = scope.globals.get('__name__')
    fn._sa = info
    fn._sa_defaults = defaults
    fn._sa_kwdefaults = kwdefaults
    if not isinstance(n, ast.Lambda):
      fn.__doc__ = ast.get_docstring(n)
    fn.__signature__ = _signature(a, defaults, kwdefaults)
    return fn

  def bind(self, info, defaults, kwdefaults, args, kwargs):
    a = info.node.args
    pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
    npo = len(a.posonlyargs)
    vars_ = {}
    kwargs = dict(kwargs)
    if len(args) > len(pos) and not a.vararg:
      raise TypeError('%s() takes %d positional arguments but %d were given' % (
          info.qualname, len(pos), len(args)))
    for name, v in zip(pos, args):
      vars_[name] = v
    if a.vararg:
      vars_[a.vararg.arg] = tuple(args[len(pos):])
    for i, name in enumerate(pos):
      if name in kwargs and i >= npo:
        if name in vars_:
          raise TypeError('%s() got multiple values for argument %r' % (
              info.qualname, name))
        vars_[name] = kwargs.pop(name)
    off = len(pos) - len(defaults)
    for i, name in enumerate(pos):
      if name not in vars_:
        if i >= off:
          vars_[name] = defaults[i - off]
        else:
          raise TypeError('%s() missing required argument %r' % (
              info.qualname, name))
    for x in a.kwonlyargs:
      if x.arg in kwargs:
        vars_[x.arg] = kwargs.pop(x.arg)
      elif x.arg in kwdefaults:
        vars_[x.arg] = kwdefaults[x.arg]
      else:
        raise TypeError('%s() missing keyword-only argument %r' % (
            info.qualname, x.arg))
    if a.kwarg:
      vars_[a.kwarg.arg] = kwargs
    elif kwargs:
      raise TypeError('%s() got an unexpected keyword argument %r' % (
          info.qualname, next(iter(kwargs))))
    return vars_

  def call_fn(self, info, scope, defaults, kwdefaults, args, kwargs):
    n = info.node
    if self.on_call:
      r = self.on_call(info, args, kwargs, self.site())
      if r is not None:
        return r[0]
    if info.qualname in MEMO_FNS and not kwargs:
      # Analysis cost only: a function of plain tables, evaluated once.
      key = _plain_key(args)
      if key is not None:
        key = (info.path, info.qualname, ast.dump(n), key)
        if key not in _MEMO:
          _MEMO[key] = self._call_body(info, scope, defaults, kwdefaults, args,
                                       kwargs)
        r = _MEMO[key]
        return [list(x) for x in r] if isinstance(r, list) and all(
            isinstance(x, list) for x in r) else r
    return self._call_body(info, scope, defaults, kwdefaults, args, kwargs)

  def _call_body(self, info, scope, defaults, kwdefaults, args, kwargs):
    n = info.node
    vars_ = self.bind(info, defaults, kwdefaults, args, kwargs)
    self.fn_calls[(info.path, info.qualname)] += 1
    new = Scope(vars_, scope, scope.globals, 'function')
    if len(self.frames) > 190:
      raise RecursionError('recursion at %s' % self.site_str())
    self.frames.append(Frame(info.path, info.qualname))
    self.frames[-1].line = n.lineno
    depth = len(self.frames)
    try:
      if isinstance(n, ast.Lambda):
        return self.ev(n.body, new)
      gen = _has_yield(n)
      if gen and info.lazy:
        def run(g):
          new.yields = g
          try:
            self.block(n.body, new)
          except _Return as e:
            return e.value
        return LazyGenerator(self, run)
      if gen:
        new.yields = []
      try:
        self.block(n.body, new)
        r = None
      except _Return as e:
        r = e.value
      return Yields(new.yields, r) if gen else r
    finally:
      del self.frames[depth - 1:]

  # --- expressions ---------------------------------------------------------

  def ev(self, n, scope):
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is None:
      raise Unsupported('expression %s at %s' % (
          type(n).__name__, self.site_str()))
    return m(n, scope)

  def e_Constant(self, n, scope):
    return n.value

  def e_Name(self, n, scope):
    return self.load(n.id, scope)

  def e_NamedExpr(self, n, scope):
    v = self.ev(n.value, scope)
    s = scope
    while s.kind == 'comp':
      s = s.parent
    self.store(n.target.id, v, s)
    return v

  def getattr(self, obj, name):
    return getattr(obj, name)

  def e_Attribute(self, n, scope):
    obj = self.ev(n.value, scope)
    attr = n.attr
    if attr.startswith('__') and not attr.endswith('__'):
      s = scope
      while s is not None:
        if s.kind == 'cell' and '__class__' in s.vars:
          attr = '_' + s.vars['__class__'].__name__.lstrip('_') + attr
          break
        s = s.parent
    try:
      return self.getattr(obj, attr)
    except AttributeError:
      if isinstance(obj, types.ModuleType):
        try:
          return self.import_module(obj.__name__ + '.' + attr)
        except ModuleNotFoundError:
          pass
      raise

  def e_Subscript(self, n, scope):
    obj = self.ev(n.value, scope)
    return obj[self.ev(n.slice, scope)]

  def e_Slice(self, n, scope):
    f = lambda x: self.ev(x, scope) if x is not None else None
    return slice(f(n.lower), f(n.upper), f(n.step))

  def e_BinOp(self, n, scope):
    a = self.ev(n.left, scope)
    b = self.ev(n.right, scope)
    self.frames[-1].line = n.lineno
    return _BINOPS[type(n.op)](a, b)

  def e_UnaryOp(self, n, scope):
    v = self.ev(n.operand, scope)
    if isinstance(n.op, ast.Not):
      if isinstance(v, Sym):
        return Sym('not', (v,))
      return not v
    if isinstance(n.op, ast.USub):
      return -v
    if isinstance(n.op, ast.UAdd):
      return +v
    return ~v

  def e_BoolOp(self, n, scope):
    is_and = isinstance(n.op, ast.And)
    v = None
    for i, x in enumerate(n.values):
      v = self.ev(x, scope)
      if i == len(n.values) - 1:
        return v
      t = self.truth(v)
      if is_and and not t:
        return v
      if not is_and and t:
        return v
    return v

  def e_Compare(self, n, scope):
    left = self.ev(n.left, scope)
    result = True
    for op, c in zip(n.ops, n.comparators):
      right = self.ev(c, scope)
      if isinstance(op, (ast.In, ast.NotIn)) and isinstance(right, Sym):
        result = Sym('in' if isinstance(op, ast.In) else 'not in',
                     (left, right))
      elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(left, Sym) and not isinstance(right, (list, tuple)):
        result = Sym('in' if isinstance(op, ast.In) else 'not in',
                     (left, right))
      else:
        result = _CMPS[type(op)](left, right)
      if len(n.ops) > 1 and not self.truth(result):
        return result
      left = right
    return result

  def e_IfExp(self, n, scope):
    if self.truth(self.ev(n.test, scope)):
      return self.ev(n.body, scope)
    return self.ev(n.orelse, scope)

  def _elts(self, elts, scope):
    out = []
    for e in elts:
      if isinstance(e, ast.Starred):
        out.extend(self.ev(e.value, scope))
      else:
        out.append(self.ev(e, scope))
    return out

  def e_List(self, n, scope):
    return self._elts(n.elts, scope)

  def e_Tuple(self, n, scope):
    return tuple(self._elts(n.elts, scope))

  def e_Set(self, n, scope):
    return set(self._elts(n.elts, scope))

  def e_Dict(self, n, scope):
    d = {}
    for k, v in zip(n.keys, n.values):
      if k is None:
        d.update(self.ev(v, scope))
      else:
        kk = self.ev(k, scope)
        d[kk] = self.ev(v, scope)
    return d

  def e_Lambda(self, n, scope):
    return self.make_function(n, scope, '<lambda>')

  def e_JoinedStr(self, n, scope):
    out = []
    for v in n.values:
      out.append(self.ev(v, scope))
    if any(isinstance(x, Sym) for x in out):
      return Sym('fstring', tuple(out))
    return ''.join(out)

  def e_FormattedValue(self, n, scope):
    v = self.ev(n.value, scope)
    if isinstance(v, Sym):
      return v
    if n.conversion == 114:
      v = repr(v)
    elif n.conversion == 115:
      v = str(v)
    elif n.conversion == 97:
      v = ascii(v)
    spec = self.ev(n.format_spec, scope) if n.format_spec else ''
    return format(v, spec)

  def e_Starred(self, n, scope):
    raise Unsupported('starred')

  def _comp(self, gens, scope, emit):
    inner = Scope({}, scope, scope.globals, 'comp')

    def rec(i):
      if i == len(gens):
        emit(inner)
        return
      g = gens[i]
      for x in self.ev(g.iter, scope if i == 0 else inner):
        self.assign(g.target, x, inner)
        if all(self.truth(self.ev(c, inner)) for c in g.ifs):
          rec(i + 1)
    rec(0)

  def e_ListComp(self, n, scope):
    out = []
    self._comp(n.generators, scope, lambda s: out.append(self.ev(n.elt, s)))
    return out

  def e_SetComp(self, n, scope):
    out = set()
    self._comp(n.generators, scope, lambda s: out.add(self.ev(n.elt, s)))
    return out

  def e_GeneratorExp(self, n, scope):
    return iter(self.e_ListComp(n, scope))

  def e_DictComp(self, n, scope):
    out = {}

    def emit(s):
      k = self.ev(n.key, s)
      out[k] = self.ev(n.value, s)
    self._comp(n.generators, scope, emit)
    return out

  def e_Yield(self, n, scope):
    s = scope
    while s.yields is None:
      s = s.parent
    return s.yields.append(self.ev(n.value, scope) if n.value else None)

  def e_YieldFrom(self, n, scope):
    s = scope
    while s.yields is None:
      s = s.parent
    v = self.ev(n.value, scope)
    s.yields.extend(v)
    return getattr(v, 'value', None) if isinstance(v, Yields) else None

  def e_Call(self, n, scope):
    fn = self.ev(n.func, scope)
    if fn is super and not n.args:
      s = scope
      while s.kind != 'function':
        s = s.parent
      c = scope
      cls = None
      while c is not None:
        if c.kind == 'cell' and '__class__' in c.vars:
          cls = c.vars['__class__']
          break
        c = c.parent
      # The first parameter of the enclosing method.
      f = s
      while f.parent is not None and f.parent.kind == 'function':
        f = f.parent
      first = next(iter(f.vars.values()))
      return super(cls, first)
    args = []
    for a in n.args:
      if isinstance(a, ast.Starred):
        args.extend(self.ev(a.value, scope))
      else:
        args.append(self.ev(a, scope))
    kwargs = {}
    for k in n.keywords:
      if k.arg is None:
        kwargs.update(self.ev(k.value, scope))
      else:
        kwargs[k.arg] = self.ev(k.value, scope)
    self.frames[-1].line = n.lineno
    if fn is globals:
      return scope.globals
    if fn is locals:
      return dict(scope.vars)
    if self.on_mutate:
      owner = getattr(fn, '__self__', None)
      if owner is not None and type(fn).__name__ == 'builtin_function_or_method':
        for t, names in MUTATORS.items():
          if isinstance(owner, t) and fn.__name__ in names:
            self.on_mutate(owner, '.%s()' % fn.__name__, self.site())
    if id(fn) in _BUILTIN_SYM_ID and any(isinstance(a, Sym) for a in args):
      return _BUILTIN_SYM_ID[id(fn)](*args)
    return fn(*args, **kwargs)


_EXC = []


def scope_exc(interp):
  if not _EXC:
    raise RuntimeError('No active exception to re-raise')
  return _EXC[-1]


def _signature(a, defaults, kwdefaults):
  P = inspect.Parameter
  ps = []
  pos = [(x.arg, P.POSITIONAL_ONLY) for x in a.posonlyargs] + [
      (x.arg, P.POSITIONAL_OR_KEYWORD) for x in a.args]
  off = len(pos) - len(defaults)
  for i, (name, kind) in enumerate(pos):
    ps.append(P(name, kind, default=defaults[i - off] if i >= off else P.empty))
  if a.vararg:
    ps.append(P(a.vararg.arg, P.VAR_POSITIONAL))
  for x in a.kwonlyargs:
    ps.append(P(x.arg, P.KEYWORD_ONLY,
                default=kwdefaults.get(x.arg, P.empty)))
  if a.kwarg:
    ps.append(P(a.kwarg.arg, P.VAR_KEYWORD))
  return inspect.Signature(ps)


class Sym:
  """A value known only at run time, with the expression that yields it."""

  def __init__(self, op, args=(), cls=None):
    self.op, self.args, self.cls = op, tuple(args), cls

  def key(self):
    return (self.op, tuple(_key(a) for a in self.args))

  def __repr__(self):
    if not self.args:
      return '<%s>' % self.op
    return '<%s %s>' % (self.op, ', '.join(map(repr, self.args)))

  def __hash__(self):
    return hash(self.key())

  def __eq__(self, other):
    return Sym('==', (self, other))

  def __ne__(self, other):
    return Sym('!=', (self, other))

  def __getattr__(self, name):
    if name.startswith('__') or name.startswith('_sa'):
      raise AttributeError(name)
    return Sym('attr', (self, name))

  def __call__(self, *args, **kw):
    return Sym('call', (self,) + args + tuple(sorted(kw.items())))

  def __getitem__(self, k):
    return Sym('item', (self, k))

  def __bool__(self):
    raise Unsupported('host-level branch on unknown %r' % (self,))

  def __iter__(self):
    raise Unsupported('iteration over unknown %r' % (self,))


def _key(a):
  if isinstance(a, Sym):
    return a.key()
  i = getattr(a, 'id', None)
  if type(a).__name__ == 'Term':
    return ('term', i)
  if type(a).__name__ == 'Fst':
    return ('term', a.term.id)
  if isinstance(a, (tuple, list)):
    return (type(a).__name__,) + tuple(_key(x) for x in a)
  return repr(a)


def _sym_bin(op):
  def f(self, other):
    if type(other).__name__ == 'Fst':
      return NotImplemented
    return Sym(op, (self, other))

  def r(self, other):
    if type(other).__name__ == 'Fst':
      return NotImplemented
    return Sym(op, (other, self))
  return f, r


for _name, _op in [('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'),
                   ('mod', '%'), ('or', '|'), ('and', '&'), ('matmul', '@'),
                   ('floordiv', '//'), ('rshift', '>>')]:
  _f, _r = _sym_bin(_op)
  setattr(Sym, '__%s__' % _name, _f)
  setattr(Sym, '__r%s__' % _name, _r)
for _name, _op in [('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')]:
  _f, _ = _sym_bin(_op)
  setattr(Sym, '__%s__' % _name, _f)


def _isinstance_sym(v, cls):
  if isinstance(v, Sym):
    if v.cls is not None:
      return issubclass(v.cls, cls)
    return Sym('isinstance', (v, cls))
  return isinstance(v, cls)


_BUILTIN_SYM = {
    isinstance: _isinstance_sym,
    len: lambda v: Sym('len', (v,)),
    str: lambda v: Sym('str', (v,)),
    bool: lambda v: Sym('bool', (v,)),
    hasattr: lambda v, n: Sym('hasattr', (v, n)),
    repr: lambda v: Sym('repr', (v,)),
    ord: lambda v: Sym('ord', (v,)),
    list: lambda v: Sym('list', (v,)),
    set: lambda v: Sym('set', (v,)),
    any: lambda v: Sym('any', (v,)),
    all: lambda v: Sym('all', (v,)),
    abs: lambda v: Sym('abs', (v,)),
    round: lambda v, *a: Sym('round', (v,) + a),
}


_BUILTIN_SYM_ID = {id(k): v for k, v in _BUILTIN_SYM.items()}


class SymMatch:
  """A match of a pattern in an unknown string."""

  def __init__(self, word):
    self.word = word

  def group(self, *a):
    if a not in ((), (0,)):
      raise Unsupported('group%r of an unknown match' % (a,))
    return self.word

  def __getitem__(self, k):
    return self.group(k)


class SymPattern:
  """A compiled regular expression that may be applied to unknown text."""

  def __init__(self, real):
    self._real = real

  def __getattr__(self, name):
    return getattr(self._real, name)

  def __hash__(self):
    return hash(self._real)

  def __eq__(self, other):
    return self._real == getattr(other, '_real', other)

  def sub(self, repl, string, count=0):
    if not isinstance(string, Sym):
      return self._real.sub(repl, string, count)
    if not callable(repl) or count:
      raise Unsupported('re.sub on unknown text')
    word = Sym('word', (self._real.pattern, string), cls=str)
    return Sym('sub', (self._real.pattern, int(self._real.flags),
                       repl(SymMatch(word)), string), cls=str)


def make_re():
  import re
  m = ModuleObj('re')
  m.__dict__.update({k: v for k, v in vars(re).items()
                     if not k.startswith('__')})

  def compile_(pattern, flags=0):
    if isinstance(pattern, SymPattern):
      return pattern
    return SymPattern(re.compile(pattern, flags))

  def escape(s):
    return Sym('re.escape', (s,)) if isinstance(s, Sym) else re.escape(s)

  def wrap(name):
    real = getattr(re, name)

    def f(pattern, *a, **kw):
      if isinstance(pattern, SymPattern):
        pattern = pattern._real
      if name == 'sub' and len(a) > 1 and isinstance(a[1], Sym):
        return compile_(pattern).sub(*a, **kw)
      return real(pattern, *a, **kw)
    return f
  m.__dict__.update({k: wrap(k) for k in (
      'sub', 'subn', 'match', 'search', 'fullmatch', 'split', 'findall',
      'finditer')})
  m.__dict__.update(compile=compile_, escape=escape)
  return m


def explore(interp, thunk, max_paths=256):
  """All paths of thunk(): yields (decisions, outcome, value).

  decisions: tuple of (sym, bool, site); outcome: 'return' or 'raise'.
  """
  pending = [()]
  n = 0
  while pending:
    prefix = pending.pop()
    n += 1
    if n > max_paths:
      raise AnalysisError('more than %d paths' % max_paths)
    trace = []

    def decide(sym, site, prefix=prefix, trace=trace):
      i = len(trace)
      # Consistent answers for repeated conditions.
      for s, v, _ in trace:
        if s.key() == sym.key():
          return v
      if i < len(prefix):
        v = prefix[i]
      else:
        v = True
        pending.append(tuple(x[1] for x in trace) + (False,))
      trace.append((sym, v, site))
      return v

    old = interp.decide
    interp.decide = decide
    depth = len(interp.frames)
    try:
      try:
        v = thunk()
        out = ('return', v)
      except Exception as e:  # an exception of the program
        out = ('raise', e)
    finally:
      interp.decide = old
      del interp.frames[depth:]
    yield tuple(trace), out[0], out[1]
