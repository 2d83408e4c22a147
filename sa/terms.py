"""Uninterpreted terms for the finite-state library.

`Term` is immutable and interned; `Fst` is the mutable handle that stands for
pynini.Fst in interpreted code.  Optimization, epsilon removal and copies are
identities on terms.  Concatenation, composition and union are flattened
(they are associative).
"""

import contextlib
import string as _string
import types

from . import absint


class FstError(Exception):
  pass


class FstOpError(FstError):
  pass


class FstArgError(FstError):
  pass


class FstIOError(FstError):
  pass


class FstBadWeightError(FstError):
  pass


class FstStringCompilationError(FstError):
  pass


_TABLE = {}


class Term:
  __slots__ = ('op', 'args', 'site', 'id', '_a', '_e', '__weakref__')

  def __repr__(self):
    return show(self, 3)


def mk(op, *args, site=None):
  key = (op,) + tuple(args)
  t = _TABLE.get(key)
  if t is None:
    t = Term()
    t.op, t.args, t.site, t.id = op, tuple(args), site, len(_TABLE)
    t._a = t._e = None
    _TABLE[key] = t
  return t


def show(t, depth=3):
  if not isinstance(t, Term):
    return repr(t)
  if t.op == 'str':
    return '%r%s' % (t.args[0], '' if t.args[1] == 'byte' else 'u')
  if depth == 0:
    return t.op + '(…)'
  a = t.args
  if t.op in ('smap', 'sfile'):
    return '%s<%d>' % (t.op, len(a[0]))
  if t.op in ('union', 'concat', 'compose') and len(a[0]) > 6:
    return '%s<%d>(%s, …)' % (t.op, len(a[0]), ', '.join(
        show(x, depth - 1) for x in a[0][:4]))
  parts = []
  for x in a:
    if isinstance(x, tuple):
      parts.extend(show(y, depth - 1) for y in x)
    else:
      parts.append(show(x, depth - 1))
  return '%s(%s)' % (t.op, ', '.join(parts))


def subterms(t, seen=None):
  """All distinct subterms, parents first."""
  seen = set() if seen is None else seen
  stack = [t]
  while stack:
    x = stack.pop()
    if not isinstance(x, Term) or x in seen:
      continue
    seen.add(x)
    yield x
    for a in x.args:
      if isinstance(a, Term):
        stack.append(a)
      elif isinstance(a, tuple):
        stack.extend(y for y in a if isinstance(y, Term))


# --- parsing of the bracket notation ----------------------------------------


_ESC = {'n': '\n', 't': '\t', 'r': '\r'}


def parse_string(s):
  """[symbols] of a pynini string: one-character strings or ('sym', name)."""
  out = []
  i = 0
  while i < len(s):
    c = s[i]
    if c == '\\':
      if i + 1 >= len(s):
        out.append(c)
        i += 1
        continue
      if s[i + 1] in '[]\\':
        out.append(s[i + 1])
        i += 2
      elif s[i + 1] in _ESC:
        out.append(_ESC[s[i + 1]])
        i += 2
      else:
        out.append(c)
        i += 1
    elif c == '[':
      j = s.find(']', i)
      if j < 0:
        raise FstStringCompilationError('unbalanced bracket in %r' % s)
      words = s[i + 1:j].split(' ')
      if len(words) == 1:
        try:
          out.append(chr(int(words[0], 0)))
        except (ValueError, OverflowError):
          out.append(('sym', words[0]))
      else:
        out.extend(('sym', w) for w in words)
      i = j + 1
    elif c == ']':
      raise FstStringCompilationError('unbalanced bracket in %r' % s)
    else:
      out.append(c)
      i += 1
  return tuple(out)


def gen_syms(t):
  """Names of generated symbols in the leaves of a term."""
  out = set()
  for x in subterms(t):
    if x.op == 'str':
      strs = [x.args[0]]
    elif x.op in ('smap', 'sfile'):
      strs = [y for e in x.args[0] for y in e[:2]]
    else:
      continue
    for s in strs:
      if isinstance(s, str) and '[' in s:
        out.update(y[1] for y in parse_string(s) if isinstance(y, tuple))
  return out


# --- constructors ------------------------------------------------------------

EPS = mk('str', '', 'byte')


def is_empty(t):
  """Is the language certainly empty?  True/False; unknown counts as False."""
  if t._e is not None:
    return t._e
  a = t.args
  if t.op == 'empty':
    r = True
  elif t.op in ('smap', 'sfile'):
    r = not a[0]
  elif t.op == 'union':
    r = all(is_empty(x) for x in a[0])
  elif t.op in ('concat', 'compose'):
    r = any(is_empty(x) for x in a[0])
  elif t.op in ('invert', 'project', 'weighted', 'plus', 'opt'):
    r = is_empty(a[0])
  elif t.op == 'cross':
    r = is_empty(a[0]) or is_empty(a[1])
  elif t.op == 'closure':
    r = a[1] > 0 and is_empty(a[0])
  elif t.op == 'intersect':
    r = is_empty(a[0]) or is_empty(a[1])
    if not r and a[0].op == 'str' and a[1].op == 'str':
      r = a[0].args[0] != a[1].args[0]
  elif t.op == 'difference':
    r = is_empty(a[0])
  elif t.op == 'manual':
    r = not a[0]
  else:
    r = False
  t._e = r
  return r


def is_acceptor(t):
  """True if every path certainly has equal input and output."""
  if t._a is not None:
    return t._a
  a = t.args
  if t.op in ('str', 'empty', 'class', 'gensyms', 'manual', 'project',
              'sigma', 'intersect', 'difference', 'escape'):
    r = True
  elif t.op in ('smap', 'sfile'):
    r = all(e[0] == e[1] for e in a[0])
  elif t.op in ('union', 'concat', 'compose'):
    r = all(is_acceptor(x) for x in a[0])
  elif t.op in ('closure', 'invert', 'weighted'):
    r = is_acceptor(a[0])
  elif t.op == 'cross':
    r = a[0] is a[1] and a[0].op == 'str'
  else:
    r = False
  t._a = r
  return r


def union(ts, site=None):
  out = []
  for t in ts:
    if t.op == 'empty':
      continue
    for x in (t.args[0] if t.op == 'union' else (t,)):
      if x not in out:
        out.append(x)
  if not out:
    return mk('empty')
  if len(out) == 1:
    return out[0]
  return mk('union', tuple(out), site=site)


def concat(ts, site=None):
  out = []
  for t in ts:
    if t.op == 'str' and t.args[0] == '':
      continue
    if t.op == 'concat':
      out.extend(t.args[0])
    else:
      out.append(t)
  if any(t.op == 'empty' for t in out):
    return mk('empty')
  if not out:
    return EPS
  if len(out) == 1:
    return out[0]
  return mk('concat', tuple(out), site=site)


def compose(ts, site=None):
  out = []
  for t in ts:
    if t.op == 'compose':
      out.extend(t.args[0])
    else:
      out.append(t)
  if len(out) == 1:
    return out[0]
  return mk('compose', tuple(out), site=site)


def invert(t, site=None):
  if t.op == 'invert':
    return t.args[0]
  if is_acceptor(t):
    return t
  if t.op == 'cross':
    return mk('cross', t.args[1], t.args[0], site=site)
  return mk('invert', t, site=site)


def project(t, side, site=None):
  if is_acceptor(t):
    return t
  if t.op == 'invert':
    return project(t.args[0], 'output' if side == 'input' else 'input', site)
  if t.op == 'cross':
    return project(t.args[0] if side == 'input' else t.args[1], side, site)
  return mk('project', t, side, site=site)


def closure(t, lo, hi, site=None):
  if t.op == 'closure' and t.args[1] <= 1 and t.args[2] is None and lo <= 1 and hi is None:
    return mk('closure', t.args[0], min(lo, t.args[1]), None, site=site)
  if t.op == 'empty':
    return EPS if lo == 0 else t
  return mk('closure', t, lo, hi, site=site)


def cross(a, b, site=None):
  return mk('cross', a, b, site=site)


# --- the library model ---------------------------------------------------------

NO_STATE_ID = -1
ACCEPTOR = 0x10000


class Weight:

  def __init__(self, kind='tropical', value=0.0):
    self.kind, self.value = kind, value

  @classmethod
  def one(cls, kind):
    return cls(kind, 0.0)

  @classmethod
  def zero(cls, kind):
    return cls(kind, float('inf'))

  def __float__(self):
    return float(self.value)

  def __str__(self):
    return str(self.value)


class Arc:

  def __init__(self, ilabel, olabel, weight, nextstate):
    self.ilabel, self.olabel, self.weight, self.nextstate = (
        ilabel, olabel, weight, nextstate)


class Lib:
  """State of the library in one interpreted process."""

  def __init__(self, interp=None, fs=None):
    self.interp = interp
    self.fs = fs
    self.token = ['byte']
    self.gensyms = []      # names, in order of first use
    self.size_oracle = None
    self.compiled = []     # (term, site) of every string compilation
    self.mutations = []

  def site(self):
    return self.interp.stack_sites() if self.interp else None


class Fst:
  """Handle of a term; stands for pynini.Fst in interpreted code."""

  _lib = None

  def __init__(self, arc_type='standard', _term=None):
    self.term = _term if _term is not None else mk('empty')
    self._manual = None
    self.born = self._lib.site() if self._lib else None
    self.frozen = False

  # Manual construction.
  def _man(self):
    if self._manual is None:
      self._manual = {'states': 0, 'arcs': [], 'finals': {}, 'start': None}
    return self._manual

  def _rebuild(self):
    m = self._manual
    # One-step acceptors over a set of labels is what the grammars build.
    labels = []
    ok = m['start'] == 0 and list(m['finals']) == [1]
    for src, arc in m['arcs']:
      if src != 0 or arc.nextstate != 1 or arc.ilabel != arc.olabel:
        ok = False
      labels.append((arc.ilabel, arc.olabel))
    if not m['arcs']:
      self.term = mk('empty') if not ok else mk('manual', ())
    elif ok:
      self.term = mk('manual', tuple(labels), site=self._lib.site())
    else:
      self.term = mk('manual-general', tuple(
          (s, a.ilabel, a.olabel, a.nextstate) for s, a in m['arcs']),
          tuple(m['finals']), m['start'])

  def add_state(self):
    m = self._man()
    m['states'] += 1
    return m['states'] - 1

  def set_start(self, s):
    self._man()['start'] = s
    self._rebuild()
    return self

  def set_final(self, s, weight=None):
    self._man()['finals'][s] = weight
    self._rebuild()
    return self

  def add_arc(self, s, arc):
    self._man()['arcs'].append((s, arc))
    self._rebuild()
    return self

  # Inspection.
  def num_states(self):
    if _has_sym(self.term):
      return absint.Sym('num_states', (self.term,))
    o = self._lib.size_oracle
    return o(self.term) if o else 2

  def start(self):
    if _has_sym(self.term) and not is_empty(self.term):
      return absint.Sym('start', (self.term,))
    return NO_STATE_ID if is_empty(self.term) else 0

  def properties(self, mask, test):
    r = 0
    if mask & ACCEPTOR and is_acceptor(self.term):
      r |= ACCEPTOR
    return r

  def string(self, token_type=None):
    t = self.term
    if t.op == 'str' and not gen_syms(t):
      return ''.join(parse_string(t.args[0]))
    if t.op == 'concat' and all(x.op == 'str' for x in t.args[0]):
      return ''.join(''.join(y if isinstance(y, str) else '' for y in
                             parse_string(x.args[0])) for x in t.args[0])
    if t.op in ('smap', 'sfile') and len(t.args[0]) == 1:
      return ''.join(parse_string(t.args[0][0][1]))
    if _has_sym(t):
      i = self._lib.interp
      if i.decide is not None and not i.truth(absint.Sym('accepted', (t,))):
        raise FstOpError('Operation failed')
      return absint.Sym('fst_string', (t,), cls=str)
    if t.op in ('compose', 'shortestpath', 'empty'):
      raise absint.Unsupported('string() of %r at %s' % (
          t, self._lib.interp.site_str()))
    raise FstOpError('Operation failed: not a string')

  def paths(self, **kw):
    raise absint.Unsupported('paths() at %s' % self._lib.interp.site_str())

  def copy(self):
    return Fst(_term=self.term)

  def __repr__(self):
    return 'Fst<%s>' % show(self.term, 3)

  # In-place operations.
  def _set(self, term, how):
    self._lib.mutations.append((self, how, self._lib.site()))
    if self._lib.interp is not None and self._lib.interp.on_mutate:
      self._lib.interp.on_mutate(self, how, self._lib.interp.site())
    self.term = term
    return self

  def optimize(self, compute_props=False):
    return self

  def rmepsilon(self, **kw):
    return self

  def minimize(self, **kw):
    return self

  def connect(self):
    return self

  def union(self, *others):
    return self._set(union([self.term] + [self._t(x) for x in others],
                           self._lib.site()), 'union')

  def concat(self, other):
    return self._set(concat([self.term, self._t(other)], self._lib.site()),
                     'concat')

  def invert(self):
    return self._set(invert(self.term, self._lib.site()), 'invert')

  def project(self, side):
    if side not in ('input', 'output'):
      raise FstArgError('Unknown project type: %r' % (side,))
    return self._set(project(self.term, side, self._lib.site()), 'project')

  def closure(self, lower=0, upper=0):
    return self._set(closure(self.term, lower, upper or None,
                             self._lib.site()), 'closure')

  def _t(self, x):
    return to_term(self._lib, x)

  @property
  def star(self):
    return Fst(_term=closure(self.term, 0, None, self._lib.site()))

  @property
  def plus(self):
    return Fst(_term=closure(self.term, 1, None, self._lib.site()))

  @property
  def ques(self):
    return Fst(_term=closure(self.term, 0, 1, self._lib.site()))

  def __pow__(self, other):
    if isinstance(other, int):
      return Fst(_term=closure(self.term, other, other, self._lib.site()))
    lo, hi = other
    if hi is ...:
      hi = None
    return Fst(_term=closure(self.term, lo, hi, self._lib.site()))

  def __add__(self, other):
    return Fst(_term=concat([self.term, self._t(other)], self._lib.site()))

  def __radd__(self, other):
    return Fst(_term=concat([self._t(other), self.term], self._lib.site()))

  def __or__(self, other):
    return Fst(_term=union([self.term, self._t(other)], self._lib.site()))

  def __ror__(self, other):
    return Fst(_term=union([self._t(other), self.term], self._lib.site()))

  def __matmul__(self, other):
    return Fst(_term=compose([self.term, self._t(other)], self._lib.site()))

  def __rmatmul__(self, other):
    return Fst(_term=compose([self._t(other), self.term], self._lib.site()))

  def __sub__(self, other):
    return Fst(_term=mk('difference', self.term, self._t(other),
                        site=self._lib.site()))

  def __rsub__(self, other):
    return Fst(_term=mk('difference', self._t(other), self.term,
                        site=self._lib.site()))

  def __eq__(self, other):
    return isinstance(other, Fst) and self.term is other.term

  def __hash__(self):
    return id(self)


def _has_sym(t):
  return any(x.op in ('symstr', 'escape', 'symfst') for x in subterms(t))


SYMS = {}


def _symkey(s):
  k = s.key()
  SYMS[k] = s
  return k


def compile_string(lib, s, weight=None, token_type=None):
  tok = token_type or lib.token[-1]
  if isinstance(s, absint.Sym):
    if s.op == 'escape':
      t = mk('escape', _symkey(s.args[0]), tok, site=lib.site())
    else:
      t = mk('symstr', _symkey(s), tok, site=lib.site())
    return t
  if not isinstance(s, str):
    raise FstArgError('not a string: %r' % (s,))
  syms = parse_string(s)
  for y in syms:
    if isinstance(y, tuple) and y[1] not in lib.gensyms:
      lib.gensyms.append(y[1])
  t = mk('str', s, tok, site=lib.site())
  lib.compiled.append((t, lib.site()))
  if weight not in (None, 0, 0.0):
    t = mk('weighted', t, float(weight), site=lib.site())
  return t


def to_term(lib, x, token_type=None):
  if isinstance(x, Fst):
    return x.term
  if isinstance(x, Term):
    return x
  if isinstance(x, (str, absint.Sym)):
    if isinstance(x, absint.Sym) and x.op == 'fst':
      return mk('symfst', _symkey(x))
    return compile_string(lib, x, token_type=token_type)
  raise FstArgError('Cannot convert %r to FST at %s' % (
      type(x), lib.interp.site_str() if lib.interp else '?'))


def make_pynini(lib):
  """The model of the `pynini` module for one process."""
  m = absint.ModuleObj('pynini')
  Bound = type('Fst', (Fst,), {'_lib': lib})
  # `Fst(_term=...)` inside methods must give the bound class.
  import sys
  g = {}

  def F(term):
    return Bound(_term=term)

  # Rebind methods that construct results.
  for name, f in list(vars(Fst).items()):
    if isinstance(f, property):
      setattr(Bound, name, property(_rebind(f.fget, Bound)))
    elif isinstance(f, types.FunctionType) and 'Fst' in f.__code__.co_names:
      setattr(Bound, name, _rebind(f, Bound))
  Bound.__hash__ = Fst.__hash__

  T = lambda x, tok=None: to_term(lib, x, tok)
  S = lib.site

  def accep(s, weight=None, token_type=None):
    if isinstance(s, Fst):
      return F(s.term)
    return F(compile_string(lib, s, weight, token_type))

  def cross(a, b):
    return F(mk('cross', T(a), T(b), site=S()))

  def union_(*xs):
    return F(union([T(x) for x in xs], S()))

  def concat_(a, b):
    return F(concat([T(a), T(b)], S()))

  def compose_(a, b, *args, **kw):
    return F(compose([T(a), T(b)], S()))

  def difference(a, b, **kw):
    return F(mk('difference', T(a), T(b), site=S()))

  def intersect(a, b, **kw):
    return F(mk('intersect', T(a), T(b), site=S()))

  def invert_(a):
    return F(invert(T(a), S()))

  def project_(a, side):
    if side not in ('input', 'output'):
      raise FstArgError('Unknown project type: %r' % (side,))
    return F(project(T(a), side, S()))

  def closure_(a, lower=0, upper=0):
    return F(closure(T(a), lower, upper or None, S()))

  def ident(a, *args, **kw):
    return F(T(a))

  def cdrewrite(tau, l, r, sigma_star, direction='ltr', mode='obl', **kw):
    return F(mk('cdrewrite', T(tau), T(l), T(r), T(sigma_star), direction,
                mode, site=S()))

  def escape(s):
    if isinstance(s, absint.Sym):
      return absint.Sym('escape', (s,))
    return s.replace('\\', '\\\\').replace('[', '\\[').replace(']', '\\]')

  def _tok(t):
    return t or lib.token[-1]

  def string_map(lines, input_token_type=None, output_token_type=None):
    entries = []
    for line in lines:
      if isinstance(line, str):
        line = (line,)
      line = tuple(line)
      i = line[0]
      o = line[1] if len(line) > 1 else i
      w = line[2] if len(line) > 2 else None
      for s in (i, o):
        for y in parse_string(s):
          if isinstance(y, tuple) and y[1] not in lib.gensyms:
            lib.gensyms.append(y[1])
      entries.append((i, o, float(w) if w not in (None, '') else 0.0))
    t = mk('smap', tuple(entries), _tok(input_token_type),
           _tok(output_token_type), None, site=S())
    lib.compiled.append((t, S()))
    return F(t)

  def string_file(path, input_token_type=None, output_token_type=None):
    text, label = lib.fs.read(path)
    entries = []
    for line in text.split('\n'):
      if not line or line.startswith('#'):
        continue
      f = line.split('\t')
      if len(f) > 3:
        raise FstIOError('bad line %r in %s' % (line, label))
      o = f[1] if len(f) > 1 else f[0]
      for s in (f[0], o):
        for y in parse_string(s):
          if isinstance(y, tuple) and y[1] not in lib.gensyms:
            lib.gensyms.append(y[1])
      entries.append((f[0], o, float(f[2]) if len(f) > 2 and f[2] else 0.0))
    t = mk('smap', tuple(entries), _tok(input_token_type),
           _tok(output_token_type), label, site=S())
    lib.compiled.append((t, S()))
    return F(t)

  def generated_symbols():
    return [(('sym', n), n) for n in lib.gensyms]

  @contextlib.contextmanager
  def default_token_type(tt):
    if tt not in ('byte', 'utf8'):
      raise FstArgError('Unknown token type: %r' % (tt,))
    lib.token.append(tt)
    try:
      yield
    finally:
      lib.token.pop()

  def shortestpath(f, *a, **kw):
    return F(mk('shortestpath', T(f), site=S()))

  def equal(a, b, *args, **kw):
    ta, tb = T(a), T(b)
    if ta is tb:
      return True
    if _has_sym(ta) or _has_sym(tb):
      return absint.Sym('equal', (ta, tb))
    if is_empty(ta) and is_empty(tb):
      return True
    return False

  class Far:

    def __init__(self, path, mode='r', **kw):
      if mode != 'r':
        raise absint.Unsupported('Far mode %r' % (mode,))
      self._far = lib.fs.open_far(path)

    def __enter__(self):
      return self

    def __exit__(self, *a):
      return None

    def __getitem__(self, key):
      t = self._far[key]
      return F(t)

  m.__dict__.update(
      Fst=Bound, FstLike=object, accep=accep, acceptor=accep, cross=cross,
      union=union_, concat=concat_, compose=compose_, difference=difference,
      intersect=intersect, invert=invert_, project=project_,
      closure=closure_, optimize=ident, rmepsilon=ident, minimize=ident,
      determinize=ident, connect=ident, cdrewrite=cdrewrite, escape=escape,
      string_map=string_map, string_file=string_file,
      generated_symbols=generated_symbols,
      default_token_type=default_token_type, shortestpath=shortestpath,
      equal=equal, Far=Far, NO_STATE_ID=NO_STATE_ID, ACCEPTOR=ACCEPTOR,
      Weight=Weight, Arc=Arc, SymbolTableView=object, TokenType=object,
      FstOpError=FstOpError, FstArgError=FstArgError, FstError=FstError,
      FstIOError=FstIOError, FstBadWeightError=FstBadWeightError,
      FstStringCompilationError=FstStringCompilationError)
  lib.F = F
  lib.T = T

  byte = absint.ModuleObj('pynini.lib.byte')
  byte.__dict__.update({n: F(mk('class', n)) for n in BYTE_CLASSES})
  utf8 = absint.ModuleObj('pynini.lib.utf8')
  utf8.__dict__.update(VALID_UTF8_CHAR=F(mk('class', 'VALID_UTF8_CHAR')))
  pynutil = absint.ModuleObj('pynini.lib.pynutil')

  def delete(x, weight=None):
    t = mk('cross', T(x), compile_string(lib, ''), site=S())
    if weight not in (None, 0):
      t = mk('weighted', t, float(weight), site=S())
    return F(t)

  def insert(x, weight=None):
    t = mk('cross', compile_string(lib, ''), T(x), site=S())
    if weight not in (None, 0):
      t = mk('weighted', t, float(weight), site=S())
    return F(t)

  def add_weight(x, weight):
    return F(mk('weighted', T(x), float(weight), site=S()))

  def join(x, sep):
    return F(concat([T(x), closure(concat([T(sep), T(x)], S()), 0, None,
                                   S())], S()))

  pynutil.__dict__.update(delete=delete, insert=insert, add_weight=add_weight,
                          join=join)
  rewrite = absint.ModuleObj('pynini.lib.rewrite')
  return {'pynini': m, 'pynini.lib.byte': byte, 'pynini.lib.utf8': utf8,
          'pynini.lib.pynutil': pynutil, 'pynini.lib.rewrite': rewrite}


def _rebind(f, bound):
  """A copy of f whose global `Fst` is `bound`."""
  g = dict(f.__globals__)
  g['Fst'] = bound
  h = types.FunctionType(f.__code__, g, f.__name__, f.__defaults__,
                         f.__closure__)
  h.__kwdefaults__ = f.__kwdefaults__
  return h


BYTE_CLASSES = {
    'ALNUM': set(_string.ascii_letters + _string.digits),
    'ALPHA': set(_string.ascii_letters),
    'LOWER': set(_string.ascii_lowercase),
    'UPPER': set(_string.ascii_uppercase),
    'DIGIT': set(_string.digits),
    'HEX': set(_string.hexdigits),
    'PUNCT': set(_string.punctuation),
    'SPACE': set(' \t\n\r\v\f'),
    'NOT_SPACE': None,
    'NOT_QUOTE': None,
    'BYTE': {chr(i) for i in range(1, 256)},
    'CNTRL': None, 'GRAPH': None, 'PRINT': None, 'BLANK': {' ', '\t'},
}
