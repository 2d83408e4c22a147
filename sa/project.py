"""The build graph, the data tables and the grammars of /repo, statically.

BUILD.bazel/.bzl files are interpreted with absint; a rule only records a
target.  `Project.file(label)` evaluates the recorded commands (a handful of
shell idioms), down to the text of every generated table and to the FST term
of every entry of every FAR.
"""

import contextlib
import functools
import glob as globlib
import io
import os
import pathlib
import re
import types

from . import absint
from . import terms
from . import textproto

WS = 'com_google_nisaba'


class BuildError(Exception):
  """The build rules themselves are inconsistent."""


class Target(dict):
  __getattr__ = dict.__getitem__

  def __hash__(self):
    return hash(self['label'])


def norm(label, pkg):
  if label.startswith('@' + WS + '//'):
    label = label[len(WS) + 1:]
  if label.startswith('@'):
    return label
  if label.startswith('//'):
    if ':' in label:
      return label
    return label + ':' + label.rsplit('/', 1)[1]
  return '//%s:%s' % (pkg, label.lstrip(':'))


class Project:

  def __init__(self, repo=None):
    self.repo = repo or absint.REPO
    self.targets = {}
    self.outputs = {}       # file label -> target
    self.errors = []
    self.grammars = {}      # far label -> {name: Term}
    self.far_order = {}     # far label -> [names in the FAR, in order]
    self.gram_runs = {}     # main path key -> GrammarRun
    self._files = {}
    self._bzl = {}
    self._pkg = None
    self._interp = absint.Interp(repo=self.repo)
    self._interp.builtins['print'] = lambda *a: None
    self._load_all()

  # --- BUILD files -----------------------------------------------------------

  def _rule(self, kind):
    def f(name=None, **kw):
      pkg = self._pkg
      label = '//%s:%s' % (pkg, name)
      if label in self.targets:
        raise ValueError('duplicate target ' + label)
      t = Target(kw, kind=kind, name=name, pkg=pkg, label=label)
      for key in ('srcs', 'hdrs', 'deps', 'data', 'tools', 'targets'):
        t[key] = [norm(x, pkg) for x in (kw.get(key) or [])]
      t['tools'] = t['tools'] + [norm(x, pkg) for x in
                                 (kw.get('exec_tools') or [])]
      t['outs'] = ['//%s:%s' % (pkg, x) for x in (kw.get('outs') or [])]
      if kind == 'py_proto_library':
        t['outs'] = [s[:-len('.proto')] + '_pb2.py' for s in t['srcs']]
      self.targets[label] = t
      for o in t['outs']:
        self.outputs[o] = t
    return f

  def _compile_grm(self, name, deps, data, multi):
    self._rules['py_library'](name='_%s_lib' % name, srcs=[name + '.py'],
                              deps=deps or [], data=data or [])
    self._rules['py_binary'](name='_%s_bin' % name, srcs=[name + '.py'],
                             main=name + '.py', deps=[':_%s_lib' % name])

  def compile_grm_py(self, name, far_type=None, fst_type=None, deps=None,
                     data=None, out=None, **kw):
    out = out or name + '.far'
    self._compile_grm(name, deps, data, False)
    self._rules['grammar'](name=name, binary=':_%s_bin' % name, outs=[out],
                           designators={'': out}, multi=False)

  def compile_multi_grm_py(self, name, outs, far_type=None, fst_type=None,
                           deps=None, data=None, **kw):
    self._compile_grm(name, deps, data, True)
    self._rules['grammar'](name=name, binary=':_%s_bin' % name,
                           outs=list(outs.values()), designators=dict(outs),
                           multi=True)

  def _glob(self, patterns, exclude=(), **kw):
    root = os.path.join(self.repo, self._pkg)

    def match(ps):
      return {os.path.relpath(f, root) for p in ps
              for f in globlib.glob(os.path.join(root, p), recursive=True)
              if os.path.isfile(f)}
    return sorted(match(patterns) - match(exclude))

  def _globals(self, pkg):
    kinds = ('genrule filegroup py_library py_binary py_test cc_library '
             'cc_binary cc_test proto_library cc_proto_library '
             'py_proto_library build_test bzl_library grammar').split()
    if not hasattr(self, '_rules'):
      self._rules = {k: self._rule(k) for k in kinds}
    env = dict(self._rules)
    noop = lambda *a, **k: None
    for k in 'package licenses exports_files compile_pip_requirements'.split():
      env[k] = noop
    native = types.SimpleNamespace(
        package_name=lambda: self._pkg, glob=self._glob, **self._rules)

    def fail(*args):
      raise ValueError(' '.join(map(str, args)))
    env.update(native=native, fail=fail, glob=self._glob,
               package_name=lambda: self._pkg,
               requirement=lambda n: '@pip_deps//' + n)

    def load(label, *names, **aliases):
      if label.startswith('@') or label.startswith('//third_party/'):
        syms = dict(self._rules, requirement=lambda n: '@pip_deps//' + n,
                    compile_grm_py=self.compile_grm_py,
                    compile_multi_grm_py=self.compile_multi_grm_py,
                    **{k: env[k] for k in
                       'package licenses exports_files '
                       'compile_pip_requirements'.split()})
      else:
        p, n = norm(label, pkg)[2:].split(':')
        syms = self._load_bzl(os.path.join(self.repo, p, n), p)
      for name in names:
        if name not in syms:
          raise NameError('%s has no symbol %s' % (label, name))
        env[name] = syms[name]
      for alias, name in aliases.items():
        env[alias] = syms[name]
    env['load'] = load
    return env

  def _load_bzl(self, path, pkg):
    if path not in self._bzl:
      env = self._globals(pkg)
      self._exec(path, env)
      self._bzl[path] = env
    return self._bzl[path]

  def _exec(self, path, env):
    tree = absint.parse_file(path)
    env['__builtins__'] = self._interp.builtins
    scope = absint.Scope(env, None, env, 'module')
    self._interp.frames.append(absint.Frame(path, '<build>'))
    try:
      self._interp.block(tree.body, scope)
    finally:
      self._interp.frames.pop()

  def _load_all(self):
    for root, dirs, files in os.walk(self.repo + '/nisaba'):
      dirs.sort()
      if 'BUILD.bazel' not in files:
        continue
      self._pkg = os.path.relpath(root, self.repo)
      path = root + '/BUILD.bazel'
      try:
        self._exec(path, self._globals(self._pkg))
      except Exception as e:
        self.errors.append((path, '%s: %s' % (type(e).__name__, e)))
        self._interp.frames.clear()

  # --- closures ---------------------------------------------------------------

  def files_of(self, label):
    if label.startswith('@'):
      return []
    if label in self.targets and label not in self.outputs:
      t = self.targets[label]
      if t.kind == 'filegroup':
        return [f for s in t.srcs for f in self.files_of(s)]
      return list(t.outs)
    return [label]

  def runfiles(self, label, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if label in seen or label.startswith('@'):
      return acc
    seen.add(label)
    if label in self.outputs:
      acc.add(label)
    elif label in self.targets:
      t = self.targets[label]
      if t.kind in ('genrule', 'filegroup', 'py_proto_library', 'grammar'):
        acc.update(self.files_of(label))
      if t.kind == 'filegroup' or t.kind.startswith('py_'):
        for x in t.srcs:
          if not x.endswith('.proto'):
            self.runfiles(x, acc, seen)
        for x in t.deps + t.data:
          self.runfiles(x, acc, seen)
    else:
      acc.add(label)
    return acc

  # --- files -------------------------------------------------------------------

  def exists(self, label):
    if label in self.outputs:
      return True
    return os.path.isfile(self.path(label))

  def path(self, label):
    return os.path.join(self.repo, label[2:].replace(':', '/'))

  def text(self, label):
    """Text of a source or generated (non-FAR) file."""
    if label in self._files:
      return self._files[label]
    t = self.outputs.get(label)
    if t is None:
      with open(self.path(label), encoding='utf8') as f:
        r = f.read()
    elif t.kind == 'genrule':
      r = self._genrule(t, label)
    else:
      raise BuildError('no text for ' + label)
    self._files[label] = r
    return r

  def _expand(self, t, cmd):
    while '$(location ' in cmd:
      i = cmd.index('$(location ')
      j = cmd.index(')', i)
      x = norm(cmd[i + 11:j].strip(), t.pkg)
      fs = [x] if x in self.outputs or x in t.outs or x in t.tools else self.files_of(x)
      cmd = cmd[:i] + ' '.join(fs) + cmd[j + 1:]
    srcs = [f for x in t.srcs for f in self.files_of(x)]
    for s in srcs:
      if s not in self.outputs and not os.path.isfile(self.path(s)):
        raise BuildError('%s: missing input %s' % (t.label, s))
    cmd = cmd.replace('$(SRCS)', ' '.join(srcs))
    cmd = cmd.replace('$@', t.outs[0])
    cmd = cmd.replace('$<', srcs[0] if srcs else '')
    return cmd

  def _genrule(self, t, want):
    cmd = self._expand(t, t.cmd)
    out = {}
    for stage in cmd.split(' ; '):
      self._shell(t, stage.strip(), out)
    if want not in out:
      raise BuildError('%s does not write %s' % (t.label, want))
    return out[want]

  def _shell(self, t, stage, out):
    m = re.match(r'(.*?)(?:\s>\s*(\S+))?$', stage, re.S)
    body, dest = m.group(1), m.group(2)
    data = None
    for part in re.split(r'\|(?=\s)', body.replace('\\\n', ' ')):
      part = part.strip().rstrip('\\').strip()
      if part.startswith('cat '):
        data = ''.join(self.text(x) for x in part.split()[1:])
      elif part.startswith('touch '):
        out[part.split()[1]] = ''
        return
      elif part.startswith('sed '):
        m = re.match(r"sed -r 's/(.*?)/(.*?)/(g?)'\s*(\S*)$", part)
        if not m:
          raise BuildError('unknown sed: ' + part)
        src = data if not m.group(4) else self.text(m.group(4))
        rep = re.sub(r'\\(\d)', r'\\g<\1>', m.group(2))
        data = '\n'.join(re.sub(m.group(1), rep, line,
                                count=0 if m.group(3) else 1)
                         for line in src.split('\n'))
      elif re.match(r'//\S+unicode_strings_to_tsv ', part):
        a = part.split()
        tool = a[0]
        args = dict(zip(a[1::2], a[2::2]))
        run = self._tool(tool)
        texts = run.run_flags({k.lstrip('-'): v for k, v in args.items()})
        out.update(texts)
        return
      else:
        raise BuildError('%s: unknown command %r' % (t.label, part))
    if dest:
      out[dest] = data

  def _tool(self, label):
    if not hasattr(self, '_tools'):
      self._tools = {}
    if label not in self._tools:
      self._tools[label] = ToolRun(self, label)
    return self._tools[label]

  # --- grammars -----------------------------------------------------------------

  def far(self, label):
    """{entry name: Term} of a FAR file label."""
    if label in self.grammars:
      return self.grammars[label]
    t = self.outputs.get(label)
    if t is None:
      raise BuildError('no rule makes ' + label)
    if t.kind == 'grammar':
      run = self.run_grammar(t)
      for des, out in t.designators.items():
        self.grammars['//%s:%s' % (t.pkg, out)] = run.exports.get(des, {})
    elif t.kind == 'genrule':
      cmd = self._expand(t, t.cmd)
      m = re.match(r'\S*farextract (.*?) ; \s*\S*farcreate (.*)$', cmd, re.S)
      if not m:
        raise BuildError('unknown FAR rule ' + t.label)
      srcs = m.group(1).split()
      rest = m.group(2).split()
      names, dest = rest[:-1], rest[-1]
      files = {}     # one working directory: later extractions overwrite
      for s in srcs:
        files.update(self.far(s))
      missing = [n for n in names if n not in files]
      if missing:
        raise BuildError('%s: farcreate of missing %s' % (t.label, missing))
      if sorted(names) != names:
        raise BuildError('%s: farcreate keys not sorted: %s' % (
            t.label, names))
      self.grammars[dest] = {n: files[n] for n in names}
    else:
      raise BuildError('no FAR rule for ' + label)
    if label not in self.grammars:
      raise BuildError('%s is not written' % label)
    return self.grammars[label]

  def run_grammar(self, t):
    if t.label not in self.gram_runs:
      self.gram_runs[t.label] = None
      self.gram_runs[t.label] = GrammarRun(self, t)
    r = self.gram_runs[t.label]
    if r is None:
      raise BuildError('cycle through ' + t.label)
    return r

  def grammar_targets(self):
    return [t for t in self.targets.values() if t.kind == 'grammar']


class FileSystem:
  """What an interpreted process sees below its runfiles directory."""

  ROOT = '/RUNFILES'

  def __init__(self, project, visible=None):
    self.p = project
    self.visible = visible
    self.reads = []
    self.writes = {}
    self.missing = []

  def label(self, path):
    s = os.fspath(path)
    s = os.path.normpath(s)
    if s.startswith('//'):
      s = s[1:]
    if s.startswith(self.ROOT + '/'):
      s = s[len(self.ROOT) + 1:]
    if not s.startswith(WS + '/'):
      return None
    s = s[len(WS) + 1:]
    return '//' + os.path.dirname(s) + ':' + os.path.basename(s)

  def exists(self, path):
    l = self.label(path)
    if l is None:
      return False
    if self.visible is not None and l not in self.visible:
      return False
    return self.p.exists(l)

  def read(self, path):
    s = os.fspath(path)
    if s.startswith('//'):
      l = s
    else:
      l = self.label(path)
    if l is None or not (s.startswith('//') or self.exists(path)):
      self.missing.append((s, None))
      raise FileNotFoundError(2, 'No such file or directory', s)
    self.reads.append(l)
    return self.p.text(l), l

  def open(self, path, mode='r', **kw):
    if 'w' in mode:
      buf = _Out(self, os.fspath(path))
      return buf
    return io.StringIO(self.read(path)[0])

  def open_far(self, path):
    l = self.label(path)
    if l is None or not self.exists(path):
      self.missing.append((os.fspath(path), None))
      raise terms.FstIOError('Read failed: %s' % os.fspath(path))
    self.reads.append(l)
    return self.p.far(l)


class _Out(io.StringIO):

  def __init__(self, fs, path):
    super().__init__()
    self._fs, self._p = fs, path

  def __exit__(self, *a):
    self._fs.writes[self._p] = self.getvalue()
    return super().__exit__(*a)


class Process:
  """An interpreter with the models of one Python process."""

  def __init__(self, project, visible=None, overrides=None, interp_kw=None):
    self.project = project
    self.fs = FileSystem(project, visible)
    self.interp = absint.Interp(repo=project.repo, overrides=overrides,
                                **(interp_kw or {}))
    self.lib = terms.Lib(self.interp, self.fs)
    # Cascades are composed in an order that depends on the sizes of their
    # parts; the analysis must not depend on it.
    self.lib.size_oracle = lambda t: 2 + (t.id * 7919) % 97
    self.flags = {}
    self.interp.opener = self.fs.open
    self.interp.models.update(self.models())

  def models(self):
    m = terms.make_pynini(self.lib)
    fs = self.fs
    M = absint.ModuleObj

    class Path(pathlib.PurePosixPath):

      def open(self, mode='r', *a, **kw):
        return fs.open(str(self), mode)

      def is_file(self):
        return fs.exists(str(self))

      exists = is_file

      def read_text(self, *a, **kw):
        return fs.read(str(self))[0]

    pl = M('pathlib')
    pl.__dict__.update(Path=Path, PurePath=pathlib.PurePosixPath,
                       PurePosixPath=pathlib.PurePosixPath, PosixPath=Path)
    m['pathlib'] = pl

    o = M('os')
    op = M('os.path')
    op.__dict__.update({k: getattr(os.path, k) for k in (
        'join', 'basename', 'dirname', 'splitext', 'normpath', 'sep')})
    op.isfile = fs.exists
    op.exists = fs.exists
    o.__dict__.update(path=op, fspath=os.fspath, PathLike=os.PathLike, sep='/',
                      linesep='\n')
    o.environ = {}
    m['os'] = o
    m['os.path'] = op

    class Runfiles:

      @staticmethod
      def Create(*a):
        return Runfiles()

      def Rlocation(self, path):
        p = os.fspath(path)
        if os.path.isabs(p):
          return p
        return FileSystem.ROOT + '/' + p
    rf = M('rules_python.python.runfiles.runfiles')
    rf.Create = Runfiles.Create
    rf.Runfiles = Runfiles
    rfp = M('rules_python.python.runfiles')
    rfp.runfiles = rf
    m['rules_python.python.runfiles'] = rfp
    m['rules_python.python.runfiles.runfiles'] = rf

    import io as _io

    def read_csv(f, *a, **kw):
      import pandas
      if not hasattr(f, 'read'):
        f = fs.open(f)
      return pandas.read_csv(f, *a, **kw)
    pd = M('pandas')
    pd.read_csv = read_csv
    m['pandas'] = pd

    def nx(interp):
      import networkx
      return networkx
    m['networkx'] = nx

    def pyc(interp):
      import pycountry
      return pycountry
    m['pycountry'] = pyc

    flags = M('absl.flags')
    proc = self

    class Flag:

      def __init__(self, name, default):
        self.name, self.default = name, default

      @property
      def value(self):
        return proc.flags.get(self.name, self.default)

    def define(name, default, *a, **kw):
      return Flag(name, default)

    def define_enum(name, default, values, *a, **kw):
      if default not in (None, '') and default not in values:
        raise ValueError('value %r not in %r for flag %s' % (
            default, values, name))
      return Flag(name, default)
    flags.__dict__.update(DEFINE_string=define, DEFINE_enum=define_enum,
                          DEFINE_bool=define, DEFINE_integer=define,
                          DEFINE_float=define, DEFINE_boolean=define,
                          DEFINE_list=define)
    m['absl.flags'] = flags
    app = M('absl.app')
    app.UsageError = type('UsageError', (Exception,), {})
    app.run = lambda main: None
    m['absl.app'] = app
    lg = M('absl.logging')
    nop = lambda *a, **k: None
    lg.__dict__.update({k: nop for k in (
        'info', 'warning', 'error', 'debug', 'fatal', 'vlog', 'log',
        'level_debug', 'level_info', 'level_warning', 'level_error')})
    lg.__dict__.update(DEBUG=1, INFO=0, WARNING=-1, ERROR=-2, FATAL=-3)
    m['absl.logging'] = lg
    ab = M('absl')
    ab.__dict__.update(flags=flags, app=app, logging=lg)
    m['absl'] = ab
    at = M('absl.testing.absltest')
    at.TestCase = type('TestCase', (), {})
    m['absl.testing.absltest'] = at

    tf = M('google.protobuf.text_format')
    tf.Parse = lambda text, msg: textproto.parse_text(text, msg)
    tf.ParseError = textproto.ParseError
    m['google.protobuf.text_format'] = tf
    gp = M('google.protobuf')
    gp.text_format = tf
    msg = M('google.protobuf.message')
    msg.Message = textproto.Message
    gp.message = msg
    m['google.protobuf.message'] = msg
    m['google.protobuf'] = gp

    class _Exp:
      pass
    for n in ('grm', 'multi_grm'):
      g = M('pynini.export.' + n)
      g.Exporter = dict
      g.ExporterMapping = dict
      g.run = functools.partial(self._run, n == 'multi_grm')
      m['pynini.export.' + n] = g
    # Messages of .proto files.
    for label, t in self.project.targets.items():
      if t.kind == 'py_proto_library':
        for s in t.srcs:
          name = s[2:-len('.proto')].replace(':', '/').replace('/', '.')
          m[name + '_pb2'] = functools.partial(self._pb2, s, name + '_pb2')
    return m

  def _pb2(self, label, name, interp):
    mod = absint.ModuleObj(name)
    mod.__dict__.update(textproto.parse_proto(self.project.text(label)))
    return mod

  main_seen = None

  def _run(self, multi, generator):
    self.main_seen = (multi, generator)


class Exporter(dict):

  def __init__(self, run, des):
    super().__init__()
    self.run, self.des = run, des

  def __setitem__(self, k, v):
    p = self.run.proc
    if k in self:
      self.run.duplicates.append((self.des, k, p.lib.site()))
    if not isinstance(v, terms.Fst):
      raise TypeError('exported %r is not an FST' % (k,))
    self.run.export_sites[self.des, k] = p.lib.site()
    super().__setitem__(k, v.term)


class GrammarRun:
  """Evaluation of one grammar target."""

  def __init__(self, project, t):
    self.project, self.target = project, t
    bin_label = norm(t.binary, t.pkg)
    b = project.targets[bin_label]
    main = norm(b.main, b.pkg)
    self.main = main
    visible = project.runfiles(bin_label)
    name = main[2:].replace(':', '/')[:-3].replace('/', '.')
    self.exports = {}
    self.export_sites = {}
    self.duplicates = []
    path = project.path(main)
    text = None
    if main in project.outputs:
      text = project.text(main)
      src = project.outputs[main].srcs[0]
      path = project.path(src)
    self.source = path
    self.proc = Process(project, visible)
    self.run(name, path, text)

  def run(self, name, path, text):
    p = self.proc
    for des in self.target.designators:
      self.exports[des] = Exporter(self, des)
    m = absint.ModuleObj('__main__')
    p.interp.exec_module(m, path, text)
    if p.main_seen is None:
      raise BuildError('%s does not run a generator' % path)
    multi, gen = p.main_seen
    if multi != self.target.multi:
      raise BuildError('%s: exporter kind does not match its rule' %
                       self.target.label)
    p.interp.frames.append(absint.Frame(path, '<main>'))
    if multi:
      gen(dict(self.exports))
    else:
      gen(self.exports[''])
    p.interp.frames.pop()


class ToolRun:
  """unicode_strings_to_tsv."""

  def __init__(self, project, label):
    t = project.targets[label]
    self.proc = Process(project, None)
    main = norm(t.get('main') or t.srcs[0], t.pkg)
    self.m = absint.ModuleObj('__main__')
    self.got = []
    self.proc.interp.models['absl.app'].run = self.got.append
    self.proc.interp.exec_module(self.m, project.path(main))
    if not self.got:
      raise BuildError('%s does not call app.run' % main)

  def run_flags(self, flags):
    self.proc.flags = flags
    self.proc.fs.writes.clear()
    self.proc.interp.frames.append(absint.Frame(self.m.__name__, '<main>'))
    try:
      self.got[0](['tool'])
    finally:
      self.proc.interp.frames.clear()
    return dict(self.proc.fs.writes)
