"""Reading the syntax tree of C++ sources (clang's JSON form)."""

import json
import os
import subprocess


class ClangError(Exception):
  pass


def parse(repo, rel, name_filter):
  """The top declarations of `rel` whose qualified name matches the filter."""
  cmd = ['clang++', '-std=c++17', '-I' + repo, '-fsyntax-only', '-x', 'c++',
         '-Xclang', '-ast-dump=json', '-Xclang',
         '-ast-dump-filter=' + name_filter, os.path.join(repo, rel)]
  r = subprocess.run(cmd, capture_output=True, text=True)
  if r.returncode:
    raise ClangError(r.stderr[:2000])
  dec, docs, s, i = json.JSONDecoder(), [], r.stdout, 0
  while True:
    i = s.find('{', i)
    if i < 0:
      return docs
    doc, i = dec.raw_decode(s, i)
    docs.append(doc)


class Lines:
  """Maps nodes to line numbers of one file."""

  def __init__(self, repo, rel):
    self.rel = rel
    with open(os.path.join(repo, rel), 'rb') as f:
      self.text = f.read()

  def where(self, node):
    for key in ('loc', 'range'):
      at = node.get(key) or {}
      if key == 'range':
        at = at.get('begin') or {}
      at = at.get('expansionLoc') or at
      if 'offset' in at:
        return '%s:%d' % (self.rel,
                          1 + self.text.count(b'\n', 0, at['offset']))
    return self.rel


def children(node):
  return [c for c in node.get('inner', ()) if c and c.get('kind')]


def walk(node):
  yield node
  for c in children(node):
    yield from walk(c)


_CASTS = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups',
          'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
          'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr',
          'ConstantExpr', 'FullExpr', 'CXXConstCastExpr'}


def strip(node):
  """The expression below casts, parentheses and temporaries."""
  while node.get('kind') in _CASTS and children(node):
    node = children(node)[-1]
  return node


def qual_type(node):
  t = node.get('type') or {}
  return t.get('desugaredQualType') or t.get('qualType') or ''
