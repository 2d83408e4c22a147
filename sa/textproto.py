"""Parsers for .proto declarations and text-format messages (static data)."""

import ast as _ast
import re

from . import absint

_TOK = re.compile(r'''\s+|\#[^\n]*|(?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')|(?P<id>[A-Za-z_][\w.]*)|(?P<num>-?[\d][\w.+-]*)|(?P<p>[{}\[\]:;,<>])''', re.S)


class ParseError(Exception):
  """Stands for text_format.ParseError."""


def tokens(text):
  i = 0
  line = 1
  while i < len(text):
    m = _TOK.match(text, i)
    if not m:
      raise ParseError('line %d: cannot tokenize %r' % (line, text[i:i + 20]))
    if m.lastgroup:
      yield m.lastgroup, m.group(), line
    line += m.group().count('\n')
    i = m.end()


def unquote(s):
  body = s[1:-1]
  out = []
  i = 0
  while i < len(body):
    c = body[i]
    if c != '\\':
      out.append(c.encode('utf8'))
      i += 1
      continue
    c = body[i + 1]
    i += 2
    simple = {'n': b'\n', 't': b'\t', 'r': b'\r', '\\': b'\\', "'": b"'",
              '"': b'"', 'a': b'\a', 'b': b'\b', 'f': b'\f', 'v': b'\v',
              '?': b'?'}
    if c in simple:
      out.append(simple[c])
    elif c in 'xX':
      m = re.match(r'[0-9a-fA-F]{1,2}', body[i:])
      out.append(bytes([int(m.group(), 16)]))
      i += m.end()
    elif c in '01234567':
      m = re.match(r'[0-7]{1,3}', body[i - 1:])
      out.append(bytes([int(m.group(), 8) & 255]))
      i += m.end() - 1
    elif c == 'u':
      out.append(chr(int(body[i:i + 4], 16)).encode('utf8', 'surrogatepass'))
      i += 4
    elif c == 'U':
      out.append(chr(int(body[i:i + 8], 16)).encode('utf8'))
      i += 8
    else:
      raise ParseError('bad escape \\%s' % c)
  return b''.join(out).decode('utf8', 'surrogatepass').encode(
      'utf16', 'surrogatepass').decode('utf16')


class Message:
  """A dynamic message; fields as attributes, proto3 defaults."""

  DESC = None

  def __init__(self, **kw):
    self.__dict__['_lines'] = {}
    for name, (rep, typ) in type(self).DESC.items():
      if rep:
        v = []
      elif typ == 'string':
        v = ''
      elif typ == 'bool':
        v = False
      elif isinstance(typ, type) and issubclass(typ, Message):
        v = None
      elif typ in ('double', 'float'):
        v = 0.0
      else:
        v = 0
      self.__dict__[name] = v
    for k, v in kw.items():
      setattr(self, k, v)

  def __setattr__(self, k, v):
    if k not in type(self).DESC and not k.startswith('_'):
      raise AttributeError('no field %s' % k)
    self.__dict__[k] = v if v is not None else ''

  def HasField(self, name):
    return bool(self.__dict__[name])


def parse_proto(text):
  """.proto text -> {message name: class} (nested as attributes)."""
  text = re.sub(r'//[^\n]*', '', text)
  text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
  toks = re.findall(r'"[^"]*"|[\w.]+|[{}=;\[\](),<>]', text)
  pos = 0
  top = {}

  def message(i):
    name = toks[i]
    assert toks[i + 1] == '{', toks[i:i + 3]
    i += 2
    desc = {}
    nested = {}
    while toks[i] != '}':
      if toks[i] == 'message':
        i, n, c = message(i + 1)
        nested[n] = c
        continue
      if toks[i] in ('reserved', 'option', 'extensions'):
        while toks[i] != ';':
          i += 1
        i += 1
        continue
      if toks[i] == 'enum':
        while toks[i] != '}':
          i += 1
        i += 1
        continue
      if toks[i] == 'oneof':
        raise absint.Unsupported('oneof')
      rep = False
      if toks[i] in ('repeated', 'optional', 'required'):
        rep = toks[i] == 'repeated'
        i += 1
      typ, fname = toks[i], toks[i + 1]
      desc[fname] = (rep, typ)
      while toks[i] != ';':
        i += 1
      i += 1
    for f, (rep, typ) in list(desc.items()):
      if typ in nested:
        desc[f] = (rep, nested[typ])
      elif typ in top:
        desc[f] = (rep, top[typ])
    cls = type(name, (Message,), dict(nested, DESC=desc))
    return i + 1, name, cls

  i = 0
  while i < len(toks):
    if toks[i] == 'message':
      i, n, c = message(i + 1)
      top[n] = c
    elif toks[i] == 'enum':
      while toks[i] != '}':
        i += 1
      i += 1
    else:
      i += 1
  return top


def parse_text(text, msg):
  """Merges text-format `text` into msg."""
  toks = list(tokens(text)) + [('end', '', 0)]
  i = 0

  def fields(i, msg, end):
    while True:
      kind, tok, line = toks[i]
      if kind == 'p' and tok in ',;':
        i += 1
        continue
      if tok == end and kind in ('p', 'end'):
        return i + 1
      if kind != 'id':
        raise ParseError('line %d: unexpected %r' % (line, tok))
      if tok not in type(msg).DESC:
        raise ParseError('line %d: no field %r in %s' % (
            line, tok, type(msg).__name__))
      rep, typ = type(msg).DESC[tok]
      name = tok
      i += 1
      if toks[i][1] == ':' and toks[i][0] == 'p':
        i += 1
      if isinstance(typ, type):
        if toks[i][1] == '[':
          i += 1
          while toks[i][1] != ']':
            if toks[i][1] == ',':
              i += 1
              continue
            sub = typ()
            sub._lines['_'] = line
            i = fields(i + 1, sub, '}')
            msg.__dict__[name].append(sub)
          i += 1
          continue
        if toks[i][1] not in '{<':
          raise ParseError('line %d: message expected' % line)
        sub = typ()
        sub._lines['_'] = line
        i = fields(i + 1, sub, '}' if toks[i][1] == '{' else '>')
        if rep:
          msg.__dict__[name].append(sub)
        else:
          msg.__dict__[name] = sub
        continue
      vals = []
      if toks[i][1] == '[' and toks[i][0] == 'p':
        i += 1
        while toks[i][1] != ']' or toks[i][0] != 'p':
          if toks[i][1] == ',' and toks[i][0] == 'p':
            i += 1
            continue
          i, v = scalar(i, typ)
          vals.append(v)
        i += 1
      else:
        i, v = scalar(i, typ)
        vals.append(v)
      if rep:
        msg.__dict__[name].extend(vals)
      else:
        if msg._lines.get(name):
          raise ParseError('line %d: field %s repeated' % (line, name))
        msg._lines[name] = line
        msg.__dict__[name] = vals[-1]

  def scalar(i, typ):
    kind, tok, line = toks[i]
    if typ in ('string', 'bytes'):
      if kind != 'str':
        raise ParseError('line %d: string expected, got %r' % (line, tok))
      s = ''
      while toks[i][0] == 'str':
        s += unquote(toks[i][1])
        i += 1
      return i, s
    if typ == 'bool':
      return i + 1, tok in ('true', 'True', '1', 't')
    if typ in ('double', 'float'):
      return i + 1, float(tok)
    try:
      return i + 1, int(tok, 0)
    except ValueError:
      return i + 1, tok

  fields(0, msg, '')
  return msg
