"""Only constructors and the declared mutators change an object.

Side effects and ownership of every function of the natural transliteration
class library, over its class hierarchy: which operands and shared constants a
function changes, whether its result is new, and whether the containers of an
object are its own.
"""

import ast

from . import natlit
from .. import owns

LEVEL = 'other'
T = natlit.DIR
MODULES = [
    'utils/' + x for x in (
        'type_op', 'log_op', 'inventory', 'feature', 'symbol', 'expression',
        'operation', 'lattice', 'fst_list', 'concat', 'alignment',
        'rewrite_functions')] + [
    'phonology/' + x for x in (
        'phonological_symbol', 'phon', 'feature', 'modify_phon',
        'phoneme_inventory', 'features/language', 'features/descriptive',
        'inventories/x_uni', 'operations/syllable', 'operations/voicing')] + [
    'script/' + x for x in ('grapheme', 'char', 'inventories/latn')] + [
    'brahmic/derom_inventory']

# What the documented mutators change: the receiver unless said otherwise.
MUTATORS = {
    'IterableThing': 'add',
    'Inventory': 'add_item add_suppl make_suppl',
    'Feature.Set': 'add remove replace reset update',
    'Feature.ValueList': 'populate(aspect)',
    'Feature.Aspect': 'add_feature(feature) suppl_feature(feature) '
                      'add_distance(feature1,feature2) set set_not set_range '
                      'populate',
    # Value sets that were not made yet are added to the aspect on demand.
    'Feature.Inventory': '__init__(aspects) add_profile copy_profile '
                         'make_sets',
    'Feature.Profile': 'update',
    'Feature.MultiProfile': 'new_profile',
    'Symbol': 'add_features set_attribute feature_pair(symbol)',
    'Symbol.Inventory': 'make_iterable_suppl add_symbols raw_from_unknown '
                        'str_to_raw_symbols(sym_inventory) '
                        'parse(sym_inventory)',
    'Cat': 'add', 'Or': 'add',
    'Operation.Inventory': 'add_operations',
    'Lattice': '__init__(error) state state_of',
    'FstList': 'add',
    'PhonologicalSymbol':
        'update_descriptives update_descriptives_from_symbol',
    'PhonologicalSymbol.Inventory': 'or_from_suppl sync_atomics',
    'Phon.Inventory': 'add_phonemes(phonemes)',
    'Grapheme.Inventory': 'add_graphemes(graphemes) '
                          'import_graphemes(graphemes) '
                          'import_as_feature_pairs(pairs) raw_from_unknown',
    'DeromMapping': 'add_field add_fst_field add_fst_fields',
    '_DeromMappingInventory': 'make_maps make_inventory',
}

# Effects that the analysis cannot exclude, and why they do not occur.
EXCUSED = {
    # get() is asked only for an inventory that has a profile.
    ('Feature.MultiProfile.new_profile', 'profile'),
    ('Symbol.__init__', owns.G),
    # symbols() makes new lists; only the symbols in them are shared.
    ('Item.contains_symbol_list', owns.G),
}

# Results that are new objects.
FRESH = {
    'Inventory': 'from_list',
    'Feature.Set': 'sorted_item_texts group_by_aspect copy difference union '
                   'intersection non_generic',
    'Feature.ValueList': 'set range',
    'Feature.Aspect': 'filter',
    'Feature.Inventory': 'aspect_dict',
    'Feature.Profile': 'copy',
    'Feature.MultiProfile': 'copy new_profile',
    'Item': 'copy symbols', 'Symbol': 'symbols',
    'Symbol.Inventory': 'str_to_raw_symbols',
    'Expression': 'item_list __add__ __or__ __rshift__ repeat ques',
    'Cat': 'symbols copy', 'Or': 'symbols copy',
    'Alignment': 'simple rule deletion insertion interchangeable',
    'FstList': 'make concat compose union_opt union_star',
    'Phon': 'copy', 'Grapheme': 'copy from_char',
    '': 'new_tr import_phon ph_inventory phon_inventory',
}

# Containers that belong to one object.
OWNED = {
    'IterableThing': '_items',
    'Inventory': 'item_aliases suppl_aliases',
    'Feature': 'parent_list', 'Feature.Set': '_items',
    'Feature.ValueList': 'parent_list', 'Feature.Aspect': 'distance_dict',
    'Symbol.Inventory': 'index_dict raw_dict text_dict',
    'Atomic': '_items', 'Or': '_items',
    'Operation.Inventory': '_index_dict',
    'PhonologicalSymbol.Inventory': 'atomics',
    'PhonologicalSymbol': 'features', 'Grapheme': 'features',
    'Lattice': '_nodes',
}

# Fields that a copy must not share with its original.
DEEP = ('.features', '._items', '.item_aliases', '.suppl_aliases',
        '.distance_dict', 'setattr', 'item')

# Methods that store copies: what they add to the receiver is new.
STORES_NEW = {'Feature.Profile': '__init__', 'Feature.MultiProfile':
              'new_profile'}


def spec(table):
  out = {}
  for c, names in table.items():
    for n in names.split():
      n, _, more = n.partition('(')
      out[(c + '.' if c else '') + n] = set(more.rstrip(')').split(',')) - {''}
  return out


def run(ctx):
  files = [T + m + '.py' for m in MODULES]
  ctx.analysed.update(files)
  try:
    p = owns.Program('/repo', [f[:-3].replace('/', '.') for f in files])
  except OSError as e:
    ctx.need(False, 'a module of the library is gone: %s' % e)
  p.solve()
  mut, fresh = spec(MUTATORS), spec(FRESH)
  known = set()
  for f in p.fns:
    q = f.qual.split(':')[1]
    where = '%s:%d %s' % (f.mod.path, f.node.lineno, q)
    allowed = set()
    base = q if not f.cls else owns.qualname(f.cls) + '.' + f.name
    if base in mut:
      known.add(base)
      allowed = mut[base] | set(f.params[:1])
    elif f.name in ('__init__', '__post_init__'):
      allowed = set(f.params[:1])
    private = f.name.startswith('_') and not f.name.startswith('__')
    hurt = {}
    for r, why in f.mut.items():
      hurt.setdefault(r.rstrip('.'), why)
    for r in [owns.G] + f.roots():
      why = hurt.get(r)
      ok = why is None or r in allowed or (base, r) in EXCUSED
      if private and r != owns.G:
        ok = True      # its callers answer for it
      ctx.ob('no-side-effect', '%s changes %s' % (
          q, 'a shared constant' if r == owns.G else r), ok, where, why or '')
      if r in f.defaults and why is not None:
        ctx.ob('shared-default', '%s default of %s' % (q, r),
               not shared(f, p, r), where,
               'the default is made once and changed by every call: %s' % why)
    for field, origins in f.keeps.items():
      for r in f.defaults:
        if r in origins and shared(f, p, r) and f.cls:
          why = changed_field(f.cls, field)
          ctx.ob('shared-default', '%s default of %s' % (q, r), not why, where,
                 'the default is made once, kept in .%s of every object and '
                 'changed by %s' % (field, why))
    if base in fresh:
      known.add('fresh ' + base)
      bad = f.ret[0] - {owns.F}
      ctx.ob('new-result', q, bool(f.ret[0]) and not bad, where,
             'the result may be %s' % ', '.join(sorted(bad)) if bad
             else 'no new result')
    cls = owns.qualname(f.cls) if f.cls else ''
    owned = set()
    if f.cls:
      for c in f.cls.mro():
        owned |= set(OWNED.get(owns.qualname(c), '').split())
    for field, origins in f.keeps.items():
      if field not in owned or not assigned(f, field):
        continue
      bad = set(origins) - {owns.F}
      ctx.ob('own-container', '%s.%s in %s' % (cls, field, f.name), not bad,
             where, 'it is shared with %s' % ', '.join(sorted(bad)))
    if f.name == 'copy':
      for r in DEEP:
        if r in f.gives:
          bad = f.gives[r] - {owns.F}
          ctx.ob('deep-copy', '%s %s' % (q, r), not bad, where,
                 'the copy gets %s of %s itself' % (
                     r, ', '.join(sorted(bad))))
    if f.name in STORES_NEW.get(cls, '').split():
      bad = set(f.keeps.get('add_item', ())) - {owns.F}
      ctx.ob('stores-copies', q, not bad, where,
             'it keeps %s itself' % ', '.join(sorted(bad)))
  ctx.floor('no-side-effect', 500)
  ctx.floor('new-result', 25)
  ctx.floor('own-container', 12)
  ctx.notes['functions'] = len(p.fns)


def changed_field(cls, field):
  """A method that changes the object in that field."""
  for c in cls.family():
    for m in c.methods.values():
      for n in ast.walk(m.node):
        if isinstance(n, ast.Call) and isinstance(
            n.func, ast.Attribute) and n.func.attr in owns.MUTATORS and (
                isinstance(n.func.value, ast.Attribute)) and (
                    n.func.value.attr == field) and isinstance(
                        n.func.value.value, ast.Name) and (
                            n.func.value.value.id == m.params[0]):
          return '%s line %d' % (m.qual, n.lineno)
  return None


def shared(f, p, r):
  """Is the default value an object that calls could share and change?"""
  v = f.defaults[r]
  if isinstance(v, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp)):
    return True
  return False


def assigned(f, field):
  """Does the function set the field itself (not only fill it)?"""
  for n in ast.walk(f.node):
    ts = n.targets if isinstance(n, ast.Assign) else [
        n.target] if isinstance(n, ast.AnnAssign) else []
    for t in ts:
      for x in ast.walk(t):
        if isinstance(x, ast.Attribute) and x.attr == field and isinstance(
            x.ctx, ast.Store):
          return True
  return False
