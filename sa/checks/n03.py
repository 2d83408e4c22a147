"""Every ISO word has exactly one pronunciation, written in IPA."""

from . import common
from . import n02
from . import natlit

LEVEL = 'proof'


def run(ctx):
  n = common.Count(ctx)
  _ = ctx.project
  common.parallel(ctx, n, lambda rec, k, lang: n02.language(
      rec, k, ctx.project, lang, ('ipa',)), natlit.LANGS)
  for r in ('total', 'single-valued', 'alphabet'):
    ctx.floor(r, len(natlit.LANGS))
  ctx.analysed.update([natlit.DIR + 'phonology/transcriptor.py',
                       natlit.DIR + 'brahmic/g2p.py'])
