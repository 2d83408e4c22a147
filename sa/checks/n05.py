"""Pronunciation gives each letter its phone (see letters.py and n04.py)."""

from . import natlit
from . import n04

LEVEL = 'proof'


def run(ctx):
  n04.decide(ctx, ('ipa',))
  ctx.analysed.add(natlit.DIR + 'phonology/transcriptor.py')
