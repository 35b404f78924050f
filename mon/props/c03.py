"""Refused exactly when the allowed sources cannot cover the amount."""
from .common import histories, wide

RULE = ('Amounts at and around what the allowed sources can pay (exact maximum, one unit more, sums of the smallest outputs), '
        'with restricted, shared and foreign sources and up to 260 outputs; verdict from an independent best-99 sum over the '
        'model ledger. distinct = distinct combination of operation, source, inputs, outcome.')
REQUIRED = ['sends_ok', 'sends_refused', 'refusals', 'erc20_refused', 'swaps_refused']
ASSUMPTIONS = ['the explorer answers truthfully',
               'when personal and shared sources are named together only the clear cases are judged']
W = {'send': 16, 'swap': 3, 'botnew': 1, 'botupd': 2, 'botxfer': 1, 'erc20send': 4, 'erc20reg': 2, 'history': 8}
PARTS = [('histories', 260, 6000, histories(W)), ('wide', 120, 1800, wide(['send', 'send', 'send', 'erc20send', 'swap'], locked=True)),
         ('wide-shared', 110, 1200, wide(['send', 'send', 'send', 'swap'], shared=.9))]
