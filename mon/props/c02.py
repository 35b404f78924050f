"""Only own, existing, unspent, unlocked outputs are spent, each once."""
from .common import histories, wide

RULE = ('Random histories biased to locked, already spent and unconfirmed outputs and to restricted sources, plus wallets with '
        '97-260 outputs; every input of every created transaction is resolved in the model ledger at the moment of the call. '
        'distinct = distinct combination of operation, source, number of inputs, outcome.')
REQUIRED = ['inputs_judged', 'transactions_judged', 'node_inputs', 'drains']
ASSUMPTIONS = ['the explorer answers truthfully']
W = {'send': 14, 'swap': 3, 'botupd': 2, 'erc20send': 2, 'erc20reg': 1, 'drain': 3, 'claim': 2, 'history': 12, 'cosign': 2}
PARTS = [('histories', 260, 6000, histories(W)), ('wide', 100, 1500, wide(['send', 'send', 'drain', 'erc20send', 'swap']))]
