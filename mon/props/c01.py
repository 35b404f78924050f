"""Value conservation and exact delivery."""
from .common import histories, wide

RULE = ('Random histories of 2 wallets with shared multi-signature wallets on a model chain (every network, every kind of '
        'transaction, locks, unconfirmed and foreign spends); distinct = distinct combination of operation, recipients, '
        'source, refund, number of inputs and outcome. Each created transaction is compared output by output with the '
        'request and the model ledger.')
REQUIRED = ['transactions_judged', 'pushes_judged', 'sends_ok', 'swaps_created', 'bots_registered', 'erc20_conversions', 'drains']
ASSUMPTIONS = ['the explorer answers truthfully', 'the model ledger implements the TFChain value rules']
W = {'send': 12, 'cosign': 2, 'swap': 4, 'claim': 4, 'botnew': 3, 'botupd': 3, 'botxfer': 2, 'erc20send': 3, 'erc20reg': 2,
     'drain': 2, 'mint': 1, 'balance': 1}
PARTS = [('histories', 260, 6000, histories(W)), ('wide', 220, 3000, wide(['send', 'send', 'swap', 'drain', 'erc20send']))]
