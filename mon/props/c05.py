"""Every signature is one the network accepts."""
from .common import histories, wide

RULE = ('Random histories of wallet operations that sign (single, multi-signature, swaps, minting, 3Bot, ERC20; up to 99 inputs; '
        'random co-signing orders); each signature is verified with ed25519 over an independently computed protocol hash. '
        'distinct = distinct combination of operation, inputs, signer set, outcome.')
REQUIRED = ['manual_completed', 'node_sig_single', 'node_sig_multi', 'node_sig_swap', 'node_sig_bot', 'node_sig_erc20', 'partial_judged', 'mint_judged']
ASSUMPTIONS = ['the reference hashes follow the protocol (validated against 91 recorded network signatures)']
W = {'send': 10, 'cosign': 6, 'manual': 6, 'swap': 2, 'claim': 5, 'botnew': 3, 'botupd': 3, 'botxfer': 3, 'erc20send': 2, 'erc20reg': 3,
     'drain': 2, 'mint': 4}
PARTS = [('histories', 260, 6000, histories(W, parties=None)), ('wide', 40, 800, wide(['send', 'cosign', 'drain', 'manual', 'manual'], shared=.5))]
