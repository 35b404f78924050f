"""Checks the reference implementation (mon/ref.py) against transactions recorded from the real network."""
import json
import os
import sys
from . import ref


def verify_inputs(tx, parents):
    """number of verified signatures"""
    n = 0
    for i, (ci, po) in enumerate(zip(ref.coin_inputs(tx), parents)):
        if tx['version'] == 0:
            u = ci['unlocker']
            pk = u['condition']['publickey']
            assert ref.verify(pk, u['fulfillment']['signature'], ref.sighash(tx, ref.extra_index(i))), 'v0 sig'
            n += 1
            continue
        f, c = ci.get('fulfillment'), ref.cond_unwrap(po.get('condition'))
        d = f['data']
        if f['type'] == 1:
            assert ref.cond_address(c) in (ref.NIL, ref.pubkey_address(d['publickey'])), 'owner'
            assert ref.verify(d['publickey'], d['signature'], ref.sighash(tx, ref.extra_index(i))), 'single sig'
            n += 1
        elif f['type'] == 2:
            x = [ref.extra_index(i), ref.extra_pubkey(tx, d['publickey'])]
            if int(d.get('secret') or '0', 16):
                x.append(bytes.fromhex(d['secret']))
            assert ref.verify(d['publickey'], d['signature'], ref.sighash(tx, *x)), 'swap sig'
            n += 1
        elif f['type'] == 3:
            for p in d['pairs']:
                assert ref.verify(p['publickey'], p['signature'], ref.sighash(
                    tx, ref.extra_index(i), ref.extra_pubkey(tx, p['publickey']))), 'multi sig'
                n += 1
    return n


def main():
    g = json.load(open(os.path.join(os.path.dirname(__file__), 'golden.json')))
    ids = sigs = 0
    vs = {}
    for k, o in g.items():
        tx = o['tx']
        for i, cid in enumerate(o['coinoutputids']):
            assert ref.coin_output_id(tx, i) == cid, (k, i)
            ids += 1
        for i, cid in enumerate(o['blockstakeoutputids']):
            assert ref.bs_output_id(tx, i) == cid, (k, i)
            ids += 1
        try:
            sigs += verify_inputs(tx, o['parents'])
        except AssertionError as e:
            raise AssertionError((k, tx['version'], str(e)))
        vs[tx['version']] = vs.get(tx['version'], 0) + 1
        d = tx['data']
        if tx['version'] == 144:
            i = d['identification']
            assert ref.verify(i['publickey'], i['signature'], ref.sighash(tx, b'sender'))
            sigs += 1
        if tx['version'] in (144, 145, 146):
            spent = sum(int(p['value']) for p in o['parents'])
            kept = sum(int(c['value']) for c in ref.coin_outputs(tx))
            assert spent == kept + int(d['txfee']) + ref.bot_fee(tx), (k, 'fees')
        if tx['version'] == 210:
            assert ref.verify(d['pubkey'], d['signature'], ref.sighash(tx, b'registration'))
            sigs += 1
    print('selftest ok: versions', vs, 'ids', ids, 'signatures', sigs)
    return 0


if __name__ == '__main__':
    sys.exit(main())
