"""Generated chain states behind the simulated explorers, described compactly."""
import random

from hypothesis import strategies as st

from lib import gen
from lib.net import NAMES, Chain

# Which explorers support a query on a network.
SUPPORT = {
    ('unspents', 'main'): NAMES,
    ('balance', 'main'): NAMES,
    ('history', 'main'): [n for n in NAMES if n != 'bitcore'],
    ('lookup', 'main'): [n for n in NAMES if n != 'bitcore'],
    ('broadcast', 'main'): NAMES,
}
for (_op, _), _v in list(SUPPORT.items()):
    SUPPORT[(_op, 'test')] = [n for n in _v if n != 'blockchain']

VALUES = [1, 2, 99, 546, 29 * 10 ** 6, 57 * 10 ** 6, 115 * 10 ** 6, 10 ** 8, 2 ** 32, 2 ** 32 - 1, 123456789012345, 1, 100000001]


def state(spec, tag=0):
    """{'n','ntx','mem','seed','tip'} -> what the explorers know about one address."""
    r = random.Random('%s/%s' % (spec['seed'], tag))
    tip = spec['tip']
    n, mem = spec['n'], spec.get('mem', 0)

    def height():
        k = r.randrange(8)
        if k == 0:
            return tip
        if k == 1:
            return max(0, tip - 1)
        if k == 2:
            return r.randrange(0, min(3, tip + 1))
        return r.randint(0, tip)

    utxos, last = [], None
    for i in range(n):
        last = 'u%s/%d' % (tag, i) if last is None or r.randrange(5) else last  # sometimes the same transaction
        txid = gen.derived_txid(spec['seed'], last)
        if r.randrange(20) == 0:
            txid = '00' * r.randrange(1, 4) + txid[8:] + '%02x' % (i % 256)
            txid = txid.ljust(64, '7')[:64]
        value = VALUES[r.randrange(len(VALUES))] if r.randrange(3) == 0 else r.randrange(1, 10 ** r.randrange(3, 14))
        utxos.append({'txid': txid, 'vout': i if r.randrange(2) else i + 2 ** r.randrange(1, 31), 'value': value, 'height': height()})
    for u in utxos:
        if mem and r.randrange(3) == 0:
            u['height'] = None
    seen = set()
    for u in utxos:
        while (u['txid'], u['vout']) in seen:
            u['vout'] += 1
        seen.add((u['txid'], u['vout']))
    ntx = spec.get('ntx', 0)
    txs = [{'txid': gen.derived_txid(spec['seed'], 't%s/%d' % (tag, i)), 'height': None if i < mem else 0} for i in range(ntx + mem)]
    hs = sorted((height() for _ in range(ntx)), reverse=True)
    for t, h in zip(txs[mem:], hs):
        t['height'] = h
    return {'utxos': utxos, 'txs': txs, 'spent': r.choice([0, 0, 12345, 10 ** 9]), 'mempool_spent': r.choice([0, 0, 777])}


@st.composite
def specs(draw, sizes, tx_sizes=(0,), mems=(0,)):
    return {
        'seed': draw(st.integers(0, 2 ** 20)),
        'n': draw(sizes),
        'ntx': draw(tx_sizes) if not isinstance(tx_sizes, tuple) else draw(st.sampled_from(tx_sizes)),
        'mem': draw(st.sampled_from(list(mems))),
        'tip': draw(st.sampled_from([0, 1, 5, 100, 654321, 9000000])),
    }


def chains(net, tip, addresses, raw=None, other=None, other_raw=None):
    o = 'test' if net == 'main' else 'main'
    return {net: Chain(net, tip, addresses, raw), o: Chain(o, tip + 3, other or {}, other_raw)}
