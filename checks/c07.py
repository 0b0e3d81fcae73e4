import random

from hypothesis import strategies as st

from lib import btc, gen, scen
from lib.core import Sub, check, eq
from lib.scen import View, Wallet, offline

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = (
    'Cases: a key (network, compression, secret incl. boundary values), 1..6 of its outputs (legacy, nested segwit or '
    'mixed; sometimes up to 260; in one generator several hundred tiny variations of one outpoint to get short and '
    'long signatures), payments, message, sequences, fee and selection mode. Non-trivial: a transaction was created '
    'and every input verified. Oracle: independent signature hashes, ECDSA, and script interpreter with consensus and '
    'standardness rules.'
)


@st.composite
def cases(draw, many=()):
    w = draw(scen.single())
    kinds = ('legacy', 'segwit') if w['compressed'] else ('legacy',)
    utxos = draw(scen.coins(max_size=6, kinds=kinds, seqs=True, many=many))
    total = sum(u['a'] for u in utxos)
    c = {
        'w': w,
        'utxos': utxos,
        'pays': draw(scen.payments(w['net'], total // draw(st.sampled_from([2, 2, 10, 100])), max_size=4)),
        'more_out': draw(st.sampled_from([0] * 12 + [1, 248, 252, 253, 260])) if many or draw(st.integers(0, 20)) == 0 else 0,
        'fee': draw(st.one_of(st.integers(1, 30), st.integers(1, 500))),
        'abs': draw(st.booleans()),
        'combine': draw(st.booleans()) if len(utxos) < 12 else True,
        'rbf': draw(st.booleans()),
        'msg': draw(scen.messages),
        'seed': draw(st.integers(0, 1000)),
        'send': draw(scen.routes),
        'leftover': draw(st.one_of(st.none(), gen.destinations(net=w['net']).map(lambda d: d['addr']))),
    }
    return c


def create(c, key, unspents):
    random.seed(c['seed'])
    outs = scen.pay_args(c['pays'])
    for i in range(c['more_out']):
        outs.append((key.address, 600 + i, 'satoshi'))
    return offline(
        lambda: scen.maker(key, c.get('send'))(
            outs,
            **scen.sparse(dict(
                fee=c['fee'],
                absolute_fee=c['abs'],
                leftover=c['leftover'],
                combine=c['combine'],
                message=c['msg'],
                unspents=unspents,
                replace_by_fee=c['rbf'],
            ), c['seed']),
        )
    )


def run(c, ctx):
    from bit.exceptions import InsufficientFunds

    w = Wallet(c['w'])
    key = w.key()
    try:
        raw = create(c, key, w.unspents(c['utxos']))
    except InsufficientFunds:
        ctx.trivial()
        ctx.label('insufficient')
        return
    v = View(raw, w.prevouts(c['utxos']))
    check(v.fee >= 0, 'outputs exceed inputs')
    if not v.tx.vout:
        ctx.label('no outputs')
    v.verify()
    kinds = {p[2] for p in v.prev}
    eq(v.tx.segwit, 'segwit' in kinds, 'segwit serialization')
    ctx.label('+'.join(sorted(kinds)) + ('' if c['w']['compressed'] else ' uncompressed'))
    ctx.label(c['w']['net'])
    if len(v.tx.vin) > 252:
        ctx.label('>252 inputs')
    if len(v.tx.vout) > 252:
        ctx.label('>252 outputs')
    if any(p[3] < 0xFFFFFFFD for p in v.prev):
        ctx.label('custom sequence')


def grind(c, ctx):
    """Many signatures over slightly different transactions: DER lengths 70..72 and shorter occur."""
    w = Wallet(c['w'])
    key = w.key()
    lens = set()
    for j in range(c['n']):
        utxos = [dict(c['utxo'], n=j), dict(c['utxo'], n=j, t=gen.derived_txid(j, 1), k='legacy')]
        raw = offline(
            lambda: key.create_transaction([], fee=1000, absolute_fee=True, unspents=w.unspents(utxos))
        )
        v = View(raw, w.prevouts(utxos))
        v.verify()
        for i, p in zip(v.tx.vin, v.prev):
            lens.add(len(i['witness'][0]) if p[2] == 'segwit' else i['script'][0])
    for n in lens:
        ctx.label('signature length %d' % n)


SUBS = [
    Sub('tx', cases(), run, 2400, 90000),
    Sub('many', cases(many=(1, 30, 100, 251, 252, 253, 254, 256, 260)), run, 48, 1500),
    Sub(
        'grind',
        st.fixed_dictionaries(
            {
                'w': scen.single(),
                'utxo': scen.coins(min_size=1, max_size=1).map(lambda l: l[0]).filter(lambda u: u['a'] > 3000),
                'n': st.just(60),
            }
        ),
        grind,
        40,
        1500,
    ),
]
