from hypothesis import strategies as st

from bit.network import NetworkAPI
from lib import gen, world
from lib.core import Sub, check, eq
from lib.net import Net, Web

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = (
    'Cases: every explorer on both networks (reached by making the others fail), addresses of all formats, 0..2500 '
    '(enumerated: 12000) unspents around the page sizes with generated amounts, heights (including tip, genesis, unconfirmed), ids and '
    'indices. Non-trivial: at least one unspent. Oracle: the simulated chain state, compared as a multiset of exact '
    'records; result sets an explorer cannot give completely must fail.'
)
CALLS = {
    ('unspents', 'main'): 'get_unspent',
    ('unspents', 'test'): 'get_unspent_testnet',
    ('balance', 'main'): 'get_balance',
    ('balance', 'test'): 'get_balance_testnet',
    ('history', 'main'): 'get_transactions',
    ('history', 'test'): 'get_transactions_testnet',
    ('lookup', 'main'): 'get_transaction_by_id',
    ('lookup', 'test'): 'get_transaction_by_id_testnet',
    ('broadcast', 'main'): 'broadcast_tx',
    ('broadcast', 'test'): 'broadcast_tx_testnet',
}


def call(op, net):
    return getattr(NetworkAPI, CALLS[(op, net)])


def record(u):
    for name in ('amount', 'confirmations', 'txindex'):
        v = getattr(u, name)
        check(isinstance(v, int) and not isinstance(v, bool), '%s is %r', name, v)
    return (u.amount, u.confirmations, u.script, u.txid, u.txindex)


sizes = st.one_of(
    st.integers(0, 6),
    st.integers(0, 6),
    st.integers(0, 130),
    st.sampled_from([0, 24, 25, 26, 49, 50, 51, 99, 100, 101, 199, 200, 201, 300]),
)
big = st.sampled_from([998, 999, 1000, 1001, 1999, 2000, 2001, 2500])


@st.composite
def cases(draw, sizes=sizes):
    net = draw(gen.nets)
    d = draw(gen.destinations(net=net))
    return {
        'net': net,
        'addr': d['addr'],
        'who': draw(st.sampled_from(world.SUPPORT[('unspents', net)])),
        'spec': draw(world.specs(sizes, mems=(0, 1, 1))),
        'fault': draw(st.sampled_from(['conn', 'timeout', '503'])),
        'page': draw(st.sampled_from([1000, 1000, 1, 2, 3, 10])) if sizes is not big else 1000,
        'too_many': draw(st.integers(0, 15)) == 0,
        'empty_200': draw(st.booleans()),
        'unknown_404': draw(st.booleans()),
        'noise': draw(st.booleans()),
        # earlier states of the same address
        'before': []
        if sizes is big or draw(st.booleans())
        else [(draw(world.specs(st.integers(0, 6), mems=(0, 1))), draw(st.sampled_from(world.SUPPORT[('unspents', net)])))],
    }


def run(c, ctx):
    for spec, who in c.get('before', []):
        one(dict(c, spec=spec, who=who), ctx)
    one(c, ctx)


def one(c, ctx):
    net, addr, who = c['net'], c['addr'], c['who']
    st_ = world.state(c['spec'])
    page = c['page'] if len(st_['utxos']) <= 100 else 1000
    addresses = {addr: st_} if (st_['utxos'] or not c['unknown_404']) else {}
    other = {addr: world.state(dict(c['spec'], n=3), 'other')} if c['noise'] else {}
    other_addr = gen.key_address(7, net, 'p2pkh')
    if c['noise'] and other_addr != addr:
        addresses[other_addr] = world.state(dict(c['spec'], n=2), 'o2')
    ch = world.chains(net, c['spec']['tip'], addresses, other=other)
    opts = {
        'smartbit': {'page': page},
        'blockstream': {'too_many': c['too_many']},
        'blockchain': {'empty_200': c['empty_200']},
        'blockchair': {'unknown_404': c['unknown_404']},
    }
    want = ch[net].expected(addr)
    n = len(want)
    faults = {name: c['fault'] for name in world.SUPPORT[('unspents', net)] if name != who}
    incomplete = (who == 'blockstream' and c['too_many']) or (who == 'blockchain' and n >= 1000)
    web = Web(ch, faults, opts)
    with Net(web).active():
        try:
            got = call('unspents', net)(addr)
        except ConnectionError:
            check(incomplete, 'unspents through %s fail', who)
            ctx.label('cannot be complete: fails')
            got = None
    if got is not None:
        check(isinstance(got, list), 'unspents are %r', type(got))
        eq(sorted(record(u) for u in got), want, 'unspents of %s through %s' % (addr, who))
        check(not (who == 'blockchain' and n > 1000), 'incomplete')
        ctx.label('complete')
    web = Web(ch, faults, opts)
    with Net(web).active():
        try:
            bal = call('balance', net)(addr)
        except ConnectionError:
            # blockchair answers 404 for an address it has never seen
            check(who == 'blockchair' and addr not in addresses, 'balance through %s fails', who)
            bal = None
    if bal is not None:
        check(isinstance(bal, int) and not isinstance(bal, bool), 'balance is %r', bal)
        eq(bal, sum(w[0] for w in want), 'balance of %s through %s' % (addr, who))
    ctx.label('%s %s' % (who, net), 'pages' if n > 100 or (who == 'smartbit' and n > page) else 'one page')
    ctx.trivial(n == 0)


def huge(tier):
    for net, kind in (('main', 'p2pkh'), ('test', 'p2sh')):
        for who in world.SUPPORT[('unspents', net)]:
            for n in (1050, 5300, 12000):
                yield {
                    'net': net, 'addr': gen.key_address(9, net, kind), 'who': who,
                    'spec': {'seed': n, 'n': n, 'ntx': 0, 'mem': 1, 'tip': 654321},
                    'fault': '503', 'page': 1000, 'too_many': False, 'empty_200': False, 'unknown_404': False, 'noise': False,
                }


SUBS = [
    Sub('explorer', cases(), run, 1600, 50000),
    Sub('large', cases(big), run, 80, 1600),
    Sub('huge', None, run, 0, 0, enumerate_=huge),
]
