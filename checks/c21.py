from hypothesis import strategies as st

from checks.c20 import call
from lib import btc, gen, world
from lib.core import Sub, check, eq
from lib.net import Net, Web

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = (
    'Cases: every explorer that offers history and lookup, on both networks, addresses of all formats, 0..2500 '
    '(enumerated: 12000) confirmed and 0..60 unconfirmed transactions around the page sizes; lookups of ids known to that network, known '
    'to the other network only, or unknown. Non-trivial: a non-empty history, or a lookup. Oracle: the simulated chain '
    'state (exact ids, newest first; exact raw transaction, or None).'
)

tx_sizes = st.one_of(
    st.integers(0, 6),
    st.integers(0, 130),
    st.sampled_from([0, 1, 24, 25, 26, 49, 50, 51, 75, 99, 100, 101, 150, 200]),
)
big = st.sampled_from([999, 1000, 1001, 1999, 2000, 2001, 2500])


@st.composite
def cases(draw, tx_sizes=tx_sizes):
    net = draw(gen.nets)
    who = draw(st.sampled_from(world.SUPPORT[('history', net)]))
    if tx_sizes is big and who in ('blockstream',):
        who = 'smartbit'
    return {
        'net': net,
        'addr': draw(gen.destinations(net=net))['addr'],
        'who': who,
        'spec': draw(world.specs(st.integers(0, 2), tx_sizes, (0, 0, 1, 2, 49, 51, 60) if tx_sizes is not big else (0, 1))),
        'fault': draw(st.sampled_from(['conn', 'timeout', '503'])),
        'page': draw(st.sampled_from([1000, 1, 2, 7])) if tx_sizes is not big else 1000,
        'unknown_404': draw(st.booleans()),
        'noise': draw(st.booleans()),
        # earlier states of the same address
        'before': []
        if tx_sizes is big or draw(st.booleans())
        else [(draw(world.specs(st.integers(0, 2), st.integers(0, 30), (0, 1))), draw(st.sampled_from(world.SUPPORT[('history', net)])))],
    }


def run(c, ctx):
    for spec, who in c.get('before', []):
        one(dict(c, spec=spec, who=who), ctx)
    one(c, ctx)


def one(c, ctx):
    net, addr, who = c['net'], c['addr'], c['who']
    st_ = world.state(c['spec'])
    addresses = {addr: st_} if (st_['txs'] or st_['utxos'] or not c['unknown_404']) else {}
    other = {addr: world.state(dict(c['spec'], n=3, ntx=4), 'other')} if c['noise'] else {}
    ch = world.chains(net, c['spec']['tip'], addresses, other=other)
    opts = {'smartbit': {'page': c['page'] if len(st_['txs']) < 150 else 1000}, 'blockchair': {'unknown_404': c['unknown_404']}}
    faults = {n: c['fault'] for n in world.SUPPORT[('history', net)] if n != who}
    conf = sorted(t['txid'] for t in st_['txs'] if t['height'] is not None)
    unconf = sorted(t['txid'] for t in st_['txs'] if t['height'] is None)
    web = Web(ch, faults, opts)
    with Net(web).active():
        try:
            got = call('history', net)(addr)
        except ConnectionError:
            check(who == 'blockstream' and net == 'main' and len(unconf) >= 50, 'history through %s fails', who)
            ctx.label('cannot be complete: fails')
            return
    check(isinstance(got, list), 'history is %r', type(got))
    order = [t['txid'] for t in st_['txs']]
    eq(got, [t for t in order if t in set(got)], 'order of the history (newest first) through ' + who) if set(got) <= set(order) and len(set(got)) == len(got) else None
    got = sorted(got)
    if net == 'test':
        # unconfirmed transactions are optional here
        check(len(set(got)) == len(got), 'a transaction is listed twice')
        check(set(got) <= set(conf) | set(unconf), 'foreign transactions')
        eq([t for t in got if t in set(conf)], conf, 'confirmed history of %s through %s' % (addr, who))
    else:
        check(not (who == 'blockstream' and len(unconf) > 50), 'incomplete')
        eq(got, sorted(conf + unconf), 'history of %s through %s' % (addr, who))
    ctx.label('%s %s' % (who, net), 'unconfirmed' if unconf else 'all confirmed')
    ctx.trivial(not got)


@st.composite
def lookup_cases(draw):
    net = draw(gen.nets)
    return {
        'net': net,
        'who': draw(st.sampled_from(world.SUPPORT[('lookup', net)])),
        'raw': draw(st.binary(min_size=1, max_size=80)),
        'txid': draw(gen.txids),
        'where': draw(st.sampled_from(['here', 'here', 'other', 'both', 'nowhere'])),
        'before': draw(st.lists(st.sampled_from(['here', 'other', 'both', 'nowhere']), max_size=2)),
        'fault': draw(st.sampled_from(['conn', 'timeout', '503'])),
        'unknown_404': draw(st.booleans()),
    }


def lookup(c, ctx):
    for where in c['before']:  # what was known of the transaction earlier: no more than now
        if where in ('here', 'both') and c['where'] not in ('here', 'both'):
            continue
        look(dict(c, where=where), ctx)
    look(c, ctx)


def look(c, ctx):
    net, who, txid = c['net'], c['who'], c['txid']
    raw, other = {'f' * 64: '00'}, {'f' * 64: '11'}
    if c['where'] in ('here', 'both'):
        raw[txid] = c['raw'].hex()
    if c['where'] in ('other', 'both'):
        other[txid] = c['raw'].hex() + 'ee'
    ch = world.chains(net, 100, {}, raw, {}, other)
    faults = {n: c['fault'] for n in world.SUPPORT[('lookup', net)] if n != who}
    web = Web(ch, faults, {'blockchair': {'unknown_404': c['unknown_404']}})
    with Net(web).active():
        got = call('lookup', net)(txid)
    eq(got, raw.get(txid), 'lookup of %s (%s) through %s' % (txid, c['where'], who))
    ctx.label('%s %s %s' % (who, net, c['where']))


def huge(tier):
    for net, kind in (('main', 'p2pkh'), ('test', 'p2sh')):
        for who in world.SUPPORT[('history', net)]:
            for n in (330, 1280, 5300, 9000 if who == 'blockstream' else 12000):
                yield {
                    'net': net, 'addr': gen.key_address(9, net, kind), 'who': who,
                    'spec': {'seed': n, 'n': 0, 'ntx': n, 'mem': 3 if n < 5300 else 0, 'tip': 654321},
                    'fault': '503', 'page': 1000, 'unknown_404': False, 'noise': False,
                }


SUBS = [
    Sub('history', cases(), run, 1200, 40000),
    Sub('large', cases(big), run, 64, 1200),
    Sub('huge', None, run, 0, 0, enumerate_=huge),
    Sub('lookup', lookup_cases(), lookup, 1200, 40000),
]
