from hypothesis import strategies as st

from lib import gen, money, scen
from lib.clock import fresh
from lib.core import Sub, check, eq
from lib.net import Net
from lib.scen import Wallet

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = (
    'Cases: histories of up to 30 steps: the service changes its fees, fails (refused, timeout, HTTP status) or '
    'recovers, time passes on a virtual clock, the cache time is reconfigured, cached and uncached fees of both speeds '
    'are requested, transactions created without a fee. Non-trivial: at least two cached requests. Oracle: a model of '
    'the two caches over the simulated service, compared after each step, with the requests made.'
)
FAULTS = ['conn', 'timeout', 'ctimeout', 'broken', 'page', 'cut', 'empty', '404', '429', '500', '502', '503']

fees = st.one_of(st.integers(1, 200), st.integers(1, 5000))
step = st.one_of(
    st.tuples(st.just('cached'), st.booleans()),
    st.tuples(st.just('cached'), st.booleans()),
    st.tuples(st.just('cached'), st.booleans()),
    st.tuples(st.just('plain'), st.booleans()),
    st.tuples(st.just('tx'), st.just(True)),
    st.tuples(st.just('set'), fees, fees),
    st.tuples(st.just('set'), fees, fees),
    st.tuples(st.just('down'), st.sampled_from(FAULTS)),
    st.tuples(st.just('up')),
    st.tuples(st.just('wait'), st.sampled_from([0.5, 1, 20, 60, 299, 301, 599, 601, 5000])),
    st.tuples(st.just('wait'), st.sampled_from([0.5, 1, 20, 60, 299, 301, 599, 601, 5000])),
    st.tuples(st.just('cache'), st.sampled_from([0, 1, 60, 300, 600, 3600])),
)
histories = st.fixed_dictionaries(
    {'fast': fees, 'hour': fees, 'down': st.sampled_from([None, None, 'conn', '500']), 'steps': st.lists(step, min_size=2, max_size=30)}
)


def run(c, ctx):
    srv = money.Fees()
    srv.fast, srv.hour, srv.down = c['fast'], c['hour'], c['down']
    net = Net(srv)
    cache, cache_time, n_cached, hits = {}, 600, 0, 0
    with fresh('bit', 'bit.network', 'bit.network.fees', 'bit.network.meta') as (clock, b, n, f, meta), net.active():
        key = b.PrivateKey.from_int(4711)
        script = gen.key_script(4711, 'main', 'p2pkh').hex()

        def make(**kw):
            u = meta.Unspent(10 ** 9, 1, script, '11' * 32, 0)
            if len(c['steps']) % 2:
                return key.sign_transaction(b.PrivateKey.prepare_transaction(key.address, [(key.address, 5000, 'satoshi')], unspents=[u], **kw))
            return key.create_transaction([(key.address, 5000, 'satoshi')], unspents=[u], **kw)

        default = {True: getattr(f, 'DEFAULT_FEE_FAST', 72), False: getattr(f, 'DEFAULT_FEE_HOUR', 62)}
        check(0 < default[False] <= default[True], 'default fees %r', default)
        for s in c['steps']:
            op = s[0]
            if op == 'wait':
                clock.advance(s[1])
            elif op == 'cache':
                b.set_fee_cache_time(s[1])
                cache_time = s[1]
            elif op == 'set':
                srv.fast, srv.hour = s[1], s[2]
            elif op == 'down':
                srv.down = s[1]
            elif op == 'up':
                srv.down = None
            elif op == 'plain':
                if srv.down is None:
                    eq(n.get_fee(fast=s[1]), srv.fast if s[1] else srv.hour, 'get_fee(fast=%s)' % s[1])
            else:
                fast = s[1]
                current = srv.fast if fast else srv.hour
                before = len(net.log)
                if op == 'tx':  # the fee a transaction is made with when none is given
                    raw = make()
                    asked = len(net.log) > before
                    known = {current, default[True]} | ({cache[True][0]} if True in cache else set())
                    got = [rate for rate in sorted(known) if make(fee=rate) == raw]
                    check(got, 'a transaction is made with another fee than any of %r', sorted(known))
                    got = got[0]
                    ctx.label('transaction')
                else:
                    got = n.get_fee_cached(fast) if n_cached % 2 else n.get_fee_cached(fast=fast)
                    asked = len(net.log) > before
                n_cached += 1
                held = cache.get(fast)
                if held is None:
                    want = [default[fast] if srv.down else current]
                    check(asked, 'nothing cached, and the service was not asked')
                    ctx.label('default' if srv.down else 'first fetch')
                else:
                    age = clock.now - held[1]
                    if age < cache_time:
                        want = [held[0]]
                        check(not asked, 'refetched after %s s with a cache time of %s s', age, cache_time)
                        ctx.label('hit')
                    elif age > cache_time:
                        want = [held[0] if srv.down else current]
                        check(asked, 'not refetched after %s s with a cache time of %s s', age, cache_time)
                        ctx.label('expired, service down' if srv.down else 'expired')
                    else:
                        want = [held[0], held[0] if srv.down else current]
                check(got in want, 'fee (fast=%s) is %r, expected %r', fast, got, want)
                if asked and not srv.down:
                    cache[fast] = (current, clock.now)
    ctx.trivial(n_cached < 2)


@st.composite
def tx_cases(draw):
    return {
        'w': draw(st.one_of(scen.single(), scen.contract(max_n=3))),
        'fast': draw(st.integers(1, 300)),
        'hour': draw(st.integers(1, 300)),
        'down': draw(st.sampled_from([None, None, None, 'conn', '503'])),
        'prepare': draw(st.booleans()),
        'dest': draw(gen.destinations(net='main')),
        'dest_t': draw(gen.destinations(net='test')),
        'sat': draw(st.integers(1, 10 ** 7)),
        'n': draw(st.integers(1, 3)),
    }


def used(c, ctx):
    """Without a fee, a transaction is the one made with the recommended fast fee."""
    spec = c['w']
    srv = money.Fees()
    srv.fast, srv.hour, srv.down = c['fast'], c['hour'], c['down']
    net = Net(srv)
    dest = c['dest'] if spec['net'] == 'main' else c['dest_t']
    pays = [(dest['addr'], c['sat'], 'satoshi')]
    utxos = [{'k': 'legacy', 'a': 10 ** 8, 't': gen.derived_txid(1, i), 'n': i} for i in range(c['n'])]
    w = Wallet(spec)
    with fresh('bit', 'bit.network.fees') as (clock, b, f), net.active():
        rate = getattr(f, 'DEFAULT_FEE_FAST', 72) if c['down'] else c['fast']
        old = scen.bit
        scen.bit = b
        try:
            k = w.key()
            cls = w.cls()
        finally:
            scen.bit = old

        def make(**kw):
            if c['prepare']:
                return k.sign_transaction(cls.prepare_transaction(w.addresses['legacy'], pays, unspents=w.unspents(utxos), **kw))
            return k.create_transaction(pays, unspents=w.unspents(utxos), **kw)

        explicit = make(fee=rate)
        eq(len(net.log), 0, 'requests when the fee is given')
        eq(make(), explicit, 'transaction without a fee, against the one with the recommended %d' % rate)
        eq({r.host for r in net.log}, {'mempool.space'}, 'services asked')
    ctx.label(cls.__name__, 'default' if c['down'] else 'recommended')


SUBS = [
    Sub('history', histories, run, 3000, 150000),
    Sub('used', tx_cases(), used, 500, 15000),
]
