import math
from fractions import Fraction

from hypothesis import strategies as st

from checks.c17 import prices, values
from lib import btc, gen, money
from lib.clock import fresh
from lib.core import Sub, check, eq
from lib.net import Net

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = (
    'Cases: histories of up to 30 steps over up to 4 currencies: rates change, either service fails (refused, timeout, '
    'HTTP status) or recovers, time passes on a virtual clock, the cache time is reconfigured, cached and uncached '
    'conversions both ways, balances, payments in transactions. Non-trivial: at least two cached '
    'conversions of one currency. Oracle: a model of the cache (per currency: rate, time fetched) over the simulated services, compared after each step, with the requests made.'
)
FAULTS = ['conn', 'timeout', 'ctimeout', 'broken', 'page', 'cut', 'empty', '404', '429', '500', '502', '503']
CURS = sorted(money.FIAT)
FUNDS = 21 * 10 ** 14

step = st.one_of(
    st.tuples(st.just('cached'), st.integers(0, 3), st.integers(0, 10 ** 6)),
    st.tuples(st.just('cached'), st.integers(0, 3), st.integers(0, 10 ** 6)),
    st.tuples(st.just('text'), st.integers(0, 3), st.integers(0, 10 ** 12)),
    st.tuples(st.just('pay'), st.integers(0, 3), st.integers(0, 10 ** 6)),
    st.tuples(st.just('pay'), st.integers(0, 3), st.sampled_from([1, 5, 20])),
    st.tuples(st.just('balance'), st.integers(0, 3), st.integers(0, 10 ** 12)),
    st.tuples(st.just('plain'), st.integers(0, 3), st.integers(0, 10 ** 6)),
    st.tuples(st.just('plaintext'), st.integers(0, 3), st.integers(0, 10 ** 12)),
    st.tuples(st.just('native'), st.sampled_from(sorted(money.NATIVE)), st.integers(0, 10 ** 6)),
    st.tuples(st.just('rate'), st.integers(0, 3), prices(), values()),
    st.tuples(st.just('rate'), st.integers(0, 3), prices(), values()),
    st.tuples(st.just('down'), st.sampled_from(['bitpay', 'blockchain']), st.sampled_from(FAULTS)),
    st.tuples(st.just('up'), st.sampled_from(['bitpay', 'blockchain'])),
    st.tuples(st.just('wait'), st.sampled_from([0.5, 1, 10, 29, 31, 45, 59, 61, 100, 600, 4000])),
    st.tuples(st.just('wait'), st.sampled_from([0.5, 1, 10, 29, 31, 45, 59, 61, 100, 600, 4000])),
    st.tuples(st.just('cache'), st.sampled_from([0, 1, 30, 60, 3600])),
)


@st.composite
def histories(draw):
    curs = draw(st.lists(st.sampled_from(CURS), min_size=1, max_size=4, unique=True))
    return {
        'curs': curs,
        'start': [[draw(prices()), draw(values())] for _ in curs],
        'steps': draw(st.lists(step, min_size=2, max_size=30)),
    }


def run(c, ctx):
    curs = c['curs']
    rates = money.Rates()
    for cur, (p, v) in zip(curs, c['start']):
        rates.price[cur], rates.value[cur] = p, v
    net = Net(rates)
    cache, cache_time, hits, fetches = {}, 60, 0, 0
    used = {}
    with fresh('bit', 'bit.network', 'bit.network.meta', 'bit.exceptions') as (clock, b, n, meta, exc), net.active():
        key = (b.PrivateKey if len(c['steps']) % 2 else b.PrivateKeyTestnet).from_int(4711)
        script = gen.key_script(4711, 'main', 'p2pkh').hex()

        def pay(amount, cur):
            """What a transaction pays for that amount."""
            args = dict(fee=1000, absolute_fee=True, unspents=[meta.Unspent(FUNDS, 1, script, '11' * 32, 0)])
            try:
                if amount % 2:
                    data = type(key).prepare_transaction(key.address, [(key.address, amount, cur)], **args)
                    asked = len(net.log)
                    try:
                        raw = key.sign_transaction(data)
                    except (ValueError, ConnectionError):
                        del net.log[asked:]
                        return None
                else:
                    raw = key.create_transaction([(key.address, amount, cur)], **args)
            except (ValueError, exc.InsufficientFunds):
                return None  # nothing, or more than there is
            return btc.parse_tx(bytes.fromhex(raw)).vout[0]['amount']

        def balance(amount, cur):
            key.balance = amount
            return key.balance_as(cur)

        for cur in curs + sorted(money.NATIVE):
            check(cur in b.SUPPORTED_CURRENCIES, 'the documented currency %s is not among the supported ones', cur)
        for s in c['steps']:
            op = s[0]
            if op == 'wait':
                clock.advance(s[1])
                continue
            if op == 'cache':
                b.set_rate_cache_time(s[1])
                cache_time = s[1]
                continue
            if op == 'down':
                rates.down[s[1]] = s[2]
                continue
            if op == 'up':
                rates.down[s[1]] = None
                continue
            before = len(net.log)
            if op == 'native':
                want = s[2] * 10 ** money.NATIVE[s[1]]
                eq(n.currency_to_satoshi(s[2], s[1]), want, 'native')
                eq(n.currency_to_satoshi_cached(s[2], s[1]), want, 'native, cached')
                eq(len(net.log), before, 'requests for a native unit')
                continue
            cur = curs[s[1] % len(curs)]
            if op == 'rate':
                rates.price[cur], rates.value[cur] = s[2], s[3]
                continue
            fresh_sat = rates.expected(cur)
            allowed, may, must = [fresh_sat], True, True
            caching = op in ('cached', 'text', 'pay', 'balance')
            if caching and cur in cache:
                sat, at = cache[cur]
                age = clock.now - at
                if age < cache_time:
                    allowed, may, must = [sat], False, False
                elif age == cache_time:
                    allowed, may, must = [sat, fresh_sat], True, False
            fn, arg = {
                'cached': (n.currency_to_satoshi_cached, s[2]),
                'plain': (n.currency_to_satoshi, s[2]),
                'text': (n.satoshi_to_currency_cached, s[2]),
                'pay': (pay, s[2]),
                'balance': (balance, s[2]),
                'plaintext': (n.satoshi_to_currency, s[2]),
            }[op]
            try:
                got = fn(arg, cur)
            except ConnectionError:
                check(None in allowed, '%s of %s fails although a service works or the cached rate is current', op, cur)
                ctx.label('all services failed')
                continue
            asked = len(net.log) > before

            def value(sat):
                if sat is None:
                    return set()
                if op in ('cached', 'plain', 'pay'):
                    return money.near(arg * sat, math.floor)
                return money.near(arg / sat, lambda x: money.floor_text(x, money.FIAT[cur]))

            wants = set().union(*(value(x) for x in allowed))
            if cur == 'isk' and op in ('text', 'plaintext', 'balance'):
                wants = {w.split('.')[0] for w in wants}
                got = got.split('.')[0]
            if op == 'pay':
                ctx.label('payment')
            check(
                got in wants or got is None and (min(wants) <= 0 or max(wants) > FUNDS - 1000),
                '%s(%r, %r) gives %r; with the rate in force %r (satoshi per unit %r)', op, arg, cur, got, wants, [x and float(x) for x in allowed],
            )
            if caching:
                used[cur] = used.get(cur, 0) + 1
                check(may or not asked, 'refetched before the cached rate expired')
                check(asked or not must, 'not refetched although there is no current rate')
                if asked:
                    cache[cur] = (fresh_sat, clock.now)
                    fetches += 1
                else:
                    hits += 1
                if rates.down['bitpay'] and asked:
                    ctx.label('second service used')
    ctx.trivial(max(used.values(), default=0) < 2)
    if hits:
        ctx.label('cache hit')
    if fetches > len(cache):
        ctx.label('refetched')


def each(tier):
    """Every currency, from each service."""
    out = []
    for cur in CURS:
        for down in ([], [['down', 'bitpay', 'conn']], [['down', 'bitpay', 'timeout'], ['down', 'blockchain', '500']]):
            out.append(
                {
                    'curs': [cur, 'usd' if cur != 'usd' else 'eur'],
                    'start': [['12345.5', '0.00007'], ['23456.75', '0.00004']],
                    'steps': down
                    + [['plain', 0, 100], ['cached', 0, 7], ['cached', 1, 7], ['rate', 0, '54321', '0.00009']]
                    + [['wait', 59], ['cached', 0, 9], ['wait', 2], ['up', 'bitpay'], ['cached', 0, 11], ['text', 0, 10 ** 9]]
                    + [['plaintext', 0, 10 ** 9], ['pay', 0, 0], ['pay', 0, 3], ['pay', 1, 8], ['rate', 0, '999999999999', '0.000000000001']]
                    + [['balance', 0, 10 ** 9], ['wait', 61], ['pay', 0, 1], ['pay', 0, 2], ['pay', 0, 3]],
                }
            )
    return out


SUBS = [Sub('history', histories(), run, 1600, 60000, enumerate_=each)]
