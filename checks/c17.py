import decimal
import math
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

import bit
from lib import btc, gen, money, scen
from lib.clock import fresh
from lib.core import Sub, check, eq
from lib.net import Net
from lib.scen import View, Wallet

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = (
    'Cases: non-negative amounts of at most 28 significant digits as int, text (plain, exponent, padded), Decimal or '
    'float in every native unit; satoshi numbers up to 21 million BTC; every fiat currency with generated rates '
    '(also below one satoshi per unit) from either simulated service; payments denominated in fiat. Non-trivial: a fraction '
    'is dropped, or the amount is not zero. In half of the cases the caller has set a decimal context of their own '
    '(precision, rounding, traps). Oracle: exact rational arithmetic.'
)
MAX = 21 * 10 ** 14
NATIVE = money.NATIVE


@st.composite
def decimal_texts(draw, digits=28):
    """Plain non-negative decimal text of at most `digits` significant digits."""
    n = draw(st.integers(1, digits))
    m = draw(st.one_of(st.integers(0, 10 ** n - 1), st.integers(0, 10 ** 4), st.sampled_from([10 ** n - 1, 10 ** (n - 1)])))
    e = draw(st.one_of(st.integers(-12, 3), st.integers(-30, 8), st.sampled_from([0, -8, -9, -2, -5])))
    s = str(m)
    form = draw(st.integers(0, 4))
    if form == 0:
        return '%sE%d' % (s, e)
    if form == 1 and e:
        return '%se%+d' % (s, e)
    if e >= 0:
        s += '0' * e
        return s + ('.0' * (form == 2)) + ('.' * (form == 3))
    s = s.rjust(-e + 1, '0')
    s = s[:e] + '.' + s[e:]
    if form == 2:
        s += '00'
    elif form == 3 and s.startswith('0.'):
        s = s[1:]
    elif form == 4:
        s = '00' + s
    return s


floats = st.one_of(
    st.floats(0, 21e6, allow_nan=False),
    st.integers(0, MAX).map(lambda n: n / 1e8),
    st.integers(0, 10 ** 6).map(lambda n: n / 1000),
    st.integers(0, 10 ** 9).map(lambda n: n / 1e13),
    st.floats(0, 1e-4, allow_nan=False),
    st.sampled_from([0.1, 0.2, 0.3, 0.7, 1.1, 4.35, 1e-8, 1.5e-8, 0.29, 0.57, 1.15, 2.675, 1e16, 5e-324]),
)


ROUNDINGS = [r for r in dir(decimal) if r.startswith('ROUND_')]
TRAPS = ['Inexact', 'Rounded', 'FloatOperation']


@st.composite
def contexts(draw):
    """The decimal context of the caller: None is Python's default."""
    if draw(st.booleans()):
        return None
    return {
        'prec': draw(st.one_of(st.integers(1, 9), st.integers(1, 60), st.just(28))),
        'rounding': draw(st.sampled_from(ROUNDINGS)),
        'traps': draw(st.lists(st.sampled_from(TRAPS), max_size=2, unique=True)),
    }


def calling(c, ctx):
    """Call a function in the context of the case; only the call itself runs in it."""
    d = c['ctx']
    if d is None:
        return lambda fn, *args, **kwargs: fn(*args, **kwargs)
    ctx.label('own decimal context')
    own = decimal.Context(
        prec=d['prec'], rounding=getattr(decimal, d['rounding']), traps=[getattr(decimal, t) for t in d['traps']]
    )

    def call(fn, *args, **kwargs):
        with decimal.localcontext(own):
            return fn(*args, **kwargs)

    return call


@st.composite
def native_cases(draw):
    kind = draw(st.sampled_from(['int', 'text', 'text', 'decimal', 'float', 'float']))
    a = draw({'int': st.one_of(st.integers(0, MAX), st.integers(0, 10 ** 19)), 'text': decimal_texts(), 'decimal': decimal_texts(), 'float': floats}[kind])
    return {'kind': kind, 'a': a, 'unit': draw(st.sampled_from(sorted(NATIVE))), 'ctx': draw(contexts())}


def as_amount(c):
    """(value to pass, its exact value)."""
    a = c['a']
    if c['kind'] == 'float':
        return a, Fraction(repr(a))
    if c['kind'] == 'int':
        return a, Fraction(a)
    if c['kind'] == 'decimal':
        return Decimal(a), Fraction(Decimal(a))
    return a, Fraction(Decimal(a))


def native(c, ctx):
    from bit.network import currency_to_satoshi, currency_to_satoshi_cached

    value, exact = as_amount(c)
    exact *= 10 ** NATIVE[c['unit']]
    call = calling(c, ctx)
    want = math.floor(exact)
    net = Net(None)
    with net.active():
        for fn in (currency_to_satoshi, currency_to_satoshi_cached):
            got = call(fn, value, c['unit'])
            check(isinstance(got, int) and not isinstance(got, bool), '%s returned %r', fn.__name__, got)
            eq(got, want, '%s(%r, %r)' % (fn.__name__, value, c['unit']))
    eq(len(net.log), 0, 'requests for a native unit')
    ctx.label(c['kind'], c['unit'])
    ctx.trivial(exact == 0)
    if want != exact:
        ctx.label('fraction dropped')


def back(c, ctx):
    from bit.network import currency_to_satoshi, currency_to_satoshi_cached, satoshi_to_currency, satoshi_to_currency_cached

    n, unit = c['n'], c['unit']
    call = calling(c, ctx)
    want = money.floor_text(Fraction(n, 10 ** NATIVE[unit]), NATIVE[unit])
    net = Net(None)
    with net.active():
        for fn in (satoshi_to_currency, satoshi_to_currency_cached):
            text = call(fn, n, unit)
            eq(text, want, '%s(%d, %r)' % (fn.__name__, n, unit))
            eq(call(currency_to_satoshi, text, unit), n, 'and back')
            eq(call(currency_to_satoshi_cached, text, unit), n, 'and back, cached')
    eq(len(net.log), 0, 'requests for a native unit')
    ctx.trivial(n == 0)
    ctx.label(unit)


sats = st.one_of(
    st.integers(0, MAX),
    st.integers(0, 10 ** 6),
    st.integers(0, 15).map(lambda e: 10 ** e),
    st.tuples(st.integers(0, 2100), st.integers(0, 12)).map(lambda t: min(MAX, t[0] * 10 ** t[1])),
    st.sampled_from([MAX, MAX - 1, 0, 1, 99, 100, 101, 99999, 10 ** 8 - 1, 10 ** 8 + 1]),
)


@st.composite
def prices(draw):
    """Price of 1 BTC as JSON number text; a unit may be worth less than a satoshi."""
    return draw(
        st.one_of(
            st.integers(1, 10 ** 8).map(str),
            st.integers(1, 10 ** 9).map(lambda n: '%d.%02d' % (n // 100, n % 100) if n >= 100 else '1'),
            st.floats(0.01, 10 ** 7).map(repr),
            st.integers(10 ** 7, 10 ** 12).map(str),
            st.sampled_from(['3', '7', '100000000', '33333333.33', '99999999.99', '0.5', '67012.34', '1.0', '142857142', '15123456.7', '200000001']),
        )
    )


@st.composite
def values(draw):
    """Value of one unit in BTC, as text."""
    n = draw(st.one_of(st.integers(1, 10 ** 5), st.integers(1, 10 ** 10)))
    extra = draw(st.sampled_from(['', '', '9', '999', '49', '5', '0000001']))
    return money.floor_text(Fraction(n, 10 ** 8), 8).replace('.', '.') if not extra else '%d.%08d%s' % (n // 10 ** 8, n % 10 ** 8, extra)


@st.composite
def fiat_cases(draw):
    kind = draw(st.sampled_from(['int', 'text', 'text', 'decimal', 'float']))
    a = draw({'int': st.integers(0, 10 ** 9), 'text': decimal_texts(15), 'decimal': decimal_texts(15), 'float': floats}[kind])
    return {
        'cur': draw(st.sampled_from(sorted(money.FIAT))),
        'price': draw(prices()),
        'value': draw(values()),
        'down': draw(st.sampled_from([None, None, 'conn', '503'])),
        'kind': kind,
        'a': a,
        'n': draw(sats),
        'ctx': draw(contexts()),
    }


def setup(rates, c):
    for cur in money.FIAT:
        rates.price[cur], rates.value[cur] = '12345.67', '0.00004321'
    rates.price[c['cur']], rates.value[c['cur']] = c['price'], c['value']
    rates.down['bitpay'] = c['down']


def fiat(c, ctx):
    cur = c['cur']
    rates = money.Rates()
    setup(rates, c)
    sat = rates.expected(cur)
    value, exact = as_amount(c)
    want = money.near(exact * sat, math.floor)
    places = money.FIAT[cur]
    text = money.near(c['n'] / sat, lambda x: money.floor_text(x, places))
    if cur == 'isk':  # officially without decimals by now
        text |= money.near(c['n'] / sat, lambda x: money.floor_text(x, 0))
    net = Net(rates)
    call = calling(c, ctx)
    with fresh('bit.network') as (clock, n), net.active():
        for fn in (n.currency_to_satoshi, n.currency_to_satoshi_cached):
            got = call(fn, value, cur)
            check(isinstance(got, int) and not isinstance(got, bool), '%s returned %r', fn.__name__, got)
            check(got in want, '%s(%r, %r) at %.10f satoshi gives %r, expected %r', fn.__name__, value, cur, sat, got, want)
        for fn in (n.satoshi_to_currency, n.satoshi_to_currency_cached):
            got = call(fn, c['n'], cur)
            check(got in text, '%s(%d, %r) at %.10f satoshi gives %r, expected %r', fn.__name__, c['n'], cur, sat, got, text)
    ctx.label(c['kind'], 'bitpay' if not c['down'] else 'blockchain', cur)
    if sat < 1:
        ctx.label('less than a satoshi per unit')
    ctx.trivial(exact == 0 and c['n'] == 0)


@st.composite
def pay_cases(draw):
    c = draw(fiat_cases())
    c['w'] = draw(scen.single())
    c['dest'] = draw(gen.destinations(net=c['w']['net']))
    c['u'] = draw(st.sampled_from(['up', 'low']))
    return c


def payment(c, ctx):
    """A payment in fiat is worth the amount times the rate; the balance in a currency is rounded down."""
    rates = money.Rates()
    setup(rates, c)
    cur = c['cur']
    sat = rates.expected(cur)
    value, exact = as_amount(c)
    wants = money.near(exact * sat, math.floor)
    want = max(wants)
    if min(wants) == 0 or want > MAX // 2:
        ctx.trivial()
        return
    w = Wallet(c['w'])
    utxos = [{'k': 'legacy', 'a': want + 10 ** 6, 't': 'ab' * 32, 'n': 0}]
    net = Net(rates)
    with fresh('bit', 'bit.network.meta') as (clock, b, meta), net.active():
        key = gen.make_key(b, c['w']['secret'], c['w']['net'], c['w']['compressed'])
        us = [meta.Unspent(u.amount, 1, u.script, u.txid, u.txindex, w.types['legacy']) for u in w.unspents(utxos)]
        raw = calling(c, ctx)(key.create_transaction, [(c['dest']['addr'], value, cur)], fee=1000, absolute_fee=True, unspents=us)
    v = View(raw, w.prevouts(utxos))
    eq(v.tx.vout[0]['script'], c['dest']['script'], 'destination')
    check(v.tx.vout[0]['amount'] in wants, 'payment of %r %s: %d satoshi, expected %r', value, cur, v.tx.vout[0]['amount'], wants)
    eq(v.fee, 1000, 'fee')
    ctx.label(cur)


SUBS = [
    Sub('native', native_cases(), native, 6000, 300000),
    Sub('back', st.fixed_dictionaries({'n': sats, 'unit': st.sampled_from(sorted(NATIVE)), 'ctx': contexts()}), back, 4000, 300000),
    Sub('fiat', fiat_cases(), fiat, 1600, 60000),
    Sub('payment', pay_cases(), payment, 600, 20000),
]
