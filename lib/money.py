"""Simulated exchange-rate and fee services, and exact arithmetic for them."""
import json
import math
from fractions import Fraction

from lib.net import fault

FIAT = {
    'usd': 2, 'eur': 2, 'gbp': 2, 'jpy': 0, 'cny': 2, 'cad': 2, 'aud': 2, 'nzd': 2, 'rub': 2, 'brl': 2, 'chf': 2,
    'sek': 2, 'dkk': 2, 'isk': 2, 'pln': 2, 'hkd': 2, 'krw': 0, 'sgd': 2, 'thb': 2, 'twd': 2, 'clp': 0,
}  # fmt: skip
NATIVE = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}


def bitpay_sat(rate):
    """Satoshi one unit buys (a fraction), from the price of 1 BTC (a decimal text)."""
    return Fraction(10 ** 8) / Fraction(rate)


def blockchain_sat(rate):
    """Satoshi one unit buys (a fraction), from the value of 1 unit in BTC (a decimal text)."""
    return Fraction(rate) * 10 ** 8


EPS = Fraction(1, 10 ** 25)  # arithmetic with 28 decimal digits


def near(exact, down):
    """What `down` (rounding downwards) gives for the exact value and for the values arithmetic with 28 digits may give."""
    return {down(exact * (1 - EPS)), down(exact), down(exact * (1 + EPS))}


def floor_text(value, places):
    """A non-negative Fraction as plain decimal text, rounded down, without superfluous zeros."""
    n = math.floor(value * 10 ** places)
    s = str(n).rjust(places + 1, '0')
    if places:
        s = (s[:-places] + '.' + s[-places:]).rstrip('0').rstrip('.')
    return s


class Rates:
    """price[cur]: decimal text, price of 1 BTC at bitpay; value[cur]: decimal text, BTC per unit at blockchain.info."""

    def __init__(self):
        self.price, self.value = {}, {}
        self.down = {'bitpay': None, 'blockchain': None}

    def __call__(self, req):
        if req.host == 'bitpay.com' and req.path.lower().startswith('/rates/btc/'):
            if self.down['bitpay']:
                return fault(self.down['bitpay'])
            cur = req.path.rstrip('/').split('/')[-1].upper()
            rate = self.price.get(cur.lower())
            if rate is None:
                return 404, {'error': 'not found'}
            return 200, '{"data": {"code": "%s", "name": "x", "rate": %s}}' % (cur, rate)
        if req.host == 'blockchain.info' and req.path == '/tobtc':
            if self.down['blockchain']:
                return fault(self.down['blockchain'])
            cur = req.query.get('currency', '').lower()
            rate = self.value.get(cur)
            if rate is None or req.query.get('value') != '1':
                return 500, 'Unknown currency'
            return 200, rate
        return None

    def expected(self, cur):
        """Satoshi per unit at the first service that works, or None."""
        if not self.down['bitpay'] and cur in self.price:
            return bitpay_sat(self.price[cur])
        if not self.down['blockchain'] and cur in self.value:
            return blockchain_sat(self.value[cur])
        return None


class Fees:
    def __init__(self):
        self.fast, self.hour, self.down = 20, 10, None

    def __call__(self, req):
        if req.host == 'mempool.space' and req.path == '/api/v1/fees/recommended':
            if self.down:
                return fault(self.down)
            return (
                200,
                {
                    'fastestFee': self.fast,
                    'halfHourFee': (self.fast + self.hour) // 2,
                    'hourFee': self.hour,
                    'economyFee': 1,
                    'minimumFee': 1,
                },
            )
        return None
