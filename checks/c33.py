import base64
import contextlib
import copy
import io
import logging
import random
import warnings

from hypothesis import strategies as st

import bit
from bit.format import wif_checksum_check, wif_to_bytes
from bit.wallet import wif_to_key
from lib import btc, gen, scen, world
from lib.core import Sub, Violation, check
from lib.net import NAMES, Net, Web
from lib.scen import Wallet

PROPERTY = 'C33'
LEVEL = 'exploration'
RULE = (
    'Cases: a key or m-of-n contract (secrets drawn uniformly), simulated explorers, some failing, and histories of 2..8 operations: '
    'showing, refreshing, creating, preparing, signing, sending, broadcasting with rejection, signing messages, refused and failing '
    'calls of all kinds, building contracts, comparing. Non-trivial: at least one HTTP request, error or transaction was '
    'examined. Oracle: none of the secrets (bytes, hex, decimal, base64, every WIF of it) occurs in what the operation returned or '
    'raised (with all chained exceptions), in any HTTP request (URL, headers, body), log record at any level, warning or printed text.'
)

OPS = [
    'show',
    'refresh',
    'create',
    'create fetched',
    'prepare',
    'prepare and sign',
    'sign raw',
    'send',
    'send fetched',
    'message',
    'insufficient',
    'far',
    'bad address',
    'bad leftover',
    'bad hex',
    'bad unspents',
    'bad contract',
    'fees',
    'public',
    'import',
    'import',
]


@st.composite
def cases(draw):
    w = draw(st.one_of(scen.single(), scen.single(), scen.contract(max_n=4)))
    uni = gen.uniform_secrets().filter(lambda s: s > 2 ** 200)
    if w['type'] == 'single':
        w['secret'] = draw(uni)
        comp = w['compressed']
    else:
        n = len(w['secrets'])
        w['secrets'] = draw(st.lists(uni, min_size=n, max_size=n, unique=True))
        comp = all(w['flags'])
    other = 'test' if w['net'] == 'main' else 'main'
    utxos = draw(
        scen.coins(max_size=3, kinds=('legacy', 'segwit') if comp else ('legacy',), amount=st.integers(10 ** 5, 10 ** 9))
    )
    return {
        'w': w,
        'utxos': utxos,
        'pays': draw(scen.payments(w['net'], sum(u['a'] for u in utxos) // 4, min_size=1, max_size=2)),
        'far': draw(gen.destinations(net=other))['addr'],
        'msg': draw(scen.messages),
        'rbf': draw(st.booleans()),
        'salt': draw(st.integers(0, 1000)),
        'combine': draw(st.booleans()),
        'ops': draw(
            st.lists(
                st.tuples(st.sampled_from(OPS), st.sampled_from(['conn', 'timeout', 500, 429, 403]), st.integers(0, 5)).map(list),
                min_size=2,
                max_size=8,
            )
        ),
    }


class Ear(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.heard = []

    def emit(self, record):
        self.heard.append(repr(record.__dict__))
        self.heard.append(self.format(record))


def forms(secret):
    """Every text and byte form in which the secret might appear."""
    b = secret.to_bytes(32, 'big')
    text = {b.hex(), b[::-1].hex(), '%x' % secret, str(secret), repr(b)[2:-1], base64.b64encode(b).decode().rstrip('=')[:-1]}
    for net in ('main', 'test'):
        for comp in (True, False):
            s = btc.wif(b, net, comp)
            # any large part of it gives the key away
            text |= {s[:40], s[-40:], s[6:46]}
    for foreign in (b'\x80' + b + b'\x07', b'\x33' + b + b'\x01', b'\xef' + b + b'\x01\x01'):
        text.add(btc.b58check(foreign)[5:45])
    return text, {b, b[::-1]}


def flat(x, depth=0):
    """The texts in a result or exception."""
    if isinstance(x, str):
        yield x
    elif isinstance(x, (bytes, bytearray)):
        yield x
        yield bytes(x).hex()
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from flat(k, depth)
            yield from flat(v, depth)
    elif isinstance(x, (list, tuple, set)):
        for v in x:
            yield from flat(v, depth)
    elif isinstance(x, BaseException):
        while x is not None and depth < 20:
            yield str(x)
            yield repr(x)
            yield from flat(x.args, depth + 1)
            x = x.__cause__ or x.__context__
            depth += 1
    elif x is not None:
        yield repr(x)
        yield str(x)


def perform(c, op, n, w, key, raw):
    outs = scen.pay_args(c['pays'])
    us = w.unspents(c['utxos'])
    kw = dict(fee=700, absolute_fee=True, message=c['msg'], replace_by_fee=c['rbf'], combine=c['combine'])
    send = getattr(key, 'send', key.create_transaction)
    cls, addr = w.cls(), w.addresses['legacy']
    if op == 'show':
        return [repr(key), str(key), '%s' % key, '{}'.format(key), f'{key!r}', repr([key]), repr({'k': key}), repr(us)]
    if op == 'refresh':
        return [key.get_unspents(), key.get_balance('btc'), key.get_transactions(), key.unspents, key.balance]
    if op == 'create':
        return key.create_transaction(outs, unspents=us, **kw)
    if op == 'create fetched':
        return key.create_transaction(outs, **kw)
    if op == 'prepare':
        return cls.prepare_transaction(addr, outs, unspents=us, **kw)
    if op == 'prepare and sign':
        return key.sign_transaction(cls.prepare_transaction(addr, outs, unspents=us, **kw))
    if op == 'sign raw':
        return w.key(n % w.signers).sign_transaction(raw, unspents=us if n % 2 else None)
    if op == 'send':
        return send(outs, unspents=us, **kw)
    if op == 'send fetched':
        return send(outs, **kw)
    if op == 'message':
        k = w.priv(n % w.signers)
        s = k.sign(b'data %d' % n)
        return [s, k.verify(s, b'data %d' % n), k.verify(b'', b'x')]
    if op == 'insufficient':
        return key.create_transaction([(c['pays'][0]['addr'], 10 ** 15, 'satoshi')], unspents=us, **kw)
    if op == 'far':
        return send([(c['far'], 1000, 'satoshi')], unspents=us, **kw)
    if op == 'bad address':
        return send([('1notanaddress', 1000, 'satoshi')], unspents=us, **kw)
    if op == 'bad leftover':
        return send(outs, unspents=us, leftover='3bad', **kw)
    if op == 'bad hex':
        return key.sign_transaction(['zz', raw[:-30], '', '{}', '[1]', raw + 'x'][n % 6], unspents=us)
    if op == 'bad unspents':
        return key.sign_transaction(raw, unspents=[5, key, 'x', addr][n % 4])
    if op == 'bad contract':
        k = w.priv(0)
        multi = bit.MultiSig if w.net == 'main' else bit.MultiSigTestnet
        other = gen.make_key(bit, 424242, w.net)
        if n % 4 == 0:
            return multi(k, [other.public_key], 1)
        if n % 4 == 1:
            return multi(k, [k.public_key, other.public_key], 3)
        if n % 4 == 2:
            return multi(k, k.public_key, 1)
        return (bit.MultiSigTestnet if w.net == 'main' else bit.MultiSig)(k, [k.public_key], 1)
    if op == 'import':
        return refused_imports(w.priv(n % w.signers), n // w.signers if w.multi else n, c['salt'])
    if op == 'fees':
        return key.create_transaction(outs, unspents=us)
    if op == 'public':
        k = w.priv(n % w.signers)
        return [
            [k.address, k.segwit_address, k.public_key, k.public_point, k.scriptcode, k.version, k.balance, k.instance],
            k == copy.copy(k),
            [k.can_sign_unspent(u) for u in us],
        ]
    raise AssertionError(op)


def refused_imports(k, n, salt):
    """What is raised when an export of the key is imported with a mistake."""
    wif, h, b, i = k.to_wif(), k.to_hex(), k.to_bytes(), k.to_int()
    at = salt % len(wif)
    other = 'z' if wif[at] != 'z' else 'y'
    cls, far = type(k), bit.PrivateKey if type(k) is bit.PrivateKeyTestnet else bit.PrivateKeyTestnet
    tries = [
        [lambda: wif_to_key(wif + '1'), lambda: cls(wif + wif[-1])],
        [lambda: wif_to_key(wif[:at] + other + wif[at + 1 :]), lambda: far(wif[:at] + other + wif[at + 1 :])],
        [lambda: wif_to_key(wif[:-1]), lambda: cls(wif[1:]), lambda: wif_checksum_check(wif[:-1])],
        [lambda: cls(wif.encode()), lambda: cls(i), lambda: cls(b), lambda: cls(k), lambda: cls([wif])],
        [lambda: cls(h), lambda: cls.from_hex(h + 'g'), lambda: cls.from_hex(wif), lambda: cls.from_hex(h + h)],
        [lambda: cls.from_bytes(b'\x01' + b), lambda: cls.from_bytes(wif), lambda: cls.from_bytes(b''), lambda: cls.from_bytes(i)],
        [lambda: cls.from_int(i + 2 ** 256), lambda: cls.from_int(str(i)), lambda: cls.from_int(-i), lambda: cls.from_int(float(i))],
        [lambda: wif_to_key(btc.b58check(b'\x80' + b + b'\x07')), lambda: wif_to_key(btc.b58check(b'\x33' + b + b'\x01'))],
        [lambda: wif_to_bytes(btc.b58check(b'\xef' + b + b'\x01\x01')), lambda: cls(' ' + wif), lambda: cls(wif + '\n')],
        [lambda: cls.from_pem(k.to_der()), lambda: cls.from_der(k.to_pem()), lambda: cls.from_der(b), lambda: cls.from_pem(h)],
        [lambda: bit.MultiSig(cls, wif, 1), lambda: bit.MultiSig(wif, [wif], 1), lambda: bit.verify_sig(b, b, b)],
    ]
    out = []
    for fn in tries[(n + salt) % len(tries)]:
        try:
            out.append(fn())
        except Exception as e:
            out.append(e)
    return out


def run(c, ctx):
    w = Wallet(c['w'])
    secrets = [w.secret] if not w.multi else c['w']['secrets']
    texts, bins = set(), set()
    for s in secrets:
        t, b = forms(s)
        texts |= t
        bins |= b
    low = {t.lower() for t in texts}

    def clean(items, what):
        for x in items:
            if isinstance(x, str):
                y = x.lower()
                if any(t in y for t in low):
                    raise Violation('%s contains a private key: %s' % (what, x[:300]))
            elif any(b in bytes(x) for b in bins):
                raise Violation('%s contains a private key: %r' % (what, x))

    st_ = {a: {'utxos': [], 'txs': [], 'spent': 0, 'mempool_spent': 0} for a in w.addresses.values()}
    for u in c['utxos']:
        k = u['k'] if u['k'] in w.scripts else 'legacy'
        st_[w.addresses[k]]['utxos'].append({'txid': u['t'], 'vout': u['n'], 'value': u['a'], 'height': 5})
    key = w.key()
    raw = scen.offline(
        lambda: key.create_transaction(scen.pay_args(c['pays']), unspents=w.unspents(c['utxos']), fee=700, absolute_fee=True)
    )
    seen = 0
    root = logging.getLogger()
    for op, kind, n in c['ops']:
        web = Web(world.chains(w.net, 5, st_), {x: kind for x in NAMES[:n]})

        def serve(req):
            if req.method == 'POST' and n < 3:
                return 200, {'success': True, 'txid': ''}
            return web(req)

        net = Net(serve)
        ear = Ear()
        out, err = io.StringIO(), io.StringIO()
        level, disabled = root.level, logging.root.manager.disable
        logging.disable(logging.NOTSET)
        root.addHandler(ear)
        root.setLevel(0)
        random.seed(n)
        try:
            with net.active(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                with warnings.catch_warnings(record=True) as warned:
                    warnings.simplefilter('always')
                    try:
                        result = perform(c, op, n, w, key, raw)
                        ctx.label(op)
                    except (Violation, KeyboardInterrupt):
                        raise
                    except Exception as e:
                        result = e
                        ctx.label(op + ': ' + type(e).__name__)
        finally:
            root.removeHandler(ear)
            root.setLevel(level)
            logging.disable(disabled)
        clean(flat(result), 'result of "%s"' % op if not isinstance(result, Exception) else 'error of "%s"' % op)
        if ear.heard:
            ctx.label('log records')
        clean(ear.heard, 'log record of "%s"' % op)
        clean([out.getvalue(), err.getvalue()], 'output of "%s"' % op)
        clean([str(x.message) for x in warned], 'warning of "%s"' % op)
        for r in net.log:
            clean([r.url, r.body, repr(r.headers)], 'HTTP request of "%s"' % op)
        seen += len(net.log) + 1
    ctx.label(w.cls().__name__)
    ctx.trivial(not seen)


SUBS = [Sub('history', cases(), run, 900, 25000)]
