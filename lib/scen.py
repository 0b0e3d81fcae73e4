"""Spending scenarios: wallets (single keys and multisig contracts), their outputs, payments and options.

Everything drawn is plain data; `Wallet` turns it into the library's objects and the oracle's view of them.
"""
import hashlib
import random
import re

from hypothesis import strategies as st

import bit
from bit.network.meta import Unspent
from lib import btc, gen
from lib.core import Violation, check
from lib.net import Net

COIN = 10 ** 8
MAX_MONEY = 21 * 10 ** 14


# ------------------------------------------------------------------------------------------------ wallets
@st.composite
def single(draw, net=None, compressed=None):
    return {
        'type': 'single',
        'net': net or draw(gen.nets),
        'secret': draw(gen.secrets()),
        'compressed': draw(st.sampled_from([True, True, True, False])) if compressed is None else compressed,
    }


def _max_n(flags):
    """How many of these keys fit in a 520-byte redeem script."""
    size, n = 3, 0
    for f in flags:
        size += 34 if f else 66
        if size > 520:
            break
        n += 1
    return n


def key_spec(net, secret=4711, compressed=True):
    return {'type': 'single', 'net': net, 'secret': secret, 'compressed': compressed}


def contract_spec(net, m=2, n=3, first=1000, me=0, compressed=True):
    return {
        'type': 'multi', 'net': net, 'secrets': [first + 17 * i for i in range(n)], 'flags': [compressed] * n, 'm': m, 'me': me,
        'as_set': False, 'hex': False,
    }


@st.composite
def contract(draw, net=None, all_compressed=None, max_n=15):
    n = draw(st.one_of(st.integers(1, min(4, max_n)), st.integers(1, max_n), st.just(min(3, max_n))))
    base = draw(st.integers(1, 2 ** 40))
    secrets = draw(st.lists(gen.uniform_secrets(), min_size=min(n, 3), max_size=min(n, 3), unique=True))
    secrets += [(base + i * 0x9E3779B97F4A7C15) ** 3 % (btc.N - 1) + 1 for i in range(n - len(secrets))]
    seen, uniq = set(), []
    for s in secrets:
        while s in seen:
            s += 1
        seen.add(s)
        uniq.append(s)
    if all_compressed is None:
        all_compressed = draw(st.sampled_from([True, True, False]))
    flags = [True] * n if all_compressed else draw(st.lists(st.booleans(), min_size=n, max_size=n))
    n = _max_n(flags)
    uniq, flags = uniq[:n], flags[:n]
    m = draw(st.one_of(st.integers(1, n), st.just(n), st.just(min(2, n))))
    return {
        'type': 'multi',
        'net': net or draw(gen.nets),
        'secrets': uniq,
        'flags': flags,
        'm': m,
        'me': draw(st.integers(0, n - 1)),
        'as_set': draw(st.booleans()),
        'hex': draw(st.booleans()),
    }


class Wallet:
    """The library's key object(s) and, independently, the scripts they own."""

    def __init__(self, spec):
        self.spec = spec
        self.net = spec['net']
        self.multi = spec['type'] == 'multi'
        if not self.multi:
            s = spec['secret']
            self.secret = s
            self.pub = btc.pubkey(s, spec['compressed'])
            h = btc.hash160(self.pub)
            self.scripts = {'legacy': btc.p2pkh_script(h)}
            self.addresses = {'legacy': btc.p2pkh_address(h, self.net)}
            self.types = {'legacy': 'p2pkh' if spec['compressed'] else 'p2pkh-uncompressed', 'segwit': 'np2wkh'}
            self.redeem = None
            if spec['compressed']:
                sh = btc.hash160(b'\x00\x14' + h)
                self.scripts['segwit'] = btc.p2sh_script(sh)
                self.addresses['segwit'] = btc.p2sh_address(sh, self.net)
            self.signers = 1
            self.m = 1
        else:
            pairs = [(btc.pubkey(s, f), s, f) for s, f in zip(spec['secrets'], spec['flags'])]
            if spec['as_set']:
                pairs.sort(key=lambda p: p[0])
            self.pairs = pairs
            self.pubs = [p[0] for p in pairs]
            self.m = spec['m']
            self.redeem = btc.multisig_script(self.pubs, self.m)
            self.scripts = {'legacy': btc.p2sh_script(btc.hash160(self.redeem))}
            self.addresses = {'legacy': btc.p2sh_address(btc.hash160(self.redeem), self.net)}
            self.types = {'legacy': 'p2sh', 'segwit': 'np2wsh'}
            if all(spec['flags']):
                sh = btc.hash160(b'\x00\x20' + btc.sha256(self.redeem))
                self.scripts['segwit'] = btc.p2sh_script(sh)
                self.addresses['segwit'] = btc.p2sh_address(sh, self.net)
            self.signers = len(pairs)

    @property
    def kinds(self):
        return sorted(self.scripts)

    def priv(self, i=0):
        if not self.multi:
            return gen.make_key(bit, self.spec['secret'], self.net, self.spec['compressed'])
        _, s, f = self.pairs[i]
        return gen.make_key(bit, s, self.net, f)

    def key(self, i=None):
        """PrivateKey(Testnet), or MultiSig(Testnet) of the i-th participant."""
        if not self.multi:
            return self.priv()
        if i is None:
            i = self.spec['me'] % self.signers
        pubs = [p.hex() if self.spec['hex'] else p for p in self.pubs]
        arg = set(pubs) if self.spec['as_set'] else pubs
        cls = bit.MultiSig if self.net == 'main' else bit.MultiSigTestnet
        return cls(self.priv(i), arg, self.m)

    def cls(self):
        if self.multi:
            return bit.MultiSig if self.net == 'main' else bit.MultiSigTestnet
        return bit.PrivateKey if self.net == 'main' else bit.PrivateKeyTestnet

    def vsize(self, kind):
        """Largest size such an input takes when complete (in vbytes)."""
        if self.multi:
            return gen.ms_vsize(self.m, len(self.redeem), kind == 'segwit')
        return {'p2pkh': 148, 'p2pkh-uncompressed': 180, 'np2wkh': 91}[self.types[kind]]

    def unspents(self, utxos):
        out = []
        for u in utxos:
            kind = u['k'] if u['k'] in self.scripts else 'legacy'
            kw = {} if u.get('seq') is None else {'sequence': u['seq']}
            out.append(
                Unspent(
                    u['a'],
                    u.get('conf', 1),
                    self.scripts[kind].hex(),
                    u['t'],
                    u['n'],
                    self.types[kind],
                    self.vsize(kind) if self.multi else None,
                    **kw
                )
            )
        return out

    def prevouts(self, utxos):
        """{(txid, vout): (script, amount, kind, sequence)}"""
        out = {}
        for u in utxos:
            kind = u['k'] if u['k'] in self.scripts else 'legacy'
            out[(u['t'], u['n'])] = (
                self.scripts[kind],
                u['a'],
                kind,
                0xFFFFFFFF if u.get('seq') is None else u['seq'],
            )
        return out

    def default_leftover(self, utxos):
        kinds = {u['k'] if u['k'] in self.scripts else 'legacy' for u in utxos}
        return self.addresses['segwit' if 'segwit' in kinds else 'legacy']


# ------------------------------------------------------------------------------------------------ coins
amounts = st.one_of(
    st.integers(10 ** 4, 10 ** 7),
    st.integers(10 ** 6, 10 ** 10),
    st.integers(1, 10 ** 4),
    st.sampled_from([546, COIN, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 21 * 10 ** 13]),
)


@st.composite
def coins(draw, min_size=1, max_size=5, amount=amounts, kinds=('legacy', 'segwit'), seqs=False, many=()):
    """Distinct outputs of one wallet.  `many`: optional sizes for a large set (generated compactly)."""
    n = draw(st.integers(min_size, max_size))
    seed = draw(st.integers(0, 2 ** 32))
    out = []
    extra = draw(st.sampled_from(list(many))) if many else 0
    mode = draw(st.sampled_from(['legacy', 'segwit', 'mixed', 'mixed']))
    for i in range(n):
        k = draw(st.sampled_from(kinds)) if mode == 'mixed' else mode
        if k not in kinds:
            k = kinds[0]
        out.append(
            {
                'k': k,
                'a': draw(amount),
                't': gen.derived_txid(seed, i),
                'n': draw(gen.vouts),
            }
        )
        if seqs:
            s = draw(
                st.sampled_from([None, None, None, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC, 0x80000000, 2 ** 31 + 5, 0, 1, 144, 0x7FFFFFFF])
            )
            if s is not None:
                out[-1]['seq'] = s
    # outputs of the same transaction: equal id, different index
    if n > 1 and draw(st.integers(0, 3)) == 0:
        out[1]['t'] = out[0]['t']
        if out[1]['n'] == out[0]['n']:
            out[1]['n'] = (out[0]['n'] + 1) % 2 ** 32
    if extra:
        r = random.Random(seed)
        lo = draw(st.sampled_from([2000, 50000, 10 ** 6]))
        for i in range(n, extra):
            k = kinds[r.randrange(len(kinds))] if mode == 'mixed' else out[0]['k']
            out.append({'k': k, 'a': lo + r.randrange(lo), 't': gen.derived_txid(seed, i), 'n': r.randrange(4)})
    return out


def stack(n, kinds=('legacy', 'segwit'), amount=20000, tag='stack', seqs=()):
    """A large set of outputs, the same every time."""
    out = []
    for i in range(n):
        u = {'k': kinds[i % len(kinds)], 'a': amount + i, 't': gen.derived_txid(tag, i), 'n': i % 4}
        if seqs and seqs[i % len(seqs)] is not None:
            u['seq'] = seqs[i % len(seqs)]
        out.append(u)
    return out


def pile(net, n, sat=700):
    """Many payments, the same every time."""
    out = []
    for i in range(n):
        h = btc.sha256(b'pile %d' % i)
        a, s = [
            (btc.p2pkh_address(h[:20], net), btc.p2pkh_script(h[:20])),
            (btc.p2sh_address(h[:20], net), btc.p2sh_script(h[:20])),
        ][i % 2]
        out.append({'addr': a, 'script': s, 'sat': sat + i, 'unit': 'satoshi', 'style': 0})
    return out


@st.composite
def split(draw, total, n, lo=1):
    """n positive amounts with a sum of at most `total`."""
    parts = []
    rest = total
    for i in range(n):
        hi = rest - (n - 1 - i) * lo
        if hi <= lo:
            parts.append(lo)
        else:
            parts.append(draw(st.one_of(st.integers(lo, hi), st.integers(lo, min(hi, lo + 5000)))))
        rest -= parts[-1]
    return parts


units = st.sampled_from(['satoshi', 'ubtc', 'mbtc', 'btc'])


@st.composite
def payments(draw, net, total, min_size=0, max_size=3, own=()):
    """[{'addr','script','sat','unit','style'}] with a sum <= total (if total allows)."""
    n = draw(st.integers(min_size, max_size))
    n = max(min_size, min(n, total)) if total > 0 else min_size
    out = []
    for sat in draw(split(max(total, n), n)) if n else []:
        d = draw(gen.destinations(net=net))
        if own and draw(st.integers(0, 5)) == 0:
            d = {'addr': own[0][0], 'script': own[0][1]}
        if out and draw(st.integers(0, 7)) == 0:
            d = {'addr': out[0]['addr'], 'script': out[0]['script']}  # same destination twice
        out.append(
            {'addr': d['addr'], 'script': d['script'], 'sat': sat, 'unit': draw(units), 'style': draw(st.integers(0, 5))}
        )
    return out


def pay_args(pays):
    return [(p['addr'], gen.fmt_units(p['sat'], p['unit'], p['style']), p['unit']) for p in pays]


messages = st.one_of(
    st.none(),
    st.none(),
    st.none(),
    st.text(min_size=1, max_size=12),
    st.text(alphabet='ab', min_size=70, max_size=90),
    st.one_of(
        st.text(alphabet='aé漢😀', min_size=1, max_size=170),
        st.tuples(st.sampled_from(['a', 'b é', '漢']), st.integers(1, 600)).map(lambda t: (t[0] * t[1])[: t[1]]),
    ),
)


# ------------------------------------------------------------------------------------------------ running
def offline(fn):
    """Runs fn() with no network reachable; any request is an error of its own when `fn` was given everything."""
    net = Net(None, max_requests=60)
    with net.active():
        out = fn()
    if net.log:
        raise Violation('used the network although everything was given: %s %s' % (net.log[0].method, net.log[0].url))
    return out


def sent(key, outs, opts):
    """The transaction that key.send submits to explorers which accept it."""
    net = Net(lambda req: (200, {'success': True, 'txid': ''}) if req.method == 'POST' else None, max_requests=60)
    with net.active():
        key.send(outs, **opts)
    found = set()
    for r in net.log:
        if r.method != 'POST':
            raise Violation('used the network although everything was given: %s %s' % (r.method, r.url))
        found.update(re.findall('[0-9a-fA-F]{40,}', r.body))
    check(len(found) == 1, 'submitted %d transactions', len(found))
    return found.pop()


def maker(key, route):
    """Creates transactions with the key: directly, as prepared and signed offline, or what it submits when sending."""

    def prepared(outs, **opts):
        segwit = key.segwit_address and any(u.segwit for u in opts['unspents'])
        data = type(key).prepare_transaction(key.segwit_address if segwit else key.address, outs, **opts)
        return key.sign_transaction(data)

    if route == 'prepare':
        return prepared
    if route and hasattr(key, 'send'):
        return lambda outs, **opts: sent(key, outs, opts)
    return key.create_transaction


routes = st.sampled_from([False] * 6 + ['send', 'send', 'prepare'])


class View:
    """A created transaction against the outputs it may spend."""

    def __init__(self, raw, prevouts, partial=False):
        check(isinstance(raw, str), 'transaction is not a hex string')
        try:
            self.tx = btc.parse_tx(raw, partial)
        except (btc.ParseError, ValueError) as e:
            raise Violation('transaction is not well-formed: %s' % e)
        check(self.tx.version == 1 and self.tx.locktime == 0, 'version %d, lock time %d', self.tx.version, self.tx.locktime)
        points = [(i['txid'], i['vout']) for i in self.tx.vin]
        check(len(set(points)) == len(points), 'an output is spent twice')
        for p in points:
            check(p in prevouts, 'spends an output it was not given: %s', p)
        self.points = points
        self.prev = [prevouts[p] for p in points]
        self.total_in = sum(p[1] for p in self.prev)
        self.total_out = sum(o['amount'] for o in self.tx.vout)
        self.fee = self.total_in - self.total_out

    def verify(self):
        for i, (script, amount, kind, _) in enumerate(self.prev):
            try:
                btc.verify_input(self.tx, i, script, amount)
            except btc.ScriptError as e:
                raise Violation('input %d (%s) is not valid: %s' % (i, kind, e))

    def valid(self, i):
        return btc.input_ok(self.tx, i, self.prev[i][0], self.prev[i][1])


def data_outputs(msg, is_bytes):
    """Data outputs a message must give: list of chunks."""
    if not msg:
        return []
    b = msg if is_bytes else msg.encode('utf-8')
    return b


def is_data(o):
    return o['script'][:1] == b'\x6a'


def parse_data(script):
    """The pushed data of an OP_RETURN output with a single, minimal push."""
    check(script[:1] == b'\x6a', 'not an OP_RETURN output')
    n = len(script)
    for head in (1, 2, 3):
        data = script[1 + head :]
        if n >= 1 + head and btc.push(data) == script[1:]:
            return data
    raise Violation('data output is not a single minimal push: %s' % script.hex())


# ------------------------------------------------------------------------------------------------ options
DEFAULTS = {
    'fee': None,
    'absolute_fee': False,
    'leftover': None,
    'combine': True,
    'message': None,
    'unspents': None,
    'message_is_hex': False,
    'replace_by_fee': False,
}


def sparse(kw, salt=''):
    """The options, some of those with their documented default left out (always the same ones for the same options)."""
    plain = sorted((k, repr(v)) for k, v in kw.items() if k != 'unspents')
    bits = int.from_bytes(hashlib.sha256(repr((salt, plain)).encode()).digest(), 'little')
    out = {}
    for i, (k, v) in enumerate(sorted(kw.items())):
        if k in DEFAULTS and v is DEFAULTS[k] and bits >> i & 1:
            continue
        out[k] = v
    return out
