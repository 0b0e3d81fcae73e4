"""Simulated Internet at the HTTP adapter: block explorers, rate and fee services, JSON-RPC nodes.

Servers answer from an explicit world model; every request is recorded.  Faults are injected per host.
"""
import contextlib
import io
import json
from decimal import Decimal
from urllib.parse import parse_qs, unquote, urlsplit

import requests
import requests.adapters

from lib import btc
from lib.core import Violation

MAX_REQUESTS = 400


class TooManyRequests(Violation):
    pass


def response(request, status, body, ctype='application/json'):
    r = requests.models.Response()
    r.status_code = status
    if isinstance(body, (dict, list)) or body is None:
        body = json.dumps(body)
    data = body.encode() if isinstance(body, str) else body
    r._content = data
    r._content_consumed = True
    r.raw = io.BytesIO(data)
    r.headers['Content-Type'] = ctype
    r.encoding = 'utf-8'
    r.url = request.url
    r.request = request
    r.reason = {200: 'OK', 404: 'Not Found', 429: 'Too Many Requests', 500: 'Internal Server Error'}.get(
        status, 'Status %d' % status
    )
    return r


class Req:
    def __init__(self, request, timeout, verify=True):
        u = urlsplit(request.url)
        self.method = request.method
        self.url = request.url
        self.host = u.hostname
        self.port = u.port
        self.scheme = u.scheme
        self.path = unquote(u.path)
        self.query = {k: v[-1] for k, v in parse_qs(u.query, keep_blank_values=True).items()}
        body = request.body
        self.body = body.decode() if isinstance(body, bytes) else (body or '')
        self.headers = dict(request.headers)
        self.timeout = timeout
        self.verify = verify

    def fields(self):
        """The body's fields, sent as JSON or as a form."""
        if self.body.lstrip().startswith('{'):
            return json.loads(self.body)
        return {k: v[-1] for k, v in parse_qs(self.body, keep_blank_values=True).items()}


class Net:
    """Installs itself in place of the HTTP transport while active."""

    def __init__(self, handler=None, max_requests=MAX_REQUESTS):
        self.handler = handler
        self.log = []
        self.max_requests = max_requests
        self.overrun = False

    def send(self, request, timeout=None, verify=True):
        req = Req(request, timeout, verify)
        self.log.append(req)
        if len(self.log) > self.max_requests:
            self.overrun = True
            raise TooManyRequests('more than %d requests: the client does not stop polling' % self.max_requests)
        if self.handler is None:
            raise requests.exceptions.ConnectionError('no network')
        out = self.handler(req)
        if isinstance(out, Exception):
            raise out
        if out is None:
            return response(request, 404, 'Not Found', 'text/plain')
        status, body = out
        ctype = 'text/plain' if isinstance(body, str) else 'application/json'
        return response(request, status, body, ctype)

    @contextlib.contextmanager
    def active(self):
        old = requests.adapters.HTTPAdapter.send
        net = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return net.send(request, timeout, verify)

        requests.adapters.HTTPAdapter.send = send
        try:
            yield self
        finally:
            requests.adapters.HTTPAdapter.send = old
        if self.overrun:
            raise TooManyRequests('more than %d requests: the client does not stop polling' % self.max_requests)


def fault(kind):
    """An injected fault: an exception instance or an error status."""
    if kind == 'conn':
        return requests.exceptions.ConnectionError('injected')
    if kind == 'timeout':
        return requests.exceptions.ReadTimeout('injected')
    if kind == 'hang':
        return requests.exceptions.Timeout('injected')
    if kind == 'broken':
        return requests.exceptions.ChunkedEncodingError('injected')
    if kind == 'ctimeout':
        return requests.exceptions.ConnectTimeout('injected')
    if kind == 'page':
        return (200, '<html><head><title>Maintenance</title></head><body>Back soon</body></html>')
    if kind == 'cut':
        return (200, '{"data": {')
    if kind == 'empty':
        return (200, '')
    return (int(kind), 'error %s' % kind)


# ------------------------------------------------------------------------------------------------ block explorers
BTC = Decimal(10 ** 8)


def btc_text(sat):
    return '%d.%08d' % (sat // 10 ** 8, sat % 10 ** 8)


class Chain:
    """What one network's explorers know: tip height, addresses and transactions.

    addresses: {addr: {'utxos': [{'txid','vout','value','height' or None}], 'txs': [{'txid','height' or None}],
                       'received': int, 'spent': int}}
    txs are newest first, unconfirmed ones leading.
    """

    def __init__(self, net, tip, addresses, raw=None):
        self.net, self.tip, self.addresses, self.raw = net, tip, addresses, raw or {}

    def addr(self, a):
        return self.addresses.get(a) or {'utxos': [], 'txs': []}

    def balance(self, a):
        return sum(u['value'] for u in self.addr(a)['utxos'])

    def conf(self, u):
        return 0 if u['height'] is None else self.tip - u['height'] + 1

    def script(self, a):
        info = btc.address_info(a)
        return info[1].hex() if info else ''

    def expected(self, a):
        s = self.script(a)
        return sorted((u['value'], self.conf(u), s, u['txid'], u['vout']) for u in self.addr(a)['utxos'])


def _int(q, key, default, cap):
    try:
        v = int(q.get(key, default))
    except ValueError:
        v = default
    return max(0, min(v, cap))


class Explorer:
    """One provider. `serve(req)` -> (status, body) | None when the URL is not one of its own."""

    name = host = None

    def __init__(self, chains, opts=None):
        self.chains = chains  # {'main': Chain, 'test': Chain}
        self.opts = opts or {}
        self.accept = True  # verdict on broadcasts
        self.received = []  # (net, tx_hex as found in body)

    def chain_for(self, req):
        raise NotImplementedError


class Blockchair(Explorer):
    name, hosts = 'blockchair', ('api.blockchair.com',)

    def serve(self, req):
        path = req.path
        if not path.startswith('/bitcoin/'):
            return None
        rest = path[len('/bitcoin/') :]
        net = 'main'
        if rest.startswith('testnet/'):
            net, rest = 'test', rest[len('testnet/') :]
        c = self.chains[net]
        if req.method == 'POST':
            if rest == 'push/transaction':
                self.received.append((net, req))
                return (200, {'data': {'transaction_hash': ''}}) if self.accept else (400, {'data': None})
            return None
        if rest.startswith('dashboards/address/'):
            a = rest[len('dashboards/address/') :]
            if self.opts.get('unknown_404') and a not in c.addresses:
                return 404, {'data': None}
            lim = _int(req.query, 'limit', 100, 1000)
            off = _int(req.query, 'offset', 0, 10 ** 9)
            st = c.addr(a)
            return (
                200,
                {
                    'data': {
                        a: {
                            'address': {
                                'type': 'pubkeyhash',
                                'script_hex': c.script(a),
                                'balance': c.balance(a),
                                'balance_usd': 1.5,
                                'received': c.balance(a) + st.get('spent', 0),
                                'spent': st.get('spent', 0),
                                'output_count': len(st['utxos']) + st.get('spent_count', 0),
                                'unspent_output_count': len(st['utxos']),
                                'transaction_count': len(st['txs']),
                            },
                            'transactions': [t['txid'] for t in st['txs'][off : off + lim]],
                            'utxo': [
                                {
                                    'block_id': -1 if u['height'] is None else u['height'],
                                    'transaction_hash': u['txid'],
                                    'index': u['vout'],
                                    'value': u['value'],
                                }
                                for u in st['utxos'][off : off + lim]
                            ],
                        }
                    },
                    'context': {'code': 200, 'state': c.tip, 'results': 1, 'limit': '%d,%d' % (lim, lim)},
                },
            )
        if rest.startswith('raw/transaction/'):
            t = rest[len('raw/transaction/') :]
            if t not in c.raw:
                return (404, {'data': None}) if self.opts.get('unknown_404') else (200, {'data': None})
            return 200, {'data': {t: {'raw_transaction': c.raw[t], 'decoded_raw_transaction': {}}}}
        return None


class Blockstream(Explorer):
    name, hosts = 'blockstream', ('blockstream.info',)

    def serve(self, req):
        path = req.path
        net = 'main'
        if path.startswith('/testnet/'):
            net, path = 'test', path[len('/testnet') :]
        if not path.startswith('/api/'):
            return None
        rest = path[len('/api/') :]
        c = self.chains[net]
        if req.method == 'POST':
            if rest == 'tx':
                self.received.append((net, req))
                return (200, 'ok') if self.accept else (400, 'sendrawtransaction RPC error')
            return None
        if rest == 'blocks/tip/height':
            return 200, str(c.tip)
        if rest.startswith('tx/') and rest.endswith('/hex'):
            t = rest[3:-4]
            return (200, c.raw[t]) if t in c.raw else (404, 'Transaction not found')
        if rest.startswith('address/'):
            parts = rest.split('/')
            a = parts[1]
            st = c.addr(a)
            tail = [p for p in parts[2:]]
            if self.opts.get('too_many') and tail == ['utxo']:
                return 400, 'Too many history entries'
            if not tail:
                conf = [u for u in st['utxos'] if u['height'] is not None]
                unconf = [u for u in st['utxos'] if u['height'] is None]
                s, ms = st.get('spent', 0), st.get('mempool_spent', 0)
                return (
                    200,
                    {
                        'address': a,
                        'chain_stats': {
                            'funded_txo_count': len(conf),
                            'funded_txo_sum': sum(u['value'] for u in conf) + s + ms,
                            'spent_txo_count': 0,
                            'spent_txo_sum': s,
                            'tx_count': len(st['txs']),
                        },
                        'mempool_stats': {
                            'funded_txo_count': len(unconf),
                            'funded_txo_sum': sum(u['value'] for u in unconf),
                            'spent_txo_count': 0,
                            'spent_txo_sum': ms,
                            'tx_count': 0,
                        },
                    },
                )
            if tail == ['utxo']:
                out = []
                for u in st['utxos']:
                    status = {'confirmed': u['height'] is not None}
                    if u['height'] is not None:
                        status.update(block_height=u['height'], block_hash='00' * 32, block_time=1)
                    out.append({'txid': u['txid'], 'vout': u['vout'], 'status': status, 'value': u['value']})
                return 200, out
            if tail[0] == 'txs':
                mem = [{'txid': t['txid'], 'status': {'confirmed': False}} for t in st['txs'] if t['height'] is None]
                chain = [
                    {'txid': t['txid'], 'status': {'confirmed': True, 'block_height': t['height']}}
                    for t in st['txs']
                    if t['height'] is not None
                ]
                if tail == ['txs', 'mempool']:
                    return 200, mem[:50]
                if tail[1:2] == ['chain']:
                    last = tail[2] if len(tail) > 2 else ''
                    if not last:
                        return 200, chain[:25]
                    ids = [t['txid'] for t in chain]
                    if last not in ids:
                        return 200, []
                    i = ids.index(last) + 1
                    return 200, chain[i : i + 25]
                if tail == ['txs']:
                    return 200, mem[:50] + chain[:25]
        return None


class Bitcore(Explorer):
    name, hosts = 'bitcore', ('api.bitcore.io',)

    def serve(self, req):
        path = req.path
        for net, prefix in (('main', '/api/BTC/mainnet/'), ('test', '/api/BTC/testnet/')):
            if path.startswith(prefix):
                rest = path[len(prefix) :]
                break
        else:
            return None
        c = self.chains[net]
        if req.method == 'POST':
            if rest == 'tx/send':
                self.received.append((net, req))
                return (200, {'txid': ''}) if self.accept else (500, 'error')
            return None
        if rest.startswith('address/'):
            parts = [p for p in rest.split('/') if p]
            a = parts[1]
            st = c.addr(a)
            if parts[2:] == ['balance']:
                b = c.balance(a)
                un = sum(u['value'] for u in st['utxos'] if u['height'] is None)
                return 200, {'confirmed': b - un, 'unconfirmed': un, 'balance': b}
            if parts[2:] in ([], ['txs']):
                if req.query.get('unspent') != 'true':
                    return None
                lim = _int(req.query, 'limit', 10, 1000)
                ids = ['%024x' % (i * 7 + 11) for i in range(len(st['utxos']))]
                start = 0
                if 'since' in req.query:
                    start = ids.index(req.query['since']) + 1 if req.query['since'] in ids else len(ids)
                out = []
                for i in range(start, min(start + lim, len(ids))):
                    u = st['utxos'][i]
                    out.append(
                        {
                            '_id': ids[i],
                            'chain': 'BTC',
                            'network': 'mainnet' if net == 'main' else 'testnet',
                            'coinbase': False,
                            'mintIndex': u['vout'],
                            'spentTxid': '',
                            'mintTxid': u['txid'],
                            'mintHeight': -1 if u['height'] is None else u['height'],
                            'spentHeight': -2,
                            'address': a,
                            'script': c.script(a),
                            'value': u['value'],
                            'confirmations': c.conf(u),
                        }
                    )
                return 200, out
        return None


class Smartbit(Explorer):
    name, hosts = 'smartbit', ('api.smartbit.com.au', 'testnet-api.smartbit.com.au')

    def serve(self, req):
        net = 'test' if req.host.startswith('testnet') else 'main'
        prefix = '/v1/blockchain/'
        if not req.path.startswith(prefix):
            return None
        rest = req.path[len(prefix) :]
        c = self.chains[net]
        if req.method == 'POST':
            if rest == 'pushtx':
                self.received.append((net, req))
                return (200, {'success': True}) if self.accept else (400, {'success': False})
            return None
        base = 'https://%s%s' % (req.host, req.path)
        if rest.startswith('tx/') and rest.endswith('/hex'):
            t = rest[3:-4]
            if t not in c.raw:
                return 400, {'success': False, 'error': {'code': 'REQ_ERROR'}}
            return 200, {'success': True, 'hex': [{'txid': t, 'hex': c.raw[t]}]}
        if rest.startswith('address/'):
            parts = [p for p in rest.split('/') if p]
            a = parts[1]
            st = c.addr(a)
            lim = _int(req.query, 'limit', 10, min(1000, self.opts.get('page', 1000)))
            start = _int(req.query, 'next', 0, 10 ** 9)

            def paging(items):
                more = start + lim < len(items)
                link = '%s?limit=%d&next=%d' % (base, lim, start + lim) if more else None
                return items[start : start + lim], {'valid_sort': ['id'], 'limit': lim, 'next_link': link}

            if parts[2:] == ['unspent']:
                items, page = paging(st['utxos'])
                out = {'success': True, 'paging': page}
                if st['utxos']:
                    out['unspent'] = [
                        {
                            'addresses': [a],
                            'value': btc_text(u['value']),
                            'value_int': u['value'],
                            'txid': u['txid'],
                            'n': u['vout'],
                            'script_pub_key': {'asm': '', 'hex': c.script(a)},
                            'confirmations': c.conf(u),
                            'req_sigs': 1,
                        }
                        for u in items
                    ]
                return 200, out
            if parts[2:] == []:
                items, page = paging(st['txs'])
                adr = {
                    'address': a,
                    'total': {'balance': btc_text(c.balance(a)), 'balance_int': c.balance(a)},
                    'confirmed': {
                        'balance_int': sum(u['value'] for u in st['utxos'] if u['height'] is not None),
                    },
                }
                if st['txs']:
                    adr['transactions'] = [{'txid': t['txid'], 'hash': t['txid']} for t in items]
                    adr['transaction_paging'] = page
                return 200, {'success': True, 'address': adr}
        return None


class BlockchainInfo(Explorer):
    name, hosts = 'blockchain', ('blockchain.info',)

    def serve(self, req):
        c = self.chains['main']
        path = req.path
        if req.method == 'POST':
            if path == '/pushtx':
                self.received.append(('main', req))
                return (200, 'Transaction Submitted') if self.accept else (500, 'error')
            return None
        if path.startswith('/address/') or path.startswith('/rawaddr/'):
            a = path.split('/')[2]
            st = c.addr(a)
            lim = _int(req.query, 'limit', 50, 50)
            off = _int(req.query, 'offset', 0, 10 ** 9)
            return (
                200,
                {
                    'hash160': '',
                    'address': a,
                    'n_tx': len(st['txs']),
                    'total_received': c.balance(a) + st.get('spent', 0),
                    'total_sent': st.get('spent', 0),
                    'final_balance': c.balance(a),
                    'txs': [{'hash': t['txid'], 'ver': 1} for t in st['txs'][off : off + lim]],
                },
            )
        if path == '/unspent':
            a = req.query.get('active', '')
            st = c.addr(a)
            lim = _int(req.query, 'limit', 250, 1000)
            off = _int(req.query, 'offset', 0, 10 ** 9)
            if not st['utxos'] and not self.opts.get('empty_200'):
                return 500, 'No free outputs to spend'
            return (
                200,
                {
                    'unspent_outputs': [
                        {
                            'tx_hash': bytes.fromhex(u['txid'])[::-1].hex(),
                            'tx_hash_big_endian': u['txid'],
                            'tx_index': 1,
                            'tx_output_n': u['vout'],
                            'script': c.script(a),
                            'value': u['value'],
                            'value_hex': '%x' % u['value'],
                            'confirmations': c.conf(u),
                        }
                        for u in st['utxos'][::-1][off : off + lim]
                    ]
                },
            )
        if path.startswith('/rawtx/'):
            t = path[len('/rawtx/') :]
            if req.query.get('format') != 'hex':
                return None
            return (200, c.raw[t]) if t in c.raw else (500, 'Transaction not found')
        return None


EXPLORERS = (Blockchair, Blockstream, Bitcore, Smartbit, BlockchainInfo)
NAMES = [e.name for e in EXPLORERS]


class Web:
    """All explorers; faults[name] is None or a fault kind, or ('after', n, kind): the n+1st request on fails."""

    def __init__(self, chains, faults=None, opts=None):
        opts = opts or {}
        self.explorers = {e.name: e(chains, opts.get(e.name)) for e in EXPLORERS}
        self.faults = dict(faults or {})
        self.seen = {n: 0 for n in NAMES}
        self.fired = []  # explorers that failed to answer, in order
        self.rate_handler = None

    def __call__(self, req):
        for e in self.explorers.values():
            if req.host in e.hosts:
                if e.name == 'blockchain' and req.path.startswith('/tobtc') and self.rate_handler:
                    return self.rate_handler(req)
                f = self.faults.get(e.name)
                self.seen[e.name] += 1
                if isinstance(f, (list, tuple)):
                    _, n, kind = f
                    f = kind if self.seen[e.name] > n else None
                if f is not None:
                    self.fired.append(e.name)
                    return fault(f)
                out = e.serve(req)
                if out is not None and out[1] == 'Too many history entries':
                    self.fired.append(e.name)
                return out
        if self.rate_handler:
            return self.rate_handler(req)
        return requests.exceptions.ConnectionError('unknown host %s' % req.host)
