import base64
import json

from hypothesis import strategies as st

from checks.c20 import CALLS, record
from lib import btc, gen, scen, world
from lib.clock import fresh
from lib.core import Sub, check, eq
from lib.net import Net, Web, btc_text, fault
from lib.scen import View, Wallet

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = (
    'Cases: a node connected for one network, for both, or one after another, with generated host, port, path, scheme '
    'and credentials; then 1..10 queries, broadcasts, direct calls, new blocks and further connections on both networks against generated node states, '
    'including node errors (HTTP 200 and 500), refused credentials, unreachable nodes and rejected transactions. '
    'Non-trivial: a request reached a node. Oracle: a simulated node that answers from an explicit state and records '
    'address, credentials, method and parameters; the simulated explorers see only the other network.'
)

KNOWN = 'a connected node\'s getreceivedbyaddress taken as the balance'


REFUSALS = [
    (-26, 'mandatory-script-verify-flag-failed'),
    (-26, 'txn-mempool-conflict'),
    (-26, 'insufficient fee, rejecting replacement'),
    (-26, 'dust'),
    (-25, 'bad-txns-inputs-missingorspent'),
    (-25, 'Fee exceeds maximum configured by user (e.g. -maxtxfee, maxfeerate)'),
    (-27, 'Transaction already in block chain'),
    (-27, 'Transaction outputs already in utxo set'),
    (-22, 'TX decode failed. Make sure the tx has at least one input.'),
]
PROBLEMS = [
    (-8, 'injected'),
    (-28, 'Loading block index...'),
    (-28, 'Verifying blocks...'),
    (-18, 'No wallet is loaded.'),
    (-5, 'Invalid address'),
    (-4, 'Wallet is currently rescanning. Abort existing rescan or wait.'),
    (-1, ''),
    (0, ''),
]


class Node:
    def __init__(self, spec, state, net):
        self.spec, self.net = spec, net
        self.addresses, self.tip, self.raw = state
        self.mode = 'up'
        self.got = []

    def matches(self, req):
        return req.host == self.spec['host'].lower() and req.port == self.spec['port']

    def __call__(self, req):
        s = self.spec
        if self.mode in ('conn', 'ctimeout', 'timeout'):
            self.got.append(None)
            return fault(self.mode)
        eq(req.scheme, 'https' if s['https'] else 'http', 'scheme')
        eq(req.path, '/' + s['path'], 'path')
        if s['https']:
            eq(req.verify, s['https'], 'certificates the node is checked against')
        eq(req.method, 'POST', 'HTTP method')
        auth = 'Basic ' + base64.b64encode(('%s:%s' % (s['user'], s['password'])).encode()).decode()
        eq(req.headers.get('Authorization'), auth, 'credentials')
        eq(req.headers.get('content-type', req.headers.get('Content-Type')), 'application/json', 'content type')
        j = json.loads(req.body)
        self.got.append((j['method'], j['params']))
        if self.mode.isdigit():
            return int(self.mode), ['denied', '', 'Work queue depth exceeded', '<html></html>', '{"result": null}'][s['refusal'] % 5]
        if self.mode in ('error200', 'error500'):
            code, message = PROBLEMS[s['refusal'] % len(PROBLEMS)]
            return int(self.mode[-3:]), {'result': None, 'error': {'code': code, 'message': message}, 'id': None}
        return self.rpc(j['method'], j['params'])

    def rpc(self, method, p):
        s = self.spec

        def ok(text):
            return 200, '{"result": %s, "error": null, "id": null}' % text

        def err(code, message):
            return 500, {'result': None, 'error': {'code': code, 'message': message}, 'id': None}

        def conf(u):
            return 0 if u['height'] is None else self.tip - u['height'] + 1

        def script(a):
            return btc.address_info(a)[1].hex()

        if method == 'getreceivedbyaddress':
            a, minconf = p[0], (p[1] if len(p) > 1 else 1)
            st_ = self.addresses.get(a, {'utxos': []})
            got = sum(u['value'] for u in st_['utxos'] if conf(u) >= minconf)
            return ok(btc_text(got + st_.get('spent', 0)))  # everything ever received, spent or not
        if method == 'listunspent':
            lo = p[0] if len(p) > 0 else 1
            hi = p[1] if len(p) > 1 else 9999999
            want = p[2] if len(p) > 2 else list(self.addresses)
            rows = []
            for a in want:
                for u in self.addresses.get(a, {'utxos': []})['utxos']:
                    if lo <= conf(u) <= hi:
                        rows.append(
                            '{"txid": "%s", "vout": %d, "address": "%s", "label": "", "scriptPubKey": "%s", "amount": %s, '
                            '"confirmations": %d, "spendable": true, "solvable": true, "safe": true}'
                            % (u['txid'], u['vout'], a, script(a), btc_text(u['value']), conf(u))
                        )
            return ok('[%s]' % ', '.join(rows))
        if method == 'listreceivedbyaddress':
            minconf = p[0] if p else 1
            empty = p[1] if len(p) > 1 else False
            flt = p[3] if len(p) > 3 else None
            rows = []
            for a, s in self.addresses.items():
                if flt is not None and a != flt:
                    continue
                ids = [t['txid'] for t in s['txs'] if conf(t) >= minconf]
                if ids or empty:
                    rows.append({'address': a, 'amount': 1, 'confirmations': 1, 'label': '', 'txids': ids})
            return ok(json.dumps(rows))
        if method == 'getrawtransaction':
            if p[0] not in self.raw:
                return err(-5, 'No such mempool or blockchain transaction')
            if len(p) > 1 and p[1]:
                return ok(json.dumps({'hex': self.raw[p[0]], 'txid': p[0]}))
            return ok(json.dumps(self.raw[p[0]]))
        if method == 'sendrawtransaction':
            if self.mode == 'reject':
                return err(*REFUSALS[s['refusal'] % len(REFUSALS)])
            return ok('"%s"' % ('ab' * 32))
        if method == 'getblockcount':
            return ok(str(self.tip))
        if method == 'echo' or method.endswith('.echo'):
            return ok(json.dumps(p))
        return err(-32601, 'Method not found')


PLAIN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~'
# Basic authentication cannot express a colon in a user name
users = st.one_of(st.text(PLAIN, min_size=1, max_size=12), st.text(PLAIN + '!"#$%&\'()*+,/;<=>?@[\\]^`{|} ', min_size=1, max_size=12))
passwords = st.one_of(
    st.text(PLAIN, min_size=1, max_size=12), st.text(PLAIN + ':!"#$%&\'()*+,/;<=>?@[\\]^`{|} ', min_size=1, max_size=12)
)
hosts = st.sampled_from(['localhost', '127.0.0.1', 'node.example.org', '10.0.0.7', 'btc-node'])


@st.composite
def nodes(draw, net):
    return {
        'net': net,
        'user': draw(users),
        'password': draw(passwords),
        'host': draw(hosts),
        'port': draw(st.one_of(st.sampled_from([8332, 18332, 18443]), st.integers(1024, 65535))),
        'https': draw(st.sampled_from([False, False, True, '/srv/own-ca.pem', 'ca/bundle.crt'])),
        'refusal': draw(st.integers(0, 71)),
        'path': draw(st.sampled_from(['', '', 'wallet/alice', 'wallet/b', 'wallet/c/', 'rpc'])),
    }


MODES = ['up', 'up', 'up', 'up', 'error200', 'error500', 'conn', 'ctimeout', 'timeout', '401', '403', '404', '429', '502', '503', 'reject', 'reject']
OPS = ['balance', 'unspents', 'history', 'lookup', 'lookup?', 'broadcast', 'key', 'key view', 'send', 'direct', 'echo', 'block', 'connect']
scalars = st.one_of(st.none(), st.booleans(), st.integers(-(2 ** 60), 2 ** 60), st.text(max_size=12), st.floats(allow_nan=False, allow_infinity=False))
params = st.lists(st.one_of(scalars, st.lists(scalars, max_size=3), st.dictionaries(st.text(max_size=5), scalars, max_size=3)), max_size=5)


@st.composite
def cases(draw):
    connect = []
    for net in draw(st.sampled_from([['main'], ['test'], ['main', 'test'], ['test', 'main'], ['main', 'main'], ['test', 'test', 'main']])):
        connect.append(draw(nodes(net)))
    seen = set()
    for n in connect:
        while (n['host'], n['port']) in seen:
            n['port'] = n['port'] % 60000 + 1025
        seen.add((n['host'], n['port']))
    return {
        'connect': connect,
        'w': {
            'main': draw(scen.single(net='main')),
            'test': draw(scen.single(net='test')),
        },
        'spec': draw(world.specs(st.integers(0, 5), st.integers(0, 5), (0, 1))),
        'steps': draw(
            st.lists(
                st.tuples(st.sampled_from(OPS), st.sampled_from(['main', 'test']), st.sampled_from(MODES), st.booleans()),
                min_size=1,
                max_size=10,
            )
        ),
        'late': draw(st.sampled_from([0, 0, 1, 2])) % (len(connect) + 1),
        'defaults': draw(st.booleans()),
        'params': draw(params),
        'ns': draw(st.sampled_from(['', '', 'a', 'wallet.b'])),
        'fee': draw(st.integers(1000, 30000)),
        'pay': draw(gen.destinations(net='main')),
        'pay_test': draw(gen.destinations(net='test')),
    }


def run(c, ctx):
    spec = c['spec']
    txid = gen.derived_txid(spec['seed'], 'raw')
    wallets = {net: Wallet(c['w'][net]) for net in ('main', 'test')}
    states, raws = {}, {}
    for net in ('main', 'test'):
        w = wallets[net]
        states[net] = {w.addresses[k]: world.state(dict(spec, seed=spec['seed'] + (net == 'test')), net + k) for k in w.kinds}
        raws[net] = {txid: '0100' + ('aa' if net == 'main' else 'bb') * 20}
    chs = world.chains('main', spec['tip'], states['main'], raws['main'], states['test'], raws['test'])
    for net in chs:
        chs[net].tip = spec['tip']
    web = Web(chs)
    servers, active = [], {}
    hit = 0

    def route(req):
        for s in servers:
            if s.matches(req):
                return s(req)
        return web(req)

    net_ = Net(route)
    with fresh('bit', 'bit.network', 'bit.exceptions', 'bit.network.services') as (clock, b, n, exc, services), net_.active():
        api = n.NetworkAPI
        handles = {}

        def connect(s):
            if c['defaults']:
                s = dict(s, host='localhost', https=False, path='', port=8332 + len(servers))
            srv = Node(s, (states[s['net']], chs[s['net']].tip, raws[s['net']]), s['net'])
            kw = {} if (c['defaults'] and s['net'] == 'main' and s['port'] == 8332) else dict(
                host=s['host'], port=s['port'], use_https=s['https'], testnet=s['net'] == 'test', path=s['path']
            )
            before = len(net_.log)
            handles[s['net']] = api.connect_to_node(user=s['user'], password=s['password'], **kw)
            servers.append(srv)
            active[s['net']] = srv
            eq(len(net_.log), before, 'requests when connecting')

        pending = list(c['connect'])
        for _ in range(len(pending) - c.get('late', 0)):
            connect(pending.pop(0))
        for op, net, mode, kind in c['steps']:
            if op == 'connect':
                if pending:
                    connect(pending.pop(0))
                continue
            if op == 'block':  # the chain grows, the address receives something
                chs[net].tip += 1
                for s in servers:
                    if s.net == net:
                        s.tip = chs[net].tip
                st_ = states[net][wallets[net].addresses[wallets[net].kinds[-1]]]
                fresh_id = gen.derived_txid(spec['seed'], 'block%d' % chs[net].tip)
                st_['utxos'].append({'txid': fresh_id, 'vout': 1, 'value': 123456 + chs[net].tip, 'height': chs[net].tip})
                st_['txs'].insert(sum(t['height'] is None for t in st_['txs']), {'txid': fresh_id, 'height': chs[net].tip})
                continue
            srv = active.get(net)
            w = wallets[net]
            k = w.kinds[kind % len(w.kinds)]
            addr = w.addresses[k]
            mark = {id(s): len(s.got) for s in servers}
            before = len(net_.log)
            if srv:
                srv.mode = mode
            if op in ('direct', 'echo') and not srv:
                continue
            avail = sum(chs[net].balance(w.addresses[kk]) for kk in w.kinds)
            if op == 'send' and avail < c['fee'] + 2000:
                continue
            name = CALLS.get((op.rstrip('?'), net))
            tx = '02000000' + 'cd' * 60
            args = {'lookup': (txid,), 'lookup?': ('f' * 64,), 'broadcast': (tx,)}.get(op, (addr,))
            err = None
            try:
                if op == 'key':
                    key = gen.make_key(b, c['w'][net]['secret'], net, c['w'][net]['compressed'])
                    got = key.get_unspents()
                elif op == 'key view':
                    key = gen.make_key(b, c['w'][net]['secret'], net, c['w'][net]['compressed'])
                    got = (int(key.get_balance()), list(key.get_transactions()))
                elif op == 'send':
                    key = gen.make_key(b, c['w'][net]['secret'], net, c['w'][net]['compressed'])
                    dest = c['pay'] if net == 'main' else c['pay_test']
                    got = key.send([(dest['addr'], 1000, 'satoshi')], fee=c['fee'], absolute_fee=True)
                elif op == 'direct':
                    got = handles[net].getblockcount()
                elif op == 'echo':
                    h = handles[net]
                    for part in c['ns'].split('.') if c['ns'] else ():
                        h = getattr(h, part)
                    got = h.echo(*c['params'])
                else:
                    got = getattr(api, name)(*args)
            except ConnectionError as e:
                err = 'connection'
            except exc.BitcoinNodeException as e:
                err = 'node'
            except services.requests.exceptions.Timeout:
                err = 'timeout'  # a direct call
            log = net_.log[before:]
            # where the requests went
            for s in servers:
                if s is not srv:
                    eq(len(s.got), mark[id(s)], 'requests to another node')
            if srv:
                check(all(srv.matches(r) for r in log), 'a request went elsewhere: %r', [r.url for r in log])
                check(log, 'no request')
                hit += 1
            else:
                check(all(not s.matches(r) for r in log for s in servers), 'a request of the other network went to the node')
                check(all(r.host != 'localhost' for r in log), 'went to %r', [r.url for r in log])
            # outcome
            m = srv.mode if srv else 'up'
            if m == 'reject' and op not in ('broadcast', 'send'):
                m = 'up'
            if m in ('conn', 'ctimeout') or (m == 'timeout' and op not in ('direct', 'echo')):
                eq(err, 'connection', '%s with an unreachable node' % op)
                ctx.label('unreachable')
                continue
            if m == 'timeout':
                check(err in ('connection', 'timeout'), 'direct call with a hanging node: %r', err)
                continue
            if m != 'up':
                eq(err, 'connection' if op == 'broadcast' or (op == 'send' and m == 'reject') else 'node', '%s when the node answers %s' % (op, m))
                ctx.label('node error')
                continue
            if op == 'lookup?':
                eq(err, 'node' if srv else None, 'lookup of an unknown transaction')
                ctx.label('unknown transaction')
                continue
            eq(err, None, 'error of %s' % op)
            if op == 'balance':
                spent = chs[net].addr(addr).get('spent', 0) if srv else 0
                if spent and got == chs[net].balance(addr) + spent:
                    ctx.known.append(KNOWN)
                else:
                    eq(got, chs[net].balance(addr), 'balance')
                check(isinstance(got, int), 'balance is %r', got)
            elif op == 'unspents':
                eq(sorted(record(u) for u in got), chs[net].expected(addr), 'unspents')
            elif op == 'history':
                ids = sorted(t['txid'] for t in chs[net].addr(addr)['txs'])
                conf = sorted(t['txid'] for t in chs[net].addr(addr)['txs'] if t['height'] is not None)
                check(sorted(got) == ids or (not srv and net == 'test' and sorted(got) == conf), 'history: %r', got)
            elif op == 'lookup':
                eq(got, raws[net][txid], 'transaction')
            elif op == 'key':
                want = sorted(u for kk in w.kinds for u in chs[net].expected(w.addresses[kk]))
                eq(sorted(record(u) for u in got), want, 'unspents of the key')
            elif op == 'key view':
                ids = sorted({t['txid'] for kk in w.kinds for t in chs[net].addr(w.addresses[kk])['txs']})
                conf = {
                    t['txid'] for kk in w.kinds for t in chs[net].addr(w.addresses[kk])['txs'] if t['height'] is not None
                }
                eq(got[0], avail, 'balance of the key')
                check(
                    sorted(set(got[1])) == ids or (not srv and net == 'test' and set(got[1]) == conf), 'transactions: %r', got[1]
                )
            elif op == 'send':
                if srv:
                    subs = [g for g in srv.got[mark[id(srv)] :] if g[0] == 'sendrawtransaction']
                    eq(len(subs), 1, 'submissions')
                    raw = subs[0][1][0]
                else:
                    raw = [v for r in log if r.method == 'POST' for v in r.fields().values() if isinstance(v, str) and len(v) > 20][0]
                prev = {}
                for kk in w.kinds:
                    for u in chs[net].addr(w.addresses[kk])['utxos']:
                        prev[(u['txid'], u['vout'])] = (w.scripts[kk], u['value'], kk, None)
                v = View(raw, prev)
                v.verify()
                eq(v.tx.txid(), got, 'id of the transaction sent')
                eq(v.fee, c['fee'], 'fee')
                eq((v.tx.vout[0]['amount'], v.tx.vout[0]['script']), (1000, dest['script']), 'payment')
            elif op == 'echo':
                eq(got, c['params'], 'result of a direct call')
                eq(srv.got[-1], (c['ns'] + ('.' if c['ns'] else '') + 'echo', c['params']), 'direct call')
            elif op == 'direct':
                eq(got, chs[net].tip, 'result of a direct call')
                eq(srv.got[-1], ('getblockcount', []), 'direct call')
            elif op == 'broadcast' and srv:
                eq([g for g in srv.got[mark[id(srv)] :]], [('sendrawtransaction', [tx])], 'submission')
            ctx.label('%s %s' % (op, 'node' if srv else 'web'))
    ctx.trivial(not hit)


def many(tier):
    """Addresses with long lists of outputs and transactions."""
    out = []
    for n, ntx, ops in ((3000, 1, ('unspents', 'key')), (2, 3000, ('balance', 'unspents', 'history', 'key', 'key view'))):
        node = {'user': 'u', 'password': 'p', 'host': 'btc-node', 'https': False, 'path': '', 'refusal': 0}
        c = {
            'connect': [dict(node, net='main', port=8332), dict(node, net='test', port=18332)],
            'w': {net: {'type': 'single', 'net': net, 'secret': 77 + n, 'compressed': True} for net in ('main', 'test')},
            'spec': {'seed': n, 'n': n, 'ntx': ntx, 'mem': 1, 'tip': 654321},
            'steps': [(op, net, 'up', k) for op in ops for net in ('main', 'test') for k in (False, True)],
            'defaults': False,
            'params': [],
            'ns': '',
            'fee': 1000,
            'pay': None,
            'pay_test': None,
        }
        out.append(c)
    return out


SUBS = [Sub('node', cases(), run, 1600, 60000, enumerate_=many)]
