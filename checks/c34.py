import re

from hypothesis import strategies as st

from bit.exceptions import InsufficientFunds
from bit.network import NetworkAPI
from checks.c20 import record
from lib import btc, gen, scen, world
from lib.core import Sub, Violation, check, eq
from lib.net import NAMES, Net, Web
from lib.scen import Wallet

PROPERTY = 'C34'
LEVEL = 'exploration'
RULE = (
    'Cases: 2..4 wallets of one network (keys, compressed or not, and m-of-n contracts), initial funds, and 2..10 steps: '
    'payments between them (sent, created and broadcast, prepared offline, batched from two wallets, sweeps), fee bumps '
    'of replaceable payments, use of outdated unspents, blocks, explorers going down and up. Non-trivial: a transaction '
    'was accepted that spends an output of an earlier one. Oracle: a ledger that verifies every submission (scripts, '
    'double spends, BIP 125 replacement), applies it and answers the explorers\' queries; the requests made.'
)


class Ledger:
    def __init__(self, net, wallets, funds):
        self.net, self.tip, self.n = net, 100, 0
        self.txs = {}  # txid -> {'tx', 'height', 'spends', 'fee', 'seq'}
        self.coins = {}  # (txid, n) -> (script, value)
        self.spent = {}  # (txid, n) -> spending txid
        self.scripts = {}  # script -> address
        self.order = []
        for w in wallets:
            for k in w.kinds:
                self.scripts[w.scripts[k]] = w.addresses[k]
        for i, (w, kind, value, conf) in enumerate(funds):
            txid = gen.derived_txid(i, 'fund')
            self.txs[txid] = {'tx': None, 'height': 50 + i if conf else None, 'spends': [], 'fee': 0, 'rbf': False}
            self.order.append(txid)
            self.coins[(txid, i)] = (w.scripts[kind if kind in w.scripts else 'legacy'], value)
        self.supply = sum(v for _, v in self.coins.values())
        self.fees = 0
        self.reason = None
        self.chain = world.chains(net, self.tip, {})
        self.publish()

    def unspent(self):
        return {p: c for p, c in self.coins.items() if p not in self.spent}

    def mine(self):
        self.tip += 1
        for t in self.txs.values():
            if t['height'] is None:
                t['height'] = self.tip
        self.publish()

    def drop(self, txid):
        for p in [p for p in self.coins if p[0] == txid]:
            if p in self.spent:
                self.drop(self.spent[p])
            del self.coins[p]
        t = self.txs.pop(txid)
        self.order.remove(txid)
        self.fees -= t['fee']
        for p in t['spends']:
            del self.spent[p]

    def submit(self, raw):
        """None when accepted, else the reason."""
        try:
            tx = btc.parse_tx(raw)
        except (btc.ParseError, ValueError) as e:
            return 'malformed: %s' % e
        if not tx.vin or not tx.vout:
            return 'no inputs or outputs'
        points = [(i['txid'], i['vout']) for i in tx.vin]
        if len(set(points)) != len(points):
            return 'spends an output twice'
        for i, p in enumerate(points):
            if p not in self.coins:
                return 'missing input'
            script, value = self.coins[p]
            try:
                btc.verify_input(tx, i, script, value)
            except btc.ScriptError as e:
                return 'input %d is not valid: %s' % (i, e)
        fee = sum(self.coins[p][1] for p in points) - sum(o['amount'] for o in tx.vout)
        if fee < 0:
            return 'creates value'
        conflicts = {self.spent[p] for p in points if p in self.spent}
        for t in conflicts:
            if self.txs[t]['height'] is not None or not self.txs[t]['rbf']:
                return 'double spend'
        if conflicts and fee <= sum(self.txs[t]['fee'] for t in conflicts):
            return 'double spend'
        for t in conflicts:
            if t in self.txs:
                self.drop(t)
        if any(p not in self.coins for p in points):
            return 'spends an output of what it replaces'
        txid = tx.txid()
        self.txs[txid] = {'tx': tx, 'height': None, 'spends': points, 'fee': fee, 'rbf': any(i['sequence'] < 0xFFFFFFFE for i in tx.vin)}
        self.order.append(txid)
        self.fees += fee
        for p in points:
            self.spent[p] = txid
        for n, o in enumerate(tx.vout):
            if o['script'] in self.scripts:
                self.coins[(txid, n)] = (o['script'], o['amount'])
            elif not scen.is_data(o):
                raise Violation('an output that nobody asked for: %s' % o['script'].hex())
        self.publish()
        return None

    def publish(self):
        out = {a: {'utxos': [], 'txs': []} for a in self.scripts.values()}
        free = self.unspent()
        for p, (script, value) in free.items():
            out[self.scripts[script]]['utxos'].append({'txid': p[0], 'vout': p[1], 'value': value, 'height': self.txs[p[0]]['height']})
        for txid in sorted(self.order[::-1], key=lambda t: -(self.txs[t]['height'] or 10 ** 9)):
            t = self.txs[txid]
            touched = {self.scripts[s] for p, (s, _) in self.coins.items() if p[0] == txid}
            touched |= {self.scripts[self.coins[p][0]] for p in t['spends']}
            for a in touched:
                out[a]['txs'].append({'txid': txid, 'height': t['height']})
        c = self.chain[self.net]
        c.tip = self.tip
        c.addresses = out
        c.raw = {}


class Player:
    """A wallet as its owner holds it: one object per participant."""

    def __init__(self, w):
        self.w = w
        self.keys = [w.key(i) for i in range(w.signers)] if w.multi else [w.key()]
        self.old = None  # unspents as of some earlier moment

    def finish(self, raw, start, order, given=None):
        """Signatures of further participants, as many as needed."""
        kw = {} if given is None else {'unspents': given}
        rest = [i for i in order if i < len(self.keys) and i != start] + [
            i for i in range(len(self.keys)) if i != start and i not in order
        ]
        for i in rest[: self.w.m - 1]:
            raw = self.keys[i].sign_transaction(raw, **kw)
        return raw


OPS = ['send', 'send', 'send', 'create', 'offline', 'batch', 'sweep', 'bump', 'bump', 'keep', 'stale', 'mine', 'down']


@st.composite
def steps(draw, n):
    op = draw(st.sampled_from(OPS))
    return {
        'op': op,
        'i': draw(st.integers(0, n - 1)),
        'j': draw(st.integers(0, n - 1)),
        'pays': draw(
            st.lists(
                st.tuples(st.integers(0, n - 1), st.sampled_from(['legacy', 'segwit']), st.one_of(st.integers(1, 300), st.integers(1, 900))), min_size=1, max_size=3
            )
        ),
        'fee': draw(st.integers(1, 30)),
        'abs': draw(st.booleans()),
        'combine': draw(st.booleans()),
        'rbf': draw(st.booleans()),
        'msg': draw(st.sampled_from([None, None, 'note', 'x' * 100])),
        'left': draw(st.sampled_from([None, None, 'legacy', 'segwit'])),
        'order': draw(st.permutations(range(3))),
        'down': draw(st.lists(st.sampled_from(NAMES[:4]), max_size=2, unique=True)),
        'given': draw(st.booleans()),
    }


@st.composite
def cases(draw):
    net = draw(gen.nets)
    n = draw(st.integers(2, 4))
    ws = [draw(st.one_of(scen.single(net=net), scen.single(net=net), scen.contract(net=net, max_n=3))) for _ in range(n)]
    used = set()
    for i, w in enumerate(ws):  # different wallets
        secrets = w['secrets'] if w['type'] != 'single' else [w['secret']]
        secrets = [x if x not in used else x * 7919 % (2 ** 250) + i + 2 for x in secrets]
        used.update(secrets)
        if w['type'] == 'single':
            w['secret'] = secrets[0]
        else:
            w['secrets'] = secrets
    return {
        'net': net,
        'ws': ws,
        'funds': [(i, draw(st.sampled_from(['legacy', 'segwit'])), draw(st.integers(20000, 10 ** 7)), True) for i in range(n)]
        + draw(
            st.lists(
                st.tuples(st.integers(0, n - 1), st.sampled_from(['legacy', 'segwit']), st.integers(5000, 10 ** 7), st.booleans()),
                max_size=6,
            )
        ),
        'steps': [draw(steps(n)) for _ in range(draw(st.sampled_from([2, 4, 6, 8, 8, 10])))],
    }


def run(c, ctx):
    ws = [Wallet(w) for w in c['ws']]
    if len({w.addresses['legacy'] for w in ws}) < len(ws) or len({w.addresses.get('segwit', w.addresses['legacy']) for w in ws}) < len(ws):
        ctx.trivial()
        return
    led = Ledger(c['net'], ws, [(ws[i], k, v, conf) for i, k, v, conf in c['funds']])
    players = [Player(w) for w in ws]
    web = Web(led.chain)
    deep = 0

    def route(req):
        e = [e for e in web.explorers.values() if req.host in e.hosts]
        if req.method == 'POST' and e and not web.faults.get(e[0].name):
            txs = re.findall('[0-9a-fA-F]{100,}', req.body)
            check(len(txs) == 1, '%d transactions in one submission', len(txs))
            led.reason = led.submit(txs[0])
            for x in web.explorers.values():
                x.accept = led.reason is None
        return web(req)

    def broadcast(raw):
        getattr(NetworkAPI, 'broadcast_tx' if c['net'] == 'main' else 'broadcast_tx_testnet')(raw)
        return btc.parse_tx(raw).txid()

    def attempt(what, go, stale=False):
        """-> id of the accepted transaction or None."""
        led.reason = 'nothing was submitted'
        n = len(led.order)
        known = set(led.order)
        try:
            txid = go()
        except InsufficientFunds:
            eq(len(led.order), n, 'transactions although the funds were insufficient')
            ctx.label('insufficient')
            return None
        except ConnectionError as e:
            check(stale and led.reason in ('double spend', 'missing input', 'spends an output of what it replaces'), '%s: refused by the network: %s', what, led.reason)
            eq(set(led.order) - known, set(), 'transactions although the network refused')
            ctx.label('refused ' + led.reason)
            return None
        check(led.reason is None, '%s: reported as sent, the network: %s', what, led.reason)
        eq(set(led.order) - known, {txid}, '%s: new transactions' % what)
        ctx.label(what)
        return txid

    def target(j, kind):
        w = ws[j % len(ws)]
        kind = kind if kind in w.scripts else 'legacy'
        return w.addresses[kind], w.scripts[kind]

    last = None
    with Net(route, max_requests=5000).active():
        for s in c['steps']:
            op = s['op']
            p = players[s['i']]
            w = p.w
            start = s['order'][0] % len(p.keys)
            key = p.keys[start]
            mine = {q: x for q, x in led.unspent().items() if x[0] in w.scripts.values()}
            total = sum(v for _, v in mine.values())
            if op == 'mine':
                led.mine()
            elif op == 'down':
                web.faults = {n: 'conn' for n in s['down']}
            elif op == 'keep':
                p.old = list(key.get_unspents())
            else:
                outs, want = [], []
                if op not in ('sweep',):
                    for j, kind, share in s['pays']:
                        a, script = target(j, kind)
                        sat = max(1, total * share // 1000 // len(s['pays']))
                        outs.append((a, sat, 'satoshi'))
                        want.append((sat, script))
                left = target(s['j'], s['left']) if s['left'] or op == 'sweep' else None
                opts = dict(
                    fee=s['fee'] * (200 if s['abs'] else 1), absolute_fee=s['abs'], combine=s['combine'] or op == 'sweep', replace_by_fee=s['rbf'],
                    message=s['msg'], leftover=left and left[0],
                )  # fmt: skip
                given = None
                if op == 'bump':
                    if not last or last['txid'] not in led.txs or led.txs[last['txid']]['height'] is not None or last['given'] is None:
                        continue
                    p, w, key, start = last['p'], last['p'].w, last['key'], last['start']
                    outs, want, left, given = last['outs'], last['want'], last['left'], last['given']
                    opts = dict(last['opts'], fee=last['opts']['fee'] * 2 + 1)
                elif not mine and op != 'stale':
                    continue
                elif op == 'stale':
                    if p.old is None or not p.old:
                        continue
                    given = p.old
                elif op == 'batch':
                    q = players[s['j']]
                    if q is p:
                        continue
                    given = list(key.get_unspents()) + list(q.keys[0].get_unspents())
                elif s['given']:
                    given = list(key.get_unspents())
                if given is not None:
                    opts['unspents'] = given

                def go():
                    if op == 'offline':
                        us = opts.get('unspents') or key.get_unspents()
                        kind = 'segwit' if 'segwit' in w.addresses and any(u.segwit for u in us) else 'legacy'
                        data = w.cls().prepare_transaction(w.addresses[kind], outs, **dict(opts, unspents=us))
                        return broadcast(p.finish(key.sign_transaction(data), start, s['order'], given))
                    if op == 'batch':
                        raw = p.finish(key.create_transaction(outs, **opts), start, s['order'], given)
                        if any((i['txid'], i['vout']) not in mine for i in btc.parse_tx(raw, True).vin):
                            raw = q.finish(q.keys[0].sign_transaction(raw, unspents=given), 0, s['order'], given)
                        return broadcast(raw)
                    if not w.multi and op in ('send', 'sweep', 'stale', 'bump'):
                        return key.send(outs, **opts)
                    return broadcast(p.finish(key.create_transaction(outs, **opts), start, s['order'], given))

                before_rbf = op == 'bump' and led.txs[last['txid']]['rbf']
                prior = dict(led.coins)
                txid = attempt(op, go, stale=op == 'stale' or (op == 'bump'))
                if txid is None:
                    if op == 'bump' and before_rbf and opts['combine']:
                        check(led.reason != 'double spend', 'a replaceable payment could not be replaced at a higher fee')
                    continue
                t = led.txs[txid]
                if any(led.txs[x[0]]['tx'] is not None for x in t['spends']):
                    deep += 1
                outs_ = [(o['amount'], o['script']) for o in t['tx'].vout if not scen.is_data(o)]
                eq(outs_[: len(want)], want, 'payments')
                check(len(outs_) <= len(want) + 1, 'outputs: %r', outs_)
                if len(outs_) > len(want):
                    owner = [x for x in w.scripts.values()] if left is None else [left[1]]
                    check(outs_[-1][1] in owner, 'change goes to %r', outs_[-1][1])
                if opts['absolute_fee']:
                    eq(t['fee'], opts['fee'], 'fee')
                eq(t['rbf'], opts['replace_by_fee'], 'replaceable')
                if op not in ('batch',):
                    check(all(prior[x][0] in w.scripts.values() for x in t['spends']), 'spends outputs of another wallet')
                last = {'txid': txid, 'p': p, 'key': key, 'start': start, 'outs': outs, 'want': want, 'left': left, 'opts': opts, 'given': given} if op not in ('batch', 'offline') else None
            # every wallet sees its funds
            rest = 0
            for q in players:
                k = q.keys[s['order'][1] % len(q.keys)]
                want_u = sorted(u for a in q.w.addresses.values() for u in led.chain[c['net']].expected(a))
                eq(sorted(record(u) for u in k.get_unspents()), want_u, 'unspents after %s' % op)
                eq(k.balance, sum(u[0] for u in want_u), 'balance after %s' % op)
                rest += k.balance
                ids = {t['txid']: t['height'] for a in q.w.addresses.values() for t in led.chain[c['net']].addr(a)['txs']}
                got = set(k.get_transactions())
                conf = {t for t in ids if ids[t] is not None}
                check(got == set(ids) or (c['net'] == 'test' and conf <= got <= set(ids)), 'history after %s: %r', op, sorted(got))
            eq(rest + led.fees, led.supply, 'balances and fees after %s' % op)
    ctx.label('%d wallets' % len(ws))
    ctx.trivial(not deep)


SUBS = [Sub('ledger', cases(), run, 500, 20000)]
