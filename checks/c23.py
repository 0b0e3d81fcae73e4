import itertools
import random

from hypothesis import strategies as st

from bit.exceptions import InsufficientFunds
from checks.c20 import call
from lib import btc, gen, scen, world
from lib.core import Sub, check, eq
from lib.net import NAMES, Net, Web
from lib.scen import View, Wallet

PROPERTY = 'C23'
LEVEL = 'fault_enumeration'
RULE = (
    'Cases: each network with every combination of accepting, rejecting and failing explorers (enumerated), generated '
    'transactions and faults; sends from keys of both networks with given or fetched unspents, including ones that '
    'cannot be created. Non-trivial: something was submitted. Oracle: what the simulated explorers received, when, on '
    'which network; id and validity of the transaction by an independent implementation.'
)
KINDS = ['conn', 'timeout', 'ctimeout', 'hang', 'broken', '401', '402', '403', '429', '430', '500', '502', '503', '520']


def submissions(net_log, web):
    """[(explorer, network or None, tx)] in order; the transaction is the one field of that shape."""
    out = []
    for r in net_log:
        if r.method != 'POST':
            continue
        who = [e for e in web.explorers.values() if r.host in e.hosts]
        check(who, 'transaction submitted to an unknown host %s', r.host)
        netw = None
        for e in who:
            for n, req in e.received:
                if req is r:
                    netw = n
        out.append((who[0].name, netw, r))
    return out


def verify_log(net, tx, log, web, ok, accepting):
    subs = submissions(log, web)
    support = world.SUPPORT[('broadcast', net)]
    for who, netw, r in subs:
        fields = r.fields()
        sent = [v for v in fields.values() if isinstance(v, str) and len(v) > 20]
        eq(sent, [tx], 'transaction submitted to %s' % who)
        if netw is not None:
            eq(netw, net, 'network of the submission to %s' % who)
        else:
            check(web.faults.get(who), 'submitted to an address %s does not have: %s', who, r.url)
            right = ('testnet' in r.url) == (net == 'test')
            check(right, 'submitted to the wrong network: %s', r.url)
    names = [s[0] for s in subs]
    took = [n for n in names if n in accepting]
    if ok:
        eq(len(took), 1, 'accepting explorers that got the transaction')
        eq(names[-1], took[0], 'last submission')
    else:
        eq(took, [], 'accepted by')
        eq(sorted(set(names)), sorted(support), 'explorers tried before giving up')
    eq(len(set(names)), len(names), 'distinct explorers')
    return subs


def setup(c, ch):
    web = Web(ch, {n: b for n, b in c['beh'].items() if b not in ('accept', 'reject')})
    for n, e in web.explorers.items():
        e.accept = c['beh'].get(n, 'accept') == 'accept'
    accepting = [n for n in world.SUPPORT[('broadcast', c['net'])] if c['beh'].get(n, 'accept') == 'accept']
    return web, accepting


def broadcast(c, ctx):
    for beh in c.get('before', []):  # the same transaction was submitted before
        submit(dict(c, beh=beh), ctx)
    submit(c, ctx)


def submit(c, ctx):
    net = c['net']
    web, accepting = setup(c, world.chains(net, 100, {}))
    tx = c['tx'].hex() if isinstance(c['tx'], bytes) else c['tx']
    log = Net(web)
    with log.active():
        try:
            out = call('broadcast', net)(tx)
            ok = True
        except ConnectionError:
            ok = False
    eq(ok, bool(accepting), 'accepted')
    if ok:
        check(out is None or out is True, 'broadcast returns %r', out)
    subs = verify_log(net, tx, log.log, web, ok, accepting)
    ctx.trivial(not subs)
    ctx.label(net, 'accepted' if ok else 'refused by all', '%d submissions' % len(subs))


behaviours = st.fixed_dictionaries({n: st.sampled_from(['accept', 'reject', 'reject', 'fail']) for n in NAMES})


@st.composite
def beh(draw):
    b = draw(behaviours)
    return {n: (draw(st.sampled_from(KINDS)) if v == 'fail' else v) for n, v in b.items()}


@st.composite
def broadcast_cases(draw):
    return {
        'net': draw(gen.nets),
        'tx': draw(st.one_of(st.binary(min_size=60, max_size=300), st.just(b'\x01' * 5000))),
        'beh': draw(beh()),
        'before': draw(st.lists(beh(), max_size=2)),
    }


def combos(tier):
    out = []
    for net in ('main', 'test'):
        support = world.SUPPORT[('broadcast', net)]
        for mix in itertools.product(['accept', 'reject', 'conn', 'timeout'] if tier != 'quick' else ['accept', 'reject', 'timeout'], repeat=len(support)):
            out.append({'net': net, 'tx': bytes(range(80)), 'beh': dict(zip(support, mix))})
    return out


@st.composite
def send_cases(draw):
    w = draw(scen.single())
    utxos = draw(
        scen.coins(max_size=4, kinds=('legacy', 'segwit') if w['compressed'] else ('legacy',), amount=st.integers(10 ** 4, 10 ** 8))
    )
    total = sum(u['a'] for u in utxos)
    bad = draw(st.sampled_from([None, None, None, 'funds', 'address', 'network', 'amount']))
    return {
        'w': w,
        'net': w['net'],
        'utxos': utxos,
        'pays': draw(scen.payments(w['net'], total // 3, max_size=2)),
        'fee': draw(st.integers(1, 20)),
        'abs': draw(st.booleans()),
        'msg': draw(st.sampled_from([None, None, 'hello', b'\xff\x00data'])),
        'leftover': draw(st.one_of(st.none(), gen.destinations(net=w['net']))),
        'combine': draw(st.sampled_from([True, True, False])),
        'rbf': draw(st.booleans()),
        'fetch': draw(st.booleans()),
        'other': draw(st.booleans()),
        'bad': bad,
        'beh': draw(beh()),
        'foreign': draw(gen.destinations(net='test' if w['net'] == 'main' else 'main'))['addr'],
    }


def send(c, ctx):
    w = Wallet(c['w'])
    net = c['net']
    addresses = {a: {'utxos': [], 'txs': []} for a in w.addresses.values()}
    known = c['utxos']
    if not c['fetch'] and c.get('other'):  # explorers know other outputs than those given
        known = [dict(u, t=gen.derived_txid('known', i), a=u['a'] * 3) for i, u in enumerate(known + known[:1])]
    for u in known:
        kind = u['k'] if u['k'] in w.addresses else 'legacy'
        addresses[w.addresses[kind]]['utxos'].append({'txid': u['t'], 'vout': u['n'], 'value': u['a'], 'height': 50})
    ch = world.chains(net, 100, addresses)
    web, accepting = setup(c, ch)
    # explorers that fail do so for submissions only
    faults, web.faults = web.faults, {}
    log = Net(lambda req: setattr(web, 'faults', faults if req.method == 'POST' else {}) or web(req))
    pays = scen.pay_args(c['pays'])
    total = sum(u['a'] for u in c['utxos'])
    if c['bad'] == 'funds':
        pays = pays + [(w.addresses['legacy'], total + 1, 'satoshi')]
    elif c['bad'] == 'address':
        pays = pays + [(w.addresses['legacy'][:-1] + '0', 1000, 'satoshi')]
    elif c['bad'] == 'network':
        pays = pays + [(c['foreign'], 1000, 'satoshi')]
    elif c['bad'] == 'amount':
        pays = pays + [(w.addresses['legacy'], -5, 'satoshi')]
    kw = dict(fee=c['fee'] * (300 if c['abs'] else 1), absolute_fee=c['abs'], message=c['msg'], replace_by_fee=c['rbf'])
    kw['message_is_hex'] = isinstance(c['msg'], bytes)
    kw['leftover'] = c['leftover'] and c['leftover']['addr']
    kw['combine'] = c['combine']
    random.seed(c['fee'])
    key = w.key()
    if not c['fetch']:
        kw['unspents'] = w.unspents(c['utxos'])
    with log.active():
        try:
            txid = key.send(pays, **scen.sparse(kw))
            ok = True
        except ConnectionError:
            ok = False
        except (ValueError, ArithmeticError, InsufficientFunds):
            eq([r.url for r in log.log if r.method == 'POST'], [], 'submissions although no transaction was created')
            check(c['bad'] or sum(p['sat'] for p in c['pays']) * 2 > total or total < 20 * 250 * 4, 'refused')
            ctx.label('not created: ' + str(c['bad'] or 'funds'))
            return
    check(c['bad'] is None, 'sent in spite of bad %s', c['bad'])
    eq(ok, bool(accepting), 'accepted')
    posts = [r for r in log.log if r.method == 'POST']
    check(posts, 'nothing submitted')
    raw = [v for v in posts[0].fields().values() if isinstance(v, str) and len(v) > 20][0]
    web.faults = faults
    verify_log(net, raw, log.log, web, ok, accepting)
    v = View(raw, w.prevouts(c['utxos']))
    v.verify()
    n = len(c['pays'])
    want = c['msg'] if isinstance(c['msg'], bytes) else (c['msg'] or '').encode()
    eq([(o['amount'], o['script']) for o in v.tx.vout[:n]], [(p['sat'], p['script']) for p in c['pays']], 'payments')
    if c['abs']:
        eq(v.fee, kw['fee'], 'fee')
    eq(any(i['sequence'] < 0xFFFFFFFE for i in v.tx.vin), c['rbf'], 'replaceable')
    eq(b''.join(scen.parse_data(o['script']) for o in v.tx.vout if scen.is_data(o)), want, 'message')
    rest = [o for o in v.tx.vout[n:] if not scen.is_data(o)]
    check(len(rest) <= 1, '%d outputs beyond the payments', len(rest))
    if rest and c['leftover']:
        eq(rest[0]['script'], c['leftover']['script'], 'leftover')
    if c['combine']:
        eq(len(v.tx.vin), len(c['utxos']), 'inputs when combining')
    if ok:
        eq(txid, v.tx.txid(), 'returned id')
    ctx.label(w.cls().__name__, 'accepted' if ok else 'refused by all', 'fetched' if c['fetch'] else 'given')


SUBS = [
    Sub('broadcast', broadcast_cases(), broadcast, 1500, 50000, enumerate_=combos),
    Sub('send', send_cases(), send, 900, 30000),
]
