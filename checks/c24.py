import math
from fractions import Fraction

from hypothesis import strategies as st

import bit
from bit.exceptions import InsufficientFunds
from checks.c20 import record
from lib import btc, gen, money, scen, world
from lib.core import Sub, check, eq, raises
from lib.net import NAMES, Net, Web
from lib.scen import View, Wallet

PROPERTY = 'C24'
QUICK_SCALE = 2
LEVEL = 'exploration'
RULE = (
    'Cases: all four key classes, compressed or not, m-of-n; sequences of 1..4 chain states of the two addresses '
    '(growing, shrinking, empty; shared transactions), with some explorers failing, and in each state refreshes by '
    'get_unspents, get_balance and get_transactions and spending without supplying unspents, beside two further keys with views of their own; up to 310 outputs and 390 transactions. Non-trivial: an unspent '
    'was seen. Oracle: the simulated chain state; script verification and fee bounds of the transaction spent.'
)

SOME_TX = btc.Tx(1, [{'txid': '11' * 32, 'vout': 0, 'script': b'', 'sequence': 0xFFFFFFFF, 'witness': []}], [{'amount': 1000, 'script': btc.p2pkh_script(b'7' * 20)}], 0).serialize().hex()

few = st.sampled_from([0, 0, 1, 1, 2, 3, 4])


@st.composite
def states(draw):
    out = []
    for i in range(draw(st.integers(1, 4))):
        out.append(
            {
                'spec': draw(world.specs(few, st.one_of(few, st.integers(0, 30)), (0, 0, 1))),
                'n2': draw(few),
                'ntx2': draw(few),
                'shared': draw(st.booleans()),
                'ops': draw(st.lists(st.sampled_from(['unspents', 'balance', 'transactions', 'spend', 'fail', 'half', 'half history']), min_size=1, max_size=4)),
                'down': draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True)),
            }
        )
    return out


@st.composite
def cases(draw):
    w = draw(st.one_of(scen.single(), scen.contract(max_n=4), scen.contract(max_n=15)))
    return {
        'w': w,
        'states': draw(states()),
        'rate': draw(st.integers(1, 50)),
        'dest': draw(gen.destinations(net=w['net'])),
        'share': draw(st.sampled_from([2, 3, 10])),
        'unit': draw(st.sampled_from(['satoshi', 'btc', 'mbtc'])),
    }


def spend(c, ctx, w, key, ch, web):
    utxos = [
        {'k': k, 'a': u['value'], 't': u['txid'], 'n': u['vout']} for k, a in w.addresses.items() for u in ch.addr(a)['utxos']
    ]
    total = sum(u['a'] for u in utxos)
    r = c['rate']
    if not utxos:
        return
    amount = max(1, total // c['share'])
    most = amount + r * (sum(w.vsize(u['k']) for u in utxos) + 200)
    try:
        raw = key.create_transaction([(c['dest']['addr'], amount, 'satoshi')], fee=r)
    except InsufficientFunds:
        check(total < most, 'refused although %d suffices', total)
        ctx.label('insufficient')
        return
    if not w.multi and c['share'] != 3:
        # the same transaction, unsigned and composed elsewhere, is signed with what the key knows itself
        t = btc.parse_tx(raw)
        for x in t.vin:
            x['script'], x['witness'] = b'', []
        bare = btc.Tx(t.version, t.vin, t.vout, t.locktime).serialize().hex()
        fresh = w.key()
        eq(fresh.sign_transaction(bare), raw, 'the transaction signed without supplying unspents')
        eq(fresh.balance, total, 'balance of the key that fetched its unspents in order to sign')
        ctx.label('signed without unspents')
    if w.multi:
        me, done = w.spec['me'] % w.signers, 1
        for i in range(w.signers):
            if i != me and done < w.m:
                raw = w.key(i).sign_transaction(raw)
                done += 1
    v = View(raw, w.prevouts(utxos))
    v.verify()
    eq(sorted(v.points), sorted((u['t'], u['n']) for u in utxos), 'outputs spent')
    eq((v.tx.vout[0]['amount'], v.tx.vout[0]['script']), (amount, c['dest']['script']), 'payment')
    slack = math.ceil(sum(1 for p in v.prev if p[2] == 'legacy') / 4) if v.tx.segwit else 0
    slack += 2 * (len(v.tx.vin) > 252)
    V = v.tx.vsize()
    check(v.fee >= r * (V - slack), 'fee %d for %d vB, requested %d', v.fee, V, r)
    maxv = sum(w.vsize(p[2]) for p in v.prev) + 8 + 2 + 0.5 + 2 * 43 + 2 + 2 * (len(v.tx.vin) > 252)
    check(v.fee <= r * maxv, 'fee %d for %d vB, requested %d', v.fee, V, r)
    ctx.label('spent ' + '+'.join(sorted({p[2] for p in v.prev})))


def run(c, ctx):
    w = Wallet(c['w'])
    key = w.key()
    others = [w.key(), gen.make_key(bit, 0x6A09E667F3BCC908BB67AE8584CAA73B3C6EF372FE94F82B + c['rate'], w.net)]  # further keys of the program, refreshed on their own
    views = [([], 0, []), ([], 0, [])]
    kinds = w.kinds
    seen = 0
    for i, s in enumerate(c['states']):
        legacy = world.state(s['spec'], 'L%d' % i)
        segwit = world.state(dict(s['spec'], n=s['n2'], ntx=s['ntx2']), 'S%d' % i)
        if s['shared'] and legacy['txs']:
            segwit['txs'] = [t for t in legacy['txs'][:1]] + [t for t in segwit['txs'] if (t['height'] is None) <= (legacy['txs'][0]['height'] is None)]
        addresses = {w.addresses['legacy']: legacy}
        if 'segwit' in kinds:
            addresses[w.addresses['segwit']] = segwit
        ch = world.chains(w.net, s['spec']['tip'], addresses, other={a: world.state(dict(s['spec'], n=2, ntx=2), 'X') for a in w.addresses.values()})
        want = sorted(u for a in addresses for u in ch[w.net].expected(a))
        conf = {t['txid'] for a in addresses for t in addresses[a]['txs'] if t['height'] is not None}
        unconf = {t['txid'] for a in addresses for t in addresses[a]['txs'] if t['height'] is None}
        need = set(world.SUPPORT[('history', w.net)])
        down = s['down'] if set(s['down']) < need else []
        web = Web(ch, {n: 'conn' for n in down})
        for op in s['ops']:
            with Net(web).active():
                before = (sorted(record(u) for u in key.unspents), key.balance, sorted(key.transactions))
                if op == 'fail':
                    # an unsuccessful refresh in between
                    web.faults = {n: 'timeout' for n in NAMES}
                    for refresh in (key.get_unspents, key.get_balance, key.get_transactions):
                        try:
                            refresh()
                        except ConnectionError:
                            pass
                        else:
                            check(False, 'refreshed although every explorer fails')
                    pay = [(c['dest']['addr'], 1000, 'satoshi')]
                    needs = {
                        'create_transaction': lambda: key.create_transaction(pay, fee=c['rate']),
                        'sign_transaction': lambda: key.sign_transaction(SOME_TX),
                        'prepare_transaction': lambda: w.cls().prepare_transaction(w.addresses['legacy'], pay, fee=c['rate']),
                    }
                    if not w.multi:
                        needs['send'] = lambda: key.send(pay, fee=c['rate'])
                    for name, go in needs.items():
                        raises(ConnectionError, go, '%s without unspents although every explorer fails' % name)
                    eq((sorted(record(u) for u in key.unspents), key.balance, sorted(key.transactions)), before, 'view after a failed refresh')
                    web.faults = {n: 'conn' for n in down}
                elif op == 'half':
                    # the refresh may fail half way
                    web.faults = {n: 'timeout' for n in NAMES}
                    web.faults[NAMES[c['rate'] % 4]] = ('after', web.seen[NAMES[c['rate'] % 4]] + 1 + c['share'] % 2, 'conn')
                    try:
                        got = key.get_unspents()
                    except ConnectionError:
                        ctx.label('failed half way')
                        eq((sorted(record(u) for u in key.unspents), key.balance), before[:2], 'view after a refresh that failed half way')
                    else:
                        eq(sorted(record(u) for u in got), want, 'unspents')
                        eq(key.balance, sum(u[0] for u in want), 'key.balance')
                    web.faults = {n: 'conn' for n in down}
                elif op == 'half history':
                    web.faults = {n: 'timeout' for n in NAMES}
                    name = [n for n in NAMES if n in world.SUPPORT[('history', w.net)]][c['rate'] % 3]
                    web.faults[name] = ('after', web.seen[name] + 1 + c['share'] % 3, 'conn')
                    try:
                        key.get_transactions()
                    except ConnectionError:
                        ctx.label('history failed half way')
                        eq(sorted(key.transactions), before[2], 'transactions after a refresh that failed half way')
                    web.faults = {n: 'conn' for n in down}
                elif op == 'unspents':
                    got = key.get_unspents()
                    eq(sorted(record(u) for u in got), want, 'unspents')
                    eq(sorted(record(u) for u in key.unspents), want, 'key.unspents')
                    eq(key.balance, sum(u[0] for u in want), 'key.balance')
                elif op == 'balance':
                    sat = sum(u[0] for u in want)
                    got = key.get_balance(c['unit'])
                    d = money.NATIVE[c['unit']]
                    eq(got, money.floor_text(Fraction(sat, 10 ** d), d), 'get_balance(%r)' % c['unit'])
                    eq(key.balance, sat, 'key.balance')
                    eq(sorted(record(u) for u in key.unspents), want, 'key.unspents')
                    eq(key.balance_as('satoshi'), str(sat), 'balance_as')
                elif op == 'transactions':
                    got = key.get_transactions()
                    eq(sorted(got), sorted(key.transactions), 'key.transactions')
                    check(set(got) <= conf | unconf and set(got) >= (conf if w.net == 'test' else conf | unconf), 'transactions: %r, expected %r', sorted(got)[:5], sorted(conf | unconf)[:5])
                    shared = sum(1 for t in got if got.count(t) > 1)
                    check(shared <= 2, 'transactions listed more than once: %r', got[:5])
                    if shared:
                        check(s['shared'] and 'segwit' in kinds, 'a transaction is listed twice')
                else:
                    spend(c, ctx, w, key, ch[w.net], web)
                for o, view in zip(others, views):
                    eq((sorted(record(u) for u in o.unspents), o.balance, sorted(o.transactions)), view, 'view of another key that was not refreshed')
                if c['share'] == 3 and op in ('unspents', 'balance'):
                    # the other instance catches up, the key itself keeps its view
                    before = (sorted(record(u) for u in key.unspents), key.balance, sorted(key.transactions))
                    others[0].get_unspents()
                    views[0] = (want, sum(u[0] for u in want), [])
                    eq((sorted(record(u) for u in key.unspents), key.balance, sorted(key.transactions)), before, 'view of the key after another one was refreshed')
                    others[1].get_balance()
                    eq(others[1].unspents, [], 'unspents of a key without funds')
                    ctx.label('two keys refreshed')
            seen += len(want)
    ctx.label(w.cls().__name__ + ('' if 'segwit' in kinds else ' without segwit'), '%d states' % len(c['states']))
    ctx.trivial(not seen)


def many(tier):
    """Addresses with many outputs and a long history."""
    out = []
    for k, (n, ntx, n2, ntx2) in enumerate(((12, 30, 12, 30), (60, 70, 45, 60), (105, 130, 3, 3), (3, 2, 130, 160), (170, 210, 140, 180), (300, 40, 0, 0))):
        for multi in (False, True):
            if n > 100 and multi and tier == 'quick' and k != 2:
                continue
            net = 'main' if (k + multi) % 2 else 'test'
            first = {'spec': {'seed': k, 'n': n, 'ntx': ntx, 'mem': 0, 'tip': 1000}, 'n2': n2, 'ntx2': ntx2, 'shared': False, 'ops': ['unspents', 'transactions', 'balance', 'spend'], 'down': []}
            second = dict(first, spec=dict(first['spec'], n=2, ntx=1), n2=1, ntx2=1)
            out.append(
                {
                    'w': scen.contract_spec(net) if multi else scen.key_spec(net), 'states': [first, second, first], 'rate': 2,
                    'dest': {'addr': btc.p2pkh_address(b'd' * 20, net), 'script': btc.p2pkh_script(b'd' * 20)}, 'share': 2 + k % 2, 'unit': 'btc',
                }
            )
    return out


SUBS = [Sub('refresh', cases(), run, 2500, 60000, enumerate_=many)]
