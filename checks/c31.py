import decimal
import json
import random

from hypothesis import strategies as st

from bit.exceptions import InsufficientFunds
from lib import btc, gen, scen, world
from lib.core import Sub, check, eq
from lib.net import Net, Web
from lib.scen import View, Wallet, offline

PROPERTY = 'C31'
LEVEL = 'exploration'
RULE = (
    'Cases: histories of 2..6 calls (create, prepare, sign prepared data, sign by further signers, refused calls) of '
    'one key or contract that share one list of unspents and one list of payments, with changing options (fee rate or '
    'absolute fee, message, leftover, replacement, selection); and the same with unspents fetched from simulated '
    'explorers. Non-trivial: at least two calls that produce a transaction. Oracle: snapshots of everything the caller '
    'passed and of the key before and after each call; the result of the same call made alone with fresh objects '
    '(identical when combining; otherwise same outcome, payments, sequences and data outputs).'
)

REFUSED = ['far', 'rich', 'bad', 'bad-leftover', 'far-leftover']


@st.composite
def op(draw, net, total, fetched):
    k = draw(st.sampled_from(['create', 'create', 'create', 'prepare', 'create', 'refused']))
    other = 'test' if net == 'main' else 'main'
    return {
        'op': k,
        'why': draw(st.sampled_from(REFUSED)) if k == 'refused' else None,
        'prep': draw(st.booleans()),
        'far': draw(gen.destinations(net=other))['addr'],
        'leftover': draw(st.one_of(st.none(), st.none(), gen.destinations(net=net).map(lambda d: d['addr']))),
        'rbf': draw(st.booleans()),
        'abs': draw(st.booleans()),
        'combine': draw(st.booleans()),
        'fee': draw(st.sampled_from([1, 2, 7])),
        'msg': draw(st.sampled_from([None, None, 'a message', 'x' * 81, b'\x00\x01'])),
        'npay': draw(st.integers(0, 3)),
        'seed': draw(st.integers(0, 99)),
        'finish': draw(st.booleans()),
        'given': draw(st.booleans()) if fetched else True,
        'own': draw(st.booleans()),
    }


@st.composite
def cases(draw):
    fetched = draw(st.integers(0, 3)) == 0
    w = draw(st.one_of(scen.single(), scen.single(), scen.contract(max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    utxos = draw(
        scen.coins(
            max_size=6,
            kinds=('legacy', 'segwit') if comp else ('legacy',),
            amount=st.integers(10 ** 5, 10 ** 7),
            seqs=not fetched,
        )
    )
    total = sum(u['a'] for u in utxos)
    return {
        'w': w,
        'utxos': utxos,
        'fetched': fetched,
        'pays': draw(scen.payments(w['net'], total // draw(st.sampled_from([3, 10, 40])), min_size=1, max_size=3)),
        'ops': draw(st.lists(op(w['net'], total, fetched), min_size=2, max_size=6)),
    }


FIELDS = ('amount', 'confirmations', 'script', 'txid', 'txindex', 'type', 'vsize', 'segwit', 'sequence')


def snap(us):
    return [tuple(getattr(u, f) for f in FIELDS) for u in us]


def points(us):
    return [(u.txid, u.txindex) for u in us]


def call(w, key, c, o, pool, pays):
    """One call; returns ('ok', raw or prepared data) or ('refused', exception class)."""
    random.seed(o['seed'])
    kw = dict(
        fee=500 if o['abs'] else o['fee'],
        absolute_fee=o['abs'],
        combine=o['combine'],
        replace_by_fee=o['rbf'],
        leftover=o['leftover'],
    )
    if o['msg'] is not None:
        kw['message'] = o['msg']
        kw['message_is_hex'] = isinstance(o['msg'], bytes)
    if o['why'] == 'far-leftover':
        kw['leftover'], kw['combine'], kw['absolute_fee'], kw['fee'] = o['far'], True, True, 500
    elif o['why'] == 'bad-leftover':
        kw['leftover'] = 'bc1notanaddress'
    if o['given']:
        kw['unspents'] = pool
    kw = scen.sparse(kw, o['seed'])
    try:
        if o['op'] == 'prepare' or (o['op'] == 'refused' and o['prep']):
            return 'ok', w.cls().prepare_transaction(w.addresses['legacy'], pays, **kw)
        return 'ok', key.create_transaction(pays, **kw)
    except (InsufficientFunds, ValueError) as e:
        return 'refused', type(e).__name__


def outputs_for(c, o):
    out = scen.pay_args(c['pays'])[: o['npay']]
    if o['why'] == 'far':
        out.append((o['far'], 1000, 'satoshi'))
    elif o['why'] == 'rich':
        out.append((c['pays'][0]['addr'], sum(u['a'] for u in c['utxos']) + 1, 'satoshi'))
    elif o['why'] == 'bad':
        out.append(('1notanaddress', 1000, 'satoshi'))
    return out


def shape(raw, prev):
    v = View(raw, prev, True)
    return v, {p: i['sequence'] for p, i in zip(v.points, v.tx.vin)}, [o for o in v.tx.vout if scen.is_data(o)]


def run(c, ctx):
    w = Wallet(c['w'])
    prev = w.prevouts(c['utxos'])
    key = w.key()
    pool = w.unspents(c['utxos'])
    pays = []  # one list object, refilled by the caller
    made = 0
    if c['fetched']:
        st_ = {a: {'utxos': [], 'txs': [], 'spent': 0, 'mempool_spent': 0} for a in w.addresses.values()}
        for u in c['utxos']:
            k = u['k'] if u['k'] in w.scripts else 'legacy'
            st_[w.addresses[k]]['utxos'].append({'txid': u['t'], 'vout': u['n'], 'value': u['a'], 'height': 5})
        web = Web(world.chains(w.net, 5, st_), {})

    def go(fn, given):
        if given:
            return offline(fn)
        with Net(web).active():
            return fn()

    total = sum(u['a'] for u in c['utxos'])
    if c['fetched']:
        pool = go(lambda: key.get_unspents(), False) if c['ops'][0]['own'] else pool
        if pool is not key.unspents:
            go(lambda: key.get_unspents(), False)
    for o in c['ops']:
        if o['op'] == 'prepare' and not o['given']:
            o = dict(o, given=True)  # fetches for one address only: other rules
        if o['op'] == 'refused':
            o = dict(o, given=True)
        pays[:] = outputs_for(c, o)
        before = (snap(pool), list(map(id, pool)), list(pays), key.balance, snap(key.unspents), list(key.transactions))
        context = decimal.getcontext().copy()
        kind, got = go(lambda: call(w, key, c, o, pool, pays), o['given'])
        after = (snap(pool), list(map(id, pool)), list(pays), key.balance, snap(key.unspents), list(key.transactions))
        if o['given']:
            for a, b, what in zip(after, before, ('unspents given', 'unspent objects given', 'payments given', 'balance', "key's unspents", "key's transactions")):
                eq(a, b, what + ' after ' + o['op'])
        else:
            eq(sorted(points(key.unspents)), sorted(prev), "key's unspents after spending fetched ones")
            eq(key.balance, total, "key's balance after spending fetched ones")
            eq(list(pays), before[2], 'payments given')
            for u in key.unspents:
                eq(u.sequence, 0xFFFFFFFF, "sequence of the key's unspent after " + o['op'])
        now = decimal.getcontext()
        check(now.prec == context.prec and now.rounding == context.rounding, 'decimal context changed')

        # The same call, alone: fresh key, fresh unspents, fresh payments.
        alone = Wallet(c['w'])
        apool = alone.unspents(c['utxos'])
        if not o['given'] or pool is key.unspents:
            # order of the fetched ones
            order = points(key.unspents)
            apool.sort(key=lambda u: order.index((u.txid, u.txindex)))
        akind, agot = go(lambda: call(alone, alone.key(), c, o, apool, outputs_for(c, o)), o['given'])
        eq((kind, got if kind == 'refused' else None), (akind, agot if akind == 'refused' else None), 'outcome of the same call alone')
        if o['why']:
            eq(kind, 'refused', 'call with ' + o['why'])
        if kind == 'refused':
            ctx.label('refused')
            continue
        made += 1
        if o['combine']:
            eq(got, agot, 'result of the same call alone')
        raw = got
        if o['op'] == 'prepare':
            data = str(got)
            raw = offline(lambda: key.sign_transaction(data))
            again = offline(lambda: key.sign_transaction(data))
            eq(raw, again, 'signing the prepared data again')
            eq(json.loads(data), json.loads(got), 'prepared data')
            agot = offline(lambda: alone.key().sign_transaction(agot))
        v, seqs, data = shape(raw, prev)
        _, aseqs, adata = shape(agot, prev)
        for p, s in seqs.items():
            want = 0xFFFFFFFF if not o['given'] else prev[p][3]
            if o['rbf'] and want > 0xFFFFFFFD:
                want = 0xFFFFFFFD
            eq(s, want, 'sequence of an input')
        eq([x['script'] for x in data], [x['script'] for x in adata], 'data outputs')
        eq(
            [(x['script'], x['amount']) for x in v.tx.vout[: min(o['npay'], len(c['pays']))]],
            [(p['script'], p['sat']) for p in c['pays'][: o['npay']]],
            'payments',
        )
        if o['finish']:
            s0 = snap(pool)
            if w.multi:
                me, done = w.spec['me'] % w.signers, 1
                for i in range(w.signers):
                    if i != me and done < w.m:
                        k2 = w.key(i)
                        before_raw = raw
                        raw = offline(lambda: k2.sign_transaction(before_raw, unspents=pool))
                        eq(raw, offline(lambda: w.key(i).sign_transaction(before_raw, unspents=w.unspents(c['utxos']))), 'signing the same transaction again')
                        done += 1
            v = View(raw, prev)
            v.verify()
            eq(snap(pool), s0, 'unspents given after signing')
            ctx.label('completed')
        ctx.label(o['op'] + (' fetched' if not o['given'] else ''))
    ctx.label(w.cls().__name__)
    ctx.trivial(made < 2)


def many(tier):
    """Many unspents and payments in one list."""
    out = []
    for k, (n, pays) in enumerate(((14, 2), (3, 14), (40, 30), (130, 3), (5, 130))):
        net = 'main' if k % 2 else 'test'
        base = {'op': 'create', 'why': None, 'prep': False, 'far': btc.p2pkh_address(b'9' * 20, 'test' if net == 'main' else 'main'), 'leftover': None, 'rbf': False, 'abs': True, 'combine': True, 'fee': 2, 'msg': None, 'npay': pays, 'seed': k, 'finish': True, 'given': True, 'own': True}
        ops = [
            dict(base, rbf=True, msg='x' * 900),
            dict(base, op='prepare', npay=1),
            dict(base, combine=False),
            dict(base, abs=False, combine=False, finish=False),
            dict(base, op='refused', why='far', combine=False),
            dict(base, op='refused', why='rich', combine=False),
            dict(base, abs=False, npay=2),
        ]
        out.append({'w': scen.contract_spec(net) if k == 2 else scen.key_spec(net), 'utxos': scen.stack(n, amount=10 ** 7 // n, tag=k, seqs=(None, 3)), 'fetched': False, 'pays': scen.pile(net, pays), 'ops': ops})
    return out


SUBS = [Sub('history', cases(), run, 700, 40000, enumerate_=many)]
