import random

from hypothesis import strategies as st

from lib import btc, gen, scen
from lib.core import Sub, Violation, check, eq
from lib.scen import View, Wallet, offline

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = (
    'Cases: 2..4 wallets on one network (single keys, compressed or not, and m-of-n contracts), 1..2 outputs of each '
    'interleaved in random input order, and a random order of all signatures needed; each signer gets either all '
    'unspents or only its own, in any order and possibly among further ones; strangers who own no input may sign in between; up to 260 inputs and 20 owners. Non-trivial: at least two owners. '
    'Oracle: diff of the parsed transaction before and after each signer, then script verification of every input.'
)


@st.composite
def cases(draw):
    net = draw(gen.nets)
    ws = draw(
        st.lists(
            st.one_of(scen.single(net=net), scen.single(net=net), scen.contract(net=net, max_n=4)), min_size=2, max_size=4
        )
    )
    coins, owner = [], []
    for i, w in enumerate(ws):
        if w['type'] == 'single':
            kinds = ('legacy', 'segwit') if w['compressed'] else ('legacy',)
        else:
            kinds = ('legacy', 'segwit') if all(w['flags']) else ('legacy',)
        cs = draw(scen.coins(max_size=2, kinds=kinds, amount=st.integers(10 ** 5, 10 ** 9), seqs=True))
        for j, u in enumerate(cs):
            u['t'] = gen.derived_txid(draw(st.integers(0, 3)), 10 * i + j) if j == 0 else u['t']
        coins += cs
        owner += [i] * len(cs)
    if draw(st.integers(0, 2)) == 0:
        # outputs of one transaction to several of the wallets
        for i, u in enumerate(coins):
            u['t'], u['n'] = coins[0]['t'], (coins[0]['n'] + i) % 2 ** 32
    perm = draw(st.permutations(range(len(coins))))
    steps = []
    for i, w in enumerate(ws):
        if w['type'] == 'single':
            steps.append((i, 0))
        else:
            steps += [(i, s) for s in draw(st.permutations(range(len(w['secrets']))))[: w['m']]]
    steps = draw(st.permutations(steps))
    stranger = draw(st.integers(0, 3)) == 0
    return {
        'net': net,
        'ws': ws,
        'coins': [coins[p] for p in perm],
        'owner': [owner[p] for p in perm],
        'steps': list(steps),
        'order': draw(st.one_of(st.just(0), st.integers(1, 99))),
        'own_only': draw(st.lists(st.booleans(), min_size=len(steps), max_size=len(steps))),
        'stranger': draw(st.integers(1, len(steps))) if stranger else 0,
        'pays': draw(scen.payments(net, sum(u['a'] for u in coins) // 3, max_size=2)),
        'fee': draw(st.integers(1, 20000)),
        'prepare': draw(st.booleans()),
        'leftover': draw(st.one_of(st.none(), gen.destinations(net=net).map(lambda d: d['addr']))),
    }


def run(c, ctx):
    ws = [Wallet(w) for w in c['ws']]
    by_script = {}
    for i, w in enumerate(ws):
        for s in w.scripts.values():
            if by_script.setdefault(s, i) != i:
                ctx.trivial()  # two wallets drawn with the same key
                return
    points = [(u['t'], u['n']) for u in c['coins']]
    if len(set(points)) != len(points):
        ctx.trivial()
        return
    prev, owner = {}, {}
    for u, o in zip(c['coins'], c['owner']):
        prev.update(ws[o].prevouts([u]))
        owner[(u['t'], u['n'])] = o

    def unspents(only=None, order=0):
        out = []
        for u, o in zip(c['coins'], c['owner']):
            if only is None or only == o:
                out += ws[o].unspents([u])
        if order:
            # signers may know further outputs and list them in any order
            for i, w in enumerate(ws):
                out += w.unspents([{'k': 'legacy', 'a': 12345, 't': gen.derived_txid('further', i), 'n': i}])
            random.Random(order).shuffle(out)
        return out

    got = {i: set() for i in range(len(ws))}
    i0, s0 = c['steps'][0]
    opts = scen.sparse(dict(fee=c['fee'], absolute_fee=True, leftover=c['leftover']))
    if c['prepare']:
        data = offline(
            lambda: ws[i0].cls().prepare_transaction(
                ws[i0].addresses['legacy'], scen.pay_args(c['pays']), unspents=unspents(), **opts
            )
        )
        raw = offline(lambda: ws[i0].key(s0).sign_transaction(data))
    else:
        raw = offline(lambda: ws[i0].key(s0).create_transaction(scen.pay_args(c['pays']), unspents=unspents(), **opts))
    got[i0].add(s0)
    v = View(raw, prev, partial=True)
    eq(sorted(v.points), sorted(prev), 'inputs')

    def snapshot(tx):
        return (
            tx.version,
            [(i['txid'], i['vout'], i['sequence']) for i in tx.vin],
            [(o['amount'], o['script']) for o in tx.vout],
            tx.locktime,
        )

    shape = snapshot(v.tx)
    if len(v.tx.vout) > len(c['pays']):
        own = set(ws[i0].scripts.values()) if c['leftover'] is None else {btc.address_info(c['leftover'])[1]}
        check(v.tx.vout[len(c['pays'])]['script'] in own, 'change goes to %s', v.tx.vout[len(c['pays'])]['script'].hex())

    def complete(o):
        return len(got[o]) >= ws[o].m

    def judge(what):
        for i, p in enumerate(v.points):
            o = owner[p]
            if complete(o):
                try:
                    btc.verify_input(v.tx, i, v.prev[i][0], v.prev[i][1])
                except btc.ScriptError as e:
                    raise Violation('%s: input %d (%s) of a complete owner is not valid: %s' % (what, i, v.prev[i][2], e))
            else:
                check(not v.valid(i), '%s: input %d is valid without its signatures', what, i)
            if not got[o]:
                check(
                    not v.tx.vin[i]['script'] and not v.tx.vin[i]['witness'], '%s: input %d of a wallet that did not sign has a script or witness', what, i
                )

    judge('after creation')
    for k, (i, s) in enumerate(c['steps'][1:], 1):
        if c['stranger'] == k:
            st_key = gen.make_key(__import__('bit'), 424242, c['net'])
            before = raw
            raw2 = offline(lambda: st_key.sign_transaction(before, unspents=unspents(order=c['order'])))
            eq(raw2, before, 'transaction after a stranger signed')
            ctx.label('stranger')
        old = v
        raw = offline(lambda: ws[i].key(s).sign_transaction(raw, unspents=unspents(i if c['own_only'][k] else None, c['order'] and c['order'] + k)))
        got[i].add(s)
        v = View(raw, prev, partial=True)
        eq(snapshot(v.tx), shape, 'outpoints, sequences and outputs after signing')
        for j, p in enumerate(v.points):
            if owner[p] != i:
                eq(
                    (v.tx.vin[j]['script'], v.tx.vin[j]['witness']),
                    (old.tx.vin[j]['script'], old.tx.vin[j]['witness']),
                    'input %d, which belongs to another wallet' % j,
                )
        judge('after step %d' % k)
    v = View(raw, prev)
    v.verify()
    for i, w in enumerate(ws):
        if not w.multi and i in owner.values():
            again = offline(lambda: w.key().sign_transaction(raw, unspents=unspents(order=c['order'])))
            eq(again, raw, 'complete transaction signed by one of its single keys again')
            break
    ctx.label('%d owners' % len(ws), c['net'])
    ctx.label('+'.join(sorted({w.spec['type'] for w in ws})), '+'.join(sorted({p[2] for p in v.prev})))


def many(tier):
    """Transactions with many inputs and many owners."""
    out = []
    for k, (n, owners) in enumerate(((14, 14), (24, 3), (45, 4), (64, 20), (130, 3), (260, 4))):
        net = 'main' if k % 2 else 'test'
        ws = [scen.contract_spec(net, 2, 3), scen.key_spec(net, 501), scen.key_spec(net, 502, False), scen.contract_spec(net, 1, 2, 2000, compressed=False)]
        ws = (ws + [scen.key_spec(net, 600 + i, bool(i % 3)) for i in range(owners)])[:owners]
        coins, owner = [], []
        for i, u in enumerate(scen.stack(n, tag='batch %d' % n, seqs=(None, None, 5))):
            o = i % owners
            comp = ws[o]['compressed'] if ws[o]['type'] == 'single' else all(ws[o]['flags'])
            coins.append(dict(u, k='segwit' if comp and (i // owners) % 2 else 'legacy'))
            owner.append(o)
        steps = [(i, 0) for i in range(owners)] + [(i, 2) for i in range(owners) if ws[i].get('m') == 2]
        steps = steps[k % 2 :] + steps[: k % 2]
        out.append(
            {
                'net': net, 'ws': ws, 'coins': coins, 'owner': owner, 'steps': steps, 'order': k % 3,
                'own_only': [bool((j + k) % 2) for j in range(len(steps))], 'stranger': 1, 'pays': scen.pile(net, n // 8), 'fee': 1000,
                'prepare': bool(k % 2), 'leftover': None,
            }
        )
    return out


SUBS = [Sub('batch', cases(), run, 700, 25000), Sub('many', st.just(None), run, 0, 0, enumerate_=many)]
