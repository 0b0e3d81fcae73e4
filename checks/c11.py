import math
import random

from hypothesis import strategies as st

from bit.exceptions import InsufficientFunds
from lib import btc, gen, scen, world
from lib.core import Sub, Violation, check, eq
from lib.net import Net, Web
from lib.scen import View, Wallet, offline

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = (
    'Cases: wallet, 1..9 outputs (up to 1500 in one generator; also with many uneconomical ones), payments, message, '
    'fee rate 1..300, combining or not, leftover of any format; funds drawn far above, around and below what outputs '
    'and fee need; the seed of the selection randomness is part of the case. Non-trivial: every case (labels show '
    'outcomes). Oracle: fee per virtual byte of the completed, independently parsed transaction; feasibility bounds '
    'from exact maximal and minimal input sizes.'
)


@st.composite
def cases(draw, many=(), dust=False):
    w = draw(st.one_of(scen.single(), scen.single(), scen.contract(max_n=4)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    kinds = ('legacy', 'segwit') if comp else ('legacy',)
    rate = draw(st.one_of(st.integers(0, 20), st.integers(1, 20), st.integers(1, 300)))
    amount = st.one_of(st.integers(1, 400).map(lambda k: max(1, k * rate)), st.integers(max(1, 100 * rate), 3000 * max(rate, 1)), st.integers(10 ** 4, 10 ** 8), st.integers(10 ** 4, 10 ** 14))
    if many:
        utxos = draw(scen.coins(max_size=2, kinds=kinds, amount=amount, many=many))
    else:
        utxos = draw(scen.coins(max_size=9, kinds=kinds, amount=amount))
    if dust:
        seed = draw(st.integers(0, 2 ** 20))
        utxos = utxos[:3] + [
            {'k': draw(st.sampled_from(kinds)), 'a': draw(st.integers(1, 80 * max(rate, 1))), 't': gen.derived_txid(seed, 1000 + i), 'n': i}
            for i in range(draw(st.integers(1, 8)))
        ]
        utxos = [utxos[i] for i in draw(st.permutations(range(len(utxos))))]
    x = Wallet(w)
    worth = sum(u['a'] for u in utxos)
    combine = draw(st.booleans()) if not many or len(utxos) > 300 else True
    if not combine:
        worth = sum(max(0, u['a'] - rate * x.vsize(u['k'] if u['k'] in x.scripts else 'legacy')) for u in utxos)
    else:
        worth -= rate * sum(x.vsize(u['k'] if u['k'] in x.scripts else 'legacy') for u in utxos)
    left = draw(st.one_of(st.none(), gen.destinations(net=w['net']).map(lambda d: d['addr'])))
    n = draw(st.integers(0, 3))
    over = rate * (45 + 43 * (n + 1))
    aim = draw(st.sampled_from(['half', 'tenth', 'edge', 'edge', 'edge', 'all', 'over']))
    room = {
        'half': worth // 2,
        'tenth': worth // 10,
        'edge': worth - over + draw(st.integers(-200 * rate, 100 * rate)),
        'all': worth,
        'over': worth * 2,
    }[aim]
    pays = draw(scen.payments(w['net'], max(int(room), n), min_size=n, max_size=n))
    if pays and aim == 'edge':
        pays[0]['sat'] = max(1, int(room) - sum(p['sat'] for p in pays[1:]))
    return {
        'w': w,
        'utxos': utxos,
        'pays': pays,
        'rate': rate,
        'combine': combine,
        'leftover': left,
        'msg': draw(scen.messages),
        'rbf': draw(st.integers(0, 3)) == 0,
        'seed': draw(st.integers(0, 200)),
        'send': draw(scen.routes),
    }


def out_size(script):
    return 8 + len(btc.varint(len(script))) + len(script)


def complete(w, raw, c):
    """All m signatures, so that the size is final."""
    if w.multi:
        done = 1
        me = w.spec['me'] % w.signers
        for i in range(w.signers):
            if done >= w.m:
                break
            if i != me:
                raw = offline(lambda: w.key(i).sign_transaction(raw, unspents=w.unspents(c['utxos'])))
                done += 1
    return raw


def run(c, ctx):
    w = Wallet(c['w'])
    r = c['rate']
    T = sum(p['sat'] for p in c['pays'])
    left = c['leftover'] or w.default_leftover(c['utxos'])
    lscript = btc.address_info(left)[1]
    msg = (c['msg'] or '').encode('utf-8')
    data = [b'\x6a' + btc.push(msg[i : i + 80]) for i in range(0, len(msg), 80)]
    fixed = sum(out_size(p['script']) for p in c['pays']) + sum(out_size(s) for s in data)
    change = out_size(lscript)
    kinds = [u['k'] if u['k'] in w.scripts else 'legacy' for u in c['utxos']]
    sizes = [w.vsize(k) for k in kinds]
    sigs = w.m if w.multi else 1
    # a signature (with push) takes at most 73 bytes; below 69 has no realistic chance for these many cases
    low = [s - (8 * sigs + 3) / (4 if k == 'segwit' else 1) for s, k in zip(sizes, kinds)]
    n_out = len(c['pays']) + len(data) + 1

    def overhead(n_in, segwit):
        return 8 + len(btc.varint(n_in)) + len(btc.varint(n_out)) + (0.5 if segwit else 0)

    random.seed(c['seed'])
    us = w.unspents(c['utxos'])
    total = sum(u['a'] for u in c['utxos'])
    try:
        raw = offline(
            lambda: scen.maker(w.key(), c.get('send'))(
                scen.pay_args(c['pays']),
                **scen.sparse(dict(
                    fee=r,
                    absolute_fee=False,
                    leftover=c['leftover'],
                    combine=c['combine'],
                    message=c['msg'],
                    unspents=us,
                    replace_by_fee=c['rbf'],
                ), c['seed']),
            )
        )
    except InsufficientFunds:
        if c['combine']:
            most = T + r * (math.ceil(sum(sizes) + overhead(len(sizes), True) + fixed + change + len(sizes) / 4) + 1)
            check(total < most, 'refused although %d pays outputs %d and fee: at most %d needed (combining)', total, T, most)
        else:
            worth = sum(max(0, u['a'] - r * (s + 0.25)) for u, s in zip(c['utxos'], sizes))
            most = T + r * (overhead(len(sizes), True) + fixed + change + 3)
            check(
                worth < most,
                'refused although a subset of the unspents suffices: worth %d after its own fee, at most %d needed',
                worth,
                most,
            )
        ctx.label('insufficient')
        return
    # feasibility from below: nothing may be produced that cannot pay
    if c['combine']:
        check(total >= T + r * (sum(low) + 8 + fixed), 'produced a transaction although the funds cannot pay outputs and fee')
    else:
        best = sum(max(0, u['a'] - r * s) for u, s in zip(c['utxos'], low))
        check(best >= T + r * (8 + fixed - 3), 'produced a transaction although no subset can pay outputs and fee')
    raw = complete(w, raw, c)
    v = View(raw, w.prevouts(c['utxos']))
    v.verify()
    n_in = len(v.tx.vin)
    if c['combine']:
        eq(n_in, len(c['utxos']), 'number of inputs when combining')
    segwit = v.tx.segwit
    nlegacy = sum(1 for p in v.prev if p[2] == 'legacy')
    V = v.tx.vsize()
    slack = nlegacy / 4 if segwit else 0
    slack += 2 * (n_in > 252) + 2 * (len(v.tx.vout) > 252)
    slack = math.ceil(slack) if c['combine'] else slack + 2.5
    if not c['combine']:
        # nothing is added once it suffices: without some one of the inputs the others do not
        own = [w.vsize(p[2]) for p in v.prev]
        spare = min(
            v.total_in - p[1] - T - r * (sum(own) - s + overhead(n_in, True) + fixed + change) for p, s in zip(v.prev, own)
        )
        check(spare < 600 + 20 * r, 'any of the %d inputs can be left out: %d would remain even then', n_in, spare)
    check(
        v.fee >= r * (V - slack),
        'fee %d is %.2f sat/vB for %d vB, requested %d (inputs %s)',
        v.fee,
        v.fee / V,
        V,
        r,
        [p[2] for p in v.prev],
    )
    has_change = len(v.tx.vout) == n_out
    maxv = sum(w.vsize(p[2]) for p in v.prev) + overhead(n_in, segwit) + fixed + change
    upper = maxv + 2 + (2 if n_in > 250 or n_out > 250 else 0)
    if not c['combine'] and not has_change:
        upper += 182  # accepted change-free match: an input and an output of typical size
    check(
        v.fee <= r * upper,
        'fee %d is %.2f sat/vB for %d vB, requested %d (change: %s): more than estimation margin explains',
        v.fee,
        v.fee / V,
        V,
        r,
        has_change,
    )
    eq(len(v.tx.vout) - len(c['pays']) - len(data) in (0, 1), True, 'at most one change output')
    ctx.label('combined' if c['combine'] else 'selected', 'change' if has_change else 'no change')
    ctx.label('+'.join(sorted({p[2] for p in v.prev})) + (' multi' if w.multi else ''))
    if not c['combine'] and n_in < len(c['utxos']):
        ctx.label('proper subset')
    if len(c['utxos']) > 252:
        ctx.label('>252 unspents')
    if len(c['utxos']) > 990:
        ctx.label('>990 unspents')


@st.composite
def exact_cases(draw):
    w = draw(st.one_of(scen.single(), scen.contract(max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    utxos = draw(scen.coins(max_size=7, kinds=('legacy', 'segwit') if comp else ('legacy',)))
    total = sum(u['a'] for u in utxos)
    fee = draw(st.one_of(st.integers(0, 5000), st.sampled_from([0, 1])))
    aim = draw(st.sampled_from(['one', 'some', 'edge', 'half', 'small']))
    room = {
        'one': utxos[0]['a'] - fee,
        'some': sum(u['a'] for u in utxos[: len(utxos) // 2 + 1]) - fee,
        'edge': total - fee,
        'half': total // 2,
        'small': 1000,
    }[aim] + draw(st.sampled_from([-1, 0, 0, 0, 1]))
    pays = draw(scen.payments(w['net'], max(room, 1), min_size=1, max_size=3))
    rest = room - sum(p['sat'] for p in pays)
    if pays[0]['sat'] + rest > 0:
        pays[0]['sat'] += rest
    return {
        'w': w,
        'utxos': utxos,
        'pays': pays,
        'fee': fee,
        'combine': draw(st.sampled_from([True, False, False])),
        'rbf': draw(st.booleans()),
        'seed': draw(st.integers(0, 200)),
        'send': draw(st.sampled_from([False, False, 'send', 'prepare'])),
    }


def exact(c, ctx):
    """With an absolute fee what suffices is known to the satoshi."""
    w = Wallet(c['w'])
    need = sum(p['sat'] for p in c['pays']) + c['fee']
    total = sum(u['a'] for u in c['utxos'])
    opts = dict(fee=c['fee'], absolute_fee=True, combine=c['combine'], replace_by_fee=c['rbf'], unspents=w.unspents(c['utxos']))
    random.seed(c['seed'])
    try:
        raw = offline(lambda: scen.maker(w.key(), c['send'])(scen.pay_args(c['pays']), **scen.sparse(opts, c['seed'])))
    except InsufficientFunds:
        check(total < need, 'refused although %d suffice for %d', total, need)
        ctx.label('insufficient')
        return
    check(total >= need, 'produced a transaction of %d from %d', need, total)
    v = View(raw, w.prevouts(c['utxos']), partial=True)
    check(v.total_in >= need, 'inputs of %d for %d', v.total_in, need)
    eq(v.fee, c['fee'], 'absolute fee')
    if c['combine']:
        eq(len(v.points), len(c['utxos']), 'number of inputs when combining')
    else:
        spare = v.total_in - max(p[1] for p in v.prev) - need
        check(spare < 0 or len(v.points) == 1, 'any of the %d inputs can be left out: %d would remain even then', len(v.points), spare)
    ctx.label('combined' if c['combine'] else 'selected', w.cls().__name__, str(c['send'] or 'create'))
    if len(v.points) < len(c['utxos']):
        ctx.label('proper subset')


@st.composite
def none_cases(draw):
    w = draw(st.one_of(scen.single(), scen.contract(max_n=3)))
    return {
        'w': w,
        'pays': draw(scen.payments(w['net'], 10 ** 6, max_size=2)),
        'rate': draw(st.integers(0, 20)),
        'abs': draw(st.booleans()),
        'combine': draw(st.booleans()),
        'empty': draw(st.sampled_from(['list', 'tuple'])),
        'known': draw(st.booleans()),
        'route': draw(st.sampled_from(['create', 'create', 'prepare', 'send'])),
    }


def none_given(c, ctx):
    """With an empty list of unspents there is nothing to spend, whatever else the key has."""
    w = Wallet(c['w'])
    addresses = {
        a: {'utxos': [{'txid': gen.derived_txid(i, 'u'), 'vout': i, 'value': 10 ** 7, 'height': 50}], 'txs': []}
        for i, a in enumerate(w.addresses.values())
    }
    log = Net(Web(world.chains(w.net, 100, addresses)), max_requests=60)
    key = w.key()
    kw = dict(fee=c['rate'], absolute_fee=c['abs'], combine=c['combine'], unspents=[] if c['empty'] == 'list' else ())
    pays = scen.pay_args(c['pays'])
    with log.active():
        if c['known']:
            key.get_unspents()
        try:
            if c['route'] == 'prepare':
                out = w.cls().prepare_transaction(w.addresses['legacy'], pays, **kw)
            elif c['route'] == 'send' and hasattr(key, 'send'):
                out = key.send(pays, **kw)
            else:
                out = key.create_transaction(pays, **kw)
        except (ValueError, InsufficientFunds) as e:
            eq([r.url for r in log.log if r.method == 'POST'], [], 'submissions')
            ctx.label(c['route'], type(e).__name__)
            return
    raise Violation('spends outputs although an empty list of unspents was given: %s' % out)


def big_examples():
    base = {'w': {'type': 'single', 'net': 'main', 'secret': 77, 'compressed': True}, 'pays': [], 'rate': 3, 'leftover': None, 'msg': None, 'rbf': False}
    out = []
    for n, combine, frac in ((1200, False, 0.97), (1500, False, 0.999), (1100, True, 0.5), (300, False, 0.98)):
        utxos = [{'k': 'legacy' if i % 2 else 'segwit', 'a': 5000 + i, 't': '%064x' % (i + 1), 'n': i % 3} for i in range(n)]
        worth = sum(u['a'] - 3 * (148 if u['k'] == 'legacy' else 91) for u in utxos)
        d = {'addr': btc.p2pkh_address(b'\x07' * 20, 'main'), 'script': btc.p2pkh_script(b'\x07' * 20), 'sat': int(worth * frac) - 2000, 'unit': 'satoshi', 'style': 0}
        out.append(dict(base, utxos=utxos, combine=combine, seed=n, pays=[d]))
    for pays, n in ((20, 3), (60, 30), (110, 2), (260, 5), (300, 260)):
        for combine in (True, False):
            utxos = scen.stack(n, amount=10 ** 7 // n, tag=n)
            out.append(dict(base, utxos=utxos, combine=combine, seed=n, pays=scen.pile('main', pays), msg='m' * (pays * 5)))
    return out


SUBS = [
    Sub('rate', cases(), run, 2600, 90000),
    Sub('dust', cases(dust=True), run, 700, 25000),
    Sub('many', cases(many=(30, 120, 250, 253, 256, 300)), run, 40, 1200, examples=big_examples),
    Sub('exact', exact_cases(), exact, 900, 30000),
    Sub('none', none_cases(), none_given, 150, 5000),
]
