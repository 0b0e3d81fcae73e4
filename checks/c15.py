import json
import random

from hypothesis import strategies as st

from bit.exceptions import InsufficientFunds
from lib import btc, gen, scen
from lib.core import Sub, check, eq
from lib.net import Chain, Net, Web
from lib.scen import View, Wallet, offline

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = (
    'Cases: all wallet classes; the same request (outputs of the wallet, payments, message as text or bytes, fee '
    'absolute or rate, leftover given or default, replacement) made by prepare+sign and by create; and prepare with '
    'unspents fetched from simulated explorers for an address; up to 260 outputs to spend and 300 payments. Non-trivial: a transaction was produced. Oracle: '
    'equality of the two transactions, no network use when signing, script verification.'
)
KNOWN = 'MultiSig prepare_transaction with fetched unspents of the nested segwit address'


@st.composite
def cases(draw):
    w = draw(st.one_of(scen.single(), scen.single(), scen.contract(max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    utxos = draw(scen.coins(max_size=4, kinds=('legacy', 'segwit') if comp else ('legacy',), seqs=True))
    total = sum(u['a'] for u in utxos)
    absolute = draw(st.booleans())
    as_bytes = draw(st.booleans())
    return {
        'w': w,
        'utxos': utxos,
        'pays': draw(scen.payments(w['net'], total // draw(st.sampled_from([1, 2, 2, 10])), max_size=3)),
        'fee': draw(st.integers(1, 10 ** 4)) if absolute else draw(st.integers(1, 100)),
        'abs': absolute,
        'leftover': draw(st.one_of(st.none(), gen.destinations(net=w['net']).map(lambda d: d['addr']))),
        'msg': draw(st.one_of(st.none(), st.binary(min_size=1, max_size=170))) if as_bytes else draw(scen.messages),
        'as_bytes': as_bytes,
        'combine': draw(st.sampled_from([True, True, False])),
        'rbf': draw(st.booleans()),
        'indent': draw(st.booleans()),
        'seed': draw(st.integers(0, 50)),
    }


def outcome(fn):
    try:
        return ('ok', offline(fn))
    except InsufficientFunds:
        return ('InsufficientFunds', None)


def same(c, ctx):
    w = Wallet(c['w'])
    prev = w.prevouts(c['utxos'])
    kind = 'segwit' if 'segwit' in w.addresses and any(u['k'] == 'segwit' for u in c['utxos']) else 'legacy'
    opts = dict(
        fee=c['fee'],
        absolute_fee=c['abs'],
        leftover=c['leftover'],
        combine=c['combine'],
        message=c['msg'],
        message_is_hex=c['as_bytes'] and c['msg'] is not None,
        replace_by_fee=c['rbf'],
    )

    def create():
        random.seed(c['seed'])
        kw = scen.sparse(opts, c['seed'])
        return outcome(lambda: w.key().create_transaction(scen.pay_args(c['pays']), unspents=w.unspents(c['utxos']), **kw))

    a = create()
    # Selecting coins draws random numbers: comparable where creating is repeatable for a seed of them.
    repeatable = c['combine'] or create() == a
    random.seed(c['seed'])
    kw = {} if w.multi else {'compressed': c['w']['compressed']}
    if w.multi:
        kw = {'compressed': all(c['w']['flags'])}
    b = outcome(
        lambda: w.cls().prepare_transaction(
            w.addresses[kind], scen.pay_args(c['pays']), unspents=w.unspents(c['utxos']), **kw, **scen.sparse(opts, 'prepare')
        )
    )
    if repeatable:
        eq(b[0], a[0], 'outcome of prepare against create')
    if 'ok' not in (a[0], b[0]) or b[0] != 'ok' or a[0] != 'ok':
        ctx.trivial()
        ctx.label('insufficient')
        return
    data = b[1]
    check(isinstance(data, str), 'prepared data is not text')
    j = json.loads(data)
    if c['indent']:
        data = json.dumps(j, indent=1)  # reformatted on the way to the signer
    raw = offline(lambda: w.key().sign_transaction(data))
    v = View(raw, prev, partial=True)
    if repeatable:
        eq(raw, a[1], 'prepared and signed transaction against the created one')
    else:
        n = len(c['pays'])
        eq([(o['amount'], o['script']) for o in v.tx.vout[:n]], [(p['sat'], p['script']) for p in c['pays']], 'payments')
    if w.m == 1:
        v = View(raw, prev)
        v.verify()
    else:
        # the remaining signers complete it
        me, done = w.spec['me'] % w.signers, 1
        for i in range(w.signers):
            if i != me and done < w.m:
                raw = offline(lambda: w.key(i).sign_transaction(raw, unspents=w.unspents(c['utxos'])))
                done += 1
        View(raw, prev).verify()
    ctx.label(w.cls().__name__, 'absolute' if c['abs'] else 'rate', '+'.join(sorted({p[2] for p in v.prev})))
    if c['msg']:
        ctx.label('message bytes' if c['as_bytes'] else 'message text')
    if c['rbf']:
        ctx.label('rbf')


def fetched(c, ctx):
    w = Wallet(c['w'])
    kind = c['kind'] if c['kind'] in w.addresses else 'legacy'
    addr = w.addresses[kind]
    utxos = [dict(u, k=kind) for u in c['utxos']]
    state = {
        'utxos': [{'txid': u['t'], 'vout': u['n'], 'value': u['a'], 'height': None if i % 3 == 2 else 90 + i} for i, u in enumerate(utxos)],
        'txs': [],
    }
    chains = {w.net: Chain(w.net, 100, {addr: state}), ('test' if w.net == 'main' else 'main'): Chain('x', 100, {})}
    web = Web(chains, faults={n: 'conn' for n in c['down']})
    net = Net(web)
    kw = {'compressed': c['w']['compressed']} if not w.multi else {}
    total = sum(u['a'] for u in utxos)
    try:
        with net.active():
            data = w.cls().prepare_transaction(
                addr, scen.pay_args(c['pays']), **kw,
                **scen.sparse(
                    dict(fee=c['fee'], absolute_fee=c['abs'], leftover=None, message=c['msg'], replace_by_fee=c['rbf'])
                ),
            )
    except InsufficientFunds:
        need = sum(p['sat'] for p in c['pays'])
        if c['abs']:
            check(need + c['fee'] > total, 'refused although %d suffice for %d + fee %d', total, need, c['fee'])
        ctx.trivial()
        ctx.label('insufficient')
        return
    prev = w.prevouts(utxos)
    raw = offline(lambda: w.key().sign_transaction(data))
    v = View(raw, prev, partial=True)
    eq(sorted(v.points), sorted(prev), 'inputs')
    n = len(c['pays'])
    outs = [o for o in v.tx.vout if not scen.is_data(o)]
    eq([(o['amount'], o['script']) for o in outs[:n]], [(p['sat'], p['script']) for p in c['pays']], 'payments')
    eq([o['script'] for o in outs[n:]] in ([], [w.scripts[kind]]), True, 'change to the address spent from')
    if c['abs']:
        eq(v.fee, c['fee'], 'absolute fee')
    ctx.label('%s %s' % (w.cls().__name__, w.types[kind]))
    # Known finding, exactly: a contract's nested segwit inputs are signed as if they were not segwit.
    if w.multi and kind == 'segwit' and not v.tx.segwit:
        ctx.known.append(KNOWN)
        return
    me, done = (w.spec['me'] % w.signers if w.multi else 0), 1
    for i in range(w.signers):
        if i != me and done < w.m:
            raw = offline(lambda: w.key(i).sign_transaction(raw, unspents=w.unspents(utxos)))
            done += 1
    v = View(raw, prev)
    v.verify()
    if not w.multi and not c['abs']:
        size = v.tx.vsize()
        check(v.fee >= c['fee'] * size, 'fee %d for %d vB at rate %d', v.fee, size, c['fee'])
        most = sum(w.vsize(p[2]) for p in v.prev) + 8 + 2 + 45 + 0.5 + 2
        most += sum(8 + 1 + len(o['script']) for o in v.tx.vout)
        check(v.fee <= c['fee'] * most, 'fee %d for %d vB at rate %d', v.fee, size, c['fee'])


@st.composite
def fetch_cases(draw):
    w = draw(st.one_of(scen.single(), scen.single(), scen.single(), scen.contract(max_n=3)))
    utxos = draw(scen.coins(max_size=4, amount=st.integers(3 * 10 ** 4, 10 ** 9)))
    absolute = draw(st.booleans())
    order = ['blockstream', 'blockchair', 'smartbit', 'blockchain', 'bitcore']
    return {
        'w': w,
        'kind': draw(st.sampled_from(['legacy', 'segwit'])),
        'utxos': utxos,
        'pays': draw(scen.payments(w['net'], sum(u['a'] for u in utxos) // 2, max_size=2)),
        'fee': draw(st.integers(1, 5000)) if absolute else draw(st.integers(1, 60)),
        'abs': absolute,
        'msg': draw(st.sampled_from([None, None, 'note'])),
        'rbf': draw(st.booleans()),
        'down': order[: draw(st.integers(0, 2))],
    }


def many(tier):
    out = []
    for k, (n, pays, size) in enumerate(((12, 0, 0), (25, 30, 900), (45, 2, 81), (120, 120, 2000), (3, 300, 0), (260, 0, 1700))):
        for multi in (False, True) if n < 100 else (False,):
            net = 'main' if k % 2 else 'test'
            out.append(
                {
                    'w': scen.contract_spec(net) if multi else scen.key_spec(net),
                    'utxos': scen.stack(n, tag=n, amount=10 ** 6, seqs=(None, 7, None)),
                    'pays': scen.pile(net, pays),
                    'fee': 3 + n,
                    'abs': bool(k % 2),
                    'leftover': None,
                    'msg': ''.join(chr(97 + i % 26) for i in range(size)) or None,
                    'as_bytes': False,
                    'combine': True,
                    'rbf': bool(n % 2),
                    'indent': False,
                    'seed': n,
                }
            )
    return out


SUBS = [
    Sub('same', cases(), same, 1800, 70000),
    Sub('many', st.just(None), same, 0, 0, enumerate_=many),
    Sub('fetched', fetch_cases(), fetched, 700, 25000),
]
