from hypothesis import strategies as st

from lib import btc, gen, scen
from lib.core import Sub, Violation, check, eq, raises
from lib.scen import View, Wallet, offline

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = (
    'Cases: an m-of-n contract (1<=m<=n<=15, either network, compressed or mixed keys), 1..3 of its outputs (legacy / '
    'nested segwit / mixed), and a history of signers: m distinct ones in random order with repetitions interleaved, '
    'followed by superfluous ones; contracts with up to 260 outputs to spend; creation by create_transaction or by prepare+sign. Non-trivial: m >= 2 or a '
    'superfluous signer. Oracle: after every step each input is valid under an independent script interpreter exactly '
    'when m distinct participants have signed.'
)


@st.composite
def cases(draw, big=False):
    w = draw(scen.contract())
    n, m = len(w['secrets']), w['m']
    kinds = ('legacy', 'segwit') if all(w['flags']) else ('legacy',)
    order = draw(st.permutations(range(n)))
    hist = []
    for i in order[:m]:
        hist.append(i)
        while len(hist) < m + 4 and draw(st.integers(0, 3)) == 0:
            hist.append(draw(st.sampled_from(hist)))
    extra = [draw(st.integers(0, n - 1)) for _ in range(draw(st.integers(0, 2)))]
    utxos = draw(scen.coins(max_size=3, kinds=kinds, amount=st.integers(10 ** 5, 10 ** 9), seqs=True))
    return {
        'w': w,
        'hist': hist,
        'extra': extra,
        'utxos': utxos,
        'pays': draw(scen.payments(w['net'], sum(u['a'] for u in utxos) // 3, max_size=2)),
        'fee': draw(st.integers(1, 20000)),
        'prepare': draw(st.booleans()),
        'msg': draw(scen.messages),
        'rbf': draw(st.booleans()),
        'upper': draw(st.integers(0, 9)) == 0,
    }


def body(tx):
    return (
        tx.version,
        [(i['txid'], i['vout'], i['sequence']) for i in tx.vin],
        [(o['amount'], o['script']) for o in tx.vout],
        tx.locktime,
    )


def run(c, ctx):
    w = Wallet(c['w'])
    prev = w.prevouts(c['utxos'])
    first = c['hist'][0]
    opts = scen.sparse(dict(fee=c['fee'], absolute_fee=True, message=c['msg'], replace_by_fee=c['rbf']))

    def create():
        key = w.key(first)
        if c['prepare']:
            kind = 'segwit' if any(u['k'] == 'segwit' for u in c['utxos']) and 'segwit' in w.addresses else 'legacy'
            data = w.cls().prepare_transaction(
                w.addresses[kind], scen.pay_args(c['pays']), unspents=w.unspents(c['utxos']), **opts
            )
            return key.sign_transaction(data)
        return key.create_transaction(scen.pay_args(c['pays']), unspents=w.unspents(c['utxos']), **opts)

    raw = offline(create)
    v = View(raw, prev)
    want = body(v.tx)
    signed = {first}
    eq(len(v.tx.vin), len(c['utxos']), 'inputs (combining)')

    def judge(v, what):
        done = len(signed) >= w.m
        for i in range(len(v.tx.vin)):
            if done:
                try:
                    btc.verify_input(v.tx, i, v.prev[i][0], v.prev[i][1])
                except btc.ScriptError as e:
                    raise Violation('%s: input %d (%s) with all %d signatures is not valid: %s' % (what, i, v.prev[i][2], w.m, e))
            else:
                check(not v.valid(i), '%s: input %d is valid with %d of %d signatures', what, i, len(signed), w.m)

    judge(v, 'after creation')
    for j in c['hist'][1:]:
        text = raw.upper() if c['upper'] else raw
        if len(signed) >= w.m:
            break
        known = w.unspents(c['utxos'])
        if c['upper']:
            known = [*w.unspents([{'k': 'legacy', 'a': 777, 't': gen.derived_txid('further', 0), 'n': 1}]), *known[::-1]]
        raw = offline(lambda: w.key(j).sign_transaction(text, unspents=known))
        if j in signed:
            ctx.label('same key signs again')
        signed.add(j)
        v = View(raw, prev)
        eq(body(v.tx), want, 'outpoints, sequences and outputs after signing')
        judge(v, 'after signers %s' % sorted(signed))
    check(len(signed) >= w.m, 'harness: history too short')
    for j in c['extra']:
        raises(
            ValueError,
            lambda: offline(lambda: w.key(j).sign_transaction(raw, unspents=w.unspents(c['utxos']))),
            'signing a complete transaction',
        )
        ctx.label('signing a complete transaction')
    ctx.label('%d-of-%d' % (w.m, w.signers) if w.signers <= 3 else 'n>3')
    ctx.label('+'.join(sorted({p[2] for p in v.prev})), w.net)
    if len(w.redeem) > 255:
        ctx.label('redeem script > 255 bytes')
    if not all(c['w']['flags']):
        ctx.label('uncompressed participants')
    ctx.trivial(w.m < 2 and not c['extra'])


def enumerate_(tier):
    """Every m-of-n with n <= 4 (and all-compressed extremes), every signer order for n <= 3."""
    import itertools

    out = []
    for n in (1, 2, 3, 4, 7, 8, 15):
        for m in range(1, n + 1):
            if n > 4 and m not in (1, 2, n - 1, n) :
                continue
            orders = list(itertools.permutations(range(n), m)) if n <= 3 else [tuple(range(m)), tuple(reversed(range(n - m, n)))]
            for k, o in enumerate(orders):
                if n > 4 and tier == 'quick' and k:
                    continue
                for kind in ('legacy', 'segwit'):
                    out.append(
                        {
                            'w': {
                                'type': 'multi',
                                'net': 'main' if (k + m) % 2 else 'test',
                                'secrets': [1000 + 17 * i for i in range(n)],
                                'flags': [True] * n,
                                'm': m,
                                'me': o[0],
                                'as_set': bool(k % 2),
                                'hex': bool(m % 2),
                            },
                            'hist': list(o),
                            'extra': [0],
                            'utxos': [{'k': kind, 'a': 10 ** 6 + m, 't': '%064x' % (n * 100 + m), 'n': k}],
                            'pays': [],
                            'fee': 1000,
                            'prepare': bool((k + n) % 2),
                            'msg': None,
                            'rbf': False,
                            'upper': False,
                        }
                    )
    # the first signature (deterministic) is two bytes shorter than usual
    for kind, order, amount in (('legacy', (0, 1), 1026406), ('legacy', (1, 0), 1048369), ('segwit', (0, 1), 1028658), ('segwit', (1, 0), 1076007)):
        w = {'type': 'multi', 'net': 'main', 'secrets': [1000, 1017], 'flags': [True] * 2, 'm': 2, 'me': order[0], 'as_set': False, 'hex': False}
        out.append(
            {
                'w': w,
                'hist': list(order),
                'extra': [0],
                'utxos': [{'k': kind, 'a': amount, 't': '%064x' % 7, 'n': 0}],
                'pays': [],
                'fee': 1000,
                'prepare': False,
                'msg': None,
                'rbf': False,
                'upper': False,
            }
        )
    return out


def many(tier):
    """Contracts with many outputs to spend at once."""
    out = []
    for n, kinds in ((12, ('legacy',)), (26, ('segwit',)), (26, ('legacy', 'segwit')), (45, ('legacy',)), (120, ('segwit', 'legacy')), (260, ('legacy', 'segwit'))):
        for order in ((0, 2), (2, 1)) if n < 100 or tier != 'quick' else ((1, 0),):
            out.append(
                {
                    'w': scen.contract_spec('main' if n % 3 else 'test', me=order[0]),
                    'hist': list(order),
                    'extra': [1],
                    'utxos': scen.stack(n, kinds, tag=n),
                    'pays': scen.pile('main' if n % 3 else 'test', n // 6),
                    'fee': 1000,
                    'prepare': bool(order[0]),
                    'msg': None,
                    'rbf': bool(n % 2),
                    'upper': False,
                }
            )
    return out


SUBS = [
    Sub('history', cases(), run, 700, 20000, enumerate_=enumerate_),
    Sub('many', st.just(None), run, 0, 0, enumerate_=many),
]
