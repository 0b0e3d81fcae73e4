import json

from hypothesis import strategies as st

from lib import btc, gen, scen
from lib.core import Sub, check, eq
from lib.scen import View, Wallet, offline

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = (
    'Cases: text messages (1- to 4-byte characters, control characters, NUL, lengths concentrated around multiples of 80 '
    'bytes and the push-opcode boundaries 75/76) and byte messages, on all wallet classes, created or prepared and '
    'signed, with and without payments and change. Non-trivial: message not empty. Oracle: independent parse of the '
    'data outputs; the same request without message for comparison.'
)

lengths = st.one_of(
    st.integers(1, 90),
    st.sampled_from([1, 39, 40, 41, 74, 75, 76, 77, 79, 80, 81, 119, 120, 155, 156, 159, 160, 161, 235, 236, 240, 241, 320, 500]),
)


@st.composite
def texts(draw):
    if draw(st.integers(0, 3)) == 0:
        return draw(st.text(alphabet=st.characters(blacklist_categories=('Cs',)), min_size=1, max_size=60))
    n = draw(lengths)
    chars = draw(st.sampled_from(['a', 'ab c', 'aé', '漢a', '😀a', '\x00\n', '0f', '\r\n', ' \t', '\ufeffe\u0301', '\u2028A', 'e\u200d\u200b', '\u00a0\u00ad', '\u202e\u0645', '\ue000\uffff', '👩\u200d👧']))
    seed = draw(st.integers(0, 1000))
    return ''.join(chars[(i * 7 + seed) % len(chars)] for i in range(n))


@st.composite
def raws(draw):
    n = draw(lengths)
    return draw(
        st.one_of(
            st.binary(min_size=min(n, 90), max_size=min(n, 90)),
            st.integers(0, 255).map(lambda b: bytes([b]) * n),
            st.just(bytes(i % 256 for i in range(n))),
        )
    )


@st.composite
def cases(draw):
    w = draw(st.one_of(scen.single(), scen.single(), scen.contract(max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    utxos = draw(scen.coins(max_size=3, kinds=('legacy', 'segwit') if comp else ('legacy',), amount=st.integers(10 ** 6, 10 ** 9)))
    total = sum(u['a'] for u in utxos)
    as_bytes = draw(st.booleans())
    pays = draw(scen.payments(w['net'], total // 2, max_size=draw(st.sampled_from([2, 2, 2, 2, 14]))))
    fee = draw(st.integers(1, 5000))
    exact = draw(st.integers(0, 4)) == 0 and pays
    if exact:
        pays[0]['sat'] += total - fee - sum(p['sat'] for p in pays)
    return {
        'w': w,
        'utxos': utxos,
        'pays': pays,
        'msg': draw(raws()) if as_bytes else draw(texts()),
        'as_bytes': as_bytes,
        'fee': fee,
        'rate': not exact and draw(st.booleans()),
        'prepare': draw(st.booleans()),
        'send': draw(scen.routes),
    }


def go(c, w, msg):
    opts = dict(
        fee=max(1, c['fee'] % 100) if c['rate'] else c['fee'],
        absolute_fee=not c['rate'],
        message=msg,
        message_is_hex=c['as_bytes'] if msg is not None else False,
        unspents=w.unspents(c['utxos']),
    )
    opts = scen.sparse(opts, repr(c['msg']))
    if c['prepare']:
        data = offline(lambda: w.cls().prepare_transaction(w.addresses['legacy'], scen.pay_args(c['pays']), **opts))
        json.loads(data)
        return offline(lambda: w.key().sign_transaction(data))
    return offline(lambda: scen.maker(w.key(), c.get('send'))(scen.pay_args(c['pays']), **opts))


def run(c, ctx):
    w = Wallet(c['w'])
    prev = w.prevouts(c['utxos'])
    want = c['msg'] if c['as_bytes'] else c['msg'].encode('utf-8')
    v = View(go(c, w, c['msg']), prev, partial=True)
    flags = [scen.is_data(o) for o in v.tx.vout]
    k = flags.index(True) if True in flags else len(flags)
    check(all(flags[k:]), 'data outputs do not follow all payments and change')
    data = v.tx.vout[k:]
    chunks = []
    for o in data:
        eq(o['amount'], 0, 'value of a data output')
        d = scen.parse_data(o['script'])
        check(1 <= len(d) <= 80, 'data output of %d bytes', len(d))
        chunks.append(d)
    check(b''.join(chunks) == want, 'stored %r, message is %r', b''.join(chunks), want)
    # the same request without a message
    v0 = View(go(c, w, None), prev, partial=True)
    check(not any(scen.is_data(o) for o in v0.tx.vout), 'data output without a message')
    a = [(o['amount'], o['script']) for o in v.tx.vout[:k]]
    b = [(o['amount'], o['script']) for o in v0.tx.vout]
    n = len(c['pays'])
    eq(a[:n], [(p['sat'], p['script']) for p in c['pays']], 'payments')
    if c['rate']:
        eq([s for _, s in a], [s for _, s in b], 'destinations with and without the message')
    else:
        eq(a, b, 'payments and change with and without the message')
    eq(v.points, v0.points, 'inputs with and without the message')
    if w.m == 1:
        v.verify()
    ctx.label('bytes' if c['as_bytes'] else 'text', 'prepared' if c['prepare'] else 'created')
    ctx.label('%d outputs' % len(data) if len(data) < 4 else '>3 outputs')
    if any(len(d) > 75 for d in chunks):
        ctx.label('push > 75')
    if k == n:
        ctx.label('no change')


SUBS = [
    Sub('message', cases(), run, 2000, 80000),
    Sub(
        'lengths',
        st.just(None),
        run,
        0,
        0,
        enumerate_=lambda tier: [
            {
                'w': {'type': 'single', 'net': 'test', 'secret': 9, 'compressed': True},
                'utxos': [{'k': 'segwit', 'a': 10 ** 8, 't': '22' * 32, 'n': 1}],
                'pays': [],
                'msg': (bytes((i * 37 + n) % 256 for i in range(n)) if b else 'm' * n),
                'as_bytes': b,
                'fee': 1000,
                'rate': False,
                'prepare': bool(n % 2),
            }
            for n in list(range(1, 245)) + [799, 800, 801, 880, 881, 960, 1000, 1280, 1281, 1700, 2560, 2561, 5000, 20400]
            for b in (True, False)
        ]
        + [
            {
                'w': scen.key_spec('main'),
                'utxos': scen.stack(2, amount=10 ** 7, tag=n),
                'pays': scen.pile('main', n),
                'msg': 'message %d ' % n * k,
                'as_bytes': False,
                'fee': 1000 + n,
                'rate': bool(n % 2),
                'prepare': bool(n % 3),
            }
            for n in (12, 25, 45, 101, 254, 300)
            for k in (1, 30)
        ],
    ),
]
