from hypothesis import strategies as st

import bit.transaction as T
from bit.network.meta import Unspent
from lib import btc, gen, scen
from lib.core import Sub, check, eq, raises
from lib.scen import Wallet, offline

PROPERTY = 'C35'
LEVEL = 'exploration'
RULE = (
    'Cases: a serialized transaction with an input of a wallet (single key or contract), legacy or segwit, damaged in one '
    'or two ways: cut off, bytes dropped, inserted, appended or changed, a count or length that is wrong or not minimally '
    'encoded, or hex text with foreign characters; every cut, every appended byte and every count of some transactions; '
    'random bytes. Trivial: the result is well-formed or its status is a matter of convention (no inputs, witnesses all '
    'empty, odd number of digits). Oracle: an independent strict parser decides what is well-formed.'
)


def tokens(tx):
    """The serialization as bytes and variable-length integers."""
    out = [tx.version.to_bytes(4, 'little')]
    if tx.segwit:
        out.append(b'\x00\x01')
    out.append(len(tx.vin))
    for i in tx.vin:
        out += [bytes.fromhex(i['txid'])[::-1] + i['vout'].to_bytes(4, 'little'), len(i['script']), i['script']]
        out.append(i['sequence'].to_bytes(4, 'little'))
    out.append(len(tx.vout))
    for o in tx.vout:
        out += [o['amount'].to_bytes(8, 'little'), len(o['script']), o['script']]
    if tx.segwit:
        for i in tx.vin:
            out.append(len(i['witness']))
            for w in i['witness']:
                out += [len(w), w]
    return out + [tx.locktime.to_bytes(4, 'little')]


def wide(n, size):
    return {3: b'\xfd', 5: b'\xfe', 9: b'\xff'}[size] + n.to_bytes(size - 1, 'little')


def build(c):
    w = Wallet(c['w'])
    vin = []
    for u in c['utxos']:
        vin.append({'txid': u['t'], 'vout': u['n'], 'script': b'', 'sequence': 0xFFFFFFFF, 'witness': []})
    for j, (script, wit) in enumerate(c['others']):
        v = {'txid': gen.derived_txid('other', j), 'vout': j, 'script': script, 'sequence': 0xFFFFFFFE, 'witness': wit}
        vin.insert(j % 2 * len(vin), v)
    vout = [{'amount': a, 'script': s} for a, s in c['outs']]
    return w, btc.Tx(c['version'], vin, vout, c['lock'])


def damage(tx, edits):
    t = tokens(tx)
    for op, a, b in edits:  # counts and lengths first
        k = [i for i, x in enumerate(t) if isinstance(x, int)]
        if op == 'wide' and k:
            i = k[a % len(k)]
            size = [3, 5, 9][b % 3]
            if t[i] < 1 << 8 * (size - 1):
                t[i] = wide(t[i], size)
        elif op == 'count' and k:
            i = k[a % len(k)]
            t[i] = max(0, t[i] + [1, -1, 2, 252, 65536, 1 << 40][b % 6])
    raw = b''.join(btc.varint(x) if isinstance(x, int) else x for x in t)
    for op, a, b in edits:
        p = a % (len(raw) + 1)
        n = b % 40 + 1
        if op == 'cut':
            raw = raw[:p]
        elif op == 'tail':
            raw = raw[: max(0, len(raw) - n)]
        elif op == 'append':
            raw += bytes([b % 256]) * (a % 9 + 1)
        elif op == 'drop':
            raw = raw[:p] + raw[p + n :]
        elif op == 'insert':
            raw = raw[:p] + bytes([b % 256]) * (b % 3 + 1) + raw[p:]
        elif op == 'change' and raw:
            p = a % len(raw)
            raw = raw[:p] + bytes([raw[p] ^ (b % 255 + 1)]) + raw[p + 1 :]
        elif op == 'twice':
            raw = raw + raw
    return raw


def status(raw):
    """The transaction, None (malformed) or 'either'."""
    try:
        tx = btc.parse_tx(raw, True)
    except btc.ParseError:
        return None
    if not tx.vin or (tx.segwit and not any(i['witness'] for i in tx.vin)):
        return 'either'
    return tx


def judge(raw, ctx, w=None, known=()):
    s = status(raw)
    if s == 'either':
        ctx.trivial()
        ctx.label('either')
        return
    text = raw.hex()
    if s is None:
        raises(ValueError, lambda: T.deserialize(raw), 'parsing %d malformed bytes' % len(raw))
        raises(ValueError, lambda: T.deserialize(text), 'parsing malformed hex')
        raises(ValueError, lambda: T.deserialize(text.upper()), 'parsing malformed hex')
        raises(ValueError, lambda: T.calc_txid(text), 'id of malformed hex')
        if w is not None:
            raises(ValueError, lambda: offline(lambda: w.key().sign_transaction(text, unspents=known)), 'signing malformed hex')
        ctx.label('malformed')
        return
    for given in (raw, text, text.upper()):
        check(bytes(T.deserialize(given)) == raw, 'well-formed transaction is altered')
    eq(T.calc_txid(text), s.txid(), 'id')
    ctx.trivial()
    ctx.label('well-formed')


def malformed(c, ctx):
    w, tx = build(c)
    raw = damage(tx, c['edits'])
    for op, _, _ in c['edits']:
        ctx.label(op)
    intact = tx.serialize()
    if status(intact) != 'either':  # a transaction seen before must not matter
        check(bytes(T.deserialize(intact.hex())) == intact, 'intact transaction is altered')
        eq(T.calc_txid(intact.hex()), tx.txid(), 'id of the intact transaction')
    judge(raw, ctx, w, w.unspents(c['utxos']))


def every(c, ctx):
    """Every cut, every byte appended, every count changed."""
    w, tx = build(c)
    raw = tx.serialize()
    known = w.unspents(c['utxos'])
    for n in range(len(raw)):
        judge(raw[:n], ctx, w if n % 7 == 0 or n > len(raw) - 60 else None, known)
    for b in range(256):
        judge(raw + bytes([b]), ctx, w if b % 16 == 0 else None, known)
    k = sum(isinstance(x, int) for x in tokens(tx))
    for i in range(k):
        for b in range(6):
            judge(damage(tx, [('count', i, b)]), ctx, w, known)
            judge(damage(tx, [('wide', i, b)]), ctx, w, known)
    ctx.trivial(False)


def text(c, ctx):
    w, tx = build(c)
    t = tx.serialize().hex()
    for kind, a, ch in c['marks']:
        p = a % (len(t) + 1)
        if kind == 'replace':
            p = a % len(t)
            t = t[:p] + ch + t[p + 1 :]
        elif kind == 'insert':
            t = t[:p] + ch + t[p:]
        elif kind == 'before':
            t = ch + t
        else:
            t = t + ch
    known = w.unspents(c['utxos'])
    if all(x in '0123456789abcdefABCDEF' for x in t):
        ctx.trivial()
        return
    for f in (T.deserialize, T.calc_txid, lambda t: offline(lambda: w.key().sign_transaction(t, unspents=known))):
        try:
            f(t)
        except Exception:
            continue
        # white space between bytes may be taken as meaningless
        check(t.split() and ''.join(t.split()) == tx.serialize().hex(), 'text that is not hex is taken for a transaction')
    ctx.label('white space' if ''.join(t.split()) != t else 'other character')


def noise(c, ctx):
    judge(c['head'] + c['raw'], ctx)
    ctx.trivial(False)


blobs = st.one_of(st.binary(max_size=30), st.binary(min_size=250, max_size=256))


@st.composite
def base(draw):
    w = draw(st.one_of(scen.single(), scen.single(), scen.contract(max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    return {
        'w': w,
        'utxos': draw(scen.coins(max_size=2, kinds=('legacy', 'segwit') if comp else ('legacy',), amount=st.integers(1, 2 ** 50))),
        'others': draw(st.lists(st.tuples(blobs, st.one_of(st.just([]), st.lists(blobs, max_size=3))), max_size=2)),
        'outs': draw(st.lists(st.tuples(st.integers(0, 2 ** 50), blobs), min_size=1, max_size=3)),
        'version': draw(st.sampled_from([1, 2, 2 ** 31])),
        'lock': draw(st.one_of(st.just(0), st.integers(0, 2 ** 32 - 1))),
    }


edits = st.lists(
    st.tuples(
        st.sampled_from(['cut', 'tail', 'append', 'drop', 'insert', 'change', 'change', 'twice', 'wide', 'count', 'count']),
        st.integers(0, 5000),
        st.integers(0, 300),
    ),
    min_size=1,
    max_size=2,
)
marks = st.lists(
    st.tuples(
        st.sampled_from(['replace', 'insert', 'before', 'after']),
        st.integers(0, 2000),
        st.sampled_from([' ', '  ', '\n', '\t', 'g', 'x', '0x', '-', '+', '_', ':', '\x00', '\u0661', '\uff11', 'é', '"', '{}', '\\x']),
    ),
    min_size=1,
    max_size=2,
)


def examples(tier):
    one = {'type': 'single', 'net': 'main', 'secret': 4242, 'compressed': True}
    two = {'type': 'multi', 'net': 'test', 'secrets': [71, 72], 'flags': [True] * 2, 'm': 2, 'me': 0, 'as_set': False, 'hex': False}
    out = []
    for w in (one, two):
        for kind in ('legacy', 'segwit'):
            for others in ([], [[b'\x51', []]], [[b'', [b'\x01', b'']]], [[b'\x52' * 253, [b'\x03' * 253]]]):
                out.append(
                    {
                        'w': w,
                        'utxos': [{'k': kind, 'a': 10 ** 6, 't': '%064x' % 5, 'n': 1}],
                        'others': others,
                        'outs': [(1000, b'\x51'), (2000, b''), (3000, b'\x00\x14' + bytes(20))],
                        'version': 1,
                        'lock': 0,
                    }
                )
    return out


SUBS = [
    Sub('malformed', st.tuples(base(), edits).map(lambda t: dict(t[0], edits=t[1])), malformed, 6000, 400000),
    Sub('every', base(), every, 60, 4000, enumerate_=examples),
    Sub('text', st.tuples(base(), marks).map(lambda t: dict(t[0], marks=t[1])), text, 1500, 60000),
    Sub(
        'noise',
        st.fixed_dictionaries(
            {
                'head': st.sampled_from(
                    [b'', b'\x01\x00\x00\x00', b'\x01\x00\x00\x00\x00\x01', b'\x02\x00\x00\x00\x01' + bytes(36), b'\x02\x00\x00\x00\x00\x01\x01' + bytes(36)]
                ),
                'raw': st.binary(max_size=120),
            }
        ),
        noise,
        2500,
        200000,
    ),
]
