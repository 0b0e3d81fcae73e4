from hypothesis import strategies as st

import bit.transaction as T
from lib import btc, gen
from lib.core import Sub, check, eq

PROPERTY = 'C06'
QUICK_SCALE = 2
LEVEL = 'exploration'
RULE = (
    'Cases: whole transactions as field values; counts and lengths drawn from 0..3 mixed with the values around the '
    'varint boundaries (252, 253, 255, 256, 65535, 65536) using compact filler descriptions. Non-trivial: every case '
    '(label counts show segwit share and boundary hits). Oracle: independent serializer/parser and hashlib.'
)


def blob(spec):
    n, seed = spec
    if n <= 0:
        return b''
    h = btc.sha256(b'%d' % seed)
    return (h * (n // 32 + 1))[:n]


def build(c):
    vin = []
    for i, (seed, vout, script, seq, wit) in enumerate(c['vin']):
        vin.append({'txid': gen.derived_txid(seed, i), 'vout': vout, 'script': blob(script), 'sequence': seq, 'witness': [blob(w) for w in wit]})
    for i in range(c['more_in']):
        wit = [blob((i % 3, i))] if c['segwit'] and i % 2 else []
        vin.append({'txid': gen.derived_txid(77, i), 'vout': i, 'script': blob((i % 5, i)), 'sequence': 0xFFFFFFFF - i % 3, 'witness': wit})
    vout = [{'amount': a, 'script': blob(s)} for a, s in c['vout']]
    vout += [{'amount': i, 'script': blob((i % 4, i))} for i in range(c['more_out'])]
    if not c['segwit']:
        for i in vin:
            i['witness'] = []
    elif not any(i['witness'] for i in vin):
        vin[0]['witness'] = [b'\x01']
    return btc.Tx(c['version'], vin, vout, c['locktime'])


def fields(o):
    vin = []
    for i in o.TxIn:
        vin.append((i.txid, i.txindex, i.script_sig, i.sequence, bytes(i.witness or b'')))
    return (o.version, vin, [(x.amount, x.script_pubkey) for x in o.TxOut], o.locktime)


def want_fields(tx):
    vin = []
    for i in tx.vin:
        w = b''
        if tx.segwit:
            w = btc.varint(len(i['witness'])) + b''.join(btc.varint(len(x)) + x for x in i['witness'])
        vin.append(
            (bytes.fromhex(i['txid'])[::-1], i['vout'].to_bytes(4, 'little'), i['script'], i['sequence'].to_bytes(4, 'little'), w)
        )
    return (
        tx.version.to_bytes(4, 'little'),
        vin,
        [(o['amount'].to_bytes(8, 'little'), o['script']) for o in tx.vout],
        tx.locktime.to_bytes(4, 'little'),
    )


def roundtrip(c, ctx):
    tx = build(c)
    raw = tx.serialize()
    eq(btc.parse_tx(raw).serialize(), raw, 'oracle self-check')
    txt = raw.hex().upper() if c['upper'] else raw.hex()
    if c.get('mixed'):
        txt = ''.join(x.upper() if i * i % 7 < 3 else x.lower() for i, x in enumerate(txt))
    exp = want_fields(tx)
    for given in (raw, txt):
        o = T.deserialize(given)
        check(fields(o) == exp, 'parsed fields differ for %d-byte transaction', len(raw))
        check(o.to_hex() == raw.hex(), 'to_hex after parsing differs')
        check(bytes(o) == raw, 'bytes after parsing differ')
        check(o.legacy_repr() == tx.stripped(), 'serialization without witness differs')
        eq(T.TxObj.is_segwit(o), tx.segwit, 'is_segwit(parsed)')
    eq(T.calc_txid(raw.hex()), tx.txid(), 'txid')
    eq(T.TxObj.is_segwit(raw), tx.segwit, 'is_segwit(bytes)')
    eq(T.TxObj.is_segwit(raw.hex()), tx.segwit, 'is_segwit(hex)')
    check(T.deserialize(raw) == T.deserialize(raw.hex()), 'equal transactions compare unequal')
    # building the same transaction from parts
    v, vin, vout, lt = exp
    o = T.TxObj(
        v,
        [T.TxIn(s, t, n, witness=w, sequence=q) for t, n, s, q, w in vin],
        [T.TxOut(a, s) for a, s in vout],
        lt,
    )
    check(o.to_hex() == raw.hex(), 'transaction built from parts serializes differently')
    check(o == T.deserialize(raw), 'built and parsed transactions compare unequal')
    ctx.label('segwit' if tx.segwit else 'legacy')
    for name, n in (('inputs', len(tx.vin)), ('outputs', len(tx.vout))):
        if n > 252:
            ctx.label('>252 ' + name)
    lens = [len(i['script']) for i in tx.vin] + [len(x['script']) for x in tx.vout]
    wl = [len(w) for i in tx.vin for w in i['witness']]
    for name, ls in (('script', lens), ('witness item', wl)):
        if any(252 < n <= 65535 for n in ls):
            ctx.label('3-byte varint ' + name)
        if any(n > 65535 for n in ls):
            ctx.label('5-byte varint ' + name)
    if any(len(i['witness']) > 252 for i in tx.vin):
        ctx.label('>252 witness items')


def differ(c, ctx):
    """A change in any field is visible: different transactions never compare equal or share an id unduly."""
    tx = build(c)
    raw = tx.serialize()
    f = c['field']
    wit_only = False
    if f == 'version':
        tx.version ^= 1 << c['bit'] % 32
    elif f == 'locktime':
        tx.locktime ^= 1 << c['bit'] % 32
    elif f == 'sequence':
        tx.vin[-1]['sequence'] ^= 1 << c['bit'] % 32
    elif f == 'vout':
        tx.vin[-1]['vout'] ^= 1 << c['bit'] % 32
    elif f == 'txid':
        tx.vin[c['bit'] % len(tx.vin)]['txid'] = gen.derived_txid('other', c['bit'])
    elif f in ('amount', 'outscript') and not tx.vout:
        ctx.trivial()
        return
    elif f == 'amount':
        tx.vout[-1]['amount'] ^= 1 << c['bit'] % 63
    elif f == 'script':
        tx.vin[0]['script'] += b'\x51'
    elif f == 'outscript':
        tx.vout[0]['script'] += b'\x51'
    elif f == 'witness' and tx.segwit:
        tx.vin[0]['witness'] = tx.vin[0]['witness'] + [b'\x02']
        wit_only = True
    else:
        ctx.trivial()
        return
    other = tx.serialize()
    a, b = T.deserialize(raw), T.deserialize(other)
    check(not (a == b), 'transactions differing in %s compare equal', f)
    ida, idb = T.calc_txid(raw.hex()), T.calc_txid(other.hex())
    eq(ida == idb, wit_only, 'txid comparison after change of %s' % f)
    ctx.label(f)


lengths = st.one_of(
    st.integers(0, 120),
    st.integers(0, 4),
    st.sampled_from([75, 76, 107, 252, 253, 254, 255, 256, 257, 520, 1000]),
)
big = st.one_of(*([lengths] * 24 + [st.sampled_from([65535, 65536, 70000])]))
spec = st.tuples(big, st.integers(0, 9))
u32 = st.one_of(st.integers(0, 2), st.integers(0, 2 ** 32 - 1), st.sampled_from([0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0x01000000, 253, 0xFD, 0xFF]))
u64 = st.one_of(st.integers(0, 5), st.integers(0, 2 ** 64 - 1), st.integers(0, 21 * 10 ** 14))
wits = st.lists(spec, max_size=4)


@st.composite
def txs(draw, small=False):
    few = [0] * 18
    edge = few + ([] if small else [1, 249, 250, 251, 252, 253, 254, 255, 256, 300])
    many_w = draw(st.sampled_from([0] * 30 + ([] if small else [252, 253, 256])))
    vin = draw(st.lists(st.tuples(st.integers(0, 50), u32, spec, u32, wits), min_size=1, max_size=3))
    if many_w:
        vin[0] = vin[0][:4] + ([(i % 3, i) for i in range(many_w)],)
    return {
        'version': draw(st.one_of(st.sampled_from([1, 2]), u32)),
        'vin': vin,
        'more_in': draw(st.sampled_from(edge)),
        'vout': draw(st.lists(st.tuples(u64, spec), min_size=draw(st.sampled_from([1, 1, 1, 0])), max_size=3)),
        'more_out': draw(st.sampled_from(edge)),
        'locktime': draw(u32),
        'segwit': draw(st.booleans()),
        'upper': draw(st.booleans()),
        'mixed': draw(st.booleans()),
    }


def many(tier):
    out = []
    for ins, outs, wit in ((600, 0, 0), (1500, 3, 0), (0, 700, 0), (2, 2500, 0), (1, 6000, 0), (4000, 0, 0), (0, 0, 600), (0, 0, 5000), (0, 0, 65535), (0, 0, 65536), (900, 900, 300)):
        for segwit in (True, False) if not wit else (True,):
            vin = [[5, 1, [3, 4], 0xFFFFFFFE, [[i % 3, i % 10] for i in range(wit)]]]
            out.append({'version': 2, 'vin': vin, 'more_in': ins, 'vout': [[5000, [25, 1]]], 'more_out': outs, 'locktime': 7, 'segwit': segwit, 'upper': False})
    if tier != 'quick':
        out.append({'version': 1, 'vin': [[5, 1, [3, 4], 7, []]], 'more_in': 0, 'vout': [[5000, [25, 1]]], 'more_out': 20000, 'locktime': 7, 'segwit': False, 'upper': False})
    return out


SUBS = [
    Sub('roundtrip', txs(), roundtrip, 4000, 200000, enumerate_=many),
    Sub(
        'differ',
        st.tuples(
            txs(small=True),
            st.fixed_dictionaries(
                {
                    'field': st.sampled_from(['version', 'locktime', 'sequence', 'txid', 'vout', 'amount', 'script', 'outscript', 'witness']),
                    'bit': st.integers(0, 63),
                }
            ),
        ).map(lambda t: dict(t[0], **t[1])),
        differ,
        1500,
        60000,
    ),
]
