from hypothesis import strategies as st

from bit.base58 import b58decode, b58decode_check, b58encode, b58encode_check
from lib import btc
from lib.core import Sub, check, eq, raises

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = (
    'Cases: byte strings (random, with leading zeros, all-zero, up to several hundred bytes) and edits of their '
    'checksummed encodings. A corruption case is trivial when the edited text is still valid (e.g. a swap of equal '
    'characters). Oracle: digit-array Base58 and hashlib double SHA-256.'
)

blobs = st.one_of(
    st.binary(max_size=60),
    st.binary(min_size=18, max_size=26),
    st.tuples(st.integers(0, 12), st.binary(max_size=40)).map(lambda t: b'\0' * t[0] + t[1]),
    st.integers(0, 40).map(lambda n: b'\0' * n),
    st.integers(0, 40).map(lambda n: b'\xff' * n),
    st.binary(min_size=60, max_size=300),
    st.integers(0, 400).map(lambda e: (58 ** e).to_bytes((58 ** e).bit_length() // 8 + 1, 'big').lstrip(b'\0')),
    st.integers(1, 400).map(lambda e: (58 ** e - 1).to_bytes((58 ** e).bit_length() // 8 + 1, 'big').lstrip(b'\0')),
)


def codec(c, ctx):
    b = c['b']
    e = b58encode(b)
    eq(e, btc.b58enc(b), 'b58encode')
    if any(b):
        eq(b58decode(e), b, 'raw round trip')
    else:
        ctx.label('all zero')
    e = b58encode_check(b)
    eq(e, btc.b58check(b), 'b58encode_check')
    eq(b58decode_check(e), b, 'checked round trip')
    if b[:1] == b'\0':
        ctx.label('leading zero')


def text(c, ctx):
    s = c['s']
    if all(ch in btc.B58 for ch in s):
        if s.strip('1'):
            eq(b58decode(s), btc.b58dec(s), 'b58decode')
            eq(b58encode(b58decode(s)), s, 'text round trip')
            ctx.label('alphabet')
            if btc.b58check_dec(s) is None:
                raises(ValueError, lambda: b58decode_check(s), 'text without checksum')
        else:
            ctx.trivial()
    else:
        raises(ValueError, lambda: b58decode(s), 'character outside the alphabet')
        raises(ValueError, lambda: b58decode_check(s), 'character outside the alphabet')
        ctx.label('foreign character')


def corrupt(c, ctx):
    s = list(btc.b58check(c['b']))
    for op, pos, val in c['edits']:
        if op == 'subst' and s:
            s[pos % len(s)] = btc.B58[val % 58]
        elif op == 'del' and s:
            del s[pos % len(s)]
        elif op == 'ins':
            s.insert(pos % (len(s) + 1), btc.B58[val % 58])
        elif op == 'swap' and len(s) > 1:
            p = pos % (len(s) - 1)
            s[p], s[p + 1] = s[p + 1], s[p]
        elif op == 'lead1':
            s.insert(0, '1')
        elif op == 'trunc':
            s = s[: pos % (len(s) + 1)]
        elif op == 'raw' and all(ch in btc.B58 for ch in s):
            raw = bytearray(btc.b58dec(''.join(s)))
            if raw:
                raw[-1 - pos % min(4, len(raw))] ^= 1 << (val % 8)
            s = list(btc.b58enc(bytes(raw)))
        elif op == 'bad' and s:
            s[pos % len(s)] = '0OIl '[val % 5]
        elif op == 'around':
            s.insert(pos % 2 * len(s), ' \n\t\r\0\u3000.0'[val % 8])
    t = ''.join(s)
    want = btc.b58check_dec(t)
    if want is None:
        eq(b58decode_check(btc.b58check(c['b'])), c['b'], 'intact text')
        raises(ValueError, lambda: b58decode_check(t), 'corrupted %r' % t)
        raises(ValueError, lambda: b58decode_check(t), 'corrupted %r, again' % t)
        eq(b58decode_check(btc.b58check(c['b'])), c['b'], 'intact text afterwards')
        ctx.label(c['edits'][0][0])
    else:
        eq(b58decode_check(t), want, 'valid text')
        ctx.trivial()


def forged(c, ctx):
    """Byte strings that end in something that resembles the checksum."""
    b, n = c['b'], c['n']
    full = btc.dsha(b)
    tail = {
        'prefix': full[: n % 4],
        'longer': full[: 5 + n % 20],
        'single': btc.sha256(b)[:4],
        'reversed': full[:4][::-1],
        'last': full[-4:],
        'zero': bytes(4),
        'bit': bytes(x ^ (1 << (n % 8)) * (i == n // 8 % 4) for i, x in enumerate(full[:4])),
        'other': btc.dsha(b + b'\0')[:4],
    }[c['kind']]
    t = btc.b58enc(b + tail)
    want = btc.b58check_dec(t)
    if want is None:
        eq(b58decode_check(btc.b58check(b)), b, 'intact text')
        raises(ValueError, lambda: b58decode_check(t), 'text without the right checksum, %r' % t)
        ctx.label(c['kind'])
    else:
        eq(b58decode_check(t), want, 'valid text')
        ctx.trivial()


edits = st.lists(
    st.tuples(
        st.sampled_from(['subst', 'subst', 'del', 'ins', 'swap', 'lead1', 'trunc', 'raw', 'raw', 'bad', 'around']),
        st.integers(0, 500),
        st.integers(0, 255),
    ),
    min_size=1,
    max_size=3,
)
SUBS = [
    Sub('codec', st.fixed_dictionaries({'b': blobs}), codec, 8000, 400000),
    Sub(
        'text',
        st.fixed_dictionaries(
            {
                's': st.one_of(
                    st.text(alphabet=btc.B58, max_size=60),
                    st.text(alphabet=btc.B58 + '0OIl+/é ', max_size=20),
                    st.text(max_size=10),
                )
            }
        ),
        text,
        4000,
        200000,
        enumerate_=lambda tier: [{'s': chr(i)} for i in range(1, 256)]
        + [{'s': '2' + chr(i) + '3'} for i in range(1, 256)],
    ),
    Sub(
        'forged',
        st.fixed_dictionaries(
            {
                'b': st.one_of(st.binary(max_size=4), blobs),
                'kind': st.sampled_from(['prefix', 'longer', 'single', 'reversed', 'last', 'zero', 'bit', 'other']),
                'n': st.integers(0, 255),
            }
        ),
        forged,
        4000,
        200000,
        enumerate_=lambda tier: [{'b': b'', 'kind': 'prefix', 'n': n} for n in range(4)],
    ),
    Sub('corrupt', st.fixed_dictionaries({'b': blobs, 'edits': edits}), corrupt, 6000, 400000),
]
