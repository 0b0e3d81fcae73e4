from hypothesis import strategies as st

from bit import utils
from lib import btc
from lib.core import Sub, check, eq

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = (
    'Cases: byte strings of 0..3600 bytes (leading zeros, odd hex, repetitive), integers of up to 4800 bits and around every '
    'boundary of the variable-length forms up to 2^64-1, push lengths up to 2^32-1, chunk sizes 1..200, nested streams. '
    'Non-trivial: non-empty data or a value above 252. Oracle: round trips and an independent encoder.'
)

ints = st.one_of(
    st.integers(0, 2 ** 600),
    st.integers(0, 2 ** 4800),
    st.integers(0, 2 ** 33),
    st.integers(0, 600).flatmap(lambda e: st.sampled_from([2 ** e, 2 ** e - 1, 2 ** e + 1])),
    st.integers(0, 300),
)
edges = [0, 1, 0xFC, 0xFD, 0xFE, 0xFF, 0x100, 0xFFFE, 0xFFFF, 0x10000, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 64 - 1]
varints = st.one_of(st.sampled_from(edges), st.integers(0, 300), st.integers(0, 2 ** 17), st.integers(0, 2 ** 34), st.integers(0, 2 ** 64 - 1))
data = st.one_of(
    st.binary(max_size=80),
    st.binary(max_size=600),
    st.tuples(st.binary(min_size=1, max_size=12), st.integers(1, 300)).map(lambda t: t[0] * t[1]),
    st.tuples(st.integers(0, 6), st.binary(max_size=20)).map(lambda t: b'\0' * t[0] + t[1]),
)


def codecs(c, ctx):
    b, n = c['b'], c['n']
    h = utils.bytes_to_hex(b)
    eq(h, b.hex(), 'bytes_to_hex')
    eq(utils.bytes_to_hex(b, upper=True), b.hex().upper(), 'bytes_to_hex upper')
    eq(utils.hex_to_bytes(h), b, 'hex_to_bytes')
    eq(utils.hex_to_bytes(h.upper()), b, 'hex_to_bytes upper')
    if h.startswith('0'):
        eq(utils.hex_to_bytes(h[1:]), b, 'hex_to_bytes of odd length')
    eq(utils.flip_hex_byte_order(h), b[::-1].hex(), 'flip')
    eq(utils.flip_hex_byte_order(utils.flip_hex_byte_order(h)), h, 'flip twice')
    eq(utils.int_to_hex(n), '%x' % n, 'int_to_hex')
    eq(utils.int_to_hex(n, upper=True), '%X' % n, 'int_to_hex upper')
    eq(utils.hex_to_int(utils.int_to_hex(n)), n, 'hex_to_int')
    hx = '%x' % n
    eq(utils.hex_to_bytes(hx), n.to_bytes((len(hx) + 1) // 2, 'big'), 'hex_to_bytes of a number in hex')
    eq(utils.hex_to_bytes('0' * c['zeros'] + hx), n.to_bytes((c['zeros'] + len(hx) + 1) // 2, 'big'), 'hex_to_bytes with zeros in front')
    if b:
        eq(utils.hex_to_int(h), int.from_bytes(b, 'big'), 'hex_to_int of bytes')
    for order in ('big', 'little'):
        m = utils.int_to_unknown_bytes(n, order)
        eq(int.from_bytes(m, order), n, 'int_to_unknown_bytes')
        eq(len(m), max(1, (n.bit_length() + 7) // 8), 'length of int_to_unknown_bytes')
    eq(utils.int_to_unknown_bytes(n), utils.int_to_unknown_bytes(n, 'big'), 'default byte order')
    ctx.trivial(not b and n == 0)


def varint(c, ctx):
    n, rest = c['n'], c['rest']
    e = utils.int_to_varint(n)
    eq(e, btc.varint(n), 'int_to_varint(%d)' % n)
    eq(utils.read_var_int(e + rest), (n, rest), 'read_var_int')
    p = c['push']
    want = (
        bytes([p]) if p <= 75 else b'\x4c' + bytes([p]) if p < 256 else b'\x4d' + p.to_bytes(2, 'little')
        if p < 65536 else b'\x4e' + p.to_bytes(4, 'little')
    )  # fmt: skip
    eq(utils.script_push(p), want, 'script_push(%d)' % p)
    ctx.label('%d bytes' % len(e))
    ctx.trivial(n < 253 and not rest)


def stream(c, ctx):
    """A stream of length-prefixed strings and fixed-size integers is read back item by item."""
    s = b''.join(btc.varint(len(b)) + b + n.to_bytes(8, 'little') for b, n in c['items']) + c['rest']
    for b, n in c['items']:
        got, s2 = utils.read_var_string(s)
        eq(got, b, 'read_var_string')
        got, s = utils.read_segwit_string(s)
        eq(got, btc.varint(len(b)) + b, 'read_segwit_string')
        eq(s2, s, 'rest')
        n_, s = utils.read_as_int(s, 8)
        eq(n_, n, 'read_as_int')
    eq(s, c['rest'], 'rest of the stream')
    k = c['size']
    a, r = utils.read_bytes(c['rest'], k)
    eq((a, r), (c['rest'][:k], c['rest'][k:]), 'read_bytes')
    ctx.trivial(not c['items'])


def chunks(c, ctx):
    for d in (c['b'], c['b'].decode('latin1'), list(c['b'])):
        parts = list(utils.chunk_data(d, c['size']))
        joined = d[:0]
        for p in parts:
            joined = joined + p
        eq(joined, d, 'concatenation')
        check(all(len(p) == c['size'] for p in parts[:-1]), 'a chunk that is not the last has the wrong size')
        check(not parts or 0 < len(parts[-1]) <= c['size'], 'size of the last chunk')
        eq(len(parts), -(-len(d) // c['size']), 'number of chunks')
    ctx.trivial(not c['b'])


SUBS = [
    Sub('codecs', st.fixed_dictionaries({'b': data, 'n': ints, 'zeros': st.sampled_from([0, 0, 1, 2, 3, 7])}), codecs, 6000, 300000),
    Sub(
        'varint',
        st.fixed_dictionaries(
            {
                'n': varints,
                'rest': st.binary(max_size=10),
                'push': st.one_of(st.integers(0, 300), st.integers(0, 2 ** 17), st.integers(0, 2 ** 32 - 1), st.sampled_from([75, 76, 255, 256, 65535, 65536])),
            }
        ),
        varint,
        6000,
        300000,
        enumerate_=lambda tier: [{'n': e, 'rest': r, 'push': p} for e in edges for r in (b'', b'\xff\0') for p in (0, 1, 74, 75, 76, 77, 254, 255, 256, 257, 65535, 65536)],
    ),
    Sub(
        'stream',
        st.fixed_dictionaries(
            {
                'items': st.lists(st.tuples(st.one_of(data, st.integers(250, 260).map(lambda n: b'\xab' * n), st.just(b'z' * 65536)), st.integers(0, 2 ** 64 - 1)), max_size=5),
                'rest': st.binary(max_size=20),
                'size': st.integers(0, 25),
            }
        ),
        stream,
        2000,
        100000,
    ),
    Sub('chunks', st.fixed_dictionaries({'b': data, 'size': st.integers(1, 200)}), chunks, 3000, 150000),
]
