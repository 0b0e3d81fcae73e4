from hypothesis import strategies as st

import bit
import bit.format
import bit.wallet
from lib import btc, gen
from lib.core import Sub, check, eq, raises

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = (
    'Cases: (secret, network, compression) with secrets random, short, near the group order, powers of two or ending '
    'in 0x01; corrupted WIFs derived from valid ones. Every case is non-trivial except a corruption that happens to '
    'leave the text unchanged. Oracle: independent WIF codec, OpenSSL parse of DER/PEM, same secret after re-import.'
)

CLS = {'main': bit.PrivateKey, 'test': bit.PrivateKeyTestnet}


def expected_address(secret, net, comp):
    return gen.key_address(secret, net, 'p2pkh' if comp else 'p2pkh-uncompressed')


def same(key, secret, net, comp, what):
    eq(key.to_int(), secret, what + ': secret')
    check(type(key) is CLS[net], '%s: class %s for network %s', what, type(key).__name__, net)
    eq(key.is_compressed(), comp, what + ': compression')
    eq(key.address, expected_address(secret, net, comp), what + ': address')


def roundtrip(c, ctx):
    secret, net, comp = c['secret'], c['net'], c['comp']
    raw = secret.to_bytes(32, 'big')
    w = btc.wif(raw, net, comp)
    cls = CLS[net]
    key = cls(w)
    same(key, secret, net, comp, 'from WIF')
    eq(key.to_wif(), w, 'exported WIF')
    same(cls(key.to_wif()), secret, net, comp, 'WIF round trip')
    same(bit.wif_to_key(w), secret, net, comp, 'automatic network detection')
    # documented: the class decides the network, the version byte of the WIF does not
    other = 'test' if net == 'main' else 'main'
    same(CLS[other](w), secret, other, comp, 'WIF of the other network')
    eq(CLS[other](w).to_wif(), btc.wif(raw, other, comp), 'WIF exported for the other network')
    eq(key.to_bytes(), raw, 'bytes')
    eq(key.to_int(), secret, 'int')
    eq(int(key.to_hex(), 16), secret, 'hex')
    for name, exp in (('hex', key.to_hex()), ('bytes', key.to_bytes()), ('int', key.to_int()), ('der', key.to_der()), ('pem', key.to_pem())):
        same(getattr(cls, 'from_' + name)(exp), secret, net, True, name)
        same(getattr(CLS[other], 'from_' + name)(exp), secret, other, True, name)
    from cryptography.hazmat.primitives.serialization import load_der_private_key, load_pem_private_key

    eq(load_der_private_key(key.to_der(), None).private_numbers().private_value, secret, 'DER content')
    eq(load_pem_private_key(key.to_pem(), None).private_numbers().private_value, secret, 'PEM content')
    # functional codec
    eq(bit.format.bytes_to_wif(raw, version=net, compressed=comp), w, 'bytes_to_wif')
    eq(tuple(bit.format.wif_to_bytes(w)), (raw, comp, net), 'wif_to_bytes')
    eq(bit.format.wif_checksum_check(w), True, 'wif_checksum_check')
    ctx.label(net, 'compressed' if comp else 'uncompressed')
    if raw[0] == 0:
        ctx.label('leading zero byte')
    if raw[-1] == 1:
        ctx.label('trailing 0x01')


def corrupt(c, ctx):
    w = btc.wif(c['secret'].to_bytes(32, 'big'), c['net'], c['comp'])
    kind = c['kind']
    s = list(w)
    if kind == 'subst':
        for pos, shift in c['edits']:
            p = pos % len(s)
            s[p] = btc.B58[(btc.B58.index(s[p]) + 1 + shift % 57) % 58]
    elif kind == 'swap':
        p = c['edits'][0][0] % (len(s) - 1)
        s[p], s[p + 1] = s[p + 1], s[p]
    elif kind == 'delete':
        del s[c['edits'][0][0] % len(s)]
    elif kind == 'insert':
        s.insert(c['edits'][0][0] % (len(s) + 1), btc.B58[c['edits'][0][1] % 58])
    elif kind == 'badchar':
        s[c['edits'][0][0] % len(s)] = c['char']
    elif kind == 'around':
        s.insert(0 if c['edits'][0][0] & 1 else len(s), c['char'])
    elif kind == 'version':
        payload = bytes([c['ver']]) + c['secret'].to_bytes(32, 'big') + (b'\x01' if c['comp'] else b'')
        s = list(btc.b58check(payload))
    elif kind == 'checksum':
        raw = btc.b58dec(w)
        i = len(raw) - 4 + c['edits'][0][0] % 4
        s = list(btc.b58enc(raw[:i] + bytes([raw[i] ^ (1 + c['edits'][0][1] % 255)]) + raw[i + 1 :]))
    text = ''.join(s)
    payload = btc.b58check_dec(text)
    if payload is not None and payload[:1] in (b'\x80', b'\xef'):
        ctx.trivial()  # unchanged, or a valid WIF again
        return
    ctx.label(kind)
    for f in (bit.PrivateKey, bit.PrivateKeyTestnet, bit.wif_to_key):
        eq(f(w).to_int(), c['secret'], 'intact WIF')  # what was seen before must not matter
        raises(ValueError, lambda: f(text), 'corrupt WIF %r' % text)
    raises(ValueError, lambda: bit.format.wif_to_bytes(text), 'corrupt WIF %r' % text)
    eq(bit.format.wif_checksum_check(w), True, 'wif_checksum_check of the intact WIF')
    eq(bit.format.wif_checksum_check(text), False, 'wif_checksum_check of corrupt WIF')
    eq(bit.wif_to_key(w).to_wif(), w, 'intact WIF afterwards')


def numbers(c, ctx):
    """Bytes and digits of any length are the number they spell."""
    n, cls = c['n'], CLS[c['net']]
    size = (n.bit_length() + 7) // 8
    raw = n.to_bytes(size + c['lead'] if c['fit'] else max(size, 32) + c['lead'], 'big')
    digits = raw.hex()
    if c['odd']:
        digits = digits[1:] if digits.startswith('0') else '0' + digits
    if c['upper']:
        digits = digits.upper()
    ok = 0 < n < btc.N
    for name, value in (('bytes', raw), ('hex', digits), ('int', n)):
        try:
            key = getattr(cls, 'from_' + name)(value)
        except ValueError:
            check(not ok or len(raw) > 32, 'from_%s: %r refused', name, value)
            continue
        check(ok, 'from_%s: %r accepted', name, value)
        same(key, n, c['net'], True, name)
        eq(key.to_bytes(), n.to_bytes(32, 'big'), name + ': bytes')
        eq(int(key.to_hex(), 16), n, name + ': hex')
        eq(key.to_wif(), btc.wif(n.to_bytes(32, 'big'), c['net'], True), name + ': WIF')
        eq(cls.from_der(key.to_der()).to_int(), n, name + ': DER')
        eq(cls.from_pem(key.to_pem()).to_int(), n, name + ': PEM')
        check(cls.from_int(n).verify(key.sign(b'data'), b'data'), '%s: signature', name)
    ctx.label('in range' if ok else 'out of range', 'long' if len(raw) > 32 else 'short' if len(raw) < 32 else '32 bytes')
    if len(raw) == 32 and ok:
        ctx.trivial()


def sizes(c, ctx):
    """WIFs that hold something other than 32 bytes and a flag."""
    payload = {'main': b'\x80', 'test': b'\xef'}[c['net']] + c['raw'] + c['flag']
    text = btc.b58check(payload)
    if len(payload) == 33 or len(payload) == 34 and payload[-1:] == b'\x01':
        ctx.trivial()
        return
    spelled = {int.from_bytes(payload[1:], 'big')}
    if payload[-1:] == b'\x01':
        spelled.add(int.from_bytes(payload[1:-1], 'big'))
    for f in (bit.PrivateKey, bit.PrivateKeyTestnet, bit.wif_to_key):
        try:
            key = f(text)
        except ValueError:
            continue
        check(len(payload) < 33, 'WIF of %d bytes accepted: %r', len(payload), text)
        check(key.to_int() in spelled, 'WIF of %d bytes: another key', len(payload))
        eq(key.to_bytes(), key.to_int().to_bytes(32, 'big'), 'bytes of the key')
        eq(key.address, expected_address(key.to_int(), 'main' if type(key) is bit.PrivateKey else 'test', key.is_compressed()), 'address')
    ctx.label('long' if len(payload) > 33 else 'short')


def equality(c, ctx):
    a, b = c['a'], c['b'] if c['differ'] else c['a']
    if c['near'] is not None and 0 < a ^ (1 << c['near']) < btc.N:
        b = a ^ (1 << c['near'])
    elif c['near'] == 255:
        b = btc.N - a
    ka = gen.make_key(bit, a, c['nets'][0], c['comps'][0])
    kb = gen.make_key(bit, b, c['nets'][1], c['comps'][1])
    eq(bool(ka == kb), a == b, 'equality of keys')
    eq(bool(ka != kb), a != b, 'inequality of keys')
    ctx.label('equal' if a == b else 'different')
    for bad in (c['a'], c['a'].to_bytes(32, 'big')):
        raises(TypeError, lambda: bit.PrivateKey(bad), 'WIF of wrong type')
        raises(TypeError, lambda: bit.PrivateKeyTestnet(bad), 'WIF of wrong type')


base = {'secret': gen.secrets(), 'net': gen.nets, 'comp': st.booleans()}
edits = st.lists(st.tuples(st.integers(0, 60), st.integers(0, 255)), min_size=1, max_size=4)
SUBS = [
    Sub('roundtrip', st.fixed_dictionaries(base), roundtrip, 3000, 120000),
    Sub(
        'corrupt',
        st.fixed_dictionaries(
            dict(
                base,
                kind=st.sampled_from(['subst', 'subst', 'swap', 'delete', 'insert', 'badchar', 'around', 'version', 'checksum']),
                edits=edits,
                char=st.sampled_from(list('0OIl+/ _-!\t\n') + ['é', '１']),
                ver=st.integers(0, 255),
            )
        ),
        corrupt,
        5000,
        400000,
        # every version byte of neither network
        enumerate_=lambda tier: [
            {'secret': 1, 'net': 'main', 'comp': comp, 'kind': 'version', 'edits': [[0, 0]], 'char': '0', 'ver': v}
            for v in range(256)
            for comp in (True, False)
        ],
    ),
    Sub(
        'numbers',
        st.fixed_dictionaries(
            {
                'n': st.one_of(
                    gen.secrets(),
                    gen.secrets(),
                    st.integers(0, 2 ** 64),
                    st.sampled_from([0, btc.N, btc.N + 1, 2 ** 256 - 1, 2 ** 256, 2 ** 256 + 1, 2 ** 264 + 5]),
                    st.integers(0, 2 ** 300),
                ),
                'net': gen.nets,
                'lead': st.integers(0, 9),
                'fit': st.booleans(),
                'odd': st.booleans(),
                'upper': st.booleans(),
            }
        ),
        numbers,
        1000,
        60000,
    ),
    Sub(
        'sizes',
        st.fixed_dictionaries(
            {
                'raw': st.one_of(
                    st.binary(max_size=40),
                    st.tuples(st.integers(1, 9), gen.secrets()).map(lambda t: bytes(t[0]) + t[1].to_bytes(32, 'big')),
                    st.tuples(st.integers(1, 31), st.binary(min_size=31, max_size=31)).map(lambda t: t[1][: t[0]]),
                    gen.secrets().map(lambda n: n.to_bytes(32, 'big')),
                    st.binary(min_size=31, max_size=31).map(lambda b: b'\0' + b),
                ),
                'flag': st.one_of(st.just(b''), st.just(b'\x01'), st.binary(min_size=1, max_size=2)),
                'net': gen.nets,
            }
        ),
        sizes,
        1000,
        60000,
    ),
    Sub(
        'equality',
        st.fixed_dictionaries(
            {
                'a': gen.secrets(),
                'b': gen.secrets(),
                'differ': st.booleans(),
                'near': st.one_of(st.none(), st.integers(0, 255)),
                'nets': st.tuples(gen.nets, gen.nets),
                'comps': st.tuples(st.booleans(), st.booleans()),
            }
        ),
        equality,
        1200,
        60000,
    ),
]
