from hypothesis import strategies as st

import bit
from bit import PrivateKey, PrivateKeyTestnet
from bit.format import verify_sig
from lib import btc, gen, scen
from lib.core import Sub, check, eq

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = (
    'Cases: secret, network, compression and data (empty to several KiB); for rejection other or related data (its '
    'hash, a part), another key, a malformed public key or a signature made by bit flips, truncation, extension, high S, non-canonical DER, r/s out of range, random bytes, '
    'empty. Non-trivial: all; a mutated signature the oracle still accepts is counted as trivial. Oracle: independent '
    'RFC 6979 ECDSA over SHA-256, strict DER codec.'
)

data = st.one_of(
    st.binary(max_size=80),
    st.binary(min_size=32, max_size=32),
    st.integers(0, 3000).map(lambda n: bytes((i * 31 + n) % 256 for i in range(n))),
)


def sign(c, ctx):
    key = gen.make_key(bit, c['secret'], c['net'], c['compressed'])
    sig = key.sign(c['data'])
    r, s = btc.ecdsa_sign(c['secret'], btc.sha256(c['data']))
    eq(sig, btc.der_sig(r, s), 'signature')
    eq(key.sign(c['data']), sig, 'second signature')
    near = c['data'] + b'\0' if len(c['data']) % 2 else c['data'][:-1] + b'\xfe\xff'
    sig2 = key.sign(near)
    rs = btc.parse_der(sig2)
    check(
        rs and btc.ecdsa_verify(btc.pubkey(c['secret'], True), rs[0], rs[1], btc.sha256(near)),
        'signature of other data by the same key',
    )
    eq(key.sign(c['data']), sig, 'third signature')
    other = (PrivateKeyTestnet if c['net'] == 'main' else PrivateKey).from_int(c['secret'])
    eq(other.sign(c['data']), sig, 'signature by the same secret on the other network')
    for pub in (btc.pubkey(c['secret'], True), btc.pubkey(c['secret'], False)):
        check(verify_sig(sig, c['data'], pub), 'verify_sig refuses a valid signature')
    check(key.verify(sig, c['data']), 'key refuses its own signature')
    if c['multi']:
        cls = bit.MultiSig if c['net'] == 'main' else bit.MultiSigTestnet
        eq(cls(key, [key.public_key], 1).sign(c['data']), sig, 'signature by a contract')
        ctx.label('contract')
    ctx.label('length %d' % len(sig))


def reject(c, ctx):
    key = gen.make_key(bit, c['secret'], c['net'], c['compressed'])
    d = c['data']
    r, s = btc.ecdsa_sign(c['secret'], btc.sha256(d))
    sig = btc.der_sig(r, s)
    how, a, b = c['how'], c['a'], c['b']
    signer = c['secret']
    if how == 'data':
        d = bytearray(d or b'\0')
        d[a % len(d)] ^= 1 << b % 8
        d = bytes(d)
        if d == c['data']:
            return ctx.trivial()
        if not c['data']:
            d = b'\x01'
    elif how == 'append data':
        d = d + b'\0'
    elif how == 'related data':
        h = btc.sha256(d)
        d = [h, btc.sha256(h), h[::-1], d + h, d.hex().encode(), d.strip(), d.lower(), d[1:], d[:-1], d * 2, b'', h.hex().encode()][a % 12]
        if d == c['data']:
            return ctx.trivial()
    elif how == 'bad public key':
        good = btc.pubkey(signer, bool(b & 1))
        bad = [good[:-1], good + b'\0', b'', b'\x05' + good[1:], good[:1] + b'\xff' * (len(good) - 1), good[1:], good[:1] + bytes(len(good) - 1), good * 2][a % 8]
        for given in (bad, good):
            eq(bool(verify_sig(sig, d, given)), given == good, 'verify_sig with public key %s' % given.hex())
        return ctx.label(how)
    elif how == 'other key':
        other = signer + 1 + a if signer + 1 + a < btc.N else signer - 1 - a
        if other < 1:
            other = 7
        if other == signer:
            return ctx.trivial()
        signer = other
    elif how == 'negated key':
        signer = btc.N - signer
    elif how == 'flip':
        m = bytearray(sig)
        m[a % len(m)] ^= 1 << b % 8
        sig = bytes(m)
    elif how == 'truncate':
        sig = sig[: a % len(sig)]
    elif how == 'extend':
        sig = sig + bytes([b % 256]) * (1 + a % 5)
    elif how == 'swap rs':
        sig = btc.der_sig(s, r)
    elif how == 'zero':
        sig = btc.der_sig(*[(0, s), (r, 0), (0, 0)][a % 3])
    elif how == 'range':
        sig = btc.der_sig(*[(btc.N, s), (r, btc.N), (r + btc.N if r + btc.N < 2 ** 256 else btc.N + 1, s), (2 ** 256 - 1, s)][a % 4])
    elif how == 'random':
        sig = c['raw']
    elif how == 'empty':
        sig = b''
    key = gen.make_key(bit, signer, c['net'], c['compressed'])
    pubs = [btc.pubkey(signer, True), btc.pubkey(signer, False)]
    rs = btc.parse_der(sig)
    if rs is not None and btc.ecdsa_verify(pubs[0], rs[0], rs[1], btc.sha256(d)):
        return ctx.trivial()  # still a valid signature (e.g. of the negated key: impossible, of high S: out of domain)
    # a valid signature seen before must not matter
    own = gen.make_key(bit, c['secret'], c['net'], c['compressed'])
    valid = btc.der_sig(r, s)
    check(own.verify(valid, c['data']), 'key.verify of the valid signature')
    check(key.verify(key.sign(b'other'), b'other'), 'key.verify of its own signature')
    for pub in (btc.pubkey(c['secret'], True), btc.pubkey(c['secret'], False)):
        check(verify_sig(valid, c['data'], pub), 'verify_sig of the valid signature')
    eq(bool(key.verify(sig, d)), False, 'key.verify of %s' % how)
    for pub in pubs:
        eq(bool(verify_sig(sig, d, pub)), False, 'verify_sig of %s' % how)
    ctx.label(how)


base = {'secret': gen.secrets(), 'net': gen.nets, 'compressed': st.booleans(), 'data': data}
SUBS = [
    Sub('sign', st.fixed_dictionaries(dict(base, multi=st.booleans())), sign, 2500, 80000),
    Sub(
        'reject',
        st.fixed_dictionaries(
            dict(
                base,
                how=st.sampled_from(
                    ['data', 'append data', 'related data', 'bad public key', 'other key', 'negated key', 'flip', 'flip', 'flip', 'truncate', 'truncate', 'extend', 'swap rs', 'zero', 'range', 'random', 'empty']
                ),
                a=st.integers(0, 200),
                b=st.integers(0, 255),
                raw=st.one_of(st.binary(max_size=80), st.binary(max_size=70).map(lambda b: b'\x30' + bytes([len(b)]) + b)),
            )
        ),
        reject,
        5000,
        150000,
    ),
]
