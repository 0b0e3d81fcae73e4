from hypothesis import strategies as st

import bit
import bit.curve
import bit.format
from bit.network.meta import Unspent
from lib import btc, gen
from lib.core import Sub, check, eq, raises

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = (
    'Cases: (secret, network, compression); every case is non-trivial. can_sign cases offer own, sibling, mutated and '
    'foreign scripts. Oracle: pure-Python secp256k1, SEC1, hash160 and Base58Check.'
)


def derive(c, ctx):
    d, net, comp = c['secret'], c['net'], c['comp']
    key = gen.make_key(bit, d, net, comp)
    pt = btc.pub_point(d)
    eq(tuple(key.public_point), pt, 'public point')
    pub = btc.ser_point(pt, comp)
    eq(key.public_key, pub, 'public key')
    eq(key.pub_to_hex(), pub.hex(), 'public key hex')
    eq(key.is_compressed(), comp, 'is_compressed')
    h = btc.hash160(pub)
    eq(key.address, btc.p2pkh_address(h, net), 'address')
    nested = btc.p2sh_address(btc.hash160(b'\x00\x14' + h), net) if comp else None
    eq(key.segwit_address, nested, 'segwit address')
    eq(key.address, btc.p2pkh_address(h, net), 'address, read again')
    eq(key.segwit_address, nested, 'segwit address, read again')
    f = bit.format
    eq(f.public_key_to_address(pub, version=net), btc.p2pkh_address(h, net), 'public_key_to_address')
    if comp:
        eq(f.public_key_to_segwit_address(pub, version=net), nested, 'public_key_to_segwit_address')
    else:
        raises(ValueError, lambda: f.public_key_to_segwit_address(pub, version=net), 'segwit address of uncompressed key')
    for enc in (True, False):
        ser = btc.ser_point(pt, enc)
        eq(tuple(f.public_key_to_coords(ser)), pt, 'public_key_to_coords')
        eq(f.coords_to_public_key(pt[0], pt[1], compressed=enc), ser, 'coords_to_public_key')
        eq(f.point_to_public_key(bit.curve.Point(*pt), compressed=enc), ser, 'point_to_public_key')
    eq(bit.curve.x_to_y(pt[0], pt[1] & 1), pt[1], 'x_to_y')
    eq(bit.curve.x_to_y(pt[0], 1 - (pt[1] & 1)), btc.P - pt[1], 'x_to_y, other parity')
    # the same secret otherwise: nothing of the first key may show
    for net2 in ('test', 'main') if net == 'main' else ('main', 'test'):
        for comp2 in (not comp, comp):
            key2 = gen.make_key(bit, d, net2, comp2)
            pub2 = btc.ser_point(pt, comp2)
            h2 = btc.hash160(pub2)
            eq(key2.public_key, pub2, 'public key, second key')
            eq(key2.address, btc.p2pkh_address(h2, net2), 'address, second key')
            nested2 = btc.p2sh_address(btc.hash160(b'\x00\x14' + h2), net2) if comp2 else None
            eq(key2.segwit_address, nested2, 'segwit address, second key')
            eq(f.public_key_to_address(pub2, version=net2), btc.p2pkh_address(h2, net2), 'public_key_to_address, second key')
    minus = gen.make_key(bit, btc.N - d, net, comp)
    eq(minus.public_key, btc.ser_point((pt[0], btc.P - pt[1]), comp), 'public key of the negated secret')
    eq(tuple(minus.public_point), (pt[0], btc.P - pt[1]), 'public point of the negated secret')
    eq((key.address, key.segwit_address), (btc.p2pkh_address(h, net), nested), 'addresses, read at last')
    ctx.label(net, 'comp' if comp else 'uncomp', 'odd y' if pt[1] & 1 else 'even y')
    if pt[0] >> 248 == 0 or pt[1] >> 248 == 0:
        ctx.label('coordinate with leading zero byte')


def points(c, ctx):
    """Any point of the curve, whether or not its secret is known: those with small or sparse coordinates too."""
    x = c['x'] % btc.P
    while True:
        r = (x * x * x + 7) % btc.P
        y = pow(r, (btc.P + 1) // 4, btc.P)
        if y * y % btc.P == r:
            break
        x = (x + 1) % btc.P
    if c['odd'] != y & 1:
        y = btc.P - y
    f = bit.format
    for enc in (True, False):
        ser = btc.ser_point((x, y), enc)
        eq(tuple(f.public_key_to_coords(ser)), (x, y), 'public_key_to_coords')
        eq(f.coords_to_public_key(x, y, compressed=enc), ser, 'coords_to_public_key')
        eq(f.point_to_public_key(bit.curve.Point(x, y), compressed=enc), ser, 'point_to_public_key')
        eq(f.public_key_to_address(ser, version=c['net']), btc.p2pkh_address(btc.hash160(ser), c['net']), 'public_key_to_address')
    eq(bit.curve.x_to_y(x, c['odd']), y, 'x_to_y')
    ctx.label('x of %d bytes' % (max(1, x.bit_length() + 7) // 8))


def bad_length(c, ctx):
    b = c['b']
    if len(b) in (33, 65):
        b = b + b'\x00'
    raises(ValueError, lambda: bit.format.public_key_to_address(b, version=c['net']), 'public key of invalid length')
    raises(ValueError, lambda: bit.format.public_key_to_segwit_address(b, version=c['net']), 'public key of invalid length')
    raises(ValueError, lambda: bit.format.public_key_to_coords(b), 'public key of invalid length')


def can_sign(c, ctx):
    d, net, comp = c['secret'], c['net'], c['comp']
    key = gen.make_key(bit, d, net, comp)
    own = [gen.key_script(d, net, 'p2pkh' if comp else 'p2pkh-uncompressed')]
    if comp:
        own.append(gen.key_script(d, net, 'np2wkh'))
    h = btc.hash160(btc.pubkey(d, comp))
    other = c['other'] if c['other'] != d else d % (btc.N - 1) + 1
    s = own[c['pos'] % len(own)]
    p = c['pos'] % len(s)
    foreign = [
        gen.key_script(d, net, 'p2pkh-uncompressed' if comp else 'p2pkh'),
        gen.key_script(other, net, 'p2pkh'),
        gen.key_script(other, net, 'np2wkh'),
        b'\x00\x14' + h,
        btc.p2sh_script(h),
        btc.p2pkh_script(btc.hash160(b'\x00\x14' + h)),
        s[:p] + bytes([s[p] ^ (1 + c['bit'] % 255)]) + s[p + 1 :],
        s[:-1],
        s + b'\x51',
        b'',
        c['junk'],
    ]
    if not comp:
        foreign.append(gen.key_script(d, net, 'np2wkh'))
        foreign.append(btc.p2sh_script(btc.hash160(b'\x00\x14' + h)))

    def ask(script, type_):
        return bool(key.can_sign_unspent(Unspent(5000, 1, script.hex(), '11' * 32, 0, type_)))

    for script in own:
        for t in ('p2pkh', 'np2wkh', 'p2sh'):
            eq(ask(script, t), True, 'own script %s' % script.hex())
    for script in foreign:
        if script not in own:
            eq(ask(script, 'p2pkh'), False, 'foreign script %s' % script.hex())
    # same scripts on the other network are the same scripts: the network lives in the address only
    ctx.label('comp' if comp else 'uncomp')


base = {'secret': gen.secrets(), 'net': gen.nets, 'comp': st.booleans()}
SUBS = [
    Sub('derive', st.fixed_dictionaries(base), derive, 5000, 200000),
    Sub(
        'points',
        st.fixed_dictionaries(
            {
                'x': st.one_of(
                    st.integers(0, btc.P - 1),
                    st.integers(0, 255).flatmap(lambda e: st.integers(0, 2 ** e)),
                    st.integers(0, 255).flatmap(lambda e: st.sampled_from([2 ** e, 2 ** e - 1])),
                    st.integers(0, 1000).map(lambda n: btc.P - 1 - n),
                ),
                'odd': st.integers(0, 1),
                'net': gen.nets,
            }
        ),
        points,
        1500,
        50000,
    ),
    Sub(
        'bad_length',
        st.fixed_dictionaries({'b': st.binary(max_size=130), 'net': gen.nets}),
        bad_length,
        400,
        5000,
        shards=1,
        enumerate_=lambda tier: [{'b': b'\x02' * n, 'net': 'main'} for n in range(130)],
    ),
    Sub(
        'can_sign',
        st.fixed_dictionaries(
            dict(
                base,
                other=gen.uniform_secrets(),
                pos=st.integers(0, 1000),
                bit=st.integers(0, 254),
                junk=st.binary(max_size=30),
            )
        ),
        can_sign,
        1500,
        60000,
    ),
]
