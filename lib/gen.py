"""Generators of keys, addresses, scripts, unspents and payments (plain data)."""
from hypothesis import strategies as st

from lib import btc

N = btc.N


def secrets():
    """Private keys as ints: uniformly random, short (leading zero bytes), boundary, and special bit patterns."""
    return st.one_of(
        st.binary(min_size=32, max_size=32).map(lambda b: int.from_bytes(b, 'big') % (N - 1) + 1),
        st.integers(1, N - 1),
        st.integers(1, 2 ** 16),
        st.integers(0, 300).map(lambda d: N - 1 - d),
        st.integers(0, 254).map(lambda e: 2 ** e),
        # trailing 0x01 byte: looks like a WIF compression flag
        st.binary(min_size=31, max_size=31).map(lambda b: (int.from_bytes(b + b'\x01', 'big')) % (N - 1) or 1),
        st.integers(1, 31).flatmap(lambda n: st.binary(min_size=n, max_size=n)).map(
            lambda b: int.from_bytes(b, 'big') or 1
        ),
    )


def uniform_secrets():
    return st.binary(min_size=32, max_size=32).map(lambda b: int.from_bytes(b, 'big') % (N - 1) + 1)


nets = st.sampled_from(['main', 'test'])

hashes20 = st.one_of(
    st.binary(min_size=20, max_size=20),
    st.integers(0, 19).flatmap(lambda z: st.binary(min_size=20 - z, max_size=20 - z).map(lambda b: b'\0' * z + b)),
    st.sampled_from([b'\0' * 20, b'\xff' * 20, b'\0' * 19 + b'\x01']),
)


@st.composite
def witness_programs(draw):
    ver = draw(st.one_of(st.just(0), st.integers(0, 16)))
    if ver == 0:
        n = draw(st.sampled_from([20, 32]))
    else:
        n = draw(st.one_of(st.integers(2, 40), st.sampled_from([2, 20, 32, 40])))
    return ver, draw(st.one_of(st.binary(min_size=n, max_size=n), st.just(b'\0' * n), st.just(b'\xff' * n)))


@st.composite
def destinations(draw, net=None, kinds=('p2pkh', 'p2sh', 'bech32')):
    """A valid destination: {'addr', 'net', 'script', 'kind'} built by the oracle."""
    n = net or draw(nets)
    kind = draw(st.sampled_from(kinds))
    if kind == 'p2pkh':
        h = draw(hashes20)
        return {'addr': btc.p2pkh_address(h, n), 'net': n, 'script': btc.p2pkh_script(h), 'kind': kind}
    if kind == 'p2sh':
        h = draw(hashes20)
        return {'addr': btc.p2sh_address(h, n), 'net': n, 'script': btc.p2sh_script(h), 'kind': kind}
    ver, prog = draw(witness_programs())
    hrp = 'bc' if n == 'main' else draw(st.sampled_from(['tb', 'bcrt']))
    addr = btc.segwit_addr(hrp, ver, prog)
    if draw(st.integers(0, 4)) == 0:
        addr = addr.upper()
    return {'addr': addr, 'net': n, 'script': bytes([ver + 0x50 if ver else 0, len(prog)]) + prog, 'kind': kind}


txids = st.one_of(
    st.binary(min_size=32, max_size=32).map(lambda b: b.hex()),
    st.integers(0, 255).map(lambda i: '%064x' % i),
    st.integers(1, 255).map(lambda i: ('%02x' % i) + '00' * 31),
)
vouts = st.one_of(st.integers(0, 3), st.integers(0, 2 ** 32 - 1), st.sampled_from([0xFF, 0x100, 0xFFFF, 0xFFFFFFFF]))


def derived_txid(seed, i):
    return btc.sha256(('%s/%s' % (seed, i)).encode()).hex()


# ------------------------------------------------------------------------------------------------ keys
def key_script(secret, net, kind):
    """scriptPubKey of a single-key output: 'p2pkh', 'p2pkh-uncompressed', 'np2wkh'."""
    comp = kind != 'p2pkh-uncompressed'
    h = btc.hash160(btc.pubkey(secret, comp))
    if kind == 'np2wkh':
        return btc.p2sh_script(btc.hash160(b'\x00\x14' + h))
    return btc.p2pkh_script(h)


def key_address(secret, net, kind):
    comp = kind != 'p2pkh-uncompressed'
    h = btc.hash160(btc.pubkey(secret, comp))
    if kind == 'np2wkh':
        return btc.p2sh_address(btc.hash160(b'\x00\x14' + h), net)
    return btc.p2pkh_address(h, net)


def make_key(bit, secret, net, compressed=True):
    cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
    return cls(btc.wif(secret.to_bytes(32, 'big'), net, compressed))


def unspent(bit, amount, script, txid, vout, type_, vsize=None, confirmations=1):
    return bit.network.meta.Unspent(amount, confirmations, script.hex(), txid, vout, type_, vsize)


def ms_vsize(m, redeem_len, segwit):
    """Size a complete multisig input takes, as published for such inputs."""
    body = 1 + m * 74 + len(btc.varint(redeem_len)) + redeem_len
    if segwit:
        return 36 + 40 + (1 + body) / 4
    return 36 + len(btc.varint(body)) + body + 4


amount_text_units = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}


def fmt_units(sat, unit, style):
    """Exact decimal text of `sat` satoshi in `unit`, as str / Decimal-able values users pass."""
    d = amount_text_units[unit]
    if d == 0:
        return sat if style % 2 == 0 else str(sat)
    s = str(sat).rjust(d + 1, '0')
    text = s[:-d] + '.' + s[-d:]
    if style % 3 == 1:
        text = text.rstrip('0')
        if text.endswith('.'):
            text += '0'
    return text
