"""Independent Bitcoin oracle: codecs, secp256k1, transactions, signature hashes and a script interpreter.

Written from the specifications (SEC1/SEC2, RFC 6979, Base58Check, BIP 13/16/66/125/141/143/146/147/173); shares no
code with the library under test.
"""
import functools
import hashlib
import hmac


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def hash160(b):
    return hashlib.new('ripemd160', sha256(b)).digest()


# ------------------------------------------------------------------------------------------------ Base58
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58enc(b):
    """Digit-array algorithm (no big integers), so it does not mirror the implementation's arithmetic."""
    digits = []
    for byte in b:
        carry = byte
        for i in range(len(digits)):
            carry += digits[i] << 8
            digits[i] = carry % 58
            carry //= 58
        while carry:
            digits.append(carry % 58)
            carry //= 58
    pad = len(b) - len(b.lstrip(b'\0'))
    return '1' * pad + ''.join(B58[d] for d in reversed(digits))


def b58dec(s):
    out = []
    for ch in s:
        carry = B58.index(ch)
        for i in range(len(out)):
            carry += out[i] * 58
            out[i] = carry & 255
            carry >>= 8
        while carry:
            out.append(carry & 255)
            carry >>= 8
    pad = len(s) - len(s.lstrip('1'))
    return b'\0' * pad + bytes(reversed(out))


def b58check(payload):
    return b58enc(payload + dsha(payload)[:4])


def b58check_dec(s):
    """payload or None"""
    if any(c not in B58 for c in s):
        return None
    raw = b58dec(s)
    if len(raw) < 4 or dsha(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


# ------------------------------------------------------------------------------------------------ Bech32
B32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def _polymod(vals):
    c = 1
    for v in vals:
        c0 = c >> 25
        c = ((c & 0x1FFFFFF) << 5) ^ v
        for bit, g in ((1, 0x3B6A57B2), (2, 0x26508E6D), (4, 0x1EA119FA), (8, 0x3D4233DD), (16, 0x2A1462B3)):
            if c0 & bit:
                c ^= g
    return c


def _expand(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def bech32_raw(hrp, data):
    """Bech32 string of 5-bit values."""
    pm = _polymod(_expand(hrp) + data + [0] * 6) ^ 1
    return hrp + '1' + ''.join(B32[v] for v in data + [(pm >> (25 - 5 * i)) & 31 for i in range(6)])


def to5(b):
    bits = ''.join('{:08b}'.format(x) for x in b)
    bits += '0' * (-len(bits) % 5)
    return [int(bits[i : i + 5], 2) for i in range(0, len(bits), 5)]


def segwit_addr(hrp, ver, prog):
    return bech32_raw(hrp, [ver] + to5(prog))


def bech32_parse(s):
    """(hrp, values) or None, per BIP 173."""
    if not all(33 <= ord(c) <= 126 for c in s):
        return None
    if s.lower() != s and s.upper() != s:
        return None
    s = s.lower()
    if len(s) > 90 or '1' not in s:
        return None
    hrp, _, rest = s.rpartition('1')
    if len(hrp) < 1 or len(rest) < 6 or any(c not in B32 for c in rest):
        return None
    vals = [B32.index(c) for c in rest]
    if _polymod(_expand(hrp) + vals) != 1:
        return None
    return hrp, vals[:-6]


def segwit_parse(s):
    """(hrp, version, program) or None, per BIP 173 for the Bitcoin prefixes."""
    got = bech32_parse(s)
    if got is None:
        return None
    hrp, vals = got
    if hrp not in ('bc', 'tb', 'bcrt') or not vals or vals[0] > 16:
        return None
    bits = ''.join('{:05b}'.format(v) for v in vals[1:])
    n = len(bits) // 8
    tail = bits[n * 8 :]
    if len(tail) >= 5 or '1' in tail:
        return None
    prog = bytes(int(bits[i * 8 : i * 8 + 8], 2) for i in range(n))
    if not 2 <= len(prog) <= 40:
        return None
    if vals[0] == 0 and len(prog) not in (20, 32):
        return None
    return hrp, vals[0], prog


# ------------------------------------------------------------------------------------------------ addresses
MAIN, TEST = 'main', 'test'
P2PKH_VER = {MAIN: b'\x00', TEST: b'\x6f'}
P2SH_VER = {MAIN: b'\x05', TEST: b'\xc4'}
WIF_VER = {MAIN: b'\x80', TEST: b'\xef'}


def p2pkh_address(h, net):
    return b58check(P2PKH_VER[net] + h)


def p2sh_address(h, net):
    return b58check(P2SH_VER[net] + h)


def address_info(s):
    """(network, scriptPubKey) of a destination, or None when it is not a valid Bitcoin address."""
    sw = segwit_parse(s)
    if sw is not None:
        hrp, ver, prog = sw
        return (MAIN if hrp == 'bc' else TEST), bytes([0x50 + ver if ver else 0, len(prog)]) + prog
    if bech32_parse(s) is not None:
        return None
    p = b58check_dec(s)
    if p is None or len(p) != 21:
        return None
    for net in (MAIN, TEST):
        if p[:1] == P2PKH_VER[net]:
            return net, p2pkh_script(p[1:])
        if p[:1] == P2SH_VER[net]:
            return net, p2sh_script(p[1:])
    return None


def p2pkh_script(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh_script(h):
    return b'\xa9\x14' + h + b'\x87'


def wif(secret, net, compressed):
    return b58check(WIF_VER[net] + secret + (b'\x01' if compressed else b''))


# ------------------------------------------------------------------------------------------------ secp256k1
P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (
    0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
    0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8,
)


def _jdbl(p):
    x, y, z = p
    if not y:
        return (0, 1, 0)
    a = x * x % P
    b = y * y % P
    c = b * b % P
    d = 2 * ((x + b) * (x + b) - a - c) % P
    e = 3 * a % P
    f = e * e % P
    x3 = (f - 2 * d) % P
    return (x3, (e * (d - x3) - 8 * c) % P, 2 * y * z % P)


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z11, z22 = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z22 % P, x2 * z11 % P
    s1, s2 = y1 * z2 * z22 % P, y2 * z1 * z11 % P
    if u1 == u2:
        if s1 != s2:
            return (0, 1, 0)
        return _jdbl(p)
    h = (u2 - u1) % P
    r = (s2 - s1) % P
    h2 = h * h % P
    h3 = h * h2 % P
    v = u1 * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    return (x3, (r * (v - x3) - s1 * h3) % P, h * z1 * z2 % P)


def _affine(p):
    if not p[2]:
        return None
    zi = pow(p[2], P - 2, P)
    z2 = zi * zi % P
    return (p[0] * z2 % P, p[1] * z2 * zi % P)


_table = None


def _gtable():
    global _table
    if _table is None:
        _table = []
        base = (G[0], G[1], 1)
        for _ in range(64):
            row = [(0, 1, 0)]
            for _ in range(15):
                row.append(_jadd(row[-1], base))
            _table.append([(0, 1, 0)] + [(a[0], a[1], 1) for a in map(_affine, row[1:])])
            for _ in range(4):
                base = _jdbl(base)
    return _table


def _gmul(k):
    t = _gtable()
    acc = (0, 1, 0)
    for i in range(64):
        d = (k >> (4 * i)) & 15
        if d:
            acc = _jadd(acc, t[i][d])
    return acc


def _mul(k, pt):
    acc = (0, 1, 0)
    q = (pt[0], pt[1], 1)
    for i in range(k.bit_length() - 1, -1, -1):
        acc = _jdbl(acc)
        if (k >> i) & 1:
            acc = _jadd(acc, q)
    return acc


@functools.lru_cache(maxsize=4096)
def pub_point(secret_int):
    return _affine(_gmul(secret_int % N))


def ser_point(pt, compressed=True):
    x, y = pt
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


@functools.lru_cache(maxsize=4096)
def parse_point(b):
    """Point or None (33 or 65 bytes, no hybrid encodings)."""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P:
            return None
        y2 = (pow(x, 3, P) + 7) % P
        y = pow(y2, (P + 1) // 4, P)
        if y * y % P != y2:
            return None
        if y & 1 != b[0] & 1:
            y = P - y
        return (x, y)
    if len(b) == 65 and b[0] == 4:
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or (y * y - x * x * x - 7) % P:
            return None
        return (x, y)
    return None


def pubkey(secret_int, compressed=True):
    return ser_point(pub_point(secret_int), compressed)


def rfc6979_k(secret, h):
    """Nonces for HMAC-SHA256, in order."""
    x = secret.to_bytes(32, 'big')
    h1 = (int.from_bytes(h, 'big') % N).to_bytes(32, 'big')
    v, k = b'\x01' * 32, b'\x00' * 32
    k = hmac.new(k, v + b'\x00' + x + h1, 'sha256').digest()
    v = hmac.new(k, v, 'sha256').digest()
    k = hmac.new(k, v + b'\x01' + x + h1, 'sha256').digest()
    v = hmac.new(k, v, 'sha256').digest()
    while True:
        v = hmac.new(k, v, 'sha256').digest()
        c = int.from_bytes(v, 'big')
        if 1 <= c < N:
            yield c
        k = hmac.new(k, v + b'\x00', 'sha256').digest()
        v = hmac.new(k, v, 'sha256').digest()


def ecdsa_sign(secret, h):
    """Deterministic low-S (r, s) for a 32-byte hash."""
    z = int.from_bytes(h, 'big')
    for k in rfc6979_k(secret, h):
        r = pub_point(k)[0] % N
        if not r:
            continue
        s = pow(k, -1, N) * (z + r * secret) % N
        if not s:
            continue
        return r, min(s, N - s)


def der_int(i):
    b = i.to_bytes((i.bit_length() + 8) // 8, 'big')
    return b'\x02' + bytes([len(b)]) + b


def der_sig(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + bytes([len(body)]) + body


def parse_der(sig):
    """(r, s) of a strictly DER encoded signature (BIP 66, without hash type), or None."""
    if not 8 <= len(sig) <= 72 or sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[2] != 2:
        return None
    lr = sig[3]
    if lr == 0 or 5 + lr >= len(sig) or sig[4 + lr] != 2:
        return None
    ls = sig[5 + lr]
    if ls == 0 or 6 + lr + ls != len(sig):
        return None
    rb, sb = sig[4 : 4 + lr], sig[6 + lr :]
    for b in (rb, sb):
        if b[0] & 0x80 or (len(b) > 1 and b[0] == 0 and not b[1] & 0x80):
            return None
    return int.from_bytes(rb, 'big'), int.from_bytes(sb, 'big')


try:
    from cryptography.exceptions import InvalidSignature
    from cryptography.hazmat.primitives import hashes as _h
    from cryptography.hazmat.primitives.asymmetric import ec as _ec
    from cryptography.hazmat.primitives.asymmetric.utils import Prehashed as _Pre

    _curve = _ec.SECP256K1()
    _algo = _ec.ECDSA(_Pre(_h.SHA256()))

    def _verify_openssl(pt, r, s, h):
        try:
            _ec.EllipticCurvePublicNumbers(pt[0], pt[1], _curve).public_key().verify(der_sig(r, s), h, _algo)
            return True
        except InvalidSignature:
            return False

except Exception:  # pragma: no cover - the pure Python path decides then
    _verify_openssl = None


def verify_pure(pt, r, s, h):
    if not (0 < r < N and 0 < s < N):
        return False
    z = int.from_bytes(h, 'big')
    w = pow(s, -1, N)
    q = _affine(_jadd(_gmul(z * w % N), _mul(r * w % N, pt)))
    return q is not None and q[0] % N == r


def ecdsa_verify(pub, r, s, h, pure=False):
    pt = parse_point(pub)
    if pt is None or not (0 < r < N and 0 < s < N):
        return False
    if pure or _verify_openssl is None:
        return verify_pure(pt, r, s, h)
    return _verify_openssl(pt, r, s, h)


# ------------------------------------------------------------------------------------------------ transactions
class ParseError(Exception):
    pass


def varint(n):
    if n < 0xFD:
        return bytes([n])
    if n <= 0xFFFF:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xFFFFFFFF:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def push(data):
    n = len(data)
    if n <= 75:
        return bytes([n]) + data
    if n <= 255:
        return b'\x4c' + bytes([n]) + data
    return b'\x4d' + n.to_bytes(2, 'little') + data


class Tx:
    """vin: dicts(txid (hex, display order), vout, script, sequence, witness list); vout: dicts(amount, script)."""

    def __init__(self, version=1, vin=(), vout=(), locktime=0, segwit=None):
        self.version, self.vin, self.vout, self.locktime = version, list(vin), list(vout), locktime
        self._segwit = segwit

    @property
    def segwit(self):
        if self._segwit is not None:
            return self._segwit
        return any(i['witness'] for i in self.vin)

    def _body(self, marker):
        out = [self.version.to_bytes(4, 'little')]
        if marker:
            out.append(b'\x00\x01')
        out.append(varint(len(self.vin)))
        for i in self.vin:
            out.append(bytes.fromhex(i['txid'])[::-1] + i['vout'].to_bytes(4, 'little'))
            out.append(varint(len(i['script'])) + i['script'] + i['sequence'].to_bytes(4, 'little'))
        out.append(varint(len(self.vout)))
        for o in self.vout:
            out.append(o['amount'].to_bytes(8, 'little') + varint(len(o['script'])) + o['script'])
        if marker:
            for i in self.vin:
                out.append(varint(len(i['witness'])))
                for w in i['witness']:
                    out.append(varint(len(w)) + w)
        out.append(self.locktime.to_bytes(4, 'little'))
        return b''.join(out)

    def serialize(self):
        return self._body(self.segwit)

    def stripped(self):
        return self._body(False)

    def txid(self):
        return dsha(self.stripped())[::-1].hex()

    def vsize(self):
        base, total = len(self.stripped()), len(self.serialize())
        return -(-(3 * base + total) // 4)

    def weight(self):
        return 3 * len(self.stripped()) + len(self.serialize())


def parse_tx(raw, partial=False):
    """Strict parser: canonical varints, nothing missing, nothing left over."""
    if isinstance(raw, str):
        if raw != raw.lower() or len(raw) % 2:
            raise ParseError('not lower-case hex')
        raw = bytes.fromhex(raw)
    pos = 0

    def take(n):
        nonlocal pos
        if pos + n > len(raw):
            raise ParseError('truncated at %d' % pos)
        pos += n
        return raw[pos - n : pos]

    def num(n):
        return int.from_bytes(take(n), 'little')

    def vi():
        a = num(1)
        if a < 0xFD:
            return a
        n = num({0xFD: 2, 0xFE: 4, 0xFF: 8}[a])
        if len(varint(n)) != {0xFD: 3, 0xFE: 5, 0xFF: 9}[a]:
            raise ParseError('non-canonical varint')
        return n

    version = num(4)
    segwit = raw[4:6] == b'\x00\x01'
    if segwit:
        take(2)
    vin = []
    for _ in range(vi()):
        txid = take(32)[::-1].hex()
        vout = num(4)
        script = take(vi())
        vin.append({'txid': txid, 'vout': vout, 'script': script, 'sequence': num(4), 'witness': []})
    outs = []
    for _ in range(vi()):
        amount = num(8)
        outs.append({'amount': amount, 'script': take(vi())})
    if segwit:
        for i in vin:
            i['witness'] = [take(vi()) for _ in range(vi())]
        if not partial and not any(i['witness'] for i in vin):
            raise ParseError('superfluous witness record')
    locktime = num(4)
    if pos != len(raw):
        raise ParseError('%d trailing bytes' % (len(raw) - pos))
    return Tx(version, vin, outs, locktime, segwit)


def legacy_sighash(tx, idx, script_code):
    out = [tx.version.to_bytes(4, 'little'), varint(len(tx.vin))]
    for j, i in enumerate(tx.vin):
        s = script_code if j == idx else b''
        out.append(bytes.fromhex(i['txid'])[::-1] + i['vout'].to_bytes(4, 'little'))
        out.append(varint(len(s)) + s + i['sequence'].to_bytes(4, 'little'))
    out.append(varint(len(tx.vout)))
    for o in tx.vout:
        out.append(o['amount'].to_bytes(8, 'little') + varint(len(o['script'])) + o['script'])
    out.append(tx.locktime.to_bytes(4, 'little') + (1).to_bytes(4, 'little'))
    return dsha(b''.join(out))


def segwit_sighash(tx, idx, script_code, amount):
    cache = getattr(tx, '_mid', None)
    if cache is None:
        hp = dsha(b''.join(bytes.fromhex(i['txid'])[::-1] + i['vout'].to_bytes(4, 'little') for i in tx.vin))
        hs = dsha(b''.join(i['sequence'].to_bytes(4, 'little') for i in tx.vin))
        ho = dsha(
            b''.join(o['amount'].to_bytes(8, 'little') + varint(len(o['script'])) + o['script'] for o in tx.vout)
        )
        cache = tx._mid = (hp, hs, ho)
    hp, hs, ho = cache
    i = tx.vin[idx]
    return dsha(
        tx.version.to_bytes(4, 'little')
        + hp
        + hs
        + bytes.fromhex(i['txid'])[::-1]
        + i['vout'].to_bytes(4, 'little')
        + varint(len(script_code))
        + script_code
        + amount.to_bytes(8, 'little')
        + i['sequence'].to_bytes(4, 'little')
        + ho
        + tx.locktime.to_bytes(4, 'little')
        + (1).to_bytes(4, 'little')
    )


# ------------------------------------------------------------------------------------------------ script
class ScriptError(Exception):
    pass


def script_ops(script):
    """[(opcode, data or None)], requiring complete and minimal pushes."""
    out, p = [], 0
    while p < len(script):
        op = script[p]
        p += 1
        if op <= 78:
            if op == 0:
                out.append((0, b''))
                continue
            if op <= 75:
                n = op
            elif op == 76:
                n = int.from_bytes(script[p : p + 1], 'little')
                p += 1
            elif op == 77:
                n = int.from_bytes(script[p : p + 2], 'little')
                p += 2
            else:
                n = int.from_bytes(script[p : p + 4], 'little')
                p += 4
            data = script[p : p + n]
            if len(data) != n or p + n > len(script):
                raise ScriptError('push past end of script')
            p += n
            if op != push(data)[0] if n <= 255 else op < 77:
                raise ScriptError('non-minimal push')
            if n == 1 and (1 <= data[0] <= 16 or data[0] == 0x81):
                raise ScriptError('non-minimal push of small number')
            out.append((op, data))
        else:
            out.append((op, None))
    return out


def _check_sig(sig, pub, sighash, segwit):
    pt = parse_point(pub)
    if pt is None:
        raise ScriptError('invalid public key')
    if segwit and len(pub) != 33:
        raise ScriptError('uncompressed key in witness')
    if not sig:
        return False
    if sig[-1] != 1:
        raise ScriptError('hash type is not SIGHASH_ALL')
    rs = parse_der(sig[:-1])
    if rs is None:
        raise ScriptError('signature is not strict DER')
    if rs[1] > N // 2:
        raise ScriptError('high S')
    return ecdsa_verify(pub, rs[0], rs[1], sighash)


def run_script(script, stack, sighash_for, segwit=False):
    """sighash_for(script_code) -> 32 bytes"""
    if not segwit and len(script) > 10000:
        raise ScriptError('script too long')
    for op, data in script_ops(script):
        if data is not None:
            if len(data) > 520:
                raise ScriptError('push too large')
            stack.append(data)
        elif 81 <= op <= 96:
            stack.append(bytes([op - 80]))
        elif op == 0x76:
            stack.append(stack[-1])
        elif op == 0xA9:
            stack.append(hash160(stack.pop()))
        elif op in (0x87, 0x88):
            a, b = stack.pop(), stack.pop()
            if op == 0x88:
                if a != b:
                    raise ScriptError('EQUALVERIFY')
            else:
                stack.append(b'\x01' if a == b else b'')
        elif op == 0xAC:
            pub, sig = stack.pop(), stack.pop()
            ok = _check_sig(sig, pub, sighash_for(script), segwit)
            if not ok and sig:
                raise ScriptError('NULLFAIL: signature does not verify')
            stack.append(b'\x01' if ok else b'')
        elif op == 0xAE:
            n = int.from_bytes(stack.pop(), 'little')
            if not 0 <= n <= 20 or len(stack) < n + 1:
                raise ScriptError('CHECKMULTISIG n')
            pubs = [stack.pop() for _ in range(n)][::-1]
            m = int.from_bytes(stack.pop(), 'little')
            if not 0 <= m <= n or len(stack) < m + 1:
                raise ScriptError('CHECKMULTISIG m: too few signatures')
            sigs = [stack.pop() for _ in range(m)][::-1]
            if stack.pop() != b'':
                raise ScriptError('NULLDUMMY')
            h = sighash_for(script)
            k = 0
            for sig in sigs:
                while k < n and not _check_sig(sig, pubs[k], h, segwit):
                    k += 1
                k += 1
            ok = k <= n
            if not ok and any(sigs):
                raise ScriptError('NULLFAIL: signatures do not verify in order')
            stack.append(b'\x01' if ok else b'')
        else:
            raise ScriptError('opcode %#x not expected' % op)
    return stack


def _truthy(stack):
    return len(stack) == 1 and any(stack[-1])


def verify_input(tx, idx, script_pubkey, amount):
    """Consensus plus standardness rules; raises ScriptError when the spend is not valid."""
    try:
        _verify_input(tx, idx, script_pubkey, amount)
    except IndexError:
        raise ScriptError('stack underflow')


def _verify_input(tx, idx, spk, amount):
    i = tx.vin[idx]
    if any(d is None and not 81 <= op <= 96 for op, d in script_ops(i['script'])):
        raise ScriptError('scriptSig is not push only')

    def legacy(code):
        return legacy_sighash(tx, idx, code)

    stack = run_script(i['script'], [], legacy)
    p2sh = list(stack)
    stack = run_script(spk, stack, legacy)
    if not stack or not any(stack[-1]):
        raise ScriptError('scriptPubKey evaluates to false')
    witness_used = False
    program = None
    if len(spk) in (22, 34) and spk[0] == 0 and spk[1] == len(spk) - 2:
        program = spk[2:]
        if i['script']:
            raise ScriptError('scriptSig with native witness program')
    if spk[:2] == b'\xa9\x14' and spk[-1:] == b'\x87' and len(spk) == 23:
        redeem = p2sh.pop()
        if len(redeem) in (22, 34) and redeem[0] == 0 and redeem[1] == len(redeem) - 2:
            if i['script'] != push(redeem):
                raise ScriptError('malleated P2SH witness scriptSig')
            program = redeem[2:]
        else:
            stack = run_script(redeem, p2sh, legacy)
            if not _truthy(stack):
                raise ScriptError('redeemScript: false or unclean stack')
    elif program is None and not _truthy(stack):
        raise ScriptError('unclean stack')
    if program is not None:
        witness_used = True
        wit = list(i['witness'])
        if not wit:
            raise ScriptError('missing witness')
        if len(program) == 20:
            if len(wit) != 2:
                raise ScriptError('witness of P2WPKH needs 2 items')
            code = p2pkh_script(program)
        else:
            code = wit.pop()
            if sha256(code) != program:
                raise ScriptError('witness script does not match')
            if len(code) > 3600 or any(len(w) > 80 for w in wit) or len(wit) > 100:
                raise ScriptError('non-standard witness')
        stack = run_script(code, wit, lambda c: segwit_sighash(tx, idx, c, amount), segwit=True)
        if not _truthy(stack):
            raise ScriptError('witness script: false or unclean stack')
    if i['witness'] and not witness_used:
        raise ScriptError('unexpected witness')


def input_ok(tx, idx, spk, amount):
    try:
        verify_input(tx, idx, spk, amount)
        return True
    except ScriptError:
        return False


def multisig_script(pubs, m):
    return bytes([80 + m]) + b''.join(push(p) for p in pubs) + bytes([80 + len(pubs)]) + b'\xae'
