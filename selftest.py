"""setup_cmd: shows that the tools are there, that `bit` imports from /repo and that the oracle agrees with published vectors."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core

core.setup_paths()
from lib import btc

ok = True


def expect(name, got, want):
    global ok
    if got != want:
        ok = False
        print('selftest: %s: got %r, expected %r' % (name, got, want))


# secp256k1, SEC1, Base58Check, WIF (Bitcoin wiki)
s = 0x18E14A7B6A307F426A94F8114701E7C8E774E7F9A47E2C2035DB29A206321725
expect('address', btc.p2pkh_address(btc.hash160(btc.pubkey(s)), 'main'), '1PMycacnJaSqwwJqjawXBErnLsZ7RkXUAs')
s = 0x0C28FCA386C7A227600B2FE50B7CAE11EC86D3BF1FBE471BE89827E19D72AA1D
expect('wif', btc.wif(s.to_bytes(32, 'big'), 'main', False), '5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ')
expect('wif', btc.wif(s.to_bytes(32, 'big'), 'main', True), 'KwdMAjGmerYanjeui5SHS7JkmpZvVipYvB2LJGU1ZxJwYvP98617')
# RFC 6979 on secp256k1 (widely published vector)
r, s_ = btc.ecdsa_sign(1, btc.sha256(b'Satoshi Nakamoto'))[:2]
expect('rfc6979 r', '%064x' % r, '934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8')
expect('rfc6979 s', '%064x' % s_, '2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5')
# BIP 173
info = btc.segwit_parse('BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4')
expect('bip173', info is not None and bytes(info[-1]).hex(), '751e76e8199196d454941c45d1b3a323f1433bd6')
expect('bip173', btc.segwit_addr('tb', 0, bytes.fromhex('1863143c14c5166804bd19203356da136c985678cd4d27a1b8c6329604903262')),
       'tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3q0sl5k7')
# BIP 143, P2SH-P2WPKH: the signed transaction verifies, and no longer does with another amount
raw = ('01000000000101db6b1b20aa0fd7b23880be2ecbd4a98130974cf4748fb66092ac4d3ceb1a5477010000001716001479091972186c449eb1ded22b78e40d00'
       '9bdf0089feffffff02b8b4eb0b000000001976a914a457b684d7f0d539a46a45bbc043f35b59d0d96388ac0008af2f000000001976a914fd270b1ee6abcaea97'
       'fea7ad0402e8bd8ad6d77c88ac02473044022047ac8e878352d3ebbde1c94ce3a10d057c24175747116f8288e5d794d12d482f0220217f36a485cae903c713331d'
       '877c1f64677e3622ad4010726870540656fe9dcb012103ad1d8e89212f0b92c74d23bb710c00662ad1470198ac48c43f7d6f93a2a2687392040000')
tx = btc.parse_tx(bytes.fromhex(raw))
spk = bytes.fromhex('a9144733f37cf4db86fbc2efed2500b4f4e49f31202387')
expect('bip143', btc.input_ok(tx, 0, spk, 10 ** 9), True)
expect('bip143 other amount', btc.input_ok(tx, 0, spk, 10 ** 9 - 1), False)

import bit
import hypothesis

expect('bit from the working tree', os.path.realpath(bit.__file__).startswith(os.path.realpath(core.REPO) + os.sep), True)
print('selftest %s (bit %s, hypothesis %s)' % ('ok' if ok else 'FAILED', bit.__version__, hypothesis.__version__))
sys.exit(0 if ok else 1)
