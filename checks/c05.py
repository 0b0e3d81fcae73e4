from hypothesis import strategies as st

import bit
from bit.format import address_to_public_key_hash, get_version
from bit.transaction import address_to_scriptpubkey
from lib import btc, gen
from lib.core import Sub, check, eq, raises
from lib.scen import View, maker, offline
from bit.network.meta import Unspent

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = (
    'Cases: valid destinations of both networks and all formats built by the oracle; strings derived from them by '
    'edits, foreign version bytes, wrong payload lengths, WIFs, extended keys, foreign Bech32 prefixes, invalid witness '
    'programs; random text. A derived string that is by chance a valid address is checked as such (trivial for the '
    'refusal rule). Each is used by a key or a contract, directly or for offline signing, alone or among other payments. Oracle: independent Base58Check/BIP 173 decoders.'
)

SECRET = 0x1234567890ABCDEF


def spend(net, addr, leftover):
    """Pays 5000 to `addr` (if any): by a key or a contract, directly or offline, alone or after another payment."""
    how = int.from_bytes(btc.sha256(('%s|%s|%s' % (net, addr, leftover)).encode('utf-8', 'surrogatepass'))[:4], 'little')
    key = gen.make_key(bit, SECRET, net)
    script, type_ = gen.key_script(SECRET, net, 'p2pkh'), 'p2pkh'
    if how & 1:
        redeem = btc.multisig_script([key.public_key], 1)
        key = (bit.MultiSig if net == 'main' else bit.MultiSigTestnet)(key, [key.public_key], 1)
        script, type_ = btc.p2sh_script(btc.hash160(redeem)), 'p2sh'
    u = Unspent(10 ** 8, 1, script.hex(), '11' * 32, 0, type_)
    outputs = [] if addr is None else [(addr, 5000, 'satoshi')]
    if how & 2:
        outputs.insert(0, (btc.p2pkh_address(bytes(range(20)), net), 700, 'satoshi'))
    if how & 4:
        outputs.append((btc.p2sh_address(bytes(range(20)), net), 800, 'satoshi'))
    opts = dict(fee=1000, absolute_fee=True, leftover=leftover, unspents=[u], combine=bool(how & 8))
    raw = offline(lambda: maker(key, 'prepare' if how & 16 else '')(outputs, **opts))
    v = View(raw, {('11' * 32, 0): (script, 10 ** 8, 'legacy', 0xFFFFFFFF)})
    outs = [(o['amount'], o['script']) for o in v.tx.vout]
    if how & 2:
        eq(outs.pop(0), (700, btc.p2pkh_script(bytes(range(20)))), 'first payment')
    if how & 4:
        eq(outs.pop(0 if addr is None else 1), (800, btc.p2sh_script(bytes(range(20)))), 'last payment')
    return outs, 10 ** 8 - 1000 - (700 if how & 2 else 0) - (800 if how & 4 else 0)


def accept(addr, net, script, ctx):
    eq(get_version(addr), net, 'network of %s' % addr)
    eq(address_to_scriptpubkey(addr), script, 'locking script of %s' % addr)
    if btc.segwit_parse(addr) is None:
        h = script[3:23] if script[:1] == b'\x76' else script[2:22]
        eq(address_to_public_key_hash(addr), h, 'hash of %s' % addr)
    outs, rest = spend(net, addr, addr)
    eq(outs, [(5000, script), (rest - 5000, script)], 'payment and change to %s' % addr)


def refuse(s, ctx):
    for name, fn in (
        ('address_to_scriptpubkey', lambda: address_to_scriptpubkey(s)),
        ('paying', lambda: spend('main', s, None)),
        ('paying (testnet)', lambda: spend('test', s, None)),
    ):
        raises(ValueError, fn, '%s %r' % (name, s))
    if s:
        for net in ('main', 'test'):
            raises(ValueError, lambda: spend(net, None, s), 'change to %r (%s)' % (s, net))


def valid(c, ctx):
    accept(c['addr'], c['net'], c['script'], ctx)
    ctx.label(c['kind'], c['net'])
    if c['kind'] == 'bech32':
        ctx.label('witness v%d' % (c['script'][0] and c['script'][0] - 80))


def any_text(c, ctx):
    s = c['s']
    if c.get('from'):
        near = btc.address_info(c['from'])
        accept(c['from'], near[0], near[1], ctx)  # what was seen before must not matter
    info = btc.address_info(s)
    if info is not None:
        accept(s, info[0], info[1], ctx)
        ctx.trivial(c['how'] != 'valid')
        ctx.label('still valid')
    else:
        refuse(s, ctx)
        ctx.label(c['how'])


@st.composite
def derived(draw):
    how = draw(
        st.sampled_from(
            ['edit', 'edit', 'version', 'length', 'wif', 'xpub', 'hrp', 'program', 'padding', 'text', 'space', 'case', 'concat', 'script', 'unchecked']
        )
    )
    net = draw(gen.nets)
    orig = None
    if how in ('edit', 'space', 'case', 'concat'):
        s = orig = draw(gen.destinations(net=net))['addr']
        if how == 'edit':
            alpha = btc.B32 if '1' in s[2:6] and s.lower() in (s, s.upper().lower()) and s[:2].lower() in ('bc', 'tb') else btc.B58
            cs = list(s)
            for _ in range(draw(st.integers(1, 3))):
                op = draw(st.sampled_from(['sub', 'del', 'ins', 'swap', 'dup']))
                p = draw(st.integers(0, max(0, len(cs) - 1)))
                ch = draw(st.sampled_from(alpha))
                if op == 'sub' and cs:
                    cs[p] = ch.upper() if cs[p].isupper() and alpha is btc.B32 else ch
                elif op == 'del' and cs:
                    del cs[p]
                elif op == 'ins':
                    cs.insert(p, ch)
                elif op == 'dup' and cs:
                    cs.insert(p, cs[p])
                elif len(cs) > 1:
                    q = p % (len(cs) - 1)
                    cs[q], cs[q + 1] = cs[q + 1], cs[q]
            s = ''.join(cs)
        elif how == 'space':
            s = draw(st.sampled_from([' %s', '%s ', '%s\n', '\t%s', 'bitcoin:%s', '%s?amount=1'])) % s
        elif how == 'case':
            s = s.swapcase() if draw(st.booleans()) else s.capitalize()
        else:
            s = s + draw(gen.destinations(net=net))['addr']
    elif how == 'version':
        v = draw(st.one_of(st.integers(0, 255), st.sampled_from([0x30, 0x1E, 0x32, 0x05 ^ 1, 1, 4, 6, 0x6E, 0x70, 0xC3, 0xC5])))
        s = btc.b58check(bytes([v]) + draw(gen.hashes20))
    elif how == 'length':
        v = draw(st.sampled_from([0, 5, 0x6F, 0xC4]))
        n = draw(st.one_of(st.integers(0, 40), st.sampled_from([19, 21, 22, 32, 33, 0])))
        s = btc.b58check(bytes([v]) + draw(st.binary(min_size=n, max_size=n)))
    elif how == 'wif':
        s = btc.wif(draw(gen.secrets()).to_bytes(32, 'big'), net, draw(st.booleans()))
    elif how == 'xpub':
        s = btc.b58check(draw(st.sampled_from([b'\x04\x88\xb2\x1e', b'\x04\x35\x87\xcf'])) + draw(st.binary(min_size=74, max_size=74)))
    elif how == 'hrp':
        ver, prog = draw(gen.witness_programs())
        s = btc.segwit_addr(draw(st.sampled_from(['ltc', 'tltc', 'bcr', 'b', 'tbc', 'bcrt1', 'lnbc', 'btc', 'bt', 'bc1', 'vtc', 'rt'])), ver, prog)
    elif how == 'program':
        ver = draw(st.one_of(st.just(0), st.integers(0, 31)))
        n = draw(st.integers(0, 48))
        s = btc.segwit_addr(draw(st.sampled_from(['bc', 'tb', 'bcrt'])), ver, draw(st.binary(min_size=n, max_size=n)))
        if draw(st.booleans()):
            s = s.upper()
    elif how == 'padding':
        ver, prog = draw(gen.witness_programs())
        vals = btc.to5(prog)
        if draw(st.booleans()):
            vals = vals + [draw(st.integers(0, 31))]
        else:
            vals[-1] ^= draw(st.integers(1, 15))
        s = btc.bech32_raw(draw(st.sampled_from(['bc', 'tb', 'bcrt'])), [ver] + vals)
    elif how == 'script':
        s = draw(gen.destinations(net=net))['script'].hex()
    elif how == 'unchecked':
        v = draw(st.sampled_from([0, 5, 0x6F, 0xC4]))
        s = btc.b58enc(bytes([v]) + draw(gen.hashes20) + draw(st.binary(min_size=4, max_size=4)))
    else:
        s = draw(
            st.one_of(
                st.text(max_size=40),
                st.text(alphabet=btc.B58, max_size=40),
                st.text(alphabet=btc.B32, max_size=60).map(lambda t: 'bc1' + t),
                st.text(alphabet=btc.B32, max_size=60).map(lambda t: 'tb1' + t),
                st.integers(0, 40).map(lambda n: '1' * n),
            )
        )
    return {'s': s, 'how': how, 'from': orig if draw(st.booleans()) else None}


SUBS = [
    Sub('valid', gen.destinations(), valid, 2500, 80000),
    Sub('derived', derived(), any_text, 5000, 250000),
    Sub(
        'versions',
        st.just(None),
        any_text,
        0,
        0,
        enumerate_=lambda tier: [
            {'s': btc.b58check(bytes([v]) + h), 'how': 'valid'} for v in range(256) for h in (b'\0' * 20, bytes(range(20)))
        ]
        + [{'s': btc.segwit_addr(h, v, bytes(range(n))), 'how': 'valid'} for h in ('bc', 'tb', 'bcrt', 'ltc') for v in range(32) for n in (0, 1, 2, 19, 20, 21, 31, 32, 33, 40, 41)],
    ),
]
