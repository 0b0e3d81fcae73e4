import random

from hypothesis import strategies as st

import bit
from bit.format import multisig_to_address, multisig_to_redeemscript, multisig_to_segwit_address
from bit.network.meta import Unspent
from lib import btc, gen, scen
from lib.core import Sub, check, eq, raises
from lib.scen import Wallet

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = (
    'Cases: contracts of 1..15 keys, compressed, uncompressed or mixed, every 1 <= m <= n, keys in list order, shuffled '
    'or as a set, hex (either case) or bytes, each participant; requests that must be refused: m > n or m < 1, scripts above 520 bytes, keys of '
    'any other length, own key missing, key of the other network. Non-trivial: all. Oracle: independent construction of '
    'script and addresses; the standard refusals.'
)


def cls_for(net):
    return bit.MultiSig if net == 'main' else bit.MultiSigTestnet


def build(c, ctx):
    w = Wallet(c['w'])
    spec = c['w']
    eq(multisig_to_redeemscript(w.pubs, w.m), w.redeem, 'redeem script')
    eq(multisig_to_address(w.pubs, w.m, version=spec['net']), w.addresses['legacy'], 'address')
    if all(spec['flags']):
        eq(multisig_to_segwit_address(w.pubs, w.m, version=spec['net']), w.addresses['segwit'], 'segwit address')
    r = random.Random(c['seed'])
    for i in range(w.signers):
        k = w.key(i)
        if spec['as_set'] and i % 2:
            # a participant who builds the set in another order
            pubs = list(w.pubs)
            r.shuffle(pubs)
            # and, except for the own key, in another spelling
            arg = set()
            for p in pubs:
                style = r.choice([0, 0, 1, 2]) if p != w.pubs[i] else 1 - spec['hex']
                arg.add(p if style == 1 else p.hex().upper() if style == 2 else p.hex())
            k = cls_for(w.net)(w.priv(i), arg, w.m)
        elif not spec['as_set']:
            # the participant's own list may change afterwards
            mine = [p.hex() for p in w.pubs] if spec['hex'] else list(w.pubs)
            k = cls_for(w.net)(w.priv(i), mine, w.m)
            mine.reverse()
            mine.append(mine[0])
        eq(k.redeemscript, w.redeem, 'redeem script of participant %d' % i)
        eq(k.address, w.addresses['legacy'], 'address of participant %d' % i)
        eq(k.segwit_address, w.addresses.get('segwit'), 'segwit address of participant %d' % i)
        eq(list(k.public_keys), w.pubs, 'public keys of participant %d' % i)
        eq(k.public_key, w.pubs[i], 'own public key')
        eq(k.m, w.m, 'm')
    for kind in w.scripts:
        eq(bool(k.can_sign_unspent(Unspent(1, 1, w.scripts[kind].hex(), 'ab' * 32, 0))), True, 'can sign its own ' + kind)
    other = btc.p2sh_script(btc.hash160(w.redeem + b'x'))
    own = btc.p2pkh_script(btc.hash160(w.pubs[0]))
    for s in (other, own):
        eq(bool(k.can_sign_unspent(Unspent(1, 1, s.hex(), 'ab' * 32, 0))), False, 'can sign a foreign output')
    if not spec['as_set'] and w.signers > 1:
        # another order is another contract
        pubs = w.pubs[1:] + w.pubs[:1]
        if pubs != w.pubs:
            k = cls_for(w.net)(w.priv(0), [p.hex() for p in pubs], w.m)
            eq(k.redeemscript, btc.multisig_script(pubs, w.m), 'redeem script in list order')
            eq(k.address, btc.p2sh_address(btc.hash160(btc.multisig_script(pubs, w.m)), w.net), 'address in list order')
    ctx.label('%d-of-%d' % (w.m, w.signers) if w.signers < 4 else 'n >= 4', 'set' if spec['as_set'] else 'list')
    ctx.label('segwit' if 'segwit' in w.scripts else 'legacy only', w.net)


@st.composite
def refused_cases(draw):
    w = draw(scen.contract())
    how = draw(st.sampled_from(['m', 'size', 'length', 'missing', 'network', 'container']))
    return {
        'w': w,
        'how': how,
        'extra': draw(st.one_of(st.integers(1, 3), st.integers(1, 200))),
        'n': draw(st.integers(16, 20)),
        'n_unc': draw(st.integers(8, 14)),
        'unc': draw(st.booleans()),
        'bad_len': draw(st.integers(0, 100).filter(lambda n: n not in (33, 65))),
        'at': draw(st.integers(0, 20)),
        'hex': draw(st.booleans()),
        'other': draw(gen.uniform_secrets()),
        'as_set': draw(st.booleans()),
        'over': draw(st.booleans()),
    }


def refused(c, ctx):
    w = Wallet(c['w'])
    cls = cls_for(w.net)
    me = c['w']['me'] % w.signers
    pubs, m, key = list(w.pubs), w.m, w.priv(me)
    exc = ValueError
    how = c['how']
    if how == 'm':
        m = len(pubs) + c['extra'] if c['over'] else 1 - c['extra']
    elif how == 'size':
        n = c['n_unc'] if c['unc'] else c['n']
        more = [btc.pubkey((me + 7) * 1000003 + i, not c['unc']) for i in range(n)]
        pubs = more[:3] + [w.pubs[me]] + more[3:]
        m = min(m, len(pubs))
        if len(btc.multisig_script(pubs, m) if len(pubs) <= 16 else b'x' * 600) <= 520:
            ctx.trivial()
            eq(multisig_to_redeemscript(pubs, m), btc.multisig_script(pubs, m), 'redeem script')
            return
    elif how == 'length':
        bad = (b'\x02' + b'\x55' * 100)[: c['bad_len']]
        pubs.insert(c['at'] % (len(pubs) + 1), bad)
        if len(pubs) > 15:
            pubs = [bad, w.pubs[me]]
        m = min(m, len(pubs))
    elif how == 'missing':
        pubs = [p for p in pubs if p != w.pubs[me]] or [btc.pubkey(c['other'])]
        if w.pubs[me] in pubs:
            ctx.trivial()
            return
        m = min(m, len(pubs))
    elif how == 'network':
        cls = cls_for('test' if w.net == 'main' else 'main')
        exc = TypeError
    arg = [p.hex() for p in pubs] if c['hex'] else list(pubs)
    if c['as_set']:
        arg = set(arg)
    if how == 'container':
        arg = tuple(arg)
        exc = TypeError
    raises((exc,), lambda: cls(key, arg, m), 'contract to be refused (%s)' % how)
    if how in ('m', 'size', 'length'):
        raises((ValueError,), lambda: multisig_to_redeemscript(pubs, m), 'redeem script to be refused (%s)' % how)
        raises((ValueError,), lambda: multisig_to_address(pubs, m, version=w.net), 'address to be refused (%s)' % how)
    ctx.label(how)


def sizes(tier):
    """Every (m, n) that fits, compressed; every n that fits, uncompressed."""
    out = []
    for comp, top in ((True, 15), (False, 7)):
        for n in range(1, top + 1):
            for m in range(1, n + 1):
                for as_set in (False, True):
                    out.append(
                        {
                            'w': {
                                'type': 'multi', 'net': 'main' if (n + m) % 2 else 'test', 'secrets': [i * i * 7919 + 3 for i in range(1, n + 1)],
                                'flags': [comp] * n, 'm': m, 'me': 0, 'as_set': as_set, 'hex': bool(m % 2),
                            },
                            'seed': n,
                        }
                    )  # fmt: skip
    return out


SUBS = [
    Sub('build', st.fixed_dictionaries({'w': scen.contract(), 'seed': st.integers(0, 1000)}), build, 800, 30000, enumerate_=sizes),
    Sub('refused', refused_cases(), refused, 1200, 40000),
]
