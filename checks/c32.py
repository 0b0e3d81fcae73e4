import hashlib
import random

from hypothesis import strategies as st

from bit.network.meta import Unspent
from lib import btc, gen, scen
from lib.core import Sub, Violation, check, eq
from lib.scen import Wallet, offline

PROPERTY = 'C32'
LEVEL = 'exploration'
RULE = (
    'Cases: a transaction composed by other software: any version, lock time and sequences, outputs with any script, '
    'inputs of 1..3 wallets on one network (single keys, m-of-n contracts; legacy, nested segwit or both) and foreign '
    'inputs (unsigned, or with any script and witness), interleaved, serialized unsigned as Bitcoin Core does. Every '
    'signature needed is made, in any order, by bit (sign_transaction with all or only the own unspents, among others, '
    'any order, upper-case hex; up to 260 inputs and 300 outputs) or by a reference signer that works as Bitcoin Core: its own nonces, missing signatures of '
    'a contract marked by empty pushes, serialization with witnesses only if there are any. Non-trivial: at least '
    'one signature by bit and at least two inputs or signers. Oracle: strict parser, diff of the parsed transaction per step, '
    'independent script verification of each input exactly when its owner has all signatures.'
)


# ------------------------------------------------------------------------------------------------ reference signer
def core_sign(secret, h, salt):
    """Signature in strict DER with low S and a nonce of its own; small R as Bitcoin Core grinds for."""
    z = int.from_bytes(h, 'big')
    for j in range(99):
        # with the nonce 1/2 the signature is exceptionally short
        k = (btc.N + 1) // 2 if salt % 10 == 0 else int.from_bytes(hashlib.sha256(b'%d|%d|' % (secret, salt + j) + h).digest(), 'big') % (btc.N - 1) + 1
        r = btc.pub_point(k)[0] % btc.N
        s = pow(k, -1, btc.N) * (z + r * secret) % btc.N
        if r and s and (r < 1 << 255 or salt % 2):
            return btc.der_sig(r, min(s, btc.N - s)) + b'\x01'
    raise AssertionError


def core_step(raw, w, who, prev, mine, salt):
    """Bitcoin Core's signrawtransactionwithkey for one key of one wallet."""
    tx = btc.parse_tx(raw, True)
    tx._segwit = None
    for i, v in enumerate(tx.vin):
        p = (v['txid'], v['vout'])
        if p not in mine:
            continue
        spk, amount, kind, _ = prev[p]
        if not w.multi:
            code = btc.p2pkh_script(btc.hash160(w.pub))
            h = btc.segwit_sighash(tx, i, code, amount) if kind == 'segwit' else btc.legacy_sighash(tx, i, code)
            sig = core_sign(w.secret, h, salt)
            if kind == 'segwit':
                v['script'] = btc.push(b'\x00\x14' + btc.hash160(w.pub))
                v['witness'] = [sig, w.pub]
            else:
                v['script'] = btc.push(sig) + btc.push(w.pub)
            continue
        pub, secret, _ = w.pairs[who]
        if kind == 'segwit':
            h = btc.segwit_sighash(tx, i, w.redeem, amount)
            old = v['witness'][:-1]
        else:
            h = btc.legacy_sighash(tx, i, w.redeem)
            old = [d for _, d in btc.script_ops(v['script'])][:-1]
        sigs = {}
        for s in filter(None, old):
            rs = btc.parse_der(s[:-1])
            check(rs is not None and s[-1] == 1, 'input %d holds something that is not a signature: %s', i, s.hex())
            for q in w.pubs:
                if btc.ecdsa_verify(q, rs[0], rs[1], h):
                    sigs[q] = s
        sigs[pub] = core_sign(secret, h, salt)
        items = [b''] + [sigs[q] for q in w.pubs if q in sigs][: w.m]
        items += [b''] * (w.m + 1 - len(items))
        if kind == 'segwit':
            v['script'] = btc.push(b'\x00\x20' + btc.sha256(w.redeem))
            v['witness'] = items + [w.redeem]
        else:
            v['script'] = b''.join(btc.push(x) if x else b'\x00' for x in items) + btc.push(w.redeem)
    return tx.serialize().hex()


# ------------------------------------------------------------------------------------------------ cases
blobs = st.one_of(st.binary(max_size=40), st.binary(min_size=250, max_size=260))
sequences = st.one_of(
    st.sampled_from([0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0, 1, 0x00400001, 0x80000000]), st.integers(0, 2 ** 32 - 1)
)


@st.composite
def cases(draw):
    net = draw(gen.nets)
    ws = draw(
        st.lists(
            st.one_of(scen.single(net=net), scen.contract(net=net, max_n=4), scen.contract(net=net)), min_size=1, max_size=3
        )
    )
    ins = []
    for i, w in enumerate(ws):
        comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
        for u in draw(
            scen.coins(max_size=2, kinds=('legacy', 'segwit') if comp else ('legacy',), amount=st.integers(1, 2 ** 50))
        ):
            u['t'] = gen.derived_txid(u['t'], i)
            ins.append({'o': i, 'u': u})
    for j in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        f = {'o': None, 't': gen.derived_txid('foreign', j), 'n': draw(gen.vouts), 's': '', 'w': []}
        how = draw(st.sampled_from(['unsigned', 'legacy', 'segwit', 'nested']))
        if how in ('legacy', 'nested'):
            f['s'] = draw(blobs).hex()
        if how in ('segwit', 'nested'):
            f['w'] = [b.hex() for b in draw(st.lists(blobs, min_size=1, max_size=4))]
        ins.append(f)
    ins = [dict(x, q=draw(sequences)) for x in draw(st.permutations(ins))]
    steps = []
    for i, w in enumerate(ws):
        if w['type'] == 'single':
            steps.append((i, 0))
        else:
            steps += [(i, s) for s in draw(st.permutations(range(len(w['secrets']))))[: w['m']]]
    if len(steps) < 5:
        # a signature made again before the owner has them all
        steps += draw(st.lists(st.sampled_from(steps), max_size=1)) if draw(st.integers(0, 2)) == 0 else []
    steps = list(draw(st.permutations(steps)))
    return {
        'net': net,
        'ws': ws,
        'ins': ins,
        'version': draw(st.sampled_from([1, 2, 2, 0, 3, 2 ** 31, 2 ** 32 - 1])),
        'lock': draw(st.one_of(st.just(0), st.integers(0, 2 ** 32 - 1))),
        'outs': draw(
            st.lists(st.tuples(st.integers(0, 2 ** 50), blobs.map(bytes.hex)).map(list), min_size=1, max_size=3)
        ),
        'steps': [
            [i, s, draw(st.sampled_from(['bit', 'bit', 'core'])), draw(st.booleans()), draw(st.integers(0, 99))]
            for i, s in steps
        ],
        'upper': draw(st.integers(0, 7)) == 0,
        # wallets that had signed before the outputs were changed
        'stale': draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from([(i, s) for i, s in steps]).map(list), min_size=1, max_size=4))),
    }


def run(c, ctx):
    ws = [Wallet(w) for w in c['ws']]
    scripts = [s for w in ws for s in w.scripts.values()]
    if len(set(scripts)) != len(scripts):
        ctx.trivial()
        return
    prev, owner = {}, {}
    vin = []
    for x in c['ins']:
        if x['o'] is None:
            p = (x['t'], x['n'])
            vin.append({'script': bytes.fromhex(x['s']), 'witness': [bytes.fromhex(b) for b in x['w']]})
        else:
            p = (x['u']['t'], x['u']['n'])
            prev.update(ws[x['o']].prevouts([x['u']]))
            owner[p] = x['o']
            vin.append({'script': b'', 'witness': []})
        vin[-1].update(txid=p[0], vout=p[1], sequence=x['q'])
    points = [(v['txid'], v['vout']) for v in vin]
    if len(set(points)) != len(points):
        ctx.trivial()
        return
    tx = btc.Tx(c['version'], vin, [{'amount': a, 'script': bytes.fromhex(s)} for a, s in c['outs']], c['lock'])
    raw = tx.serialize().hex()
    if c.get('stale'):
        before = btc.Tx(c['version'], [dict(v) for v in vin], [{'amount': a + 1, 'script': bytes.fromhex(s)} for a, s in c['outs']], c['lock'])
        text = before.serialize().hex()
        for i, s in c['stale']:
            text = core_step(text, ws[i], s, prev, {p for p in owner if owner[p] == i}, i + s)
        for v, o in zip(vin, btc.parse_tx(text, True).vin):
            v.update(script=o['script'], witness=o['witness'])
        tx = btc.Tx(c['version'], vin, [{'amount': a, 'script': bytes.fromhex(s)} for a, s in c['outs']], c['lock'])
        raw = tx.serialize().hex()
        ctx.label('signed before a change')

    def shape(t):
        return (
            t.version,
            [(i['txid'], i['vout'], i['sequence']) for i in t.vin],
            [(o['amount'], o['script']) for o in t.vout],
            t.locktime,
        )

    def unspents(only, order):
        out = []
        for x in c['ins']:
            if x['o'] is None:
                if only is None:
                    out.append(Unspent(5000, 3, '0014' + '11' * 20, x['t'], x['n'], 'p2wpkh'))
            elif only in (None, x['o']):
                out += ws[x['o']].unspents([x['u']])
        if order:
            for i, w in enumerate(ws):
                out += w.unspents([{'k': 'legacy', 'a': 12345, 't': gen.derived_txid('further', i), 'n': i}])
            random.Random(order).shuffle(out)
        return out

    want = shape(tx)
    got = {i: set() for i in range(len(ws))}
    by = set()
    for k, (i, s, how, own, order) in enumerate(c['steps']):
        w = ws[i]
        if len(got[i]) >= w.m and w.multi:
            continue
        old = btc.parse_tx(raw, True)
        mine = {p for p in owner if owner[p] == i}
        if how == 'core':
            raw = core_step(raw, w, s, prev, mine, order)
        else:
            text = raw.upper() if c['upper'] else raw
            raw = offline(lambda: w.key(s).sign_transaction(text, unspents=unspents(i if own else None, order % 7)))
        by.add(how)
        got[i].add(s)
        what = 'after step %d (%s)' % (k, how)
        try:
            now = btc.parse_tx(raw)
        except (btc.ParseError, ValueError) as e:
            raise Violation('%s: transaction is not well-formed: %s' % (what, e))
        eq(shape(now), want, '%s: version, outpoints, sequences, outputs and lock time' % what)
        for j, p in enumerate(points):
            o = owner.get(p)
            if o != i:
                eq(
                    (now.vin[j]['script'], now.vin[j]['witness']),
                    (old.vin[j]['script'], old.vin[j]['witness']),
                    '%s: input %d, which the signer does not own' % (what, j),
                )
                continue
            spk, amount, kind, _ = prev[p]
            if len(got[o]) >= ws[o].m:
                try:
                    btc.verify_input(now, j, spk, amount)
                except btc.ScriptError as e:
                    raise Violation('%s: input %d (%s) with all signatures is not valid: %s' % (what, j, kind, e))
            else:
                check(not btc.input_ok(now, j, spk, amount), '%s: input %d is valid without all signatures', what, j)
    kinds = {prev[p][2] for p in owner}
    ctx.label('signed by ' + '+'.join(sorted(by)), '+'.join(sorted(kinds)), c['net'])
    ctx.label('+'.join(sorted({w.spec['type'] for w in ws})))
    if len(owner) < len(points):
        ctx.label('foreign inputs')
    ctx.trivial('bit' not in by or (len(points) < 2 and len(c['steps']) < 2))


def many(tier):
    out = []
    for k, (n, outs) in enumerate(((14, 2), (25, 30), (48, 2), (90, 120), (260, 3), (3, 300))):
        net = 'main' if k % 2 else 'test'
        ws = [scen.contract_spec(net, 2, 3), scen.key_spec(net, 501, bool(k % 3))]
        ins = []
        for i, u in enumerate(scen.stack(n, tag='core %d' % n)):
            if i % 5 == 4:
                ins.append({'o': None, 't': u['t'], 'n': u['n'], 's': '51' * (i % 7), 'w': ['ab' * (i % 300)] if i % 2 else [], 'q': i})
            else:
                o = i % 2
                ins.append({'o': o, 'u': dict(u, k='segwit' if (k % 3 or not o) and i % 3 else 'legacy'), 'q': 0xFFFFFFFF - i})
        steps = [[0, 1, 'bit', True, k], [1, 0, 'bit', False, k], [0, 0, 'core' if k % 2 else 'bit', False, 3]]
        out.append(
            {
                'net': net, 'ws': ws, 'ins': ins, 'version': 2, 'lock': 1000 + k, 'outs': [[i, '00' * (i % 50)] for i in range(outs)],
                'steps': steps[k % 3 :] + steps[: k % 3], 'upper': False, 'stale': [],
            }
        )
    return out


SUBS = [Sub('foreign', cases(), run, 900, 25000, enumerate_=many)]
