import random

from hypothesis import strategies as st

from lib import btc, gen, scen
from lib.core import Sub, check, eq
from lib.scen import View, Wallet, offline

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = (
    'Cases: all wallet classes, 1..5 outputs with default or custom sequences (final, final-1, BIP 125, lower), with '
    'replacement requested or not, combined or selected, created directly or prepared and signed offline; contracts '
    'are completed by further signers. Non-trivial: replacement requested, or a custom sequence present. Oracle: '
    'sequence rules of BIP 125 / BIP 68 on the parsed transaction, script verification.'
)


@st.composite
def cases(draw):
    w = draw(st.one_of(scen.single(), scen.contract(max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    utxos = draw(
        scen.coins(max_size=5, kinds=('legacy', 'segwit') if comp else ('legacy',), amount=st.integers(10 ** 5, 10 ** 8), seqs=True)
    )
    total = sum(u['a'] for u in utxos)
    return {
        'w': w,
        'utxos': utxos,
        'pays': draw(scen.payments(w['net'], total // draw(st.sampled_from([2, 4, 20])), max_size=2)),
        'rbf': draw(st.sampled_from([True, True, False])),
        'abs': draw(st.booleans()),
        'combine': draw(st.booleans()),
        'prepare': draw(st.booleans()),
        'twice': draw(st.integers(0, 4)) == 0,
        'msg': draw(st.sampled_from([None, None, 'hi'])),
        'seed': draw(st.integers(0, 99)),
        'send': draw(scen.routes),
        'exact': draw(st.integers(0, 3)) == 0,
    }


def run(c, ctx):
    w = Wallet(c['w'])
    prev = w.prevouts(c['utxos'])
    random.seed(c['seed'])
    opts = dict(
        fee=500 if c['abs'] else 1, absolute_fee=c['abs'], combine=c['combine'], message=c['msg'], replace_by_fee=c['rbf']
    )
    opts = scen.sparse(opts, c['seed'])
    us = w.unspents(c['utxos'])
    if c.get('exact') and c['abs'] and c['pays']:
        # the payments and the fee take all there is: no change
        p = c['pays'][-1]
        rest = sum(u['a'] for u in c['utxos']) - 500 - sum(x['sat'] for x in c['pays'][:-1])
        c = dict(c, pays=c['pays'][:-1] + [dict(p, sat=rest)])
        ctx.label('no change')

    def create():
        if c['prepare']:
            data = w.cls().prepare_transaction(w.addresses['legacy'], scen.pay_args(c['pays']), unspents=us, **opts)
            return w.key().sign_transaction(data)
        return scen.maker(w.key(), c.get('send'))(scen.pay_args(c['pays']), unspents=us, **opts)

    raw = offline(create)
    if w.multi:
        me, done = w.spec['me'] % w.signers, 1
        for i in range(w.signers):
            if i != me and done < w.m:
                raw = offline(lambda: w.key(i).sign_transaction(raw, unspents=w.unspents(c['utxos'])))
                done += 1
    v = View(raw, prev)
    v.verify()
    for i, p in zip(v.tx.vin, v.prev):
        if c['rbf']:
            check(i['sequence'] <= 0xFFFFFFFD, 'input with sequence %#x does not signal replacement', i['sequence'])
            if p[3] <= 0xFFFFFFFD:
                eq(i['sequence'], p[3], 'sequence that already signals')
            else:
                check(i['sequence'] & 0x80000000, 'input with sequence %#x gains a relative lock time', i['sequence'])
        else:
            eq(i['sequence'], p[3], 'sequence without replacement')
    custom = any(u.get('seq') not in (None, 0xFFFFFFFF) for u in c['utxos'])
    ctx.trivial(not c['rbf'] and not custom)
    ctx.label('rbf' if c['rbf'] else 'final', w.cls().__name__, 'prepared' if c['prepare'] else 'created')
    ctx.label('inputs>1' if len(v.tx.vin) > 1 else 'one input')


def many(tier):
    out = []
    for n in (20, 300):
        for prepare in (False, True):
            for net in ('main', 'test'):
                utxos = [{'k': ('legacy', 'segwit')[i % 2], 'a': 20000 + i, 't': '%064x' % (i + 1), 'n': i % 3} for i in range(n)]
                utxos[n // 2]['seq'] = 5
                out.append(
                    {
                        'w': {'type': 'single', 'net': net, 'secret': 78, 'compressed': True},
                        'utxos': utxos,
                        'pays': [],
                        'rbf': True,
                        'abs': True,
                        'combine': True,
                        'prepare': prepare,
                        'twice': False,
                        'msg': None,
                        'seed': n,
                        'send': None,
                    }
                )
    return out


SUBS = [Sub('rbf', cases(), run, 1500, 60000, enumerate_=many)]
