import random

from hypothesis import strategies as st

from bit.exceptions import InsufficientFunds
from lib import btc, gen, scen
from lib.core import Sub, check, eq, raises
from lib.scen import View, Wallet, offline

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = (
    'Cases: all four wallet classes, create or prepare, payments and leftover in every address format; in most cases '
    'one payment (any position, any format including Bech32 in either case and regtest) or the leftover belongs to the '
    'other network, in the rest all belong to the own network. Non-trivial: every case. Oracle: network encoded in the '
    'address by the independent codecs; ValueError required, or acceptance with the right scripts.'
)


@st.composite
def cases(draw):
    net = draw(gen.nets)
    other = 'test' if net == 'main' else 'main'
    w = draw(st.one_of(scen.single(net=net), scen.contract(net=net, max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    utxos = draw(scen.coins(max_size=3, kinds=('legacy', 'segwit') if comp else ('legacy',), amount=st.integers(10 ** 6, 10 ** 9)))
    total = sum(u['a'] for u in utxos)
    where = draw(st.sampled_from(['none', 'pay', 'pay', 'pay', 'leftover', 'leftover', 'both']))
    absolute = draw(st.booleans())
    more = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 5, 14, 16, 31, 99, 255]))
    c = {
        'w': w,
        'utxos': utxos,
        'where': where,
        'pays': draw(scen.payments(net, total // 2, max_size=3)),
        'pos': draw(st.one_of(st.integers(0, 3), st.integers(0, 400))),
        # further payments to the own network
        'more': more,
        'bad': draw(gen.destinations(net=other)),
        'badsat': draw(st.integers(1, 10 ** 5)),
        'leftover': draw(st.one_of(st.none(), gen.destinations(net=net))),
        'badleft': draw(gen.destinations(net=other)),
        'fee': 1000 if absolute else draw(st.integers(1, 50 if more < 50 else 5)),
        'abs': absolute,
        'combine': draw(st.booleans()),
        'prepare': draw(st.booleans()),
        'msg': draw(st.sampled_from([None, None, 'x', 'y' * 100])),
        'rbf': draw(st.booleans()),
        'seed': draw(st.integers(0, 50)),
        'send': draw(scen.routes),
    }
    return c


def go(c, w, outs, leftover):
    random.seed(c['seed'])
    opts = dict(
        fee=c['fee'], absolute_fee=c['abs'], combine=c['combine'], leftover=leftover, message=c['msg'],
        unspents=w.unspents(c['utxos']), replace_by_fee=c['rbf'],
    )
    opts = scen.sparse(opts, c['seed'])
    if c['prepare']:
        return offline(lambda: w.cls().prepare_transaction(w.addresses['legacy'], outs, **opts))
    return offline(lambda: scen.maker(w.key(), c.get('send'))(outs, **opts))


def run(c, ctx):
    w = Wallet(c['w'])
    outs = scen.pay_args(c['pays'])
    left = c['leftover'] and c['leftover']['addr']
    outs += [(w.addresses['legacy'], 600 + i, 'satoshi') for i in range(c.get('more', 0))]
    if c['where'] in ('pay', 'both'):
        outs.insert(c['pos'] % (len(outs) + 1), (c['bad']['addr'], c['badsat'], 'satoshi'))
    if c['where'] in ('leftover', 'both'):
        left = c['badleft']['addr']
    what = '%s %s, %s: %s' % (w.cls().__name__, 'prepare' if c['prepare'] else 'create', c['where'], [o[0] for o in outs] + [left])
    ctx.label(c['where'], w.cls().__name__, 'prepare' if c['prepare'] else 'create')
    if c['where'] == 'none':
        out = go(c, w, outs, left)
        check(isinstance(out, str) and out, 'own-network destinations refused')
        if not c['prepare']:
            v = View(out, w.prevouts(c['utxos']), partial=True)
            eq([o['script'] for o in v.tx.vout[: len(outs)]], [p['script'] for p in c['pays']] + [w.scripts['legacy']] * c.get('more', 0), 'scripts')
        return
    if c['where'] == 'leftover' and not c['combine'] and not c['abs']:
        # a change-free selection would not use the leftover at all: allowed, but then nothing may be paid to it
        try:
            out = go(c, w, outs, left)
        except ValueError:
            ctx.label('refused')
            return
        check(c['badleft']['addr'] not in out, 'leftover of the other network used: ' + what)
        if not c['prepare']:
            v = View(out, w.prevouts(c['utxos']), partial=True)
            pays = [p['script'] for p in c['pays']] + [w.scripts['legacy']] * c.get('more', 0)
            eq([o['script'] for o in v.tx.vout if not scen.is_data(o)], pays, 'outputs: ' + what)
        ctx.label('change-free')
        return
    raises(ValueError, lambda: go(c, w, outs, left), what)
    ctx.label(c['bad']['kind'] if c['where'] == 'pay' else c['badleft']['kind'])


SUBS = [Sub('cross', cases(), run, 3000, 120000)]
