import random
from decimal import Decimal

from hypothesis import strategies as st

from bit.exceptions import InsufficientFunds
from lib import btc, gen, scen
from lib.core import Sub, Violation, check, eq
from lib.scen import View, Wallet, offline

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = (
    'Cases: wallet (single key or contract, either network), 1..5 of its outputs, 0..4 payments in any unit and number '
    'type, fee (absolute or rate), explicit or default leftover, combining or not, immediate or offline creation; '
    'up to 300 payments from up to 270 outputs; payments summing to less than, about, or more than the funds; negative amounts in one position. Non-trivial: a '
    'transaction with payments or change was produced, or an impossible request was refused. Oracle: exact integer '
    'bookkeeping on the independently parsed transaction.'
)


@st.composite
def cases(draw):
    w = draw(st.one_of(scen.single(), scen.single(), scen.contract(max_n=3)))
    comp = w['compressed'] if w['type'] == 'single' else all(w['flags'])
    kinds = ('legacy', 'segwit') if comp else ('legacy',)
    utxos = draw(scen.coins(max_size=5, kinds=kinds))
    total = sum(u['a'] for u in utxos)
    absolute = draw(st.booleans())
    fee = draw(st.one_of(st.integers(0, 5000), st.integers(1, 10 ** 6), st.sampled_from([0, 1]))) if absolute else draw(st.integers(0, 60))
    mode = draw(st.sampled_from(['fit', 'fit', 'fit', 'tight', 'exceed']))
    room = {'fit': total - 20000, 'tight': total - (fee if absolute else 0), 'exceed': 2 * total}[mode]
    pays = draw(scen.payments(w['net'], max(room, 1), max_size=4, own=[list(x) for x in own(w)]))
    if mode == 'tight' and pays and absolute:
        # hit the boundary exactly, one below and one above
        rest = total - fee - sum(p['sat'] for p in pays) + draw(st.sampled_from([-1, 0, 0, 1]))
        if pays[-1]['sat'] + rest > 0:
            pays[-1]['sat'] += rest
    if len(pays) > 1 and draw(st.integers(0, 9)) == 0:
        pays[draw(st.integers(0, len(pays) - 1))]['sat'] = 0  # refused, or an output of nothing
    return {
        'w': w,
        'utxos': utxos,
        'pays': pays,
        'num': draw(st.sampled_from(['text', 'text', 'decimal', 'float', 'int'])),
        'fee': fee,
        'abs': absolute,
        'combine': draw(st.booleans()),
        'leftover': draw(st.one_of(st.none(), gen.destinations(net=w['net']).map(lambda d: {'addr': d['addr'], 'script': d['script']}))),
        'msg': draw(st.sampled_from([None, None, None, 'hello'])),
        'prepare': draw(st.sampled_from([False, False, True])),
        'seed': draw(st.integers(0, 100)),
        'send': draw(scen.routes),
    }


def own(w):
    x = Wallet(w)
    return [(x.addresses[k], x.scripts[k]) for k in x.kinds]


def args(c):
    out = []
    for p in c['pays']:
        a = gen.fmt_units(p['sat'], p['unit'], p['style'])
        if p['style'] == 5 and c['num'] in ('text', 'decimal'):
            # fractions of a satoshi are dropped
            a = str(a) + ('' if '.' in str(a) else '.') + '9' * 11
        if c['num'] == 'decimal':
            a = Decimal(a)
        elif c['num'] == 'float' and Decimal(repr(float(a))) == Decimal(a):
            a = float(a)
        elif c['num'] == 'int' and Decimal(a) == int(Decimal(a)):
            a = int(Decimal(a))
        out.append((p['addr'], a, p['unit']))
    return out


def create(c, w, outs):
    random.seed(c['seed'])
    opts = dict(
        fee=c['fee'],
        absolute_fee=c['abs'],
        combine=c['combine'],
        leftover=c['leftover'] and c['leftover']['addr'],
        message=c['msg'],
        unspents=w.unspents(c['utxos']),
    )
    opts = scen.sparse(opts, c['seed'])
    given = list(outs)

    def go():
        if c['prepare']:
            kind = 'segwit' if 'segwit' in w.addresses and any(u['k'] == 'segwit' for u in c['utxos']) else 'legacy'
            data = w.cls().prepare_transaction(w.addresses[kind], outs, **opts)
            return w.key().sign_transaction(data)
        return scen.maker(w.key(), c.get('send'))(outs, **opts)

    raw = offline(go)
    eq(outs, given, 'the list of outputs passed in')
    return raw


def run(c, ctx):
    w = Wallet(c['w'])
    need = sum(p['sat'] for p in c['pays'])
    total = sum(u['a'] for u in c['utxos'])
    try:
        raw = create(c, w, args(c))
    except InsufficientFunds:
        # with an absolute fee the boundary is exact
        if c['abs']:
            check(need + c['fee'] > total, 'refused although %d suffice for %d + fee %d', total, need, c['fee'])
        ctx.label('refused')
        return
    except Exception:
        if all(p['sat'] for p in c['pays']):
            raise
        ctx.label('payment of nothing refused')
        return
    check(need + (c['fee'] if c['abs'] else 0) <= total, 'pays %d plus fee from %d', need, total)
    v = View(raw, w.prevouts(c['utxos']), partial=True)
    outs = [o for o in v.tx.vout if not scen.is_data(o)]
    pays = [(p['sat'], p['script']) for p in c['pays']]
    eq([(o['amount'], o['script']) for o in outs[: len(pays)]], pays, 'payments in order')
    rest = outs[len(pays) :]
    check(len(rest) <= 1, '%d outputs besides the payments', len(rest))
    check(v.fee >= 0, 'fee is negative: %d', v.fee)
    if rest:
        if c['leftover']:
            script = c['leftover']['script']
        else:
            script = btc.address_info(w.default_leftover(c['utxos']))[1]
        eq(rest[0]['script'], script, 'script of the change output')
        check(rest[0]['amount'] > 0, 'change of zero')
        ctx.label('change to given address' if c['leftover'] else 'change to own address')
    else:
        ctx.label('no change')
    if c['abs']:
        eq(v.fee, c['fee'], 'absolute fee')
        ctx.label('absolute fee')
    check(all(o['amount'] == 0 for o in v.tx.vout if scen.is_data(o)), 'value in a data output')
    ctx.label('payments %d' % len(pays), c['num'], 'prepared' if c['prepare'] else 'created')
    ctx.trivial(not pays and not rest)


def negative(c, ctx):
    w = Wallet(c['w'])
    outs = args(c)
    i = c['pos'] % (len(outs) + 1)
    bad = gen.fmt_units(c['neg'], c['unit'], 0)
    bad = -bad if isinstance(bad, int) else '-' + bad
    outs.insert(i, (w.addresses['legacy'], bad, c['unit']))
    try:
        raw = create(c, w, outs)
    except Exception as e:
        ctx.label(type(e).__name__)
        return
    raise Violation('a payment of %s %s produced the transaction %s' % (bad, c['unit'], raw))


def negative_fee(c, ctx):
    c = dict(c, fee=-c['neg'])
    try:
        raw = create(c, Wallet(c['w']), args(c))
    except Exception as e:
        ctx.label(type(e).__name__)
        return
    raise Violation('a fee of %d%s produced the transaction %s' % (c['fee'], ' in all' if c['abs'] else ' per byte', raw))


def many(tier):
    """Many payments, with and without a message that follows them, and many outputs to spend."""
    out = []
    for k, (pays, n, msg) in enumerate(
        ((12, 1, 'hello'), (17, 30, None), (33, 1, 'x' * 900), (45, 2, 'hello'), (70, 120, None), (101, 3, 'y' * 200), (130, 1, None), (254, 12, 'hello'), (300, 270, 'hello'))
    ):
        for absolute in (True, False):
            net = 'main' if k % 2 else 'test'
            out.append(
                {
                    'w': scen.contract_spec(net) if k % 4 == 3 else scen.key_spec(net, compressed=k % 3 > 0),
                    'utxos': scen.stack(n, ('legacy', 'segwit') if k % 3 or k % 4 == 3 else ('legacy',), tag=k, amount=10 ** 7 // n),
                    'pays': scen.pile(net, pays),
                    'num': 'int',
                    'fee': 1000 if absolute else 2,
                    'abs': absolute,
                    'combine': bool(k % 2),
                    'leftover': None,
                    'msg': msg,
                    'prepare': absolute,
                    'seed': k,
                    'send': None,
                }
            )
    return out


SUBS = [
    Sub('pay', cases(), run, 4000, 150000, enumerate_=many),
    Sub(
        'negative',
        st.tuples(cases(), st.integers(0, 4), st.one_of(st.integers(1, 10 ** 6), st.integers(1, 10 ** 12)), scen.units).map(
            lambda t: dict(t[0], pos=t[1], neg=t[2], unit=t[3])
        ),
        negative,
        500,
        20000,
    ),
    Sub(
        'negative_fee',
        st.tuples(cases(), st.one_of(st.integers(1, 20), st.integers(1, 10 ** 7))).map(lambda t: dict(t[0], neg=t[1])),
        negative_fee,
        300,
        10000,
    ),
]
