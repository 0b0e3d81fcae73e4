import json

from hypothesis import strategies as st

from bit.network.meta import Unspent
from lib import gen
from lib.core import Sub, check, eq

PROPERTY = 'C29'
LEVEL = 'exploration'
RULE = (
    'Cases: records with generated amounts, confirmations, scripts, ids, indices, known and unknown types, given or '
    'default sizes and sequences, followed by up to 6 operations (change type with or without size, opt in for '
    'replacement, to dictionary and back, through JSON). Non-trivial: at least one operation. Oracle: a model of the '
    'record, compared after every step.'
)
# type: (segwit, size of a spending input in vbytes)
TYPES = {
    'unknown': (None, 180),
    'p2pkh-uncompressed': (False, 180),
    'p2pkh': (False, 148),
    'p2sh': (False, 298),
    'np2wkh': (True, 91),
    'np2wsh': (True, 140),
    'p2wkh': (True, 68),
    'p2wsh': (True, 105),
}
FIELDS = ['amount', 'confirmations', 'script', 'txid', 'txindex', 'type', 'vsize', 'segwit', 'sequence']

types = st.one_of(
    st.sampled_from(sorted(TYPES)), st.sampled_from(sorted(TYPES)), st.sampled_from(['', 'P2PKH', 'p2tr', 'segwit', 'unknown ']), st.text(max_size=6)
)
sizes = st.one_of(st.none(), st.integers(1, 2000), st.integers(40, 4000).map(lambda n: n / 4))
seqs = st.one_of(st.none(), st.sampled_from([0, 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 2, 2 ** 32 - 3, 2 ** 32 - 4]), st.integers(0, 2 ** 32 - 1))
ops = st.one_of(
    st.tuples(st.just('type'), types),
    st.tuples(st.just('type'), types, st.one_of(st.integers(1, 2000), st.integers(40, 4000).map(lambda n: n / 4))),
    st.tuples(st.just('rbf')),
    st.tuples(st.just('dict')),
    st.tuples(st.just('json')),
)
cases = st.fixed_dictionaries(
    {
        'amount': st.integers(0, 21 * 10 ** 14),
        'conf': st.integers(0, 10 ** 6),
        'script': st.binary(max_size=40),
        'txid': gen.txids,
        'n': gen.vouts,
        'type': st.one_of(st.none(), types),
        'size': sizes,
        'seq': seqs,
        'segwit': st.sampled_from([None, True, False]),
        'ops': st.lists(ops, max_size=6),
    }
)


def norm(t):
    return t if t in TYPES else 'unknown'


def compare(u, m, what):
    for f in FIELDS:
        got = getattr(u, f)
        if f == 'segwit' and m['segwit'] is None:
            check(not got, '%s: segwit of an unknown type is %r', what, got)
            continue
        eq(got, m[f], '%s: %s' % (what, f))


def run(c, ctx):
    kw = {}
    if c['type'] is not None:
        kw['type'] = c['type']
    if c['size'] is not None:
        kw['vsize'] = c['size']
    if c['seq'] is not None:
        kw['sequence'] = c['seq']
    if c['segwit'] is not None:
        kw['segwit'] = c['segwit']
    u = Unspent(c['amount'], c['conf'], c['script'].hex(), c['txid'], c['n'], **kw)
    t = norm(c['type']) if c['type'] is not None else 'p2pkh'
    m = {
        'amount': c['amount'],
        'confirmations': c['conf'],
        'script': c['script'].hex(),
        'txid': c['txid'],
        'txindex': c['n'],
        'type': t,
        'segwit': TYPES[t][0],
        'vsize': c['size'] or TYPES[t][1],
        'sequence': 0xFFFFFFFF if c['seq'] is None else c['seq'],
    }
    compare(u, m, 'new record')
    for op in c['ops']:
        before = Unspent.from_dict(u.to_dict())
        if op[0] == 'type':
            r = u.set_type(*op[1:])
            check(r is u, 'set_type returns %r', r)
            m['type'] = norm(op[1])
            m['segwit'], default = TYPES[m['type']]
            m['vsize'] = op[2] if len(op) > 2 else default
        elif op[0] == 'rbf':
            u.opt_in_for_RBF()
            if m['sequence'] >= 0xFFFFFFFE:
                m['sequence'] = 0xFFFFFFFD
        else:
            d = u.to_dict()
            check(set(FIELDS) <= set(d), 'dictionary lacks %r', set(FIELDS) - set(d))
            if op[0] == 'json':
                d = json.loads(json.dumps(d))
            given = dict(d)
            u2 = Unspent.from_dict(d)
            eq(d, given, 'the dictionary read')
            check(u2 is not u and u2 == u, 'record from the dictionary differs')
            u = u2
        compare(u, m, 'after %r' % (op,))
        ctx.label(op[0])
    ctx.trivial(not c['ops'])


def equality(c, ctx):
    def rec(**other):
        d = dict(amount=c['amount'], confirmations=c['conf'], script=c['script'].hex(), txid=c['txid'], txindex=c['n'])
        d.update(type=c['known'], sequence=c['seq'])
        d.update(other)
        return Unspent(**d)

    a = rec()
    check(a == rec() and not (a != rec()), 'equal records compare unequal')
    check(a == rec(confirmations=c['conf'] + c['by']), 'one output seen at different heights compares unequal')
    flip = 1 << c['by'] % 31
    txid = '%064x' % (int(c['txid'], 16) ^ 1 << c['by'] % 256)
    for change in (
        {'amount': c['amount'] ^ flip},
        {'script': (c['script'] + bytes([c['by'] % 256])).hex()},
        {'txid': txid},
        {'txindex': c['n'] ^ flip},
        {'sequence': c['seq'] ^ flip},
        {'type': 'p2pkh' if TYPES[c['known']][0] else 'np2wkh'},
        {'type': 'unknown'},
    ):
        b = rec(**change)
        check(a != b and not (a == b), 'records that differ in %s compare equal', sorted(change))
        if c['in']:
            check(b not in [a] and [a, b].index(b) == 1, 'a record that differs in %s is found as the other', sorted(change))


eq_cases = st.fixed_dictionaries(
    {
        'amount': st.integers(0, 21 * 10 ** 14),
        'conf': st.integers(0, 10 ** 6),
        'script': st.binary(max_size=40),
        'txid': gen.txids,
        'n': st.integers(0, 2 ** 31),
        'known': st.sampled_from(sorted(t for t in TYPES if t != 'unknown')),
        'seq': st.one_of(st.integers(0, 2 ** 32 - 1), st.sampled_from([2 ** 32 - 1, 2 ** 32 - 3])),
        'by': st.integers(1, 1000),
        'in': st.booleans(),
    }
)

SUBS = [Sub('record', cases, run, 5000, 250000), Sub('equality', eq_cases, equality, 1000, 50000)]
