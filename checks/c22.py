import itertools

from hypothesis import strategies as st

from checks.c20 import call, record
from lib import gen, world
from lib.core import Sub, check, eq
from lib.net import NAMES, Net, Web

PROPERTY = 'C22'
LEVEL = 'fault_enumeration'
RULE = (
    'Cases: each query on each network with every subset of the explorers failing (enumerated, for refused connection, '
    'timeout, error status and answers that are not JSON), and generated mixtures of faults at the first or any later request of an explorer. '
    'Non-trivial: at least one explorer failed during the query. Oracle: the simulated chain state and which explorers '
    'were seen to fail: the answer is exact, or ConnectionError with every supporting explorer having failed; no '
    'explorer is asked after one has answered.'
)
OPS = ['balance', 'unspents', 'history', 'lookup']
KINDS = ['conn', 'timeout', 'ctimeout', 'hang', 'broken', '401', '402', '403', '408', '429', '430', '500', '502', '503', '504', '520']
# Status 200, but not the JSON (or number) due; what stands for a raw transaction in plain text could be anything.
GARBLED = ['page', 'cut', 'empty']
KNOWN = 'HTTP 500 from blockchain.info taken as no unspents'
TXID = gen.derived_txid('lookup', 1)


def expected(op, net, ch, addr):
    c = ch[net]
    if op == 'balance':
        return c.balance(addr)
    if op == 'unspents':
        return c.expected(addr)
    if op == 'lookup':
        return c.raw[TXID]
    return sorted(t['txid'] for t in c.addr(addr)['txs'])


def run(c, ctx):
    op, net = c['op'], c['net']
    kind = c.get('kind', 'p2pkh')
    addr = gen.key_address(c['spec']['seed'] + 1, net, kind)
    st_ = world.state(c['spec'])
    ch = world.chains(net, c['spec']['tip'], {addr: st_}, {TXID: 'c0ffee'})
    faults = {n: (tuple(f) if isinstance(f, list) else f) for n, f in c['faults'].items()}
    opts = {'smartbit': {'page': c.get('page', 1000)}, 'blockstream': {'too_many': c.get('too_many', False)}}
    web = Web(ch, faults, opts)
    net_ = Net(web)
    err = None
    try:
        with net_.active():
            got = call(op, net)(addr if op != 'lookup' else TXID)
    except ConnectionError as e:
        err = e
    contacted = []
    for r in net_.log:
        for e in web.explorers.values():
            if r.host in e.hosts and (not contacted or contacted[-1] != e.name):
                contacted.append(e.name)
    failed = set(web.fired)
    support = world.SUPPORT[(op, net)]
    if err is not None:
        check(set(support) <= failed, 'ConnectionError although %s did not fail', sorted(set(support) - failed))
        ctx.label('all failed')
        return
    if (
        op == 'unspents' and got == [] and contacted[-1] == 'blockchain' and 'blockchain' in failed
        and str(faults['blockchain'][-1] if isinstance(faults['blockchain'], tuple) else faults['blockchain']) == '500'
    ):
        ctx.known.append(KNOWN)
        return
    check(contacted, 'answered without asking any service')
    check(contacted[-1] not in failed, 'answered with what the failing %s gave', contacted[-1])
    for n in contacted[:-1]:
        check(n in failed, '%s was asked although %s had answered', contacted[-1], n)
    if op == 'unspents':
        got = sorted(record(u) for u in got)
    elif op == 'history':
        got = sorted(got)
    eq(got, expected(op, net, ch, addr), '%s on %s with failing %s' % (op, net, sorted(failed)))
    ctx.label('%s %s' % (op, net), '%d failed' % len(failed))
    ctx.trivial(not failed)
    if any(isinstance(faults.get(n), tuple) for n in failed):
        ctx.label('failed at a later request')


@st.composite
def cases(draw):
    op = draw(st.sampled_from(OPS))
    net = draw(gen.nets)
    paged = draw(st.booleans())
    faults = {}
    sparse = draw(st.integers(0, 2))
    for n in NAMES:
        modes = ['at', 'after', 'after'] if paged else ['at']
        f = draw(st.sampled_from(modes + ['none'] * sparse))
        kinds = [k for k in KINDS + GARBLED * (op != 'lookup' or n not in ('blockstream', 'blockchain')) if not (n == 'blockchain' and op == 'unspents' and k == '500')]
        if f == 'at':
            faults[n] = draw(st.sampled_from(kinds))
        elif f == 'after':
            faults[n] = ['after', draw(st.integers(1, 5)), draw(st.sampled_from(kinds))]
    spec = draw(
        world.specs(
            st.integers(1, 250 if paged else 5), st.integers(1, 120 if paged else 5), (0,)
        )
    )
    return {
        'op': op,
        'net': net,
        'kind': draw(st.sampled_from(['p2pkh', 'np2wkh'])),
        'spec': spec,
        'faults': faults,
        'page': draw(st.sampled_from([20, 50])) if paged else 1000,
        'too_many': draw(st.integers(0, 7)) == 0,
    }


def subsets(tier):
    out = []
    for op in OPS:
        kinds = (['conn', 'timeout', '500', '503'] if tier == 'quick' else KINDS) + GARBLED * (op != 'lookup')
        for net in ('main', 'test'):
            support = world.SUPPORT[(op, net)]
            for k in range(len(support) + 1):
                for down in itertools.combinations(support, k):
                    for kind in kinds:
                        out.append(
                            {
                                'op': op,
                                'net': net,
                                'spec': {'seed': 5, 'n': 3, 'ntx': 3, 'mem': 0, 'tip': 100},
                                'faults': {n: kind for n in down},
                            }
                        )
            # one explorer left, which fails at its k-th request
            for who in support:
                for k in range(1, 4):
                    for kind in kinds:
                        f = {n: 'conn' for n in support if n != who}
                        f[who] = ['after', k, kind]
                        out.append(
                            {
                                'op': op,
                                'net': net,
                                'spec': {'seed': 6, 'n': 230, 'ntx': 120, 'mem': 0, 'tip': 100},
                                'faults': f,
                                'page': 60,
                            }
                        )
    return out


ABSENT = ['400', '404']


def absent(c, ctx):
    """Explorers that say the address or transaction does not exist: an empty answer or the next one's, nothing else."""
    op, net = c['op'], c['net']
    addr = gen.key_address(c['spec']['seed'] + 1, net, 'p2pkh')
    ch = world.chains(net, c['spec']['tip'], {addr: world.state(c['spec'])}, {TXID: 'c0ffee'})
    faults = {n: (tuple(f) if isinstance(f, list) else f) for n, f in c['faults'].items()}
    web = Web(ch, faults, {'smartbit': {'page': 50}})
    net_ = Net(web)
    try:
        with net_.active():
            got = call(op, net)(addr if op != 'lookup' else TXID)
    except ConnectionError:
        missing = set(world.SUPPORT[(op, net)]) - set(web.fired)
        check(not missing, 'ConnectionError although %s did not fail', sorted(missing))
        ctx.label('all failed')
        return
    if op == 'unspents':
        check(isinstance(got, list), 'unspents are %r', got)
        got = sorted(record(u) for u in got)
    elif op == 'history':
        check(isinstance(got, list), 'history is %r', got)
        got = sorted(got)
    want = expected(op, net, ch, addr)
    empty = {'balance': 0, 'unspents': [], 'history': [], 'lookup': None}[op]
    said = [n for n in web.fired if str(faults[n][-1] if isinstance(faults[n], tuple) else faults[n]) in ABSENT]
    if not said:
        eq(got, want, '%s on %s with failing %s' % (op, net, web.fired))
        ctx.trivial()
    else:
        check(got in (want, empty), '%s on %s: %s is neither everything nor empty; %s said it does not exist', op, net, got, said)
        ctx.label('%s %s' % (op, net), 'empty answer' if got == empty else 'answer of a later explorer')


@st.composite
def absent_cases(draw):
    op, net = draw(st.sampled_from(OPS)), draw(gen.nets)
    paged = draw(st.booleans())
    faults = {}
    for n in NAMES:
        k = draw(st.sampled_from(ABSENT + ABSENT + ['conn', '503', None]))
        if k:
            faults[n] = ['after', draw(st.integers(1, 3)), k] if paged and draw(st.booleans()) else k
    spec = draw(world.specs(st.integers(1, 120 if paged else 5), st.integers(1, 120 if paged else 5), (0,)))
    return {'op': op, 'net': net, 'spec': spec, 'faults': faults}


def absent_each(tier):
    out = []
    for op in OPS:
        for net in ('main', 'test'):
            for who in world.SUPPORT[(op, net)]:
                for k in ABSENT:
                    for others in ('conn', k):
                        f = {n: others for n in world.SUPPORT[(op, net)]}
                        f[who] = k
                        out.append({'op': op, 'net': net, 'spec': {'seed': 5, 'n': 3, 'ntx': 3, 'mem': 0, 'tip': 100}, 'faults': f})
    return out


SUBS = [
    Sub('faults', cases(), run, 4000, 150000, enumerate_=subsets),
    Sub('absent', absent_cases(), absent, 800, 30000, enumerate_=absent_each),
]
