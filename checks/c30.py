from hypothesis import strategies as st

from checks.c20 import CALLS, record
from lib import gen, scen, world
from lib.clock import fresh
from lib.core import Sub, check, eq
from lib.net import NAMES, Net, Web

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = (
    'Cases: histories of 1..6 steps that change the timeout (int or float) and query or broadcast on either network, '
    'directly or through a key, with explorers failing at the first or a later request so that every explorer and '
    'result page is reached. Non-trivial: at least two requests. Oracle: the timeout the HTTP transport was given for '
    'each request, against the value configured last; answers against the simulated chain state.'
)
OPS = ['balance', 'unspents', 'history', 'lookup', 'broadcast', 'key']


@st.composite
def cases(draw):
    faults = {}
    for n in NAMES:
        f = draw(st.sampled_from(['none', 'at', 'at', 'after']))
        if f == 'at':
            faults[n] = draw(st.sampled_from(['conn', 'timeout', '503']))
        elif f == 'after':
            faults[n] = ['after', draw(st.integers(1, 4)), draw(st.sampled_from(['conn', 'timeout', '503']))]
    return {
        'spec': draw(world.specs(st.sampled_from([0, 3, 45, 130, 220]), st.sampled_from([0, 3, 60, 110]), (0,))),
        'page': draw(st.sampled_from([15, 40, 1000])),
        'faults': faults,
        'steps': draw(
            st.lists(
                st.one_of(
                    st.tuples(st.just('set'), st.one_of(st.integers(1, 300), st.floats(0.01, 100))),
                    st.tuples(st.sampled_from(OPS), gen.nets),
                    st.tuples(st.sampled_from(OPS), gen.nets),
                ),
                min_size=1,
                max_size=6,
            )
        ),
    }


def same(timeout, want):
    if isinstance(timeout, tuple):
        return all(t == want for t in timeout)
    if timeout is None or isinstance(timeout, (int, float)):
        return timeout == want
    return getattr(timeout, 'connect_timeout', None) == want and getattr(timeout, 'read_timeout', None) == want


def run(c, ctx):
    spec = c['spec']
    txid = gen.derived_txid(spec['seed'], 'raw')
    addr = {net: gen.key_address(spec['seed'] + 1, net, 'p2pkh') for net in ('main', 'test')}
    state = {net: world.state(spec, net) for net in addr}
    raw = {txid: 'c0ffee'}
    chs = world.chains('main', spec['tip'], {addr['main']: state['main']}, raw, {addr['test']: state['test']}, raw)
    chs['test'].tip = spec['tip']
    n_requests = 0
    with fresh('bit', 'bit.network') as (clock, b, n):
        current = None
        for s in c['steps']:
            if s[0] == 'set':
                b.set_service_timeout(s[1])
                current = s[1]
                continue
            op, net = s
            web = Web(chs, {k: (tuple(f) if isinstance(f, list) else f) for k, f in c['faults'].items()}, {'smartbit': {'page': c['page']}})
            log = Net(web)
            got = None
            with log.active():
                try:
                    if op == 'key':
                        key = gen.make_key(b, spec['seed'] + 1, net)
                        got = key.get_unspents()
                    else:
                        arg = {'lookup': txid, 'broadcast': '01' * 40}.get(op, addr[net])
                        got = getattr(n.NetworkAPI, CALLS[(op, net)])(arg)
                except ConnectionError:
                    pass
                else:
                    if op in ('unspents', 'key'):
                        eq(sorted(record(u) for u in got), chs[net].expected(addr[net]), 'unspents')
                    elif op == 'balance':
                        eq(got, chs[net].balance(addr[net]), 'balance')
                    elif op == 'lookup':
                        eq(got, 'c0ffee', 'transaction')
            for r in log.log:
                check(r.timeout is not None, 'request without a timeout: %s %s', r.method, r.url)
                if current is not None:
                    check(same(r.timeout, current), 'timeout %r instead of %r: %s %s', r.timeout, current, r.method, r.url)
                n_requests += 1
            ctx.label('%s %s' % (op, net))
            for e in web.explorers.values():
                k = sum(1 for r in log.log if r.host in e.hosts)
                if k:
                    ctx.label('%s %s%s' % (op, e.name, ' paged' if k > 2 else ''))
    ctx.trivial(n_requests < 2)


SUBS = [Sub('timeouts', cases(), run, 1600, 60000)]
