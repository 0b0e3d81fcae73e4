import multiprocessing
import os
import re
import signal
import subprocess
import sys

from hypothesis import strategies as st

import bit
from bit.keygen import generate_key_address_pair, generate_matching_address
from lib import btc, gen
from lib.core import REPO, NoTermination, Sub, check, eq, raises

PROPERTY = 'C26'
QUICK_SCALE = 1
LEVEL = 'exploration'
RULE = (
    'Cases: generated pairs from generated secrets (substituted for the random source, including short and boundary '
    'ones) and from the real source; vanity searches, run in a process of their own, for 0..3 character prefixes with '
    'or without the leading 1 and any number of workers; prefixes with a character outside the alphabet. Non-trivial: '
    'all. Oracle: independent WIF decoding, key derivation and address encoding; import by the library.'
)
ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def check_pair(wif, address, net='main'):
    payload = btc.b58check_dec(wif)
    check(payload is not None, 'WIF %r does not decode', wif)
    eq(payload[0], 0x80 if net == 'main' else 0xEF, 'WIF version')
    comp = len(payload) == 34 and payload[-1] == 1
    check(comp or len(payload) == 33, 'WIF payload of %d bytes', len(payload))
    secret = int.from_bytes(payload[1:33], 'big')
    check(0 < secret < btc.N, 'secret out of range')
    want = btc.p2pkh_address(btc.hash160(btc.pubkey(secret, comp)), net)
    eq(address, want, 'address shown against the address of the exported key')
    eq(bit.wif_to_key(wif).address, address, 'address after importing the key')
    return secret


def pair(c, ctx):
    import coincurve.keys as ck

    real = ck.get_valid_secret
    if c['secret'] is not None:
        ck.get_valid_secret = lambda: c['secret'].to_bytes(32, 'big')
    try:
        if c['how'] == 'pair':
            out = generate_key_address_pair()
        elif c['how'] == 'empty':
            out = generate_matching_address('', cores=c['cores'])
        else:
            cls = bit.PrivateKey if c['how'] == 'main' else bit.PrivateKeyTestnet
            k = cls()
            out = (k.to_wif(), k.address)
    finally:
        ck.get_valid_secret = real
    check(isinstance(out, tuple) and len(out) == 2, 'result %r', out)
    check_pair(out[0], out[1], 'test' if c['how'] == 'test' else 'main')
    ctx.label(c['how'], 'given secret' if c['secret'] is not None else 'random')


def distinct(c, ctx):
    """The real source does not repeat itself."""
    keys = {generate_key_address_pair()[0] for _ in range(c['n'])} | {bit.PrivateKey().to_wif() for _ in range(c['n'])}
    eq(len(keys), 2 * c['n'], 'distinct keys')


PROG = 'import sys; sys.path.insert(0, %r); from bit.cli import bit; bit()'


def vanity(c, ctx):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    # timeout also ends a search whose check was stopped
    cmd = ['timeout', '-s', 'KILL', '160', sys.executable, '-c', PROG % REPO, 'gen', c['prefix']]
    if c['cores'] is not None:
        cmd += ['--cores' if c['long'] else '-c', str(c['cores'])]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=150)
    except subprocess.TimeoutExpired:
        out = None
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
    if out is None:
        raise NoTermination('the search for %r did not end within 150 s; it takes one or two' % c['prefix'])
    eq(p.returncode, 0, 'exit status (%s)' % err[-300:])
    wifs = re.findall(r'\b[KL5][%s]{50,51}\b' % ALPHABET, out)
    addrs = [a for a in re.findall(r'\b1[%s]{25,33}\b' % ALPHABET, out)]
    eq((len(wifs), len(addrs)), (1, 1), 'keys and addresses shown in %r' % out[-400:])
    check_pair(wifs[0], addrs[0])
    want = c['prefix'] if c['prefix'].startswith('1') else '1' + c['prefix']
    check(addrs[0].startswith(want), 'asked for %r, got %s', c['prefix'], addrs[0])
    ctx.label('prefix of %d' % len(want), 'cores %s' % c['cores'])


def refused(c, ctx):
    prefix = c['a'] + c['bad'] + c['b']

    def over(signum, frame):
        raise NoTermination('a search for %r was started' % prefix)

    signal.signal(signal.SIGALRM, over)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        raises(ValueError, lambda: generate_matching_address(prefix, cores=1), 'prefix %r' % prefix)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        for child in multiprocessing.active_children():
            child.kill()


common = 'ABCDEFGHJKLMNP23456789'
prefixes = st.one_of(
    st.sampled_from(common),
    st.sampled_from(common).map(lambda c: '1' + c),
    st.tuples(st.sampled_from(common), st.sampled_from(ALPHABET)).map(''.join),
    st.tuples(st.just('1'), st.sampled_from(common), st.sampled_from(ALPHABET)).map(''.join),
    st.sampled_from(['1', '1', '11', '1Q', '']),
)
cores = st.sampled_from([None, 'all', 'all', 1, 1, 2, 3, 4, 0, 99])


SUBS = [
    Sub(
        'pair',
        st.fixed_dictionaries(
            {
                'how': st.sampled_from(['pair', 'empty', 'main', 'test']),
                'secret': st.one_of(st.none(), gen.secrets(), gen.secrets()),
                'cores': st.sampled_from(['all', 1]),
            }
        ),
        pair,
        1600,
        60000,
    ),
    Sub('distinct', st.fixed_dictionaries({'n': st.integers(1, 40)}), distinct, 40, 400, shards=2),
    Sub('vanity', st.fixed_dictionaries({'prefix': prefixes, 'cores': cores, 'long': st.booleans()}), vanity, 64, 1000),
    Sub(
        'refused',
        st.fixed_dictionaries(
            {
                'a': st.text(ALPHABET, max_size=4),
                'b': st.text(ALPHABET, max_size=4),
                'bad': st.one_of(
                    st.sampled_from(['0', 'O', 'I', 'l', ' ', '-', 'é', '١', '\n']),
                    st.characters(exclude_characters=ALPHABET),
                ),
            }
        ),
        refused,
        600,
        20000,
    ),
]
