from hypothesis import strategies as st

import bit.base32 as b32
from lib import btc, gen
from lib.core import Sub, check, eq

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = (
    'Cases: all witness versions, program lengths 0..42 and prefixes for encoding; for decoding, strings built from '
    'valid or deliberately invalid 5-bit data (bad padding, version, length, prefix, checksum), character edits, case '
    'changes, overlong strings and random text. Trivial: an edit that leaves the text unchanged. Oracle: independent '
    'BIP 173 parser; and, for <=4 substitutions in the data part, rejection outright.'
)


def got(s):
    ver, prog = b32.decode(s)
    if ver is None:
        check(prog is None, 'half a result: %r', (ver, prog))
        return None
    return ver, bytes(prog)


def want(s):
    r = btc.segwit_parse(s)
    return None if r is None else (r[1], r[2])


def encode(c, ctx):
    hrp, ver, prog = c['hrp'], c['ver'], c['prog']
    valid = (
        hrp in ('bc', 'tb', 'bcrt')
        and ver <= 16
        and 2 <= len(prog) <= 40
        and (ver != 0 or len(prog) in (20, 32))
    )
    out = b32.encode(hrp, ver, list(prog) if c['aslist'] else prog)
    if valid:
        exp = btc.segwit_addr(hrp, ver, prog)
        eq(out, exp, 'encode')
        eq(got(exp), (ver, prog), 'decode')
        eq(got(exp.upper()), (ver, prog), 'decode upper case')
        ctx.label('valid v0' if ver == 0 else 'valid v1+')
    else:
        eq(out, None, 'encode of invalid witness program')
        ctx.label('invalid')


def decode(c, ctx):
    first = btc.bech32_raw(c['hrp'], c['vals'])
    s = list(first)
    for op, pos, val in c['edits']:
        if op == 'subst' and s:
            s[pos % len(s)] = btc.B32[val % 32]
        elif op == 'del' and s:
            del s[pos % len(s)]
        elif op == 'ins':
            s.insert(pos % (len(s) + 1), btc.B32[val % 32])
        elif op == 'any' and s:
            s[pos % len(s)] = chr(val)
        elif op == 'case' and s:
            s[pos % len(s)] = s[pos % len(s)].swapcase()
        elif op == 'upper':
            s = list(''.join(s).upper())
        elif op == 'swap' and len(s) > 1:
            p = pos % (len(s) - 1)
            s[p], s[p + 1] = s[p + 1], s[p]
        elif op == 'q' and s:  # the known insertion weakness of the checksum is judged by the oracle too
            s.insert(len(s) - 1, 'q')
        elif op == 'kelvin' and 'k' in ''.join(s).lower():  # letters whose lower or upper case is an ASCII one
            t = ''.join(s)
            s = list(t.upper().replace('K', '\u212a') if val & 1 else t.replace('k', '\u212a').replace('s', '\u017f'))
        elif op == 'space':
            s = [' '] + s if val & 1 else s + [' ']
        elif op == 'around':
            s = [chr(val)] + s if pos & 1 else s + [chr(val)]
    t = ''.join(s)
    w = want(t)
    eq(got(first), want(first), 'decode of %r' % first)
    eq(got(t), w, 'decode of %r' % t)
    ctx.label('accepted' if w else 'rejected', *[e[0] for e in c['edits']])


def substitutions(c, ctx):
    s = btc.segwit_addr(c['hrp'], c['ver'], c['prog'])
    start = len(c['hrp']) + 1
    t = list(s)
    for pos, shift in c['edits']:
        p = start + pos % (len(s) - start)
        t[p] = btc.B32[(btc.B32.index(s[p]) + shift % 32) % 32]
    t = ''.join(t)
    if t == s:
        ctx.trivial()
        eq(got(t), (c['ver'], c['prog']), 'unchanged')
        return
    if c['upper']:
        t = t.upper()
    eq(got(s), (c['ver'], c['prog']), 'intact address')
    eq(got(t), None, 'address with up to four substitutions %r' % t)
    ctx.label('%d positions' % sum(a != b for a, b in zip(s, t.lower())))


def text(c, ctx):
    eq(got(c['s']), want(c['s']), 'decode of %r' % c['s'])


hrps = st.one_of(st.sampled_from(['bc', 'tb', 'bcrt']), st.sampled_from(['bc', 'tb', 'ltc', 'bcr', 'b', 'bcc', 'tbc', 'BC', 'xn']))


@st.composite
def raw_vals(draw):
    kind = draw(st.integers(0, 4))
    ver = draw(st.one_of(st.integers(0, 16), st.integers(0, 31)))
    if kind == 0:
        return [ver] + draw(st.lists(st.integers(0, 31), max_size=72))
    n = draw(st.one_of(st.integers(0, 42), st.sampled_from([20, 32, 2, 40, 41, 1])))
    prog = draw(st.binary(min_size=n, max_size=n))
    vals = btc.to5(prog)
    if kind == 1 and vals:  # non-zero padding
        vals[-1] |= draw(st.integers(0, 31))
    if kind == 2:  # a surplus group
        vals.append(draw(st.sampled_from([0, 0, 1, 31])))
    return [ver] + vals


@st.composite
def programs(draw):
    ver, prog = draw(gen.witness_programs())
    return {'hrp': draw(st.sampled_from(['bc', 'tb', 'bcrt'])), 'ver': ver, 'prog': prog}


edits = st.lists(
    st.tuples(
        st.sampled_from(['subst', 'del', 'ins', 'any', 'case', 'upper', 'swap', 'q', 'space', 'kelvin', 'around']),
        st.integers(0, 100),
        st.integers(0, 300),
    ),
    max_size=2,
)


def grid(tier):
    out = []
    for hrp in ('bc', 'tb', 'bcrt', 'ltc', 'bcr'):
        for ver in list(range(0, 18)) + [31]:
            for n in range(0, 43):
                out.append({'hrp': hrp, 'ver': ver, 'prog': bytes((i * 37 + n) % 256 for i in range(n)), 'aslist': bool(n & 1)})
    return out


def long_strings(tier):
    around = []
    for hrp, ver, n in (('bc', 0, 20), ('tb', 1, 32), ('bcrt', 16, 2)):
        a = btc.segwit_addr(hrp, ver, bytes(range(n)))
        for x in list(map(chr, range(256))) + ['\u200b', '\ufeff', '\u2028', '\u3000', '..', 'bitcoin:']:
            around += [{'s': x + a}, {'s': a + x}, {'s': x + a + x}]
    return around + [{'s': btc.bech32_raw(hrp, [v] + [0] * n)} for hrp in ('bc', 'tb', 'bcrt') for v in (0, 1, 16) for n in range(0, 90)] + [
        {'s': s} for s in ('', '1', 'bc1', 'bc1gmk9yu', 'BC1GMK9YU', 'tb1', 'a12uel5l')
    ]


SUBS = [
    Sub(
        'encode',
        st.fixed_dictionaries(
            {
                'hrp': hrps,
                'ver': st.one_of(st.integers(0, 16), st.integers(0, 31)),
                'prog': st.one_of(st.binary(max_size=42), st.binary(min_size=20, max_size=20), st.binary(min_size=32, max_size=32)),
                'aslist': st.booleans(),
            }
        ),
        encode,
        2500,
        200000,
        enumerate_=grid,
    ),
    Sub('decode', st.fixed_dictionaries({'hrp': hrps, 'vals': raw_vals(), 'edits': edits}), decode, 8000, 500000),
    Sub(
        'substitutions',
        st.tuples(
            programs(),
            st.fixed_dictionaries(
                {
                    'edits': st.lists(st.tuples(st.integers(0, 90), st.integers(1, 31)), min_size=1, max_size=4),
                    'upper': st.booleans(),
                }
            ),
        ).map(lambda t: dict(t[0], **t[1])),
        substitutions,
        4000,
        400000,
    ),
    Sub(
        'text',
        st.fixed_dictionaries({'s': st.one_of(st.text(max_size=20), st.text(alphabet=btc.B32 + '1bBC', max_size=95))}),
        text,
        1500,
        100000,
        enumerate_=long_strings,
    ),
]
