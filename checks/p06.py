# -*- coding: utf-8 -*-
"""P06 paragraph text payload -> chunks, against a code-unit model."""
import io
import itertools
import struct

from mc import rec
from mc.core import Family, TRIVIAL, Violation, expect, expect_equal

from hwp5.binmodel import ModelStream
from hwp5.dataio import ParseError
from hwp5.storage import Open2Stream

PROPERTY = 'P06'
LEVEL = 'exploration'
RULE = ('a case is one paragraph text payload given as a list of tokens '
        '(ordinary code units, character controls, 8-unit controls with '
        'parameters) or raw code units; non-trivial when non-empty')
ASSUMPTIONS = ['payloads up to the stated number of tokens from an alphabet '
               'holding every control code and the unit values that collide '
               'with control bytes']

CHARCTL = [0x00, 0x0a, 0x0d] + list(range(0x18, 0x20))
EXTCTL = [0x01, 0x02, 0x03, 0x0b, 0x0c, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x15,
          0x16, 0x17]
INLCTL = [0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x13, 0x14]
WIDE = sorted(EXTCTL + INLCTL)

# parameter fills (12 bytes between the two code units)
FILLS = {
    'z': b'\0' * 12,
    'c': b'dces' + bytes(range(8)),
    # control-like units inside the parameters
    'k': struct.pack('<6H', 0x000d, 0x0009, 0x0003, 0x000b, 0x001f, 0x0004),
    'x': b'\x0d\x00\x0a\xff\x00\x0b\x00\x03\x00\x09\xfe\x01',
}

# ordinary code units: plain, with control-like bytes in either half,
# surrogates, non-characters, private use
UNITS = [0x20, 0x41, 0xac00, 0x0100, 0x0d00, 0x1541, 0x4100, 0x0b0b, 0x1f1f,
         0x0020, 0x0a0d, 0xd83d, 0xde00, 0xdc00, 0xfffe, 0xffff, 0xe000,
         0x7f, 0x80, 0x1300]


def tok_bytes(t):
    if isinstance(t, int):
        return struct.pack('<H', t)
    code, fill = t
    c = struct.pack('<H', code)
    return c + FILLS[fill] + c


def model(data):
    """chunks of a payload, or None when it ends inside a control"""
    units = struct.unpack('<%dH' % (len(data) // 2), data)
    n = len(units)
    out = []
    i = 0
    run = None
    while i < n:
        u = units[i]
        if u >= 0x20:
            if run is None:
                run = i
            i += 1
            continue
        if run is not None:
            out.append(((run, i), text(data[run * 2:i * 2])))
            run = None
        if u in CHARCTL:
            out.append(((i, i + 1), {'code': u}))
            i += 1
            continue
        if i + 8 > n:
            return None
        p = data[i * 2 + 2:i * 2 + 14]
        if u == 0x09:
            d = {'code': u, 'param': {
                'width': struct.unpack('<I', p[:4])[0],
                'unknown0': p[4], 'unknown1': p[5], 'unknown2': p[6:]}}
        else:
            d = {'code': u, 'chid': p[:4][::-1].decode('latin1'),
                 'param': p[4:]}
        out.append(((i, i + 8), d))
        i += 8
    if run is not None:
        out.append(((run, n), text(data[run * 2:])))
    return out


def text(b):
    return b.decode('utf-16le', 'surrogatepass')


def parse(data):
    stream = rec.encode([(66, 0, b'\0' * 22), (67, 1, data)])
    s = ModelStream(Open2Stream(lambda: io.BytesIO(stream)), (5, 0, 1, 7))
    ms = list(s.models())
    m = ms[1]
    expect_equal(m['type'].__name__, 'ParaText', 'type')
    expect_equal(m.get('unparsed', b''), b'', 'remainder')
    return [(tuple(r), c) for r, c in m['content']['chunks']]


def check(data):
    want = model(data)
    try:
        got = parse(data)
    except ParseError:
        if want is None:
            return 'cut'
        raise
    if want is None:
        raise Violation('a control cut off by the end of %r is decoded '
                        'to %r' % (data[-20:], got[-1:]))
    # coverage, stated independently of the expected chunks
    pos = 0
    for (a, b), c in got:
        if a != pos or b <= a:
            raise Violation('gap or overlap at %d: %r' % (pos, got))
        pos = b
    expect_equal(pos, len(data) // 2, 'code units covered')
    expect_equal(got, want, 'chunks')
    for (a, b), c in got:
        if isinstance(c, str):
            expect_equal(c.encode('utf-16le', 'surrogatepass'),
                         data[a * 2:b * 2], 'text run')
    return want


def tokens_run(case):
    data = b''.join(tok_bytes(t) for t in case['t'])
    data = data[:len(data) - 2 * case.get('cut', 0)]
    if not data:
        return TRIVIAL
    return check(data)


def alphabet():
    a = list(UNITS) + list(CHARCTL)
    for c in WIDE:
        for f in ('c', 'k', 'x', 'z'):
            a.append((c, f))
    return a


SMALL = [0x41, 0xac00, 0x1541, 0x4100, 0x0d00, 0x0d, 0x0a, 0x1f, 0,
         (0x0b, 'c'), (0x03, 'k'), (0x04, 'x'), (0x09, 'k'), (0x09, 'z'),
         (0x15, 'z'), 0xd83d, 0xde00, 0x18]
TINY = [0x41, 0x1541, 0x4100, 0x0d, (0x0b, 'k'), (0x04, 'x'), (0x09, 'k'), 0]


def tokens_cases(tier):
    q = tier == 'quick'
    full = alphabet()
    for n in (0, 1, 2):
        for t in itertools.product(full, repeat=n):
            yield {'t': list(t)}
    for n in (3, 4) if q else (3, 4, 5):
        for t in itertools.product(SMALL, repeat=n):
            yield {'t': list(t)}
    for n in (5,) if q else (5, 6, 7):
        for t in itertools.product(TINY, repeat=n):
            yield {'t': list(t)}


def cut_cases(tier):
    """payload ends inside the last control"""
    for n in (0, 1, 2):
        pre = itertools.product(TINY, repeat=n)
        for p in pre:
            for c in WIDE:
                for f in ('c', 'k', 'z'):
                    for cut in range(1, 8):
                        yield {'t': list(p) + [(c, f)], 'cut': cut}


def units_run(case):
    data = struct.pack('<%dH' % len(case['u']), *case['u'])
    if not data:
        return TRIVIAL
    return check(data)


def units_cases(tier):
    """every sequence of raw code units, controls at any alignment"""
    q = tier == 'quick'
    for u in range(0x10000):
        yield {'u': [u]}
        yield {'u': [0x41, u, 0x41]}
    A = [0x41, 0x1541, 0x0d, 0x0b, 0x09, 0x0d00]
    for n in range(2, 7 if q else 8):
        for u in itertools.product(A, repeat=n):
            yield {'u': list(u)}
    # an 8-unit control with controls at every position inside it
    for code in (0x0b, 0x09, 0x04):
        for u in itertools.product([0x41, 0x0d, 0x0b], repeat=7):
            yield {'u': [code] + list(u) + [0x42]}


def odd(case):
    """an odd number of bytes is never silently rounded"""
    data = b''.join(tok_bytes(t) for t in case['t']) + bytes([case['b']])
    try:
        got = parse(data)
    except ParseError:
        return 'refused'
    raise Violation('an odd payload of %d bytes decoded to %r'
                    % (len(data), got))


def odd_cases(tier):
    for n in (0, 1, 2):
        for t in itertools.product(TINY, repeat=n):
            for b in (0, 0x0d, 0x0b, 0x41, 0xff):
                yield {'t': list(t), 'b': b}


def long_run(case):
    k, n, t = case['k'], case['n'], case['t']
    data = tok_bytes(k) * n + tok_bytes(t) + tok_bytes(k) * n
    return check(data) and n


def long_cases(tier):
    for k in (0x41, 0x1541, 0x0a):
        for n in (255, 256, 4095, 4096, 70000):
            for t in [0x0d, (0x0b, 'k'), (9, 'c'), 0xac00]:
                yield {'k': k, 'n': n, 't': t}


FAMILIES = [Family('tokens', tokens_cases, tokens_run),
            Family('cut', cut_cases, tokens_run),
            Family('units', units_cases, units_run),
            Family('odd', odd_cases, odd),
            Family('long', long_cases, long_run)]
