# -*- coding: utf-8 -*-
"""P17 distribution streams: decode, key and hash for every key."""
import binascii
import hashlib
import io
import itertools
import os
import sys

from mc import cli
from mc import hwp
from mc import rec
from mc.core import Family, Violation, expect, expect_equal

PROPERTY = 'P17'
LEVEL = 'exploration'
RULE = ('a case is one distribution stream made by an independent encoder '
        '(or one stream to be refused) and one way to decode it')
ASSUMPTIONS = ['the cipher backends available here are cryptography and '
               'openssl', 'content is padded with zeros to whole cipher '
               'blocks by the writer']


def make(seed, sha1, content, filler=0):
    head = hwp.dist_head(seed, sha1.encode('utf-16le'), filler)
    key = sha1.encode('utf-16le')[:16]
    body = hwp.aes_ecb_encrypt(key, content + b'\0' * (-len(content) % 16))
    return head, key, rec.encode([(28, 0, head)]) + body


def pw(s):
    return hashlib.sha1(s.encode()).hexdigest().upper()


def data_of(n):
    return bytes((i * 7 + i // 256) & 255 for i in range(n))


# ---- heads: key and hash for every seed

def head_cases(tier):
    step = 256
    for base in range(0, 1 << 16, step):
        yield {'seeds': [base, base + step, 1], 'f': base >> 8 & 255}
    # each 16 bit pattern in the high half, each offset in the low
    n = 1 << 16
    for base in range(0, n, step):
        yield {'seeds': [base << 16 | base >> 8 & 15,
                         (base + step) << 16 | base >> 8 & 15, 1 << 16],
               'f': 0}
    for k in range(32):
        for off in range(16):
            yield {'seeds': [(1 << k) & ~15 | off, ((1 << k) & ~15 | off) + 1,
                             1], 'f': k}
            yield {'seeds': [(2**32 - 1 - (1 << k)) & ~15 | off,
                             ((2**32 - 1 - (1 << k)) & ~15 | off) + 1, 1],
                   'f': k}
    if tier != 'quick':
        for base in range(0, 1 << 32, 1 << 20):
            for off in range(0, 1 << 20, 1 << 14):
                yield {'seeds': [base + off * 3, base + off * 3 + 8, 1],
                       'f': 7}


SHA = [pw('12345'), '0' * 40, 'F' * 40, 'f' * 40, '0123456789ABCDEF' * 2 +
       '01234567', pw('')]


def head_run(case):
    from hwp5.distdoc import decode_head_to_key
    from hwp5.distdoc import decode_head_to_sha1
    n = 0
    for i, seed in enumerate(range(*case['seeds'])):
        seed &= 0xffffffff
        sha1 = SHA[(i + case['f']) % len(SHA)]
        head = hwp.dist_head(seed, sha1.encode('utf-16le'), case['f'])
        got = bytes(decode_head_to_sha1(head))
        if got != sha1.encode('utf-16le'):
            raise Violation('hash for seed %08x: %r, expected %r'
                            % (seed, got, sha1))
        got = bytes(decode_head_to_key(head))
        if got != sha1.encode('utf-16le')[:16]:
            raise Violation('key for seed %08x: %r, expected %r'
                            % (seed, got, sha1))
        n += 1
    return n, head


# ---- hashes

def hash_cases(tier):
    digits = '0123456789abcdefABCDEF'
    for pos in range(40):
        for d in digits:
            for fill in ('0', 'F', 'a'):
                yield {'sha1': fill * pos + d + fill * (39 - pos),
                       'seed': pos * 0x01010101 + ord(d), 'f': pos}
    for i in range(256):
        yield {'sha1': pw('pw%d' % i), 'seed': i << 8 | i & 15, 'f': i}


def backend(name):
    """-> context: only the named cipher is available"""
    class C(object):
        def __enter__(self):
            self.saved = {}
            if name == 'openssl':
                for m in list(sys.modules):
                    if m.split('.')[0] == 'cryptography':
                        self.saved[m] = sys.modules.pop(m)
                sys.modules['cryptography'] = None

        def __exit__(self, *a):
            if name == 'openssl':
                del sys.modules['cryptography']
                sys.modules.update(self.saved)
    return C()


def hash_run(case):
    return one(case['seed'] & 0xffffffff, case['sha1'], data_of(32),
               case['f'], ('lib', 'sha1', 'key', 'rawsha1', 'rawkey', 'cli'))


def one(seed, sha1, content, filler, ways, which='cryptography', comp=False):
    from hwp5 import distdoc
    plain = hwp.deflate(content) if comp else content
    head, key, stream = make(seed, sha1, plain, filler)
    padded = plain + b'\0' * (-len(plain) % 16)
    out = []
    for way in ways:
        with backend(which):
            if way == 'lib':
                got, want = distdoc.decode(io.BytesIO(stream)).read(), padded
            elif way == 'cli':
                r = cli.run('hwp5proc', ['diststream'], stdin=stream)
                expect_equal(r.code, 0, 'exit status')
                got, want = r.out, padded
            elif way in ('sha1', 'key', 'rawsha1', 'rawkey'):
                args = ['diststream', '--' + way.replace('raw', '')]
                if way.startswith('raw'):
                    args.append('--raw')
                r = cli.run('hwp5proc', args, stdin=stream)
                expect_equal(r.code, 0, 'exit status of %s' % way)
                got = r.out
                want = binascii.unhexlify(sha1) if way.endswith('sha1') \
                    else key
                if not way.startswith('raw'):
                    want = binascii.hexlify(want)
            else:
                got, want = document(way, stream, content, comp, head, key,
                                     sha1, plain)
        expect_equal(got, want, '%s for seed %08x' % (way, seed))
        out.append(got)
    return out


def document(way, stream, content, comp, head, key, sha1, plain):
    from hwp5.filestructure import Hwp5DistDocStream
    from hwp5.filestructure import Hwp5File
    flags = 4 | (1 if comp else 0)
    t = {'FileHeader': hwp.fileheader((5, 0, 1, 7), flags),
         'DocInfo': b'', 'BodyText': {}}
    t[way.split('/')[0]] = {way.split('/')[1]: stream}
    f = Hwp5File(hwp.Storage(t))
    a, b = way.split('/')[:2]
    got = f[a][b].open().read()
    want = content if comp else \
        content + b'\0' * (-len(content) % 16)
    expect_equal(got, want, way)
    d = Hwp5DistDocStream(hwp.Stream(stream), None)
    expect_equal(bytes(d.head()), head, 'head')
    expect_equal(d.head_stream().read(), head, 'head stream')
    expect_equal(bytes(d.head_key()), key, 'head key')
    expect_equal(bytes(d.head_sha1()), sha1.encode('utf-16le'), 'head sha1')
    expect_equal(d.tail(), stream[260:], 'tail')
    expect_equal(d.tail_stream().read(), stream[260:], 'tail stream')
    expect_equal(d.tail_decrypted(),
                 plain + b'\0' * (-len(plain) % 16), 'tail decrypted')
    return got, want


# ---- contents, every way, every backend

WAYS = ('lib', 'cli', 'Scripts/DefaultJScript', 'ViewText/Section0')


def content_cases(tier):
    q = tier == 'quick'
    sizes = list(range(0, 50)) + [255, 256, 257, 4079, 4080, 4096, 8192,
                                  65536, 100000]
    for n in sizes:
        for comp in (0, 1):
            for seed in (0, 15, 0xffffffff) if q else range(16):
                for b in ('cryptography', 'openssl'):
                    if b == 'openssl' and q and seed:
                        continue
                    yield {'n': n, 'c': comp, 'seed': seed, 'b': b}
    for off in range(16):
        for b in ('cryptography', 'openssl'):
            for p in ('', 'a', '12345', '\uac00', 'x' * 100):
                yield {'n': 64, 'c': off & 1, 'seed': off * 0x11111111 & ~15 |
                       off, 'b': b, 'p': p}


def content_run(case):
    return one(case['seed'], pw(case.get('p', '12345')), data_of(case['n']),
               5, WAYS + ('key', 'sha1'), case['b'], bool(case['c']))


# ---- refused

def refuse_cases(tier):
    for tag in range(1024):
        if tag != 28:
            yield {'tag': tag, 'size': 256}
    for size in list(range(0, 600)) + [4094, 4095, 4096, 70000]:
        if size != 256:
            yield {'tag': 28, 'size': size}
    for tag in (0, 16, 27, 29, 66, 1023):
        for size in (0, 4, 255, 257):
            yield {'tag': tag, 'size': size}
    for cut in range(0, 260):
        yield {'cut': cut}


def refuse_run(case):
    from hwp5 import distdoc
    from hwp5.filestructure import Hwp5File
    head, key, stream = make(77, pw('12345'), data_of(48))
    if 'cut' in case:
        stream = stream[:case['cut']]
    else:
        payload = (head * 300)[:case['size']]
        stream = rec.encode([(case['tag'], 0, payload)]) + stream[260:]
    try:
        got = distdoc.decode(io.BytesIO(stream))
    except Exception as e:
        res = [type(e).__name__]
    else:
        raise Violation('decoded %r' % got.read()[:50])
    for args in ([], ['--sha1'], ['--key'], ['--key', '--raw']):
        r = cli.run('hwp5proc', ['diststream'] + args, stdin=stream)
        expect(r.code != 0, 'diststream %s succeeded: %r'
               % (' '.join(args), r.out[:60]))
        expect_equal(r.out, b'', 'output of refused diststream')
    t = {'FileHeader': hwp.fileheader((5, 0, 1, 7), 4), 'DocInfo': b'',
         'BodyText': {}, 'Scripts': {'S': stream},
         'ViewText': {'Section0': stream}}
    f = Hwp5File(hwp.Storage(t))
    for path in (('Scripts', 'S'), ('ViewText', 'Section0')):
        try:
            got = f[path[0]][path[1]].open().read()
        except Exception as e:
            res.append(type(e).__name__)
        else:
            raise Violation('%s of the document decoded %r'
                            % ('/'.join(path), got[:50]))
    return res


def partial_cases(tier):
    """content that is not whole cipher blocks"""
    for n in range(1, 33):
        for b in ('cryptography', 'openssl'):
            if n % 16:
                yield {'n': n, 'b': b}


def partial_run(case):
    from hwp5 import distdoc
    head, key, stream = make(77, pw('12345'), data_of(48))
    with backend(case['b']):
        try:
            got = distdoc.decode(io.BytesIO(stream[:260 + case['n']])).read()
        except Exception:
            got = None
        expect(got is None, 'a partial cipher block was decoded: %r' % got)
        r = cli.run('hwp5proc', ['diststream'],
                    stdin=stream[:260 + case['n']])
        expect(r.code != 0, 'diststream succeeded on a partial block')
    return case['n']


FAMILIES = [
    Family('heads', head_cases, head_run),
    Family('hashes', hash_cases, hash_run),
    Family('contents', content_cases, content_run),
    Family('refused', refuse_cases, refuse_run),
    Family('partial', partial_cases, partial_run),
]
