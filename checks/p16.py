# -*- coding: utf-8 -*-
"""P16 streaming readers: the same bytes for every read pattern."""
import io
import itertools
import zlib

from mc import cli
from mc import hwp
from mc.core import Family, Violation, expect, expect_equal

PROPERTY = 'P16'
LEVEL = 'exploration'
RULE = ('a case is one source (content, how it is delivered) and one sequence '
        'of reads on one reader; non-trivial when a read is made')
ASSUMPTIONS = ['a source returns no bytes only at its end',
               'the compressed data is a whole deflate stream']


def content(kind, n):
    if kind == 'z':
        return b'\0' * n
    if kind == 't':
        return (b'the quick brown fox %d. ' * (n // 20 + 1))[:n]
    # hardly compressible, deterministic
    out = bytearray()
    x = 12345
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(x >> 16 & 255)
    return bytes(out)


def compress(data, how):
    if how == 'parts':                 # several blocks, flushed between
        c = zlib.compressobj(6, zlib.DEFLATED, -15)
        n = max(1, len(data) // 5)
        out = b''
        for i in range(0, len(data), n):
            out += c.compress(data[i:i + n]) + c.flush(
                zlib.Z_FULL_FLUSH if i % 2 else zlib.Z_SYNC_FLUSH)
        return out + c.flush()
    c = zlib.compressobj(how, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


class Source(object):
    """delivers at most the given sizes, cyclically"""

    def __init__(self, data, sizes):
        self.f = io.BytesIO(data)
        self.sizes = itertools.cycle(sizes) if sizes else None
        self.closed = False

    def read(self, size=-1):
        if size is None or size < 0 or self.sizes is None:
            return self.f.read(size)
        return self.f.read(min(size, next(self.sizes)))

    def tell(self):
        return self.f.tell()

    def close(self):
        self.closed = True


def drive(f, data, reads, what, tell=False, strict=True, then=None):
    """the reads, then the rest by ``then`` (size, None: all at once)"""
    pos = 0
    out = []

    def one(n):
        nonlocal pos
        got = f.read() if n is None else f.read(n)
        want = data[pos:] if n is None or n < 0 else data[pos:pos + n]
        if got != want:
            raise Violation(
                '%s: read(%s) at %d of %d gave %d units%s, expected %d'
                % (what, '' if n is None else n, pos, len(data), len(got),
                   '' if data[pos:pos + len(got)] != got else ' (prefix)',
                   len(want)))
        pos += len(got)
        out.append(len(got))
        if tell:
            expect_equal(f.tell(), pos, '%s: position after read(%s)'
                         % (what, n))
    for n in reads:
        one(n)
    if then is None:
        one(None)
        one(None)
    else:
        while pos < len(data):
            one(then)
        one(then)
    one(1)
    return out


# ---- generated streams

def gen_cases(tier):
    q = tier == 'quick'
    chunks = [c for n in range(4 if q else 5)
              for c in itertools.product((0, 1, 2, 5), repeat=n)]
    reads = [r for n in range(4) for r in itertools.product(
        (None, 0, 1, 2, 3, 7), repeat=n)
        if None not in r[:-1] or n < 3]
    for c in chunks:
        yield {'c': list(c), 'r': [list(r) for r in reads]}


def gen_run(case):
    from hwp5.utils import GeneratorReader
    from hwp5.utils import GeneratorTextReader
    base = 'abcdefghijklmnopqrstuvwxyz\uac00\u3042'
    parts = []
    at = 0
    for n in case['c']:
        parts.append(base[at:at + n])
        at += n
    text = ''.join(parts)
    out = []
    for reads in case['r']:
        for then in (None, 2):
            f = GeneratorTextReader(p for p in parts)
            out.append(drive(f, text, reads, 'text %r' % (reads,),
                             then=then))
            f = GeneratorReader(p.encode('latin1', 'replace') for p in parts)
            out.append(drive(f, text.encode('latin1', 'replace'), reads,
                             'bytes %r' % (reads,), then=then))
            f.close()
    return out


# ---- inflating

SIZES = (0, 1, 2, 100, 4095, 4096, 4097, 8195, 8196, 8197, 16391, 16392,
         16393, 40000, 100000)
READS = ([], [0], [1], [10, 10], [4096, 4096], [8196, 1], [8197], [100000],
         [1, 8195, 8196, 8197, 0, 3], [5000, None], [None, 5],
         [20000, 0, 1], [65536, 65536])
DELIVER = ([], [1], [2, 3], [100], [4095], [4096, 1], [8195], [8195, 8196],
           [8196, 1], [0x10000])


def inflate_cases(tier):
    q = tier == 'quick'
    for n in SIZES:
        for kind in 'ztr':
            for how in (0, 1, 6, 9, 'parts'):
                for d in DELIVER:
                    if d and max(d) < 10 and n > (9000 if q else 50000) and \
                            kind != 'z':
                        continue
                    if q and how in (1, 9) and d not in ([], [100]):
                        continue
                    yield {'n': n, 'k': kind, 'z': how, 'd': d}


BIG = (65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1,
       3000000, (1 << 24) + 1)


def big_cases(tier):
    for n in BIG:
        for kind in 'zt' if n > 4000000 else 'ztr':
            for how in (0, 6, 'parts'):
                yield {'n': n, 'k': kind, 'z': how}


def big_run(case):
    n = case['n']
    data = content(case['k'], n)
    comp = compress(data, case['z'])
    out = []
    for name, make, tell in readers(comp, []):
        for reads in ([], [65536, 1], [n - 1], [n + 1], [n // 2, n // 2]):
            out.append(drive(make(), data, reads, '%s %r' % (name, reads),
                             tell, then=None))
        out.append(drive(make(), data, [], name, tell, then=65536))
    r = cli.run('hwp5proc', ['rawunz'], stdin=comp)
    expect_equal(r.code, 0, 'exit status')
    expect(r.out == data, 'output of rawunz for %d bytes' % n)
    return out


def readers(comp, d):
    from hwp5 import compressed
    from hwp5 import zlib_raw_codec
    yield 'decompress', lambda: compressed.decompress(Source(comp, d)), False
    yield ('decompress_experimental',
           lambda: compressed.decompress_experimental(Source(comp, d)), False)
    yield ('small buffer', lambda: compressed.decompress_experimental(
        Source(comp, d), 1000), False)
    yield ('StreamReader',
           lambda: zlib_raw_codec.StreamReader(Source(comp, d)), True)


def inflate_run(case):
    data = content(case['k'], case['n'])
    comp = compress(data, case['z'])
    out = []
    for name, make, tell in readers(comp, case['d']):
        for reads in READS:
            for then in (None, 3000):
                if then and len(data) > 20000 and len(reads) > 2:
                    continue
                out.append(drive(make(), data, reads,
                                 '%s %r' % (name, reads), tell, then=then))
    return out


def small_cases(tier):
    """every sequence of small reads, every way to deliver"""
    q = tier == 'quick'
    for n in (0, 1, 3, 8):
        for how in (0, 6, 'parts'):
            for d in ([], [1], [2], [3, 1]):
                for k in range(3 if q else 4):
                    for r in itertools.product((0, 1, 2, 3, 5, 9, None),
                                               repeat=k):
                        yield {'n': n, 'z': how, 'd': d, 'r': list(r)}


def small_run(case):
    data = content('r', case['n'])
    comp = compress(data, case['z'])
    out = []
    for name, make, tell in readers(comp, case['d']):
        for then in (None, 1, 2):
            out.append(drive(make(), data, case['r'], name, tell, then=then))
    from hwp5.compressed import decompress_gen
    for bufsize in (1, 2, 3, 8, 64):
        got = b''.join(decompress_gen(Source(comp, case['d']), bufsize))
        expect_equal(got, data, 'decompress_gen by %d' % bufsize)
    return out


# ---- the command

def rawunz_cases(tier):
    for n in SIZES + (16384, 65536, 300000):
        for kind in 'ztr':
            for how in (0, 6, 'parts'):
                yield {'n': n, 'k': kind, 'z': how}


def rawunz_run(case):
    data = content(case['k'], case['n'])
    r = cli.run('hwp5proc', ['rawunz'], stdin=compress(data, case['z']))
    expect_equal(r.code, 0, 'exit status')
    expect_equal(r.out, data, 'output of rawunz')
    return len(r.out)


# ---- compressing and back

def splits(n, parts):
    for cut in itertools.combinations_with_replacement(range(n + 1),
                                                       parts - 1):
        yield (0,) + cut + (n,)


def codec_cases(tier):
    q = tier == 'quick'
    for kind in 'ztr':
        for n in range(0, 7):
            for parts in (1, 2, 3) if q else (1, 2, 3, 4):
                for cut in splits(n, parts):
                    yield {'n': n, 'k': kind, 'cut': list(cut)}
        for n in (100, 4096, 40000, 200000):
            for cut in ([0, n], [0, 0, n], [0, n, n], [0, 1, n],
                        [0, n // 2, n], [0, n // 3, n // 2, n],
                        list(range(0, n + 1, n // 50))):
                if cut[-1] != n:
                    cut.append(n)
                yield {'n': n, 'k': kind, 'cut': cut}


def pieces(data, cut):
    return [data[a:b] for a, b in zip(cut, cut[1:])]


def inc(coder, parts, mode):
    """mode: the last part is final, or an empty final part follows"""
    out = b''
    for i, p in enumerate(parts):
        last = mode == 'last' and i == len(parts) - 1
        f = coder.encode if hasattr(coder, 'encode') else coder.decode
        out += f(p, True) if last else f(p)
    if mode == 'empty':
        f = coder.encode if hasattr(coder, 'encode') else coder.decode
        out += f(b'', True)
    return out


def codec_run(case):
    from hwp5 import compressed
    from hwp5 import zlib_raw_codec as z
    data = content(case['k'], case['n'])
    enc, used = z.zlib_raw_encode(data)
    expect_equal(used, len(data), 'input used by the encoder')
    expect_equal(zlib.decompressobj(-15).decompress(enc) , data,
                 'encoded at once')
    dec, used = z.zlib_raw_decode(enc)
    expect_equal(dec, data, 'decoded at once')
    expect_equal(used, len(enc), 'input used by the decoder')
    expect_equal(z.Codec().decode(z.Codec().encode(data)[0])[0], data,
                 'codec')
    parts = pieces(data, case['cut'])
    results = [enc]
    e = z.IncrementalEncoder()
    for mode in ('last', 'empty'):
        for again in (0, 1, 2):
            got = inc(e, parts, mode)
            d = zlib.decompressobj(-15)
            try:
                back = d.decompress(got) + d.flush()
            except zlib.error as x:
                raise Violation('encoded incrementally (%s, use %d): %s'
                                % (mode, again, x))
            expect_equal(back, data, 'encoded incrementally')
            expect(d.eof and not d.unused_data,
                   'not one whole deflate stream (%s)' % mode)
            results.append(got)
            if again == 1:
                # abandoned in the middle
                e.reset()
                e.encode(data)
            e.reset()
    for comp in (enc, results[1], compress(data, 0)):
        cuts = [[0, len(comp)], [0, 0, len(comp)], [0, 1, len(comp)],
                [0, len(comp) // 2, len(comp)],
                [0, max(0, len(comp) - 1), len(comp)]]
        if len(comp) < 40:
            cuts += [list(c) for c in splits(len(comp), 3)]
            cuts.append(list(range(len(comp) + 1)))
        for cls in (z.IncrementalDecoder,
                    lambda: compressed.ZLibIncrementalDecoder(wbits=-15)):
            dec = cls()
            for cut in cuts:
                for mode in ('last', 'empty'):
                    expect_equal(inc(dec, pieces(comp, cut), mode), data,
                                 'decoded incrementally %r' % (cut[:4],))
                    dec.reset()
    return results[-1]


# ---- streams of documents

def view_cases(tier):
    for name in (['FileHeader'], ['DocInfo'], ['DocInfo.records'],
                 ['DocInfo.xml'], ['DocInfo.models'],
                 ['BodyText', 'Section0'], ['BodyText', 'Section0.records'],
                 ['BodyText', 'Section0.models'],
                 ['BodyText', 'Section0.xml'], ['PrvText'],
                 ['FileHeader.txt'],
                 ['BinData', 'BIN0001.jpg'],
                 ['\x05HwpSummaryInformation.txt']):
        for flags in (0, 1):
            for n in (1, 2, 3, 7, 64, 1000, 4096, 100000):
                yield {'name': name, 'flags': flags, 'n': n}
    for name in (['ViewText', 'Section0'], ['ViewText', 'Section0.records'],
                 ['ViewText', 'Section0.xml']):
        for n in (1, 3, 64, 4096):
            yield {'name': name, 'flags': 5, 'n': n}


def view_run(case):
    from hwp5.xmlmodel import Hwp5File
    from mc import doc
    sec = doc.stream([doc.secpara(['hello', 13]), doc.para(['\uac00', 13])],
                     (5, 0, 1, 7))
    t = hwp.tree(flags=case['flags'], docinfo_bytes=hwp.docinfo(),
                 sections=[sec], prvtext='pre\uac00view' * 20,
                 viewtext=[sec] if case['flags'] & 4 else None,
                 bindata={'BIN0001.jpg': content('r', 9000)},
                 summary=hwp.summaryinfo())
    from hwp5.storage import ExtraItemStorage
    from hwp5.storage import open_storage_item
    f = ExtraItemStorage(Hwp5File(hwp.Storage(t)))

    def get():
        item = f
        for name in case['name']:
            item = item[name]
        return item.open()
    data = get().read()
    pos = 0
    x = get()
    while True:
        got = x.read(case['n'])
        expect_equal(got, data[pos:pos + case['n']],
                     'read(%d) at %d' % (case['n'], pos))
        if not got:
            break
        pos += len(got)
    expect_equal(pos, len(data), 'length read')
    x = get()
    a = x.read(case['n'])
    expect_equal(a + x.read(), data, 'sized read, then the rest')
    return data


FAMILIES = [
    Family('generated', gen_cases, gen_run),
    Family('inflate', inflate_cases, inflate_run),
    Family('big', big_cases, big_run, limit=120),
    Family('small', small_cases, small_run),
    Family('rawunz', rawunz_cases, rawunz_run),
    Family('codec', codec_cases, codec_run),
    Family('views', view_cases, view_run),
]
