# -*- coding: utf-8 -*-
"""P01 record framing: real writer/reader vs an independent framing model."""
import io
import itertools
import json

from mc import rec
from mc.core import Family, Violation, expect, expect_equal

from hwp5.recordstream import Record
from hwp5.recordstream import RecordStream
from hwp5.recordstream import dump_record
from hwp5.recordstream import read_record
from hwp5.recordstream import read_records
from hwp5.storage import Open2Stream

PROPERTY = 'P01'
LEVEL = 'exploration'
RULE = ('a case is a record list (tag, level, payload size) from the '
        'boundary alphabet and, for truncation, every cut point of its '
        'encoding; non-trivial when at least one record is framed')
ASSUMPTIONS = ['tag and level are 10 bit, sizes above 0x1001 behave like '
               '0x1001 except for one 64 KiB+ and one 1 MiB case']

SIZES = [0, 1, 2, 3, 4, 255, 256, 0xffd, 0xffe, 0xfff, 0x1000, 0x1001]
TAGS = [0, 1, 15, 16, 66, 0x3fe, 0x3ff]
LEVELS = [0, 1, 2, 0x1ff, 0x200, 0x3fe, 0x3ff]


def payload_of(size, k):
    return rec.pattern(size, k)


def as_tuple(r):
    return (r['tagid'], r['level'], bytes(r['payload']))


class OneByOne(io.RawIOBase):
    """a source that is not seekable"""
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)

    def tell(self):
        raise IOError('not seekable')


def roundtrip(case):
    triples = [(t, l, payload_of(s, k)) for k, (t, l, s) in
               enumerate(case['records'])]
    want = rec.encode(triples)
    out = io.BytesIO()
    for t, l, p in triples:
        r = Record(t, l, p)
        expect_equal(r['size'], len(p), 'size of a new record')
        dump_record(out, r)
    expect_equal(out.getvalue(), want, 'written bytes')

    for src in (io.BytesIO(want), OneByOne(want)):
        got = list(read_records(src))
        expect_equal([as_tuple(r) for r in got], triples, 'records read')
        expect_equal([r['size'] for r in got], [len(p) for _, _, p in
                                                triples], 'record sizes')
        expect_equal([r['seqno'] for r in got], list(range(len(got))),
                     'sequence numbers')
    # frames are consumed exactly, trailing data is left alone
    src = io.BytesIO(want + b'\x11\x22\x33\x44\x55')
    off = 0
    for i, (t, l, p) in enumerate(triples):
        r = read_record(src, i)
        off += (4 if len(p) < 0xfff else 8) + len(p)
        expect_equal(as_tuple(r), (t, l, p), 'record %d' % i)
        expect_equal(src.tell(), off, 'bytes consumed after record %d' % i)
    expect_equal(src.read(), b'\x11\x22\x33\x44\x55', 'data after records')
    # write back what was read
    out = io.BytesIO()
    for r in read_records(io.BytesIO(want)):
        dump_record(out, r)
    expect_equal(out.getvalue(), want, 'bytes written back')
    stream = RecordStream(Open2Stream(lambda: io.BytesIO(want)), (5, 0, 1, 7))
    again = [as_tuple(r) for r in stream.records()]
    expect_equal(again, triples, 'records of the stream object')
    expect_equal([as_tuple(stream.record(i)) for i in range(len(triples))],
                 triples, 'records by index')
    expect_equal(stream.record(len(triples)), None, 'record past the end')
    return digestible(want)


def digestible(data):
    return (len(data), data[:64], data[-64:])


def header_cases(tier):
    # every tag, every level, every size class, alone
    for t in range(0x400):
        yield {'records': [[t, 0, 0]]}
        yield {'records': [[t, 0x3ff, 5]]}
    for l in range(0x400):
        yield {'records': [[0, l, 0]]}
        yield {'records': [[0x3ff, l, 1]]}
    top = 0x1100 if tier == 'quick' else 0x2200
    for s in range(0, top, 1):
        yield {'records': [[66, 1, s]]}
    for s in (0xfffe, 0xffff, 0x10000, 0x10001, 0xfffff, 0x100000,
              0x100001):
        yield {'records': [[66, 1, s]]}


def sequence_cases(tier):
    maxlen = 3
    sizes = [0, 1, 4, 0xffe, 0xfff, 0x1000]
    heads = [(16, 0), (0x3ff, 0x3ff), (66, 1)]
    alphabet = [[t, l, s] for s in sizes for (t, l) in heads]
    for n in range(0, maxlen + 1):
        for combo in itertools.product(alphabet, repeat=n):
            yield {'records': list(combo)}
    if tier == 'thorough':
        alphabet = [[t, l, s] for s in (0, 1, 0xffe, 0xfff)
                    for (t, l) in ((16, 0), (0x3ff, 0x3ff))]
        for n in (4, 5):
            for combo in itertools.product(alphabet, repeat=n):
                yield {'records': list(combo)}


def truncation(case):
    triples = [(t, l, payload_of(s, k)) for k, (t, l, s) in
               enumerate(case['records'])]
    data = rec.encode(triples)
    bounds = [0]
    for t, l, p in triples:
        bounds.append(bounds[-1] + (4 if len(p) < 0xfff else 8) + len(p))
    outcomes = []
    cut = case['cut']
    for src in (io.BytesIO(data[:cut]), OneByOne(data[:cut])):
        got = []
        error = None
        try:
            for r in read_records(src):
                got.append(r)
        except Exception as e:
            error = type(e).__name__
        ncomplete = max(i for i, b in enumerate(bounds) if b <= cut)
        want = triples[:ncomplete]
        expect_equal([as_tuple(r) for r in got], want,
                     'records of a stream cut at byte %d of %d'
                     % (cut, len(data)))
        if cut in bounds:
            expect(error is None, 'complete stream refused: %s' % error)
        elif cut != bounds[ncomplete]:
            expect(error is not None,
                   'a record cut off at byte %d of %d went unnoticed'
                   % (cut, len(data)))
        outcomes.append((len(got), error))
    return outcomes


def truncation_cases(tier):
    shapes = [
        [[16, 0, 0]], [[16, 0, 1]], [[66, 1, 5]], [[66, 0, 0xffe]],
        [[66, 0, 0xfff]], [[66, 0, 0x1001]],
        [[66, 0, 3], [67, 1, 0]], [[66, 0, 0], [67, 1, 4]],
        [[66, 0, 5], [67, 1, 4], [68, 1, 3]],
        [[66, 0, 2], [67, 1, 0xfff]], [[67, 1, 0xfff], [66, 0, 2]],
    ]
    for shape in shapes:
        n = len(rec.encode([(t, l, b'x' * s) for t, l, s in shape]))
        for cut in range(0, n + 1):
            yield {'records': shape, 'cut': cut}
    if tier == 'thorough':
        for a, b, c in itertools.product((0, 1, 3, 4, 7), repeat=3):
            shape = [[16, 0, a], [0x3ff, 1, b], [66, 0x3ff, c]]
            for cut in range(0, 12 + a + b + c + 1):
                yield {'records': shape, 'cut': cut}


FAMILIES = [
    Family('headers', header_cases, roundtrip),
    Family('sequences', sequence_cases, roundtrip),
    Family('truncation', truncation_cases, truncation),
]
