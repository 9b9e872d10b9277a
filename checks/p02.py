# -*- coding: utf-8 -*-
"""P02 record selection/grouping vs a list model, library and command line."""
import io
import itertools
import json

from mc import cli
from mc import hwp
from mc import rec
from mc.core import Family, expect, expect_equal

from hwp5.recordstream import Hwp5File
from hwp5.recordstream import RecordStream
from hwp5.storage import Open2Stream

PROPERTY = 'P02'
LEVEL = 'exploration'
RULE = ('a case is a level sequence with distinct payloads, one selection '
        'and one output format; non-trivial when the stream or selection '
        'is not empty')
ASSUMPTIONS = ['grouping depends only on levels; payload sizes do not '
               'influence selection']

NAMES = {16: 'HWPTAG_DOCUMENT_PROPERTIES', 17: 'HWPTAG_ID_MAPPINGS',
         66: 'HWPTAG_PARA_HEADER', 67: 'HWPTAG_PARA_TEXT',
         0x3ff: 'HWPTAG1007'}
TAGS = [66, 67, 16, 0x3ff, 17, 66, 67, 16, 66]


def stream_of(levels):
    return [(TAGS[i % len(TAGS)], l, rec.pattern((i * 3) % 5, i))
            for i, l in enumerate(levels)]


def model_groups(recs):
    groups = []
    for r in recs:
        if r[1] == 0 or not groups:
            groups.append([])
        groups[-1].append(r)
    return groups


def tup(r):
    return (r['tagid'], r['level'], bytes(r['payload']))


def numbered(recs):
    return [(i,) + r for i, r in enumerate(recs)]


def ntup(r):
    return (r['seqno'], r['tagid'], r['level'], bytes(r['payload']))


def library(case):
    recs = stream_of(case['levels'])
    data = rec.encode(recs)
    recs = numbered(recs)
    groups = []
    for r in recs:
        if r[2] == 0 or not groups:
            groups.append([])
        groups[-1].append(r)
    s = RecordStream(Open2Stream(lambda: io.BytesIO(data)), (5, 0, 1, 7))

    got = [[ntup(r) for r in g] for g in s.records_treegrouped()]
    expect_equal(got, groups, 'tree groups')
    lazy = [[ntup(r) for r in g]
            for g in s.records_treegrouped(group_as_list=False)]
    expect_equal(lazy, groups, 'lazily consumed tree groups')
    n = len(recs)
    for a in range(0, n + 2):
        expect_equal(s.record(a) and ntup(s.record(a)),
                     recs[a] if a < n else None, 'record %d' % a)
        for b in range(a, n + 3):
            expect_equal([ntup(r) for r in s.records(range=(a, b))],
                         recs[a:b], 'range %d-%d' % (a, b))
    for g in range(0, len(groups) + 2):
        want = groups[g] if g < len(groups) else []
        expect_equal([ntup(r) for r in (s.records(treegroup=g) or [])], want,
                     'records(treegroup=%d)' % g)
        expect_equal([ntup(r) for r in (s.records_treegroup(g) or [])],
                     want, 'records_treegroup(%d)' % g)
    expect_equal([ntup(r) for r in s.records()], recs, 'all records')
    js = s.records_json()
    text = ''.join(js.generate())
    check_json(text, recs)
    f = s.records_json().open()
    check_json(f.read().decode('utf-8'), recs)
    # a listing does not change what is read afterwards
    expect_equal([ntup(r) for r in s.records()], recs, 'records again')
    return len(groups), n


def hexlines(payload):
    lines = []
    for i in range(0, len(payload), 16):
        lines.append(' '.join('%02x' % b for b in payload[i:i + 16]))
    return lines


def check_json(text, recs):
    got = json.loads(text)
    expect_equal(len(got), len(recs), 'number of records listed as JSON')
    for g, (i, tag, level, payload) in zip(got, recs):
        expect_equal(g['seqno'], i, 'JSON seqno')
        expect_equal(g['tagid'], tag, 'JSON tagid')
        expect_equal(g['tagname'], NAMES[tag], 'JSON tagname')
        expect_equal(g['level'], level, 'JSON level')
        expect_equal(g['size'], len(payload), 'JSON size')
        expect_equal([l for l in g['payload'] if l], hexlines(payload),
                     'JSON payload')


def command(case):
    recs = stream_of(case['levels'])
    data = rec.encode(recs)
    nrecs = numbered(recs)
    sel = case['select']
    args = []
    if sel is None:
        want = nrecs
    elif sel[0] == 'range':
        a, b = sel[1], sel[2]
        if b is None:
            args = ['--range', '%d' % a]
            want = nrecs[a:a + 1]
        else:
            args = ['--range', '%d-%d' % (a, b)]
            want = nrecs[a:b]
    else:
        groups = []
        for r in nrecs:
            if r[2] == 0 or not groups:
                groups.append([])
            groups[-1].append(r)
        args = ['--treegroup', str(sel[1])]
        want = groups[sel[1]] if sel[1] < len(groups) else []
    fmt = case['format']
    if fmt:
        args = [fmt] + args
    if case['via'] == 'stdin':
        r = cli.run('hwp5proc', ['records'] + args, stdin=data)
    else:
        flags = hwp.COMPRESSED if case['via'] == 'compressed' else 0
        t = hwp.tree(flags=flags, docinfo_bytes=data, sections=[data])
        path = hwp.write(hwp.scratch('p02.hwp'), t)
        name = {'plain': 'docinfo', 'compressed': 'bodytext/0'}[case['via']]
        r = cli.run('hwp5proc', ['records'] + args + [path, name])
    expect(r.code == 0 and r.exc is None, 'command failed: %r' % r)
    if fmt == '--raw':
        expect_equal(r.out, rec.encode([x[1:] for x in want]), '--raw')
    elif fmt == '--raw-payload':
        expect_equal(r.out, b''.join(x[3] for x in want), '--raw-payload')
    elif fmt == '--raw-header':
        h = b''
        for x in want:
            e = rec.encode([x[1:]])
            h += e[:len(e) - len(x[3])]
        expect_equal(r.out, h, '--raw-header')
    elif fmt == '--simple':
        lines = r.out.decode('utf-8').splitlines()
        expect_equal(lines, ['%04d %s %s' % (i, '  ' * l, NAMES[t])
                             for i, t, l, p in want], '--simple')
    else:
        check_json(r.out.decode('utf-8'), want)
    return r.out


def level_cases(tier):
    n, top = (6, 3) if tier == 'quick' else (8, 3)
    for seq in rec.level_sequences(n, top, wellformed=True, first=(0, 1, 2)):
        yield {'levels': seq}
    for seq in rec.level_sequences(4 if tier == 'quick' else 5, 2,
                                   wellformed=False, first=(0, 1, 2)):
        yield {'levels': seq}


FORMATS = [None, '--json', '--simple', '--raw', '--raw-header',
           '--raw-payload']


def command_cases(tier):
    shapes = [[], [0], [0, 1], [0, 0], [0, 1, 0], [0, 1, 2, 0, 1], [1, 0],
              [0, 0, 0, 1]]
    if tier == 'thorough':
        shapes = list(rec.level_sequences(5, 2, True, (0, 1)))
    for levels in shapes:
        n = len(levels)
        sels = [None]
        sels += [['range', a, None] for a in range(0, n + 2)]
        sels += [['range', a, b] for a in range(0, n + 1)
                 for b in range(a, n + 2)]
        sels += [['treegroup', g] for g in range(0, n + 1)]
        for sel in sels:
            for fmt in FORMATS:
                for via in ('plain', 'compressed', 'stdin'):
                    yield {'levels': levels, 'select': sel, 'format': fmt,
                           'via': via}


# ---- streams of many records and of many groups

def many_cases(tier):
    for size in (1, 2, 3):
        for n in (99, 100, 101, 255, 256, 257, 258, 300, 511, 512, 513,
                  1000, 1023, 1024, 1025):
            yield {'n': n, 'size': size}
    for n in (255, 256, 257, 1024, 1025, 4096, 4097):
        yield {'n': 2, 'size': n}


def many_run(case):
    levels = []
    for k in range(case['n']):
        levels += [0] + [1 + i % 3 for i in range(case['size'] - 1)]
    recs = stream_of(levels)
    data = rec.encode(recs)
    recs = numbered(recs)
    size = case['size']
    groups = [recs[i:i + size] for i in range(0, len(recs), size)]
    s = RecordStream(Open2Stream(lambda: io.BytesIO(data)), (5, 0, 1, 7))
    expect_equal([ntup(r) for r in s.records()], recs, 'all records')
    expect_equal([[ntup(r) for r in g] for g in s.records_treegrouped()],
                 groups, 'tree groups')
    expect_equal([[ntup(r) for r in g]
                  for g in s.records_treegrouped(group_as_list=False)],
                 groups, 'lazily consumed tree groups')
    near = [0, 1, 2, 98, 99, 100, 101, 254, 255, 256, 257, 258, 511, 512,
            513, 1023, 1024, 1025]
    for g in sorted(set(near + [len(groups) - 2, len(groups) - 1,
                                len(groups), len(groups) + 1])):
        want = groups[g] if 0 <= g < len(groups) else []
        if g >= 0:
            expect_equal([ntup(r) for r in (s.records(treegroup=g) or [])],
                         want, 'records(treegroup=%d)' % g)
    n = len(recs)
    for a in sorted(set(near + [n - 1, n, n + 1])):
        expect_equal(s.record(a) and ntup(s.record(a)),
                     recs[a] if a < n else None, 'record %d' % a)
        for b in (a, a + 1, a + 256, a + 257, n, n + 1):
            expect_equal([ntup(r) for r in s.records(range=(a, b))],
                         recs[a:b], 'range %d-%d' % (a, b))
    check_json(''.join(s.records_json().generate()), recs)
    return n


FAMILIES = [
    Family('library', level_cases, library),
    Family('command', command_cases, command),
    Family('many', many_cases, many_run),
]
