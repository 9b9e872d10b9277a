# -*- coding: utf-8 -*-
"""P18 summary information: every stored property, by every interface."""
import datetime
import itertools
import re
import struct
import uuid

from mc import cli
from mc import doc
from mc import hwp
from mc import ole
from mc.core import Family, Violation, expect, expect_equal
from checks.p09 import clean

PROPERTY = 'P18'
LEVEL = 'exploration'
RULE = ('a case is one stored summary information stream; its properties are '
        'read by the library accessors, the property set, the text view, the '
        'XML and the summaryinfo command and compared with what was stored')
ASSUMPTIONS = ['property values are of the types VT_I4, VT_LPWSTR and '
               'VT_FILETIME; identifiers are not repeated within one set',
               'times are compared to the microsecond']

ACCESS = [
    (2, 'title', 'Title'), (3, 'subject', 'Subject'),
    (4, 'author', 'Author'), (5, 'keywords', 'Keywords'),
    (6, 'comments', 'Comments'), (8, 'lastSavedBy', 'Last saved by'),
    (9, 'revisionNumber', 'Revision Number'),
    (0xb, 'lastPrintedTime', 'Last Printed at'),
    (0xc, 'createdTime', 'Created at'),
    (0xd, 'lastSavedTime', 'Last saved at'),
    (0xe, 'numberOfPages', 'Number of pages'),
    (0x14, 'dateString', 'Date'),
    (0x15, 'numberOfParagraphs', 'Number of paragraphs'),
]
LABELS = {
    0: 'PID_DICTIONARY', 1: 'PID_CODEPAGE', 0x80000000: 'PID_LOCALE',
    0x80000003: 'PID_BEHAVIOR', 2: 'PIDSI_TITLE', 3: 'PIDSI_SUBJECT',
    4: 'PIDSI_AUTHOR', 5: 'PIDSI_KEYWORDS', 6: 'PIDSI_COMMENTS',
    7: 'PIDSI_TEMPLATE', 8: 'PIDSI_LASTAUTHOR', 9: 'PIDSI_REVNUMBER',
    0xa: 'PIDSI_EDITTIME', 0xb: 'PIDSI_LASTPRINTED',
    0xc: 'PIDSI_CREATE_DTM', 0xd: 'PIDSI_LASTSAVE_DTM',
    0xe: 'PIDSI_PAGECOUNT', 0xf: 'PIDSI_WORDCOUNT',
    0x10: 'PIDSI_CHARCOUNT', 0x11: 'PIDSI_THUMBNAIL',
    0x12: 'PIDSI_APPNAME', 0x13: 'PIDSI_SECURITY',
    0x14: 'HWPPIDSI_DATE_STR', 0x15: 'HWPPIDSI_PARACOUNT',
}
PIDS = sorted(LABELS)[1:] + [0x16, 0x1000, 0x7fffffff, 0xffffffff]
TIMES = (0xa, 0xb, 0xc, 0xd)
INTS = (1, 0xe, 0xf, 0x10, 0x13, 0x15, 0x80000000, 0x80000003)


def natural(pid, k=0):
    """a value of the usual type of the property, told from all others"""
    if pid in TIMES:
        return ['t', 129500000000000000 + (pid * 100 + k) * 86400 * 10**7 + 50]
    if pid in INTS:
        return ['i', (pid & 0xff) * 100 + k]
    return ['s', 'value-%x-%d' % (pid, k)]


def encode(v):
    t = v[0]
    if t == 's':
        return ole.lpwstr(v[1])
    if t == 'n':                     # no padding to four bytes
        return ole.lpwstr(v[1], pad=False)
    if t == 'r':                     # not terminated
        u = v[1].encode('utf-16le', 'surrogatepass')
        return b'\x1f\0\0\0' + (len(u) // 2).to_bytes(4, 'little') + u
    if t == 'i':
        return ole.i4(v[1])
    if t == 't':
        return ole.filetime(v[1])
    assert t == 'd'
    return ole.dictionary(v[1])


def when(v):
    days, rest = divmod(v // 10, 86400 * 10**6)
    secs, us = divmod(rest, 10**6)
    if days > 3067670:               # after the year 9999
        return None
    return datetime.datetime.fromordinal(
        datetime.date(1601, 1, 1).toordinal() + days).replace(
            hour=secs // 3600, minute=secs // 60 % 60, second=secs % 60,
            microsecond=us)


def shown(v):
    """how a value is shown as text"""
    if v[0] in 'snr':
        return v[1].encode('utf-16le', 'surrogatepass').decode(
            'utf-16le', 'surrogatepass')
    if v[0] == 'i':
        return str(v[1])
    w = when(v[1])
    return str(w) if w is not None else None


def text(s):
    """of a string in an output stream"""
    return s.encode('utf-8', 'backslashreplace').decode('utf-8')


def same(got, v, what):
    want = shown(v)
    if want is None:
        expect('%x' % v[1] in got.lower() or str(v[1]) in got,
               '%s: %r does not tell the instant %d' % (what, got, v[1]))
    else:
        expect_equal(got, want, what)


def same_value(got, v, what):
    if v[0] in 'snr':
        expect(isinstance(got, str), '%s is %r' % (what, got))
        expect_equal(got, shown(v), what)
    elif v[0] == 'i':
        expect_equal(got, v[1], what)
    else:
        same(str(got), v, what)
        if when(v[1]) is not None:
            expect_equal(got.datetime, when(v[1]), what + ' datetime')
        expect_equal(got.value, v[1], what + ' value')


def build(sets, order=None, gap=0):
    return ole.stream([
        (ole.HWP_FMTID if i == 0 else ole.uuid.UUID(int=i),
         ole.propset([(p, encode(v)) for p, v in props],
                     layout_order=order, gap=gap))
        for i, props in enumerate(sets)])


LINE = re.compile(r'^- [0-9a-f]{8}: (\w*)\(=0x([0-9a-f]{8})\):(?: (.*)|\n.*)?$',
                  re.S)


def split_text(data):
    """entries of the text view, by property set"""
    sets = []
    for line in data.split('\n- '):
        line = '- ' + line if not line.startswith('- ') else line
        m = LINE.match(line.rstrip('\n') if not line.endswith(' \n')
                       else line[:-1])
        if m:
            sets[-1].append((int(m.group(2), 16), m.group(1), m.group(3)))
        elif re.match(r'^- [0-9a-f]{8}: Property Set', line):
            sets.append([])
    return sets


def stored(data):
    """-> header fields, [(fmtid, offset, [(offset, id)] as stored)]"""
    order, version, sysid = struct.unpack('<HHI', data[:8])
    out = []
    for i in range(struct.unpack('<I', data[24:28])[0]):
        at = 28 + 20 * i
        base, = struct.unpack('<I', data[at + 16:at + 20])
        n, = struct.unpack('<I', data[base + 4:base + 8])
        props = []
        for k in range(n):
            pid, off = struct.unpack('<II', data[base + 8 + 8 * k:
                                                 base + 16 + 8 * k])
            props.append((off, pid))
        out.append((uuid.UUID(bytes_le=data[at:at + 16]), base,
                    sorted(props)))
    return (order, version, sysid, uuid.UUID(bytes_le=data[8:24])), out


CODES = {'s': 0x1f, 'n': 0x1f, 'r': 0x1f, 'i': 3, 't': 0x40}


def check_stored(data, sets, stream, root, views):
    """what surrounds the values, and where they are"""
    head, want = stored(data)
    expect_equal((stream.byteOrder, stream.version, stream.systemIdentifier,
                  stream.clsid), head, 'header')
    expect_equal([(s.fmtid, s.desc.offset,
                   sorted((p.desc.offset, p.id) for p in s.properties))
                  for s in stream.propertysets], want, 'places')
    x, = root.iter('PropertySetStream')
    expect_equal((int(x.get('byte-order'), 16), int(x.get('version')),
                  int(x.get('system-identifier').replace(' ', 'x'), 16),
                  uuid.UUID(x.get('clsid'))), head, 'header in the XML')
    expect_equal([(uuid.UUID(s.get('fmtid')), int(s.get('offset')),
                   [(int(p.get('offset')), int(p.get('id')))
                    for p in s.iter('Property')])
                  for s in x.iter('PropertySet')], want, 'places in the XML')
    for s, props in zip(x.iter('PropertySet'), sets):
        props = dict(props)
        for p in s.iter('Property'):
            v = props[int(p.get('id'))]
            if v[0] in CODES:
                expect_equal(int(p.get('type-code'), 16), CODES[v[0]],
                             'code of the type in the XML')
    for view in views:
        fields = dict(re.findall(r'^- (\w+): (.*)$',
                                 view.split('Property Set')[0], re.M))
        expect_equal((int(fields['ByteOrder'], 16), int(fields['Version']),
                      int(fields['SystemIdentifier'], 16),
                      uuid.UUID(fields['CLSID'])), head,
                     'header in the text view')
        expect_equal([(uuid.UUID(u), int(a, 16)) for a, u in re.findall(
            r'^- ([0-9a-f]{8}): Property Set (.*)$', view, re.M)],
            [w[:2] for w in want], 'places of the sets in the text view')
        if not any(v[0] != 'd' and v[0] != 'i' and v[0] != 't' and
                   '\n' in v[1] for props in sets for p, v in props):
            expect_equal([(int(a, 16), int(p, 16)) for a, p in re.findall(
                r'^- ([0-9a-f]{8}): \w*\(=0x([0-9a-f]{8})\):', view, re.M)],
                [(w[1] + off, pid) for w in want for off, pid in w[2]],
                'places in the text view')


def check(data, sets, use_cli=True):
    from hwp5.xmlmodel import Hwp5File
    t = hwp.tree(flags=1, docinfo_bytes=hwp.docinfo(), summary=data)
    f = Hwp5File(hwp.Storage(t))
    s = f.summaryinfo
    first = dict(sets[0])
    # accessors
    for pid, attr, label in ACCESS:
        got = getattr(s, attr)
        if pid in first:
            same_value(got, first[pid], attr)
        else:
            expect(got is None, '%s is %r though it is not stored'
                   % (attr, got))
    # property sets
    got_sets = s.propertySetStream.propertysets
    expect_equal(len(got_sets), len(sets), 'property sets')
    for gs, props in zip(got_sets, sets):
        expect_equal(sorted(p.id for p in gs.properties),
                     sorted(p for p, v in props), 'identifiers')
        props = dict(props)
        for p in gs.properties:
            v = props[p.id]
            if v[0] == 'd':
                expect_equal([(e.id, e.name) for e in p.value.entries],
                             [tuple(x) for x in v[1]], 'dictionary')
                for x in v[1]:
                    expect_equal(p.value.get(x[0]),
                                 dict(v[1][::-1])[x[0]], 'dictionary.get')
            else:
                same_value(p.value, v, 'property %x' % p.id)
    # XML
    root = doc.parse_xml(s.xmlevents().open().read())
    xsets = list(root.iter('PropertySet'))
    expect_equal(len(xsets), len(sets), 'property sets in the XML')
    names = {'s': 'VT_LPWSTR', 'n': 'VT_LPWSTR', 'r': 'VT_LPWSTR',
             'i': 'VT_I4', 't': 'VT_FILETIME'}
    for k, (x, props) in enumerate(zip(xsets, sets)):
        expect_equal(sorted(int(p.get('id')) for p in x.iter('Property')),
                     sorted(p for p, v in props), 'identifiers in the XML')
        props = dict(props)
        for p in x.iter('Property'):
            pid = int(p.get('id'))
            v = props[pid]
            if k == 0:
                expect_equal(p.get('id-label'), LABELS.get(pid), 'label')
            if v[0] == 'd':
                expect_equal([[int(e.get('id')), e.get('name')]
                              for e in p.iter('DictionaryEntry')],
                             [[i, clean(n)] for i, n in v[1]],
                             'dictionary in the XML')
                continue
            expect_equal(p.get('type'), names[v[0]], 'type in the XML')
            if v[0] in 'snr':
                expect_equal(p.get('value'), clean(shown(v)),
                             'property %x in the XML' % pid)
            else:
                same(p.get('value'), v, 'property %x in the XML' % pid)
    # text view
    views = [s.open_text().read().decode('utf-8')]
    if use_cli:
        path = hwp.write(hwp.scratch('s.hwp'), t)
        r = cli.run('hwp5proc', ['cat', '--vstreams', path,
                                 '\x05HwpSummaryInformation.txt'])
        expect_equal(r.code, 0, 'exit status of cat')
        views.append(r.out.decode('utf-8'))
    check_stored(data, sets, s.propertySetStream, root, views)
    for view in views:
        got = split_text(view)
        expect_equal(len(got), len(sets), 'property sets in the text view')
        for k, (g, props) in enumerate(zip(got, sets)):
            expect_equal(sorted(p for p, l, v in g),
                         sorted(p for p, v in props),
                         'identifiers in the text view')
            props = dict(props)
            for pid, label, value in g:
                v = props[pid]
                if k == 0:
                    expect_equal(label, LABELS.get(pid, ''), 'label')
                if v[0] == 'd':
                    want = ''.join('\n            - %d: %s' % tuple(x)
                                   for x in v[1])
                    expect(view.count(want) >= 1, 'dictionary in text view')
                elif shown(v) is None:
                    same(value, v, 'property %x in the text view' % pid)
                else:
                    expect_equal((value or '').rstrip('\n'),
                                 text(shown(v)).rstrip('\n'),
                                 'property %x in the text view' % pid)
    # command
    if use_cli:
        r = cli.run('hwp5proc', ['summaryinfo', path])
        expect_equal(r.code, 0, 'exit status of summaryinfo (%r)' % r)
        out = r.out.decode('utf-8')
        at = 0
        out = '\n' + out
        spans = []
        for pid, attr, label in ACCESS:
            k = out.find('\n%s:' % label, at)
            if k < 0:
                expect(pid not in first, '%s is missing' % label)
                spans.append((None, None))
                continue
            spans.append((k, k + len(label) + 2))
            at = k + len(label) + 2
        starts = [a for a, b in spans if a is not None] + [len(out) - 1]
        for (a, b), (pid, attr, label) in zip(spans, ACCESS):
            if a is None:
                continue
            got = out[b:min(x for x in starts if x > a)]
            got = got[1:] if got.startswith(' ') else got
            if pid not in first:
                expect(got in ('', 'None'), '%s is shown as %r though it is '
                       'not stored' % (label, got))
            elif shown(first[pid]) is None:
                same(got, first[pid], label)
            else:
                expect_equal(got, text(shown(first[pid])), label)
    return views[0]


def run(case):
    sets = [[(p, v) for p, v in props] for props in case['sets']]
    return check(build(sets, case.get('order'), case.get('gap', 0)), sets,
                 case.get('cli', True))


# ---- which properties are there

def subset_cases(tier):
    pids = [a[0] for a in ACCESS]
    for mask in range(1 << len(pids)):
        props = [[p, natural(p)] for i, p in enumerate(pids) if mask >> i & 1]
        yield {'sets': [props], 'cli': tier != 'quick' or
               bin(mask).count('1') in (0, 1, 2, len(pids) - 1, len(pids))}
    # with the others
    for pid in PIDS:
        yield {'sets': [[[pid, natural(pid)]]]}
        yield {'sets': [[[p, natural(p)] for p in PIDS if p != pid]]}
    for a, b in itertools.combinations(PIDS, 2):
        yield {'sets': [[[a, natural(a)], [b, natural(b)]]]}


# ---- order in the file

DICT = ['d', [[0x14, 'HWPPIDSI_DATE_STR'], [0x15, 'HWPPIDSI_PARACOUNT']]]


def order_cases(tier):
    sets = [[2, 0xc], [0, 2], [1, 0x15], [0, 1, 2], [2, 9, 0xc],
            [0, 1, 2, 0xd]]
    if tier != 'quick':
        sets += [[2, 3, 4, 0xe, 0x15], [0, 1, 0x14, 0x15, 0xb]]
    for pids in sets:
        n = len(pids)
        vals = [[p, DICT if p == 0 else natural(p)] for p in pids]
        for order in itertools.permutations(range(n)):
            for stored in itertools.permutations(range(n)):
                for gap in (0, 3) if n < 5 else (0,):
                    yield {'sets': [[vals[i] for i in order]],
                           'order': list(stored), 'gap': gap, 'cli': n < 4}


# ---- types and values

STR = ['', 'a', '\uac00', ' ', '\n', '<', '\ud800', '\udc00', '\U0001f600',
       '\u3000', '\ufffe', '\x01', '&', ':']
I4S = [0, 1, -1, 2**31 - 1, -2**31, 255, 256, 65535, 65536, 10**9]


def times(tier):
    vals = set(range(0, 31))
    for k in range(64):
        for d in (-1, 0, 1):
            vals.add((1 << k) + d)
    for y in (1601, 1700, 1900, 1970, 2000, 2004, 2011, 2038, 2100, 9999):
        for md in ((1, 1), (2, 28), (3, 1), (12, 31)):
            days = datetime.date(y, *md).toordinal() - \
                datetime.date(1601, 1, 1).toordinal()
            for us in (0, 1, 9, 10, 999999, 43200 * 10**6,
                       86400 * 10**6 - 1):
                for r in (0, 1, 4, 5, 6, 9):
                    vals.add((days * 86400 * 10**6 + us) * 10 + r)
    vals |= {2650467743999999999, 2650467744000000000, 2**64 - 1}
    if tier != 'quick':
        for base in (129500000000000000, 131000000000000000,
                     116444736000000000):
            for d in range(4000):
                vals.add(base + d)
    return sorted(v for v in vals if 0 <= v < 2**64)


def value_cases(tier):
    for pid in PIDS:
        for v in ['s', 'x'], ['i', 7], ['t', 129500000000000000]:
            if pid == 1 and v[0] != 'i':
                continue
            yield {'sets': [[[pid, v]]]}
    ts = times(tier)
    for i in range(0, len(ts), 4):
        four = (ts[i:i + 4] + ts[:4])[:4]
        yield {'sets': [[[p, ['t', v]] for p, v in
                         zip((0xb, 0xc, 0xd, 0xa), four)]]}
    for v in I4S:
        yield {'sets': [[[0xe, ['i', v]], [0x15, ['i', -v - 1]]]]}
    n = 2 if tier == 'quick' else 3
    for k in range(1, n + 1):
        for t in itertools.product(STR[1:], repeat=k):
            s = ''.join(t)
            yield {'sets': [[[2, ['s', s]], [3, ['i', 1]],
                             [4, ['s', s + 'x']]]], 'cli': k < 3}
    for enc in 'snr':
        for n in list(range(0, 9)) + [127, 128, 255, 256, 1023, 4096, 40000]:
            s = ('abcdefghi' * (n // 9 + 1))[:n]
            yield {'sets': [[[2, [enc, s]], [6, [enc, s + s]]]]}
            yield {'sets': [[[2, [enc, s]], [6, [enc, s + s]]]],
                   'order': [1, 0], 'gap': 1}


# ---- dictionaries and several sets

def dict_cases(tier):
    ids = (0x14, 0x15, 2, 0x1000, 0)
    names = ('', 'A', 'HWPPIDSI_DATE_STR', '\xe9\xff', 'a b')
    entries = [[i, n] for i in ids for n in names]
    yield {'sets': [[[0, ['d', []]], [2, ['s', 't']]]]}
    for e in entries:
        yield {'sets': [[[0, ['d', [e]]], [2, ['s', 't']]]]}
    for a, b in itertools.product(entries, repeat=2):
        if a[0] != b[0]:
            yield {'sets': [[[2, ['s', 't']], [0, ['d', [a, b]]],
                             [0x14, ['s', 'd']]]], 'cli': False}
    full = [[p, natural(p)] for p, a, l in ACCESS]
    for n in (1, 2, 3):
        for which in itertools.product(
                ([], [[2, ['s', 'other']]], full, [[0, DICT], [5, ['i', 3]]],
                 [[0x1000, ['t', 5]]]), repeat=n):
            if n == 3 and tier == 'quick' and len(which[1]) > 2:
                continue
            yield {'sets': [list(w) for w in which]}


# ---- headers

def header_cases(tier):
    one = [[[2, ['s', 't']], [0xe, ['i', 5]]]]
    for version in (0, 1, 255, 256, 65535):
        yield {'sets': one, 'version': version}
    for k in range(32):
        yield {'sets': one, 'sysid': 1 << k}
    for sysid in (0, 0x20005, 0xffffffff, 0xffff):
        yield {'sets': one, 'sysid': sysid}
    for k in range(16):
        yield {'sets': one * 2, 'fmtids': [None, 1 << 8 * k]}
        yield {'sets': one * 2, 'fmtids': [None, 255 << 8 * k]}


def header_run(case):
    sets = case['sets']
    # the class tells the summary information of HWP documents
    kw = dict((k, case[k]) for k in ('version', 'sysid') if k in case)
    ids = case.get('fmtids', [None])
    data = ole.stream([(ole.HWP_FMTID if i is None else uuid.UUID(int=i),
                        ole.propset([(p, encode(v)) for p, v in props]))
                       for i, props in zip(ids, sets)], **kw)
    return check(data, sets)


# ---- many properties, entries and sets

def many_cases(tier):
    for n in (16, 17, 31, 32, 33, 64, 65, 100, 255, 256, 257, 1000):
        for t in 'sit':
            props = [[0x1000 + i, {'s': ['s', 'v%d' % i], 'i': ['i', i],
                                   't': ['t', 10**17 + 10**7 * i]}[t]]
                     for i in range(n)]
            yield {'sets': [props + [[2, ['s', 'last']]]], 'cli': n < 300}
            if n < 300:
                yield {'sets': [[[2, ['s', 'first']]] + props],
                       'order': list(range(n, -1, -1)), 'cli': False}
        names = [[0x1000 + i, 'name %d' % i] for i in range(n)]
        yield {'sets': [[[0, ['d', names]], [2, ['s', 'x']]]],
               'cli': n < 300}
        yield {'sets': [[[0, ['d', [[5, 'n' * n]]]], [2, ['s', 'x']]]]}
        if n < 300:
            yield {'sets': [[[2, ['s', 'set %d' % i]], [3, ['i', i]]]
                            for i in range(n)]}


FAMILIES = [
    Family('headers', header_cases, header_run),
    Family('many', many_cases, run),
    Family('subsets', subset_cases, run),
    Family('orders', order_cases, run),
    Family('values', value_cases, run),
    Family('dictionaries', dict_cases, run),
]
