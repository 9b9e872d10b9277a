# -*- coding: utf-8 -*-
"""P12 identifiers are unique and embedded binaries are intact."""
import base64
import itertools

from mc import cli
from mc import doc
from mc import hwp
from mc import parts
from mc.core import Family, expect, expect_equal
from checks import p10

PROPERTY = 'P12'
LEVEL = 'exploration'
RULE = ('a case is one document of sections made of words over paragraphs, '
        'tables, shapes and what contains them, whose identifiers are counted '
        'in its XML, or one list of binary items with the streams they name '
        'among others with similar names')
ASSUMPTIONS = ['every item that is embedded has its stream in the document',
               'no two streams of a storage have names equal but for case']

KINDS = [('Paragraph', 'paragraph-id'), ('TableControl', 'table-id'),
         ('GShapeObjectControl', 'gshape-id'), ('ShapeComponent', 'shape-id')]


def count(nodes, out=None):
    """number of records of each kind"""
    if out is None:
        out = dict((k, 0) for k, _ in KINDS)
    for n in nodes:
        if n.model in out:
            out[n.model] += 1
        count(n.children, out)
    return out


def check_ids(root, want, what):
    for tag, attr in KINDS:
        ids = [e.get(attr) for e in root.iter(tag)]
        expect(None not in ids, '%s: a %s without %s' % (what, tag, attr))
        expect_equal([int(i) for i in ids], list(range(want[tag])),
                     '%s: %s of each %s' % (what, attr, tag))


def token(k):
    if k == 'a':
        return 'a'
    if k == 'W':                    # a table in a text box in a table
        return p10.container('T', [p10.P(p10.container('G', [
            p10.P(p10.make('T'))]))])
    if k == 'Y':                    # a shape without text, a picture
        return doc.picture(1)
    if k in 'TGFH':
        return p10.make(k)
    return p10.container(k, [p10.P('x')])


WORDS = 'aTGVFHKLWY'


def section_of(words):
    return [doc.secpara(['s'])] + [p10.P(*[token(k) for k in w])
                                   for w in words]


def id_cases(tier):
    q = tier == 'quick'
    for n in (1, 2):
        for w in itertools.product(WORDS, repeat=n):
            for cut in range(n):
                yield {'s': [[''.join(w[:cut + 1])] +
                             ([''.join(w[cut + 1:])] if cut + 1 < n else [])]}
    # sections
    for n in (2, 3) if q else (2, 3, 4):
        for w in itertools.product('aTGV', repeat=n):
            yield {'s': [[x] for x in w]}
    for t in itertools.product('aTGVW', repeat=3 if q else 4):
        yield {'s': [[''.join(t)], ['T'], [], ['GG', 'T']]}
    # sizes
    for n in (9, 11, 99, 101) + (() if q else (999, 1001)):
        yield {'s': [['TG'] * n]}
        yield {'s': [['TGV']] * min(n, 101)}


def id_run(case):
    from hwp5.xmlmodel import Hwp5File
    sections = [section_of(ws) for ws in case['s']]
    want = count([n for s in sections for n in s])
    version = (5, 0, 3, 4)
    t = hwp.tree(version, 0, hwp.docinfo(version, sections=len(sections)),
                 [doc.stream(s, version) for s in sections],
                 summary=hwp.summaryinfo())
    h = Hwp5File(hwp.Storage(t))
    first = h.xmlevents()
    a = b''.join(first.bytechunks())
    check_ids(doc.parse_xml(a), want, 'first time')
    # a second time, and two at once, piece by piece
    x = h.xmlevents().bytechunks()
    y = Hwp5File(hwp.Storage(t)).xmlevents().bytechunks()
    xs, ys = [], []
    for p, q in itertools.zip_longest(x, y):
        xs.append(p)
        ys.append(q)
    expect_equal(b''.join(xs), a, 'XML the second time')
    expect_equal(b''.join(ys), a, 'XML of the document in parallel')
    return sorted(want.items())


def nest_cases(tier):
    for c in p10.nest_cases(tier):
        yield c


def nest_run(case):
    from hwp5.xmlmodel import Hwp5File
    paras = [p10.P('deep')]
    for k in reversed(case['p']):
        c = p10.container(k, paras)
        if case['at'] == 'only':
            paras = [doc.para([c])]
        elif case['at'] == 'first':
            paras = [p10.P(c, 'x'), p10.P('y')]
        elif case['at'] == 'last':
            paras = [p10.P('y'), p10.P('x', c)]
        else:
            paras = [p10.P('x', c, p10.container(k, [p10.P('v')]), 'y'),
                     p10.P(p10.c2(k))]
    s = [doc.secpara()] + paras
    version = (5, 0, 3, 4)
    t = hwp.tree(version, 0, hwp.docinfo(version, sections=2),
                 [doc.stream(s, version)] * 2, summary=hwp.summaryinfo())
    want = dict((k, 2 * v) for k, v in count(s).items())
    a = b''.join(Hwp5File(hwp.Storage(t)).xmlevents().bytechunks())
    check_ids(doc.parse_xml(a), want, 'XML')
    return sorted(want.items())


def cli_cases(tier):
    for flags in (0, 1, 4, 5):
        for w in itertools.product('aTGVW', repeat=2):
            for s in (1, 2):
                yield {'flags': flags, 'w': ''.join(w), 'n': s}


def cli_run(case):
    s = section_of([case['w'], case['w'][:1]])
    dummy = [doc.secpara(['dummy', token('T')])]
    version = (5, 0, 1, 7)
    flags = case['flags']
    data = doc.stream(s, version)
    pad = b''
    if flags & 4 and not flags & 1:
        from mc import rec
        data += rec.encode([(1000, 0, b'\0' * (-(len(data) + 4) % 16))])
    body = [doc.stream(dummy, version)] * case['n']
    t = hwp.tree(version, flags, hwp.docinfo(version, sections=case['n']),
                 body if flags & 4 else [data] * case['n'],
                 viewtext=[data] * case['n'] if flags & 4 else None,
                 summary=hwp.summaryinfo())
    path = hwp.write(hwp.scratch('p12.hwp'), t)
    r = cli.run('hwp5proc', ['xml', '--no-validate-wellformed', path])
    expect_equal(r.code, 0, 'exit status of xml (%r)' % r)
    want = dict((k, case['n'] * v) for k, v in count(s).items())
    check_ids(doc.parse_xml(r.out), want, 'hwp5proc xml')
    return sorted(want.items())


# ---- embedded binaries

def content(n, k):
    if k == 0:
        return parts.blocks(n)[:n]
    return bytes(bytearray((i * 37 + (i >> 8) * 11 + k) & 0xff
                           for i in range(n)))


def embed_doc(items, datas, flags, decoys=()):
    """items: [(kind, id, ext)]"""
    version = (5, 0, 1, 7)
    recs = []
    streams = {}
    want = []
    for k, (kind, sid, ext) in enumerate(items):
        if kind == 0:
            recs.append(dict(flags=0, bindata=dict(abspath='/x/%d' % sid,
                                                   relpath=ext)))
            want.append(None)
        elif kind == 2:
            recs.append(dict(flags=2, bindata=dict(storage_id=sid)))
            want.append(None)
        else:
            recs.append(dict(flags=1 | kind >> 4 << 4,
                             bindata=dict(storage_id=sid, ext=ext)))
            streams['BIN%04X.%s' % (sid, ext)] = datas[k]
            want.append(datas[k])
    for k, n in enumerate(decoys):
        if n.lower() not in set(x.lower() for x in streams):
            streams[n] = b'decoy %d' % k
    t = hwp.tree(version, flags, hwp.docinfo(version, bindata=recs),
                 [doc.stream([doc.secpara(['x'])], version)],
                 summary=hwp.summaryinfo(), bindata=streams)
    return t, want


def check_embedded(data, want, items, embed):
    root = doc.parse_xml(data)
    els = list(root.iter('BinData'))
    expect_equal(len(els), len(want), 'BinData elements')
    for e, w, (kind, sid, ext) in zip(els, want, items):
        kids = list(e)
        expect_equal(len(kids), 1, 'members of %r' % e.attrib)
        m = kids[0]
        text = (m.text or '') + (e.text or '') + (m.tail or '')
        if w is None or not embed:
            expect_equal(text.strip(), '', 'text of a binary item')
            expect_equal(m.get('inline'), None, 'inline')
        else:
            expect_equal(m.get('inline'), 'true', 'inline')
            lines = text.strip('\n').split('\n')
            for ln in lines:
                expect(len(ln) <= 76, 'a line of %d characters' % len(ln))
            got = base64.b64decode(''.join(lines), validate=True)
            expect(got == w, 'item %04X.%s has %d bytes, %r, not %d, %r'
                   % (sid, ext, len(got), got[:40], len(w), w[:40]))
        if kind & 15 == 1:
            expect_equal(m.get('storage-id'), 'BIN%04X' % sid, 'storage id')
            expect_equal(m.get('ext'), ext, 'extension')
    for e in root.iter():
        if e.tag not in ('BinDataEmbedding', 'Text'):
            expect(not (e.text or '').strip(), 'text in %s' % e.tag)


def size_cases(tier):
    top = 200 if tier == 'quick' else 700
    for n in list(range(0, top)) + [1023, 1024, 4095, 4096, 4097, 20000,
                                    65535, 65536, 200000]:
        for k in (0, 3):
            yield {'n': n, 'k': k, 'flags': n & 1}


def size_run(case):
    from hwp5.xmlmodel import Hwp5File
    items = [(1, 1, 'jpg'), (1, 2, 'png')]
    t, want = embed_doc(items, [content(case['n'], case['k']),
                                content(case['n'] + 1, 1)], case['flags'])
    h = Hwp5File(hwp.Storage(t))
    for embed in (True, False, True):
        data = b''.join(h.xmlevents(embedbin=embed).bytechunks())
        check_embedded(data, want, items, embed)
    return case['n']


IDS = [1, 2, 0xa, 0x10, 0xff, 0x100, 0xabcd, 0xffff]
EXTS = ['jpg', 'JPG', 'gif', 'g', 'jpg.gif', '\uac00', '']
DECOYS = ['BIN0001.bmp', 'BIN0002.bmp', 'BIN00001.jpg', 'BIN1.jpg',
          'BIN000A.bmp', 'BIN0010.bmp', 'XBIN0001.jpg', 'BIN0001']


def name_cases(tier):
    singles = [(1, i, e) for i in IDS for e in EXTS]
    for s in singles:
        for flags in (0, 1):
            yield {'items': [s], 'flags': flags}
    some = [(1, i, e) for i in (1, 2, 0x10) for e in ('jpg', 'gif', 'j')]
    some += [(0, 1, 'jpg'), (2, 1, ''), (0x11, 3, 'jpg'), (0x21, 4, 'jpg')]
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for t in itertools.product(some, repeat=n):
            if n == 4 and any(x[0] == 0 for x in t):
                continue
            yield {'items': list(t), 'flags': n & 1}


def name_run(case):
    from hwp5.xmlmodel import Hwp5File
    items = [tuple(x) for x in case['items']]
    datas = [b'data of %04X.%s ' % (sid, ext.encode()) * 5
             for k, sid, ext in items]
    t, want = embed_doc(items, datas, case['flags'], DECOYS)
    h = Hwp5File(hwp.Storage(t))
    data = b''.join(h.xmlevents(embedbin=True).bytechunks())
    check_embedded(data, want, items, True)
    data = b''.join(h.xmlevents().bytechunks())
    check_embedded(data, want, items, False)
    if len(items) == 1:
        path = hwp.write(hwp.scratch('p12e.hwp'), t)
        for embed in (True, False):
            r = cli.run('hwp5proc', ['xml', '--no-validate-wellformed'] +
                        (['--embedbin'] if embed else []) + [path])
            expect_equal(r.code, 0, 'exit status of xml (%r)' % r)
            check_embedded(r.out, want, items, embed)
    return [x is None for x in want], items[0]


def none_cases(tier):
    for flags in (0, 1):
        for storage in (0, 1):
            for embed in (0, 1):
                yield {'flags': flags, 'storage': storage, 'embed': embed}


def none_run(case):
    """documents without binaries"""
    from hwp5.xmlmodel import Hwp5File
    items = [(0, 1, 'jpg')]
    t, want = embed_doc(items, [None], case['flags'])
    if not case['storage']:
        t.pop('BinData')
    h = Hwp5File(hwp.Storage(t))
    data = b''.join(h.xmlevents(embedbin=bool(case['embed'])).bytechunks())
    check_embedded(data, want, items, True)
    return case['embed']


# ---- very many elements

def many_cases(tier):
    for n in (255, 256, 257, 300, 1025, 4097):
        for k in 'aTGY':
            if n < 1025 or k == 'a' or n == 1025 and k == 'T':
                yield {'s': [[k] * (n // 2), [k] * (n - n // 2)]}


FAMILIES = [Family('identifiers', id_cases, id_run),
            Family('many', many_cases, id_run),
            Family('nesting', nest_cases, nest_run),
            Family('command', cli_cases, cli_run),
            Family('sizes', size_cases, size_run),
            Family('names', name_cases, name_run),
            Family('no binaries', none_cases, none_run)]
