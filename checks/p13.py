# -*- coding: utf-8 -*-
"""P13 stored content is recovered under every document flag."""
import itertools

from mc import cli
from mc import doc
from mc import hwp
from mc import parts
from mc.core import Family, Violation, expect, expect_equal

PROPERTY = 'P13'
LEVEL = 'exploration'
RULE = ('a case is one document (flags, contents, storage order) and one way '
        'or sequence of reading its streams')
ASSUMPTIONS = ['uncompressed distribution streams are whole cipher blocks',
               'streams of a compressed document are whole deflate streams, '
               'or not deflate at all (then they are taken as stored)',
               'parts of the document are storages or streams as the format '
               'says']


def data(n, k=0):
    n = (n + 15) // 16 * 16
    out = bytearray()
    x = 99 + k
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(x >> 16 & 255)
    return bytes(out)


def plains(size=40, k=0, sections=(0, 1)):
    p = {('DocInfo',): data(size, k)}
    for i in sections:
        p['BodyText', 'Section%d' % i] = data(size + 16, 10 + i)
        p['ViewText', 'Section%d' % i] = data(size + 32, 40 + i)
    p['BinData', 'BIN0001.jpg'] = data(size, k + 70)
    p['BinData', 'BIN000A.OLE'] = data(size * 3, k + 71)
    p['Scripts', 'DefaultJScript'] = data(size, k + 72)
    p['Scripts', 'JScriptVersion'] = data(16, k + 73)
    p['PrvText',] = ('미리보기\n' * 4).encode('utf-16le')
    p['PrvImage',] = data(size, k + 74)
    p['\x05HwpSummaryInformation',] = hwp.summaryinfo()
    p['DocOptions', '_LinkDoc'] = data(32, k + 75)
    p['XMLTemplate', 'Schema'] = data(32, k + 76)
    p['DocHistory', 'VersionLog0'] = data(32, k + 77)
    p['Custom', 'Deep', 'BinData'] = data(32, k + 78)
    p['Custom', 'DocInfo'] = data(32, k + 79)
    p['Custom2',] = data(48, k + 80)
    return p


LAYERS = ('filestructure', 'recordstream', 'binmodel', 'xmlmodel')


def hwpfile(layer, t, how='memory'):
    import importlib
    m = importlib.import_module('hwp5.' + layer)
    if how == 'memory':
        return m.Hwp5File(hwp.Storage(t))
    return m.Hwp5File(hwp.write(hwp.scratch('p13.hwp'), t))


def get(f, path):
    item = f
    for name in path:
        item = item[name]
    return item


def expected(path, plain, flags):
    return parts.stored(path, plain, flags) if flags & 2 else plain


# ---- flags x layers x contents

def flag_cases(tier):
    q = tier == 'quick'
    words = []
    for low in range(8):
        words.append(low)
        for bit in range(3, 32):
            words.append(low | 1 << bit)
        words.append(low | 0xfffffff8)
    for flags in words:
        for layer in LAYERS:
            if q and flags >= 8 and layer in LAYERS[1:3]:
                continue
            yield {'flags': flags, 'layer': layer, 'how': 'memory', 'n': 40}
    for flags in range(8):
        for layer in LAYERS:
            for n in (0, 1, 16, 4079, 4080, 4095, 4096, 4112, 9000, 70000):
                for level in (0, 1, 6, 9):
                    if q and level in (1, 6) and n > 100:
                        continue
                    if q and layer != 'xmlmodel' and n > 5000:
                        continue
                    yield {'flags': flags, 'layer': layer, 'n': n,
                           'how': 'file', 'level': level}
    for version in ((5, 0, 0, 0), (5, 0, 5, 0), (5, 1, 0, 1), (5, 255, 1, 2)):
        for flags in range(8):
            yield {'flags': flags, 'layer': 'xmlmodel', 'how': 'memory',
                   'n': 40, 'v': list(version)}


def flag_run(case):
    flags = case['flags']
    p = plains(case['n'])
    t = parts.tree(p, flags, level=case.get('level', 6),
                   version=tuple(case.get('v', (5, 0, 1, 7))))
    f = hwpfile(case['layer'], t, case['how'])
    out = 0
    for path, plain in p.items():
        got = get(f, path).open().read()
        if path == ('DocInfo',):
            got2 = f.docinfo.open().read()
            expect_equal(got2, got, 'docinfo')
        expect_equal(got, expected(path, plain, flags),
                     '/'.join(path) + ' with flags %x' % flags)
        out += len(got)
    got = get(f, ('FileHeader',)).open().read()
    expect_equal(got, t['FileHeader'], 'FileHeader')
    # which text is read
    which = 'ViewText' if flags & 4 else 'BodyText'
    for i, s in enumerate(f.text.sections):
        path = (which, 'Section%d' % i)
        expect_equal(s.open().read(), expected(path, p[path], flags),
                     'section %d of the text' % i)
    for name, part in (('BodyText', f.bodytext), ('ViewText', f.viewtext)):
        for i in (0, 1):
            path = (name, 'Section%d' % i)
            expect_equal(part.section(i).open().read(),
                         expected(path, p[path], flags), '/'.join(path))
    expect_equal(f.preview_text.text, '미리보기\n' * 4, 'preview text')
    expect_equal(f.preview_text.utf8, ('미리보기\n' * 4).encode('utf-8'),
                 'preview text in UTF-8')
    expect_equal(f.preview_text.open_utf8().read(),
                 ('미리보기\n' * 4).encode('utf-8'), 'UTF-8 view')
    expect_equal(f.summaryinfo.title, 'title', 'title')
    if hasattr(f, 'close'):
        f.close()
    return out, flags


# ---- contents not compressed though the document is

def raw_cases(tier):
    for flags in (1, 5):
        for kind in ('record', 'jpeg', 'deflate-like', 'empty', 'text'):
            for layer in LAYERS:
                yield {'flags': flags, 'kind': kind, 'layer': layer}


def raw_run(case):
    raw = {'record': hwp.docinfo(), 'jpeg': b'\xff\xd8\xff\xe0' + data(64),
           'deflate-like': b'\x07' + data(64), 'text': b'GIF89a' + data(32),
           'empty': b''}[case['kind']]
    import zlib
    try:
        zlib.decompress(raw, -15)
    except zlib.error:
        pass
    else:
        raise AssertionError('deflate after all')
    p = plains()
    t = parts.tree(p, case['flags'])
    t['BinData']['BIN0001.jpg'] = raw
    t['DocInfo'] = raw
    f = hwpfile(case['layer'], t)
    for path in (('BinData', 'BIN0001.jpg'), ('DocInfo',)):
        expect_equal(get(f, path).open().read(), raw, '/'.join(path))
    for path, plain in p.items():
        if path not in (('BinData', 'BIN0001.jpg'), ('DocInfo',)):
            expect_equal(get(f, path).open().read(),
                         expected(path, plain, case['flags']),
                         '/'.join(path))
    return raw


# ---- commands

def cat_cases(tier):
    for flags in list(range(8)) + [8, 0xfff8, 0x1001]:
        for n in (40, 5000, 65537, (1 << 20) + 1):
            if n > 5000 and flags & ~5:
                continue
            for v in (0, 1):
                yield {'flags': flags, 'n': n, 'v': v}
    for n in ((1 << 21) + 1, (1 << 22) + 1):
        for flags in (0, 1, 5):
            yield {'flags': flags, 'n': n, 'v': n & 1}
    # such that the file stays small
    for n in ((1 << 24) + 1, (1 << 25) + 1):
        yield {'flags': 1, 'n': n, 'v': 0}


def cat_run(case):
    flags = case['flags']
    p = plains(min(case['n'], 70000))
    if case['n'] > 2000000:
        p['BinData', 'BIN0001.jpg'] = b'0123456789abcdef' * (
            case['n'] // 16) + b'#' * (case['n'] % 16)
        if flags & 1:
            p['BodyText', 'Section1'] = p['BinData', 'BIN0001.jpg'][::-1]
    elif case['n'] > 70000:
        for name in (('BinData', 'BIN0001.jpg'), ('ViewText', 'Section0'),
                     ('BodyText', 'Section1')):
            p[name] = data(case['n'], 3)
    t = parts.tree(p, flags)
    path = hwp.write(hwp.scratch('p13.hwp'), t)
    args = ['--vstreams'] if case['v'] else []
    for name, plain in p.items():
        r = cli.run('hwp5proc', ['cat'] + args + [path, '/'.join(name)])
        expect_equal(r.code, 0, 'exit status of cat')
        expect_equal(r.out, expected(name, plain, flags),
                     'cat ' + '/'.join(name))
        r = cli.run('hwp5proc', ['cat', '--ole', path, '/'.join(name)])
        expect_equal(r.code, 0, 'exit status of cat --ole')
        expect_equal(r.out, parts.stored(name, plain, flags),
                     'cat --ole ' + '/'.join(name))
    return flags, case['n']


# ---- sections in every storage order

def order_cases(tier):
    q = tier == 'quick'
    sets = [(0,), (0, 1), (0, 1, 2), (1, 0, 10), (0, 2, 10, 11), (3, 20, 100)]
    if not q:
        sets += [(0, 1, 2, 9, 10, 11), (1, 2, 10, 20, 100)]
    for s in sets:
        for perm in itertools.permutations(s):
            for flags in (0, 1, 4, 5):
                for junk in ([], ['Section01', 'Section',
                                  'SectionX', 'section3', 'Section1_0',
                                  'Section 7', 'Foo', 'Section+8']):
                    yield {'order': list(perm), 'flags': flags, 'junk': junk}


def order_run(case):
    from hwp5.xmlmodel import Hwp5File
    flags = case['flags']
    order = case['order']
    p = {('DocInfo',): hwp.docinfo(),
         ('\x05HwpSummaryInformation',): hwp.summaryinfo()}
    for which in ('BodyText', 'ViewText'):
        for i, j in itertools.zip_longest(order, case['junk']):
            if j:
                p[which, j] = data(16, 5)
            if i is not None:
                text = '%s%d.' % (which[0], i)
                p[which, 'Section%d' % i] = doc.stream(
                    [doc.secpara([text, 13])], (5, 0, 1, 7))
    if flags & 4 and not flags & 1:
        # whole cipher blocks: an extra record of padding
        for path in list(p):
            if path[0] == 'ViewText':
                d = p[path]
                pad = -(len(d) + 4) % 16
                from mc import rec
                p[path] = d + rec.encode([(1000, 0, b'\0' * pad)])
    f = Hwp5File(hwp.Storage(parts.tree(p, flags)))
    want = sorted(order)
    which = 'ViewText' if flags & 4 else 'BodyText'
    for name, part in (('BodyText', f.bodytext), ('ViewText', f.viewtext),
                       (which, f.text)):
        expect_equal(part.section_indexes(), want, 'section numbers')
        expect_equal([s.open().read() for s in part.sections],
                     [p[name, 'Section%d' % i] for i in want],
                     'sections of %s' % name)
        for i in want:
            expect_equal(part.section(i).open().read(),
                         p[name, 'Section%d' % i], 'section %d' % i)
        root = doc.parse_xml(part.xmlevents().open().read())
        texts = [e.text for e in root.iter('Text')]
        expect_equal(texts, ['%s%d.' % (name[0], i) for i in want],
                     'texts in the XML of %s' % name)
    root = doc.parse_xml(b''.join(f.xmlevents().bytechunks()))
    texts = [e.text for e in root.iter('Text')]
    expect_equal(texts, ['%s%d.' % (which[0], i) for i in want],
                 'texts in the XML')
    ids = [int(e.get('section-id')) for e in root.iter('SectionDef')]
    return texts, ids


# ---- every sequence of reads

STREAMS = [('DocInfo',), ('BodyText', 'Section0'), ('ViewText', 'Section0'),
           ('BinData', 'BIN0001.jpg'), ('Scripts', 'JScriptVersion')]
ACTIONS = ['whole', 'half', 'half-close', 'item', 'two']


def seq_cases(tier):
    ops = [(i, a) for i in range(len(STREAMS)) for a in ACTIONS]
    for flags in (0, 1, 5, 7):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for seq in itertools.product(range(len(ops)), repeat=n):
                yield {'flags': flags, 'ops': [list(ops[k]) for k in seq],
                       'how': 'file' if flags in (1, 5) else 'memory'}
    if tier == 'quick':
        few = [(i, a) for i in range(3) for a in ('whole', 'half', 'two')]
        for seq in itertools.product(range(len(few)), repeat=3):
            yield {'flags': 5, 'ops': [list(few[k]) for k in seq],
                   'how': 'file'}


def seq_run(case):
    flags = case['flags']
    p = plains(100)
    t = parts.tree(p, flags)
    f = hwpfile('xmlmodel', t, case['how'])
    items = {}
    left = []
    for i, a in case['ops']:
        path = STREAMS[i]
        want = expected(path, p[path], flags)
        if a == 'item':
            # the same item object, again and again
            item = items.setdefault(path, get(f, path))
        else:
            item = get(f, path)
        x = item.open()
        if a in ('whole', 'item'):
            expect_equal(x.read(), want, '/'.join(path))
        elif a in ('half', 'half-close'):
            expect_equal(x.read(5), want[:5], 'start of ' + '/'.join(path))
            if a == 'half-close':
                x.close()
            else:
                left.append((x, want[5:], path))
        else:
            y = item.open()
            a1 = x.read(3)
            b1 = y.read(7)
            expect_equal(a1 + x.read(), want, 'first of two readers')
            expect_equal(b1 + y.read(), want, 'second of two readers')
    for x, want, path in left:
        expect_equal(x.read(), want, 'rest of ' + '/'.join(path))
    for path, plain in p.items():
        expect_equal(get(f, path).open().read(),
                     expected(path, plain, flags),
                     '/'.join(path) + ' afterwards')
    return case['ops']


FAMILIES = [
    Family('flags', flag_cases, flag_run),
    Family('raw', raw_cases, raw_run),
    Family('cat', cat_cases, cat_run),
    Family('orders', order_cases, order_run),
    Family('sequences', seq_cases, seq_run),
]
