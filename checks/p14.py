# -*- coding: utf-8 -*-
"""P14 every listed stream opens, and only with its own content."""
import itertools
import json

from mc import cli
from mc import doc
from mc import hwp
from mc import parts
from mc.core import Family, Violation, expect, expect_equal

PROPERTY = 'P14'
LEVEL = 'exploration'
RULE = ('a case is one tree of storages and streams and one listing mode; '
        'every listed name is opened, and names near it are refused')
ASSUMPTIONS = ['names of items of one storage differ by more than case and '
               'hold no slash', 'ls prints names with escapes; a name is '
               'opened by what the escapes stand for',
               'the items called DocInfo, BodyText and so on are streams or '
               'storages as the format says']

BASE = {('DocInfo',): None}


def unescape(line):
    return line.encode('ascii').decode('unicode_escape')


def ls(path, mode):
    r = cli.run('hwp5proc', ['ls'] + mode + [path])
    expect_equal(r.code, 0, 'exit status of ls %s (%r)' % (mode, r))
    return [unescape(x) for x in r.out.decode('ascii').splitlines()]


def cat(path, name, mode):
    r = cli.run('hwp5proc', ['cat'] + mode + ['--', path, name])
    return r.code, r.out


def near(names):
    """names close to real ones, and not among them"""
    out = set(['', '/', '.', '..', 'x', '/x', '../x', './x'])
    for n in names:
        out.add(n + 'x')
        out.add(n[:-1])
        out.add(n + '/')
        out.add(n + '/x')
        out.add('x/' + n)
        out.add('../' + n)
        out.add(n + '.xml')
        out.add(n + '.records')
        if '/' in n:
            out.add(n.split('/', 1)[1])
            out.add(n.rsplit('/', 1)[0])
            out.add(n.rsplit('/', 1)[1])
            out.add(n.replace('/', '', 1))
        if '.' in n:
            out.add(n.rsplit('.', 1)[0])
    low = set(n.lower() for n in names)
    return sorted(n for n in out if n.lower() not in low)


def check_tree(t, want, modes=([], ['--ole'], ['--vstreams']), refuse=True,
               virtual=None):
    """want: mode -> {name: content}"""
    path = hwp.write(hwp.scratch('p14.hwp'), t)
    out = []
    for mode in modes:
        key = mode[0] if mode else ''
        names = ls(path, mode)
        expect_equal(len(names), len(set(names)),
                     'names listed more than once: %r' % sorted(
                         n for n in set(names) if names.count(n) > 1))
        real = want[key]
        missing = sorted(set(real) - set(names))
        expect(not missing, 'ls %s does not list %r' % (key, missing))
        extra = sorted(set(names) - set(real))
        if virtual is None or key != '--vstreams':
            expect(not extra, 'ls %s lists %r, which is not there'
                   % (key, extra))
        for n in names:
            code, got = cat(path, n, mode)
            expect_equal(code, 0, 'exit status of cat %s %r' % (key, n))
            if n in real:
                expect_equal(got, real[n], 'cat %s %r' % (key, n))
            else:
                virtual(path, n, got)
        if refuse:
            for n in near(names):
                code, got = cat(path, n, mode)
                expect(code != 0, 'cat %s %r, which is not listed, gave %r'
                       % (key, n, got[:60]))
                expect_equal(got, b'', 'output for a refused name %r' % n)
        out.append(names)
    return out


# ---- shapes

def forests(n):
    """forests of n nodes: tuples of trees; a tree is a forest (storage)
    or None (a stream)"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        firsts = ([None] if k == 1 else []) + list(forests(k - 1))
        for first in firsts:
            for rest in forests(n - k):
                yield (first,) + rest


def shape_cases(tier):
    for n in range(0, 5 if tier == 'quick' else 7):
        for f in forests(n):
            for root in ([], ['BinData'], ['Scripts']):
                if n == 6 and root:
                    continue
                yield {'f': f, 'root': root, 'p': 0}
                yield {'f': f, 'root': root, 'p': 1}


NAMES = ['a', 'B', 'c c', '\uac00', 'e.x', 'F']
# each a prefix of the next
PREFIXES = ['S', 'S1', 'S10', 'S10.', 'S10.x', 'S10.x ']


def build(f, base, t, k=None, names=NAMES):
    if k is None:
        k = [0]
    for i, sub in enumerate(f):
        name = names[i]
        if sub is None:
            k[0] += 1
            t[name] = b'content %d %s' % (k[0], '/'.join(base).encode())
        else:
            t[name] = {}
            # other names than in the storages beside it
            build(sub, base + [name], t[name], k,
                  names[i + 1:] + names[:i + 1])


def shape_run(case):
    t = {'FileHeader': hwp.fileheader((5, 0, 1, 7), 0)}
    d = t
    for name in case['root']:
        d[name] = d = {}
    build(case['f'], [], d, None, PREFIXES if case['p'] else NAMES)
    want = dict(('/'.join(p), data) for p, data in parts.walk(t))
    return check_tree(t, {'': want, '--ole': want},
                      modes=([], ['--ole']), refuse=len(want) < 4)


# ---- names

CHARS = ['a', '\\', '\x05', '\x01', ' ', '\n', '\uac00', '%', '"', "'", '*',
         '?', '\xe9', '\uffe6', '-', '_', '.', '..', '\\x05', '\\u0041',
         '\x7f']


def name_cases(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for t in itertools.product(range(len(CHARS)), repeat=n):
            s = ''.join(CHARS[k] for k in t)
            if s == '--':
                continue         # a separator to the command line parser
            if n > 1 and tier == 'quick' and t[0] > 6 and t[1] > 6:
                continue
            yield {'name': s, 'deep': n == 1}
    for n in (30, 31):
        yield {'name': 'n' * n, 'deep': True}
        yield {'name': '\uac00' * n, 'deep': True}


def name_run(case):
    s = case['name']
    t = {'FileHeader': hwp.fileheader((5, 0, 1, 7), 0), s: b'one'}
    if case['deep']:
        t['S'] = {s: b'two', 'T': {s: b'three', 'x': b'four'}}
        del t[s]
        t['z' if s != 'z' else 'y'] = b'five'
        if s.lower() not in ('s', 't'):
            t[s] = {s: b'six'}
    else:
        t['D'] = {s: b'seven', 'D': b'eight'}
    want = dict(('/'.join(p), data) for p, data in parts.walk(t))
    return check_tree(t, {'': want, '--ole': want, '--vstreams': None},
                      modes=([], ['--ole']), refuse=False)


# ---- sizes

def size_cases(tier):
    for n in (0, 1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 20000,
              100000):
        for flags in (0, 1):
            for deep in (0, 1):
                yield {'n': n, 'flags': flags, 'deep': deep}


def size_run(case):
    p = {('DocInfo',): hwp.docinfo()}
    names = [('Other', 's%d' % i) for i in range(3)]
    names += [('BinData', 'BIN%04X.bin' % (i + 1)) for i in range(3)]
    if case['deep']:
        names += [('A', 'B', 'C', 'D'), ('A', 'B', 'E')]
    for i, name in enumerate(names):
        p[name] = parts.blocks(case['n'] + i)[:case['n'] + i]
    t = parts.tree(p, case['flags'])
    raw = dict(('/'.join(q), data) for q, data in parts.walk(t))
    plain = dict(('/'.join(q), data) for q, data in p.items())
    plain['FileHeader'] = raw['FileHeader']
    return check_tree(t, {'': plain, '--ole': raw}, modes=([], ['--ole']))


# ---- documents, virtual streams

def vdoc(flags, sections=2, version=(5, 0, 1, 7), extra=None):
    p = {('DocInfo',): hwp.docinfo(version=version, sections=sections,
                                   bindata=[dict(flags=1, bindata=dict(
                                       storage_id=1, ext='jpg'))])}
    for which in ['BodyText'] + (['ViewText'] if flags & 4 else []):
        for i in range(sections):
            nodes = [doc.secpara(['%s %d \uac00' % (which, i), 13]),
                     doc.para([doc.table([[[doc.para(['cell', 13])]]]), 13])]
            d = doc.stream(nodes, version)
            if flags & 4 and which == 'ViewText' and not flags & 1:
                from mc import rec
                d += rec.encode([(1000, 0, b'\0' * (-(len(d) + 4) % 16))])
            p[which, 'Section%d' % i] = d
    p['BinData', 'BIN0001.jpg'] = parts.blocks(200)
    p['PrvText',] = '미리 보기\r\n'.encode('utf-16le') * 40
    p['PrvImage',] = parts.blocks(64)
    p['\x05HwpSummaryInformation',] = hwp.summaryinfo()
    p['Scripts', 'DefaultJScript'] = parts.blocks(64)
    for path, data in (extra or {}).items():
        p[path] = data
    return p


VIEWS = {'.records', '.models', '.xml', '.txt', '.utf8'}
EXPECT = {
    'DocInfo': ['.records', '.models', '.xml'],
    'FileHeader': ['.txt'],
    'PrvText': ['.utf8'],
    '\x05HwpSummaryInformation': ['.txt'],
}


def doc_cases(tier):
    for flags in (0, 1, 4, 5, 8, 0xff8):
        for sections in (1, 2, 11) if tier == 'quick' else (1, 2, 3, 11):
            for version in ((5, 0, 1, 7), (5, 0, 3, 4)):
                yield {'flags': flags, 'n': sections, 'v': list(version),
                       'clash': 0}
    # streams which have names of virtual streams
    clashes = [('DocInfo.xml',), ('FileHeader.txt',), ('PrvText.utf8',),
               ('BodyText.xml',), ('BodyText', 'Section0.xml'),
               ('DocInfo.records',), ('BinData', 'DocInfo.xml'),
               ('Custom', 'DocInfo')]
    for n in (1, 2):
        for c in itertools.combinations(range(len(clashes)), n):
            for flags in (0, 1):
                yield {'flags': flags, 'n': 1, 'v': [5, 0, 1, 7],
                       'clash': [list(clashes[k]) for k in c]}


def doc_run(case):
    extra = {}
    for k, c in enumerate(case['clash'] or []):
        extra[tuple(c)] = parts.blocks(32 + 16 * k)
        if c[0] == 'BodyText' and len(c) == 2:
            # everything in there is records
            extra[tuple(c)] = doc.stream([doc.secpara(['clash', 13])],
                                         (5, 0, 1, 7))
    flags = case['flags']
    p = vdoc(flags, case['n'], tuple(case['v']), extra)
    t = parts.tree(p, flags, version=tuple(case['v']))
    raw = dict(('/'.join(q), data) for q, data in parts.walk(t))
    plain = dict(('/'.join(q), data) for q, data in p.items())
    plain['FileHeader'] = raw['FileHeader']
    seen = []

    def virtual(path, name, got):
        seen.append(name)
        root, ext = name.rsplit('.', 1)
        ext = '.' + ext
        expect(root in plain or root in ('BodyText', 'ViewText'),
               'virtual stream %r of nothing' % name)
        stream = {'DocInfo': 'docinfo'}.get(root, root)
        if ext == '.records' or ext == '.models':
            if root.endswith('.xml'):
                return           # a clash that is parsed as a section
            cmd = ext[1:]
            r = cli.run('hwp5proc', [cmd, path, stream] if cmd == 'records'
                        else [cmd, path, stream])
            expect_equal(r.code, 0, 'exit status of %s' % cmd)
            expect_equal(json.loads(got.decode('utf-8')),
                         json.loads(r.out.decode('utf-8')),
                         '%s and hwp5proc %s' % (name, cmd))
        elif ext == '.xml':
            if root.endswith('.xml'):
                return
            doc.parse_xml(got)
            if root in ('BodyText', 'DocInfo'):
                r = cli.run('hwp5proc', ['xml', '--no-validate-wellformed',
                                         path])
                expect_equal(r.code, 0, 'exit status of xml')
                if root == 'DocInfo' or not flags & 4:
                    same_element(got, r.out, root)
        elif ext == '.txt' and root == 'FileHeader':
            r = cli.run('hwp5proc', ['header', path])
            expect_equal(got, r.out, 'FileHeader.txt and hwp5proc header')
        elif ext == '.utf8':
            expect_equal(got, p['PrvText',].decode('utf-16le').encode(),
                         name)
        else:
            expect(b'title' in got and b'author' in got, name)
    modes = ([], ['--ole'], ['--vstreams'])
    res = check_tree(t, {'': plain, '--ole': raw, '--vstreams': plain},
                     modes, case['n'] == 1 and flags in (0, 5), virtual)
    need = dict(EXPECT)
    for i in range(case['n']):
        need['BodyText/Section%d' % i] = ['.records', '.models', '.xml']
        if flags & 4:
            need['ViewText/Section%d' % i] = ['.records', '.models', '.xml']
    if case['n']:
        need['BodyText'] = ['.xml']
    for root, exts in need.items():
        for ext in exts:
            expect(root + ext in res[2] , '%s%s is not listed' % (root, ext))
    return res


def same_element(part, whole, tag):
    from xml.etree import ElementTree as ET
    a = ET.fromstring(part)
    b = ET.fromstring(whole).find(tag)
    expect(b is not None, 'no %s in the XML of the document' % tag)

    def flat(e):
        return [(x.tag, sorted((k, v) for k, v in x.attrib.items()
                               if not k.endswith('-id')), x.text or '')
                for x in e.iter()]
    expect_equal(flat(a), flat(b), '%s.xml and the XML of the document' % tag)


# ---- library: opening again, other storages

def lib_cases(tier):
    for flags in (0, 1, 5):
        for how in ('file', 'memory', 'directory'):
            yield {'flags': flags, 'how': how}


def lib_run(case):
    import os
    import shutil
    from hwp5.storage import ExtraItemStorage
    from hwp5.storage import iter_storage_leafs
    from hwp5.storage import open_storage_item
    from hwp5.storage.fs import FileSystemStorage
    from hwp5.xmlmodel import Hwp5File
    p = vdoc(case['flags'])
    t = parts.tree(p, case['flags'])
    if case['how'] == 'memory':
        stg = hwp.Storage(t)
    elif case['how'] == 'file':
        stg = hwp.write(hwp.scratch('p14.hwp'), t)
    else:
        top = hwp.scratch('p14dir')
        shutil.rmtree(top, ignore_errors=True)
        for path, data in parts.walk(t):
            fn = os.path.join(top, *path)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, 'wb') as f:
                f.write(data)
        stg = FileSystemStorage(top)
    f = ExtraItemStorage(Hwp5File(stg))
    names = list(iter_storage_leafs(f))
    expect_equal(len(names), len(set(names)), 'listed more than once')
    plain = dict(('/'.join(q), data) for q, data in p.items())
    expect(set(plain) <= set(names), 'not listed: %r'
           % sorted(set(plain) - set(names)))
    first = {}
    for again in range(3):
        items = dict((n, open_storage_item(f, n)) for n in names)
        for n in sorted(names, reverse=again == 1):
            for k in range(2):
                got = items[n].open().read()
                if isinstance(got, str):
                    got = got.encode('utf-8')
                if n in plain:
                    expect_equal(got, plain[n], n)
                expect_equal(got, first.setdefault(n, got),
                             '%s opened again' % n)
        names2 = list(iter_storage_leafs(f))
        expect_equal(names2, names, 'listed again')
    for n in near(names):
        if case['how'] == 'file' and (n == '' or '//' in n):
            continue
        try:
            item = open_storage_item(f, n)
            item.open
        except KeyError:
            continue
        except Exception:
            continue
        else:
            if hasattr(item, '__getitem__'):
                continue         # a storage
            raise Violation('%r, which is not listed, opens' % n)
    return names


FAMILIES = [
    Family('shapes', shape_cases, shape_run),
    Family('names', name_cases, name_run),
    Family('sizes', size_cases, size_run),
    Family('documents', doc_cases, doc_run),
    Family('library', lib_cases, lib_run),
]
