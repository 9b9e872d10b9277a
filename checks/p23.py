# -*- coding: utf-8 -*-
"""P23 files which are not HWP v5 documents are refused, all others known."""
import itertools
import os
import shutil
import struct

from mc import cfb
from mc import cli
from mc import hwp
from mc import parts
from mc.core import Family, TRIVIAL, Violation, expect, expect_equal

PROPERTY = 'P23'
LEVEL = 'exploration'
RULE = ('a case is a block of files made by one kind of change to a document: '
        'cut, one byte changed, another signature, header size, header place, '
        'version or flags; commands: one command on one refused file; '
        'non-trivial when a file is examined')
ASSUMPTIONS = ['a file damaged outside of its OLE2 structures, its FileHeader '
               'entry and the header itself is still a document',
               'a file whose OLE2 structures are damaged is refused or '
               'recognised, but never anything else']

V = (5, 0, 3, 4)
LAYERS = ('filestructure', 'recordstream', 'binmodel', 'xmlmodel')
FLAGS = ['compressed', 'password', 'distributable', 'script', 'drm',
         'xmltemplate_storage', 'history', 'cert_signed', 'cert_encrypted',
         'cert_signature_extra', 'cert_drm', 'ccl']


def plain_tree(**kw):
    return hwp.tree(version=V, docinfo_bytes=hwp.docinfo(V), sections=(b'',),
                    **kw)


def document():
    return cfb.build(plain_tree())


def big():
    """the header between larger streams, none of them in the mini stream"""
    t = plain_tree(bindata={'BIN0001.png': b'x' * 5000})
    t['AAA'] = b'a' * 4200
    return cfb.build(t)


BASES = {'document': document, 'big': big}


def put(name, data):
    p = hwp.scratch(name)
    with open(p, 'wb') as f:
        f.write(data)
    return p


def examine(path, what, layer='filestructure'):
    """-> None when refused, or (version, flags); anything else is wrong"""
    import importlib
    from hwp5.filestructure import is_hwp5file
    from hwp5.errors import InvalidHwp5FileError
    try:
        known = is_hwp5file(path)
    except Exception as e:
        raise Violation('%s: is_hwp5file raises %s: %s'
                        % (what, type(e).__name__, e))
    expect(known is True or known is False,
           '%s: is_hwp5file -> %r' % (what, known))
    cls = importlib.import_module('hwp5.' + layer).Hwp5File
    try:
        f = cls(path)
    except InvalidHwp5FileError:
        got = None
    except Exception as e:
        raise Violation('%s: opening raises %s: %s'
                        % (what, type(e).__name__, e))
    else:
        try:
            got = (tuple(f.header.version), int(f.header.flags))
        finally:
            f.close()
    expect_equal(known, got is not None, '%s: is_hwp5file and opening' % what)
    return got


# ---- truncation

def trunc_cases(tier):
    for base in sorted(BASES):
        n = len(BASES[base]())
        for lo in range(0, n, 128):
            yield {'base': base, 'lo': lo, 'hi': min(lo + 128, n)}


def trunc_run(case):
    data = BASES[case['base']]()
    out = []
    for n in range(case['lo'], case['hi']):
        p = put('cut.hwp', data[:n])
        got = examine(p, 'cut at %d of %d' % (n, len(data)))
        # the allocation table is the last sector
        expect_equal(got, None, 'cut at %d of %d' % (n, len(data)))
    expect_equal(examine(put('cut.hwp', data + b'\0' * (case['lo'] % 7)),
                         'whole'), (V, 0), 'the whole file')
    return case['hi']


# ---- single bytes

def flip_cases(tier):
    for base in sorted(BASES):
        n = len(BASES[base]())
        for lo in range(0, n, 32):
            yield {'base': base, 'lo': lo, 'all': tier == 'thorough'}


def regions(data):
    """(structure bytes, header offset) of a document of mc.cfb"""
    head = data.find(hwp.SIGNATURE)
    structure = set(range(512))
    first_dir = struct.unpack('<I', data[48:52])[0]
    minifat = struct.unpack('<I', data[60:64])[0]
    for start in (first_dir, minifat):
        fat_at = struct.unpack('<I', data[76:80])[0]
        s = start
        while s < 0xfffffff0:
            structure.update(range(512 * (s + 1), 512 * (s + 2)))
            at = 512 * (fat_at + 1) + 4 * s
            s = struct.unpack('<I', data[at:at + 4])[0]
    structure.update(range(512 * (fat_at + 1), 512 * (fat_at + 2)))
    return structure, head


def flip_run(case):
    data = BASES[case['base']]()
    structure, head = regions(data)
    lo = case['lo']
    out = []
    # sizes of sectors are powers of a byte of the header; larger ones only
    # make the reader allocate more
    values = (1, 2, 4, 8, 16, 32, 64, 128, 255)
    for at in range(lo, min(lo + 32, len(data))):
        every = case['all'] and (at in structure or head <= at < head + 40)
        for x in range(1, 256) if every else values:
            b = bytearray(data)
            b[at] ^= x
            what = 'byte %#x: %02x for %02x' % (at, b[at], data[at])
            got = examine(put('flip.hwp', bytes(b)), what)
            if at in structure:
                # a readable header is still the same one, wherever the
                # damage is
                if at < 8:
                    expect_equal(got, None, what)
                out.append(got)
                continue
            rel = at - head
            if 0 <= rel < 32:
                want = None
            elif 32 <= rel < 40:
                want = (tuple(reversed(b[head + 32:head + 36])),
                        struct.unpack('<I', b[head + 36:head + 40])[0])
            else:
                want = (V, 0)
            expect_equal(got, want, what)
            out.append(got)
    return out


# ---- the signature

def sig_cases(tier):
    for i in range(32):
        yield {'byte': i}
    yield {'others': True}


def other_signatures():
    s = hwp.SIGNATURE
    yield s.replace(b'HWP', b'hwp')
    yield b'HWP Document File V3.00 \x1a\1\2\3\4\5'.ljust(32, b'\0')
    yield b'\0' * 32
    yield b'\xff' * 32
    yield s[1:] + b'\0'
    yield b'\0' + s[:-1]
    yield s.replace(b' ', b'\0')
    yield s.replace(b'\0', b' ')
    for n in range(0, 17):
        yield s[:n].ljust(32, b'\0')
    for n in range(18, 33):
        yield s[:17] + b'\0' * (n - 18) + b'x' + b'\0' * (32 - n)
    for a, b in itertools.combinations(range(17), 2):
        t = bytearray(s)
        t[a], t[b] = t[b], t[a]
        if bytes(t) != s:
            yield bytes(t)


def sig_run(case):
    from hwp5.filestructure import storage_is_hwp5file
    if 'byte' in case:
        sigs = []
        for v in range(256):
            t = bytearray(hwp.SIGNATURE)
            t[case['byte']] = v
            sigs.append(bytes(t))
    else:
        sigs = list(other_signatures())
    base = document()
    at = base.find(hwp.SIGNATURE)
    for s in sigs:
        assert len(s) == 32
        want = s == hwp.SIGNATURE
        stg = hwp.Storage({'FileHeader': hwp.fileheader(V, 0, s)})
        expect_equal(storage_is_hwp5file(stg), want, 'signature %r' % s)
        got = examine(put('sig.hwp', base[:at] + s + base[at + 32:]),
                      'signature %r' % s)
        expect_equal(got, (V, 0) if want else None, 'signature %r' % s)
    return len(sigs)


# ---- the size and the place of the header

def size_cases(tier):
    for lo in range(0, 320, 16):
        yield {'lo': lo, 'hi': lo + 16}
    yield {'sizes': [511, 512, 513, 4095, 4096, 4097, 10000]}


def size_run(case):
    from hwp5.filestructure import storage_is_hwp5file
    sizes = case.get('sizes') or range(case['lo'], case['hi'])
    full = hwp.fileheader(V, 0)
    for n in sizes:
        what = 'header of %d bytes' % n
        h = full[:n].ljust(n, b'\0')
        stg = hwp.Storage({'FileHeader': h})
        try:
            known = storage_is_hwp5file(stg)
        except Exception as e:
            raise Violation('%s: raises %r' % (what, e))
        t = plain_tree()
        t['FileHeader'] = h
        got = examine(put('size.hwp', cfb.build(t)), what)
        expect_equal(known, got is not None, what)
        if n < 256:
            expect_equal(got, None, what)
        elif n == 256:
            expect_equal(got, (V, 0), what)
        elif got is not None:
            expect_equal(got, (V, 0), what)
    return list(sizes)


PLACES = {
    'absent': lambda t: t.pop('FileHeader'),
    'storage': lambda t: t.update(FileHeader={'x': b'y'}),
    'empty storage': lambda t: t.update(FileHeader={}),
    'inside itself': lambda t: t.update(
        FileHeader={'FileHeader': hwp.fileheader(V)}),
    'in another': lambda t: t['BodyText'].update(
        FileHeader=t.pop('FileHeader')),
    'longer name': lambda t: t.update(FileHeader2=t.pop('FileHeader')),
    'shorter name': lambda t: t.update(FileHeade=t.pop('FileHeader')),
    'spaced name': lambda t: t.update({'FileHeader ': t.pop('FileHeader')}),
    'empty stream': lambda t: t.update(FileHeader=b''),
    'nothing else': lambda t: [t.pop(k) for k in list(t)
                               if k != 'FileHeader'],
    'nothing': lambda t: t.clear(),
}


def place_cases(tier):
    for k in sorted(PLACES):
        for layer in LAYERS:
            yield {'place': k, 'layer': layer}


def place_run(case):
    from hwp5.filestructure import storage_is_hwp5file
    t = plain_tree()
    PLACES[case['place']](t)
    want = (V, 0) if case['place'] == 'nothing else' else None
    got = examine(put('place.hwp', cfb.build(t)), case['place'],
                  case['layer'])
    expect_equal(got, want, case['place'])
    expect_equal(storage_is_hwp5file(hwp.Storage(t)), want is not None,
                 case['place'] + ' as a storage')
    return got


# ---- version and flags

def header_cases(tier):
    for i in range(4):
        for v in range(0, 256, 32):
            yield {'component': i, 'lo': v}
    for v in itertools.product((0, 1, 127, 128, 255), repeat=4):
        yield {'version': list(v)}
    for layer in LAYERS:
        for lo in range(33):
            yield {'pairs': lo, 'layer': layer}
    for hi in range(0, 4096, 64):
        yield {'known': hi}


def headers(case):
    if 'component' in case:
        for x in range(case['lo'], case['lo'] + 32):
            v = [5, 0, 1, 7]
            v[case['component']] = x
            yield tuple(v), 0
    elif 'version' in case:
        yield tuple(case['version']), 0x1234
    elif 'known' in case:
        for f in range(case['known'], case['known'] + 64):
            yield V, f
    else:
        i = case['pairs']
        if i == 32:
            for f in (0, 0xffffffff, 0xfffff000, 0x7fffffff, 0x80000000):
                yield V, f
        else:
            for j in range(32):
                yield V, 1 << i | 1 << j


def header_run(case):
    files = case.get('layer', 'filestructure')
    n = 0
    from hwp5 import filestructure
    for version, flags in headers(case):
        what = 'version %s flags %#x' % ('.'.join(map(str, version)), flags)
        h = hwp.fileheader(version, flags)
        stg = hwp.Storage({'FileHeader': h})
        expect_equal(filestructure.storage_is_hwp5file(stg), True, what)
        header = filestructure.Hwp5FileBase(stg).header
        expect_equal(tuple(header.version), version, what)
        for bit, name in enumerate(FLAGS):
            expect_equal(int(getattr(header.flags, name)), flags >> bit & 1,
                         '%s: %s' % (what, name))
        text = {'signature': 'HWP Document File',
                'version': '.'.join(map(str, version))}
        for bit, name in enumerate(FLAGS):
            text[name] = str(flags >> bit & 1)
        want = ''.join('%s: %s\n' % x for x in sorted(text.items()))
        got = header.open_text().read().decode('utf-8')
        expect_equal(got, want, '%s: text' % what)
        n += 1
        if 'known' in case and flags & 63:
            continue
        p = put('header.hwp', cfb.build({
            'FileHeader': h, 'DocInfo': b'', 'BodyText': {}}))
        expect_equal(examine(p, what, files), (version, flags), what)
        r = cli.run('hwp5proc', ['version', p])
        expect_equal((r.code, r.out),
                     (0, ('%d.%d.%d.%d\n' % version).encode()),
                     '%s: hwp5proc version' % what)
        r = cli.run('hwp5proc', ['header', p])
        expect_equal((r.code, r.out), (0, want.encode('utf-8')),
                     '%s: hwp5proc header' % what)
    return n


# ---- contents which are no OLE2 files at all

def foreign():
    doc = document()
    yield 'empty', b''
    for n in (1, 7, 8, 9, 511, 512, 513, 1535, 1536):
        yield 'magic and %d' % n, doc[:8].ljust(n, b'\0')
        yield 'zeros %d' % n, b'\0' * n
        yield 'text %d' % n, (b'hello world\n' * 200)[:n]
    yield 'signature only', hwp.SIGNATURE
    yield 'header only', hwp.fileheader(V)
    yield 'hwp 3', b'HWP Document File V3.00 \x1a\1\2\3\4\5'.ljust(2000, b'1')
    yield 'zip', b'PK\x05\x06' + b'\0' * 18
    yield 'xml', b'<?xml version="1.0"?><a/>'
    yield 'shifted', b'\0' + doc
    yield 'twice the magic', doc[:8] + doc
    yield 'reversed', doc[::-1]


def foreign_cases(tier):
    for name, data in foreign():
        yield {'name': name}
    for i in range(8):
        yield {'magic': i}


def foreign_run(case):
    if 'magic' in case:
        base = document()
        n = 0
        for v in range(256):
            if v == base[case['magic']]:
                continue
            b = bytearray(base)
            b[case['magic']] = v
            expect_equal(examine(put('f.hwp', bytes(b)), 'magic %d %d' % (
                case['magic'], v)), None, 'magic')
            n += 1
        return n
    data = dict(foreign())[case['name']]
    for layer in LAYERS:
        expect_equal(examine(put('f.hwp', data), case['name'], layer), None,
                     case['name'])
    return case['name']


# ---- commands

PROC = [['version', 'F'], ['header', 'F'], ['summaryinfo', 'F'],
        ['ls', 'F'], ['ls', '--vstreams', 'F'], ['ls', '--ole', 'F'],
        ['cat', 'F', 'DocInfo'], ['cat', '--vstreams', 'F', 'DocInfo.xml'],
        ['cat', '--ole', 'F', 'DocInfo'], ['cat', 'F', 'FileHeader'],
        ['unpack', 'F'], ['unpack', 'F', 'there'],
        ['unpack', '--vstreams', 'F'], ['unpack', '--ole', 'F'],
        ['unpack', '--ole', 'F', 'there'],
        ['records', 'F', 'DocInfo'], ['records', '--raw', 'F', 'DocInfo'],
        ['records', '--simple', 'F', 'BodyText/Section0'],
        ['models', 'F', 'DocInfo'], ['models', '--simple', 'F', 'docinfo'],
        ['models', '--events', 'F', 'DocInfo'],
        ['find', 'F'], ['find', '--model=Paragraph', 'F'],
        ['find', 'F', 'F'], ['find', '--from-stdin'],
        ['xml', 'F'], ['xml', '--format=flat', 'F'],
        ['xml', '--output', 'out.xml', 'F'],
        ['xml', '--embedbin', '--no-xml-decl', 'F'],
        ['xml', '--no-validate-wellformed', '--output', 'kept', 'F']]
CONV = {
    'hwp5txt': [['F'], ['--output', 'out.txt', 'F'],
                ['--output', 'kept', 'F']],
    'hwp5html': [['F'], ['--output', 'out', 'F'], ['--output', 'keptdir', 'F'],
                 ['--html', 'F'], ['--css', 'F'],
                 ['--html', '--output', 'out.html', 'F'],
                 ['--css', '--output', 'kept', 'F']],
    'hwp5odt': [['F'], ['--output', 'out.odt', 'F'], ['--output', 'kept', 'F'],
                ['--styles', 'F'], ['--content', 'F'], ['--document', 'F'],
                ['--document', '--output', 'out.fodt', 'F'],
                ['--content', '--output', 'kept', 'F']],
}
COMMANDS = [('hwp5proc', a) for a in PROC] + [
    (p, a) for p in sorted(CONV) for a in CONV[p]]


def refused():
    """name -> (bytes, is it an OLE2 file)"""
    doc = document()
    out = {}
    for name, data in foreign():
        out[name] = (data, False)
    for n in (8, 76, 511, 512, 1024, len(doc) - 513, len(doc) - 1):
        out['cut at %d' % n] = (doc[:n], False)
    for at, value in ((30, 0), (30, 31), (48, 0x77), (0x4c, 0x99), (68, 1)):
        b = bytearray(doc)
        b[at] = value
        if at == 68:
            b[72] = 1
        out['byte %#x' % at + ' %x' % value] = (bytes(b), None)
    for k in sorted(PLACES):
        if k != 'nothing else':
            t = plain_tree()
            PLACES[k](t)
            out['place ' + k] = (cfb.build(t), True)
    for n in (1, 31, 32, 36, 40, 255):
        t = plain_tree()
        t['FileHeader'] = hwp.fileheader(V)[:n]
        out['header of %d' % n] = (cfb.build(t), True)
    at = doc.find(hwp.SIGNATURE)
    for i in (0, 3, 16, 17, 31):
        b = bytearray(doc)
        b[at + i] ^= 0x20
        out['signature %d' % i] = (bytes(b), True)
    return out


def command_cases(tier):
    names = sorted(refused())
    for prog, args in COMMANDS:
        for lo in range(0, len(names), 8):
            yield {'prog': prog, 'args': args, 'names': names[lo:lo + 8]}


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def fds():
    return sorted(os.readlink('/proc/self/fd/' + x)
                  for x in os.listdir('/proc/self/fd')
                  if os.path.exists('/proc/self/fd/' + x))


def command_run(case):
    files = refused()
    import tempfile
    n = 0
    for name in case['names']:
        data, ole = files[name]
        if '--ole' in case['args'] and ole is not False:
            continue
        if ole is None:
            p = put('probe.hwp', data)
            if examine(p, name) is not None:
                continue
        work = hwp.scratch('work')
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(os.path.join(work, 'keptdir', 'sub'))
        tmp = hwp.scratch('tmp')
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for k in ('kept', 'keptdir/sub/file'):
            with open(os.path.join(work, k), 'wb') as f:
                f.write(b'precious')
        with open(os.path.join(work, 'F.hwp'), 'wb') as f:
            f.write(data)
        before = listing(work)
        args = ['F.hwp' if a == 'F' else a for a in case['args']]
        opened = fds()
        saved = tempfile.tempdir
        tempfile.tempdir = tmp
        try:
            r = cli.run(case['prog'], args, cwd=work,
                        stdin=b'F.hwp\n' if '--from-stdin' in args else b'')
        finally:
            tempfile.tempdir = saved
        what = '%s %s on %s' % (case['prog'], ' '.join(args), name)
        if r.exc is not None:
            raise Violation('%s crashes with %s: %s' % (
                what, type(r.exc).__name__, r.exc))
        expect(r.code != 0, '%s: exit status 0' % what)
        expect(r.err.strip(), '%s: no message' % what)
        expect_equal(r.out, b'', '%s: output' % what)
        after = listing(work)
        expect_equal(sorted(k for k in set(before) | set(after)
                            if before.get(k, 0) != after.get(k, 0)), [],
                     '%s: files changed' % what)
        expect_equal(os.listdir(tmp), [], '%s: temporary files' % what)
        del r
        expect_equal(fds(), opened, '%s: open files' % what)
        n += 1
    return n or TRIVIAL


# ---- the documented ways to name a document

def source_cases(tier):
    for kind in ('filename', 'storage', 'olestorage', 'olefileio', 'memory'):
        for good in ('document', 'nothing', 'absent', 'signature', 'short',
                     'storage', 'password', 'distributable'):
            for layer in LAYERS:
                yield {'kind': kind, 'good': good, 'layer': layer}


def source_run(case):
    import importlib
    from hwp5.errors import InvalidHwp5FileError
    from hwp5.storage.ole import OleStorage
    flags = {'password': 2, 'distributable': 4}.get(case['good'], 0)
    t = plain_tree(flags=flags)
    good = case['good']
    if good == 'nothing':
        t.clear()
    elif good == 'absent':
        del t['FileHeader']
    elif good == 'signature':
        t['FileHeader'] = hwp.fileheader(V, 0, b'x' * 32)
    elif good == 'short':
        t['FileHeader'] = hwp.fileheader(V)[:200]
    elif good == 'storage':
        t['FileHeader'] = {}
    p = put('source.hwp', cfb.build(t))
    cls = importlib.import_module('hwp5.' + case['layer']).Hwp5File
    if case['kind'] == 'filename':
        src = p
    elif case['kind'] in ('storage', 'memory'):
        src = hwp.Storage(t)
    elif case['kind'] == 'olestorage':
        src = OleStorage(p)
    else:
        import olefile
        src = olefile.OleFileIO(p)
    valid = good in ('document', 'password', 'distributable')
    try:
        f = cls(src)
    except InvalidHwp5FileError as e:
        expect(not valid, '%s refused: %s' % (case, e))
        return 'refused'
    expect(valid, '%s accepted' % case)
    expect_equal((tuple(f.header.version), int(f.header.flags)), (V, flags),
                 'header of %s' % case)
    expect_equal(f.fileheader.signature, hwp.SIGNATURE, 'signature')
    if case['kind'] != 'memory':
        f.close()
    return 'accepted'


FAMILIES = [
    Family('places', place_cases, place_run),
    Family('sources', source_cases, source_run),
    Family('foreign', foreign_cases, foreign_run),
    Family('sizes', size_cases, size_run),
    Family('signatures', sig_cases, sig_run),
    Family('headers', header_cases, header_run),
    Family('commands', command_cases, command_run),
    Family('truncations', trunc_cases, trunc_run),
    Family('bytes', flip_cases, flip_run),
]
