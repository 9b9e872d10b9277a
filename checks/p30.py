# -*- coding: utf-8 -*-
"""P30 the OLE back ends are interchangeable."""
import io
import itertools
import os
import shutil

from checks import p14
from checks import p20
from checks import p21
from mc import cfb
from mc import cli
from mc import hwp
from mc import oleback
from mc.core import Family, Violation, expect, expect_equal

from hwp5.errors import InvalidOleStorageError
from hwp5.storage import is_storage
from hwp5.storage import is_stream
from hwp5.storage.ole import OleStorage

PROPERTY = 'P30'
LEVEL = 'exploration'
RULE = ('a case is one compound file, or one sequence of operations on its '
        'streams, under each of the back ends')
ASSUMPTIONS = ['UNO and POIFS are stand-ins with the interface which the '
               'adapters use (libgsf is both real and a stand-in)',
               'positions stay within the stream, sizes are not negative',
               'a storage without streams need not be listed']

KINDS = ['olefile', 'gsf', 'uno', 'poifs']
ALL = KINDS + (['libgsf'] if oleback.REAL else [])


def scratch():
    d = hwp.scratch('p30')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def stored(t):
    path = os.path.join(scratch(), 'f.ole')
    return hwp.write(path, t)


def isempty(t):
    return isinstance(t, dict) and all(isempty(x) for x in t.values())


def same(stg, t, where=''):
    """the storage is the tree"""
    expect(is_storage(stg) and not is_stream(stg), '%s is no storage' % where)
    got = list(stg)
    expect_equal(len(got), len(set(got)), 'names of %r listed twice' % where)
    for x in got:
        expect(isinstance(x, type('')), 'name %r' % x)
    want = set(n for n in t if not isempty(t[n]))
    expect(want <= set(got) <= set(t), 'listing of %r: got %r, expected %r'
           % (where, sorted(got), sorted(want)))
    low = set(n.lower() for n in t)
    for n in sorted(t):
        if n not in got:
            continue
        expect(n in stg, '%r in storage' % n)
        if isinstance(t[n], dict):
            same(stg[n], t[n], where + '/' + n)
        else:
            item = stg[n]
            expect(is_stream(item) and not is_storage(item),
                   '%s/%s is no stream' % (where, n))
            fs = [item.open(), item.open(), stg[n].open()]
            for f in fs:
                expect_equal(f.read(), t[n], 'content of %s/%s' % (where, n))
                expect_equal(f.read(), b'', 'read at the end')
            for f in fs:
                f.close()
        for x in (n + 'x', n[:-1], 'x' + n, n + ' '):
            if x.lower() not in low and x and '/' not in x:
                refused(stg, x)
    refused(stg, 'nothing')


def refused(stg, name):
    try:
        x = stg[name]
    except KeyError:
        return
    raise Violation('%r, which is not there, is %r' % (name, x))


def every(t, run=None):
    path = stored(t)
    for k in ALL:
        with oleback.Installed(k):
            try:
                stg = OleStorage(path)
                (run or same)(stg, t)
                stg.close()
            except Violation as e:
                raise Violation('%s: %s' % (k, e.message))


# ---- trees, names, contents

def tree_cases(tier):
    for n in range(6 if tier == 'quick' else 8):
        for f in p14.forests(n):
            yield {'t': f}


def grow(f, count):
    t = {}
    for i, x in enumerate(f):
        name = 'n%d' % i
        count[0] += 1
        if x is None:
            t[name] = b'%d' % count[0] * count[0]
        else:
            t[name] = grow(x, count)
    return t


def tree_run(case):
    t = grow(case['t'], [0])
    every(t)
    return repr(t)


NAMES = ['a', 'A b', '\uac00', '\x05HwpSummaryInformation', 'x' * 31, '%41',
         'a.b', '.', '..', 'a\\b', 'a:b', '_', '\xe9', 'e\u0301', '\u3000',
         '1', 'BIN0001.png', '\u1100\u1161', '$', '~', "'", '"', '&', '<',
         '\U0001f600', 'name', 'open', '__iter__', 'close', '\t', ' a', 'a ']


def name_cases(tier):
    for n in NAMES:
        yield {'n': [n]}
    for a, b in itertools.combinations(NAMES, 2):
        yield {'n': [a, b]}


def name_run(case):
    for t in (dict((n, n.encode('utf-8') * 3) for n in case['n']),
              dict((n, {'x': b'x', n: b'y'}) for n in case['n'])):
        if len(set(n.lower() for n in t)) == len(t):
            every(t)
    return case['n']


SIZES = [0, 1, 2, 63, 64, 65, 127, 511, 512, 513, 4095, 4096, 4097, 8191,
         8192, 8193, 12288, 70000]


def size_cases(tier):
    more = [] if tier == 'quick' else [1 << 20, (1 << 20) + 1, 2000000]
    for n in SIZES + more:
        for deep in (0, 1, 2):
            yield {'n': n, 'd': deep}


def content(n):
    return bytes(bytearray((i * 7 + (i >> 8)) & 0xff for i in range(n)))


def size_run(case):
    data = content(case['n'])
    t = {'s': data, 't': b'other'}
    for i in range(case['d']):
        t = {'d%d' % i: t, 's': data[1:]}

    def run(stg, t):
        same(stg, t)
        for i in reversed(range(case['d'])):
            stg = stg['d%d' % i]
        for n in (1, 7, 64, 4095, 4096, 4097, 1 << 20):
            if n < 7 and case['n'] > 10000:
                continue
            f = stg['s'].open()
            got = []
            while True:
                d = f.read(n)
                expect(isinstance(d, bytes), 'read gave %r' % d)
                if not d:
                    break
                got.append(d)
            expect_equal([len(d) for d in got[:-1]], [n] * (len(got) - 1),
                         'sizes of what was read')
            expect(b''.join(got) == data, 'content read by %d' % n)
            f.close()
    every(t, run)
    return case['n']


# ---- sequences of operations on open streams

OPS = ['r', 'r0', 'r1', 'r4096', 'r9999', 's0', 's3', 'sm', 'se', 'c1',
       'c-1', 'e0', 'e-3', 't']


def op_cases(tier):
    sizes = (0, 5, 4097) if tier == 'quick' else (0, 1, 5, 4096, 4097, 9000)
    n = 4 if tier == 'quick' else 5
    for size in sizes:
        for k in range(1, n + 1):
            for s in itertools.product(OPS, repeat=k - 1):
                yield {'n': size, 'o': list(s)}


def do(f, op, size):
    """-> what the operation gives, after which the position is as in a
    file; None when it is out of the property"""
    x = op[1:]
    if op[0] == 'r':
        return f.read(int(x)) if x else f.read()
    if op[0] == 't':
        return f.tell()
    offset, whence = {'s0': (0, 0), 's3': (3, 0), 'sm': (size // 2, 0),
                      'se': (size, 0), 'c1': (1, 1), 'c-1': (-1, 1),
                      'e0': (0, 2), 'e-3': (-3, 2)}[op]
    base = (0, f.tell(), size)[whence]
    if not 0 <= base + offset <= size:
        return None
    f.seek(offset, whence)
    return f.tell()


def op_run(case):
    data = content(case['n'])
    path = stored({'a': {'s': data}, 's': b'x' * 70})
    out = []
    for k in ALL:
        with oleback.Installed(k):
            stg = OleStorage(path)
            item = stg['a']['s']
            # the last operation is each of them
            for last in OPS:
                model = io.BytesIO(data)
                f = item.open()
                other = item.open()
                for op in case['o'] + [last]:
                    want = do(model, op, len(data))
                    expect_equal(do(f, op, len(data)), want,
                                 '%s: %s after %s of %d bytes'
                                 % (k, op, case['o'], len(data)))
                    expect_equal(f.tell(), model.tell(),
                                 '%s: position' % k)
                expect_equal(other.tell(), 0, 'position of another')
                expect_equal(other.read(3), data[:3], 'read of another')
                f.close()
                expect_equal(other.read(2), data[3:5], 'read after another '
                             'was closed')
                other.close()
                out.append(model.tell())
            stg.close()
    return out


# ---- files which are no compound files

def bad_cases(tier):
    for how in ('empty', 'text', 'zip', 'magic', 'header', 'missing'):
        for k in ALL:
            yield {'how': how, 'k': k}


def bad_run(case):
    path = os.path.join(scratch(), 'bad.hwp')
    good = cfb.build(p20.tree(p20.some_doc('a')))
    data = {'empty': b'', 'text': b'not a document ' * 100,
            'zip': b'PK\x03\x04' + b'\0' * 3000, 'magic': good[:8],
            'header': b'\xd0\xcf\x11\xe0' + b'\0' * 2000,
            'missing': None}[case['how']]
    if data is not None:
        with open(path, 'wb') as f:
            f.write(data)
    with oleback.Installed(case['k']):
        try:
            OleStorage(path)
        except InvalidOleStorageError:
            got = 'invalid'
        except Exception as e:
            got = 'other'
            expect(data is None, '%s: %r' % (case['k'], e))
        else:
            raise Violation('%s: a file which is no compound file (%s) was '
                            'opened' % (case['k'], case['how']))
        for args in (['ls'], ['version'], ['xml']):
            r = cli.run('hwp5proc', args + [path])
            expect(r.code != 0 and r.out == b'', '%s: hwp5proc %s: %r'
                   % (case['k'], args, r))
            expect(data is None or r.exc is None, '%s: hwp5proc %s: %r'
                   % (case['k'], args, r))
    return got


# ---- what is installed

def installed_cases(tier):
    for n in range(5):
        for ks in itertools.combinations(KINDS, n):
            for env in (None, '0', '1', ' 1 ', '00', '7', 'x', ''):
                yield {'k': list(ks), 'env': env}


def installed_run(case):
    env = case['env']
    forced = env is not None and env.strip().isdigit() and int(env) > 0
    if forced and 'uno' not in case['k']:
        # it says that UNO is there
        if 'olefile' not in case['k'] and 'poifs' not in case['k']:
            return 'contradiction'
    usable = [k for k in case['k'] if k != 'uno' or forced]
    t = p20.tree(p20.some_doc('I'))
    path = stored(t)
    with oleback.Installed(*case['k'], uno=env):
        try:
            stg = OleStorage(path)
        except Exception:
            expect(not usable, 'no storage although %r is there' % usable)
            return 'none'
        expect(usable, 'a storage without a back end')
        same(stg, t)
        stg.close()
    return len(usable)


# ---- whole documents through the commands

def document_cases(tier):
    for k in 'akTGFI':
        for flags in (0, 1, 4, 5):
            yield {'d': k, 'f': flags}


def commands(path, d):
    out = []
    r = cli.run('hwp5proc', ['ls', '--vstreams', path])
    names = sorted(r.out.splitlines())
    out.append((r.code, names))
    for n in names:
        n = n.decode('ascii')
        r = cli.run('hwp5proc', ['cat', '--vstreams', '--', path,
                                 p14.unescape(n)])
        out.append((n, r.code, r.out))
    for args in (['ls'], ['ls', '--ole']):
        r = cli.run('hwp5proc', args + [path])
        out.append((args, r.code, sorted(r.out.splitlines())))
    for args in (['version'], ['header'], ['summaryinfo'],
                 ['xml', '--embedbin'], ['models'],
                 ['find', '--tag=67']):
        r = cli.run('hwp5proc', args + [path] + (
            ['DocInfo'] if args == ['models'] else []))
        out.append((args, r.code, r.out))
    r = cli.run('hwp5txt', [path])
    out.append(('text', r.code, r.out))
    for args in ([], ['--ole'], ['--vstreams']):
        o = os.path.join(d, 'out' + ''.join(args))
        r = cli.run('hwp5proc', ['unpack'] + args + [path, o])
        out.append(('unpack', args, r.code, sorted(p21.listing(o).items())))
    r = cli.run('hwp5html', ['--output', os.path.join(d, 'html'), path])
    out.append(('html', r.code,
                sorted(p21.listing(os.path.join(d, 'html')).items())))
    return out


def document_run(case):
    t = p20.tree(p20.some_doc(case['d']), case['f'])
    want = None
    for k in ALL:
        path = stored(t)
        with oleback.Installed(k):
            got = commands(path, os.path.dirname(path))
        for x in got:
            expect(0 in x[:3], '%s: %r' % (k, x))
        if want is None:
            want = got
        expect_equal(len(got), len(want), '%s: results' % k)
        for a, b in zip(got, want):
            expect_equal(a, b, '%s: result' % k)
    return len(want)


# ---- storages made of objects of the libraries

def object_cases(tier):
    for n in range(5):
        for f in p14.forests(n):
            yield {'t': f}


def object_run(case):
    t = grow(case['t'], [0])
    path = stored(t)
    with open(path, 'rb') as f:
        data = f.read()
    for k, make in (
            ('gsf', lambda: oleback.Input(data)),
            ('gsf', lambda: oleback.InputGio.new_for_path(path)),
            ('gsf', lambda: oleback.InfileMSOle.new(oleback.Input(data))),
            ('uno', lambda: oleback.OLESimpleStorage(oleback.Stream(data))),
            ('poifs', lambda: oleback.POIFSFileSystem(
                oleback.FileInputStream(path)).getRoot())):
        with oleback.Installed(k):
            stg = OleStorage(make())
            same(stg, t, k)
            stg.close()
    if oleback.REAL:
        Gsf = oleback.MODULES['libgsf']['gi.repository'].Gsf
        with oleback.Installed('libgsf'):
            for x in (Gsf.InputGio.new_for_path(path),
                      Gsf.InfileMSOle.new(Gsf.InputGio.new_for_path(path))):
                stg = OleStorage(x)
                same(stg, t, 'libgsf')
                stg.close()
    with oleback.Installed('uno'):
        from hwp5.plat._uno import oless_from_inputstream
        from hwp5.plat._uno.adapters import InputStreamFromFileLike
        with open(path, 'rb') as f:
            same(OleStorage(oless_from_inputstream(
                InputStreamFromFileLike(f))), t, 'uno')
    return repr(t)


# ---- the adapters of UNO streams

IN = ['b0', 'b1', 'b3', 'b99', 's0', 's2', 'k1', 'k3', 'p', 'l', 'o1']


def input_cases(tier):
    n = 3 if tier == 'quick' else 4
    for size in (0, 1, 4, 5000):
        for k in range(n + 1):
            for s in itertools.product(IN, repeat=k):
                yield {'n': size, 'o': list(s)}


def input_run(case):
    data = content(case['n'])
    with oleback.Installed('uno'):
        from hwp5.plat._uno import adapters
        for dontclose in (False, True):
            f = io.BytesIO(data)
            a = adapters.InputStreamFromFileLike(f, dontclose)
            pos = 0
            for op in case['o']:
                n = int(op[1:] or 0)
                left = len(data) - pos
                if op[0] == 'b' or op[0] == 'o':
                    fn = a.readBytes if op[0] == 'b' else a.readSomeBytes
                    got = fn(oleback.ByteSequence(b''), n)
                    want = data[pos:pos + n]
                    expect_equal((got[0], got[1].value), (len(want), want),
                                 op)
                    pos += len(want)
                elif op[0] == 's':
                    if n <= len(data):
                        a.seek(n)
                        pos = n
                elif op[0] == 'k':
                    a.skipBytes(n)
                    pos += min(n, left)
                elif op == 'l':
                    expect_equal(a.getLength(), len(data), 'length')
                expect_equal(a.getPosition(), pos, 'position after %s' % op)
            if len(case['o']) % 2:
                a.closeInput()
            else:
                adapters.FileFromStream(a).close()
            expect_equal(f.closed, not dontclose, 'closed')
    return case['o']


def output_cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(n + 1):
        for s in itertools.product(('', 'a', '\0\xff', 'x' * 5000, 'F'),
                                   repeat=k):
            yield {'o': list(s)}


class Kept(io.BytesIO):
    last = None

    def close(self):
        if not self.closed:
            self.last = self.getvalue()
        io.BytesIO.close(self)


def output_run(case):
    with oleback.Installed('uno'):
        from hwp5.plat._uno import adapters
        for through in (False, True):
            for dontclose in (False, True):
                f = Kept()
                a = adapters.OutputStreamToFileLike(f, dontclose)
                w = adapters.FileFromStream(a) if through else a
                want = b''
                for x in case['o']:
                    d = x.encode('latin-1')
                    if x == 'F':
                        w.flush()
                        continue
                    if through:
                        w.write(d)
                    else:
                        w.writeBytes(oleback.ByteSequence(d))
                    want += d
                if through:
                    w.close()
                else:
                    w.closeOutput()
                expect_equal(f.closed, not dontclose, 'closed')
                expect_equal(f.last if f.closed else f.getvalue(), want,
                             'what was written')
    return len(want)


FAMILIES = [
    Family('trees', tree_cases, tree_run),
    Family('names', name_cases, name_run),
    Family('sizes', size_cases, size_run),
    Family('operations', op_cases, op_run),
    Family('bad', bad_cases, bad_run),
    Family('installed', installed_cases, installed_run),
    Family('documents', document_cases, document_run),
    Family('objects', object_cases, object_run),
    Family('inputs', input_cases, input_run),
    Family('outputs', output_cases, output_run),
]
