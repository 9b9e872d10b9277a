# -*- coding: utf-8 -*-
"""P15 unpacking reproduces the streams and stays inside its directory."""
import itertools
import os
import shutil

from mc import cli
from mc import doc
from mc import hwp
from mc import parts
from mc.core import Family, Violation, expect, expect_equal
from checks import p14

PROPERTY = 'P15'
LEVEL = 'exploration'
RULE = ('a case is one tree of storages and streams and one way to unpack '
        'it, into a deep scratch directory whose surroundings are compared')
ASSUMPTIONS = ['the control character 05 of a name is written as _05',
               'names which can not be file names are written changed']

DEPTH = 9
CLEAN = {}


def sandbox():
    """-> (top, output directory deep inside)"""
    top = hwp.scratch('p15')
    d = os.path.join(top, *['d%d' % i for i in range(DEPTH)])
    out = os.path.join(d, 'out')
    if CLEAN.pop(top, None):
        # the surroundings were seen unchanged
        shutil.rmtree(out)
        return top, out
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(d)
    # things a stray write could hit
    x = d
    while len(x) > len(top):
        for n in ('evil', 'x', 'a'):
            with open(os.path.join(x, n), 'wb') as f:
                f.write(b'old')
        x = os.path.dirname(x)
    return top, out


def snapshot(top, skip=None):
    out = {}
    for base, dirs, files in os.walk(top):
        if skip and (base == skip or base.startswith(skip + os.sep)):
            continue
        out[base] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as g:
                out[p] = g.read()
    return out


def tree_of(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as g:
                out[os.path.relpath(p, d)] = g.read()
    return out


def outside(top, out, before):
    after = snapshot(top, out)
    after.pop(out, None)
    changed = sorted(k for k in set(before) | set(after)
                     if before.get(k, 0) != after.get(k, 0))
    expect(not changed, 'outside the output directory changed: %r'
           % [os.path.relpath(c, top)[-60:] for c in changed])
    CLEAN[top] = os.path.isdir(out)


def fname(path):
    return '/'.join(p.replace('\x05', '_05') for p in path)


def run_unpack(t, how, mode=()):
    """unpack -> (top, out); surroundings checked; exception or None"""
    from hwp5.storage import unpack
    top, out = sandbox()
    before = snapshot(top)
    failed = None
    if how == 'cli':
        path = hwp.write(hwp.scratch('p15.hwp'), t)
        r = cli.run('hwp5proc', ['unpack'] + list(mode) + [path, out])
        if r.code != 0:
            failed = r
        os.unlink(path)
    else:
        os.mkdir(out)
        if how == 'memory':
            stg = hwp.Storage(t)
        else:
            from hwp5.storage.ole import OleStorage
            stg = OleStorage(hwp.write(hwp.scratch('p15.hwp'), t))
        try:
            unpack(stg, out)
        except Exception as e:
            failed = e
    outside(top, out, before)
    return top, out, failed


def reopened(out):
    """contents of the unpacked tree as a storage"""
    from hwp5.storage import iter_storage_leafs
    from hwp5.storage import open_storage_item
    from hwp5.storage.fs import FileSystemStorage
    stg = FileSystemStorage(out)
    res = {}
    for n in iter_storage_leafs(stg):
        expect(n not in res, '%s is listed twice' % n)
        f = open_storage_item(stg, n).open()
        res[n] = f.read()
        f.close()
    return res


# ---- shapes

def shape_cases(tier):
    for n in range(0, 6 if tier == 'quick' else 7):
        for f in p14.forests(n):
            for how in ('cli', 'memory', 'ole'):
                for ole in (0, 1) if how == 'cli' else (0,):
                    for p in (0, 1):
                        yield {'f': f, 'how': how, 'ole': ole, 'p': p}


def shape_run(case):
    t = {'FileHeader': hwp.fileheader((5, 0, 1, 7), 0)}
    p14.build(case['f'], [], t, None,
              p14.PREFIXES if case['p'] else p14.NAMES)
    want = dict((fname(p), d) for p, d in parts.walk(t))
    top, out, failed = run_unpack(t, case['how'],
                                  ['--ole'] if case['ole'] else [])
    expect(failed is None, 'unpack failed: %r' % failed)
    expect_equal(tree_of(out), want, 'unpacked files')
    expect_equal(reopened(out), want, 'unpacked tree as a storage')
    return sorted(want)


# ---- sizes

def size_cases(tier):
    ns = [0, 1]
    for k in range(6, 18 if tier == 'quick' else 22):
        ns += [2 ** k - 1, 2 ** k, 2 ** k + 1]
    for n in ns:
        for flags in (0, 1):
            for how in ('cli', '--ole', '--vstreams', 'memory'):
                yield {'n': n, 'flags': flags, 'how': how}


def size_run(case):
    data = parts.blocks(case['n'])[:case['n']]
    p = p14.vdoc(case['flags'], 1)
    p['BinData', 'BIN0001.jpg'] = data
    p['Custom', 'x', 'y'] = data
    t = parts.tree(p, case['flags'])
    want = dict((fname(q), d) for q, d in parts.walk(t))
    if case['how'] in ('cli', '--vstreams'):
        want.update((fname(q), d) for q, d in p.items())
    mode = [case['how']] if case['how'][0] == '-' else []
    top, out, failed = run_unpack(t, 'memory' if case['how'] == 'memory'
                                  else 'cli', mode)
    expect(failed is None, 'unpack failed: %r' % failed)
    got = tree_of(out)
    for n in want:
        expect(n in got, 'no file %s' % n)
        expect(got[n] == want[n], 'file %s has %d bytes for %d, or differs'
               % (n, len(got[n]), len(want[n])))
    if case['how'] != '--vstreams':
        expect_equal(sorted(got), sorted(want), 'files')
    expect_equal(reopened(out), got, 'unpacked tree as a storage')
    return len(data)


# ---- documents

def doc_cases(tier):
    for flags in (0, 1, 2, 3, 4, 5, 7):
        for mode in ('', '--ole', '--vstreams'):
            if mode == '--vstreams' and flags & 2:
                continue
            for n in (1, 3):
                for again in (0, 1):
                    yield {'flags': flags, 'mode': mode, 'n': n,
                           'again': again}


def doc_run(case):
    flags = case['flags']
    mode = [case['mode']] if case['mode'] else []
    p = p14.vdoc(flags, case['n'])
    t = parts.tree(p, flags)
    path = hwp.write(hwp.scratch('p15.hwp'), t)
    top, out = sandbox()
    before = snapshot(top)
    for k in range(1 + case['again']):
        r = cli.run('hwp5proc', ['unpack'] + mode + [path, out])
        expect_equal(r.code, 0, 'exit status of unpack (%r)' % r)
    outside(top, out, before)
    files = tree_of(out)
    want = {}
    for n in p14.ls(path, mode):
        code, data = p14.cat(path, n, mode)
        expect_equal(code, 0, 'cat %s' % n)
        want[fname(n.split('/'))] = data
    expect_equal(sorted(files), sorted(want), 'files and listed streams')
    for n in files:
        expect_equal(files[n], want[n], 'file %s' % n)
    for q, plain in p.items():
        d = plain
        if case['mode'] == '--ole' or flags & 2:
            d = parts.stored(q, plain, flags)
        expect_equal(files[fname(q)], d, 'file %s' % fname(q))
    expect_equal(reopened(out), want, 'unpacked tree as a storage')
    # without an output directory: into one named like the document
    if not case['again']:
        cwd = hwp.scratch('p15cwd')
        shutil.rmtree(cwd, ignore_errors=True)
        os.mkdir(cwd)
        r = cli.run('hwp5proc', ['unpack'] + mode + [path], cwd=cwd)
        expect_equal(r.code, 0, 'exit status of unpack')
        expect_equal(os.listdir(cwd), ['p15'], 'default output directory')
        expect_equal(tree_of(os.path.join(cwd, 'p15')), want,
                     'files in the default directory')
    return sorted(want), case['mode']


# ---- hostile names

BAD = ['..', '.', '', '../evil', '../../x', '/abs', 'a/../../evil', 'a/b',
       './a', '\0', 'a\0b', '\x05', '\x05a', '_05a', '/', '../', '..\x05',
       '.\x05.', '\x05..', '...', 'a', '-', 'evil', '\x05/evil', '~',
       '\udc2f', '..\\evil', 'C:\\x', '..\0', '\uff0e\uff0e', '%2e%2e',
       '_05a_', '_05a__', '_2f', '_2e', '_']
# names which could be written as the same file name
ALIKE = ['\x05a', '_05a', '_05a_', '_05a__']
ALIKE2 = ['', '_', '.', '_2e', '/', '_2f']


def names(top):
    return [os.path.join(top, 'abs') if n == '/abs' else n for n in BAD]


def hostile_cases(tier):
    n = len(BAD)
    for i in range(n):
        for shape in range(5):
            for how in ('memory', 'ole', 'cli'):
                yield {'n': [i], 's': shape, 'how': how}
    for i, j in itertools.product(range(n), repeat=2):
        for shape in range(5):
            yield {'n': [i, j], 's': shape, 'how': 'memory'}
            if i != j and shape in (0, 2):
                yield {'n': [i, j], 's': shape, 'how': 'ole'}
    for alike in (ALIKE, ALIKE2):
        for k in (3, 4):
            for t in itertools.permutations(alike, k):
                for shape in (0, 1):
                    yield {'n': [BAD.index(x) for x in t], 's': shape,
                           'how': 'memory'}
                if alike is ALIKE and k == 3:
                    yield {'n': [BAD.index(x) for x in t], 's': 0,
                           'how': 'ole'}
    if tier != 'quick':
        for t in itertools.product(range(n), repeat=3):
            for shape in (0, 2):
                yield {'n': list(t), 's': shape, 'how': 'memory'}


def hostile_tree(ns, shape):
    """streams s, or storages with streams, of the names"""
    cnt = [0]

    def data():
        cnt[0] += 1
        return b'stream %d' % cnt[0]
    t = {'first': data()}
    if shape == 0:                  # streams side by side
        for n in ns:
            t[n] = data()
    elif shape == 1:                # storages side by side
        for n in ns:
            t[n] = {'evil': data(), 'x': data()}
    elif shape == 2:                # one inside the other, a stream within
        d = t
        for n in ns:
            d[n] = {}
            d = d[n]
        d['evil'] = data()
    elif shape == 3:                # the last is a stream
        d = t
        for n in ns[:-1]:
            d[n] = {}
            d = d[n]
        d[ns[-1]] = data()
    else:                           # below an ordinary storage
        t['sub'] = d = {}
        for n in ns[:-1]:
            d[n] = {'x': data()}
            d = d[n]
        d[ns[-1]] = data()
    t['last'] = data()
    return t


def hostile_run(case):
    ns = [names(hwp.scratch('p15'))[i] for i in case['n']]
    t = hostile_tree(ns, case['s'])
    how = case['how']
    if how != 'memory':
        # only what a compound file can hold
        if any(n == '' or '/' in n or n == '\udc2f' for n in ns):
            from mc.core import TRIVIAL
            return TRIVIAL
        if len(set(n.lower() for n in ns)) < len(ns):
            from mc.core import TRIVIAL
            return TRIVIAL
    if how == 'cli':
        t['FileHeader'] = hwp.fileheader((5, 0, 1, 7), 0)
    top, out, failed = run_unpack(t, how)
    got = tree_of(out)
    streams = list(parts.walk(t))
    datas = sorted(d for p, d in streams)
    plain = not any(n in ('', '.', '..') or '/' in n or '\0' in n or
                    '\x05' in n or '\udc2f' == n for n in ns)
    if plain:
        expect(failed is None, 'unpack failed: %r' % failed)
        expect_equal(got, dict((fname(p), d) for p, d in streams),
                     'unpacked files')
        return
    if '\udc2f' not in ns:       # a name which no file can have
        expect(failed is None, 'unpack failed: %r' % failed)
    if failed is None:
        expect_equal(sorted(got.values()), datas,
                     'contents of the unpacked files')
        for p, d in streams:
            if all(n in ('first', 'last', 'sub', 'evil', 'x', 'FileHeader')
                   for n in p):
                expect_equal(got.get('/'.join(p)), d, '/'.join(p))
    else:
        for d in got.values():
            expect(d in datas, 'a file holds %r' % d)
    return sorted(got), failed is None


# ---- items that can not be read

class Bad(object):
    def __init__(self, data, at):
        self.data = data
        self.at = at

    def open(self):
        if self.at < 0:
            raise IOError('can not open')
        import io
        bad = self

        class F(io.BytesIO):
            n = 0

            def read(self, size=-1):
                self.n += 1
                if self.n > bad.at:
                    raise IOError('can not read')
                return io.BytesIO.read(self, size)
        return F(self.data)


class Stg(object):
    def __init__(self, tree):
        self.tree = tree

    def __iter__(self):
        return iter(list(self.tree))

    def __getitem__(self, name):
        v = self.tree[name]
        if isinstance(v, dict):
            return Stg(v)
        if isinstance(v, Bad):
            return v
        return hwp.Stream(v)


def fault_cases(tier):
    for n in range(1, 5):
        for f in p14.forests(n):
            for at in (-1, 0):
                for k in range(n):
                    for again in (0, 1):
                        yield {'f': f, 'k': k, 'at': at, 'again': again}


def fault_run(case):
    from hwp5.storage import unpack
    t = {}
    p14.build(case['f'], [], t)
    paths = list(parts.walk(t))
    if case['k'] >= len(paths):
        from mc.core import TRIVIAL
        return TRIVIAL
    bad, data = paths[case['k']]
    top, out = sandbox()
    os.mkdir(out)
    before = snapshot(top, out)
    if case['again']:
        # over what was unpacked before
        unpack(hwp.Storage(t), out)
    d = t
    for n in bad[:-1]:
        d = d[n]
    d[bad[-1]] = Bad(data, case['at'])
    try:
        unpack(Stg(t), out)
    except IOError:
        failed = True
    else:
        failed = False
    outside(top, out, before)
    got = tree_of(out)
    files = dict((fname(p), x) for p, x in paths)
    for n in got:
        expect(n in files, 'a file %s' % n)
        if n != fname(bad):
            expect_equal(got[n], files[n], 'file %s' % n)
    for p, x in paths[:case['k']]:
        expect_equal(got.get(fname(p)), x, 'file written before the failure')
    expect(failed, 'the item that can not be read was not reported')
    return sorted(got)


FAMILIES = [
    Family('shapes', shape_cases, shape_run),
    Family('sizes', size_cases, size_run),
    Family('documents', doc_cases, doc_run),
    Family('hostile', hostile_cases, hostile_run),
    Family('faults', fault_cases, fault_run),
]
