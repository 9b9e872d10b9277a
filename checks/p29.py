# -*- coding: utf-8 -*-
"""P29 the viewer shows the converted document and leaves nothing behind."""
import itertools
import os
import shutil
import tempfile
import urllib.parse

from checks import p10
from checks import p20
from checks import p21
from mc import cfb
from mc import cli
from mc import conv
from mc import doc
from mc import gui
from mc import hwp
from mc.core import Family, Violation, expect, expect_equal

PROPERTY = 'P29'
LEVEL = 'exploration'
RULE = ('a case is one run (or, with faults, one for each call of the tool '
        'kit) of the viewer on a document, under a tool kit which follows a '
        'sequence of events')
ASSUMPTIONS = ['the tool kits are stand-ins with the interface the viewer '
               'uses; nothing is drawn',
               'names of directories are valid UTF-8']

KITS = {'gtk': ('gtk', 'webkit'), 'qt': ('qt',),
        'both': ('gtk', 'webkit', 'qt'), 'no webkit': ('gtk', 'qt')}
NOKITS = {'none': (), 'gtk only': ('gtk',), 'webkit only': ('webkit',)}


class Place(object):
    """a directory with the document, and one for temporary files"""

    def __init__(self, tree, name='in.put.hwp', tmp='tmp', data=None):
        self.dir = hwp.scratch('p29')
        shutil.rmtree(self.dir, ignore_errors=True)
        self.cwd = os.path.join(self.dir, 'cwd')
        os.makedirs(self.cwd)
        self.tmp = os.path.join(self.dir, tmp)
        os.makedirs(self.tmp)
        self.name = name
        self.path = os.path.join(self.cwd, name)
        if data is None and tree is not None:
            data = cfb.build(tree)
        if data is not None:
            with open(self.path, 'wb') as f:
                f.write(data)
        self.data = data
        out = os.path.join(self.dir, 'html')
        self.html = cli.run('hwp5html', ['--output', out, self.path],
                            cwd=self.cwd)
        self.files = p21.listing(out) if self.html.code == 0 else None

    def view(self, g, args=None):
        """-> Result, or None when it was interrupted"""
        saved = tempfile.tempdir
        tempfile.tempdir = self.tmp
        try:
            with g:
                return cli.run('hwp5view', (args or []) + [self.path],
                               cwd=self.cwd)
        except KeyboardInterrupt:
            return None
        finally:
            tempfile.tempdir = saved

    def clean(self, what, more=()):
        expect_equal(sorted(os.listdir(self.tmp)), [],
                     'left among the temporary files %s' % what)
        left = p21.listing(self.cwd)
        expect(left.pop(self.name, None) == self.data,
               'the document was changed')
        expect_equal(sorted(left), sorted(more), 'files left %s' % what)


def shown(g, files):
    """what the window shows is what hwp5html makes"""
    expect(g.page is not None, 'no page was loaded')
    content, base = g.page
    expect(content == files['index.xhtml'],
           'the page differs from that of hwp5html')
    for name in sorted(files):
        url = urllib.parse.urljoin(base, urllib.parse.quote(name))
        path = gui.path_of(url)
        expect(os.path.isfile(path), '%r: there is no file %r' % (url, path))
        with open(path, 'rb') as f:
            expect(f.read() == files[name],
                   '%s differs from that of hwp5html' % name)
    d = os.path.dirname(gui.path_of(urllib.parse.urljoin(base, 'x')))
    expect_equal(sorted(p21.listing(d)), sorted(files), 'files')


def session(files, events=()):
    """a session of the user: the page is loaded, things happen, and the
    window is closed"""
    def loop(g):
        if 'webkit' not in g.kits or 'gtk' not in g.kits:
            g.view.loadFinished.emit(True)
            expect(g.window() is not None, 'the page is in no shown window')
            shown(g, files)
            return
        w = g.window()
        expect(w is not None, 'the page is in no shown window')
        shown(g, files)
        want = []
        for e in events:
            if isinstance(e, str):
                expect(not g.navigate(e), 'navigation to %r is held back' % e)
            else:
                expect(g.loaded(*e), 'navigation to the size is not held '
                       'back')
                want.append(size(*e))
            expect_equal(g.sizes, want, 'sizes of the window')
            shown(g, files)
            expect(not g.quit, 'end before the window was closed')
        w.emit('delete-event', 'event')
        expect(g.quit, 'the main loop goes on when the window is closed')
    return loop


def size(w, h):
    return min(max(w, 300), 1024) + 4, min(max(h, 400), 800)


def watch(place, kit, events=(), args=None, more=()):
    expect_equal(place.html.code, 0, 'exit status of hwp5html (%r)'
                 % place.html)
    g = gui.Gui(dict(KITS, **NOKITS)[kit], session(place.files, events))
    r = place.view(g, args)
    if isinstance(r.exc, Violation):
        raise r.exc
    expect_equal(r.code, 0, 'exit status of hwp5view (%r)' % r)
    expect_equal(g.loops, 1, 'main loops')
    expect_equal(r.out, b'', 'standard output')
    place.clean('when the viewer has ended', more)
    return g


# ---- documents

def document(k):
    """-> storage tree"""
    if k[0] == 'doc':
        return p20.tree(p20.some_doc(k[1]), k[2])
    if k[0] == 'pics':
        return p20.pictures({'k': k[1], 'p': k[2]})[0]
    if k[0] == 'sections':
        return p20.tree([[doc.secpara(['s%d' % i])] for i in range(k[1])],
                        docinfo_bytes=p20.info(sections=k[1]))
    if k[0] == 'char':
        return p20.tree([[doc.secpara([k[1]])]])
    raise AssertionError(k)


def document_cases(tier):
    for kit in sorted(KITS):
        for flags in (0, 1, 4, 5):
            for k in 'akTGFI':
                yield {'kit': kit, 'd': ['doc', k, flags]}
        for n in (1, 2, 11):
            yield {'kit': kit, 'd': ['sections', n]}
        for n in (1, 2, 3):
            for ks in itertools.product('LEO', repeat=n):
                if n == 3 and (tier == 'quick' and kit not in ('gtk', 'qt')):
                    continue
                yield {'kit': kit, 'd': ['pics', ''.join(ks),
                                         list(range(n))]}
        for c in ('<', '&amp;', '\uac00', '\u2028', '\ufffe', '\ud7b0',
                  '\U0001f600', ']]>', '&'):
            yield {'kit': kit, 'd': ['char', c]}


def document_run(case):
    p = Place(document(case['d']))
    g = watch(p, case['kit'], [[640, 480]])
    return len(p.files), len(g.steps)


# ---- names

NAMES = ['plain', 'a b', '\uac00', 'a%20b', '%41', 'a#b', 'a?b', 'a&b',
         "a'b", 'a"b', 'a<b', 'a;b', 'a:b', 'a@b', 'a+b', 'a=b', 'a\\b',
         'a~b', '~', 'a*b', 'a[b]', 'a{b}', 'a|b', 'a^b', 'a`b', 'a$b',
         'a,b', 'a.b', '.a', 'a(b)', 'a!b', 'a\tb', 'a\nb', '\u3000',
         '\U0001f600', 'e\u0301', '\xe9', '%', '%zz', 'file:', 'x' * 200]


def name_cases(tier):
    for kit in ('gtk', 'qt'):
        for n in NAMES:
            yield {'kit': kit, 'tmp': n, 'name': 'in.put.hwp'}
            yield {'kit': kit, 'tmp': 'tmp', 'name': n}
            yield {'kit': kit, 'tmp': n, 'name': n + '.hwp'}
            yield {'kit': kit, 'tmp': n + '/' + n, 'name': 'index.xhtml'}
    if tier != 'quick':
        for a, b in itertools.product(NAMES, repeat=2):
            yield {'kit': 'gtk', 'tmp': a + '/' + b[:40], 'name': b}


def name_run(case):
    p = Place(document(['doc', 'I', 0]), case['name'], case['tmp'])
    g = watch(p, case['kit'])
    return g.page[1].replace(p.dir, '')


# ---- sequences of events

EVENTS = [[640, 480], [1, 1], [5000, 5000], [300, 800],
          'http://example.com/', 'file:///x/y', 'about:blank',
          'dimensions:3x4']


def event_cases(tier):
    for n in range(4 if tier == 'quick' else 5):
        for s in itertools.product(range(len(EVENTS)), repeat=n):
            if n == 3 and tier == 'quick' and len(set(s)) == 1:
                continue
            yield {'e': list(s)}


def event_run(case):
    p = Place(document(['doc', 'a', 0]))
    g = watch(p, 'gtk', [EVENTS[i] for i in case['e']])
    return g.sizes


def size_cases(tier):
    for w in range(0, 1401, 50):
        yield {'w': [w, w + 50], 'h': [0, 100, 399, 400, 401, 600, 799, 800,
                                       801, 4000]}
    for h in range(0, 1101, 50):
        yield {'h': list(range(h, h + 50)),
               'w': [0, 300]}
        yield {'h': list(range(h, h + 50)),
               'w': [1020, 1030]}


def size_run(case):
    p = Place(document(['doc', 'a', 0]))
    ev = [[w, h] for w in range(*case['w'], 1 if case['w'][1] -
                                case['w'][0] < 60 else 50)
          for h in case['h']]
    files = dict((k, v) for k, v in p.files.items() if k == 'index.xhtml')

    def loop(g):
        for e in ev:
            expect(g.loaded(*e), 'navigation to the size is not held back')
        expect_equal(g.sizes, [size(*e) for e in ev], 'sizes of the window')
        expect(g.page[0] == files['index.xhtml'], 'page')
    g = gui.Gui(KITS['gtk'], loop)
    r = p.view(g)
    if isinstance(r.exc, Violation):
        raise r.exc
    expect_equal((r.code, g.loops), (0, 1), 'exit status, loops (%r)' % r)
    p.clean('when the viewer has ended')
    return len(ev)


# ---- a tool kit which fails at each of its calls

def fault_cases(tier):
    for kit in sorted(KITS):
        for f in ('RuntimeError', 'OSError', 'KeyboardInterrupt',
                  'SystemExit', 'ImportError', 'UnicodeError'):
            for d in ('a', 'I') if tier == 'quick' else 'akTGFI':
                yield {'kit': kit, 'f': f, 'd': d}


def fault_run(case):
    p = Place(document(['doc', case['d'], 0]))
    kind = getattr(__import__('builtins'), case['f'])
    n = 0
    while True:
        n += 1
        fault = kind(3) if case['f'] == 'SystemExit' else kind('fault')
        g = gui.Gui(KITS[case['kit']], session(p.files, [[640, 480]]), n,
                    fault)
        r = p.view(g)
        if len(g.steps) < n:
            break
        if r is not None:
            if isinstance(r.exc, Violation):
                raise r.exc
            expect(r.code != 0, 'exit status 0 when the tool kit fails at '
                   'its call %d: %s' % (n, g.steps[-1]))
        p.clean('when the tool kit fails at its call %d: %s'
                % (n, g.steps[-1]))
    expect_equal(r.code, 0, 'exit status without fault (%r)' % r)
    expect(n > 5, 'calls of the tool kit')
    return n


# ---- without a tool kit, and documents which cannot be converted

def without_cases(tier):
    for kit in sorted(NOKITS):
        for d in 'akTGFI':
            for flags in (0, 1, 5):
                yield {'kit': kit, 'd': d, 'f': flags}


def without_run(case):
    p = Place(document(['doc', case['d'], case['f']]))
    g = gui.Gui(NOKITS[case['kit']], lambda g: None)
    r = p.view(g)
    expect(r.code != 0, 'exit status 0 without a tool kit')
    expect_equal((g.page, g.loops), (None, 0), 'page, main loops')
    p.clean('without a tool kit')
    return r.code


def bad_cases(tier):
    for kit in ('gtk', 'qt'):
        for how in ('missing', 'empty', 'text', 'zip', 'directory', 'ole',
                    'no DocInfo', 'no BodyText', 'no Section0',
                    'no FileHeader', 'no BinData', 'no HwpSummaryInformation',
                    'password'):
            yield {'kit': kit, 'how': how}
        n = 96 if tier == 'quick' else 400
        for i in range(n):
            yield {'kit': kit, 'how': 'cut', 'i': i}
        for s in ('DocInfo', 'Section0'):
            for i in range(n):
                yield {'kit': kit, 'how': 'short', 's': s, 'i': i}


def bad_run(case):
    how = case['how']
    t = document(['doc', 'I', 0])
    data = None
    if how == 'missing':
        t = None
    elif how == 'empty':
        data = b''
    elif how == 'text':
        data = b'HWP Document File ' * 100
    elif how == 'zip':
        data = b'PK\x03\x04' + b'\0' * 600
    elif how == 'ole':
        t = {'Something': b'else' * 2000}
    elif how.startswith('no '):
        n = how[3:]
        if n == 'HwpSummaryInformation':
            n = '\x05' + n
        if n == 'Section0':
            del t['BodyText'][n]
        else:
            del t[n]
    elif how == 'password':
        t['FileHeader'] = hwp.fileheader(flags=2)
    elif how == 'cut':
        data = cfb.build(t)
        data = data[:len(data) * case['i'] // 400]
    elif how == 'short':
        parent = t['BodyText'] if case['s'] == 'Section0' else t
        parent[case['s']] = parent[case['s']][:case['i']]
    if how == 'directory':
        p = Place(None)
        os.mkdir(p.path)
        p.files = None
    else:
        p = Place(t, data=data)
    ok = how != 'directory' and p.html.code == 0
    if ok:
        watch(p, case['kit'], [[640, 480]])
    else:
        g = gui.Gui(KITS[case['kit']], lambda g: None)
        r = p.view(g)
        expect(r.code != 0, 'exit status 0 of the viewer where hwp5html '
               'fails')
        expect_equal((g.page, g.loops), (None, 0), 'page, main loops')
        p.clean('when the document cannot be converted')
    return ok, how


# ---- options

def option_cases(tier):
    for kit in ('gtk', 'qt'):
        for level in (None, 'debug', 'info', 'warning', 'error', 'critical'):
            for logfile in (False, True):
                for d in 'aI':
                    yield {'kit': kit, 'level': level, 'file': logfile,
                           'd': d}


def option_run(case):
    p = Place(document(['doc', case['d'], 0]))
    args = []
    if case['level']:
        args += ['--loglevel', case['level']]
    if case['file']:
        args += ['--logfile', 'the.log']
    watch(p, case['kit'], [[640, 480]], args,
          ['the.log'] if case['file'] else [])
    for a in ('--help', '--version', '-h'):
        for k in (case['kit'], 'none'):
            g = gui.Gui(dict(KITS, **NOKITS)[k], lambda g: None)
            r = p.view(g, args + [a])
            expect_equal((r.code, g.steps), (0, []), '%s (%r)' % (a, r))
            expect(b'hwp5view' in r.out, a)
    return len(args)


FAMILIES = [
    Family('documents', document_cases, document_run),
    Family('names', name_cases, name_run),
    Family('events', event_cases, event_run),
    Family('sizes', size_cases, size_run),
    Family('faults', fault_cases, fault_run, limit=120),
    Family('without', without_cases, without_run),
    Family('bad', bad_cases, bad_run),
    Family('options', option_cases, option_run),
]
