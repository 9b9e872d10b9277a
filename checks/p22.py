# -*- coding: utf-8 -*-
"""P22 failures are reported and leave no debris."""
import ctypes
import gc
import io
import itertools
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile

from mc import cfb
from mc import doc
from mc import hwp
from mc import rec
from mc import sched
from mc.core import Family, HarnessError, TRIVIAL, Violation
from mc.core import expect, expect_equal
from mc.doc import N, para, secpara

PROPERTY = 'P22'
LEVEL = 'fault_enumeration'
RULE = ('a case is one command or conversion and a block of its I/O '
        'operations (as libc sees them), each of which fails in turn in a '
        'process of its own; or a document cut at a block of places; or one '
        'failing step of a transform or of a program it runs; non-trivial '
        'when the fault was reached')
ASSUMPTIONS = ['a command succeeds when its exit status is 0; then all of its '
               'output has to be what it is without the fault',
               'a temporary file may stay when the fault is that it cannot '
               'be removed',
               'output files of a failed command may be incomplete, unless '
               'they are validated']

# ---- this check runs below a library which makes I/O fail

if 'VERIF_SHIM' not in os.environ and 'VERIF_SCRATCH' in os.environ:
    so = os.path.join(os.environ['VERIF_SCRATCH'], 'shim.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', so,
                           os.path.join(os.path.dirname(os.path.dirname(
                               os.path.abspath(__file__))), 'mc', 'shim.c'),
                           '-ldl'])
    os.environ['VERIF_SHIM'] = so
    os.environ['LD_PRELOAD'] = so
    os.execv(sys.executable, [sys.executable, '-W', 'ignore', '-m', 'mc.run']
             + sys.argv[1:])

ONCE, PERSISTENT, SHORT, TORN = range(4)
KINDS = {'once': ONCE, 'persistent': PERSISTENT, 'short': SHORT, 'torn': TORN}
_shim = []


def shim():
    if not _shim:
        lib = ctypes.CDLL(os.environ['VERIF_SHIM'])
        lib.shim_log.restype = ctypes.c_char_p
        lib.shim_count.restype = ctypes.c_long
        lib.shim_arm.argtypes = [ctypes.c_long, ctypes.c_int]
        _shim.append(lib)
    return _shim[0]


# ---- documents

V = (5, 0, 3, 4)
PNG = bytes(range(256)) * 30


def nodes():
    cellp = [[para(['cell %d' % i, 13])] for i in range(4)]
    return [secpara(['Hello ', doc.header('Header', [para(['top', 13])]),
                     doc.note('FootNote', [para(['note', 13])]), 'world']),
            para([doc.table([cellp[:2], cellp[2:]]), 13]),
            para([doc.picture(1), 13]),
            para(['the end', 13])]


def plain_docinfo():
    return hwp.docinfo(V, bindata=[dict(flags=1, bindata={
        'storage_id': 1, 'ext': 'png'})], charshapes=[dict(
            relative_size=dict((x, 100) for x in (
                'ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')))],
        styles=[dict(local_name='L0', name='Normal')])


def tree(flags=0, info=None, section=None):
    info = plain_docinfo() if info is None else info
    section = doc.stream(nodes(), V) if section is None else section
    kw = dict(viewtext=[section]) if flags & 4 else {}
    return hwp.tree(V, flags, docinfo_bytes=info, sections=[section],
                    bindata={'BIN0001.png': PNG}, prvtext='preview',
                    scripts={'DefaultJScript': b'function f() {}' * 9},
                    summary=hwp.summaryinfo(), **kw)


def dist_stream():
    return hwp.dist_encode(b'some text to be coded' * 20)


STDIN = {'deflated': lambda: hwp.deflate(b'abcdefgh' * 5000),
         'dist': dist_stream,
         'records': lambda: doc.stream(nodes(), V)}

# ---- scenarios: name -> (program or function, arguments, options)

CLI = [
    ('hwp5proc', ['version', 'F']), ('hwp5proc', ['header', 'F']),
    ('hwp5proc', ['summaryinfo', 'F']),
    ('hwp5proc', ['ls', 'F']), ('hwp5proc', ['ls', '--vstreams', 'F']),
    ('hwp5proc', ['ls', '--ole', 'F']),
    ('hwp5proc', ['cat', 'F', 'BodyText/Section0']),
    ('hwp5proc', ['cat', 'F', 'BinData/BIN0001.png']),
    ('hwp5proc', ['cat', '--vstreams', 'F', 'BodyText/Section0.xml']),
    ('hwp5proc', ['cat', '--vstreams', 'F', 'BodyText.xml']),
    ('hwp5proc', ['cat', '--vstreams', 'F', 'PrvText.utf8']),
    ('hwp5proc', ['cat', '--ole', 'F', 'DocInfo']),
    ('hwp5proc', ['unpack', 'F']), ('hwp5proc', ['unpack', 'F', 'there']),
    ('hwp5proc', ['unpack', '--vstreams', 'F']),
    ('hwp5proc', ['unpack', '--ole', 'F']),
    ('hwp5proc', ['records', 'F', 'DocInfo']),
    ('hwp5proc', ['records', '--raw', 'F', 'BodyText/Section0']),
    ('hwp5proc', ['records', '--simple', 'F', 'BodyText/Section0']),
    ('hwp5proc', ['records', '--raw', '<records']),
    ('hwp5proc', ['models', 'F', 'DocInfo']),
    ('hwp5proc', ['models', '--simple', 'F', 'BodyText/Section0']),
    ('hwp5proc', ['models', '--events', 'F', 'BodyText/Section0']),
    ('hwp5proc', ['models', '--json', '-V', '5.0.3.4', '<records']),
    ('hwp5proc', ['find', '--model=Paragraph', 'F']),
    ('hwp5proc', ['find', '--dump', 'F']),
    ('hwp5proc', ['xml', '--no-validate-wellformed', 'F']),
    ('hwp5proc', ['xml', '--no-validate-wellformed', '--embedbin', 'F']),
    ('hwp5proc', ['xml', '--no-validate-wellformed', '--output', 'o.xml',
                  'F']),
    ('hwp5proc', ['xml', '--format=flat', '--no-validate-wellformed', 'F']),
    ('hwp5proc', ['xml', 'F']),
    ('hwp5proc', ['xml', '--output', 'o.xml', 'F']),
    ('hwp5proc', ['rawunz', '<deflated']),
    ('hwp5proc', ['diststream', '<dist']),
    ('hwp5proc', ['diststream', '--sha1', '<dist']),
    ('hwp5proc', ['diststream', '--key', '<dist']),
    ('hwp5txt', ['F']), ('hwp5txt', ['--output', 'o.txt', 'F']),
    ('hwp5html', ['F']), ('hwp5html', ['--output', 'old', 'F']),
    ('hwp5html', ['--html', 'F']), ('hwp5html', ['--css', 'F']),
    ('hwp5html', ['--html', '--output', 'o.html', 'F']),
    ('hwp5odt', ['F']), ('hwp5odt', ['--output', 'o.odt', 'F']),
    ('hwp5odt', ['--embed-image', 'F']),
    ('hwp5odt', ['--styles', 'F']), ('hwp5odt', ['--content', 'F']),
    ('hwp5odt', ['--document', 'F']),
    ('hwp5odt', ['--document', '--no-embed-image', '--output', 'o.fodt',
                 'F']),
]


def lib_open(run):
    from hwp5.xmlmodel import Hwp5File
    return Hwp5File(os.path.join(run, 'F.hwp'))


def lib_fs(run):
    from hwp5.storage.fs import FileSystemStorage
    from hwp5.xmlmodel import Hwp5File
    return Hwp5File(FileSystemStorage(os.path.join(run, 'FS')))


def lib_xmlopen(run):
    f = lib_open(run)
    try:
        g = f.xmlevents().open()
        try:
            return g.read()
        finally:
            g.close()
    finally:
        f.close()


def to_buffer(make, name, source=lib_fs):
    def scenario(run):
        f = source(run)
        out = io.BytesIO()
        getattr(make(), name)(f, out)
        return out.getvalue()
    return scenario


def html():
    from hwp5.hwp5html import HTMLTransform
    return HTMLTransform()


def odt(**kw):
    from hwp5.hwp5odt import ODTTransform
    return ODTTransform(**kw)


def txt():
    from hwp5.hwp5txt import TextTransform
    return TextTransform()


def lib_package(run, source=lib_fs, **kw):
    from hwp5.hwp5odt import open_odtpkg
    t = odt(**kw)
    with open_odtpkg(os.path.join(run, 'out', 'x.odt')) as pkg:
        t.transform_hwp5_to_package(source(run), pkg)


def lib_dir(run):
    out = os.path.join(run, 'out', 'html')
    os.mkdir(out)
    html().transform_hwp5_to_dir(lib_fs(run), out)


def lib_unpack(run):
    from hwp5.storage import unpack
    out = os.path.join(run, 'out', 'un')
    os.mkdir(out)
    unpack(lib_fs(run), out)


def lib_ole(run):
    from hwp5.storage.ole import OleStorage
    from hwp5.storage import iter_storage_leafs, open_storage_item
    stg = OleStorage(os.path.join(run, 'F.hwp'))
    try:
        out = []
        for path in iter_storage_leafs(stg):
            f = open_storage_item(stg, path).open()
            try:
                out.append((path, f.read()))
            finally:
                f.close()
        return out
    finally:
        stg.close()


def lib_is(run):
    from hwp5.filestructure import is_hwp5file
    return is_hwp5file(os.path.join(run, 'F.hwp'))


def lib_validate(run):
    from hwp5.plat import get_relaxng_compile
    from hwp5.utils import hwp5_resources_path
    with hwp5_resources_path('odf-relaxng/OpenDocument-v1.2-os-schema.rng'
                             ) as p:
        v = get_relaxng_compile()(p)
    out = os.path.join(run, 'out', 'valid.xml')
    with open(out, 'wb') as f:
        with v.validating_output(f) as g:
            g.write(ODF_OK)
    return v.validate(out)


def lib_openssl(run):
    from hwp5.plat import get_aes128ecb_decrypt_openssl
    return get_aes128ecb_decrypt_openssl()(b'0123456789abcdef', b'x' * 64)


def platform(kind, name):
    """the conversion by the programs instead of the libraries"""
    def scenario(run):
        from hwp5.plat import xmllint
        from hwp5.plat import xsltproc
        kw = dict(xslt_compile=xsltproc.xslt_compile)
        if kind == 'xmllint':
            kw = dict(relaxng_compile=xmllint.relaxng_compile)
        if kind == 'both':
            kw['relaxng_compile'] = xmllint.relaxng_compile
        if name == 'package':
            return lib_package(run, **kw)
        out = os.path.join(run, 'out', 'x')
        with open(out, 'wb') as f:
            getattr(odt(**kw), name)(lib_fs(run), f)
    return scenario


ODF_OK = b'''<office:document-styles xmlns:office="urn:oasis:names:tc:\
opendocument:xmlns:office:1.0" office:version="1.2"/>'''

LIB = {
    'lib xmlevents.open': lib_xmlopen,
    'lib text': to_buffer(txt, 'transform_hwp5_to_text'),
    'lib xhtml': to_buffer(html, 'transform_hwp5_to_xhtml'),
    'lib css': to_buffer(html, 'transform_hwp5_to_css', lib_open),
    'lib html dir': lib_dir,
    'lib odt package': lib_package,
    'lib odt content': to_buffer(odt, 'transform_hwp5_to_content'),
    'lib unpack': lib_unpack,
    'lib ole': lib_ole,
    'lib is_hwp5file': lib_is,
    'lib validating': lib_validate,
    'lib openssl': lib_openssl,
    'lib xsltproc content': platform('xsltproc', 'transform_hwp5_to_content'),
    'lib xmllint styles': platform('xmllint', 'transform_hwp5_to_styles'),
    'lib programs package': platform('both', 'package'),
}
NAMES = [' '.join([p] + a) for p, a in CLI] + sorted(LIB)
FLAGGED = {'plain': 0, 'compressed': 1, 'distributed': 5}


def snapshot(root):
    """name -> content of every file; packages by their entries"""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = ''
        for x in fs:
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                data = f.read()
            if x.endswith('.odt'):
                try:
                    z = zipfile.ZipFile(io.BytesIO(data))
                    data = [(i.filename, z.read(i)) for i in z.infolist()]
                except Exception as e:
                    data = 'broken package: %s' % e
            out[os.path.relpath(p, root)] = data
    return out


def setup(docname, flags):
    """a fresh directory to run in"""
    run = hwp.scratch('run')
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(os.path.join(run, 'out', 'old'))
    os.makedirs(os.path.join(run, 'tmp'))
    with open(os.path.join(run, 'out', 'old', 'stale'), 'wb') as f:
        f.write(b'stale')
    t = docname if isinstance(docname, dict) else tree(flags)
    with open(os.path.join(run, 'F.hwp'), 'wb') as f:
        f.write(cfb.build(t))

    def fs(t, d):
        os.mkdir(d)
        for k, v in t.items():
            p = os.path.join(d, k)
            if isinstance(v, dict):
                fs(v, p)
            else:
                with open(p, 'wb') as f:
                    f.write(v)
    fs(t, os.path.join(run, 'FS'))
    return run


def open_fds():
    out = []
    for x in os.listdir('/proc/self/fd'):
        try:
            out.append((int(x), os.readlink('/proc/self/fd/' + x)))
        except OSError:
            pass
    return set(out)


def patch_popen(lib):
    """starting a program is one operation"""
    init = subprocess.Popen.__init__

    def patched(self, *args, **kw):
        if lib.shim_step(ord('P')):
            self.returncode = 0
            raise OSError(11, 'Resource temporarily unavailable')
        lib.shim_disarm()
        try:
            init(self, *args, **kw)
            for f, w in ((self.stdin, 1), (self.stdout, 0)):
                if f is not None:
                    lib.shim_watch(f.fileno(), w)
        finally:
            lib.shim_resume()
    subprocess.Popen.__init__ = patched


def execute(name, run, target, kind, path=None):
    """runs in a process of its own"""
    lib = shim()
    stdin = None
    if name in LIB:
        fn = LIB[name]
    else:
        prog, args = CLI[NAMES.index(name)]
        args = list(args)
        if args[-1][0] == '<':
            stdin = os.path.join(run, 'stdin')
            with open(stdin, 'wb') as f:
                f.write(STDIN[args.pop()[1:]]())
        args = [os.path.join(run, 'F.hwp') if a == 'F' else a for a in args]
        main = __import__('hwp5.' + prog, fromlist=['main']).main
    for n, file, mode in ((0, stdin or '/dev/null', os.O_RDONLY),
                          (1, os.path.join(run, 'stdout'),
                           os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                          (2, os.path.join(run, 'stderr'),
                           os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
        fd = os.open(file, mode, 0o644)
        os.dup2(fd, n)
        os.close(fd)
    sys.stdin = io.TextIOWrapper(io.open(0, 'rb', closefd=False),
                                 encoding='utf-8')
    sys.stdout = io.TextIOWrapper(io.open(1, 'wb', closefd=False),
                                  encoding='utf-8')
    sys.stderr = io.TextIOWrapper(io.open(2, 'wb', 0, closefd=False),
                                  encoding='utf-8', write_through=True)
    logging.disable(logging.NOTSET)
    tempfile.tempdir = os.path.join(run, 'tmp')
    os.environ['TMPDIR'] = tempfile.tempdir
    if path is not None:
        os.environ['PATH'] = path
    os.environ.pop('LD_PRELOAD', None)
    os.chdir(os.path.join(run, 'out'))
    gc.collect()
    before = open_fds()
    lib.shim_reset()
    for p in (run + '/out', run + '/tmp', run + '/F', run + '/stdin',
              '/repo/src/hwp5/xsl', '/repo/src/hwp5/odf-relaxng'):
        lib.shim_prefix(p.encode())
    if stdin:
        lib.shim_watch(0, 0)
    lib.shim_watch(1, 1)
    code = 0
    error = None
    value = None
    patch_popen(lib)
    lib.shim_arm(target, kind)
    try:
        if name in LIB:
            value = fn(run)
        else:
            sys.argv = [prog] + args
            code = main() or 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None \
            else 1
    except Exception as e:
        code = 1
        error = '%s: %s' % (type(e).__name__, e)
    except KeyboardInterrupt:
        code = 130
        error = 'KeyboardInterrupt'
    try:
        sys.stdout.flush()
    except Exception as e:
        code = 120
        error = error or str(e)
        sys.stdout = None
    lib.shim_disarm()
    ops = lib.shim_log().decode() if target < 0 else ''
    fired = lib.shim_fired()
    gc.collect()
    leaked = sorted(open_fds() - before)
    try:
        os.waitpid(-1, os.WNOHANG)
        children = 'left'
    except ChildProcessError:
        children = ''
    return dict(code=code, error=error, value=value, ops=ops,
                fired=chr(fired) if fired else '', leaked=leaked,
                children=children)


def launch(name, docname, flags, target, kind, path=None):
    run = setup(docname, flags)
    try:
        r = sched.forked(execute, name, run, target, kind, path)
    except sched.Died as e:
        with open(os.path.join(run, 'stderr'), 'rb') as f:
            raise Violation('%s: the process died: %s %s'
                            % (name, e, f.read()[-300:]))
    with open(os.path.join(run, 'stdout'), 'rb') as f:
        r['stdout'] = f.read()
    with open(os.path.join(run, 'stderr'), 'rb') as f:
        r['stderr'] = f.read().decode('utf-8', 'replace')
    r['out'] = snapshot(os.path.join(run, 'out'))
    r['tmp'] = sorted(os.listdir(os.path.join(run, 'tmp')))
    return r


_base = {}


def baseline(name, docname='plain', path=None):
    key = (name, docname, path)
    if key not in _base:
        r = launch(name, docname, FLAGGED[docname], -1, 0, path)
        if r['code'] != 0:
            raise Violation('%s fails without any fault: %s %s'
                            % (name, r['error'], r['stderr'][-500:]))
        clean(r, '%s without any fault' % name)
        _base[key] = r
    return _base[key]


def clean(r, what, tmp=True):
    if tmp:
        expect_equal(r['tmp'], [], '%s: temporary files left' % what)
    expect_equal(r['leaked'], [], '%s: files left open' % what)
    expect_equal(r['children'], '', '%s: processes left' % what)


def difference(a, b):
    if a['stdout'] != b['stdout']:
        return 'the output is %r (%d bytes), not %r (%d bytes)' % (
            a['stdout'][-60:], len(a['stdout']), b['stdout'][-60:],
            len(b['stdout']))
    if a['value'] != b['value']:
        return 'the result is another one'
    for k in sorted(set(a['out']) | set(b['out'])):
        if a['out'].get(k) != b['out'].get(k):
            return '%s is %.80r, not %.80r' % (k, a['out'].get(k),
                                               b['out'].get(k))


OPS = {'o': 'opening', 'c': 'creating', 'r': 'reading', 'w': 'writing',
       'x': 'closing after reading', 'X': 'closing after writing',
       'u': 'unlinking', 'd': 'making a directory', 'l': 'listing',
       'P': 'starting a program', 'O': 'opening (stdio)', 'R': 'reading (stdio)',
       'C': 'creating (stdio)', 'D': 'removing a directory'}


def same_xml(a, b):
    from xml.etree import ElementTree as ET
    for x in (a, b):
        x['xml'] = [ET.canonicalize(y.decode('utf-8')) for y in
                    [x['stdout']] + [v for k, v in sorted(x['out'].items())
                                     if k.endswith('.xml')] if y]
    return a['xml'] == b['xml']


def judge(name, r, base, what, tmp=True):
    if r['code'] == 0:
        d = difference(r, base)
        if d and r['fired'] == 'P' and ' xml ' in name and same_xml(r, base):
            # without xmllint the document is written as it is
            expect('xmllint' in r['stderr'], '%s: no message' % what)
            d = None
        if d:
            raise Violation('%s is presented as success, but %s' % (what, d))
    elif name in LIB:
        expect(r['error'], '%s: no exception' % what)
    clean(r, what, tmp)


# ---- every I/O operation

SLOW = 3


def io_cases(tier):
    prepare(tier)
    q = tier == 'quick'
    for name in NAMES:
        for docname in sorted(FLAGGED):
            if (name, docname) not in PLAN:
                continue
            ops = PLAN[name, docname]
            kinds = ['once', 'torn', 'persistent', 'short']
            for kind in kinds:
                which = []
                seen = {}
                for i, op in enumerate(ops):
                    if kind == 'torn' and op != 'w':
                        continue
                    if kind == 'persistent' and op not in 'wco':
                        continue
                    if kind == 'short' and op not in 'rwR':
                        continue
                    which.append(i)
                which = thin(name, docname, kind, ops, which, q)
                size = 4 if 'odt' in name or 'lib' in name else 12
                for lo in range(0, len(which), size):
                    yield {'name': name, 'doc': docname, 'kind': kind,
                           'at': which[lo:lo + size]}


def thin(name, docname, kind, ops, which, q):
    """of a run of like operations, the first, second, middle and last ones
    (thorough: the first and last ten and some between)"""
    if q and kind in ('short', 'persistent') and docname != 'plain':
        return []
    keep = []
    for op, group in itertools.groupby(which, lambda i: ops[i]):
        group = list(group)
        n = len(group)
        if not q:
            pick = set(range(10)) | set(range(n - 10, n)) | set(
                n * j // 10 for j in range(10))
        elif kind != 'once':
            pick = {0, n - 1}
        else:
            pick = {0, 1, n // 2, n - 2, n - 1}
        keep.extend(group[i] for i in sorted(pick) if 0 <= i < n)
    limit = {'once': 40, 'torn': 8, 'persistent': 8, 'short': 8}[kind]
    if not q:
        limit = {'once': 320, 'torn': 40, 'persistent': 40, 'short': 40}[kind]
    if docname != 'plain':
        limit //= 4
    if len(keep) > limit:
        step = len(keep) / float(limit)
        keep = sorted(set(keep[int(i * step)] for i in range(limit)) |
                      {keep[-1]})
    return keep


PLAN = {}


def worth(name, docname, tier):
    if docname == 'plain':
        return True
    if '<' in name or name in ('lib openssl', 'lib validating'):
        return False
    if tier == 'thorough':
        return True
    return docname == 'compressed' and name.split()[1] in (
        'cat', 'unpack', 'records') or name in ('hwp5txt F', 'hwp5odt F')


def prepare(tier):
    """the operations of every scenario, found once"""
    if PLAN:
        return
    path = hwp.scratch('plan.json') if 0 else os.path.join(
        os.environ['VERIF_SCRATCH'], 'plan-%s' % tier)
    import pickle
    if os.path.exists(path):
        with open(path, 'rb') as f:
            PLAN.update(pickle.load(f))
        return
    warm()
    from multiprocessing import get_context
    todo = [(n, d) for n in NAMES for d in sorted(FLAGGED)
            if worth(n, d, tier)]
    with get_context('fork').Pool(8) as pool:
        for key, ops in pool.imap_unordered(_ops, todo):
            PLAN[key] = ops
    with open(path, 'wb') as f:
        pickle.dump(PLAN, f)


def _ops(key):
    try:
        return key, baseline(*key)['ops']
    except Violation:
        return key, ''      # reported by the family of runs without a fault


def warm():
    """import whatever the code imports late"""
    import hwp5.hwp5html, hwp5.hwp5odt, hwp5.hwp5proc, hwp5.hwp5txt  # noqa
    import hwp5.plat  # noqa
    import cryptography.hazmat.primitives.ciphers.modes  # noqa
    import cryptography.hazmat.backends  # noqa
    import hwp5.distdoc, hwp5.storage.fs  # noqa
    from mc import cli
    run = setup('plain', 5)
    logging.disable(logging.CRITICAL)
    for prog, args in CLI:
        if args[-1][0] == '<' or args[0] == 'xml' and \
                '--no-validate-wellformed' not in args:
            continue
        cli.run(prog, [os.path.join(run, 'F.hwp') if a == 'F' else a
                       for a in args], cwd=os.path.join(run, 'out'))
    shutil.rmtree(run)


def io_run(case):
    name = case['name']
    base = baseline(name, case['doc'])
    seen = []
    for i in case['at']:
        op = base['ops'][i] if i < len(base['ops']) else '?'
        what = '%s (%s document) with %s failing (%s, operation %d of %d)' % (
            name, case['doc'], OPS.get(op, op), case['kind'], i,
            len(base['ops']))
        r = launch(name, case['doc'], FLAGGED[case['doc']], i,
                   KINDS[case['kind']])
        judge(name, r, base, what, tmp=r['fired'] not in ('u', 'D'))
        if case['kind'] == 'short':
            expect(r['code'] == 0, '%s: fails: %s %s'
                   % (what, r['error'], r['stderr'][-300:]))
        seen.append((r['fired'], r['code']))
    return seen if any(f for f, c in seen) else TRIVIAL


# ---- without any fault

def sound_cases(tier):
    for name in NAMES:
        for docname in sorted(FLAGGED):
            if worth(name, docname, 'thorough'):
                yield {'name': name, 'doc': docname}


def sound_run(case):
    r = baseline(case['name'], case['doc'])
    return len(r['ops'])


# ---- programs which fail

SCRIPTS = {
    'exits at once': '#!/bin/sh\nexit 3\n',
    'reads and exits': '#!/bin/sh\n/bin/cat > /dev/null\nexit 1\n',
    'writes and exits': '#!/bin/sh\n/bin/cat\nexit 1\n',
    'reads some and exits': '#!/bin/sh\n/usr/bin/head -c 100\nexit 1\n',
    'is killed': '#!/bin/sh\nkill -9 $$\n',
    'reads and is killed': '#!/bin/sh\n/bin/cat > /dev/null\nkill -9 $$\n',
    'works and is killed': '#!/bin/sh\n"%(real)s" "$@"\nkill -9 $$\n',
    'works and fails': '#!/bin/sh\n"%(real)s" "$@"\nexit 4\n',
    'is no program': 'no program at all',
    'cannot be executed': None,
    'is missing': '',
}
USES = {
    'xmllint': ['hwp5proc xml F', 'hwp5proc xml --output o.xml F',
                'lib xmllint styles', 'lib programs package'],
    'xsltproc': ['lib xsltproc content', 'lib programs package'],
    'openssl': ['lib openssl'],
}


def program_cases(tier):
    for prog in sorted(USES):
        for name in USES[prog]:
            for script in sorted(SCRIPTS):
                for skip in range(4 if tier == 'thorough' else 3):
                    yield {'program': prog, 'name': name, 'script': script,
                           'skip': skip}


def program_run(case):
    """the program works `skip` times, then fails"""
    prog, name = case['program'], case['name']
    base = baseline(name)
    bindir = hwp.scratch('bin')
    shutil.rmtree(bindir, ignore_errors=True)
    os.makedirs(bindir)
    for x in USES:
        os.symlink(shutil.which(x), os.path.join(bindir, x))
    fake = os.path.join(bindir, prog)
    real = os.path.realpath(fake)
    os.unlink(fake)
    content = SCRIPTS[case['script']]
    count = os.path.join(bindir, 'count')
    if case['skip']:
        # a counter in front; the number of calls left before it fails
        if not content or not content.startswith('#!') :
            return TRIVIAL
        with open(count, 'wb') as f:
            f.write(b'.' * case['skip'])
        content = content.replace('#!/bin/sh\n', """#!/bin/sh
if [ -s %(count)s ]; then
 /usr/bin/truncate -s -1 %(count)s
 exec "%(real)s" "$@"
fi
echo x > %(count)s.hit
""", 1)
    elif content and content.startswith('#!'):
        content = content.replace('#!/bin/sh\n', """#!/bin/sh
echo x > %(count)s.hit
""", 1)
    if content != '':
        with open(fake, 'w') as f:
            f.write(content % dict(real=real, count=count)
                    if content else 'x')
        os.chmod(fake, 0o644 if content is None else 0o755)
    r = launch(name, 'plain', 0, -1, 0, bindir)
    hit = os.path.exists(count + '.hit') or not case['skip'] and (
        not content or not content.startswith('#!'))
    what = '%s when %s %s (call %d)' % (name, prog, case['script'],
                                        case['skip'])
    if not hit:
        expect_equal(r['code'], 0, '%s: never called' % what)
        return TRIVIAL
    if ' xml ' in name and case['script'] in (
            'is missing', 'cannot be executed', 'is no program'):
        r['fired'] = 'P'        # passed through, with a message
        judge(name, r, base, what)
        return r['code']
    expect(r['code'] != 0, '%s: presented as success' % what)
    judge(name, r, base, what)
    return r['code']


# ---- transforms and validators which fail

class Failed(Exception):
    pass


STEPS = ('xslt compile', 'xslt start', 'xslt midway', 'xslt end',
         'rng compile', 'rng start', 'rng midway', 'rng end')
TARGETS = [('odt', n) for n in (
    'transform_hwp5_to_styles', 'transform_hwp5_to_content',
    'transform_hwp5_to_single_document', 'package')] + [
    ('html', n) for n in ('transform_hwp5_to_xhtml', 'transform_hwp5_to_css',
                          'dir')] + [('txt', 'transform_hwp5_to_text')]


def step_cases(tier):
    for kind, target in TARGETS:
        for step in STEPS:
            if step[:3] == 'rng' and kind != 'odt':
                continue
            for nth in range(3):
                yield {'kind': kind, 'target': target, 'step': step,
                       'nth': nth}


def step_work(case, run):
    from contextlib import contextmanager
    from hwp5.hwp5html import HTMLTransform
    from hwp5.hwp5odt import ODTTransform, ODTPackage
    from hwp5.hwp5txt import TextTransform
    calls = dict((s, 0) for s in STEPS)

    def step(name):
        calls[name] += 1
        if name == case['step'] and calls[name] == case['nth'] + 1:
            raise Failed(name)

    def xslt_compile(path, **params):
        step('xslt compile')

        def transform(inp, out):
            step('xslt start')
            with open(inp, 'rb') as f:
                f.read()
            out.write(b'<half>')
            step('xslt midway')
            out.write(b'</half>')
            step('xslt end')
        return transform

    def rng_compile(path):
        step('rng compile')

        class V(object):
            @contextmanager
            def validating_output(self, output):
                step('rng start')
                buf = io.BytesIO()
                yield buf
                step('rng midway')
                output.write(buf.getvalue())
                step('rng end')
        return V()
    tempfile.tempdir = os.path.join(run, 'tmp')
    gc.collect()
    before = open_fds()
    out = io.BytesIO()
    result = None
    try:
        if case['kind'] == 'odt':
            t = ODTTransform(xslt_compile, rng_compile)
        elif case['kind'] == 'html':
            t = HTMLTransform(xslt_compile)
        else:
            t = TextTransform(xslt_compile)
        f = lib_open(run)
        try:
            if case['target'] == 'package':
                pkg = ODTPackage(zipfile.ZipFile(out, 'w'))
                t.transform_hwp5_to_package(f, pkg)
                pkg.close()
            elif case['target'] == 'dir':
                t.transform_hwp5_to_dir(f, os.path.join(run, 'out'))
            else:
                getattr(t, case['target'])(f, out)
        finally:
            f.close()
    except Failed as e:
        result = 'failed'
    reached = calls[case['step']] > case['nth']
    f = t = None
    gc.collect()
    return (result, reached, sorted(os.listdir(tempfile.tempdir)),
            sorted(open_fds() - before))


def step_run(case):
    run = setup('plain', 0)
    result, reached, tmp, leaked = sched.forked(step_work, case, run)
    what = '%s %s, failing %s number %d' % (case['kind'], case['target'],
                                            case['step'], case['nth'])
    expect_equal(result, 'failed' if reached else None, what)
    expect_equal(tmp, [], '%s: temporary files' % what)
    expect_equal(leaked, [], '%s: open files' % what)
    return what if reached else TRIVIAL


RNG = b"""<element name="doc" xmlns="http://relaxng.org/ns/structure/1.0"
 datatypeLibrary="http://www.w3.org/2001/XMLSchema-datatypes">
 <zeroOrMore><element name="a"><text/></element></zeroOrMore></element>"""
DOCS = {
    'valid': b'<?xml version="1.0"?>\n<doc><a>x</a></doc>\n',
    'valid empty': b'<doc/>',
    'valid utf8': '<doc><a>\uac00</a></doc>'.encode('utf-8'),
    'valid large': b'<doc>' + b'<a>yy</a>' * 20000 + b'</doc>',
    'invalid root': b'<bad/>',
    'invalid late': b'<doc>' + b'<a>yy</a>' * 20000 + b'<b/></doc>',
    'invalid attribute': b'<doc x="1"/>',
    'empty': b'',
    'ill-formed': b'<doc><a></doc>',
    'cut': b'<doc><a>x</a>',
    'text': b'hello',
    'two roots': b'<doc/><doc/>',
    'bad utf8': b'<doc><a>\xff</a></doc>',
}
CHUNKS = (1, 7, 100, 1 << 20)


def valid_cases(tier):
    for impl in ('lxml', 'xmllint'):
        for name in sorted(DOCS):
            for chunk in CHUNKS:
                if len(DOCS[name]) > 1000 and chunk < 100:
                    continue
                for out in ('file', 'buffer', 'broken'):
                    for fail in (None, 0, 1, -1):
                        yield {'impl': impl, 'doc': name, 'chunk': chunk,
                               'out': out, 'fail': fail}


class Broken(io.BytesIO):
    def write(self, data):
        raise Failed('write')


def valid_work(case, run):
    from hwp5.plat import _lxml
    from hwp5.plat import xmllint
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.dup2(fd, 1)
    os.close(fd)
    impl = {'lxml': _lxml, 'xmllint': xmllint}[case['impl']]
    tempfile.tempdir = os.path.join(run, 'tmp')
    path = os.path.join(run, 'schema.rng')
    with open(path, 'wb') as f:
        f.write(RNG)
    data = DOCS[case['doc']]
    n = case['chunk']
    chunks = [data[i:i + n] for i in range(0, len(data), n)]
    fail = case['fail']
    if fail == -1:
        fail = len(chunks)
    out = (open(os.path.join(run, 'result'), 'wb+') if case['out'] == 'file'
           else Broken() if case['out'] == 'broken' else io.BytesIO())
    gc.collect()
    before = open_fds()
    error = None
    validator = impl.relaxng_compile(path)
    try:
        with validator.validating_output(out) as g:
            for i, c in enumerate(chunks):
                if i == fail:
                    raise Failed('body')
                g.write(c)
            if len(chunks) == fail:
                raise Failed('body')
    except BaseException as e:
        error = type(e).__name__
    validator = g = None
    gc.collect()
    leaked = sorted(open_fds() - before)
    if case['out'] == 'file':
        out.flush()
        out.seek(0)
    else:
        out.seek(0)
    return error, out.read(), sorted(os.listdir(tempfile.tempdir)), leaked


def valid_run(case):
    run = setup({}, 0)
    error, got, tmp, leaked = sched.forked(valid_work, case, run)
    data = DOCS[case['doc']]
    n = len(range(0, len(data), case['chunk']))
    fails = case['fail'] is not None and case['fail'] <= n
    good = case['doc'].startswith('valid')
    what = 'validating by %s, %s document in chunks of %d, %s output%s' % (
        case['impl'], case['doc'], case['chunk'], case['out'],
        ', failing at chunk %d' % case['fail'] if fails else '')
    if fails:
        expect_equal(error, 'Failed', '%s: exception' % what)
    elif not good:
        expect(error is not None, '%s: presented as success' % what)
        if case['doc'].startswith('invalid'):
            expect_equal(error, 'ValidationFailed', '%s: exception' % what)
    elif case['out'] == 'broken':
        expect_equal(error, 'Failed', '%s: exception' % what)
    else:
        expect_equal(error, None, '%s: exception' % what)
    if error is not None:
        expect_equal(got, b'', '%s: output' % what)
    else:
        expect_equal(got, data, '%s: output' % what)
    expect_equal(tmp, [], '%s: temporary files' % what)
    expect_equal(leaked, [], '%s: open files' % what)
    return error


# ---- documents cut short

CUT_NAMES = ['hwp5txt F', 'hwp5html F', 'hwp5html --css F', 'hwp5odt F',
             'hwp5odt --content F', 'hwp5proc xml --no-validate-wellformed F',
             'hwp5proc xml F', 'hwp5proc xml --format=flat '
             '--no-validate-wellformed F',
             'hwp5proc find --dump F',
             'hwp5proc models --simple F BodyText/Section0',
             'hwp5proc models F DocInfo',
             'hwp5proc records --raw F BodyText/Section0',
             'hwp5proc records F DocInfo', 'lib xmlevents.open', 'lib text']
READS = {'hwp5proc models --simple F BodyText/Section0': 'section',
         'hwp5proc records --raw F BodyText/Section0': 'section',
         'hwp5proc models F DocInfo': 'info',
         'hwp5proc records F DocInfo': 'info'}


def ends(data):
    """offsets at which records end"""
    out = {0}
    at = 0
    while at < len(data):
        h = int.from_bytes(data[at:at + 4], 'little')
        size = h >> 20
        at += 4
        if size == 0xfff:
            size = int.from_bytes(data[at:at + 4], 'little')
            at += 4
        at += size
        out.add(at)
    assert at == len(data)
    return out


def cut_cases(tier):
    info = plain_docinfo()
    section = doc.stream(nodes(), V)
    for name in CUT_NAMES:
        for part, data in (('info', info), ('section', section)):
            if READS.get(name, part) != part:
                continue
            bounds = sorted(ends(data))
            if tier == 'thorough' and 'odt' not in name:
                places = [n for n in range(len(data)) if n not in bounds]
            else:
                places = []
                for a, b in zip(bounds, bounds[1:]):
                    places += [a + 1, a + 4, b - 1]
                    if tier == 'thorough':
                        places += [a + 2, a + 3, a + 5, b - 2]
                places = sorted(set(n for n in places
                                    if n not in bounds and n < len(data)))
                if tier == 'quick':
                    step = 13 if 'odt' in name or 'html' in name else 3
                    places = places[::step] + places[-1:]
            size = 4 if tier == 'quick' else 16
            for lo in range(0, len(places), size):
                yield {'name': name, 'part': part,
                       'at': places[lo:lo + size]}


def cut_run(case):
    seen = []
    for n in case['at']:
        kw = {'info': plain_docinfo(),
              'section': doc.stream(nodes(), V)}
        kw[case['part']] = kw[case['part']][:n]
        r = launch(case['name'], tree(0, **kw), 0, -1, 0)
        what = '%s on a document whose %s is cut at %d' % (
            case['name'], case['part'], n)
        expect(r['code'] != 0, '%s: presented as success' % what)
        clean(r, what)
        seen.append(r['code'])
    return seen


FAMILIES = [
    Family('sound', sound_cases, sound_run),
    Family('validators', valid_cases, valid_run),
    Family('steps', step_cases, step_run),
    Family('programs', program_cases, program_run),
    Family('cut', cut_cases, cut_run, limit=300),
    Family('operations', io_cases, io_run, limit=600),
]
