# -*- coding: utf-8 -*-
"""Stand-ins of the libraries the OLE back ends are adapters of: libgsf (gi),
UNO and POIFS.  Each reads compound files with olefile.  Where the real libgsf
is installed it is a further back end, and binds the stand-in to reality."""
import io
import os
import sys
import types

import olefile as _olefile


class Node(object):
    """a compound file, read"""

    def __init__(self, data):
        try:
            self.kids = {}
            self.data = None
            if data is None:
                return
            if not _olefile.isOleFile(io.BytesIO(data)):
                raise IOError('not an OLE2 compound file')
            o = _olefile.OleFileIO(io.BytesIO(data))
            for path in o.listdir(streams=True, storages=True):
                n = self
                for p in path[:-1]:
                    n = n.kids[p]
                c = n.kids[path[-1]] = Node(None)
                if o.get_type('/'.join(path)) == 2:
                    c.data = o.openstream('/'.join(path)).read()
        except Exception as e:
            raise IOError('%s' % e)


def module(name, **kw):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(kw)
    return m


# ---- libgsf

class GError(Exception):
    pass


class Input(object):
    def __init__(self, data, name=None):
        self.data = data
        self.pos = 0
        self.name = name

    @property
    def size(self):
        return len(self.data)

    def tell(self):
        return self.pos

    def read(self, n):
        if n < 0 or self.pos + n > len(self.data):
            return None
        d = self.data[self.pos:self.pos + n]
        self.pos += n
        return d

    def seek(self, offset, whence):
        base = {'SET': 0, 'CUR': self.pos, 'END': len(self.data)}[whence]
        if not 0 <= base + offset <= len(self.data):
            return True     # failed
        self.pos = base + offset
        return False


class InputGio(Input):
    @classmethod
    def new_for_path(cls, path):
        if not os.path.isfile(path):
            raise GError('no such file')
        with io.open(path, 'rb') as f:
            return cls(f.read(), path)


class InfileMSOle(Input):
    def __init__(self, node, name=None):
        Input.__init__(self, node.data or b'', name)
        self.node = node

    @classmethod
    def new(cls, inp):
        if not isinstance(inp, Input):
            raise TypeError(inp)
        try:
            return cls(Node(inp.data))
        except IOError as e:
            raise GError(str(e))

    def num_children(self):
        return -1 if self.node.data is not None else len(self.node.kids)

    def name_by_index(self, i):
        return list(self.node.kids)[i]

    def child_by_name(self, name):
        n = self.node.kids.get(name)
        return None if n is None else InfileMSOle(n, name)


def gsf_modules():
    Gsf = module('gi.repository.Gsf', Input=Input, InputGio=InputGio,
                 InfileMSOle=InfileMSOle)
    GLib = module('gi.repository.GLib', SeekType=types.SimpleNamespace(
        SET='SET', CUR='CUR', END='END'))
    repo = module('gi.repository', Gsf=Gsf, GLib=GLib)
    gi = module('gi', repository=repo)
    gi.require_version = lambda *a: None
    return {'gi': gi, 'gi.repository': repo, 'gi.repository.Gsf': Gsf,
            'gi.repository.GLib': GLib}


# ---- UNO

class UnoException(Exception):
    pass


class NoSuchElementException(UnoException):
    pass


class NotConnectedException(UnoException):
    pass


class ByteSequence(object):
    def __init__(self, value):
        if isinstance(value, ByteSequence):
            value = value.value
        if not isinstance(value, bytes):
            raise TypeError('expected bytes, got %s' % type(value))
        self.value = value

    def __len__(self):
        return len(self.value)


class Stream(object):
    """com.sun.star.io.TempFile"""

    SupportedServiceNames = ('com.sun.star.io.TempFile',)

    def __init__(self, data):
        self.f = io.BytesIO(data)

    def _open(self):
        if self.f is None:
            raise NotConnectedException()
        return self.f

    def readBytes(self, data, n):
        if not isinstance(data, ByteSequence) or n < 0:
            raise UnoException('readBytes %r %r' % (data, n))
        d = self._open().read(n)
        return len(d), ByteSequence(d)

    readSomeBytes = readBytes

    def skipBytes(self, n):
        self._open().read(n)

    def available(self):
        f = self._open()
        return len(f.getbuffer()) - f.tell()

    def closeInput(self):
        self._open()
        self.f = None

    def seek(self, pos):
        if not 0 <= pos <= self.getLength():
            raise UnoException('seek %r' % pos)
        self._open().seek(pos)

    def getPosition(self):
        return self._open().tell()

    def getLength(self):
        return len(self._open().getbuffer())


class OLESimpleStorage(object):

    SupportedServiceNames = ('com.sun.star.embed.OLESimpleStorage',)

    def __init__(self, stream, node=None):
        self.node = node
        if node is None:
            stream.seek(0)
            n, data = stream.readBytes(ByteSequence(b''), stream.getLength())
            if n != len(data):
                raise UnoException('readBytes')
            try:
                self.node = Node(data.value)
            except IOError:
                pass

    def _node(self):
        if self.node is None:
            raise UnoException('not an OLE2 compound file')
        return self.node

    def getElementNames(self):
        return tuple(self._node().kids)

    def getByName(self, name):
        n = self._node().kids.get(name)
        if n is None:
            raise NoSuchElementException(name)
        if n.data is None:
            return OLESimpleStorage(None, n)
        return Stream(n.data)


class Context(object):
    @property
    def ServiceManager(self):
        return self

    def createInstanceWithArgumentsAndContext(self, name, args, context):
        if name != 'com.sun.star.embed.OLESimpleStorage' or \
                context is not self:
            raise UnoException(name)
        return OLESimpleStorage(*args)


CONTEXT = Context()


def uno_modules():
    uno = module('uno', ByteSequence=ByteSequence,
                 getComponentContext=lambda: CONTEXT)
    names = ['com', 'com.sun', 'com.sun.star', 'com.sun.star.io',
             'com.sun.star.container']
    m = dict((n, module(n)) for n in names)
    for n in names[1:]:
        a, b = n.rsplit('.', 1)
        setattr(m[a], b, m[n])
    for i in ('XInputStream', 'XSeekable', 'XOutputStream'):
        setattr(m['com.sun.star.io'], i, type(i, (object,), {}))
    m['com.sun.star.io'].NotConnectedException = NotConnectedException
    m['com.sun.star.container'].NoSuchElementException = \
        NoSuchElementException
    m['uno'] = uno
    m['unohelper'] = module('unohelper', Base=type('Base', (object,), {}))
    return m


# ---- POIFS

class IOException(Exception):
    def getMessage(self):
        return self.args[0]


class FileNotFoundException(IOException):
    pass


class FileInputStream(object):
    def __init__(self, path):
        if not os.path.isabs(path):
            raise IOException('the JVM has another current directory')
        if not os.path.isfile(path):
            raise FileNotFoundException(path)
        with io.open(path, 'rb') as f:
            self.data = f.read()


class Entry(object):
    def __init__(self, node, name):
        self.node = node
        self.name = name
        self.directoryEntry = node.data is None
        self.documentEntry = node.data is not None

    def getName(self):
        return self.name


class DirectoryEntry(Entry):
    def getEntries(self):
        return [entry(n, k) for k, n in self.node.kids.items()]

    def getEntry(self, name):
        if name not in self.node.kids:
            raise FileNotFoundException('no such entry: %s' % name)
        return entry(self.node.kids[name], name)


class DocumentEntry(Entry):
    pass


def entry(node, name):
    return (DirectoryEntry if node.data is None else
            DocumentEntry)(node, name)


class POIFSFileSystem(object):
    def __init__(self, fis):
        try:
            self.node = Node(fis.data)
        except IOError as e:
            raise IOException(str(e))

    def getRoot(self):
        return DirectoryEntry(self.node, 'Root Entry')


class jarray_bytes(object):
    def __init__(self, n):
        if n < 0:
            raise ValueError('NegativeArraySizeException')
        self.b = bytearray(n)

    def __len__(self):
        return len(self.b)

    def tostring(self):
        return bytes(self.b)

    tobytes = tostring


class DocumentInputStream(object):
    def __init__(self, e):
        if not isinstance(e, DocumentEntry):
            raise IOException('cannot open')
        self.data = e.node.data
        self.pos = self.marked = 0
        self.closed = False

    def _open(self):
        if self.closed:
            raise IOException('cannot perform requested operation on a '
                              'closed stream')

    def available(self):
        self._open()
        return len(self.data) - self.pos

    def mark(self, ignored):
        self.marked = self.pos

    def reset(self):
        self.pos = self.marked

    def skip(self, n):
        self._open()
        if n < 0:
            return 0
        n = min(n, len(self.data) - self.pos)
        self.pos += n
        return n

    def read(self, b):
        self._open()
        if self.pos == len(self.data):
            return -1
        n = min(len(b), len(self.data) - self.pos)
        b.b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def close(self):
        self.closed = True


def poifs_modules():
    fs = 'org.apache.poi.poifs.filesystem'
    m = {}
    for i in range(1, 6):
        n = '.'.join(fs.split('.')[:i])
        m[n] = module(n)
    m[fs].__dict__.update(POIFSFileSystem=POIFSFileSystem,
                          DirectoryEntry=DirectoryEntry,
                          DocumentEntry=DocumentEntry,
                          DocumentInputStream=DocumentInputStream)
    m['java'] = module('java')
    m['java.io'] = module('java.io', FileInputStream=FileInputStream,
                          IOException=IOException,
                          FileNotFoundException=FileNotFoundException)
    m['jarray'] = module('jarray', zeros=lambda n, t: jarray_bytes(n))
    return m


MODULES = {'gsf': gsf_modules(), 'uno': uno_modules(),
           'poifs': poifs_modules()}

# ---- the real libgsf, where it is installed

def real_modules():
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from gi.repository import GLib     # noqa
            from gi.repository import Gsf      # noqa
    except Exception:
        return None
    return dict((n, m) for n, m in sys.modules.items()
                if n == 'gi' or n.startswith('gi.'))


MODULES['libgsf'] = real_modules()
REAL = MODULES['libgsf'] is not None
if not REAL:
    del MODULES['libgsf']

HIDE = {'gsf': ['gi', 'gi.repository', 'gi.repository.Gsf'],
        'uno': ['uno', 'unohelper'],
        'poifs': ['org.apache.poi.poifs.filesystem', 'org', 'java'],
        'olefile': ['olefile', 'OleFileIO_PL']}


class Installed(object):
    """only these back ends are there"""

    def __init__(self, *kinds, **env):
        self.kinds = kinds
        self.uno = env.get('uno', '1' if 'uno' in kinds else None)

    def __enter__(self):
        new = {}
        for k, names in HIDE.items():
            if k not in self.kinds and not (k == 'gsf' and
                                            'libgsf' in self.kinds):
                new.update((n, None) for n in names)
        for k in self.kinds:
            new.update(MODULES.get(k, {}))
        self.saved = dict((n, sys.modules.get(n, self)) for n in new)
        sys.modules.update(new)
        self.env = os.environ.pop('PYHWP_PLAT_UNO', None)
        if self.uno is not None:
            os.environ['PYHWP_PLAT_UNO'] = self.uno
        return self

    def __exit__(self, *args):
        for n, m in self.saved.items():
            if m is self:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        os.environ.pop('PYHWP_PLAT_UNO', None)
        if self.env is not None:
            os.environ['PYHWP_PLAT_UNO'] = self.env
