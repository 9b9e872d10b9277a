# -*- coding: utf-8 -*-
"""Stand-ins of the two GUI tool kits of the viewer: they record, follow a
script of events and fail where they are told to."""
import inspect
import sys
import types
import urllib.parse

from mc.core import Violation

NAMES = ['gi', 'gi.repository', 'PySide', 'PySide.QtCore', 'PySide.QtGui',
         'PySide.QtWebKit']


def path_of(url):
    """the file a file: URL denotes"""
    u = urllib.parse.urlsplit(url)
    if u.scheme != 'file' or u.netloc not in ('', 'localhost') or \
            '?' in url or u.fragment:
        raise Violation('not the URL of a file: %r' % url)
    return urllib.parse.unquote(u.path, errors='surrogateescape')


class Widget(object):

    def __init__(self, gui, kind):
        self.gui = gui
        self.kind = kind
        self.children = []
        self.handlers = {}
        self.shown = False
        gui.step('%s()' % kind)
        gui.widgets.append(self)

    def within(self):
        yield self
        for c in self.children:
            for x in c.within():
                yield x

    def connect(self, name, fn, *data):
        self.gui.step('%s.connect %s' % (self.kind, name))
        self.handlers.setdefault(name, []).append((fn, data))

    def emit(self, name, *args):
        out = None
        for fn, data in self.handlers.get(name, ()):
            rv = fn(self, *(args + data))
            if rv:
                return rv
            out = rv
        return out

    def _add(self, child, *args, **kw):
        self.gui.step('%s.add' % self.kind)
        self.children.append(child)

    add = pack_start = pack_end = setCentralWidget = _add

    def show_all(self):
        self.gui.step('%s.show' % self.kind)
        self.shown = True

    show = present = showNormal = show_all

    def resize(self, w, h):
        self.gui.step('%s.resize' % self.kind)
        self.gui.sizes.append((w, h))

    def load_string(self, content, mime, encoding, base):
        self.gui.step('%s.load' % self.kind)
        if mime not in ('text/html', 'application/xhtml+xml') or \
                encoding.lower() not in ('utf-8', 'utf8'):
            raise Violation('page loaded as %s in %s' % (mime, encoding))
        if not isinstance(content, bytes):
            content = content.encode('utf-8')
        self.gui.load(self, content, base)

    def load_uri(self, uri):
        self.gui.step('%s.load' % self.kind)
        with open(path_of(uri), 'rb') as f:
            self.gui.load(self, f.read(), uri)

    def load(self, qurl):
        self.load_uri(qurl.url)

    def execute_script(self, script):
        self.gui.step('%s.script' % self.kind)
        w, h = script.find('scrollWidth'), script.find('scrollHeight')
        if 'dimension:' not in script or not 0 <= w < h:
            raise Violation('script %r' % script)
        self.gui.asked = True

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def method(*args, **kw):
            self.gui.step('%s.%s' % (self.kind, name))
        return method


class Signal(object):
    def __init__(self, gui):
        self.gui = gui
        self.slots = []

    def connect(self, fn):
        self.gui.step('signal.connect')
        self.slots.append(fn)
        return True

    def emit(self, *args):
        for fn in self.slots:
            # a slot takes as many arguments as it wants
            n = len(inspect.signature(fn).parameters)
            fn(*args[:n])


class Request(object):
    def __init__(self, uri):
        self.uri = uri

    def get_uri(self):
        return self.uri


class Gui(object):
    """kits: which of gtk, webkit, qt are installed"""

    def __init__(self, kits, loop, fail_at=None, fault=None):
        self.kits = kits
        self.on_loop = loop
        self.fail_at = fail_at
        self.fault = fault
        self.steps = []
        self.widgets = []
        self.sizes = []
        self.page = None        # (content, base URL)
        self.view = None
        self.asked = False
        self.quit = False
        self.loops = 0

    def step(self, what):
        self.steps.append(what)
        if self.fail_at is not None and len(self.steps) == self.fail_at:
            raise self.fault

    def load(self, view, content, base):
        self.page = (content, base)
        self.view = view

    def window(self):
        """the window which shows the page"""
        for w in self.widgets:
            if w.kind == 'window' and w.shown and self.view is not None \
                    and self.view in w.within():
                return w

    def loop(self):
        self.loops += 1
        self.step('main loop')
        self.on_loop(self)

    def main_quit(self, *args):
        self.quit = True

    # ---- events

    def loaded(self, width, height):
        """the page has been loaded; -> what its script navigates to"""
        self.asked = False
        self.view.emit('load-finished', 'frame')
        if self.asked:
            return self.navigate('dimension:%dx%d' % (width, height))

    def navigate(self, uri):
        return self.view.emit('navigation-requested', 'frame', Request(uri))

    # ---- modules

    def modules(self):
        gui = self
        m = dict((n, types.ModuleType(n)) for n in NAMES)
        gi, repo = m['gi'], m['gi.repository']
        gi.__path__ = []
        repo.__path__ = []
        gi.repository = repo
        gi.require_version = lambda *a: None
        if 'gtk' in self.kits:
            Gtk = repo.Gtk = types.SimpleNamespace()
            Gtk.Window = lambda *a, **k: Widget(gui, 'window')
            for n in ('ScrolledWindow', 'VBox', 'Box', 'HBox'):
                setattr(Gtk, n, lambda *a, n=n, **k: Widget(gui, n))
            Gtk.main = self.loop
            Gtk.main_quit = self.main_quit
        if 'webkit' in self.kits:
            repo.WebKit = types.SimpleNamespace(
                WebView=lambda *a, **k: Widget(gui, 'view'))
        if 'gtk' not in self.kits and 'webkit' not in self.kits:
            m['gi'] = m['gi.repository'] = None
        if 'qt' not in self.kits:
            for n in NAMES:
                if n.startswith('PySide'):
                    m[n] = None
            return m
        m['PySide'].__path__ = []

        class QUrl(object):
            def __init__(self, url):
                gui.step('QUrl()')
                self.url = url

        class QApplication(object):
            def __init__(self, argv):
                gui.step('QApplication()')

            def exec_(self):
                gui.loop()
                return 0

        class QMainWindow(Widget):
            def __init__(self, *args):
                Widget.__init__(self, gui, 'window')

        class QWebView(Widget):
            def __init__(self, *args):
                Widget.__init__(self, gui, 'view')
                self.loadFinished = Signal(gui)

        m['PySide.QtCore'].QUrl = QUrl
        m['PySide.QtGui'].QApplication = QApplication
        m['PySide.QtGui'].QMainWindow = QMainWindow
        m['PySide.QtWebKit'].QWebView = QWebView
        return m

    def __enter__(self):
        self.saved = dict((n, sys.modules[n]) for n in NAMES
                          if n in sys.modules)
        sys.modules.update(self.modules())
        return self

    def __exit__(self, *args):
        for n in NAMES:
            sys.modules.pop(n, None)
        sys.modules.update(self.saved)
