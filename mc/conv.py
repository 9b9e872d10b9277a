# -*- coding: utf-8 -*-
"""Conversions through the real transforms, and readers of what they write."""
import io
import re
import xml.etree.ElementTree as ET
import zipfile

from mc import hwp
from mc.core import Violation

_T = {}


def hwp5file(tree):
    from hwp5.xmlmodel import Hwp5File
    return Hwp5File(hwp.Storage(tree))


def T(kind):
    """the transform objects, one of each per process"""
    if kind not in _T:
        if kind == 'html':
            from hwp5.hwp5html import HTMLTransform as C
        elif kind == 'odt':
            from hwp5.hwp5odt import ODTTransform as C
        else:
            from hwp5.hwp5txt import TextTransform as C
        _T[kind] = C()
    return _T[kind]


def xhtml(f):
    out = io.BytesIO()
    T('html').transform_hwp5_to_xhtml(f, out)
    return out.getvalue()


def css(f):
    out = io.BytesIO()
    T('html').transform_hwp5_to_css(f, out)
    return out.getvalue()


def text(f):
    out = io.BytesIO()
    T('txt').transform_hwp5_to_text(f, out)
    return out.getvalue()


def odt(f):
    """-> bytes of the package"""
    from hwp5.hwp5odt import ODTPackage
    out = io.BytesIO()
    pkg = ODTPackage(zipfile.ZipFile(out, 'w'))
    T('odt').transform_hwp5_to_package(f, pkg)
    pkg.close()
    return out.getvalue()


def odt_parts(f):
    """-> (content root, styles root)"""
    z = zipfile.ZipFile(io.BytesIO(odt(f)))
    return (parse(z.read('content.xml'), 'content.xml'),
            parse(z.read('styles.xml'), 'styles.xml'))


def parse(data, what):
    try:
        return ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation('%s is not well-formed: %s\n%r'
                        % (what, e, data[:2000]))


# ---- CSS

class Css(object):
    """rules of a style sheet of simple selectors"""

    IDENT = r'-?(?:[_a-zA-Z]|[^\x00-\x7f]|\\[^\n])' \
            r'(?:[_a-zA-Z0-9-]|[^\x00-\x7f]|\\[^\n])*'
    STRING = r'"(?:[^"\\\n]|\\.)*"'
    SIMPLE = re.compile(r'([a-zA-Z][a-zA-Z0-9]*)?((?:\.%s|:[a-z-]+|::[a-z]+)*)$'
                        % IDENT)

    def __init__(self, source):
        if isinstance(source, bytes):
            source = source.decode('utf-8')
        self.rules = []         # (selector parts, {property: value})
        self.classes = set()
        src = re.sub(r'(%s)|/\*.*?\*/' % self.STRING,
                     lambda m: m.group(1) or '', source, flags=re.S)
        pos = 0
        pat = re.compile(r'\s*([^{}]*?)\s*\{((?:%s|[^{}"])*)\}' % self.STRING,
                         re.A)
        while src[pos:].strip(' \t\r\n\f'):
            m = pat.match(src, pos)
            if not m:
                raise Violation('style sheet ends in %r' % src[pos:pos + 200])
            pos = m.end()
            parts = [self.simple(p) for p in
                     re.split(r'\s*>\s*|\s+', m.group(1), flags=re.A)]
            child = '>' in m.group(1)
            decls = {}
            for d in re.findall(r'(?:%s|url\([^")]*\)|[^;"])+' % self.STRING, m.group(2)):
                d = d.strip(' \t\r\n\f')
                if d:
                    k, _, v = d.partition(':')
                    decls[k.strip()] = v.strip(' \t\r\n\f')
            self.rules.append((parts, child, decls))

    def simple(self, s):
        m = self.SIMPLE.match(s)
        if not m or not s:
            raise Violation('invalid selector %r' % s)
        cls = []
        pseudo = []
        for x in re.findall(r'\.%s|::?[a-z-]+' % self.IDENT, m.group(2)):
            if x[0] == '.':
                cls.append(re.sub(r'\\(.)', r'\1', x[1:]))
            else:
                pseudo.append(x)
        self.classes.update(cls)
        return m.group(1), frozenset(cls), tuple(pseudo)

    def style(self, *path):
        """declarations in force for the element at the path of
        (tag, classes); its parent comes before it"""
        found = []
        for n, (parts, child, decls) in enumerate(self.rules):
            if len(parts) > len(path) or parts[-1][2]:
                continue
            if not child and len(parts) > 1:
                continue
            spec = [0, 0]
            for (tag, cls, pseudo), (etag, ecls) in zip(reversed(parts),
                                                        reversed(path)):
                if tag and tag != etag or not cls <= set(ecls):
                    break
                spec[0] += len(cls) + len(pseudo)
                spec[1] += bool(tag)
            else:
                found.append((spec, n, decls))
        out = {}
        for spec, n, decls in sorted(found, key=lambda x: x[:2]):
            out.update(decls)
        return out
