# -*- coding: utf-8 -*-
"""Reader of ODT packages, which is independent of the code under test."""
import io
import os
import xml.etree.ElementTree as ET
import zipfile

from mc.core import Violation, expect, expect_equal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = {
    'office': 'urn:oasis:names:tc:opendocument:xmlns:office:1.0',
    'text': 'urn:oasis:names:tc:opendocument:xmlns:text:1.0',
    'table': 'urn:oasis:names:tc:opendocument:xmlns:table:1.0',
    'draw': 'urn:oasis:names:tc:opendocument:xmlns:drawing:1.0',
    'style': 'urn:oasis:names:tc:opendocument:xmlns:style:1.0',
    'fo': 'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0',
    'svg': 'urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0',
    'xlink': 'http://www.w3.org/1999/xlink',
    'manifest': 'urn:oasis:names:tc:opendocument:xmlns:manifest:1.0',
}
MIMETYPE = b'application/vnd.oasis.opendocument.text'
_RNG = {}


def q(name):
    p, n = name.split(':')
    return '{%s}%s' % (NS[p], n)


def short(tag):
    ns, _, n = tag[1:].partition('}')
    for k, v in NS.items():
        if v == ns:
            return k + ':' + n
    return tag


def rng(name):
    from lxml import etree
    if name not in _RNG:
        _RNG[name] = etree.RelaxNG(etree.parse(os.path.join(
            HERE, 'data', name)))
    return _RNG[name]


def validate(data, what, schema='OpenDocument-v1.2-os-schema.rng'):
    from lxml import etree
    try:
        t = etree.fromstring(data, etree.XMLParser(huge_tree=True))
    except etree.XMLSyntaxError as e:
        raise Violation('%s is not well-formed: %s' % (what, e))
    r = rng(schema)
    if not r.validate(t):
        raise Violation('%s is not valid: %s' % (
            what, '; '.join('%d: %s' % (e.line, e.message)
                            for e in list(r.error_log)[:4])))
    return ET.fromstring(data)


def package(data, bindata=None):
    """check the package, -> {name: bytes}"""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
    except zipfile.BadZipFile as e:
        raise Violation('the package is not a zip file: %s' % e)
    names = z.namelist()
    expect_equal(sorted(names), sorted(set(names)), 'names of the parts')
    parts = dict((n, z.read(n)) for n in names)
    for n in ('content.xml', 'styles.xml', 'META-INF/manifest.xml',
              'mimetype'):
        expect(n in parts, 'the package has no %s' % n)
    expect_equal(parts['mimetype'], MIMETYPE, 'mimetype')
    man = validate(parts['META-INF/manifest.xml'], 'manifest',
                   'OpenDocument-v1.2-os-manifest-schema.rng')
    listed = []
    for e in man:
        p = e.get(q('manifest:full-path'))
        listed.append(p)
        if p == '/':
            expect_equal(e.get(q('manifest:media-type')), MIMETYPE.decode(),
                         'media type of the package')
        elif p in ('content.xml', 'styles.xml'):
            expect_equal(e.get(q('manifest:media-type')), 'text/xml',
                         'media type of ' + p)
    expect_equal(sorted(listed), sorted(
        ['/'] + [n for n in names if n not in (
            'META-INF/manifest.xml', 'mimetype')]), 'parts in the manifest')
    if bindata is not None:
        got = dict((n[8:], v) for n, v in parts.items()
                   if n.startswith('bindata/'))
        expect_equal(sorted(got), sorted(bindata), 'binary items')
        for n in bindata:
            expect_equal(got[n], bindata[n], 'binary item ' + n)
    for n in parts:
        if n.endswith('.rdf'):
            try:
                ET.fromstring(parts[n])
            except ET.ParseError as e:
                raise Violation('%s is not well-formed: %s' % (n, e))
    return parts


REFS = [('text:p', 'text:style-name', 'paragraph'),
        ('text:h', 'text:style-name', 'paragraph'),
        ('text:span', 'text:style-name', 'text'),
        ('table:table', 'table:style-name', 'table'),
        ('table:table-cell', 'table:style-name', 'table-cell'),
        ('table:table-column', 'table:style-name', 'table-column'),
        ('table:table-row', 'table:style-name', 'table-row')]


class Odt(object):
    """content and styles: declarations, references, effective properties.
    Give the same root twice for a single document."""

    def __init__(self, content, styles):
        self.content, self.styles = content, styles
        single = content is styles
        self.table = {}
        self.fonts = set()
        self.masters = {}
        self.layouts = set()
        self.lists = set()
        for root in (styles,) if single else (styles, content):
            for part in root:
                tag = short(part.tag)
                if tag in ('office:styles', 'office:automatic-styles'):
                    self.declare(part, root)
                elif tag == 'office:font-face-decls':
                    for f in part:
                        self.fonts.add(f.get(q('style:name')))
                elif tag == 'office:master-styles':
                    for m in part.findall(q('style:master-page')):
                        n = m.get(q('style:name'))
                        expect(n not in self.masters,
                               'master page %r is declared twice' % n)
                        self.masters[n] = m
        self.resolve()

    def declare(self, part, root):
        for e in part:
            tag = short(e.tag)
            if tag == 'style:style':
                key = e.get(q('style:family')), e.get(q('style:name'))
                expect(key not in self.table,
                       'the style %r is declared twice' % (key,))
                self.table[key] = e
                if part.tag == q('office:automatic-styles') and \
                        root is self.styles and root is not self.content:
                    del self.table[key]     # not for the content
            elif tag == 'style:page-layout':
                n = e.get(q('style:name'))
                expect(n not in self.layouts,
                       'page layout %r is declared twice' % n)
                self.layouts.add(n)
            elif tag == 'text:list-style':
                self.lists.add(e.get(q('style:name')))

    def need(self, family, name, by):
        expect((family, name) in self.table,
               '%s refers to the %s style %r which is not declared'
               % (by, family, name))

    def resolve(self):
        for (family, name), e in self.table.items():
            by = 'style %r' % name
            for a in ('style:parent-style-name', 'style:next-style-name'):
                v = e.get(q(a))
                if v is not None:
                    self.need(family, v, by)
            v = e.get(q('style:master-page-name'))
            if v:
                expect(v in self.masters, '%s: no master page %r' % (by, v))
            v = e.get(q('style:list-style-name'))
            if v:
                expect(v in self.lists, '%s: no list style %r' % (by, v))
        for n, m in self.masters.items():
            expect(m.get(q('style:page-layout-name')) in self.layouts,
                   'master page %r: no page layout %r' % (
                       n, m.get(q('style:page-layout-name'))))
        for root in (self.content, self.styles):
            for e in root.iter(q('style:text-properties')):
                for a in ('', '-asian', '-complex'):
                    v = e.get(q('style:font-name' + a))
                    if v is not None:
                        expect(v in self.fonts,
                               'the font %r is not declared' % v)
        body = self.content.find(q('office:body'))
        for e in body.iter():
            v = e.get(q('draw:style-name'))
            if v is not None:
                self.need('graphic', v, short(e.tag))
        for tag, attr, family in REFS:
            for e in body.iter(q(tag)):
                v = e.get(q(attr))
                if v is not None:
                    self.need(family, v, tag)
                elif tag == 'text:p':
                    raise Violation('a paragraph has no style')

    def prop(self, family, name, part, attr):
        while name is not None:
            e = self.table[family, name]
            p = e.find(q('style:%s-properties' % part))
            if p is not None and p.get(q(attr)) is not None:
                return p.get(q(attr))
            name = e.get(q('style:parent-style-name'))

    # ---- the body as blocks

    def blocks(self, e=None):
        """[['p', items] | ['table', ncols, rows]]
        items: [char, font size] | ['note', class, number, blocks] |
        ['box', blocks] | ['grp', items] | ['pic', href] | ['obj', kind]"""
        if e is None:
            e = self.content.find(q('office:body')).find(q('office:text'))
        out = []
        for c in e:
            tag = short(c.tag)
            if tag == 'text:p':
                items = []
                style = c.get(q('text:style-name'))
                size = self.prop('paragraph', style, 'text', 'fo:font-size')
                self.inline(c, size, items, [True])
                out.append(['p', items])
            elif tag == 'table:table':
                out.append(self.rows(c))
            elif tag in ('text:sequence-decls',):
                pass
            else:
                raise Violation('%s in %s' % (tag, short(e.tag)))
        return out

    def inline(self, e, size, items, ignore):
        """ignore[0]: a space which follows is not shown"""
        def chars(s):
            for ch in s or '':
                if ch in ' \t\r\n':
                    if ignore[0]:
                        continue
                    ch = ' '
                ignore[0] = ch == ' '
                items.append([ch, size])
        chars(e.text)
        for c in e:
            tag = short(c.tag)
            if tag == 'text:span':
                s = size
                name = c.get(q('text:style-name'))
                if name is not None:
                    s = self.prop('text', name, 'text', 'fo:font-size') or s
                self.inline(c, s, items, ignore)
            elif tag == 'text:s':
                items += [[' ', size]] * int(c.get(q('text:c'), 1))
                ignore[0] = False
            elif tag == 'text:tab':
                items.append(['\t', size])
                ignore[0] = False
            elif tag == 'text:line-break':
                items.append(['\n', size])
                ignore[0] = False
            elif tag == 'text:note':
                items.append(['note', c.get(q('text:note-class')),
                              ''.join(c.find(q('text:note-citation'))
                                      .itertext()),
                              self.blocks(c.find(q('text:note-body')))])
                ignore[0] = False
            elif tag.startswith('draw:'):
                items.append(self.shape(c))
                ignore[0] = False
            else:
                raise Violation('%s in a paragraph' % tag)
            chars(c.tail)

    def shape(self, e):
        tag = short(e.tag)
        if tag == 'draw:g':
            return ['grp', [self.shape(c) for c in e]]
        if tag == 'draw:frame':
            if len(e) == 0:
                return ['obj', 'frame']
            expect_equal(len(e), 1, 'contents of a frame')
            c = e[0]
            if short(c.tag) == 'draw:text-box':
                return ['box', self.blocks(c)]
            if short(c.tag) == 'draw:image':
                b = c.find(q('office:binary-data'))
                if b is not None:
                    import base64
                    return ['data', base64.b64decode(b.text or '')]
                return ['pic', c.get(q('xlink:href'))]
            raise Violation('%s in a frame' % short(c.tag))
        if len(e):
            return ['box', self.blocks(e)]
        return ['obj', tag[5:]]

    def rows(self, t):
        ncols = 0
        rows = []
        for c in t:
            tag = short(c.tag)
            if tag == 'table:table-column':
                ncols += int(c.get(q('table:number-columns-repeated'), 1))
            elif tag == 'table:table-row':
                row = []
                for d in c:
                    if short(d.tag) == 'table:table-cell':
                        row.append([int(d.get(q(
                            'table:number-columns-spanned'), 1)), int(d.get(
                                q('table:number-rows-spanned'), 1)),
                            self.blocks(d)])
                    elif short(d.tag) != 'table:covered-table-cell':
                        raise Violation('%s in a row' % short(d.tag))
                rows.append(row)
            else:
                raise Violation('%s in a table' % tag)
        return ['table', ncols, rows]
