# -*- coding: utf-8 -*-
"""P24 document-wide tables against the references into them."""
import itertools

from mc import conv
from mc import doc
from mc import hwp
from mc.core import Family, TRIVIAL, Violation, expect, expect_equal
from mc.doc import N, para, secpara

PROPERTY = 'P24'
LEVEL = 'exploration'
RULE = ('a case is an assignment of counts to the kinds and languages of the '
        'tables, or of references from styles, paragraphs, texts, cells and '
        'pictures into them; every entry is distinguishable')
ASSUMPTIONS = ['the counts of the id mappings are the numbers of the stored '
               'entries, references are in range',
               'converted: effective properties after the CSS cascade and ODF '
               'style inheritance']

LANGS = ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')
V = (5, 0, 1, 7)


def font(lang, i):
    return '%s font %d' % (lang, i)


def charshape(i, faces=None, **kw):
    return dict(dict(basesize=1000 + 100 * i, text_color=0x010101 * (i + 1),
                     font_face=dict(faces or {}),
                     relative_size=dict((lang, 100) for lang in LANGS)), **kw)


def parashape(i, **kw):
    return dict(dict(doubled_margin_left=200 * (i + 1), linespacing=160),
                **kw)


def border(i):
    b = dict(stroke_flags=1, width_flags=0, color=i + 1)
    return dict(left=b, right=b, top=b, bottom=b)


COUNTS = [lang + '_fonts' for lang in LANGS]


def tables(fonts=(1,) * 7, charshapes=1, parashapes=1, styles=1,
           borderfills=1, bindata=0, tabdefs=1, numberings=0, bullets=0,
           order=0, decoy=False):
    """IdMappings node; the arguments are counts or lists of values"""
    def many(x, make):
        return [make(i) for i in range(x)] if isinstance(x, int) else list(x)
    groups = [
        ('bindata', 'BinData', many(bindata, lambda i: dict(
            flags=1, bindata={'storage_id': i + 1, 'ext': 'png'}))),
        ('fonts', 'FaceName', [dict(name=font(lang, i))
                               for lang, n in zip(LANGS, fonts)
                               for i in range(n)]),
        ('borderfills', 'BorderFill', many(borderfills, border)),
        ('charshapes', 'CharShape', many(charshapes, charshape)),
        ('tabdefs', 'TabDef', many(tabdefs, lambda i: dict(flags=i & 3))),
        ('numberings', 'Numbering', many(numberings, lambda i: dict(
            starting_number=i + 1))),
        ('bullets', 'Bullet', many(bullets, lambda i: dict(
            char=0x2022 + i, width=100 * i))),
        ('parashapes', 'ParaShape', many(parashapes, parashape)),
        ('styles', 'Style', many(styles, lambda i: dict(
            local_name='L%d' % i, name='S%d' % i))),
    ]
    counts = dict((c, n) for c, n in zip(COUNTS, fonts))
    for key, model, items in groups:
        if key != 'fonts':
            counts[key] = len(items)
    kids = []
    if order == 1:              # the kinds the other way round
        groups = groups[::-1]
    queues = [(model, list(items)) for key, model, items in groups]
    if order == 2:              # the kinds interleaved
        while any(q for m, q in queues):
            for m, q in queues:
                if q:
                    kids.append(N(m, q.pop(0)))
    else:
        kids = [N(m, v) for m, q in queues for v in q]
    if decoy:                   # records which are of none of these kinds
        out = []
        for k in kids:
            out.append(k)
            out.append(N('TagModel32', raw=b'\1\2\3\4', tag=0x20))
        kids = out
    return N('IdMappings', counts, children=kids)


def docinfo(sections=1, **kw):
    head = N('DocumentProperties', section_count=sections, page_startnum=1)
    return doc.stream([head, tables(**kw)], V)


def open_(info, sections=()):
    return conv.hwp5file(hwp.tree(
        V, docinfo_bytes=info, summary=hwp.summaryinfo(),
        sections=[doc.stream(s, V) for s in sections]))


def models_(info):
    from hwp5.binmodel import Hwp5File
    return Hwp5File(hwp.Storage(hwp.tree(
        V, docinfo_bytes=info, summary=hwp.summaryinfo(), sections=[])))


# ---- library lookups

def lib_cases(tier):
    top = 2 if tier == 'quick' else 3
    head = list(itertools.product(range(top + 1), repeat=3))
    for h in head:
        for order in (sum(h) % 3,) if tier == 'quick' else (0, 1, 2):
            yield {'head': list(h), 'top': top if tier == 'quick' else 2,
                   'order': order}


def lib_run(case):
    seen = 0
    for tail in itertools.product(range(case['top'] + 1), repeat=4):
        counts = tuple(case['head']) + tail
        n = max(counts)
        # the k-th shape has the k-th font of each language, and, the other
        # way round, the last but k
        shapes = []
        for k in range(n):
            for back in (0, 1):
                shapes.append(charshape(len(shapes), dict(
                    (lang, (min(k, c - 1) if not back else
                            max(c - 1 - k, 0)) if c else 0)
                    for lang, c in zip(LANGS, counts))))
        info = models_(docinfo(fonts=counts, charshapes=shapes,
                               order=case['order'])).docinfo
        by = info.facenames_by_lang
        expect_equal(sorted(by), sorted(LANGS), 'languages')
        for lang, c in zip(LANGS, counts):
            expect_equal([m['content']['name'] for m in by[lang]],
                         [font(lang, i) for i in range(c)],
                         'fonts of %s' % lang)
        expect_equal([m['content']['basesize'] for m in info.charshapes],
                     [s['basesize'] for s in shapes], 'character shapes')
        for i, s in enumerate(shapes):
            m = info.get_charshape(i)
            expect_equal(m['content']['basesize'], s['basesize'],
                         'character shape %d' % i)
            for lang, c in zip(LANGS, counts):
                if c == 0:
                    continue
                m = info.charshape_lang_facename(i, lang)
                expect_equal(m['content']['name'],
                             font(lang, s['font_face'][lang]),
                             '%s font of character shape %d' % (lang, i))
                seen += 1
        expect(info.get_charshape(len(shapes)) is None,
               'a character shape after the last')
        expect_equal([info.idmappings['content'][c] for c in COUNTS],
                     list(counts), 'counts')
    return seen, case['head'], case['order']


# ---- kinds in the models and in the XML

KINDS = [('bindata', 'BinData'), ('borderfills', 'BorderFill'),
         ('charshapes', 'CharShape'), ('tabdefs', 'TabDef'),
         ('numberings', 'Numbering'), ('bullets', 'Bullet'),
         ('parashapes', 'ParaShape'), ('styles', 'Style')]

IDENT = {
    'FaceName': (lambda c: c['name'], lambda e: e.get('name')),
    'BinData': (lambda c: c['bindata']['storage_id'],
                lambda e: int(e[0].get('storage-id')[3:], 16)),
    'BorderFill': (lambda c: c['left']['color'] & 0xffffff,
                   lambda e: bgr(e[0].get('color'))),
    'CharShape': (lambda c: c['basesize'],
                  lambda e: int(e.get('basesize'))),
    'TabDef': (lambda c: int(c['flags']),
               lambda e: int(e.get('flags'), 16)),
    'Numbering': (lambda c: c['starting_number'],
                  lambda e: int(e.get('starting-number'))),
    'Bullet': (lambda c: int(c['width']), lambda e: int(e.get('width'))),
    'ParaShape': (lambda c: c['doubled_margin_left'],
                  lambda e: int(e.get('doubled-margin-left'))),
    'Style': (lambda c: c['local_name'], lambda e: e.get('local-name')),
}


def bgr(s):
    return int(s[5:7] + s[3:5] + s[1:3], 16)


def kind_cases(tier):
    top = 2 if tier == 'quick' else 3
    for c in itertools.product(range(top), repeat=len(KINDS)):
        for order in (0, 1, 2):
            yield {'c': list(c), 'order': order, 'decoy': sum(c) & 1}
    for i in range(len(KINDS)):
        for n in (2, 3, 5):
            c = [1] * len(KINDS)
            c[i] = n
            yield {'c': c, 'order': 2, 'decoy': n & 1}


def expected(kinds, fonts, order):
    want = dict((model, []) for key, model in KINDS)
    want['FaceName'] = [font(lang, i) for lang, n in zip(LANGS, fonts)
                        for i in range(n)]
    for key, model in KINDS:
        n = kinds[key]
        want[model] = {
            'BinData': [i + 1 for i in range(n)],
            'BorderFill': [i + 1 for i in range(n)],
            'CharShape': [1000 + 100 * i for i in range(n)],
            'TabDef': [i & 3 for i in range(n)],
            'Numbering': [i + 1 for i in range(n)],
            'Bullet': [100 * i for i in range(n)],
            'ParaShape': [200 * (i + 1) for i in range(n)],
            'Style': ['L%d' % i for i in range(n)],
        }[model]
    return want


def kind_run(case):
    kinds = dict(zip([k for k, m in KINDS], case['c']))
    fonts = [(sum(case['c']) + i) % 3 for i in range(7)]
    f = open_(docinfo(fonts=fonts, order=case['order'],
                      decoy=bool(case['decoy']), **kinds))
    want = expected(kinds, fonts, case['order'])
    got = dict((m, []) for m in want)
    for m in f.docinfo.models():
        name = m['type'].__name__
        if name in got:
            got[name].append(IDENT[name][0](m['content']))
    expect_equal(got, want, 'models')
    data = b''.join(f.docinfo.xmlevents().bytechunks())
    root = doc.parse_xml(data)
    im = root if root.tag == 'IdMappings' else root.find('.//IdMappings')
    got = dict((m, []) for m in want)
    for e in im:
        if e.tag in got:
            got[e.tag].append(IDENT[e.tag][1](e))
    expect_equal(got, want, 'XML')
    for key, n in kinds.items():
        expect_equal(im.get(key), str(n), 'count of %s' % key)
    for lang, n in zip(LANGS, fonts):
        expect_equal(im.get(lang + '-fonts'), str(n), 'count of %s' % lang)
    return sorted(map(repr, got.items()))


# ---- fonts in the converted styles

ODF = {'style': 'urn:oasis:names:tc:opendocument:xmlns:style:1.0',
       'fo': 'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0',
       'text': 'urn:oasis:names:tc:opendocument:xmlns:text:1.0',
       'table': 'urn:oasis:names:tc:opendocument:xmlns:table:1.0',
       'draw': 'urn:oasis:names:tc:opendocument:xmlns:drawing:1.0',
       'office': 'urn:oasis:names:tc:opendocument:xmlns:office:1.0',
       'xlink': 'http://www.w3.org/1999/xlink'}
XH = '{http://www.w3.org/1999/xhtml}'


def q(name):
    p, n = name.split(':')
    return '{%s}%s' % (ODF[p], n)


class Odt(object):
    """content.xml and styles.xml with the styles resolved"""

    def __init__(self, f):
        self.content, self.styles = conv.odt_parts(f)
        self.table = {}
        for root, where in ((self.styles, 'office:styles'),
                            (self.content, 'office:automatic-styles')):
            for e in root.find(q(where)).findall(q('style:style')):
                key = e.get(q('style:family')), e.get(q('style:name'))
                if key in self.table:
                    raise Violation('the style %r is declared twice' % (key,))
                self.table[key] = e

    def get(self, family, name):
        e = self.table.get((family, name))
        if e is None:
            raise Violation('no style %r for %s' % (name, family))
        return e

    def prop(self, family, name, part, attr):
        while name is not None:
            e = self.get(family, name)
            p = e.find(q('style:%s-properties' % part))
            if p is not None and p.get(q(attr)) is not None:
                return p.get(q(attr))
            name = e.get(q('style:parent-style-name'))

    def text_prop(self, span, p, attr):
        name = span.get(q('text:style-name'))
        if name is not None:
            v = self.prop('text', name, 'text', attr)
            if v is not None:
                return v
        return self.prop('paragraph', p.get(q('text:style-name')), 'text',
                         attr)

    def para_prop(self, p, attr):
        return self.prop('paragraph', p.get(q('text:style-name')),
                         'paragraph', attr)


def family(decl):
    return decl['font-family'].split(',')[0].strip().strip('"')


def font_cases(tier):
    if tier == 'quick':
        for c in itertools.product((0, 1, 3), repeat=3):
            for t in ((1, 2, 0, 2), (0, 0, 2, 1)):
                yield {'c': list(c) + list(t)}
                yield {'c': list(t) + list(c)}
    else:
        for c in itertools.product((0, 1, 2), repeat=7):
            yield {'c': list(c)}


def font_run(case):
    counts = case['c']
    shapes = []
    for k in range(max(counts)):
        shapes.append(charshape(k, dict(
            (lang, min(k, n - 1) if n else 0)
            for lang, n in zip(LANGS, counts))))
    if not shapes:
        return TRIVIAL
    styles = [dict(local_name='L%d' % i, name='S%d' % i, charshape_id=i)
              for i in range(len(shapes))]
    f = open_(docinfo(fonts=counts, charshapes=shapes, styles=styles,
                      order=sum(counts) % 3), [[secpara(['x'])]])
    css = conv.Css(conv.css(f))
    odt = Odt(f)
    n = 0
    for i, s in enumerate(shapes):
        for lang, c in zip(LANGS, counts):
            if not c:
                continue
            want = font(lang, s['font_face'][lang])
            for path in ([('p', ['S%d' % i]), ('span', ['lang-' + lang])],
                         [('p', ['none']), ('span', ['lang-' + lang,
                                                     'charshape-%d' % i])]):
                d = css.style(*path)
                expect_equal(family(d), want, 'font of %r' % path)
                expect_equal(d.get('font-size'), '%dpt' % (10 + i),
                             'size of %r' % path)
            n += 1
        for lang, attr in (('en', 'style:font-name'),
                           ('ko', 'style:font-name-asian')):
            if counts[LANGS.index(lang)]:
                expect_equal(odt.prop('paragraph', 'L%d' % i, 'text', attr),
                             font(lang, s['font_face'][lang]),
                             'ODT %s of style %d' % (attr, i))
    return n, counts


# ---- styles, paragraphs and texts

def ref_cases(tier):
    n = 3
    pairs = list(itertools.product(range(n), repeat=2))
    if tier == 'quick':
        for a, b in itertools.product(pairs, repeat=2):
            for nxt in ((0, 0), (1, 0), (1, 1)):
                yield {'s': [list(a), list(b)], 'n': list(nxt)}
    else:
        for a in itertools.product(pairs, repeat=3):
            yield {'s': [list(x) for x in a],
                   'n': [a[0][0], a[1][1], a[2][0]]}
        for a, b in itertools.product(pairs, repeat=2):
            for nxt in itertools.product((0, 1), repeat=2):
                yield {'s': [list(a), list(b)], 'n': list(nxt)}


def own(e, tag, stop):
    """descendants by tag which are not below a stop element"""
    for c in e:
        if c.tag == tag:
            yield c
        elif c.tag not in stop:
            for x in own(c, tag, stop):
                yield x


def ref_run(case):
    ns, nc, np = len(case['s']), 3, 3
    styles = [dict(local_name='L%d' % i, name='S%d' % i, parashape_id=p,
                   charshape_id=c, next_style_id=x)
              for i, ((p, c), x) in enumerate(zip(case['s'], case['n']))]
    info = docinfo(charshapes=nc, parashapes=np, styles=styles)
    paras = []
    want = []
    combos = list(itertools.product(range(ns), range(np), range(nc)))
    for k, (s, p, c) in enumerate(combos):
        c2 = (c + 1) % nc
        # texts of two shapes, in two lines, some after a tab
        if k % 2:
            toks, w = ['ab'], 1
        else:
            toks, w = ['a', ('w', 9), 'b'], 9
        n = sum(doc.token_units(t) for t in toks)
        shapes = [(0, c), (w, c2)] if k % 3 else [(0, c2), (w, c)]
        texts = [('a', shapes[0][1]), ('b', shapes[1][1])]
        if k % 3 == 0:          # the paragraph goes on, with a field
            toks += ['d', N('FieldHyperLink'), 'e', ('end',), 'f']
            shapes += [(n, c), (n + 9, c2), (n + 18, c)]
            texts += [('d', c), ('e', c2), ('f', c)]
        lines = (0, w) if k % 5 else (0,)
        kw = {'split': 4} if k % 7 == 0 else {}
        paras.append(para(toks + [13], shapes=shapes, lines=lines,
                          parashape=p, style=s, **kw))
        want.append((s, p, texts))
    f = open_(info, [[secpara(['x'])] + paras])
    # HTML
    root = conv.parse(conv.xhtml(f), 'xhtml')
    css = conv.Css(conv.css(f))
    got = list(root.iter(XH + 'p'))[1:]
    expect_equal(len(got), len(want), 'HTML paragraphs')
    for e, (s, p, texts) in zip(got, want):
        pc = ('p', e.get('class').split())
        expect(('S%d' % s) in pc[1], 'paragraph of style %d is of class %r'
               % (s, pc))
        expect_equal(css.style(pc).get('margin'),
                     '0pt 0pt 0pt %dpt' % (p + 1), 'margin of %r' % (pc,))
        spans = [(x.text, css.style(pc, ('span', x.get('class').split())))
                 for x in e.iter(XH + 'span')]
        expect_equal([(t, d.get('color'), d.get('font-size'))
                      for t, d in spans],
                     [(t, '#%06x' % (0x010101 * (c + 1)), '%dpt' % (10 + c))
                      for t, c in texts], 'HTML texts of style %d' % s)
    # ODT
    odt = Odt(f)
    for i, x in enumerate(case['n']):
        e = odt.get('paragraph', 'L%d' % i)
        expect_equal(e.get(q('style:next-style-name')), 'L%d' % x,
                     'style after %d' % i)
    got = list(odt.content.iter(q('text:p')))[1:]
    expect_equal(len(got), len(want), 'ODT paragraphs')
    for e, (s, p, texts) in zip(got, want):
        expect_equal(odt.para_prop(e, 'fo:margin-left'), '%dpt' % (p + 1),
                     'ODT margin of style %d, shape %d' % (s, p))
        name = e.get(q('text:style-name'))
        if name != 'L%d' % s:
            expect_equal(odt.get('paragraph', name).get(
                q('style:parent-style-name')), 'L%d' % s, 'parent style')
        expect_equal([(x.text, odt.text_prop(x, e, 'fo:font-size'))
                      for x in e.iter(q('text:span'))],
                     [(t, '%dpt' % (10 + c)) for t, c in texts],
                     'ODT texts of style %d' % s)
    return case


# ---- border fills, pictures and bullets

def obj_cases(tier):
    n = 3 if tier == 'quick' else 4
    for nb in range(1, n + 1):
        for refs in itertools.product(range(1, nb + 1), repeat=3):
            yield {'k': 'fill', 'n': nb, 'r': list(refs)}
    for nb in range(1, n + 1):
        for refs in itertools.product(range(1, nb + 1), repeat=2):
            yield {'k': 'bin', 'n': nb, 'r': list(refs)}
    for nb in range(1, n + 1):
        for heads in itertools.product(range(4), repeat=2):
            for refs in itertools.product(range(nb + 1), repeat=2):
                yield {'k': 'bullet', 'n': nb, 'r': list(refs),
                       'h': list(heads)}


def obj_run(case):
    n, refs = case['n'], case['r']
    color = lambda i: '#%02x0000' % i           # noqa: the i-th border fill
    if case['k'] == 'fill':
        info = docinfo(borderfills=n)
        cells = [[dict(paras=[para(['c', 13])], borderfill_id=r)
                  for r in refs[:2]]]
        t = doc.table(cells)
        for k in t.children:
            if k.model == 'TableBody':
                k.values['borderfill_id'] = refs[2]
        f = open_(info, [[secpara([t])]])
        css = conv.Css(conv.css(f))
        root = conv.parse(conv.xhtml(f), 'xhtml')
        # the style sheet has no lines thinner than a pixel
        for e, r in zip(list(root.iter(XH + 'table')) +
                        list(root.iter(XH + 'td')), refs[2:] + refs[:2]):
            d = css.style((e.tag[len(XH):], e.get('class').split()))
            expect_equal([d.get('border-' + s) for s in
                          ('top', 'right', 'bottom', 'left')],
                         ['1px solid ' + color(r)] * 4, 'border %d' % r)
        odt = Odt(f)
        cells = list(odt.content.iter(q('table:table-cell')))
        expect_equal(len(cells), 2, 'ODT cells')
        for e, r in zip(cells, refs):
            name = e.get(q('table:style-name'))
            expect_equal([odt.prop('table-cell', name, 'table-cell',
                                   'fo:border-' + s)
                          for s in ('top', 'right', 'bottom', 'left')],
                         ['0.1mm solid ' + color(r)] * 4, 'ODT border %d' % r)
    elif case['k'] == 'bin':
        # the i-th item is stored under another number
        items = [dict(flags=1, bindata={'storage_id': 0x1e - i, 'ext': 'e%d'
                                        % i}) for i in range(n)]
        info = docinfo(bindata=items, borderfills=[border(0)] + [
            dict(border(r), fillflags=2, fill_image=dict(
                flags=5, bindata_id=r)) for r in refs[1:]])
        f = open_(info, [[secpara([doc.picture(r) for r in refs])]])
        name = lambda r: 'bindata/BIN%04X.e%d' % (0x1f - r, r - 1)  # noqa
        root = conv.parse(conv.xhtml(f), 'xhtml')
        expect_equal([e.get('src') for e in root.iter(XH + 'img')],
                     [name(r) for r in refs], 'pictures')
        css = conv.Css(conv.css(f))
        expect_equal([css.style(('td', ['borderfill-%d' % (k + 2)])).get(
            'background-image') for k in range(len(refs) - 1)],
            ['url(%s)' % name(r) for r in refs[1:]], 'fill images')
        content, styles = conv.odt_parts(f)
        expect_equal([e.get(q('xlink:href'))
                      for e in content.iter(q('draw:image'))],
                     [name(r) for r in refs], 'ODT pictures')
    else:
        shapes = [parashape(i, numbering_bullet_id=r,
                            parashapeflags=h << 23)
                  for i, (r, h) in enumerate(zip(refs, case['h']))]
        info = docinfo(parashapes=shapes, bullets=n, numberings=n, styles=[
            dict(local_name='L0', name='S0', parashape_id=1)])
        f = open_(info, [[secpara(['x']), para(['y', 13]),
                          para(['z', 13], parashape=1)]])
        css = conv.Css(conv.css(f))
        root = conv.parse(conv.xhtml(f), 'xhtml')
        for e, k in zip(list(root.iter(XH + 'p'))[1:], (0, 1)):
            cls = e.get('class').split()
            before = [d for parts, child, d in css.rules
                      if parts[-1][2] == ('::before',) and
                      parts[-1][1] <= set(cls)]
            want = [] if case['h'][k] != 3 or not refs[k] else \
                ['"%s"' % chr(0x2022 + refs[k] - 1)]
            expect_equal([d.get('content') for d in before], want,
                         'bullets of %r' % cls)
    return case


FAMILIES = [Family('lookups', lib_cases, lib_run),
            Family('kinds', kind_cases, kind_run),
            Family('fonts', font_cases, font_run),
            Family('references', ref_cases, ref_run),
            Family('objects', obj_cases, obj_run)]
