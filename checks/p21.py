# -*- coding: utf-8 -*-
"""P21 HTML: all text in its place, classes and styles which agree."""
import io
import itertools
import os
import re
import shutil

from mc import cli
from mc import conv
from mc import doc
from mc import hwp
from mc.core import Family, Violation, expect, expect_equal
from mc.doc import N, para
from checks import p10
from checks import p19
from checks import p20

PROPERTY = 'P21'
LEVEL = 'exploration'
RULE = ('a case is one document: a block of paragraphs over token sequences, '
        'character shape and line splits; containers nested in each other; '
        'tables of a tiling; style names; styles and shapes which are mixed; '
        'values of shape, page, border, font and bullet members; binary '
        'items; or a command line or a sequence of conversions. Page and '
        'style sheet are read back by an independent reader')
ASSUMPTIONS = ['references into the document tables are in range',
               'styles of paragraphs are paragraph styles',
               'measures are not negative',
               'characters which XML cannot represent are not kept']

P = p10.P
BRK = 13
PNG = p20.PNG
LANGS = p20.LANGS
XH = '{http://www.w3.org/1999/xhtml}'


# ---- the page as it was written

def tag(e):
    expect(isinstance(e.tag, str) and e.tag.startswith(XH),
           'element %r' % e.tag)
    return e.tag[len(XH):]


def classes(e):
    return re.findall('[^ \\t\\r\\n\\f]+', e.get('class') or '')


class Page(object):
    """index.xhtml and its style sheet"""

    def __init__(self, xhtml, css, styles):
        # ids of the default shapes of the styles of the document
        self.defaults = styles
        self.root = conv.parse(xhtml, 'index.xhtml')
        expect_equal(tag(self.root), 'html', 'root')
        expect_equal([tag(c) for c in self.root], ['head', 'body'],
                     'children of html')
        source = [css.decode('utf-8')] if css is not None else []
        self.links = []
        for e in self.root[0]:
            if tag(e) == 'style':
                source.append(e.text or '')
            if tag(e) == 'link':
                self.links.append(e.get('href'))
        self.css = [conv.Css(s) for s in source]
        self.rules = conv.Css('\n'.join(source))
        for s in self.css:
            for parts, child, decls in s.rules:
                for k, v in decls.items():
                    value(k, v)
        self.style_of = {}
        for e in self.root.iter():
            self.inline(e)
            for c in classes(e):
                if re.match(r'(parashape|charshape|borderfill|Bullet|Section)'
                            r'-\d+$', c) and c != 'borderfill-0':
                    expect(c in self.rules.classes,
                           'no rule for the class %r' % c)

    def inline(self, e):
        s = e.get('style')
        if s is None:
            return
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
        for d in s.split(';'):
            if d.strip():
                k, c, v = d.partition(':')
                expect(c, 'declaration %r' % d)
                value(k.strip(), v.strip())

    def sections(self):
        """[(headers, blocks, footers)]"""
        out = []
        seen = set()
        for e in self.root[1]:
            c = classes(e)
            expect(tag(e) == 'div' and c[:1] == ['Section'] and len(c) == 3
                   and c[2] == 'Paper' and c[1] not in seen,
                   'section %r' % (c,))
            seen.add(c[1])
            expect_equal([classes(x) for x in e], [['HeaderPageFooter']],
                         'parts of a section')
            head, page, foot = [], None, []
            for x in e[0]:
                expect_equal((tag(x), x.text, x.tail), ('div', None, None),
                             'part of a page')
                k = classes(x)
                if k == ['HeaderArea']:
                    expect(page is None, 'header after the page')
                    head.append(self.blocks(x))
                elif k == ['FooterArea']:
                    expect(page is not None, 'footer before the page')
                    foot.append(self.blocks(x))
                else:
                    expect_equal(k, ['Page'], 'part of a page')
                    expect(page is None, 'two pages')
                    page = self.blocks(x)
            out.append((head, page, foot))
        return out

    def style(self, cls):
        """index of the style whose class it is: the first of its use"""
        return self.style_of.get(cls)

    def blocks(self, e):
        out = []
        self.no_text(e)
        for c in e:
            t, k = tag(c), classes(c)
            if t == 'p':
                out.append(self.par(c, k))
            elif t == 'table':
                out.append(self.table(c))
            elif t == 'div' and k == ['GShapeObjectControl']:
                out.append(['gso', self.blocks(c)])
            elif t == 'div' and k in (['FootNote'], ['EndNote']):
                out.append([k[0], self.blocks(c)])
            elif t == 'img':
                out.append(['img', c.get('src')])
            elif t == 'caption':
                out.append(['caption', self.blocks(c)])
            else:
                raise Violation('element %s %r' % (t, k))
        return out

    def no_text(self, e):
        for s in [e.text] + [c.tail for c in e]:
            if s and s.strip():
                raise Violation('text %r in %s' % (s, tag(e)))

    def par(self, e, k):
        expect(k, 'no class')
        items = []

        def add(s, shape):
            for ch in s or '':
                # the mark at the end of the paragraph
                if (ch, shape) != ('\r', None):
                    items.append([ch, shape])
        add(e.text, None)
        for c in e:
            t, ck = tag(c), classes(c)
            if t != 'span':
                raise Violation('element %s in a paragraph' % t)
            if ck[:1] == ['TableControl']:
                expect_equal([tag(x) for x in c], ['table'],
                             'inline table')
                self.no_text(c)
                items.append(self.table(c[0]))
            elif ck == ['GShapeObjectControl']:
                items.append(['gso', self.blocks(c)])
            elif ck[:1] == ['autonumbering']:
                items.append(['num', c.text or ''])
            else:
                expect(ck[:1] and ck[0][:5] == 'lang-' and
                       ck[0][5:] in LANGS, 'classes of a span %r' % (ck,))
                expect(len(c) == 0, 'span has elements')
                shape = None
                for x in ck[1:]:
                    m = re.match(r'charshape-(\d+)$', x)
                    expect(m and shape is None, 'classes %r' % (ck,))
                    shape = int(m.group(1))
                add(c.text, shape if shape is not None else 'style')
            add(c.tail, None)
        parashape = 'style'
        for x in k[1:]:
            m = re.match(r'parashape-(\d+)$', x)
            if m:
                expect(parashape == 'style', 'classes %r' % (k,))
                parashape = int(m.group(1))
            else:
                expect(re.match(r'Bullet-\d+$', x), 'classes %r' % (k,))
        return ['p', k[0], parashape, items]

    def table(self, e):
        caption = None
        rows = []
        self.no_text(e)
        for c in e:
            if tag(c) == 'caption':
                expect(caption is None and not rows, 'place of the caption')
                caption = self.blocks(c)
                continue
            expect_equal(tag(c), 'tr', 'child of table')
            self.no_text(c)
            row = []
            for d in c:
                expect_equal(tag(d), 'td', 'child of tr')
                row.append([int(d.get('colspan')), int(d.get('rowspan')),
                            self.blocks(d)])
            rows.append(row)
        return ['table', caption, rows]


NUM = r'-?(?:\d+(?:\.\d*)?|\.\d+)(?:e[-+]?\d+)?'
LEN = NUM + r'(?:pt|mm|px|em)'
POS = LEN.replace('-?', '', 1)
COLOR = r'#[0-9a-f]{6}'
STRING = r'"(?:[^"\\\n]|\\[^\n])*"'
URL = r'url\([^()\s"\']*\)|url\(%s\)' % STRING
GRAD = r'(?:-webkit-|-moz-)?linear-gradient\(%sdeg(?:,%s){2,}\)' % (NUM, COLOR)
BORDER = r'(?:%s) (?:none|solid|dashed|dotted|double|inset|outset|groove|' \
    r'ridge) %s' % (POS, COLOR)
DECO = 'solid|dashed|dotted|double'
GRAMMAR = {
    'background-color': COLOR + '|#[0-9a-f]{3}',
    'padding': r'%s(?: %s){0,3}' % (POS, POS),
    'margin': r'(?:0|%s)(?: %s){0,3}|1em auto' % (LEN, LEN),
    'border': '1px solid black',
    'text-align': 'left|right|center|justify',
    'text-indent': LEN,
    'padding-left': POS, 'padding-top': POS, 'padding-bottom': POS,
    'margin-left': LEN, 'margin-right': LEN, 'margin-top': LEN + '|0',
    'margin-bottom': LEN + '|0',
    'width': POS, 'height': POS, 'min-height': POS + '|0',
    'left': '0', 'top': '0', 'bottom': '0',
    'line-height': NUM.replace('-?', '', 1) + '|normal',
    'content': STRING,
    'display': 'inline-block',
    'color': COLOR,
    'font-style': 'italic|normal',
    'font-weight': 'bold|normal',
    'font-family': r'%s(?:, (?:serif|sans-serif|monospace|cursive|fantasy))?'
    % STRING,
    'font-size': POS,
    'border-top': BORDER, 'border-right': BORDER, 'border-bottom': BORDER,
    'border-left': BORDER,
    'border-collapse': 'collapse',
    'caption-side': 'top|bottom',
    'background-image': '(?:%s)|%s' % (URL, GRAD),
    'background-size': '100% 100%',
    'position': 'relative|absolute',
    'text-decoration': 'underline|overline|line-through|none',
    'text-decoration-color': COLOR, '-moz-text-decoration-color': COLOR,
    '-webkit-text-decoration-color': COLOR,
    'text-decoration-style': DECO, '-moz-text-decoration-style': DECO,
    '-webkit-text-decoration-style': DECO,
}
for _k in GRAMMAR:
    GRAMMAR[_k] = re.compile('(?:%s)$' % GRAMMAR[_k])


def value(k, v):
    """a declaration has a property, and a value which it can have; what is
    not known here has to be made of complete values at least"""
    if k in GRAMMAR:
        if not GRAMMAR[k].match(v):
            raise Violation('declaration %s: %s' % (k, v))
    elif not re.match(r'[a-z-]+$', k) or not v or 'NaN' in v:
        raise Violation('declaration %s: %s' % (k, v))


# ---- what the records denote

FLOATS = ('TableControl', 'GShapeObjectControl', 'FootNote', 'EndNote')


def shape_at(p, pos):
    shapes = getattr(p, 'shapes', None) or [(0, 0)]
    return [s for a, s in shapes if a <= pos][-1]


def want_blocks(paras, aside):
    """aside: lists of headers and footers, which the result leaves out"""
    out = []
    for p in paras:
        items = []
        after = []
        pos = 0
        for t in p.tokens:
            if isinstance(t, str):
                at = pos
                for ch in t:
                    sh = shape_at(p, at)
                    at += 2 if ord(ch) > 0xffff else 1
                    if not p19.ILLEGAL.match(ch) and \
                            not 0xd800 <= ord(ch) < 0xe000:
                        items.append([ch, sh])
            elif isinstance(t, int):
                for ch in p19.ONE.get(t, ''):
                    items.append([ch, None])
            elif isinstance(t, N):
                w = want_control(t, aside)
                if w is None:
                    pass
                elif w[0] == 'num' or t.values.get('flags', 0) & 1 and \
                        t.model in FLOATS[:2]:
                    items.append(w)
                else:
                    after.append((FLOATS.index(t.model), len(after), w))
            elif t[0] == 'w':
                for ch in p19.ONE.get(t[1], ''):
                    items.append([ch, None])
            pos += doc.token_units(t)
        out.append(['p', p.values['style_id'], p.values['parashape_id'],
                    items])
        out += [w for _, _, w in sorted(after, key=lambda x: x[:2])]
    return out


def want_control(t, aside):
    if t.model in ('FootNote', 'EndNote'):
        return [t.model, want_blocks(p20.paras_after(t, 0), aside)]
    if t.model in ('Header', 'Footer'):
        own = [None]
        aside[t.model == 'Footer'].append(own)
        own[0] = want_blocks(p20.paras_after(t, 0), aside)
        return None
    if t.model == 'AutoNumbering':
        v = t.values
        return ['num', ''.join(x for x in (
            v.get('prefix', '\0'), str(v.get('number', 0)),
            v.get('suffix', '\0')) if x != '\0')]
    if t.model == 'HiddenComment':
        # not shown, but headers in it are
        want_blocks(p20.paras_after(t, 0), aside)
        return None
    if t.model == 'TableControl':
        body = [c for c in t.children if c.model == 'TableBody'][0]
        cells = []
        caption = None
        for k, c in enumerate(t.children):
            if c.model == 'TableCaption':
                caption = want_blocks(p20.paras_after(t, k), aside)
            if c.model == 'TableCell':
                cells.append([c.values['colspan'], c.values['rowspan'],
                              want_blocks(p20.paras_after(t, k), aside)])
        rows = []
        for n in body.values['rowcols']:
            rows.append(cells[:n])
            cells = cells[n:]
        return ['table', caption, rows]
    if t.model == 'GShapeObjectControl':
        return ['gso', want_shapes(t, aside)]
    return None


def want_shapes(t, aside):
    """all paragraphs and pictures of a drawing object, in order"""
    out = []
    for k, c in enumerate(t.children):
        if c.model == 'Paragraph':
            out += want_blocks([c], aside)
        elif c.model == 'ShapeComponent':
            out += want_shapes(c, aside)
        elif c.model == 'ShapePicture':
            out.append(['img', 'bindata/BIN0001.png'])
    return out


def want_sections(sections):
    out = []
    for s in sections:
        aside = ([], [])
        b = want_blocks(s, aside)
        out.append(([x[0] for x in aside[0]], b, [x[0] for x in aside[1]]))
    return out


def diff(got, want, defaults, names, path='body', own=None):
    """-> description of the first difference or None"""
    if isinstance(want, tuple):
        got, want = list(got), list(want)
    if not isinstance(want, list) or not isinstance(got, list):
        return None if got == want else \
            '%s: %.300r, not %.300r' % (path, got, want)
    if want[:1] == ['p'] and got[:1] == ['p'] and len(want) == len(got) == 4:
        own = want[1]
        name = names.setdefault(own, got[1])
        if name != got[1]:
            return '%s: class %r, not %r, of style %r' % (path, got[1], name,
                                                          own)
        ps = got[2] if got[2] != 'style' else defaults[own][0]
        if ps != want[2]:
            return '%s: paragraph shape %r, not %r' % (path, ps, want[2])
        got, want = got[3], want[3]
    elif len(want) == 2 and len(got) == 2 and isinstance(want[0], str) and \
            len(want[0]) == 1:
        sh = got[1] if got[1] != 'style' else defaults[own][1]
        if got[0] != want[0] or want[1] is not None and sh != want[1]:
            return '%s: %r of shape %r, not %r of %r' % (
                path, got[0], sh, want[0], want[1])
        return None
    for i, (g, w) in enumerate(zip(got, want)):
        d = diff(g, w, defaults, names, '%s/%d' % (path, i), own)
        if d:
            return d
    if len(got) != len(want):
        n = min(len(got), len(want))
        return '%s: %d, not %d; %s' % (
            path, len(got), len(want), 'more: %.300r' % got[n:]
            if len(got) > n else 'missing: %.300r' % want[n:])
    return None


def compare(page, sections, what='page'):
    got = page.sections()
    want = want_sections(sections)
    names = {}
    d = diff(got, want, page.defaults, names)
    if d is not None:
        at = d.split(':')[0].split('/')[1:]
        g, w = got, want
        for k in at[:3]:
            k = int(k)
            g = g[k] if k < len(g) else None
            w = w[k] if k < len(w) else None
            if g is None or w is None:
                break
        raise Violation('%s: %s\n in: %.800r\nnot: %.800r' % (what, d, g, w))
    if len(set(names.values())) != len(names):
        raise Violation('%s: styles share a class: %r' % (what, names))
    page.names = names
    return page


STYLES0 = {0: (0, 0)}


def pages(t, styles=None):
    f = conv.hwp5file(t)
    css = conv.css(f)
    return Page(conv.xhtml(f), css, styles or STYLES0)


def check(sections, what='page', styles=None, **kw):
    return compare(pages(p20.tree(sections, **kw), styles), sections, what)


# ---- texts of paragraphs

def plan(tier):
    q = tier == 'quick'
    A = p19.ALPHA
    out = [(A, 0, True), (A, 1, True)]
    if q:
        out += [(A, 2, False), ('xk U<TGFfe-t', 2, True),
                (p19.FEW, 3, False)]
    else:
        out += [(A, 2, True), (A, 3, False), (p19.FEW, 3, True),
                ('xTFfe', 4, True), ('xTfe', 5, True), (p19.FEW, 4, False),
                ('xTfe', 6, False)]
    return out


BLOCK = p20.BLOCK


def text_cases(tier):
    for alpha, n, every in plan(tier):
        block, size = [], 0
        for s in p19.seqs(alpha, n):
            if every and p19.ncuts(s) > 5:
                continue
            block.append(s)
            size += (1 << 2 * p19.ncuts(s)) if every else 8
            if size >= BLOCK:
                yield {'s': block, 'e': every}
                block, size = [], 0
        if block:
            yield {'s': block, 'e': every}


def float_some(paras, k):
    """tables and drawing objects of some of the paragraphs are not inline"""
    for i, p in enumerate(paras):
        for j, t in enumerate(t for t in p.tokens if isinstance(t, N)):
            if t.model in FLOATS[:2] and (i + j + k) % 3 == 0:
                t.values['flags'] &= ~1
    return paras


def text_run(case):
    paras = [doc.secpara(['s'])]
    for s in case['s']:
        for a, b, seg in p19.splits(s, case['e']):
            paras.append(p19.mk(s, a, b, seg)[0])
            if len(paras) > 2 * BLOCK:
                check([float_some(paras, 0)])
                paras = paras[:1]
    check([float_some(paras, 1)])
    return case['s']


# ---- characters

def char_run(case):
    cs = [chr(c) for c in range(max(32, case['b']), case['b'] + 256)]
    paras = [doc.secpara(['s']), P(''.join(cs) + '.')]
    for i in range(0, len(cs), 8):
        paras.append(P('.' + '.'.join(cs[i:i + 8]) + '.'))
    check([paras])
    return case['b']


# ---- containers in each other

def nest_cases(tier):
    q = tier == 'quick'
    cont = 'TGFVE'
    depth = 3 if q else 4
    for n in range(1, depth + 1):
        for path in itertools.product(cont + 'HOCKL', repeat=n):
            if n == depth and sum(c in 'EHOCKL' for c in path) > (n < 4):
                continue
            for at in ('only', 'first', 'last', 'two'):
                if n >= 3 and at in ('only', 'last') and \
                        (q or n == 4):
                    continue
                for fl in (0, 1, 2):
                    if fl and not set(path) & set('TGVKL') or \
                            fl == 2 and n < 2 or n == 4 and fl != 1 or \
                            q and n == 3 and fl != (at == 'two'):
                        continue
                    yield {'p': ''.join(path), 'at': at, 'fl': fl}
    for n in (8, 14) if q else (8, 14, 20):
        for k in 'TGFVKL':
            for at in ('only', 'first', 'last'):
                for fl in (0, 1, 2):
                    yield {'p': k * n, 'at': at, 'fl': fl}


def container(k, paras):
    if k == 'O':
        return doc.header('Footer', paras)
    return p20.container(k, paras)


def nested(case):
    paras = [P('deep')]
    for i, k in enumerate(reversed(case['p'])):
        cs = [container(k, paras)]
        if case['at'] == 'only':
            paras = [para(cs)]
        elif case['at'] == 'first':
            paras = [P(cs[0], 'x'), P('y')]
        elif case['at'] == 'last':
            paras = [P('y'), P('x', cs[0])]
        else:
            cs += [container(k, [P('v')]), container(k, [P('w')])]
            paras = [P('x', cs[0], cs[1], 'y'), P(cs[2])]
        for j, c in enumerate(cs):
            if c.model in FLOATS[:2] and (
                    case['fl'] == 1 or case['fl'] == 2 and (i + j) % 2):
                c.values['flags'] &= ~1
    return paras


def nest_run(case):
    check([[doc.secpara(), P('0')] + nested(case)])
    return case


# ---- tables of every tiling

def many_run(case):
    check(p20.many_sections(case))
    return case


def tiling_run(case):
    paras = [doc.secpara()]
    for n, t in enumerate(case['t']):
        rows = [[] for i in range(case['r'])]
        kids = []
        for i, j, h, w in t:
            rows[i].append(1)
            kids += doc.cell([P('%d.%d' % (i, j))], j, i, w, h)
        table = N('TableControl', children=[
            N('TableBody', rows=case['r'], cols=case['c'],
              rowcols=[len(x) for x in rows], borderfill_id=1,
              validZones=[])] + kids, width=42000, height=2000,
            flags=0x082a2210 | n & 1)
        paras.append(P('t%d' % n, table))
    page = check([paras])
    tables = [e for e in page.root.iter(XH + 'table')]
    for e, t in zip(tables, case['t']):
        used = set()
        got = []
        for i, row in enumerate(e):
            for d in row:
                j = 0
                while (i, j) in used:
                    j += 1
                w, h = int(d.get('colspan')), int(d.get('rowspan'))
                used |= set((a, b) for a in range(i, i + h)
                            for b in range(j, j + w))
                got.append((i, j, h, w))
        expect_equal(got, sorted(map(tuple, t)), 'cells')
    return len(case['t'])


# ---- styles: the look of text is the one of its shapes

NAMES = p20.NAMES + [
    'Section', 'Section-0', 'Paper', 'Page', 'HeaderArea', 'FootNote',
    'charshape-0', 'parashape-0', 'parashape-1', 'borderfill-1', 'Bullet-1',
    'lang-ko', 'TableControl', 'autonumbering', 'GShapeObjectControl',
    'a\\b', 'a{b', 'a}', 'a/*b', 'a>b', 'a,b', 'a+b', 'a#b', '@a', 'a\tb',
    'a\nb', '\x7f', '--', 'A', 'a', 'HeaderPageFooter', 'TableCaption']


def style_cases(tier):
    few = ['L0', 'L 0', '', '1st', 'Style-1', '\ubc14\ud0d5\uae00']
    yield {'n': NAMES}
    yield {'n': NAMES[::-1]}
    for a in NAMES:
        for b in NAMES:
            if tier != 'quick' or a in few and a <= b or NAMES.index(b) == \
                    (NAMES.index(a) * 7 + 3) % len(NAMES):
                yield {'n': [a, b]}
    few = ['L0', 'L-0', '1', 'Style-1', 'Style-2', 'Style-3', '.']
    for t in itertools.product(few, repeat=3):
        yield {'n': list(t)}
    if tier != 'quick':
        for t in itertools.product(few, repeat=4):
            yield {'n': list(t)}
    for n in (30, 100):
        yield {'n': ['same'] * n}
        yield {'n': ['Style-%d' % (n - i) for i in range(n)]}


def margin(i):
    return '0pt 0pt 0pt %dpt' % (i + 1)


def style_run(case):
    n = len(case['n'])
    styles = [dict(local_name='e%d' % i, name=x, charshape_id=i,
                   parashape_id=i) for i, x in enumerate(case['n'])]
    d = p20.info(n, styles=styles, parashapes=[
        dict(doubled_margin_left=200 * (i + 1), linespacing=160)
        for i in range(n)])
    paras = [doc.secpara()]
    for i in range(n):
        for ps in (i, (i + 1) % n):
            p = para(['x%d' % i, 'y', BRK], shapes=[
                (0, i), (2, (i + 1) % n)], style=i, parashape=ps)
            p.shapes = [(0, i), (2, (i + 1) % n)]
            paras.append(p)
    page = check([paras], styles=dict((i, (i, i)) for i in range(n)),
                 docinfo_bytes=d)
    body = ['html', 'body']
    ps = list(page.root.iter(XH + 'p'))[1:]
    for e, p in zip(ps, paras[1:]):
        cls = frozenset(classes(e))
        look = page.rules.style(('p', cls))
        expect_equal(look.get('margin'), margin(p.values['parashape_id']),
                     'margin of %r' % cls)
        at = 0
        for s in e:
            look = page.rules.style(('p', cls), ('span', classes(s)))
            sh = shape_at(p, at)
            at += len(s.text)
            expect_equal(look.get('font-size'), p20.size_of(sh),
                         'size of %r in %r' % (classes(s), cls))
    return body and sorted(page.names.items())


LOOKS = [dict(), dict(charshapeflags=1), dict(charshapeflags=2),
         dict(charshapeflags=3), dict(charshapeflags=1 << 2),
         dict(charshapeflags=2 << 2), dict(charshapeflags=3 << 2),
         dict(charshapeflags=1 << 2 | 1 << 4), dict(text_color=0x112233),
         dict(charshapeflags=1 << 2, underline_color=0x445566),
         dict(charshapeflags=0x7 << 4 | 2), dict(text_color=0xff)]
PLAIN = {'font-style': 'normal', 'font-weight': 'normal',
         'text-decoration': 'none'}


def look_of(v):
    fl = v.get('charshapeflags', 0)
    c = v.get('text_color', 0)
    out = {'color': '#%02x%02x%02x' % (c & 255, c >> 8 & 255, c >> 16),
           'font-style': 'italic' if fl & 1 else 'normal',
           'font-weight': 'bold' if fl & 2 else 'normal',
           'text-decoration': {0: 'none', 1: 'underline', 2: 'line-through',
                               3: 'overline'}[fl >> 2 & 3]}
    if fl >> 2 & 3:
        c = v.get('underline_color', 0)
        out['text-decoration-color'] = '#%02x%02x%02x' % (
            c & 255, c >> 8 & 255, c >> 16)
        out['text-decoration-style'] = {0: 'solid', 1: 'dashed',
                                        7: 'double'}[fl >> 4 & 15]
    return out


PLOOKS = [dict(), dict(indent=400), dict(indent=-400),
          dict(parashapeflags=1 << 2), dict(parashapeflags=2 << 2),
          dict(parashapeflags=3 << 2), dict(parashapeflags=4 << 2),
          dict(linespacing=160), dict(parashapeflags=1, linespacing=160),
          dict(parashapeflags=2, linespacing=300),
          dict(doubled_margin_top=200, doubled_margin_right=400,
               doubled_margin_bottom=600, doubled_margin_left=800)]
PPLAIN = {'text-indent': '0pt', 'padding-left': '0pt'}


def plook_of(v):
    fl = v.get('parashapeflags', 0)
    ind = v.get('indent', 0)
    out = {'text-indent': '%gpt' % (ind / 200.0),
           'padding-left': '%gpt' % (-ind / 200.0 if ind < 0 else 0),
           'text-align': {0: 'justify', 1: 'left', 2: 'right', 3: 'center',
                          4: 'justify'}[fl >> 2 & 7],
           'margin': ' '.join('%gpt' % (v.get('doubled_margin_' + k, 0) / 200)
                              for k in ('top', 'right', 'bottom', 'left'))}
    return out


def look_cases(tier):
    for a in range(len(LOOKS)):
        yield {'c': a}
    for a in range(len(PLOOKS)):
        yield {'p': a}


def look_run(case):
    """paragraphs of each shape in a style of another"""
    n = len(LOOKS) if 'c' in case else len(PLOOKS)
    shapes = [dict(dict(basesize=1000 + 100 * i,
                        relative_size=dict((x, 100) for x in LANGS)),
                   **v) for i, v in enumerate(LOOKS)]
    styles = [dict(local_name='st%d' % i, charshape_id=i if 'c' in case else 0,
                   parashape_id=i if 'p' in case else 0) for i in range(n)]
    d = p20.info(charshapes=shapes, styles=styles, parashapes=PLOOKS)
    paras = [doc.secpara()]
    own = case.get('c', case.get('p'))
    padding = []
    for i in range(n):
        sh = [(0, i)] if 'c' in case else [(0, 0)]
        p = para(['a', BRK], shapes=sh, style=own,
                 parashape=0 if 'c' in case else i)
        p.shapes = sh
        paras.append(p)
    page = check([paras], docinfo_bytes=d, styles=dict(
        (i, (i if 'p' in case else 0, i if 'c' in case else 0))
        for i in range(n)))
    for i, e in enumerate(list(page.root.iter(XH + 'p'))[1:]):
        cls = classes(e)
        if 'p' in case:
            look = dict(PPLAIN, **page.rules.style(('p', cls)))
            want = plook_of(PLOOKS[i])
            pad = want.pop('padding-left')
            if look.pop('padding-left') != pad:
                padding.append(i)
            for k, v in want.items():
                expect_equal(look.get(k), v, '%s of paragraph shape %d in '
                             'the style of %d' % (k, i, own))
            # heights of lines are those of the shape
            sp = page.rules.style(('p', cls), ('span', classes(e[0])))
            ls = PLOOKS[i].get('linespacing', 0)
            if PLOOKS[i].get('parashapeflags', 0) & 3:
                expect(sp.get('line-height', 'normal') == 'normal',
                       'line-height %r of paragraph shape %d in the style '
                       'of %d' % (sp.get('line-height'), i, own))
            else:
                expect_equal(float(sp.get('line-height')), ls / 100.0,
                             'line height')
            expect_equal(re.sub('(em)?$', '', look['min-height']),
                         '0' if PLOOKS[i].get('parashapeflags', 0) & 3 else
                         '%g' % (ls / 100.0), 'least height')
        else:
            look = dict(PLAIN, **page.rules.style(('p', cls),
                                                  ('span', classes(e[0]))))
            for k, v in look_of(LOOKS[i]).items():
                expect_equal(look.get(k), v, '%s of character shape %d in '
                             'the style of %d' % (k, i, own))
    if padding:
        expect(PLOOKS[own].get('indent', 0) < 0 and not any(
            PLOOKS[i].get('indent', 0) < 0 for i in padding),
            'left padding of paragraph shapes %r' % padding)
        raise Violation('paragraphs with no hanging indent are padded in a '
                        'style with one', signature='look:padding-left')
    return n


# ---- values of members

def value_cases(tier):
    for b in range(0, 32):
        yield {'m': 'gso', 'bit': b}
        yield {'m': 'table', 'bit': b}
        yield {'m': 'para', 'bit': b}
        yield {'m': 'char', 'bit': b}
        yield {'m': 'page', 'bit': b}
        yield {'m': 'caption', 'bit': b}
    for m in ('gso', 'table'):
        for pair in itertools.combinations(sorted(p20.GSO), 2):
            yield {'m': m, 'f': list(pair)}
    for path in itertools.product('TGFEHOVKL', repeat=2):
        yield {'m': 'place', 'p': ''.join(path)}
    for n in range(0, 18):
        yield {'m': 'border', 'v': n}
    for n in range(0, 11):
        yield {'m': 'underline', 'v': n}
    for n in range(0, 12):
        yield {'m': 'fill', 'v': n}
    for n in range(0, 16):
        yield {'m': 'image', 'v': n}
    for n in range(0, 5):
        yield {'m': 'gradation', 'v': n}
    for n in FONTS:
        yield {'m': 'face', 'v': n}
    for n in range(0, 16):
        yield {'m': 'panose', 'v': n}
    for n in BULLETS:
        yield {'m': 'bullet', 'v': n}
    if tier != 'quick':
        for t in itertools.combinations(sorted(p20.GSO), 3):
            yield {'m': 'gso', 'f': list(t)}
        for path in itertools.product('TGFHKL', repeat=3):
            yield {'m': 'place', 'p': ''.join(path)}


FONTS = ['f', '', 'a b', "a'b", 'a"b', '"', '""', 'a\\', '\\', 'a;b', 'a{b}',
         '}', 'a\nb', '/*', '*/', '<&>', '</style>', 'url(x)', '\uba85\uc870',
         '\ubc14\ud0d5', '\u3000', '\U00020000', '\\a', 'a\\"b', '\\"']
BULLETS = [ord(c) for c in 'a"\\\'{};/*\n \u25cf\uf06c\u3000<&'] + [0xffff]


def value_run(case):
    m = case['m']
    if m in ('gso', 'table', 'caption'):
        base = 0x046a4000
        paras = [doc.secpara()]
        if 'bit' in case:
            lo = 1 << case['bit']
            values = [base | lo, base & ~lo, lo, 0xffffffff & ~lo]
            values = [v for v in values if p20.legal(v)]
        else:
            values = []
            fs = [p20.GSO[f] for f in case['f']]
            for t in itertools.product(*[f[1] for f in fs]):
                v = base
                for (at, vals), x in zip(fs, t):
                    v &= ~(((1 << max(vals).bit_length()) - 1) << at)
                    v |= x << at
                if p20.legal(v):
                    values.append(v)
        if m == 'caption':
            # positions of captions
            for fl in (0, 1, 2, 3):
                t = doc.table([[[P('1')]]], caption=[P('c')])
                t.children[0].values.update(
                    flags=fl | case['bit'] << 2 & 4, separation=case['bit'],
                    width=1 << case['bit'] % 31)
                paras.append(P('x', t))
            values = []
        for v in values:
            if m == 'table':
                paras.append(P('x', doc.table([[[P('1')], [P('2')]]],
                                              flags=v)))
                continue
            for xy in ((0, 0), (700, 300), (-100, -9)):
                for make in (lambda: doc.textbox([P('b')]),
                             lambda: doc.picture(1)):
                    g = make()
                    g.values.update(flags=v, x=xy[0], y=xy[1])
                    paras.append(P('x', g, 'y'))
        check([paras], 'flags %s' % ' '.join('%#x' % v for v in values[:4]))
        return values
    if m == 'place':
        # places of what is not inline, in each container
        paras = [doc.secpara()]
        for h in range(4):
            for a in range(5):
                t = doc.table([[[P('1')]]], flags=0x082a2210 & ~0x1f00 |
                              h << 8 | a << 10)
                g = doc.textbox([P('b')])
                g.values['flags'] = g.values['flags'] & ~0x1f01 | h << 8 | \
                    a << 10
                inner = [P('z', t, g)]
                for k in case['p']:
                    inner = [P(container(k, inner))]
                paras += inner
        check([paras])
        return case
    if m == 'para':
        shapes = [dict(parashapeflags=1 << case['bit'], linespacing=160)]
        if case['bit'] < 5:
            shapes += [dict(parashapeflags=k, linespacing=ls)
                       for k in range(32) for ls in (100, 160)]
        for name in ('indent', 'doubled_margin_left', 'doubled_margin_top',
                     'doubled_margin_right', 'doubled_margin_bottom'):
            shapes.append({name: 1 << case['bit'] % 31})
            shapes.append({name: -(1 << case['bit'] % 31)})
        d = p20.info(parashapes=shapes, styles=[
            dict(local_name='S%d' % i, parashape_id=i)
            for i in range(len(shapes))])
        check([[doc.secpara()] + [para(['x', BRK], parashape=i)
                                  for i in range(len(shapes))]],
              docinfo_bytes=d)
        return len(shapes)
    if m == 'char':
        shapes = [p20.charshape(i) for i in range(3)]
        shapes[2]['charshapeflags'] = 1 << case['bit']
        shapes[1]['text_color'] = 1 << case['bit'] % 31
        d = p20.info(charshapes=shapes, styles=[
            dict(local_name='a', charshape_id=0),
            dict(local_name='b', charshape_id=2)])
        p = para(['ab', BRK], shapes=[(0, 2), (1, 1)])
        p.shapes = [(0, 2), (1, 1)]
        check([[doc.secpara(), p]], docinfo_bytes=d)
        return case
    if m == 'page':
        s = doc.secd()
        s.children[0].values['attr'] = 1 << case['bit']
        first = para([s, doc.cold(), 'x', BRK], split=3)
        page = check([[first, P('y')], [doc.secpara(), P('z')]])
        secs = list(page.root[1])
        for i, e in enumerate(secs):
            look = page.rules.style(('div', classes(e)))
            wide = i == 0 and case['bit'] == 0
            expect_equal(look.get('width'), '297mm' if wide else '210mm',
                         'width of the paper')
        return case
    if m == 'border':
        fills = []
        for w in range(16):
            b = dict(stroke_flags=case['v'], width_flags=w, color=w << 8)
            fills.append(dict(left=b, right=b, top=b, bottom=b))
        d = p20.borderfills(fills)
        paras = [doc.secpara()]
        for i in range(16):
            t = doc.table([[dict(paras=[P('c')], borderfill_id=i + 1)]])
            paras.append(P('x', t))
        page = check([paras], docinfo_bytes=d)
        for i in range(16):
            look = page.rules.style(('td', ['borderfill-%d' % (i + 1)]))
            expect(look['border-top'].endswith('#00%02x00' % i), 'color')
        return case
    if m == 'underline':
        shapes = [p20.charshape(k, charshapeflags=k << 2 | case['v'] << 4)
                  for k in range(4)]
        p = para(['abcd', BRK], shapes=[(k, k) for k in range(4)])
        p.shapes = [(k, k) for k in range(4)]
        check([[doc.secpara(), p]], docinfo_bytes=p20.info(
            charshapes=shapes))
        return case
    if m in ('fill', 'image', 'gradation'):
        if m == 'fill':
            f = dict(fillflags=1, fill_colorpattern=dict(
                background_color=case['v'] << 4, pattern_color=0,
                pattern_type_flags=case['v'] if case['v'] < 6 else 255))
        elif m == 'image':
            f = dict(fillflags=2, fill_image=dict(flags=case['v'],
                                                  bindata_id=1))
        else:
            f = dict(fillflags=4, fill_gradation=dict(
                type=max(1, case['v']), shear=(0, 45, 90, 180, 359)[
                    case['v']], colors=[0x112233 * (i + 1) & 0xffffff
                                        for i in range(2 + case['v'])]))
        d = p20.borderfills([f, {}])
        t = doc.table([[[P('c')], dict(paras=[P('c')], borderfill_id=2)]])
        page = check([[doc.secpara(), P('x', t)]], docinfo_bytes=d)
        look = page.rules.style(('td', ['borderfill-1']))
        if m == 'image' and case['v'] == 5:
            expect_equal(look.get('background-image'),
                         'url(bindata/BIN0001.png)', 'background')
        return case
    if m in ('face', 'panose'):
        k = case['v']
        nodes = hwp.docinfo_nodes(fonts=2, charshapes=[
            p20.charshape(i, font_face=dict((x, i % 2) for x in LANGS))
            for i in range(3)], bindata=[dict(
                flags=1, bindata={'storage_id': 1, 'ext': 'png'})])
        names = []
        for f in nodes[1].children:
            if f.model == 'FaceName':
                f.values.update(flags=0)
                if m == 'face':
                    f.values['name'] = k + str(len(names)) \
                        if len(names) % 2 else k
                else:
                    f.values.update(flags=0x40, panose1=dict(
                        family_type=k % 6, serif_style=k,
                        proportion=9 if len(names) % 2 else 0))
                names.append(f.values['name'])
        p = para(['ab', BRK], shapes=[(0, 2), (1, 1)])
        p.shapes = [(0, 2), (1, 1)]
        page = check([[doc.secpara(), p]],
                     docinfo_bytes=doc.stream(nodes, p20.V))
        for sh in (0, 1, 2):
            for n, lang in enumerate(LANGS):
                look = page.rules.style(('p', []), ('span', [
                    'charshape-%d' % sh, 'lang-' + lang]))
                expect_equal(unquote(look.get('font-family')),
                             names[2 * n + sh % 2], 'font')
        embedded(p20.tree([[doc.secpara(), p]], docinfo_bytes=doc.stream(
            nodes, p20.V)))
        return case
    if m == 'bullet':
        nodes = hwp.docinfo_nodes(charshapes=[p20.charshape(0)], parashapes=[
            {}, dict(parashapeflags=3 << 23, numbering_bullet_id=1),
            dict(parashapeflags=3 << 23, numbering_bullet_id=2),
            dict(parashapeflags=3 << 23, numbering_bullet_id=0),
            dict(parashapeflags=2 << 23, numbering_bullet_id=1)],
            styles=[dict(local_name='a'), dict(local_name='b',
                                               parashape_id=2)],
            idmappings=dict(bullets=2))
        at = [n.model for n in nodes[1].children].index('ParaShape')
        nodes[1].children[at:at] = [
            N('Bullet', char=case['v'], flags=1, width=0, space=50),
            N('Bullet', char=0x2460, flags=2, width=700, space=50)]
        paras = [doc.secpara()]
        for s in (0, 1):
            for ps in range(5):
                paras.append(para(['a', BRK], style=s, parashape=ps))
        page = check([paras], docinfo_bytes=doc.stream(nodes, p20.V),
                     styles={0: (0, 0), 1: (2, 0)}, bindata={})
        rules = dict((tuple(sorted(r[0][0][1])), r[2])
                     for r in page.rules.rules if len(r[0]) == 1 and
                     '::before' in r[0][0][2])
        got = unquote(rules['Bullet-1',]['content'])
        # characters of symbol fonts are replaced
        if not p19.ILLEGAL.match(chr(case['v'])) and \
                not 0xe000 <= case['v'] < 0xf900:
            expect_equal(got, chr(case['v']), 'bullet')
        for e, p in zip(list(page.root.iter(XH + 'p'))[1:], paras[1:]):
            have = [c for c in classes(e) if c.startswith('Bullet-')]
            n = {1: 1, 2: 2}.get(p.values['parashape_id'])
            expect_equal(have, ['Bullet-%d' % n] if n else [], 'bullets')
        return case
    raise KeyError(m)


def embedded(t):
    """the page with the style sheet in it"""
    return conv.xhtml(conv.hwp5file(t))


def unquote(s):
    m = re.match(STRING, s)
    expect(m, 'font %r' % s)
    return re.sub(r'\\([0-9a-fA-F]{1,6} ?|.)', lambda m: chr(int(
        m.group(1), 16)) if re.match('[0-9a-fA-F]', m.group(1))
        else m.group(1), m.group(0)[1:-1])


# ---- sections

def section_cases(tier):
    for n in (1, 2, 3):
        for h in itertools.product(('', 'H', 'O', 'HO', 'HHO'), repeat=n):
            for order in itertools.permutations(range(n)):
                if n == 3 and order not in ((0, 1, 2), (2, 0, 1)):
                    continue
                yield {'h': list(h), 'o': list(order)}
    for n in (11, 25):
        yield {'h': ['HO'] * n, 'o': sorted(range(n), key=str)}


def section_run(case):
    sections = []
    n = len(case['h'])
    for i, h in enumerate(case['h']):
        sections.append([
            doc.secpara(['s%d' % i]),
            P('a', *[container(k, [P('%s%d' % (k, i))]) for k in h]),
            P('b', p10.make('T'), split=i % 4),
            P('c', p10.make('G'), p10.make('F'))])
    t = p20.tree(sections)
    body = t['BodyText']
    t['BodyText'] = dict(('Section%d' % i, body['Section%d' % i])
                         for i in case['o'])
    compare(pages(t), sections)
    return n


# ---- the directory

def package_run(case):
    items = {}
    decl = []
    for k, t in enumerate(case['b']):
        ident = case['id'] + k + 1
        ext = case.get('e', 'png')
        name = 'BIN%04X' % ident + ('.' + ext if ext else '')
        items[name] = {0: PNG + bytes([k]), 1: b'',
                       2: bytes(range(256)) * 300}[t]
        decl.append(dict(flags=1, bindata={'storage_id': ident,
                                           'ext': ext}))
    if 'name' in case:
        items[case['name']] = b'other'
    paras = [doc.secpara()] + [P('x', doc.picture(i + 1))
                               for i in range(len(decl))]
    t = p20.tree([paras], case['f'], docinfo_bytes=p20.info(bindata=decl),
                 bindata=items)
    if not case['b'] and case['f'] & 1 and 'name' not in case:
        del t['BinData']
    d = fresh()
    conv.T('html').transform_hwp5_to_dir(conv.hwp5file(t), d)
    files = listing(d)
    page = Page(files.pop('index.xhtml'), files.pop('styles.css'), STYLES0)
    expect_equal(page.links, ['styles.css'], 'links')
    expect_equal(sorted(files), sorted('bindata/' + n for n in items),
                 'files')
    for n, data in items.items():
        expect(files['bindata/' + n] == data, 'content of %r' % n)
    srcs = [e.get('src') for e in page.root.iter(XH + 'img')]
    want = ['bindata/BIN%04X.%s' % (x['bindata']['storage_id'],
                                    x['bindata']['ext']) for x in decl]
    if case.get('e', 'png'):
        expect_equal(srcs, want, 'pictures')
        for h in srcs:
            expect(h in files, 'no file %r' % h)
    return sorted(files)


def picture_run(case):
    t, items, want = p20.pictures(case)
    d = fresh()
    conv.T('html').transform_hwp5_to_dir(conv.hwp5file(t), d)
    files = listing(d)
    page = Page(files.pop('index.xhtml'), files.pop('styles.css'), STYLES0)
    expect_equal(sorted(files), sorted('bindata/' + n for n in items),
                 'files')
    srcs = [e.get('src') for e in page.root.iter(XH + 'img')]
    expect_equal(len(srcs), len(want), 'pictures')
    for s, w in zip(srcs, want):
        if w:
            expect_equal(s, w, 'picture')
        else:
            expect(s not in files, 'a picture which is not embedded refers '
                   'to %r' % s)
    return want


def fresh():
    d = hwp.scratch('p21')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def listing(d):
    out = {}
    for base, dirs, names in os.walk(d):
        for n in names:
            path = os.path.join(base, n)
            with open(path, 'rb') as f:
                out[os.path.relpath(path, d)] = f.read()
    return out


# ---- the command, and sequences of conversions

def command_cases(tier):
    for flags in (0, 1, 4, 5):
        for k in 'akTGFI':
            for how in ('output', 'default', 'exists', 'css', 'html',
                        'stdout css', 'stdout html', 'slash'):
                if flags in (0, 4) and k not in 'aI':
                    continue
                yield {'f': flags, 'k': k, 'h': how}


def command_run(case):
    s = p20.some_doc(case['k'])
    d = fresh()
    path = hwp.write(os.path.join(d, 'in.put.hwp'), p20.tree(s, case['f']))
    with open(path, 'rb') as f:
        original = f.read()
    out = os.path.join(d, 'result')
    words = case['h'].split()
    args = ['--' + w for w in words if w in ('css', 'html')]
    if words[0] == 'default':
        out = os.path.join(d, 'in.put')
    elif words[0] == 'slash':
        args += ['--output', out + '/']
    elif words[0] != 'stdout':
        args += ['--output', out]
    if words[0] == 'exists':
        os.makedirs(os.path.join(out, 'bindata', 'x'))
        for n in ('index.xhtml', 'styles.css', 'bindata/BIN0001.png'):
            with open(os.path.join(out, n), 'wb') as f:
                f.write(b'old ' * 100000)
    r = cli.run('hwp5html', args + [path], cwd=d)
    expect_equal(r.code, 0, 'exit status of hwp5html %r (%r)' % (args, r))
    files = listing(d)
    expect(files.pop('in.put.hwp') == original, 'the document was changed')
    t = p20.tree(s, case['f'])
    if words[0] == 'stdout':
        expect_equal(files, {}, 'files')
        data = r.out
    else:
        expect_equal(r.out, b'', 'standard output')
        data = files.pop('result', None)
    if 'css' in words:
        expect_equal(data, conv.css(conv.hwp5file(t)), 'style sheet')
        expect_equal(files, {}, 'files')
    elif 'html' in words:
        expect_equal(files, {}, 'files')
        compare(Page(data, conv.css(conv.hwp5file(t)), STYLES0), s)
    else:
        name = os.path.basename(out)
        expect_equal(sorted(files), sorted(
            name + '/' + n for n in ('index.xhtml', 'styles.css',
                                     'bindata/BIN0001.png')), 'files')
        expect(files[name + '/bindata/BIN0001.png'] == PNG, 'picture')
        compare(Page(files[name + '/index.xhtml'],
                     files[name + '/styles.css'], STYLES0), s)
    return len(files)


def history_cases(tier):
    n = 2 if tier == 'quick' else 3
    steps = 'aTI' if tier == 'quick' else 'aTIF'
    for t in itertools.product(itertools.product(steps, 'dcx'), repeat=n):
        yield {'s': [''.join(x) for x in t]}


def history_run(case):
    """one transform, several documents in several forms"""
    from hwp5.hwp5html import HTMLTransform
    T = HTMLTransform()
    seen = {}
    for step in case['s'] + case['s'][::-1]:
        k, mode = step
        s = p20.some_doc(k)
        f = conv.hwp5file(p20.tree(s))
        if mode == 'd':
            d = fresh()
            T.transform_hwp5_to_dir(f, d)
            data = listing(d)
            compare(Page(data['index.xhtml'], data['styles.css'], STYLES0),
                    s)
            data = sorted(data.items())
        else:
            out = io.BytesIO()
            (T.transform_hwp5_to_css if mode == 'c' else
             T.transform_hwp5_to_xhtml)(f, out)
            data = out.getvalue()
            if mode == 'c':
                conv.Css(data)
            else:
                compare(Page(data, conv.css(f), STYLES0), s)
        expect_equal(seen.setdefault(step, data), data,
                     'the second conversion of %s' % step)
    return len(seen)


def program_cases(tier):
    for n in (0, 1, 2):
        for s in p19.seqs('x TGFfe', n):
            yield {'s': s}


def program_run(case):
    """the same with the other implementation of transforms"""
    from hwp5.hwp5html import HTMLTransform
    from hwp5.plat import xsltproc
    paras = [doc.secpara(['s'])]
    for a, b, seg in p19.splits(case['s'], p19.ncuts(case['s']) < 3):
        paras.append(p19.mk(case['s'], a, b, seg)[0])
    float_some(paras, 0)
    T = HTMLTransform(xslt_compile=xsltproc.xslt_compile)
    d = fresh()
    T.transform_hwp5_to_dir(conv.hwp5file(p20.tree([paras])), d)
    data = listing(d)
    compare(Page(data['index.xhtml'], data['styles.css'], STYLES0), [paras])
    return case['s']


FAMILIES = [
    Family('texts', text_cases, text_run),
    Family('characters', p20.char_cases, char_run),
    Family('nesting', nest_cases, nest_run),
    Family('many', p20.many_cases, many_run, limit=120),
    Family('tilings', p20.tiling_cases, tiling_run),
    Family('styles', style_cases, style_run),
    Family('looks', look_cases, look_run),
    Family('values', value_cases, value_run),
    Family('sections', section_cases, section_run),
    Family('pictures', p20.picture_cases, picture_run),
    Family('package', p20.package_cases, package_run),
    Family('command', command_cases, command_run),
    Family('histories', history_cases, history_run),
    Family('programs', program_cases, program_run),
]
