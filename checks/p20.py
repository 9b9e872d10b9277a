# -*- coding: utf-8 -*-
"""P20 ODT packages: complete, valid, with all text, resolved references."""
import io
import itertools
import os
import xml.etree.ElementTree as ET
import zipfile

from mc import cli
from mc import conv
from mc import doc
from mc import hwp
from mc import odf
from mc import rec
from mc.core import Family, Violation, expect, expect_equal
from mc.doc import N, para
from checks import p10
from checks import p19

PROPERTY = 'P20'
LEVEL = 'exploration'
RULE = ('a case is one document: a block of paragraphs over token sequences, '
        'character shape and line splits; containers nested in each other; '
        'tables of a tiling; style names; values of shape, page, border and '
        'paragraph members; binary items; or a command line or a sequence '
        'of conversions. The package is read back by an independent reader')
ASSUMPTIONS = ['references into the document tables are in range',
               'tables have at least one row and column, measures are not '
               'negative',
               'characters which XML cannot represent are not kept']

V = (5, 0, 3, 4)
LANGS = ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')
PNG = b'\x89PNG\r\n\x1a\n' + bytes(range(256)) * 3
FULL = dict((x, 100) for x in LANGS)
BRK = 13
P = p10.P
CAPTION = {'K': 'captions of tables', 'L': 'captions of shapes',
           'H': 'headers', 'O': 'footers'}


def charshape(i, **kw):
    return dict(dict(basesize=1000 + 100 * i, relative_size=FULL), **kw)


def size_of(i):
    return '%dpt' % (10 + i)


def info(n=3, **kw):
    kw.setdefault('bindata', [dict(flags=1, bindata={'storage_id': 1,
                                                     'ext': 'png'})])
    kw.setdefault('charshapes', [charshape(i) for i in range(n)])
    kw.setdefault('styles', [dict(local_name='L0', name='Normal')])
    return hwp.docinfo(V, **kw)


def tree(sections, flags=0, docinfo_bytes=None, bindata=None, **kw):
    data = []
    for s in sections:
        d = doc.stream(s, V)
        if flags & 4 and not flags & 1:
            d += rec.encode([(1000, 0, b'\0' * (-(len(d) + 4) % 16))])
        data.append(d)
    if docinfo_bytes is None:
        docinfo_bytes = info(sections=len(data))
    return hwp.tree(V, flags, docinfo_bytes=docinfo_bytes, sections=data,
                    viewtext=data if flags & 4 else None,
                    bindata={'BIN0001.png': PNG} if bindata is None
                    else bindata, summary=hwp.summaryinfo(), **kw)


def package(t, bindata=None):
    """-> (parts, Odt)"""
    return read(conv.odt(conv.hwp5file(t)), bindata)


def read(data, bindata=None):
    parts = odf.package(data, {'BIN0001.png': PNG} if bindata is None
                        else bindata)
    return parts, odf.Odt(odf.validate(parts['content.xml'], 'content.xml'),
                          odf.validate(parts['styles.xml'], 'styles.xml'))


# ---- what the records denote

def want_blocks(paras):
    out = []
    for p in paras:
        items = []
        tables = []
        pos = 0
        shapes = [list(x) for x in p.shapes] if getattr(p, 'shapes', None) \
            else [[0, 0]]
        for t in p.tokens:
            sh = [s for at, s in shapes if at <= pos][-1]
            if isinstance(t, str):
                at = pos
                for ch in t:
                    sh = [s for a, s in shapes if a <= at][-1]
                    at += 2 if ord(ch) > 0xffff else 1
                    if not p19.ILLEGAL.match(ch) and \
                            not 0xd800 <= ord(ch) < 0xe000:
                        items.append([ch, size_of(sh)])
            elif isinstance(t, int):
                for ch in p19.ONE.get(t, ''):
                    items.append([ch, None])
            elif isinstance(t, N):
                want_control(t, items, tables)
            elif t[0] == 'w':
                for ch in p19.ONE.get(t[1], ''):
                    items.append([ch, None])
            pos += doc.token_units(t)
        out.append(['p', items])
        out += tables
    return out


def paras_after(node, k):
    """paragraphs which follow the k-th child of the node"""
    out = []
    for c in node.children[k + 1:]:
        if c.model != 'Paragraph':
            break
        out.append(c)
    return out


def want_control(t, items, tables):
    if t.model in ('FootNote', 'EndNote'):
        items.append(['note', t.model.lower(),
                      str(t.values.get('number', 0)),
                      want_blocks(paras_after(t, 0))])
    elif t.model == 'TableControl':
        body = [c for c in t.children if c.model == 'TableBody'][0]
        cells = []
        for k, c in enumerate(t.children):
            if c.model == 'TableCell':
                cells.append([c.values['colspan'], c.values['rowspan'],
                              want_blocks(paras_after(t, k))])
        rows = []
        for n in body.values['rowcols']:
            rows.append(cells[:n])
            cells = cells[n:]
        tables.append(['table', body.values['cols'], rows])
    elif t.model == 'GShapeObjectControl':
        for c in t.children:
            if c.model == 'ShapeComponent':
                items.append(want_shape(c))


OBJ = {'$rec': 'rect', '$lin': 'line', '$pic': 'frame', '$ell': None,
       '$arc': None, '$pol': None, '$cur': None, '$ole': None}


def want_shape(c):
    chid = c.values['chid']
    for k, x in enumerate(c.children):
        if x.model == 'TextboxParagraphList':
            return ['box', want_blocks(paras_after(c, k))]
    if chid == '$con':
        return ['grp', [want_shape(x) for x in c.children
                      if x.model == 'ShapeComponent']]
    if chid == '$pic':
        pic = [x for x in c.children if x.model == 'ShapePicture'][0]
        n = pic.values['picture']['bindata_id']
        if n == 1:
            return ['pic', 'bindata/BIN0001.png']
        return ['obj', 'frame']
    return ['obj', OBJ[chid]]


def visible(blocks):
    """without the objects which have nothing to show"""
    out = []
    for b in blocks:
        if b[0] == 'p':
            out.append(['p', [visible_item(i) for i in b[1]
                              if i != ['obj', None]]])
        else:
            out.append(['table', b[1], [[[c[0], c[1], visible(c[2])]
                                         for c in r] for r in b[2]]])
    return out


def visible_item(i):
    if i[0] == 'note':
        return i[:3] + [visible(i[3])]
    if i[0] == 'box':
        return ['box', visible(i[1])]
    if i[0] == 'grp':
        return ['grp', [visible_item(x) for x in i[1] if x != ['obj', None]]]
    return i


def diff(got, want, path='body'):
    """-> description of the first difference or None"""
    if isinstance(want, list) and isinstance(got, list):
        if len(want) == 2 and len(got) == 2 and want[1] is None and \
                isinstance(want[0], str) and len(want[0]) == 1 and \
                got[0] == want[0]:
            return None
        for i, (g, w) in enumerate(zip(got, want)):
            d = diff(g, w, '%s/%d' % (path, i))
            if d:
                return d
        if len(got) != len(want):
            n = min(len(got), len(want))
            return '%s: %d, not %d; %s' % (
                path, len(got), len(want), 'more: %.300r' % got[n:]
                if len(got) > n else 'missing: %.300r' % want[n:])
        return None
    if got != want:
        return '%s: %.300r, not %.300r' % (path, got, want)


def compare(got, want, what='text'):
    d = diff(got, visible(want))
    if d is None:
        return
    # where: the paragraph itself
    n = int((d.split('/') + ['-1'])[1].split(':')[0])
    raise Violation('%s: %s\n in: %.600r\nnot: %.600r' % (
        what, d, got[n] if 0 <= n < len(got) else None,
        want[n] if 0 <= n < len(want) else None))


def check(sections, what='text', **kw):
    parts, o = package(tree(sections, **kw))
    want = [b for s in sections for b in want_blocks(s)]
    compare(o.blocks(), want, what)
    return o


# ---- texts of paragraphs

def plan(tier):
    q = tier == 'quick'
    A = p19.ALPHA
    out = [(A, 0, True), (A, 1, True)]
    if q:
        out += [(A, 2, False), ('xk U<TFGfe-t', 2, True), (A, 3, False),
                (' xTCfe', 4, False)]
    else:
        out += [(A, 2, True), (A, 3, False), (p19.FEW, 3, True),
                ('xTFfe', 4, True), (p19.FEW, 4, False),
                (' xTCfe', 5, False), ('xknTFfe', 5, False)]
    return out


BLOCK = 130


def text_cases(tier):
    for alpha, n, every in plan(tier):
        block, size = [], 0
        for s in p19.seqs(alpha, n):
            if every and p19.ncuts(s) > 5:
                continue
            block.append(s)
            size += (1 << 2 * p19.ncuts(s)) if every else 8
            if size >= BLOCK:
                yield {'s': block, 'e': every}
                block, size = [], 0
        if block:
            yield {'s': block, 'e': every}


def text_run(case):
    paras = [doc.secpara(['s'])]
    for s in case['s']:
        for a, b, seg in p19.splits(s, case['e']):
            paras.append(p19.mk(s, a, b, seg)[0])
            if len(paras) > 2 * BLOCK:
                check([paras])
                paras = paras[:1]
    check([paras])
    return case['s']


# ---- spaces

def space_cases(tier):
    n = 6 if tier == 'quick' else 7
    for k in range(1, n + 1):
        yield {'n': k}


def space_run(case):
    """every placing of spaces, split into shapes in every way"""
    paras = [doc.secpara(['s'])]
    n = case['n']
    for t in itertools.product('a ', repeat=n):
        s = ''.join(t)
        for cut in range(1 << (n - 1)):
            if n > 4 and bin(cut).count('1') > 1:
                continue
            sh = [(0, 0)] + [(i + 1, 1 + i % 2) for i in range(n - 1)
                             if cut >> i & 1]
            p = para([s, BRK], shapes=sh)
            p.shapes = sh
            paras.append(p)
    # the last space of a paragraph need not be kept
    for at in range(1, len(paras), 250):
        chunk = paras[:1] + paras[at:at + 250]
        o = package(tree([chunk]))[1]
        got, want = o.blocks(), want_blocks(chunk)
        for g, w, p in zip(got, want, chunk):
            gs, ws = ([x[0] for x in b[1]] for b in (g, w))
            if gs[-1:] == [' '] and len(gs) > 1 and gs[-2] != ' ':
                gs.pop()
            if ws[-1:] == [' '] and len(ws) > 1 and ws[-2] != ' ':
                ws.pop()
            expect_equal(''.join(gs), ''.join(ws), 'text of %r' % p.tokens)
    return n


# ---- characters

def char_cases(tier):
    for b in range(0, 0x110000, 256):
        if 0xd800 <= b < 0xe000:
            continue
        if b > 0xffff and tier == 'quick' and b >> 8 & 0xff not in (
                0, 1, 0x7f, 0x80, 0xff):
            continue
        if b > 0x2ffff and b >> 8 & 0xff not in (0, 0xff):
            continue
        yield {'b': b}


def char_run(case):
    cs = [chr(c) for c in range(max(32, case['b']), case['b'] + 256)]
    paras = [doc.secpara(['s']), P(''.join(cs) + '.')]
    for i in range(0, len(cs), 8):
        paras.append(P('.' + '.'.join(cs[i:i + 8]) + '.'))
    check([paras])
    return case['b']


# ---- containers in each other

LOST = set(CAPTION)


def nest_cases(tier):
    q = tier == 'quick'
    cont = 'TGFVE'
    depth = 3 if q else 4
    for n in range(1, depth + 1):
        for path in itertools.product(cont + 'HCKL', repeat=n):
            if n == depth and any(c in 'EHCKL' for c in path):
                continue
            for at in ('only', 'first', 'last', 'two'):
                if n >= 3 and at in ('only', 'last') and \
                        (q or n == 4):
                    continue
                yield {'p': ''.join(path), 'at': at}
    for n in (8, 14) if q else (8, 14, 20):
        for k in 'TGFV':
            for at in ('only', 'first', 'last'):
                yield {'p': k * n, 'at': at}


def container(k, paras):
    if k == 'E':
        return doc.note('EndNote', paras)
    return p10.container(k, paras)


def nested(case):
    paras = [P('deep')]
    for k in reversed(case['p']):
        c = container(k, paras)
        if case['at'] == 'only':
            paras = [para([c])]
        elif case['at'] == 'first':
            paras = [P(c, 'x'), P('y')]
        elif case['at'] == 'last':
            paras = [P('y'), P('x', c)]
        else:
            paras = [P('x', c, container(k, [P('v')]), 'y'),
                     P(container(k, [P('w')]))]
    return paras


def nest_run(case):
    check([[doc.secpara(), P('0')] + nested(case)])
    return case


# ---- many of a kind

MANY = (4, 5, 9, 10, 11, 12, 26, 27, 33, 100)


def many_cases(tier):
    for n in MANY if tier == 'quick' else MANY + (16, 17, 64, 65, 128):
        for how in ('in', 'paras'):
            for k in 'TGFEn':
                yield {'n': n, 'how': how, 'k': k}
            yield {'n': n, 'how': how, 'k': 'TFaGEn'}
        for how in ('rows', 'cols', 'cellparas', 'sections', 'shapes',
                    'notes', 'texts'):
            yield {'n': n, 'how': how}


def some(k, i):
    if k == 'n':
        return 10
    if k == 'a':
        return 'a%d' % i
    return container(k, [P('%s%d' % (k, i))])


def many_sections(case):
    n, how = case['n'], case['how']
    if how in ('in', 'paras'):
        ks = [case['k'][i % len(case['k'])] for i in range(n)]
        if how == 'in':
            return [[doc.secpara(['s']),
                     P('x', *[some(k, i) for i, k in enumerate(ks)]),
                     P('z')]]
        return [[doc.secpara(['s'])] + [P('p%d' % i, some(k, i), 'q')
                                        for i, k in enumerate(ks)]]
    if how == 'rows':
        t = doc.table([[[P('r%d' % i)]] for i in range(n)])
    elif how == 'cols':
        t = doc.table([[[P('c%d' % i)] for i in range(n)], [[P('e')]] * n])
    elif how == 'cellparas':
        t = doc.table([[[P('p%d' % i) for i in range(n)], [P('q')]]])
    elif how == 'sections':
        return [[doc.secpara(['s%d' % i]), P('t%d' % i)] for i in range(n)]
    elif how == 'shapes':
        sh = [(0, 0)] + [(3 * i + 1, 1 + i % 2) for i in range(1, n)]
        p = para(['w%d ' % i for i in range(n)] + [BRK], shapes=sh)
        p.shapes = sh
        return [[doc.secpara(['s']), p]]
    elif how == 'notes':
        return [[doc.secpara(['s'])] + [
            P('a', container('F', [P('f%d' % i), P('g')]),
              container('E', [P('e%d' % i), P('h')])) for i in range(n)]]
    else:
        return [[doc.secpara(['s'])] +
                [P('long %d ' % i * n, '  ' * n) for i in range(n)]]
    return [[doc.secpara(['s']), P('a', t, 'b'), P('z')]]


def many_run(case):
    check(many_sections(case))
    return case


# ---- what is not converted (listed as findings)

def lost_cases(tier):
    for k in 'KLHO':
        for n in (1, 2):
            yield {'k': k, 'n': n}


def lost_run(case):
    paras = [P('lost%d' % i) for i in range(case['n'])]
    c = doc.header('Footer', paras) if case['k'] == 'O' else \
        container(case['k'], paras)
    parts, o = package(tree([[doc.secpara(), P('a', c, 'b')]]))
    text = (parts['content.xml'] + parts['styles.xml']).decode('utf-8')
    for i in range(case['n']):
        if 'lost%d' % i not in text:
            raise Violation('the text of %s is not in the package'
                            % CAPTION[case['k']],
                            signature='lost:' + case['k'])
    return case


# ---- tables of every tiling

def tilings(r, c):
    """every division of r x c into cells: [(row, col, rowspan, colspan)]"""
    def go(grid, out):
        for i in range(r):
            for j in range(c):
                if not grid[i][j]:
                    for h in range(1, r - i + 1):
                        for w in range(1, c - j + 1):
                            area = [(a, b) for a in range(i, i + h)
                                    for b in range(j, j + w)]
                            if any(grid[a][b] for a, b in area):
                                continue
                            for a, b in area:
                                grid[a][b] = 1
                            for x in go(grid, out + [(i, j, h, w)]):
                                yield x
                            for a, b in area:
                                grid[a][b] = 0
                    return
        yield out
    return go([[0] * c for i in range(r)], [])


def tiling_cases(tier):
    top = 3 if tier == 'quick' else 4
    for r in range(1, top + 1):
        for c in range(1, top + 1):
            if r * c > (9 if tier == 'quick' else 12):
                continue
            every = list(tilings(r, c))
            for i in range(0, len(every), 40):
                yield {'r': r, 'c': c, 't': every[i:i + 40]}


def tiling_run(case):
    paras = [doc.secpara()]
    for n, t in enumerate(case['t']):
        rows = [[] for i in range(case['r'])]
        kids = []
        for i, j, h, w in t:
            rows[i].append(1)
            kids += doc.cell([P('%d.%d' % (i, j))], j, i, w, h)
        table = N('TableControl', children=[
            N('TableBody', rows=case['r'], cols=case['c'],
              rowcols=[len(x) for x in rows], borderfill_id=1,
              validZones=[])] + kids, width=42000, height=2000,
            flags=0x082a2211 | n & 1)
        paras.append(P('t%d' % n, table))
    o = check([paras])
    # where the cells are
    for (_, ncols, rows), t in zip([b for b in o.blocks()
                                    if b[0] == 'table'], case['t']):
        used = set()
        got = []
        for i, row in enumerate(rows):
            for w, h, blocks in row:
                j = 0
                while (i, j) in used:
                    j += 1
                used |= set((a, b) for a in range(i, i + h)
                            for b in range(j, j + w))
                got.append((i, j, h, w))
        expect_equal(got, sorted(map(tuple, t)), 'cells')
    return len(case['t'])


# ---- styles

NAMES = ['L0', 'L 0', 'L_0', '1st', '', '-x', '.x', 'a.b', 'a(b)', 'a:b',
         'Standard', 'Heading', 'List', 'Style-1', 'Style-2', 'Paragraph-1',
         '\ubc14\ud0d5\uae00', '\ubcf8\ubb38', '\uac1c\uc694 1', '\u3000',
         '\u6f22', '\xb7', '\u2713', "a'b", '<&>', '"', 'p1-1-1', 'Table-1',
         'Shape-1', '\xe9', '\u0301', 'Graphics', 'Default', '\U00020000',
         'x' * 200]


def style_cases(tier):
    for a in NAMES:
        for b in NAMES:
            yield {'n': [a, b]}
    few = ['L0', '1', 'Style-1', 'Style-2', 'Style-3', '\u6f22']
    for t in itertools.product(few, repeat=3):
        yield {'n': list(t)}
    if tier != 'quick':
        for t in itertools.product(few, repeat=4):
            yield {'n': list(t)}
    for n in (30, 100):
        yield {'n': ['same'] * n}
        yield {'n': ['Style-%d' % (n - i) for i in range(n)]}


def style_run(case):
    n = len(case['n'])
    styles = [dict(local_name=x, name='e%d' % i, charshape_id=i,
                   parashape_id=i, next_style_id=(i + 1) % n)
              for i, x in enumerate(case['n'])]
    d = info(n, styles=styles, parashapes=[
        dict(doubled_margin_left=200 * (i + 1), linespacing=160)
        for i in range(n)])
    paras = [doc.secpara()]
    for i in range(n):
        for ps in (i, (i + 1) % n):
            p = para(['x%d' % i, 'y', BRK], shapes=[
                (0, i), (2, (i + 1) % n)], style=i, parashape=ps)
            p.shapes = [(0, i), (2, (i + 1) % n)]
            paras.append(p)
    parts, o = package(tree([paras], docinfo_bytes=d))
    # sizes of what has no span are those of the style
    want = want_blocks(paras)
    compare(o.blocks(), want)
    # each style of the document is told from the others
    ps = o.content.find(odf.q('office:body'))[0].findall(odf.q('text:p'))
    used = {}
    for i in range(n):
        for k, name in ((0, i), (1, i)):
            e = ps[1 + 2 * i + k]
            st = e.get(odf.q('text:style-name'))
            parent = o.table['paragraph', st].get(
                odf.q('style:parent-style-name')) or st
            used.setdefault(i, set()).add(parent)
            want_ps = (i, (i + 1) % n)[k]
            expect_equal(o.prop('paragraph', st, 'paragraph',
                                'fo:margin-left'),
                         margin(want_ps), 'margin of paragraph %d' % i)
        nxt = o.table['paragraph', list(used[i])[0]].get(
            odf.q('style:next-style-name'))
        used[i] = used[i] | set([('next', nxt)])
    names = []
    for i in range(n):
        own = [x for x in used[i] if not isinstance(x, tuple)]
        expect_equal(len(own), 1, 'names of the style %d' % i)
        names += own
    expect_equal(len(set(names)), n, 'styles %r of %r' % (
        names, case['n']))
    for i in range(n):
        nxt = [x[1] for x in used[i] if isinstance(x, tuple)][0]
        expect_equal(nxt, names[(i + 1) % n], 'next style of %d' % i)
        e = o.table['paragraph', names[i]]
        shown = e.get(odf.q('style:display-name'))
        if shown is not None:
            expect_equal(shown, case['n'][i], 'display name')
    return names


def margin(i):
    return '%dpt' % (i + 1)



# ---- values of members, and validity of what comes of them

def value_cases(tier):
    for b in range(0, 32):
        yield {'m': 'gso', 'bit': b}
        yield {'m': 'table', 'bit': b}
        yield {'m': 'para', 'bit': b}
        yield {'m': 'char', 'bit': b}
        yield {'m': 'page', 'bit': b}
    q = tier == 'quick'
    for m, bits in (('gso', GSO), ('table', GSO)):
        for pair in itertools.combinations(sorted(bits), 2):
            yield {'m': m, 'f': list(pair)}
    for n in range(0, 18):
        yield {'m': 'border', 'v': n}
    for n in range(0, 16):
        yield {'m': 'line', 'v': n}
    for n in range(0, 8):
        yield {'m': 'face', 'v': n}
    for n in range(0, 12):
        yield {'m': 'fill', 'v': n}
    if not q:
        for t in itertools.combinations(sorted(GSO), 3):
            yield {'m': 'gso', 'f': list(t)}


# fields of the flags of drawing objects: first bit, values
GSO = {'inline': (0, (0, 1)), 'vrelto': (3, (0, 1, 2)),
       'valign': (5, range(5)), 'hrelto': (8, range(4)),
       'halign': (10, range(5)), 'wrelto': (15, range(5)),
       'hhrelto': (18, range(3)), 'flow': (21, range(4)),
       'textside': (24, range(4)), 'numbering': (26, range(4))}


def value_run(case):
    m = case['m']
    n = 0
    if m in ('gso', 'table'):
        base = 0x046a4000
        paras = [doc.secpara()]
        if 'bit' in case:
            lo = 1 << case['bit']
            values = [base | lo, base & ~lo, lo, 0xffffffff & ~lo]
            values = [v for v in values if legal(v)]
        else:
            values = []
            fs = [GSO[f] for f in case['f']]
            for t in itertools.product(*[f[1] for f in fs]):
                v = base
                for (at, vals), x in zip(fs, t):
                    v &= ~(max(vals).bit_length() and
                           ((1 << max(vals).bit_length()) - 1) << at)
                    v |= x << at
                if legal(v):
                    values.append(v)
        for v in values:
            if m == 'table':
                t = doc.table([[[P('1')], [P('2')]]], flags=v)
                paras.append(P('x', t))
                continue
            for xy in ((0, 0), (700, 300)):
                for make in (lambda: doc.textbox([P('b')]),
                             lambda: doc.textbox(None),
                             lambda: doc.picture(1),
                             lambda: doc.textbox(None, '$lin', 'ShapeLine'),
                             lambda: doc.textbox([P('b')], '$ell',
                                                 'ShapeEllipse'),
                             lambda: p10.container('V', [P('b')])):
                    g = make()
                    g.values.update(flags=v, x=xy[0], y=xy[1])
                    paras.append(P('x', g, 'y'))
        check([paras], 'flags %s' % ' '.join('%#x' % v for v in values[:4]))
        return values
    if m == 'para':
        shapes = [dict(parashapeflags=1 << case['bit'], linespacing=160)]
        if case['bit'] < 5:
            shapes += [dict(parashapeflags=k, linespacing=ls)
                       for k in range(32) if k & 3 != 3 or True
                       for ls in (100, 160)
                       if legal_para(k)]
        d = info(parashapes=shapes, styles=[
            dict(local_name='S%d' % i, parashape_id=i)
            for i in range(len(shapes))])
        check([[doc.secpara()] + [para(['x', BRK], parashape=i)
                                  for i in range(len(shapes))]],
              docinfo_bytes=d)
        return len(shapes)
    if m == 'char':
        shapes = [charshape(i) for i in range(3)]
        shapes[2]['charshapeflags'] = 1 << case['bit']
        d = info(charshapes=shapes, styles=[
            dict(local_name='a', charshape_id=0),
            dict(local_name='b', charshape_id=2)])
        p = para(['ab', BRK], shapes=[(0, 2), (1, 1)])
        p.shapes = [(0, 2), (1, 1)]
        check([[doc.secpara(), p]], docinfo_bytes=d)
        return case
    if m == 'page':
        s = doc.secd()
        s.children[0].values['attr'] = 1 << case['bit']
        first = para([s, doc.cold(), 'x', BRK], split=3)
        check([[first, P('y')], [doc.secpara(), P('z')]])
        return case
    if m == 'border':
        fills = []
        for w in range(16):
            b = dict(stroke_flags=case['v'], width_flags=w, color=w << 8)
            fills.append(dict(left=b, right=b, top=b, bottom=b))
        d = borderfills(fills)
        paras = [doc.secpara()]
        for i in range(16):
            t = doc.table([[dict(paras=[P('c')], borderfill_id=i + 1)]])
            paras.append(P('x', t))
        check([paras], docinfo_bytes=d)
        return case
    if m == 'line':
        paras = [doc.secpara()]
        for w in (0, 1, 100, 5000):
            g = doc.textbox([P('b')])
            g.children[0].values['border'] = dict(
                color=0x123456, width=w, flags=case['v'])
            paras.append(P('x', g))
        check([paras])
        return case
    if m == 'face':
        k = case['v']
        nodes = hwp.docinfo_nodes(fonts=2, charshapes=[
            charshape(i, font_face=dict((x, i % 2) for x in LANGS))
            for i in range(3)], bindata=[dict(
                flags=1, bindata={'storage_id': 1, 'ext': 'png'})])
        for f in nodes[1].children:
            if f.model == 'FaceName':
                f.values.update(flags=0)
                if k & 4:
                    f.values['name'] += " '&<" + str(k)
        p = para(['ab', BRK], shapes=[(0, 2), (1, 1)])
        p.shapes = [(0, 2), (1, 1)]
        check([[doc.secpara(), p]], docinfo_bytes=doc.stream(nodes, V))
        return case
    if m == 'fill':
        fills = [dict(fillflags=1, fill_colorpattern=dict(
            background_color=case['v'] << 4, pattern_color=0,
            pattern_type_flags=case['v'] if case['v'] < 6 else 0xffffffff))]
        d = borderfills(fills + [{}])
        t = doc.table([[[P('c')], dict(paras=[P('c')], borderfill_id=2)]])
        check([[doc.secpara(), P('x', t)]], docinfo_bytes=d)
        return case
    return n


def borderfills(fills):
    nodes = hwp.docinfo_nodes(charshapes=[charshape(i) for i in range(3)],
                              borderfills=len(fills), bindata=[dict(
                                  flags=1, bindata={'storage_id': 1,
                                                    'ext': 'png'})])
    bf = [n for n in nodes[1].children if n.model == 'BorderFill']
    for n, v in zip(bf, fills):
        n.values.update(v)
    return doc.stream(nodes, V)


def legal(v):
    for at, vals in GSO.values():
        width = max(vals).bit_length()
        if v >> at & ((1 << width) - 1) > max(vals):
            return False
    return True


def legal_para(k):
    return True


# ---- the package

SIZES = (0, 1, 255, 70000)


def package_cases(tier):
    exts = ['png', 'jpg', 'bmp', 'OLE', '']
    for flags in (0, 1, 4, 5):
        for n in (0, 1, 2, 3):
            for t in itertools.product((0, 1, 2), repeat=n):
                yield {'f': flags, 'b': list(t), 'id': 0}
    for ident in (0, 8, 9, 14, 15, 98, 254, 255, 4094):
        for e in range(len(exts)):
            yield {'f': 1, 'b': [0, 1], 'id': ident, 'e': exts[e]}
    for name in ('a b.png', '\uac00.png', "a'b<&>.png", 'x' * 31):
        yield {'f': 0, 'b': [0], 'id': 0, 'name': name}


def package_run(case):
    items = {}
    decl = []
    for k, t in enumerate(case['b']):
        ident = case['id'] + k + 1
        ext = case.get('e', 'png')
        name = 'BIN%04X' % ident + ('.' + ext if ext else '')
        data = {0: PNG + bytes([k]), 1: b'', 2: bytes(range(256)) * 300}[t]
        items[name] = data
        decl.append(dict(flags=1, bindata={'storage_id': ident,
                                           'ext': ext}))
    if 'name' in case:
        items[case['name']] = b'other'
    paras = [doc.secpara()] + [P('x', doc.picture(i + 1))
                               for i in range(len(decl))]
    t = tree([paras], case['f'], docinfo_bytes=info(bindata=decl),
             bindata=items)
    if not case['b'] and case['f'] & 1 and 'name' not in case:
        del t['BinData']
    parts, o = package(t, items)
    hrefs = [e.get(odf.q('xlink:href')) for e in o.content.iter(
        odf.q('draw:image'))]
    want = ['bindata/BIN%04X.%s' % (d['bindata']['storage_id'],
                                    d['bindata']['ext']) for d in decl]
    if case.get('e', 'png'):
        expect_equal(hrefs, want, 'pictures')
        for h in hrefs:
            expect(h in parts, 'no part %r' % h)
    return sorted(parts)


# ---- pictures of items which are embedded or not

def picture_cases(tier):
    """every sequence of kinds of items, every order of their numbers, every
    two pictures"""
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for kinds in itertools.product('ELS', repeat=k):
            perms = list(itertools.permutations(range(k)))
            if k == 4:
                perms = [perms[0], perms[-1], perms[9]]
            for p in perms:
                yield {'k': ''.join(kinds), 'p': list(p)}
    for k in ('E', 'ELS', 'SEE'):
        for n in (5, 6, 7, 8, 9, 10, 11, 12, 17, 33, 100):
            for order in (1, -1):
                yield {'k': (k * n)[:n], 'p': list(range(n))[::order]}


def pictures(case):
    """-> storage tree, items, [name of the file or None]"""
    items = {}
    decl = []
    names = []
    for k, i in zip(case['k'], case['p']):
        ident = 9 + i * 7
        name = 'BIN%04X.%s' % (ident, 'x%d' % i if k == 'E' else 'OLE')
        if k == 'L':
            decl.append(dict(flags=0, bindata=dict(abspath='/no/%d.png' % i,
                                                   relpath='%d.png' % i)))
        elif k == 'E':
            decl.append(dict(flags=1, bindata=dict(storage_id=ident,
                                                   ext='x%d' % i)))
        else:
            decl.append(dict(flags=2, bindata=dict(storage_id=ident)))
        if k != 'L':
            items[name] = PNG + b'%d' % i
        names.append('bindata/' + name if k == 'E' else None)
    if len(decl) < 5:
        refs = [r for pair in itertools.product(range(len(decl)), repeat=2)
                for r in pair]
    else:
        refs = list(range(len(decl))) + [len(decl) - 1, 0]
    paras = [doc.secpara()] + [P('x', doc.picture(r + 1)) for r in refs]
    t = tree([paras], 1, docinfo_bytes=info(bindata=decl), bindata=items)
    return t, items, [names[r] for r in refs]


def picture_run(case):
    t, items, want = pictures(case)
    parts, o = package(t, items)
    frames = [f for f in o.content.iter(odf.q('draw:frame'))]
    expect_equal(len(frames), len(want), 'frames of pictures')
    for f, w in zip(frames, want):
        hrefs = [e.get(odf.q('xlink:href'))
                 for e in f.iter(odf.q('draw:image'))]
        if w:
            expect_equal(hrefs, [w], 'picture')
        else:
            expect(not set(hrefs) & set('bindata/' + n for n in items),
                   'a picture which is not embedded refers to %r' % hrefs)
    return want


# ---- sections

def section_cases(tier):
    for n in (1, 2, 3):
        for sp in itertools.product((0, 1, 2, 3, 4, 8), repeat=2):
            for order in itertools.permutations(range(n)):
                if n == 3 and sp[0] not in (0, 3):
                    continue
                yield {'n': n, 'sp': list(sp), 'o': list(order)}
    for n in (11, 25):
        yield {'n': n, 'sp': [3, 0], 'o': sorted(range(n), key=str)}


def section_run(case):
    sections = []
    for i in range(case['n']):
        sections.append([
            doc.secpara(['s%d' % i], parashape=i % 2),
            P('a', split=case['sp'][0], parashape=1),
            P('b', p10.make('T'), split=case['sp'][1]),
            P('c', p10.make('G'), p10.make('F'))])
    t = tree(sections, docinfo_bytes=info(sections=case['n'], parashapes=2))
    body = t['BodyText']
    t['BodyText'] = dict(('Section%d' % i, body['Section%d' % i])
                         for i in case['o'])
    parts, o = package(t)
    compare(o.blocks(), [b for s in sections for b in want_blocks(s)])
    expect_equal(sorted(o.masters), sorted(
        'MasterPage-%d' % (i + 1) for i in range(case['n'])),
        'master pages')
    return sorted(o.masters)


# ---- the command, and sequences of conversions

def some_doc(k):
    out = [[doc.secpara(['one ', p10.make(k), 'two']),
            P('\uac00 ', 10, p10.make(k))],
           [doc.secpara(), P(k, p10.make(k))]]
    return out


def command_cases(tier):
    for flags in (0, 1, 4, 5):
        for k in 'akTGFI':
            for how in ('output', 'default', 'exists', 'styles', 'content',
                        'document', 'content embed', 'document no',
                        'embed', 'no', 'stdout content', 'stdout document',
                        'stdout styles'):
                if flags in (0, 4) and k not in 'aI':
                    continue
                yield {'f': flags, 'k': k, 'h': how}


def command_run(case):
    import shutil
    s = some_doc(case['k'])
    d = hwp.scratch('p20')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    path = hwp.write(os.path.join(d, 'in.put.hwp'), tree(s, case['f']))
    out = os.path.join(d, 'result')
    how = case['h']
    want = [b for x in s for b in want_blocks(x)]
    words = how.split()
    args = []
    for w in words:
        if w in ('styles', 'content', 'document'):
            args.append('--' + w)
        elif w == 'embed':
            args.append('--embed-image')
        elif w == 'no':
            args.append('--no-embed-image')
    if words[0] == 'default':
        out = os.path.join(d, 'in.put.odt')
    elif words[0] != 'stdout':
        args += ['--output', out]
    if words[0] == 'exists':
        with open(out, 'wb') as f:
            f.write(b'old ' * 100000)
    r = cli.run('hwp5odt', args + [path], cwd=d)
    expect_equal(r.code, 0, 'exit status of hwp5odt %r (%r)' % (args, r))
    if words[0] == 'stdout':
        data = r.out
        expect_equal(sorted(os.listdir(d)), ['in.put.hwp'], 'files')
    else:
        expect_equal(r.out, b'', 'standard output')
        expect_equal(sorted(os.listdir(d)), sorted([
            'in.put.hwp', os.path.basename(out)]), 'files')
        with open(out, 'rb') as f:
            data = f.read()
    embedded = 'embed' in words or ('document' in words and
                                    'no' not in words)
    if 'styles' in words:
        odf.validate(data, 'styles')
    elif 'content' in words:
        root = odf.validate(data, 'content')
        parts, o = package(tree(s, case['f']))
        o = odf.Odt(root, o.styles)
        compare(o.blocks(), embed(want) if embedded else want)
    elif 'document' in words:
        root = odf.validate(data, 'document')
        o = odf.Odt(root, root)
        compare(o.blocks(), embed(want) if embedded else want)
    else:
        parts, o = read(data)
        compare(o.blocks(), embed(want) if embedded else want)
    return len(data)


def embed(x):
    if isinstance(x, list):
        if x == ['pic', 'bindata/BIN0001.png']:
            return ['data', PNG]
        return [embed(i) for i in x]
    return x


def history_cases(tier):
    n = 2 if tier == 'quick' else 3
    steps = 'aTI' if tier == 'quick' else 'aTIF'
    modes = 'pcsd'
    for t in itertools.product(itertools.product(steps, modes), repeat=n):
        yield {'s': [''.join(x) for x in t]}


def history_run(case):
    """one transform, several documents in several forms"""
    from hwp5.hwp5odt import ODTPackage, ODTTransform
    T = ODTTransform()
    files = []
    for step in case['s'] + case['s'][::-1]:
        k, mode = step
        s = some_doc(k)
        f = conv.hwp5file(tree(s))
        want = [b for x in s for b in want_blocks(x)]
        out = io.BytesIO()
        if mode == 'p':
            pkg = ODTPackage(zipfile.ZipFile(out, 'w'))
            T.transform_hwp5_to_package(f, pkg)
            pkg.close()
            o = read(out.getvalue())[1]
            compare(o.blocks(), want)
            parts = odf.package(out.getvalue())
            data = [parts[n] for n in sorted(parts)]
        elif mode == 'd':
            path = hwp.scratch('p20h')
            with open(path, 'wb') as f2:
                T.transform_hwp5_to_single_document(f, f2)
            with open(path, 'rb') as f2:
                data = f2.read()
            root = odf.validate(data, 'document')
            compare(odf.Odt(root, root).blocks(), want)
        else:
            path = hwp.scratch('p20h')
            with open(path, 'wb') as f2:
                (T.transform_hwp5_to_content if mode == 'c' else
                 T.transform_hwp5_to_styles)(f, f2)
            with open(path, 'rb') as f2:
                data = f2.read()
            odf.validate(data, mode)
        files.append((step, data))
    seen = {}
    for step, data in files:
        expect_equal(seen.setdefault(step, data), data,
                     'the second conversion of %s' % step)
    return len(files)


def program_cases(tier):
    for n in (0, 1, 2):
        for s in p19.seqs('x TGFfe', n):
            yield {'s': s}


def program_run(case):
    """the same with the other implementations of transforms"""
    from hwp5.hwp5odt import ODTPackage, ODTTransform
    from hwp5.plat import xsltproc
    from hwp5.plat import xmllint
    paras = [doc.secpara(['s'])]
    for a, b, seg in p19.splits(case['s'], p19.ncuts(case['s']) < 3):
        paras.append(p19.mk(case['s'], a, b, seg)[0])
    T = ODTTransform(xslt_compile=xsltproc.xslt_compile,
                     relaxng_compile=xmllint.relaxng_compile)
    out = io.BytesIO()
    pkg = ODTPackage(zipfile.ZipFile(out, 'w'))
    T.transform_hwp5_to_package(conv.hwp5file(tree([paras])), pkg)
    pkg.close()
    compare(read(out.getvalue())[1].blocks(), want_blocks(paras))
    return case['s']


FAMILIES = [
    Family('texts', text_cases, text_run),
    Family('spaces', space_cases, space_run),
    Family('characters', char_cases, char_run),
    Family('nesting', nest_cases, nest_run),
    Family('lost', lost_cases, lost_run),
    Family('many', many_cases, many_run, limit=120),
    Family('tilings', tiling_cases, tiling_run),
    Family('styles', style_cases, style_run),
    Family('values', value_cases, value_run),
    Family('pictures', picture_cases, picture_run),
    Family('package', package_cases, package_run),
    Family('sections', section_cases, section_run),
    Family('command', command_cases, command_run),
    Family('histories', history_cases, history_run),
    Family('programs', program_cases, program_run),
]
