# -*- coding: utf-8 -*-
"""P27 sizes, places, borders and looks in ODT and HTML."""
import itertools
import math
import re

from mc import conv
from mc import doc
from mc import odf
from mc.core import Family, Violation, expect, expect_equal
from mc.doc import N, para
from checks import p10
from checks import p20
from checks import p21

PROPERTY = 'P27'
LEVEL = 'exploration'
RULE = ('a case is one document: sections of page definitions and flags of '
        'paragraphs; objects of which one measure takes each of the boundary '
        'values while all others differ from each other; pairs of the ways '
        'in which an object is placed; chains of transformations; borders of '
        'one side, or of cells in all assignments; and each shape in a style '
        'of each other shape. The ODT package and the page with its style '
        'sheet are read back by an independent reader and compared with what '
        'the records say')
ASSUMPTIONS = ['references into the document tables are in range',
               'measures other than places are not negative',
               'sections have one column',
               'paragraphs which begin a section have the flag which says so']

P = p10.P
BRK = 13
XH = p21.XH
q = odf.q
MM = 25.4 / 7200
LANGS = p20.LANGS
IDENT = dict(a=1.0, b=0.0, c=0.0, d=1.0, e=0.0, f=0.0)


def odt(t):
    return p20.package(t)[1]


def number(s, unit, what):
    expect(s is not None, '%s: none' % what)
    m = re.match(r'(-?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?)(%s)$' % unit,
                 s)
    expect(m, '%s: %r' % (what, s))
    return float(m.group(1)), m.group(2)


def length(s, what):
    """-> mm"""
    v, u = number(s, 'mm|cm|pt|in|px', what)
    return v * {'mm': 1, 'cm': 10, 'pt': 25.4 / 72, 'in': 25.4,
                'px': 25.4 / 96}[u]


def near(s, units, what, tol=.00505):
    """the length s is that of the number of HWP units"""
    got = length(s, what)
    want = units * MM
    if not abs(got - want) <= tol + abs(want) * 1e-8:
        raise Violation('%s: %s, not %.4fmm' % (what, s, want))


def color(c):
    return '#%02x%02x%02x' % (c & 255, c >> 8 & 255, c >> 16 & 255)


def body(o):
    return o.content.find(q('office:body')).find(q('office:text'))


def props(o, family, name, part, attr):
    return o.prop(family, name, part, attr)


def declarations(e):
    """of a style attribute"""
    s = re.sub(r'/\*.*?\*/', '', e.get('style') or '', flags=re.S)
    out = {}
    for d in s.split(';'):
        k, c, v = d.partition(':')
        if c:
            out[k.strip()] = v.strip()
    return out


# ---- pages

PAGE = [('width', 59528), ('height', 84188), ('left_offset', 8504),
        ('right_offset', 7304), ('top_offset', 5668),
        ('bottom_offset', 4252), ('header_offset', 4111),
        ('footer_offset', 3999), ('bookbinding_offset', 0)]
BOUNDS = [0, 1, 14, 15, 100, 283, 284, 7199, 7200, 8504, 59528, 84188,
          99999, 1000000]
MORE = [2, 27, 28, 42, 43, 99, 101, 141, 142, 425, 567, 719, 720, 1417, 2835,
        5669, 32767, 32768, 65535, 65536, 9999999]


def section(page, tokens=(), split=1, **kw):
    s = doc.secd()
    s.children[0].values.update(page)
    return para([s, doc.cold()] + list(tokens) + [BRK], split=split, **kw)


def layouts(o):
    """-> {name of a master page: properties of its page layout}"""
    found = {}
    for e in o.styles.iter(q('style:page-layout')):
        n = e.get(q('style:name'))
        found[n] = e.find(q('style:page-layout-properties'))
    return dict((n, found[m.get(q('style:page-layout-name'))])
                for n, m in o.masters.items())


def page_odt(p, e, what):
    v = dict(PAGE)
    v.update(p)
    wide = v.get('attr', 0) & 1
    w, h = v['width'], v['height']
    if wide:
        w, h = h, w
    tol = .0505
    near(e.get(q('fo:page-width')), w, what + ': width', tol)
    near(e.get(q('fo:page-height')), h, what + ': height', tol)
    for k in ('top', 'left', 'right', 'bottom'):
        near(e.get(q('fo:margin-' + k)), v[k + '_offset'],
             '%s: %s margin' % (what, k), tol)
    expect_equal(e.get(q('style:print-orientation')),
                 'landscape' if wide else 'portrait', what)


def page_html(p, page, e, what):
    v = dict(PAGE)
    v.update(p)
    wide = v.get('attr', 0) & 1
    cls = p21.classes(e)
    path = ('div', cls)
    near(page.rules.style(path).get('width'), v['height' if wide else
                                               'width'],
         what + ': width of the paper')
    inner = inside(page, cls, 'HeaderPageFooter')
    for k in ('top', 'right', 'bottom', 'left'):
        near(inner.get('margin-' + k), v[k + '_offset'],
             '%s: %s margin' % (what, k))
    inner = inside(page, cls, 'Page')
    near(inner.get('padding-top'), v['header_offset'], what + ': header')
    near(inner.get('padding-bottom'), v['footer_offset'], what + ': footer')


def inside(page, cls, name):
    """declarations of what is in a section"""
    out = {}
    for parts, child, decls in page.rules.rules:
        if parts[-1][1] == frozenset([name]) and not parts[-1][0] and (
                len(parts) == 1 or parts[0][1] <= set(cls)):
            out.update(decls)
    return out


def page_cases(tier):
    bounds = BOUNDS if tier == 'quick' else sorted(set(BOUNDS + MORE))
    for name, _ in PAGE:
        for attr in (0, 1):
            for i in range(0, len(bounds), 7):
                yield {'f': name, 'attr': attr, 'v': bounds[i:i + 7]}
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        # orientations, flags and shapes of the first paragraphs
        for attrs in itertools.product((0, 1), repeat=n):
            kinds = [(1, 0), (1, 1), (3, 0), (5, 1)]
            for ks in itertools.product(range(4), repeat=n):
                if tier == 'quick' and n == 3 and (
                        len(set(ks)) > 2 or sum(attrs) % 2):
                    continue
                if n == 4 and (len(set(ks)) > 2 or len(set(attrs)) > 1):
                    continue
                yield {'a': list(attrs), 'k': [kinds[k] for k in ks]}


def page_run(case):
    if 'f' in case:
        secs = []
        defs = []
        for v in case['v']:
            p = dict(PAGE, attr=case['attr'])
            p[case['f']] = v
            defs.append(p)
            secs.append([section(p, ['s'])])
        check_pages(secs, defs)
        return case
    secs = []
    defs = []
    for i, (a, (split, ps)) in enumerate(zip(case['a'], case['k'])):
        p = dict((k, v + 1000 * i) for k, v in PAGE)
        p['attr'] = a
        defs.append(p)
        secs.append([section(p, ['s'], split, parashape=ps), P('x')])
    check_pages(secs, defs)
    return case


PSHAPES = [dict(doubled_margin_left=200 * (i + 1), linespacing=160)
           for i in range(3)]


def check_pages(secs, defs):
    t = p20.tree(secs, docinfo_bytes=p20.info(parashapes=PSHAPES,
                                              sections=len(secs)))
    o = odt(t)
    by = layouts(o)
    expect_equal(len(by), len(secs), 'master pages')
    current = None
    at = iter(x for x in body(o) if x.tag == q('text:p'))
    seen = set()
    for i, (paras, p) in enumerate(zip(secs, defs)):
        for k in range(len(paras)):
            e = next(at)
            m = master(o, e)
            if k == 0:
                expect(m, 'section %d: its first paragraph has no master '
                       'page' % i)
                expect(m not in seen, 'two sections have a master page')
                seen.add(m)
                page_odt(p, by[m], 'section %d' % i)
            else:
                expect(not m, 'section %d: paragraph %d begins a page' %
                       (i, k))
            current = m or current
    page = p21.pages(t)
    secs = list(page.root[1])
    expect_equal(len(secs), len(defs), 'sections')
    for i, (p, e) in enumerate(zip(defs, secs)):
        page_html(p, page, e, 'section %d' % i)


def master(o, e):
    """of a paragraph: style of its own or of the document"""
    name = e.get(q('text:style-name'))
    return o.table['paragraph', name].get(q('style:master-page-name'))


# ---- pages which begin

def break_cases(tier):
    n = 4 if tier == 'quick' else 6
    for flags in itertools.product((0, 1), repeat=n):
        for shapes in ((0,), (1,), (0, 1), (1, 0, 0)):
            yield {'b': list(flags), 's': list(shapes)}


def break_run(case):
    paras = [section({}, ['s'])]
    for i, b in enumerate(case['b']):
        paras.append(para(['x%d' % i, BRK], split=4 * b,
                          parashape=case['s'][i % len(case['s'])]))
    t = p20.tree([paras], docinfo_bytes=p20.info(parashapes=PSHAPES))
    o = odt(t)
    ps = list(body(o).iter(q('text:p')))
    expect_equal(len(ps), len(paras), 'paragraphs')
    for e, p, b in zip(ps[1:], paras[1:], case['b']):
        name = e.get(q('text:style-name'))
        expect_equal(o.prop('paragraph', name, 'paragraph',
                            'fo:break-before') == 'page', bool(b),
                     'page break before a paragraph')
        expect(not master(o, e), 'a paragraph in a section has a master page')
        near(o.prop('paragraph', name, 'paragraph', 'fo:margin-left'),
             100 * (p.values['parashape_id'] + 1), 'margin')
    return case


# ---- header and footer

def header_cases(tier):
    bounds = BOUNDS if tier == 'quick' else sorted(set(BOUNDS + MORE))
    for m in ('Header', 'Footer'):
        for f in ('width', 'height'):
            for v in bounds:
                yield {'m': m, 'f': f, 'v': v}


def header_run(case):
    want = {'Header': dict(width=40000, height=4000),
            'Footer': dict(width=39000, height=5000)}
    want[case['m']][case['f']] = case['v']
    hs = []
    for m in ('Header', 'Footer'):
        h = doc.header(m, [P(m)])
        h.children[0].values.update(want[m])
        hs.append(h)
    t = p20.tree([[section({}, hs), P('x')]])
    page = p21.pages(t)
    for m in want:
        look = page.rules.style(('div', [m + 'Area']))
        for k in ('width', 'height'):
            near(look.get(k), want[m][k], '%s of the %s' % (k, m))
        expect_equal((look.get('position'), look.get('left'),
                      look.get('top' if m == 'Header' else 'bottom')),
                     ('absolute', '0', '0'), 'place of the ' + m)
    return case


# ---- tables

TABLE = dict(width=42013, height=2000, x=710, y=320,
             margin=dict(left=141, right=283, top=425, bottom=567))
CELL = dict(width=5103, height=1290,
            padding=dict(left=151, right=293, top=435, bottom=577))
TABLE_FIELDS = ['width', 'margin.left', 'margin.right', 'margin.top',
                'margin.bottom']
CELL_FIELDS = ['width', 'height', 'padding.left', 'padding.right',
               'padding.top', 'padding.bottom']
CAPTION_FIELDS = ['width', 'separation']
ABS = 0x082a2210


def put(v, name, x):
    a, _, b = name.partition('.')
    if b:
        v = dict(v, **{a: dict(v[a], **{b: x})})
    else:
        v = dict(v, **{a: x})
    return v


def bounds(tier, name):
    b = BOUNDS if tier == 'quick' else sorted(set(BOUNDS + MORE))
    if '.' in name or name == 'separation':
        return [v for v in b if v < 32768] + [32767]
    return b


def table_cases(tier):
    for inline in (0, 1):
        for kind, fields in (('t', TABLE_FIELDS), ('c', CELL_FIELDS),
                             ('k', CAPTION_FIELDS)):
            for f in fields:
                yield {'i': inline, 'k': kind, 'f': f,
                       'v': bounds(tier, f)}
    # cells of the same table have values of their own
    for perm in itertools.permutations(range(4)):
        yield {'i': 1, 'k': 'p', 'p': list(perm)}
    for cs in (0, 1, 100, 1000):
        yield {'i': 1, 'k': 's', 'v': cs}


def table_run(case):
    paras = [doc.secpara()]
    want = []
    k = case['k']
    if k == 'p':
        rows = [[], []]
        cells = []
        for i in case['p']:
            c = dict(CELL, width=CELL['width'] + 1000 * i,
                     height=CELL['height'] + 100 * i,
                     padding=dict((s, x + 100 * i) for s, x in
                                  CELL['padding'].items()))
            cells.append(c)
        for i, c in enumerate(cells):
            rows[i // 2].append(dict(paras=[P('c')], **c))
        t = doc.table(rows, flags=ABS | case['i'])
        t.values.update(TABLE)
        paras.append(P('x', t))
        want.append((TABLE, cells, None, 0))
    elif k == 's':
        t = doc.table([[dict(paras=[P('c')], **CELL)]], flags=ABS | 1)
        t.values.update(TABLE)
        t.children[0].values['cellspacing'] = case['v']
        paras.append(P('x', t))
        want.append((TABLE, [CELL], None, case['v']))
    else:
        for v in case['v']:
            tv, cv = TABLE, CELL
            kv = dict(width=8503, separation=850)
            if k == 't':
                tv = put(tv, case['f'], v)
            elif k == 'c':
                cv = put(cv, case['f'], v)
            else:
                kv = put(kv, case['f'], v)
            for pos in (2, 3) if k == 'k' else (2,):
                cells = [cv, dict(CELL, width=CELL['width'] + 1000)]
                t = doc.table([[dict(paras=[P('c')], **c) for c in cells]],
                              caption=[P('cap')] if k == 'k' else None,
                              flags=ABS | case['i'])
                t.values.update(tv)
                if k == 'k':
                    t.children[0].values.update(dict(kv, flags=pos))
                paras.append(P('x', t))
                want.append((tv, cells, dict(kv, pos=pos) if k == 'k'
                             else None, 0))
    tree = p20.tree([paras])
    o = odt(tree)
    ts = list(body(o).iter(q('table:table')))
    expect_equal(len(ts), len(want), 'tables')
    for e, (tv, cells, cap, cs) in zip(ts, want):
        table_odt(o, e, tv, cells, cs)
    page = p21.pages(tree)
    ts = list(page.root.iter(XH + 'table'))
    expect_equal(len(ts), len(want), 'tables')
    for e, (tv, cells, cap, cs) in zip(ts, want):
        near(declarations(e).get('width'), tv['width'], 'width of a table')
        expect_equal(int(e.get('cellspacing')), cs, 'space between cells')
        tds = list(e.iter(XH + 'td'))
        expect_equal(len(tds), len(cells), 'cells')
        for d, c in zip(tds, cells):
            look = declarations(d)
            near(look.get('width'), c['width'], 'width of a cell')
            near(look.get('height'), c['height'], 'height of a cell')
            box = sides(look)
            for s in ('top', 'right', 'bottom', 'left'):
                near(box[s], c['padding'][s], '%s padding of a cell' % s)
        if cap is not None:
            look = declarations(e.find(XH + 'caption'))
            near(look.get('width'), cap['width'], 'width of a caption')
            top = cap['pos'] == 2
            expect_equal(look.get('caption-side'),
                         'top' if top else 'bottom', 'place of a caption')
            near(look.get('margin-bottom' if top else 'margin-top'),
                 cap['separation'], 'distance of a caption')
    return case


def sides(look, name='padding'):
    v = (look.get(name) or '').split()
    expect(1 <= len(v) <= 4, '%s %r' % (name, v))
    out = dict(zip(('top', 'right', 'bottom', 'left'),
                   (v + v[:1] * 3 if len(v) == 1 else v * 2 if len(v) == 2
                    else v + v[1:2] if len(v) == 3 else v)))
    for s in out:
        out[s] = look.get('%s-%s' % (name, s), out[s])
    return out


def table_odt(o, e, tv, cells, cs):
    name = e.get(q('table:style-name'))
    get = lambda a: o.prop('table', name, 'table', a)   # noqa: E731
    # which has to be positive
    near(get('style:width') or '0mm', tv['width'], 'width of a table')
    for s in ('left', 'right', 'top', 'bottom'):
        near(get('fo:margin-' + s), tv['margin'][s],
             '%s margin of a table' % s)
    expect_equal(get('table:border-model'),
                 'separating' if cs else 'collapsing', 'borders of a table')
    tds = list(e.iter(q('table:table-cell')))
    expect_equal(len(tds), len(cells), 'cells')
    for d, c in zip(tds, cells):
        name = d.get(q('table:style-name'))
        for s in ('left', 'right', 'top', 'bottom'):
            near(o.prop('table-cell', name, 'table-cell',
                        'fo:padding-' + s), c['padding'][s],
                 '%s padding of a cell' % s)


# ---- drawing objects

GSO = dict(width=5111, height=4222, x=717, y=323, z_order=7,
           margin=dict(left=141, right=283, top=425, bottom=567))
COMP = dict(initial_width=5333, initial_height=4444, width=5555,
            height=4666)
RECT = dict(p0=dict(x=10, y=20), p1=dict(x=3000, y=20),
            p2=dict(x=3000, y=2000), p3=dict(x=10, y=2000))
SIGNED = [0, 1, -1, 99, -100, 283, -283, 7200, -7200, 100000, -100000,
          2147483, -2147483]
FLAGS = 0x046a4000


def shape_cases(tier):
    more = [14, -14, 15, -15, 7, -7, 28346, -28347, 65536, 21474836]
    signed = SIGNED if tier == 'quick' else SIGNED + more
    for kind in ('rect', 'line', 'pic', 'box', 'ell', 'gpic', 'grect',
                 'gline'):
        for inline in (0, 1):
            for f in ('x', 'y'):
                yield {'k': kind, 'i': inline, 'f': f, 'v': signed}
            for f in ('width', 'height', 'margin.left', 'margin.right',
                      'margin.top', 'margin.bottom'):
                yield {'k': kind, 'i': inline, 'f': f,
                       'v': bounds(tier, f)}
            for f in ('c.initial_width', 'c.initial_height', 'c.width',
                      'c.height'):
                yield {'k': kind, 'i': inline, 'f': f,
                       'v': bounds(tier, 'x')}
            yield {'k': kind, 'i': inline, 'f': 'z_order',
                   'v': [0, 1, 2, 100, 32767]}
            if kind in ('rect', 'grect'):
                for f in ('r.w', 'r.h'):
                    yield {'k': kind, 'i': inline, 'f': f,
                           'v': bounds(tier, 'x')}
            if kind in ('line', 'gline'):
                for f in ('l.x', 'l.y'):
                    yield {'k': kind, 'i': inline, 'f': f, 'v': signed}


def component(kind, cv, rv, lv, extra):
    chid = {'rect': '$rec', 'line': '$lin', 'pic': '$pic', 'box': '$rec',
            'ell': '$ell'}[kind]
    c = N('ShapeComponent', chid0=chid, chid=chid, scalerotations_count=1,
          translation=IDENT, scalerotations=[dict(scaler=IDENT,
                                                  rotator=IDENT)],
          rotation_center=lv, **cv)
    c.values.update(extra)
    if kind in ('box', 'ell'):
        # what is not in a rectangle is in a frame
        paras = [P('b')]
        if kind == 'box':
            paras.append(P(doc.table([[[P('t')]]])))
        c.children.append(N('TextboxParagraphList', paragraphs=len(paras),
                            maxwidth=4000))
        c.children.extend(paras)
    c.children.append({
        '$rec': N('ShapeRectangle', **rv), '$lin': N('ShapeLine'),
        '$pic': N('ShapePicture', picture={'bindata_id': 1}),
        '$ell': N('ShapeEllipse')}[chid])
    return c


def drawing(kind, gv, cv=COMP, rv=RECT, lv=dict(x=1500, y=-700), inline=1,
            extra=(), flags=FLAGS):
    group = kind[0] == 'g'
    c = component(kind[1:] if group else kind, cv, rv, lv, dict(extra))
    if group:
        c = N('ShapeComponent', chid0='$con', chid='$con', width=9999,
              height=9998, initial_width=9997, initial_height=9996,
              scalerotations_count=1, translation=IDENT,
              scalerotations=[dict(scaler=IDENT, rotator=IDENT)],
              controls=[c.values['chid']], children=[c])
    return N('GShapeObjectControl', children=[c], flags=flags | inline, **gv)


def shape_run(case):
    paras = [doc.secpara()]
    want = []
    for v in case['v']:
        gv, cv, rv, lv = GSO, COMP, RECT, dict(x=1500, y=-700)
        f = case['f']
        if f == 'r.w':
            rv = dict(rv, p1=dict(x=10 + v, y=20), p2=dict(x=10 + v,
                                                           y=2000))
        elif f == 'r.h':
            rv = dict(rv, p2=dict(x=3000, y=20 + v), p3=dict(x=10,
                                                             y=20 + v))
        elif f[:2] == 'l.':
            lv = dict(lv, **{f[2:]: v})
        elif f[:2] == 'c.':
            cv = dict(cv, **{f[2:]: v})
        else:
            gv = put(gv, f, v)
        paras.append(P('x', drawing(case['k'], gv, cv, rv, lv, case['i'])))
        want.append((gv, cv, rv, lv))
    tree = p20.tree([paras])
    o = odt(tree)
    es = objects(o)
    expect_equal(len(es), len(want), 'drawing objects')
    for e, w in zip(es, want):
        shape_odt(o, e, case['k'], case['i'], w)
    page = p21.pages(tree)
    es = [e for e in page.root.iter() if 'GShapeObjectControl' in
          p21.classes(e)]
    expect_equal(len(es), len(want), 'drawing objects')
    for e, (gv, cv, rv, lv) in zip(es, want):
        near(declarations(e).get('width'), gv['width'],
             'width of an object')
        for img in e.iter(XH + 'img'):
            look = declarations(img)
            near(look.get('width'), cv['width'], 'width of a picture')
            near(look.get('height'), cv['height'], 'height of a picture')
        if case['i'] == 0:
            place(declarations(e), gv, FLAGS, dict(PAGE0), {}, 'object')
    return case


def objects(o):
    return [e for p in body(o).iter(q('text:p')) for e in p
            if e.tag.startswith('{%s}' % odf.NS['draw'])]


def shape_odt(o, e, kind, inline, w):
    gv, cv, rv, lv = w
    if kind[0] == 'g':
        expect_equal(odf.short(e.tag), 'draw:g', 'a group')
        anchor(e, inline)
        expect_equal(len(e), 1, 'shapes of the group')
        e = e[0]
        kind = kind[1:]
        grouped = True
    else:
        grouped = False
        anchor(e, inline)
        margins(o, e, gv, inline)
    get = lambda a: e.get(q(a))     # noqa: E731
    if kind in ('pic', 'box', 'ell'):
        expect_equal(odf.short(e.tag), 'draw:frame', 'a frame')
        near(get('svg:width'), cv['initial_width'], 'width of a frame')
        near(get('svg:height'), cv['initial_height'], 'height of a frame')
        if not grouped:
            expect_equal(get('draw:z-index'), str(gv['z_order']), 'z-index')
            if not inline:
                near(get('svg:x'), gv['x'], 'place of a frame')
                near(get('svg:y'), gv['y'], 'place of a frame')
    elif kind == 'rect':
        expect_equal(odf.short(e.tag), 'draw:rect', 'a rectangle')
        near(get('svg:x'), gv['x'], 'place of a rectangle')
        near(get('svg:y'), gv['y'], 'place of a rectangle')
        near(get('svg:width'), rv['p1']['x'] - rv['p0']['x'],
             'width of a rectangle')
        near(get('svg:height'), rv['p2']['y'] - rv['p1']['y'],
             'height of a rectangle')
    else:
        expect_equal(odf.short(e.tag), 'draw:line', 'a line')
        near(get('svg:x1'), gv['x'], 'begin of a line')
        near(get('svg:y1'), gv['y'], 'begin of a line')
        near(get('svg:x2'), gv['x'] + 2 * lv['x'], 'end of a line')
        near(get('svg:y2'), gv['y'] + 2 * lv['y'], 'end of a line')
    if kind != 'line':
        # all of its transformations are the identity
        same(transform(e, 'transformation'),
             (1, 0, 0, 1, 0, 0), 'transformation', .0202)


def anchor(e, inline):
    expect_equal(e.get(q('text:anchor-type')),
                 'as-char' if inline else 'paragraph', 'anchor')


def margins(o, e, gv, inline):
    name = e.get(q('draw:style-name'))
    for s in ('left', 'right', 'top', 'bottom'):
        near(o.prop('graphic', name, 'graphic', 'fo:margin-' + s),
             gv['margin'][s], '%s margin of an object' % s)


# ---- transformations

def transform(e, what):
    """-> (a, b, c, d, e, f) in mm of the transformations in their order"""
    s = e.get(q('draw:transform')) or ''
    total = (1., 0., 0., 1., 0., 0.)
    rest = re.sub(r'(matrix|translate)\s*\(([^()]*)\)', '', s)
    expect(not rest.strip(), '%s %r' % (what, s))
    for name, args in re.findall(r'(matrix|translate)\s*\(([^()]*)\)', s):
        args = args.replace(',', ' ').split()
        if name == 'translate':
            expect(1 <= len(args) <= 2, '%s %r' % (what, s))
            v = [length(a, what) for a in args] + [0.]
            m = (1., 0., 0., 1., v[0], v[1])
        else:
            expect_equal(len(args), 6, what)
            try:
                m = tuple(float(a) for a in args[:4]) + tuple(
                    length(a, what) for a in args[4:])
            except ValueError:
                raise Violation('%s %r' % (what, s))
        total = mul(m, total)
    return total


def mul(m, n):
    """first n, then m"""
    a, b, c, d, e, f = m
    g, h, i, j, k, z = n
    return (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j,
            a * k + c * z + e, b * k + d * z + f)


def same(got, want, what, tol):
    for g, w in zip(got, want):
        if math.isnan(g) or abs(g - w) > tol * (1 + abs(w) * 1e-6):
            raise Violation('%s: %r, not %r' % (what, got, want))


def matrix(m):
    return (m['a'], m['b'], m['c'], m['d'], m['e'] * MM, m['f'] * MM)


R = math.sqrt(.5)
MATRICES = [
    IDENT,
    dict(IDENT, e=1000., f=-700.),
    dict(IDENT, a=2., d=.5),
    dict(IDENT, a=.25, d=1.5, e=300., f=-250.5),
    dict(IDENT, a=R, b=R, c=-R, d=R),
    dict(IDENT, a=0., b=1., c=-1., d=0., e=5000., f=100.),
    dict(IDENT, a=-1., d=-1.),
    dict(IDENT, b=.125),
    dict(IDENT, c=.375, e=-283.46),
]


def transform_cases(tier):
    n = len(MATRICES)
    for kind in ('rect', 'pic', 'box', 'ell', 'grect', 'gpic'):
        for a in range(n):
            for b in range(n):
                if tier == 'quick' and kind not in ('rect', 'gpic') and \
                        (a and b and a != b):
                    continue
                yield {'k': kind, 'm': [a, b]}
        for a in range(n):
            for k in (0, 2, 3):
                yield {'k': kind, 'm': [a, 4], 'n': k}


def transform_run(case):
    """scaler, rotator and translation"""
    paras = [doc.secpara()]
    want = []
    a, b = case['m']
    for c in range(len(MATRICES)):
        for xy in ((0, 0), (717, -323)):
            ms = [(MATRICES[a], MATRICES[b])]
            if 'n' in case:
                ms = [(MATRICES[a], MATRICES[(b + k) % len(MATRICES)])
                      for k in range(case['n'])]
            total = (1., 0., 0., 1., -xy[0] * MM, -xy[1] * MM)
            for s, r in ms:
                total = mul(matrix(r), mul(matrix(s), total))
            total = mul(matrix(MATRICES[c]), total)
            total = mul((1., 0., 0., 1., xy[0] * MM, xy[1] * MM), total)
            g = drawing(case['k'], dict(GSO, x=xy[0], y=xy[1]), extra=dict(
                translation=MATRICES[c], scalerotations_count=len(ms),
                scalerotations=[dict(scaler=s, rotator=r) for s, r in ms]))
            paras.append(P('x', g))
            want.append(total)
    o = odt(p20.tree([paras]))
    es = objects(o)
    expect_equal(len(es), len(want), 'drawing objects')
    for e, w in zip(es, want):
        if case['k'][0] == 'g':
            e = e[0]
        same(transform(e, 'transformation'), w, 'transformation', .2)
    return case


# ---- places of what is not inline

PAGE0 = dict(width=59528, height=84188, left_offset=8504,
             right_offset=8404)


def place_cases(tier):
    for kind in ('table', 'rect', 'pic'):
        for h in range(4):
            for a in range(3):
                for attr in (0, 1):
                    yield {'k': kind, 'h': h, 'a': a, 'attr': attr}


def place_run(case):
    flags = FLAGS & ~0x1f01 | case['h'] << 8 | case['a'] << 10
    page = dict(PAGE0, attr=case['attr'])
    shapes = [dict(), dict(doubled_margin_left=2000,
                           doubled_margin_right=600)]
    paras = [section(page, split=3)]
    want = []
    for ps in (0, 1):
        for x in (0, 717, -323, 30000):
            for w in (0, 5111, 42520, 70001):
                for ml, mr in ((0, 0), (141, 0), (0, 283)):
                    gv = dict(GSO, x=x, width=w, margin=dict(
                        left=ml, right=mr, top=0, bottom=0))
                    if case['k'] == 'table':
                        g = doc.table([[[P('c')]]], flags=flags)
                        g.values.update((k, v) for k, v in gv.items()
                                        if k != 'z_order')
                    else:
                        g = drawing(case['k'], gv, inline=0, flags=flags)
                    paras.append(para(['x', g, BRK], parashape=ps))
                    want.append((gv, shapes[ps]))
    d = p20.info(parashapes=shapes, styles=[dict(local_name='L0')])
    pg = p21.pages(p20.tree([paras], docinfo_bytes=d))
    name = 'TableControl' if case['k'] == 'table' else 'GShapeObjectControl'
    es = [e for e in pg.root.iter() if name in p21.classes(e)]
    expect_equal(len(es), len(want), 'objects')
    for e, (gv, ps) in zip(es, want):
        place(declarations(e), gv, flags, page, ps, case['k'])
    return case


def place(look, gv, flags, page, ps, what):
    """left margin of a block which is in the page"""
    h, a = flags >> 8 & 3, flags >> 10 & 7
    paper = page['height' if page.get('attr', 0) & 1 else 'width']
    # the line on which it is placed: left and right end of it
    left, right = -page['left_offset'], paper - page['left_offset']
    if h:
        left, right = 0, right - page['right_offset']
    if h == 3:
        left += ps.get('doubled_margin_left', 0) / 2
        right -= ps.get('doubled_margin_right', 0) / 2
    x, w, m = gv['x'], gv['width'], gv['margin']
    if a == 0:
        want = left + m['left'] + x
    elif a == 1:
        want = (left + right) / 2 - w / 2 + x
    elif a == 2:
        want = right - x - m['right'] - w
    else:
        return
    near(look.get('margin-left'), want, 'place of %s, %d %d' % (what, h, a))


# ---- anchors, wrapping and alignment in ODT

def wrap_cases(tier):
    for flow in range(4):
        for side in range(4):
            yield {'f': flow, 's': side}
    for v in range(3):
        for h in range(4):
            yield {'v': v, 'h': h}
    for v in range(3):
        for h in range(4):
            yield {'va': v, 'ha': h}


def wrap_run(case):
    flags = FLAGS & ~1
    for name, at, width in (('f', 21, 3), ('s', 24, 2), ('v', 3, 2),
                            ('h', 8, 2), ('va', 5, 3), ('ha', 10, 3)):
        if name in case:
            flags = flags & ~(((1 << width) - 1) << at) | case[name] << at
    paras = [doc.secpara()]
    kinds = [(k, i) for k in ('rect', 'line', 'pic', 'box', 'ell')
             for i in (0, 1)]
    for k, i in kinds:
        paras.append(P('x', drawing(k, dict(GSO, x=0, y=0), inline=i,
                                    flags=flags)))
    o = odt(p20.tree([paras]))
    es = objects(o)
    expect_equal(len(es), len(kinds), 'objects')
    for e, (k, i) in zip(es, kinds):
        name = e.get(q('draw:style-name'))
        get = lambda a: o.prop('graphic', name, 'graphic', a)  # noqa: E731
        anchor(e, i)
        if i:
            expect_equal(get('style:vertical-rel'), 'baseline', 'place')
            continue
        if 'f' in case:
            want = {0: ('parallel', 'left', 'right', 'biggest')[case['s']],
                    1: 'none'}.get(case['f'], 'run-through')
            expect_equal(get('style:wrap'), want, 'wrapping')
        if 'v' in case:
            expect_equal(get('style:vertical-rel'), (
                'page', 'page-content', 'paragraph')[case['v']],
                'what the place is relative to')
            expect_equal(get('style:horizontal-rel'), (
                'page', 'page-content', 'page-content',
                'paragraph')[case['h']], 'what the place is relative to')
        if 'va' in case:
            expect_equal(get('style:vertical-pos'), (
                'from-top', 'middle', 'bottom')[case['va']], 'alignment')
            expect_equal(get('style:horizontal-pos'), (
                'from-left', 'center', 'right', 'from-inside')[case['ha']],
                'alignment')
    return case


# ---- lines and fills of shapes

LINES = [0, 1, 50, 113, 283, 7200, 100000]
COLORS = [0, 0xff, 0xff00, 0xff0000, 0x123456, 0xffffff]


def line_cases(tier):
    for kind in ('rect', 'line'):
        for stroke in range(0, 18):
            yield {'k': kind, 's': stroke}
    for c in COLORS:
        yield {'c': c}


def line_run(case):
    paras = [doc.secpara()]
    want = []
    if 'c' in case:
        for on in (0, 1):
            for other in COLORS[:3]:
                g = drawing('rect', GSO, extra=dict(
                    fill_flags=on << 8, fill_colorpattern=dict(
                        background_color=case['c'], pattern_color=other,
                        pattern_type_flags=0xffffffff)))
                paras.append(P('x', g))
                want.append(('solid', color(case['c'])) if on
                            else ('none', None))
    else:
        for w in LINES:
            for c in COLORS:
                v = dict(color=c, width=w, flags=case['s'])
                paras.append(P('x', drawing(case['k'], GSO, extra={
                    'border' if case['k'] == 'rect' else 'line': v})))
                want.append(v)
    o = odt(p20.tree([paras]))
    es = objects(o)
    expect_equal(len(es), len(want), 'objects')
    for e, w in zip(es, want):
        name = e.get(q('draw:style-name'))
        get = lambda a: o.prop('graphic', name, 'graphic', a)  # noqa: E731
        if 'c' in case:
            expect_equal((get('draw:fill'), get('draw:fill-color') if w[1]
                          else None), w, 'fill')
        else:
            expect_equal(get('draw:stroke'), {0: 'none', 2: 'dash',
                                              3: 'dash'}.get(case['s'],
                                                             'solid'),
                         'stroke')
            expect_equal(get('svg:stroke-color'), color(w['color']),
                         'color of a line')
            near(get('svg:stroke-width'), w['width'], 'width of a line')
    return case


# ---- borders

WIDTHS = [.1, .12, .15, .2, .25, .3, .4, .5, .6, .7, 1, 1.5, 2, 3, 4, 5]
STROKES = ['none', 'solid', 'dashed', 'dotted', 'dashed', 'dashed',
           'dashed', 'dotted', 'double', 'double', 'double', 'double',
           'solid', 'double', 'inset', 'outset', 'groove', 'ridge']
# those which have a name of their own in CSS and XSL
OWN = {0: 'none', 1: 'solid', 2: 'dashed', 3: 'dotted', 8: 'double',
       14: 'inset', 15: 'outset', 16: 'groove', 17: 'ridge'}
SIDES = ('left', 'right', 'top', 'bottom')
DEFAULT = dict((s, dict(stroke_flags=1, width_flags=2 + i,
                        color=0x102030 * (i + 1)))
               for i, s in enumerate(SIDES))


def border_cases(tier):
    for s in SIDES:
        for k in range(18):
            yield {'s': s, 'k': k}
        for c in COLORS:
            yield {'s': s, 'c': c}
    for c in COLORS:
        yield {'bg': c}
    # fills of cells in all assignments
    n = 3 if tier == 'quick' else 4
    for t in itertools.product(range(1, n + 1), repeat=n):
        yield {'a': list(t)}


def border_run(case):
    fills = []
    assign = None
    if 'k' in case:
        for w in range(16):
            fills.append(dict(DEFAULT, **{case['s']: dict(
                stroke_flags=case['k'], width_flags=w, color=w << 4)}))
    elif 'c' in case:
        fills.append(dict(DEFAULT, **{case['s']: dict(
            stroke_flags=1, width_flags=6, color=case['c'])}))
    elif 'bg' in case:
        for other in COLORS:
            for kind in (0, 1, 2, 3, 4, 5, 255):
                fills.append(dict(DEFAULT, fillflags=1, fill_colorpattern=dict(
                    background_color=case['bg'], pattern_color=other,
                    pattern_type_flags=kind)))
        fills.append(DEFAULT)
    else:
        assign = case['a']
        for i in range(len(assign) + 1):
            fills.append(dict((s, dict(
                stroke_flags=1, width_flags=4 * i + k if i < 4 else 0,
                color=0x010101 * (4 * i + k)))
                for k, s in enumerate(SIDES)))
            if i % 2:
                fills[-1].update(fillflags=1, fill_colorpattern=dict(
                    background_color=0x10 + i, pattern_color=0,
                    pattern_type_flags=255))
    if assign is None:
        assign = list(range(1, len(fills) + 1))
    d = p20.borderfills(fills)
    cells = [dict(paras=[P('c')], borderfill_id=i) for i in assign]
    k = (len(cells) + 1) // 2
    t = doc.table([cells[:k], cells[k:]] if len(cells) > 1 else [cells])
    own = (assign[0] % len(fills)) + 1
    t.children[0].values['borderfill_id'] = own
    tree = p20.tree([[doc.secpara(), P('x', t)]], docinfo_bytes=d)
    o = odt(tree)
    tds = list(body(o).iter(q('table:table-cell')))
    expect_equal(len(tds), len(assign), 'cells')
    for e, i in zip(tds, assign):
        name = e.get(q('table:style-name'))
        get = lambda a: o.prop('table-cell', name, 'table-cell',  # noqa
                               a)
        for s in SIDES:
            frame(get('fo:border-' + s), fills[i - 1][s],
                  '%s border of a cell' % s, False)
        back = get('fo:background-color')
        f = fills[i - 1]
        expect_equal(back if back != 'transparent' else None,
                     color(f['fill_colorpattern']['background_color'])
                     if f.get('fillflags') else None, 'background of a cell')
    page = p21.pages(tree)
    for tag, want in (('td', assign), ('table', [own])):
        es = list(page.root.iter(XH + tag))
        expect_equal(len(es), len(want), tag)
        for e, i in zip(es, want):
            look = page.rules.style((tag, p21.classes(e)))
            look.update(declarations(e))
            for s in SIDES:
                frame(look.get('border-' + s), fills[i - 1][s],
                      '%s border of %s' % (s, tag), True)
            f = fills[i - 1]
            expect_equal(look.get('background-color'),
                         color(f['fill_colorpattern']['background_color'])
                         if f.get('fillflags') else None, 'background')
    return case


def frame(got, b, what, html):
    m = re.match(r'(\S+) (\S+) (\S+)$', got or '')
    expect(m, '%s: %r' % (what, got))
    w, s, c = m.groups()
    mm = WIDTHS[b['width_flags']]
    v = length(w, what)
    # thin lines are of one or two pixels
    if not abs(v - mm) < (.17 if html and w.endswith('px') else .002):
        raise Violation('%s: %s, not %smm' % (what, w, mm))
    k = b['stroke_flags']
    if k in OWN:
        expect_equal(s, OWN[k], what)
    else:
        expect(s in OWN.values() and s != 'none',
               '%s: style %r of %d' % (what, s, k))
    expect_equal(c, color(b['color']), what)


# ---- looks in ODT

LOOKS = [dict(), dict(charshapeflags=1), dict(charshapeflags=2),
         dict(charshapeflags=3), dict(charshapeflags=1 << 2),
         dict(charshapeflags=2 << 2), dict(charshapeflags=3 << 2),
         dict(charshapeflags=1 << 2 | 1 << 4 | 1),
         dict(charshapeflags=1 << 2, underline_color=0x445566),
         dict(charshapeflags=0x7 << 4 | 3 << 2, underline_color=0xff),
         dict(charshapeflags=2 << 2 | 2 << 4 | 2),
         dict(relative_size=dict(p20.FULL, en=50)),
         dict(relative_size=dict(p20.FULL, ko=70, other=30)),
         dict(font_face=dict((x, 1) for x in LANGS)),
         dict(font_face=dict(dict((x, 0) for x in LANGS), en=1)),
         dict(font_face=dict(dict((x, 0) for x in LANGS), ko=1))]
PLOOKS = [dict(), dict(indent=400), dict(indent=-400),
          dict(indent=-400, doubled_margin_left=1000),
          dict(indent=400, doubled_margin_left=1000),
          dict(parashapeflags=1 << 2), dict(parashapeflags=2 << 2),
          dict(parashapeflags=3 << 2), dict(parashapeflags=4 << 2),
          dict(linespacing=160), dict(parashapeflags=1, linespacing=1600),
          dict(parashapeflags=1, linespacing=2400),
          dict(parashapeflags=2, linespacing=800),
          dict(parashapeflags=3, linespacing=1000),
          dict(doubled_margin_top=200, doubled_margin_right=400,
               doubled_margin_bottom=600, doubled_margin_left=800)]
DECO = {'underline': 1, 'line-through': 2, 'overline': 3}
STROKES = {0: ('single', 'solid'), 1: ('single', 'dash'),
           2: ('single', 'dotted'), 3: ('single', 'dot-dash'),
           4: ('single', 'dot-dot-dash'), 5: ('single', 'long-dash'),
           6: ('single', 'dotted'), 7: ('double', 'solid'),
           8: ('double', 'solid'), 9: ('double', 'solid'),
           10: ('double', 'solid')}


def look_cases(tier):
    for a in range(len(LOOKS)):
        for k in ('style', 'fix'):
            yield {'c': a, 'ps': k}
    for a in range(len(PLOOKS)):
        for b in (0, 1):
            yield {'p': a, 'b': b}


def chars(i, v):
    return dict(dict(basesize=1000 + 100 * i, relative_size=p20.FULL), **v)


def look_run(case):
    n = len(LOOKS) if 'c' in case else len(PLOOKS)
    shapes = [chars(i, v) for i, v in enumerate(LOOKS)]
    own = case.get('c', case.get('p'))
    styles = [dict(local_name='st%d' % i, charshape_id=i if 'c' in case
                   else 0, parashape_id=i if 'p' in case else 0)
              for i in range(n)]
    d = p20.info(charshapes=shapes, styles=styles, parashapes=PLOOKS,
                 fonts=2)
    paras = [doc.secpara()]
    for i in range(n):
        ps = i if 'p' in case else own % 3 if case['ps'] == 'fix' else 0
        # one shape, and pieces of two
        for sh in ([(0, i)], [(0, own), (1, i), (2, own)]) if 'c' in case \
                else ([(0, 0)],):
            paras.append(para(['abc', BRK], shapes=sh, style=own,
                              parashape=ps, split=4 * case.get('b', 0)))
            paras[-1].shapes = sh
    tree = p20.tree([paras], docinfo_bytes=d)
    o = odt(tree)
    fonts = fontnames(tree)
    ps = list(body(o).iter(q('text:p')))
    expect_equal(len(ps), len(paras), 'paragraphs')
    for e, p in zip(ps[1:], paras[1:]):
        name = e.get(q('text:style-name'))
        if 'p' in case:
            i = p.values['parashape_id']
            para_look(o, name, PLOOKS[i], PLOOKS[own],
                      'paragraph shape %d in the style of %d' % (i, own))
            expect_equal(o.prop('paragraph', name, 'paragraph',
                                'fo:break-before') == 'page',
                         bool(case['b']), 'page break')
            continue
        runs = []
        spans(o, e, None, runs)
        want = []
        for at in range(3):
            want.append([s for a, s in p.shapes if a <= at][-1])
        expect_equal(''.join(r[0] for r in runs), 'abc', 'text')
        at = 0
        for text, span in runs:
            for ch in text:
                char_look(o, span, name, shapes[want[at]], fonts,
                          'character shape %d in the style of %d' % (
                              want[at], own))
                at += 1
    return n


def stroke_cases(tier):
    for at in range(4):
        for s in sorted(STROKES):
            for own in range(4):
                yield {'a': at, 's': s, 'o': own}


def stroke_run(case):
    """lines of text in a paragraph whose style has another line"""
    shapes = [chars(0, dict(charshapeflags=case['o'] << 2 | (
                  case['s'] + 1) % len(STROKES) << 4)),
              chars(0, dict(charshapeflags=case['a'] << 2 | case['s'] << 4,
                            underline_color=0x10203 * (case['s'] + 1)))]
    d = p20.info(charshapes=shapes, parashapes=PLOOKS[:1], fonts=2,
                 styles=[dict(local_name='st', charshape_id=0)])
    tree = p20.tree([[doc.secpara(), para(['abc'], shapes=[(0, 1)]),
                      para(['abc'], shapes=[(0, 0), (2, 1)])]],
                    docinfo_bytes=d)
    o = odt(tree)
    fonts = fontnames(tree)
    at = []
    for e in list(body(o).iter(q('text:p')))[1:]:
        runs = []
        spans(o, e, None, runs)
        at += [(ch, span, e) for text, span in runs for ch in text]
    expect_equal(''.join(x[0] for x in at), 'abcabc', 'text')
    for (_, span, e), i in zip(at, (1, 1, 1, 0, 0, 1)):
        char_look(o, span, e.get(q('text:style-name')), shapes[i], fonts,
                  'character shape %d of %r' % (i, case))
    return case


def fontnames(tree):
    f = conv.hwp5file(tree)
    names = [m['content']['name'] for m in f.docinfo.models()
             if m['type'].__name__ == 'FaceName']
    return dict((lang, names[2 * i:2 * i + 2])
                for i, lang in enumerate(LANGS))


def spans(o, e, style, out):
    """[(text, name of the style of the span)]"""
    if e.text:
        out.append((e.text, style))
    for c in e:
        expect_equal(odf.short(c.tag), 'text:span', 'in a paragraph')
        spans(o, c, c.get(q('text:style-name')) or style, out)
        if c.tail:
            out.append((c.tail, style))


def char_look(o, span, par, v, fonts, what):
    def get(a):
        x = o.prop('text', span, 'text', a) if span else None
        return x if x is not None else o.prop('paragraph', par, 'text', a)
    fl = v.get('charshapeflags', 0)
    for suffix in ('', '-asian', '-complex'):
        pre = 'fo:' if not suffix else 'style:'
        expect_equal(get(pre + 'font-style' + suffix) or 'normal',
                     'italic' if fl & 1 else 'normal', '%s: %s of %s' % (
                         'slant', suffix, what))
        expect_equal(get(pre + 'font-weight' + suffix) or 'normal',
                     'bold' if fl & 2 else 'normal', '%s: %s of %s' % (
                         'weight', suffix, what))
    for a, lang in (('fo:font-size', 'en'), ('style:font-size-asian', 'ko'),
                    ('style:font-size-complex', 'other')):
        size = v['basesize'] / 100. * v['relative_size'][lang] / 100
        got = number(get(a), 'pt', a)[0]
        expect(abs(got - size) < .01, '%s: %r of %s' % (a, got, what))
    face = v.get('font_face') or dict((x, 0) for x in LANGS)
    expect_equal(get('style:font-name'), fonts['en'][face['en']],
                 'font of ' + what)
    expect_equal(get('style:font-name-asian'), fonts['ko'][face['ko']],
                 'font of ' + what)
    for k, n in DECO.items():
        on = fl >> 2 & 3 == n
        t = get('style:text-%s-type' % k) or 'none'
        s = get('style:text-%s-style' % k)
        expect_equal(t != 'none' and s not in (None, 'none'), on,
                     '%s of %s' % (k, what))
        if on:
            expect_equal(get('style:text-%s-color' % k), color(
                v.get('underline_color', 0)), 'color of %s' % what)
            expect_equal((t, s), STROKES[fl >> 4 & 15], '%s of %s' % (
                k, what))


def para_look(o, name, v, style, what):
    def get(a):
        return o.prop('paragraph', name, 'paragraph', a)
    fl = v.get('parashapeflags', 0)
    ind = v.get('indent', 0)
    expect_equal(get('fo:text-align'), {0: 'justify', 1: 'left', 2: 'right',
                                        3: 'center', 4: 'justify'}[
                                            fl >> 2 & 7], what)
    near(get('fo:text-indent'), ind / 2, 'indent of ' + what)
    near(get('fo:margin-left'), v.get('doubled_margin_left', 0) / 2 +
         max(0, -ind / 2), 'left margin of ' + what)
    for s in ('right', 'top', 'bottom'):
        near(get('fo:margin-' + s), v.get('doubled_margin_' + s, 0) / 2,
             '%s margin of %s' % (s, what))
    kind = fl & 3
    height = get('fo:line-height')
    space = get('style:line-spacing')
    at = get('style:vertical-align')
    if kind == 0:
        expect_equal(number(height, '%', what)[0],
                     float(v.get('linespacing', 0)), 'height of ' + what)
    elif kind == 1:
        near(height, v['linespacing'] / 2, 'height of ' + what)
    elif style.get('parashapeflags', 0) & 3 in (2, 3):
        # the two have no property to undo each other
        expect(height in (None, 'normal'), 'height of lines %r of %s' % (
            height, what))
    if kind == 2:
        near(space, v['linespacing'] / 4, 'space between lines of ' + what)
    elif style.get('parashapeflags', 0) & 3 != 2:
        expect(space is None or length(space, what) == 0,
               'space between lines %r of %s' % (space, what))
    if kind == 1:
        expect_equal(at, 'top', 'place in the line of ' + what)
    else:
        expect(at in (None, 'auto'), 'place in the line %r of %s' % (
            at, what))


FAMILIES = [
    Family('pages', page_cases, page_run),
    Family('breaks', break_cases, break_run),
    Family('headers', header_cases, header_run),
    Family('tables', table_cases, table_run),
    Family('shapes', shape_cases, shape_run),
    Family('transforms', transform_cases, transform_run),
    Family('places', place_cases, place_run),
    Family('wrapping', wrap_cases, wrap_run),
    Family('lines', line_cases, line_run),
    Family('borders', border_cases, border_run),
    Family('looks', look_cases, look_run),
    Family('strokes', stroke_cases, stroke_run),
]
