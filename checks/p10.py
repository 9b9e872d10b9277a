# -*- coding: utf-8 -*-
"""P10 record trees of a section against the structure of its XML."""
import itertools
import struct

from mc import doc
from mc import hwp
from mc import skeleton
from mc.core import Family, Violation, expect, expect_equal
from mc.doc import N, para

PROPERTY = 'P10'
LEVEL = 'exploration'
RULE = ('a case is one record tree of a section: controls in a paragraph, '
        'row sizes of a table, containers nested in each other, or section/'
        'column boundaries; each record with an identifier member carries a '
        'distinct value')
ASSUMPTIONS = ['every extended control character has its control record and '
               'the reverse, in the same order',
               'a table has at most as many cells as its row sizes say']

BRK = 13


def P(*tokens, **kw):
    return para(list(tokens) + [BRK], **kw)


def make(kind):
    """one token of a text"""
    if kind == 'a':
        return 'a'
    if kind == 'k':
        return '\uac00'
    if kind == 'n':
        return 10
    if kind == 't':
        return ('w', 9)
    if kind == 'h':
        return 0x18
    if kind == 'w':
        return ('w', 8)
    if kind == 'T':
        return doc.table([[[P('t')], [P('u')]]])
    if kind == 'G':
        return doc.textbox([P('g'), P('h')])
    if kind == 'R':
        return doc.textbox(None)
    if kind == 'I':
        return doc.picture(1)
    if kind == 'F':
        return doc.note('FootNote', [P('f')])
    if kind == 'E':
        return doc.note('EndNote', [P('e'), P('e')])
    if kind == 'H':
        return doc.header('Header', [P('H')])
    if kind == 'O':
        return doc.header('Footer', [P('O'), P('O')])
    if kind == 'A':
        return N('AutoNumbering')
    if kind == 'N':
        return N('NewNumbering')
    if kind == 'B':
        return N('BookmarkControl', children=[
            N('BookmarkControlData', name='mark')])
    if kind == 'C':
        return N('HiddenComment', children=[
            N('ListHeader', paragraphs=1), P('c')])
    if kind == 'D':
        return doc.cold(2)
    if kind == 'S':
        return doc.secd()
    if kind == 'Y':
        return N('PageHide')
    if kind == 'Z':
        return N('Dutmal', maintext='m', subtext='s')
    if kind == 'Q':
        # eqed: an unknown kind of control
        return N('Control', chid='eqed')
    raise KeyError(kind)


doc.CODE_OF['Control'] = 0x0b
ALL = 'akntwhTGRIFEHOANBCDYZQ'
FEW = 'anwTGFHABD'

VERSIONS = [(5, 0, 1, 7), (5, 0, 3, 4)]


def check(nodes, version=(5, 0, 1, 7), **kw):
    skeleton.number(nodes)
    data = doc.section_xml(nodes, version, **kw)
    want = skeleton.expected(nodes)
    root = doc.parse_xml(data if len(want) == 1 else
                         b'<?xml version="1.0" encoding="utf-8"?><X>' +
                         data.split(b'?>', 1)[1] + b'</X>')
    got = [skeleton.observed(root)] if len(want) == 1 else \
        [skeleton.observed(e) for e in root]
    d = skeleton.first_difference(['', None, got], ['', None, want])
    if d:
        raise Violation('%s\ngot:\n%s\nexpected:\n%s' % (
            d, ''.join(skeleton.show(s) for s in got),
            ''.join(skeleton.show(s) for s in want)))
    return data


# ---- controls in the text of a paragraph

def inline_cases(tier):
    for n in (0, 1, 2):
        for t in itertools.product(ALL, repeat=n):
            yield {'x': ''.join(t), 'v': n % 2}
    for t in itertools.product(FEW if tier == 'quick' else ALL, repeat=3):
        yield {'x': ''.join(t), 'v': 0}
    if tier != 'quick':
        for t in itertools.product('anTGFA', repeat=5):
            yield {'x': ''.join(t), 'v': 0}


def inline_run(case):
    nodes = [doc.secpara(), para([make(k) for k in case['x']]),
             P('z', make('T'))]
    return check(nodes, VERSIONS[case['v']])


# ---- lines: where the same controls sit in several lines

def line_cases(tier):
    for t in itertools.product('aTFAwn', repeat=3):
        for cut in (1, 2, 3):
            yield {'x': ''.join(t), 'c': [cut]}
        yield {'x': ''.join(t), 'c': [1, 2]}


def line_run(case):
    toks = [make(k) for k in case['x']] + [BRK]
    pos = [0]
    for t in toks:
        pos.append(pos[-1] + doc.token_units(t))
    return check([doc.secpara(), para(toks, lines=[0] + [
        pos[c] for c in case['c']])])


# ---- rows and cells

def rows(maxrows, maxcols):
    for n in range(0, maxrows + 1):
        for r in itertools.product(range(maxcols + 1), repeat=n):
            yield list(r)


def table_cases(tier):
    q = tier == 'quick'
    for r in rows(4 if q else 5, 3):
        total = sum(r)
        for cells in range(total + 1):
            if cells < total - 2 and q:
                continue
            for paras in (1, 2, 0):
                if paras != 1 and (cells != total or len(r) > 3):
                    continue
                for cap in (0, 1):
                    if cap and (paras != 1 or len(r) > 2):
                        continue
                    yield {'r': r, 'n': cells, 'p': paras, 'c': cap}


def maketable(r, n, p=1, cap=0, inner=None):
    kids = []
    caption = [N('TableCaption', paragraphs=1, max_width=9), P('cap')]
    if cap == 1:
        kids += caption
    kids.append(N('TableBody', rows=len(r), cols=max(r + [1]), rowcols=r,
                  validZones=[]))
    for i in range(n):
        paras = [P(chr(0x61 + i % 26), str(j)) for j in range(p)]
        if inner is not None and i == inner[0]:
            paras.insert(0, P('x', inner[1], 'y'))
        kids += doc.cell(paras)
    return N('TableControl', children=kids)


def table_run(case):
    t = maketable(case['r'], case['n'], case['p'], case['c'])
    return check([doc.secpara(['a', t, 'b']), P('z')])


def innertable_cases(tier):
    for r in rows(2, 2):
        for s in rows(2, 2):
            for at in range(sum(r)):
                yield {'r': r, 's': s, 'at': at}


def innertable_run(case):
    inner = maketable(case['s'], sum(case['s']))
    t = maketable(case['r'], sum(case['r']), inner=(case['at'], inner))
    return check([doc.secpara(['a', t, 'b']), P('z')])


# ---- containers in each other

CONT = 'TGFHCKLV'


def container(kind, paras):
    if kind == 'T':
        return doc.table([[[P('1')], paras], [[P('2')]]])
    if kind == 'K':                 # caption of a table
        return doc.table([[[P('1')]]], caption=paras)
    if kind == 'G':
        return doc.textbox(paras)
    if kind == 'L':                 # caption of a shape and a text box
        g = doc.textbox([P('1')])
        g.children[:0] = [N('GShapeObjectCaption', paragraphs=len(paras),
                            max_width=9)] + paras
        return g
    if kind == 'V':                 # shapes in a container shape
        comp = [N('ShapeComponent', chid='$rec', scalerotations_count=1,
                  children=[N('TextboxParagraphList', paragraphs=len(p))] +
                  p + [N('ShapeRectangle')])
                for p in (paras, [P('2')])]
        return doc.textbox(None, '$con', None, inner=[
            N('ShapeContainer', raw=b'\2\0' + b'$rec'[::-1] * 2)] + comp)
    if kind == 'F':
        return doc.note('FootNote', paras)
    if kind == 'H':
        return doc.header('Header', paras)
    if kind == 'C':
        return N('HiddenComment', children=[
            N('ListHeader', paragraphs=len(paras))] + paras)
    raise KeyError(kind)


def nest_cases(tier):
    depth = 3 if tier == 'quick' else 4
    for n in range(1, depth + 1):
        for path in itertools.product(CONT, repeat=n):
            for at in ('only', 'first', 'last', 'two'):
                if n == 4 and at != 'two':
                    continue
                yield {'p': ''.join(path), 'at': at}


def nest_run(case):
    paras = [P('deep')]
    for k in reversed(case['p']):
        c = container(k, paras)
        if case['at'] == 'only':
            paras = [para([c])]
        elif case['at'] == 'first':
            paras = [P(c, 'x'), P('y')]
        elif case['at'] == 'last':
            paras = [P('y'), P('x', c)]
        else:
            paras = [P('x', c, container(k, [P('v')]), 'y'), P(c2(k))]
    return check([doc.secpara()] + paras)


def c2(k):
    return container(k, [P('w')])


# ---- many of a kind: counts no short sequence reaches

MANY = (4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 100, 257)


def many_cases(tier):
    for n in MANY:
        for k in ALL.replace('S', '').replace('D', ''):
            yield {'how': 'same', 'k': k, 'n': n}
        for k in ('TaG', 'FEA', 'aBTHO', FEW, ALL):
            yield {'how': 'mixed', 'k': k, 'n': n}
            yield {'how': 'lines', 'k': k, 'n': n}
            yield {'how': 'paras', 'k': k, 'n': n}
        for how in ('rows', 'cols', 'cells', 'cellparas', 'zero', 'shapes'):
            yield {'how': how, 'n': n}
        for k in CONT:
            if n <= 33:
                yield {'how': 'deep', 'k': k, 'n': n}
            yield {'how': 'inner', 'k': k, 'n': n}
        if n <= 33:
            yield {'how': 'deep', 'k': CONT, 'n': n}
        yield {'how': 'sections', 'n': n}


def many_run(case):
    how, n = case['how'], case['n']
    if how in ('same', 'mixed', 'lines', 'paras', 'inner'):
        toks = [case['k'][i % len(case['k'])] for i in range(n)]
    if how in ('same', 'mixed'):
        return check([doc.secpara(), P(*[make(k) for k in toks]),
                      P('z', make('T'))])
    if how == 'lines':
        # a new line within the text every third token
        toks = [make(k) for k in toks]
        pos = 0
        starts = [0]
        for i, t in enumerate(toks):
            pos += doc.token_units(t)
            if i % 3 == 2:
                starts.append(pos)
        return check([doc.secpara(), para(toks + [BRK], lines=starts),
                      P('z')])
    if how == 'paras':
        return check([doc.secpara()] + [P('x', make(k)) for k in toks])
    if how == 'inner':
        # containers of many paragraphs with further controls
        c = container(case['k'], [P('p', make('TFA'[i % 3]))
                                  for i in range(n)])
        return check([doc.secpara(), P('a', c, 'b'), P('z')])
    if how == 'deep':
        paras = [P('deep')]
        for i in range(n):
            paras = [P('x', container(case['k'][i % len(case['k'])], paras),
                       'y')]
        return check([doc.secpara()] + paras)
    if how == 'sections':
        return check([p for i in range(n)
                      for p in (doc.secpara(['s%d' % i]), P('t'))])
    if how == 'shapes':
        comp = [N('ShapeComponent', chid='$rec', scalerotations_count=1,
                  children=[N('TextboxParagraphList', paragraphs=1), P('q'),
                            N('ShapeRectangle')]) for _ in range(n)]
        g = doc.textbox(None, '$con', None, inner=[
            N('ShapeContainer', raw=struct.pack('<H', n) +
              b'$rec'[::-1] * n)] + comp)
        return check([doc.secpara(), P('a', g), P('z')])
    r, p = {'rows': ([1] * n, 1), 'cols': ([n], 1), 'cells': ([7, n, 0, 2], 1),
            'cellparas': ([1, 2], n),
            'zero': ([0] * n + [2] + [0] * n + [1], 1)}[how]
    return check([doc.secpara(['a', maketable(r, sum(r), p), 'b']), P('z')])


# ---- boundaries of sections and columns

def boundary_cases(tier):
    q = tier == 'quick'
    for secdef in ('none', 'start', 'mid', 'end', 'second'):
        for splits in itertools.product((0, 1, 2, 3, 4, 8),
                                        repeat=3 if q else 4):
            yield {'s': secdef, 'p': list(splits), 'in': 0}
    for splits in itertools.product((0, 2, 6), repeat=3):
        for kind in 'TGFHC':
            yield {'s': 'start', 'p': list(splits), 'in': kind}
    # much before the section definition, one or two of them
    for n in (3, 7, 8, 9, 17, 33, 65, 100):
        for what in ('paras', 'text', 'T', 'F', 'in'):
            for two in (0, 1):
                yield {'s': 'late', 'p': [n], 'in': 0, 'w': what, '2': two}
    for idx in (0, 1, 7, None):
        yield {'s': 'start', 'p': [3, 0, 0], 'in': 0, 'idx': idx}


def late(case):
    n, what = case['p'][0], case['w']
    if what == 'paras':
        nodes = [P('p%d' % i, split=4 * (i % 2)) for i in range(n)]
        nodes.append(P('x', doc.secd(), 'y'))
    elif what == 'text':
        nodes = [P(*(['a', 10, '\uac00', 31] * n + [doc.secd(), 'y']))]
    elif what == 'in':
        nodes = [P('a', container('T', [P('c%d' % i) for i in range(n)]),
                   doc.secd(), 'y')]
    else:
        nodes = [P(*([make(what), 'k'] * n + [doc.secd(), 'y']))]
    if case['2']:
        nodes += [P('z', doc.secd(), 'w'), P(doc.secd())]
    return nodes + [P('end')]


def boundary_run(case):
    if case['s'] == 'late':
        return check(late(case))
    paras = []
    for i, sp in enumerate(case['p']):
        toks = ['p%d' % i]
        if case['in']:
            pass
        elif case['s'] == ['start', 'second'][min(i, 1)] and i < 2:
            toks[:0] = [doc.secd(), doc.cold()]
        elif case['s'] == 'mid' and i == 0:
            toks[:] = ['p', doc.secd(), 'q', doc.cold()]
        elif case['s'] == 'end' and i == 0:
            toks += [doc.secd()]
        paras.append(P(*toks, split=sp))
    if case['in']:
        c = container(case['in'], paras)
        nodes = [doc.secpara(), P('a', c, 'b'), P('z', split=2)]
    else:
        nodes = paras + [P('T', make('T'))]
    kw = {}
    if 'idx' in case:
        kw['idx'] = case['idx']
    data = check(nodes, **kw)
    if 'idx' in case:
        root = doc.parse_xml(data)
        expect_equal(root.get('section-id'),
                     None if case['idx'] is None else str(case['idx']),
                     'section id')
    return data


# ---- documents: every section once, in order

def doc_cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for order in itertools.permutations(range(k)):
            yield {'n': k, 'o': list(order)}
    yield {'n': 12, 'o': list(range(12))}
    yield {'n': 12, 'o': list(reversed(range(12)))}
    # names sorted like text: 0 1 10 11 2 3 ...
    yield {'n': 12, 'o': sorted(range(12), key=str)}
    yield {'n': 103, 'o': sorted(range(103), key=str)}


def doc_run(case):
    from hwp5.xmlmodel import Hwp5File
    sections = []
    nodes = []
    for i in range(case['n']):
        s = [doc.secpara(['sec%d' % i, make('T')]), P('x', make('G'))]
        nodes.append(s)
    allnodes = [n for s in nodes for n in s]
    skeleton.number(allnodes)
    for s in nodes:
        sections.append(doc.stream(s, (5, 0, 1, 7)))
    t = hwp.tree(docinfo_bytes=hwp.docinfo(sections=case['n']),
                 sections=sections)
    t['BodyText'] = dict(('Section%d' % i, sections[i]) for i in case['o'])
    t[hwp.SUMMARY] = hwp.summaryinfo()
    f = Hwp5File(hwp.Storage(t))
    data = b''.join(f.xmlevents().bytechunks())
    root = doc.parse_xml(data)
    expect_equal(root.tag, 'HwpDoc', 'root element')
    expect_equal([e.tag for e in root],
                 ['HwpSummaryInfo', 'DocInfo', 'BodyText'], 'parts')
    got = [skeleton.observed(e) for e in root[2]]
    want = [x for s in nodes for x in skeleton.expected(s)]
    d = skeleton.first_difference(['', None, got], ['', None, want])
    if d:
        raise Violation(d)
    expect_equal([e.get('section-id') for e in root[2]],
                 [str(i) for i in range(case['n'])], 'section ids')
    # the same through each view of the body
    for how in ('bodytext', 'section'):
        if how == 'bodytext':
            x = doc.parse_xml(f.bodytext.xmlevents().open().read())
            expect_equal([skeleton.observed(e) for e in x], got, how)
        else:
            xs = [doc.parse_xml(f.bodytext['Section%d.xml' % i].open().read()
                                if False else
                                f.bodytext.section(i).xmlevents().open()
                                .read()) for i in range(case['n'])]
            expect_equal([skeleton.observed(x) for x in xs], got, how)
    return len(got)


FAMILIES = [
    Family('inline', inline_cases, inline_run),
    Family('lines', line_cases, line_run),
    Family('tables', table_cases, table_run),
    Family('innertables', innertable_cases, innertable_run),
    Family('nesting', nest_cases, nest_run),
    Family('boundaries', boundary_cases, boundary_run),
    Family('many', many_cases, many_run, limit=120),
    Family('documents', doc_cases, doc_run),
]
