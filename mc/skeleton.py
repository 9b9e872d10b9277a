# -*- coding: utf-8 -*-
"""Expected structure of the XML of a section, from the record tree alone.

A skeleton is [name, key, children]; text is ['#text', str, None] and a
control character ['#ctrl', code, None].
"""
from mc import doc
from mc import layout
from mc.doc import N

NOT_RECORDS = ('LineSeg', 'Text', 'ControlChar', 'ColumnSet', 'TableRow',
               'BodyText')


def is_field(model):
    return 'Field' in layout.bases(model)


def is_list(model):
    return model == 'ListHeader' or 'ListHeader' in layout.bases(model)


def is_control(model):
    return model in layout.CHID_OF or model == 'Control'


# member (and XML attribute) which identifies a record of a type
def key_of(model):
    b = layout.bases(model)
    if 'CommonControl' in b:
        return 'instance_id'
    if 'Note' in b or 'NumberingControl' in b:
        return 'number'
    if 'Field' in b:
        return 'id'
    if model == 'TableCell' or model == 'ShapeComponent':
        return 'width'
    if model == 'Paragraph':
        return 'parashape_id'
    return None


def number(nodes, counter=None):
    """give every record which can carry one a distinct key"""
    if counter is None:
        counter = [0]
    for n in nodes:
        k = key_of(n.model)
        if k:
            counter[0] += 1
            n.values[k] = counter[0]
        number(n.children, counter)
    return nodes


class Fields(object):
    """the open fields of one text"""
    def __init__(self):
        self.open = []


def skel(model, key, children):
    return [model, key, children]


def expected(nodes):
    """records of a section -> list of skeletons at the top"""
    nodes = list(nodes)
    found = []
    secdef = [None]

    def first_sectiondef(ns):
        for n in ns:
            if n.model == 'SectionDef' and secdef[0] is None:
                secdef[0] = n
            first_sectiondef(n.children)
    first_sectiondef(nodes)
    body = siblings(nodes, Fields(), secdef[0])
    if secdef[0] is not None:
        n = secdef[0]
        return [skel('SectionDef', None,
                     siblings(n.children, Fields(), None) + body)]
    return body


def siblings(nodes, fields, secdef):
    """children of one element: lists take their paragraphs, table bodies
    their cells, new columns the paragraphs after them"""
    out = []
    i = 0
    nodes = list(nodes)
    while i < len(nodes):
        n = nodes[i]
        i += 1
        if n.model == 'TableBody':
            own = []
            while i < len(nodes) and nodes[i].model in ('TableCell',
                                                        'Paragraph'):
                own.append(nodes[i])
                i += 1
            out.append(tablebody(n, own, secdef))
        elif is_list(n.model):
            own = []
            while i < len(nodes) and nodes[i].model == 'Paragraph':
                own.append(nodes[i])
                i += 1
            out.append(element(n, n.children + own, Fields(), secdef))
        elif n.model == 'Paragraph':
            out.append((n, paragraph(n, fields, secdef)))
        elif n is secdef:
            pass
        else:
            out.append(element(n, n.children, Fields(), secdef))
    # columns
    res = []
    cur = res
    for x in out:
        if isinstance(x, tuple):
            n, x = x
            if n.values.get('split', 0) & 2:
                cols = skel('ColumnSet', None, [])
                res.append(cols)
                cur = cols[2]
        cur.append(x)
    return res


def element(n, children, fields, secdef):
    k = key_of(n.model)
    return skel(n.model, n.values.get(k) if k else None,
                siblings(children, fields, secdef))


def tablebody(n, own, secdef):
    cells = []
    for c in own:
        if c.model == 'TableCell':
            cells.append((c, []))
        else:
            cells[-1][1].append(c)
    rows = []
    for size in n.values['rowcols']:
        row = []
        while cells and len(row) < size:
            c, paras = cells.pop(0)
            row.append(element(c, c.children + paras, Fields(), secdef))
        rows.append(skel('TableRow', None, row))
    assert not cells
    return skel('TableBody', None, siblings(n.children, Fields(), secdef) +
                rows)


def paragraph(n, fields, secdef):
    tokens = n.tokens
    lines = n.lines
    controls = [c for c in n.children if is_control(c.model)]
    out = []
    for c in n.children:
        if c.model in ('ParaText', 'ParaCharShape', 'ParaLineSeg',
                       'ParaRangeTag') or is_control(c.model):
            continue
        raise AssertionError(c.model)
    pos = 0
    cur = None
    line = None

    def add(x, units):
        nonlocal line, cur, pos
        l = len([p for p in lines if p <= pos]) - 1
        if l != line:
            line = l
            top = skel('LineSeg', l, [])
            out.append(top)
            cur = [top]
            for f in fields.open:
                if f is not None:
                    e = skel(f.model, f.values.get('id'), [])
                    cur[-1][2].append(e)
                    cur.append(e)
        pos += units
        if x is None:
            return
        kids = cur[-1][2]
        if x[0] == '#text' and kids and kids[-1][0] == '#text':
            kids[-1][1] += x[1]
        else:
            kids.append(x)

    for t in tokens:
        if isinstance(t, str):
            for ch in t:
                add(['#text', ch, None], doc.token_units(ch))
        elif isinstance(t, int):
            add(['#ctrl', t, None], 1)
        elif isinstance(t, N):
            assert controls.pop(0) is t
            if t is secdef:
                add(None, 8)
                continue
            if is_field(t.model):
                e = skel(t.model, t.values.get('id'),
                         siblings(t.children, Fields(), secdef))
                add(e, 8)
                fields.open.append(t)
                cur.append(e)
            else:
                add(element(t, t.children, Fields(), secdef), 8)
                if t.model == 'Control' and \
                        t.values['chid'].startswith('%'):
                    fields.open.append(None)
        elif t[0] == 'end':
            add(None, 8)
            if fields.open:
                f = fields.open.pop()
                if f is not None:
                    cur.pop()
        else:
            add(['#ctrl', t[1], None], 8)
    assert not controls
    return skel('Paragraph', n.values.get('parashape_id'), prune(out))


def has_content(s):
    return any(c[0].startswith('#') or c[0] not in FIELDS or c[2] or
               has_content(c) for c in s[2])


FIELDS = set(m for m in layout.CHID_OF if is_field(m))


def prune(lines):
    """lines which hold nothing are not significant"""
    return [l for l in lines if l[2]]


NAMES = set(layout.TAGS.values()) | set(layout.CHID_OF) | \
    set(layout.LISTS.values()) | set(layout.CTRLDATA.values()) | \
    set(NOT_RECORDS) - {'Control'} | {'Control', 'ListHeader'}
# members of records which are named like records
MEMBERS = set()


def observed(e):
    """ElementTree element -> skeleton"""
    k = key_of(e.tag)
    key = None
    if k:
        v = e.get(k.replace('_', '-'))
        key = None if v is None else int(v)
    if e.tag == 'LineSeg':
        key = int(e.get('y')) // 1000
    kids = []
    for c in e:
        if c.tag == 'Text':
            if kids and kids[-1][0] == '#text':
                kids[-1][1] += c.text or ''
            else:
                kids.append(['#text', c.text or '', None])
        elif c.tag == 'ControlChar':
            kids.append(['#ctrl', int(c.get('code')), None])
        elif c.get('attribute-name') is not None or c.tag not in NAMES:
            continue
        else:
            kids.append(observed(c))
    if e.tag == 'Paragraph':
        kids = prune(kids)
    return [e.tag, key, kids]


def show(s, depth=0):
    out = []
    if s[0].startswith('#'):
        return '%s%s %r\n' % ('  ' * depth, s[0], s[1])
    out.append('%s%s %s\n' % ('  ' * depth, s[0],
                              '' if s[1] is None else s[1]))
    for c in s[2]:
        out.append(show(c, depth + 1))
    return ''.join(out)


def first_difference(a, b, path=''):
    here = path + '/' + a[0]
    if a[0] != b[0]:
        return '%s: got <%s>, expected <%s>' % (path, a[0], b[0])
    if a[1] != b[1]:
        return '%s: got %r, expected %r' % (here, a[1], b[1])
    if a[2] is None:
        return None
    for i, (x, y) in enumerate(zip(a[2], b[2])):
        d = first_difference(x, y, '%s[%d]' % (here, i))
        if d:
            return d
    if len(a[2]) != len(b[2]):
        extra = (a[2] + b[2])[min(len(a[2]), len(b[2])):]
        return '%s: %d children, expected %d' % (here, len(a[2]), len(b[2]))
    return None
