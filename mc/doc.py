# -*- coding: utf-8 -*-
"""Trees of typed records -> record streams + the models they denote."""
from mc import layout
from mc import rec

# resolved types which are not record types of their own
OPAQUE = 'Opaque'


class N(object):
    """one record: resolved type, member values, children, extra bytes"""

    def __init__(self, model, values=None, children=(), extra=b'', raw=None,
                 tag=None, **kw):
        self.model = model
        self.values = dict(values or {}, **kw)
        self.children = list(children)
        self.extra = extra
        self.raw = raw          # payload override
        self.tag = tag

    def __repr__(self):
        return 'N(%s, %r, %r)' % (self.model, self.values, self.children)


class Encoded(object):
    def __init__(self, node, level, tag, payload, content, parent, seqno):
        self.node = node
        self.level = level
        self.tag = tag
        self.payload = payload
        self.content = content
        self.parent = parent
        self.seqno = seqno


def encode(nodes, version, level=0):
    """-> list of Encoded in stream order"""
    out = []

    def add(node, level, parent):
        ctx = layout.Ctx(version, parent.node.model if parent else None,
                         parent.content if parent else None)
        if node.raw is not None:
            payload, content = node.raw, None
            tag = node.tag if node.tag is not None else \
                layout.tag_of(node.model)
        else:
            payload, content = layout.encode_record(node.model, node.values,
                                                    ctx)
            tag = layout.tag_of(node.model)
        e = Encoded(node, level, tag, payload + node.extra, content, parent,
                    len(out))
        out.append(e)
        for c in node.children:
            add(c, level + 1, e)
    for n in nodes:
        add(n, level, None)
    return out


def stream(nodes, version, level=0):
    return rec.encode((e.tag, e.level, e.payload)
                      for e in encode(nodes, version, level))


def plain(x):
    """decoded values -> comparable plain values"""
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return int(x)
    return x


# ---- paragraphs, sections, documents ----

import struct  # noqa: E402
import xml.etree.ElementTree as ET  # noqa: E402

# control character code for each control
CODE_OF = {'SectionDef': 2, 'ColumnsDef': 2, 'TableControl': 0x0b,
           'GShapeObjectControl': 0x0b, 'HiddenComment': 0x0f,
           'Header': 0x10, 'Footer': 0x10, 'FootNote': 0x11,
           'EndNote': 0x11, 'AutoNumbering': 0x12, 'NewNumbering': 0x15,
           'PageHide': 0x15, 'PageOddEven': 0x15, 'PageNumberPosition': 0x15,
           'IndexMarker': 0x16, 'BookmarkControl': 0x16, 'TCPSControl': 0x17,
           'Dutmal': 0x17}
FIELD_END = 0x04


def code_of(model):
    if model.startswith('Field'):
        return 3
    if model == 'Control':
        return 3
    return CODE_OF[model]


def wide(code, chid='\0\0\0\0', param=b'\0' * 8):
    c = struct.pack('<H', code)
    return c + chid.encode('latin1')[::-1] + param + c


def tokens_payload(tokens):
    """tokens: str (text), int (one-unit control), ('end',) field end,
    N (extended control), ('w', code) inline control -> payload bytes"""
    out = b''
    for t in tokens:
        if isinstance(t, str):
            out += t.encode('utf-16le', 'surrogatepass')
        elif isinstance(t, int):
            out += struct.pack('<H', t)
        elif isinstance(t, N):
            out += wide(code_of(t.model), layout.CHID_OF.get(t.model) or
                        t.values['chid'])
        elif t[0] == 'end':
            out += wide(FIELD_END, '%clk')
        elif t[0] == 'w':
            out += wide(t[1])
        else:
            raise KeyError(t)
    return out


def token_units(t):
    if isinstance(t, str):
        return len(t.encode('utf-16le', 'surrogatepass')) // 2
    if isinstance(t, int):
        return 1
    return 8


def para(tokens=(), shapes=((0, 0),), lines=(0,), text=True, split=0,
         parashape=0, style=0, extra_children=(), lineseg=True, **kw):
    """a paragraph with its text, shapes, lines and controls

    lines: list of character positions; the k-th line has y == 1000 * k
    """
    tokens = list(tokens)
    payload = tokens_payload(tokens)
    kids = []
    if payload or (text and tokens):
        kids.append(N('ParaText', raw=payload))
    kids.append(N('ParaCharShape', charshapes=[list(s) for s in shapes]))
    if lineseg:
        kids.append(N('ParaLineSeg', linesegs=[
            {'chpos': p, 'y': 1000 * k, 'width': 42000, 'height': 1000}
            for k, p in enumerate(lines)]))
    for t in tokens:
        if isinstance(t, N):
            kids.append(t)
    kids.extend(extra_children)
    n = N('Paragraph', children=kids,
          text=len(payload) // 2 | 0x80000000,
          charshapes=len(shapes), linesegs=len(lines) if lineseg else 0,
          parashape_id=parashape, style_id=style, split=split, **kw)
    n.tokens = tokens
    n.lines = tuple(lines) if lineseg else (0,)
    return n


def secd(**kw):
    kids = [N('PageDef', width=59528, height=84188, left_offset=8504,
              right_offset=8504, top_offset=5668, bottom_offset=4252,
              header_offset=4252, footer_offset=4252),
            N('FootnoteShape'), N('FootnoteShape'),
            N('PageBorderFill', borderfill_id=1),
            N('PageBorderFill', borderfill_id=1),
            N('PageBorderFill', borderfill_id=1)]
    return N('SectionDef', children=kids, **kw)


def cold(n=1, **kw):
    return N('ColumnsDef', flags=n << 2 | 1 << 12, spacing=0, **kw)


def secpara(tokens=(), **kw):
    """first paragraph of a section"""
    kw.setdefault('split', 3)
    return para([secd(), cold()] + list(tokens) + [13], **kw)


def cell(paras, col=0, row=0, colspan=1, rowspan=1, **kw):
    kw.setdefault('borderfill_id', 1)
    kw.setdefault('width', 5000)
    kw.setdefault('height', 1000)
    return [N('TableCell', paragraphs=len(paras), col=col, row=row,
              colspan=colspan, rowspan=rowspan, **kw)] + list(paras)


def table(rows, caption=None, cols=None, **kw):
    """rows: list of rows, each a list of cells, each a list of paragraphs
    or a dict(paras=..., colspan=...)"""
    kids = []
    if caption is not None:
        kids.append(N('TableCaption', paragraphs=len(caption), width=1000,
                      max_width=1000))
        kids.extend(caption)
    ncols = cols if cols is not None else max([len(r) for r in rows] + [1])
    kids.append(N('TableBody', rows=len(rows), cols=ncols,
                  rowcols=[len(r) for r in rows], borderfill_id=1,
                  validZones=[]))
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            if isinstance(c, dict):
                c = dict(c)
                kids.extend(cell(c.pop('paras'), **dict(
                    dict(col=j, row=i), **c)))
            else:
                kids.extend(cell(c, j, i))
    return N('TableControl', children=kids, width=42000, height=2000,
             flags=kw.pop('flags', 0x082a2211 | 1), **kw)


def note(model, paras):
    return N(model, children=[N('ListHeader', paragraphs=len(paras))] +
             list(paras))


def header(model, paras):
    lm = {'Header': 'HeaderParagraphList',
          'Footer': 'FooterParagraphList'}[model]
    return N(model, children=[N(lm, paragraphs=len(paras), width=40000,
                                height=4000)] + list(paras))


def textbox(paras=None, chid='$rec', shape='ShapeRectangle', inner=(), **kw):
    kids = []
    comp = N('ShapeComponent', chid0=chid, chid=chid, width=5000, height=5000,
             initial_width=5000, initial_height=5000,
             scalerotations_count=1, **kw)
    if paras is not None:
        comp.children.append(N('TextboxParagraphList', paragraphs=len(paras),
                               maxwidth=4000))
        comp.children.extend(paras)
    comp.children.extend(inner)
    if shape:
        comp.children.append(N(shape))
    kids.append(comp)
    return N('GShapeObjectControl', children=kids, width=5000, height=5000,
             flags=0x046a4000 | 1)


def picture(bindata_id, **kw):
    comp = N('ShapeComponent', chid0='$pic', chid='$pic', width=5000,
             height=5000, initial_width=5000, initial_height=5000,
             scalerotations_count=1, children=[
                 N('ShapePicture', picture={'bindata_id': bindata_id},
                   **kw)])
    return N('GShapeObjectControl', children=[comp], width=5000,
             height=5000, flags=0x046a4000 | 1)


class _Open(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        import io
        return io.BytesIO(self.data)


def section_xml(nodes, version=(5, 0, 1, 7), idx=0, **kw):
    """-> bytes of the XML of one section through the real code"""
    from hwp5.xmlmodel import Section
    data = stream(nodes, version)
    s = Section(_Open(data), tuple(version))
    return b''.join(s.xmlevents(section_idx=idx, **kw).bytechunks())


def parse_xml(data, what='XML'):
    from mc.core import Violation
    try:
        return ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation('%s is not well-formed: %s\n%r'
                        % (what, e, data[:3000]))
