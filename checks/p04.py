# -*- coding: utf-8 -*-
"""P04 record payloads vs an independent description of their layout."""
import io
import itertools

from mc import doc
from mc import layout
from mc import rec
from mc.core import Family, TRIVIAL, Violation, expect, expect_equal
from mc.doc import N

from hwp5.binmodel import ModelStream
from hwp5.dataio import ParseError
from hwp5.storage import Open2Stream

PROPERTY = 'P04'
LEVEL = 'exploration'
RULE = ('a case is one record type, format version and assignment of its '
        'flags, counts and values (or one truncation of its payload); '
        'non-trivial when the payload has at least one member')
ASSUMPTIONS = ['the layout tables in mc/layout.py are the reference',
               'leaf values are explored one at a time over a distinctive '
               'background; flag combinations that make members optional '
               'are explored exhaustively']

# where a record of each type lives: chain of ancestors, elder siblings
HOST = {
    'ParaText': ['Paragraph'], 'ParaCharShape': ['Paragraph'],
    'ParaLineSeg': ['Paragraph'], 'ParaRangeTag': ['Paragraph'],
    'TableCaption': ['Paragraph', 'TableControl'],
    'TableCell': ['Paragraph', 'TableControl', '+TableBody'],
    'TableBody': ['Paragraph', 'TableControl'],
    'GShapeObjectCaption': ['Paragraph', 'GShapeObjectControl'],
    'TextboxParagraphList': ['Paragraph', 'GShapeObjectControl',
                             'ShapeComponent'],
    'HeaderParagraphList': ['Paragraph', 'Header'],
    'FooterParagraphList': ['Paragraph', 'Footer'],
    'ListHeader': ['Paragraph', 'FootNote'],
    'ShapeComponent': ['Paragraph', 'GShapeObjectControl'],
    'BookmarkControlData': ['Paragraph', 'BookmarkControl'],
    'SectionDefData': ['Paragraph', 'SectionDef'],
    'FieldClickHereData': ['Paragraph', 'FieldClickHere'],
    'ControlData': ['Paragraph', 'TableControl'],
    'PageDef': ['Paragraph', 'SectionDef'],
    'FootnoteShape': ['Paragraph', 'SectionDef'],
    'PageBorderFill': ['Paragraph', 'SectionDef'],
}
for _m in ('ShapeLine', 'ShapeRectangle', 'ShapeEllipse', 'ShapeArc',
           'ShapePolygon', 'ShapeCurve', 'ShapeOLE', 'ShapePicture',
           'ShapeContainer'):
    HOST[_m] = ['Paragraph', 'GShapeObjectControl', 'ShapeComponent']

ABSTRACT = ('CommonControl', 'Field', 'Note', 'HeaderFooter',
            'NumberingControl', 'HeaderFooterParagraphList')


def models():
    out = []
    for m in list(layout.TAGS.values()) + sorted(layout.CONTROLS.values()) \
            + list(layout.LISTS.values()) + list(layout.CTRLDATA.values()):
        if m in ABSTRACT or m in out:
            continue
        out.append(m)
    return out


def host(model):
    if model in layout.CONTROLS.values():
        return ['Paragraph']
    return HOST.get(model, [])


RANGES = {'u8': (0, 255, 128), 'i8': (-128, 127, -1), 'u16': (0, 65535, 32768),
          'i16': (-32768, 32767, -1), 'u32': (0, 2**32 - 1, 2**31),
          'i32': (-2**31, 2**31 - 1, -1)}
STRINGS = ['', 'x', '\uac00\u0000z', 'a<&>"\U0001f600\ue000', 'y' * 300]


class Fill(object):
    """distinctive values for every leaf; one leaf may be overridden"""

    def __init__(self, override=None, counts=2):
        self.k = 0
        self.override = override    # (leaf index, choice)
        self.leaves = []
        self.counts = counts

    def leaf(self, t):
        i = self.k
        self.k += 1
        self.leaves.append(t)
        if self.override and self.override[0] == i:
            c = self.override[1]
            if t == 'f64':
                return [0.0, -1.5, 1e300][c % 3]
            if t == 'bstr':
                # a case about lengths names the length itself
                return STRINGS[c] if c < len(STRINGS) else \
                    '\uac00' + 'z' * (c - 1)
            if t == 'chid':
                return ['\0\0\0\0', '\xff\xfe\x80\x01', 'abcd'][c % 3]
            if isinstance(t, tuple):     # hex
                return bytes([c * 17 & 255]) * t[1]
            return RANGES[t][c % 3]
        if t == 'f64':
            return 1.0 + i / 8.0
        if t == 'bstr':
            return 's%d\uac01' % i
        if t == 'chid':
            return 'c%03d' % (i % 1000)
        if isinstance(t, tuple):
            return bytes((i * 29 + j * 7) & 255 for j in range(t[1]))
        w = {'8': 0x7f, '6': 0x7fff, '2': 0x7fffffff}[t[-1]]
        return (0x01020304 * (i + 3) + i) & w

    def value(self, t, ctx, v, given=None):
        if isinstance(t, str):
            if given is not None:
                self.k += 1
                self.leaves.append(None)
                return given
            return self.leaf(t)
        k = t[0]
        if k == 'hex':
            return self.leaf(t)
        if k == 'flags':
            if given is not None:
                self.k += 1
                self.leaves.append(None)
                return given
            return self.leaf(t[1])
        if k == 'struct':
            vv = {}
            return self.struct(layout.STRUCTS[t[1]], ctx, {}, vv)
        if k == 'arr':
            return [self.value(t[2], ctx, v) for _ in range(t[1])]
        if k == 'narr':
            return [self.value(t[2], ctx, v) for _ in range(self.counts)]
        if k == 'xarr':
            n = max(ctx.ev(t[1], v), 0)
            return [self.value(t[2], ctx, v) for _ in range(n)]
        if k == 'select':
            key = ctx.ev(t[1], v)
            if key in t[2]:
                return self.value(t[2][key], ctx, v)
            return None
        raise KeyError(t)

    def struct(self, ms, ctx, fixed, v):
        out = {}
        for m in ms:
            gate = m[2] if len(m) > 2 else None
            cond = m[3] if len(m) > 3 else None
            if gate and ctx.version < gate:
                continue
            if cond and not ctx.ev(cond, v):
                continue
            x = self.value(m[1], ctx, v, fixed.get(m[0]))
            if x is None:
                continue
            out[m[0]] = v[m[0]] = x
        return out


def steering(model):
    """every combination of the values deciding about optional members"""
    c = layout.CHID_OF.get(model)
    base = {'chid': c} if c else {}
    if model == 'BinData':
        return [{'flags': f | g} for f in (0, 1, 2, 3, 15)
                for g in (0, 0x10, 0x130, 0xfff0)]
    if model == 'FaceName':
        return [{'flags': f << 5 | g} for f in range(8) for g in (0, 0x1f)]
    if model == 'BorderFill':
        return [{'fillflags': f | g} for f in range(8) for g in (0, ~7 & 0xffffffff)]
    if model == 'ShapeComponent':
        out = []
        for chid in ('$rec', '$lin', '$con', '$pic', '$ell', 'zzzz'):
            for n in (0, 1, 3):
                for f in (range(8) if chid == '$rec' else (0, 7)):
                    out.append({'chid': chid, 'chid0': '$rec',
                                'scalerotations_count': n,
                                'fill_flags': f << 8 | (0xf8ff if f == 5
                                                        else 0)})
        return out
    if model == 'ColumnsDef':
        return [dict(base, flags=n << 2 | same << 12 | g)
                for n in (0, 1, 2, 5, 255) for same in (0, 1)
                for g in (0, 0xec03)]
    if model == 'TableBody':
        return [dict(rows=n) for n in (0, 1, 2, 7)]
    return [base]


PARACOUNTS = (0, 1, 2, 7, 300)


def encode(case):
    """-> (records, target index, payload, content)"""
    version = tuple(case['version'])
    model = case['model']
    chain = list(case.get('host') or host(model))
    nodes = []
    parent = None
    pv = None
    records = []
    level = 0
    for h in chain:
        sib = h.startswith('+')
        h = h.lstrip('+')
        ctx = layout.Ctx(version, parent, pv)
        vals = {}
        if h == 'Paragraph':
            n = case.get('n', 2)
            vals = {'charshapes': n, 'linesegs': n, 'rangetags': n}
            for k, x in (case.get('pcounts') or {}).items():
                vals[k] = x
        payload, content = layout.encode_record(h, vals, ctx)
        records.append((layout.tag_of(h), level, payload))
        if not sib:
            parent, pv = h, content
            level += 1
    ctx = layout.Ctx(version, parent, pv)
    fill = Fill(case.get('override'), case.get('count', 2))
    values = {}
    for b in layout.bases(model):
        v = {}
        values.update(fill.struct(layout.STRUCTS[b], ctx,
                                  case.get('fixed') or {}, v))
    payload, content = layout.encode_record(model, values, ctx)
    return records, (layout.tag_of(model), level), payload, content, fill


def parse(records, version):
    data = rec.encode(records)
    s = ModelStream(Open2Stream(lambda: io.BytesIO(data)), tuple(version))
    return list(s.models())


def check_flags(t, got, path):
    """bit fields of every flags member inside got"""
    if isinstance(t, str):
        return
    k = t[0]
    if k == 'flags':
        raw = int(got)
        for name, lsb, msb, enum in t[2]:
            want = raw >> lsb & ((1 << (msb + 1 - lsb)) - 1)
            x = getattr(got, name)
            expect(int(x) == want, '%s.%s of %#x is %r, expected %d'
                   % (path, name, raw, x, want))
            if enum:
                nm = getattr(x, 'name', None)
                expect(nm == enum.get(want), '%s.%s of %#x is named %r, '
                       'expected %r' % (path, name, raw, nm, enum.get(want)))
        d = got.dictvalue()
        expect_equal(dict((a, int(b)) for a, b in d.items()),
                     dict((n, raw >> l & ((1 << (m + 1 - l)) - 1))
                          for n, l, m, _ in t[2]), path + ' as a dict')
    elif k == 'struct':
        check_struct(layout.STRUCTS[t[1]], got, path)
    elif k in ('arr', 'narr', 'xarr'):
        for x in got:
            check_flags(t[2], x, path + '[]')


def check_struct(ms, got, path):
    for m in ms:
        if m[0] in got:
            if m[1][0] == 'select':
                continue
            check_flags(m[1], got[m[0]], path + '.' + m[0])


def compare(model, m, content, payload):
    expect_equal(m['type'].__name__, model, 'resolved type')
    got = doc.plain(m['content'])
    expect_equal(sorted(got), sorted(content), '%s members' % model)
    expect_equal(got, doc.plain(content), '%s values' % model)
    expect_equal(list(got), list(content), '%s member order' % model)
    check_struct(layout.members(model), m['content'], model)
    expect_equal(m['payload'], payload, 'payload kept with the model')


def layout_run(case):
    recs, (tag, level), payload, content, fill = encode(case)
    extra = bytes(case.get('extra') or ())
    ms = parse(recs + [(tag, level, payload + extra)], case['version'])
    m = ms[-1]
    if case['model'] == 'ParaText':
        return TRIVIAL
    if not layout.bases(case['model']):
        # no layout defined: everything is an unparsed remainder
        compare(case['model'], m, {}, payload + extra)
    else:
        compare(case['model'], m, content, payload + extra)
    expect_equal(m.get('unparsed', b''), extra, 'unparsed remainder of %s'
                 % case['model'])
    if not payload and not extra:
        return TRIVIAL
    return repr(content)


def all_settings(tier):
    for model in models():
        if model == 'ParaText':
            continue
        for fixed in steering(model):
            case = {'model': model, 'fixed': fixed}
            if model in ('ParaCharShape', 'ParaLineSeg', 'ParaRangeTag'):
                for n in PARACOUNTS:
                    yield dict(case, n=n)
            elif model in ('BorderFill', 'ShapeComponent', 'TabDef',
                           'ShapePolygon', 'ShapeCurve', 'TableBody'):
                for c in (0, 1, 3):
                    yield dict(case, count=c)
            else:
                yield case


def layout_cases(tier):
    vs = [list(v) for v in layout.versions()]
    for s in all_settings(tier):
        for v in vs:
            yield dict(s, version=v)
            for x in ([0], [0xff] * 5):
                yield dict(s, version=v, extra=x)


def value_cases(tier):
    """each leaf in turn at its extreme values"""
    q = tier == 'quick'
    vs = ((5, 0, 0, 0), (5, 0, 1, 7), (5, 0, 3, 4)) if q \
        else layout.versions()
    for s in all_settings(tier):
        if s.get('n', 0) > 7:
            continue
        for v in vs:
            c = dict(s, version=list(v))
            n = encode(c)[4].k
            leaves = encode(c)[4].leaves
            for i in range(n):
                if leaves[i] is None:
                    continue
                if q and n > 40 and i % 3:
                    continue
                for ch in range(len(STRINGS) if leaves[i] == 'bstr' else 3):
                    yield dict(c, override=[i, ch])


LENGTHS = (255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xffff)


def large_cases(tier):
    """long strings and long arrays, at the limits of their counts"""
    v = [5, 0, 3, 4]
    for s in all_settings('quick'):
        if s.get('n', 0) > 2 or s.get('count', 1) > 1:
            continue
        c = dict(s, version=v)
        for i, t in enumerate(encode(c)[4].leaves):
            if t == 'bstr':
                for n in LENGTHS:
                    yield dict(c, override=[i, n])
    for m in ('ParaCharShape', 'ParaLineSeg', 'ParaRangeTag'):
        for n in (255, 256, 257, 3000) + \
                ((0x7fff, 0x8000, 0xffff) if m != 'ParaLineSeg' else ()):
            yield {'model': m, 'fixed': {}, 'version': v, 'n': n}
    for m in ('TabDef', 'ShapePolygon', 'ShapeCurve'):
        for n in (127, 128, 255, 256, 257, 3000):
            yield {'model': m, 'fixed': {}, 'version': v, 'count': n}
    for n in (255, 256, 257, 3000, 0x8000, 0xffff):
        yield {'model': 'TableBody', 'fixed': {'rows': n}, 'version': v}
    for n in (255, 256, 257, 1000):
        yield {'model': 'TableBody', 'fixed': {'rows': 2}, 'version': v,
               'count': n}
        yield {'model': 'ShapeComponent', 'version': v,
               'fixed': {'chid': '$rec', 'chid0': '$rec', 'fill_flags': 7,
                         'scalerotations_count': n}}
        yield {'model': 'ShapeComponent', 'version': v, 'count': n,
               'fixed': {'chid': '$rec', 'chid0': '$rec', 'fill_flags': 0x400,
                         'scalerotations_count': 1}}
        yield {'model': 'BorderFill', 'version': v, 'count': n,
               'fixed': {'fillflags': 4}}
    # the payload of one record needs more than 12 bits, more than 16
    for n in (4000, 4094, 4095, 4096, 65535, 65536, 100000):
        yield {'model': 'DocData', 'fixed': {}, 'version': v, 'long': n}


def large_run(case):
    case = dict(case)
    if 'long' in case:
        case['extra'] = [i & 255 for i in range(case['long'])]
    return layout_run(case)


def truncate(case):
    """the payload ends early: never decoded to made-up values"""
    recs, (tag, level), payload, content, fill = encode(case)
    if not payload:
        return TRIVIAL
    cuts = case.get('cuts') or range(len(payload))
    n = 0
    for cut in cuts:
        try:
            ms = parse(recs + [(tag, level, payload[:cut])], case['version'])
        except ParseError as e:
            seq = e.record['seqno'] if e.record else None
            expect_equal(seq, len(recs), 'record blamed for the truncation')
            n += 1
            continue
        except Exception as e:
            raise Violation('%s cut at %d of %d raises %s: %s, not a '
                            'ParseError' % (case['model'], cut, len(payload),
                                            type(e).__name__, e))
        raise Violation('%s cut at %d of %d decoded to %r'
                        % (case['model'], cut, len(payload),
                           ms[-1]['content']))
    return n


def truncate_cases(tier):
    q = tier == 'quick'
    vs = ((5, 0, 0, 0), (5, 0, 0, 5), (5, 0, 2, 5), (5, 0, 3, 4)) if q \
        else layout.versions()
    for s in all_settings(tier):
        if s.get('n', 0) > 7:
            continue
        if s['model'] == 'ColumnsDef' and s['fixed']['flags'] >> 2 & 255 > 9:
            continue
        for v in vs:
            yield dict(s, version=list(v))


def bits(case):
    """every value of every bit field alone, over zeros and over ones"""
    recs, (tag, level), payload, content, fill = encode(case)
    ms = parse(recs + [(tag, level, payload)], case['version'])
    compare(case['model'], ms[-1], content, payload)
    return repr(content)


def flag_members():
    def walk(ms, path):
        for m in ms:
            t = m[1]
            if t[0] == 'flags':
                yield path + [m[0]], t
    for model in models():
        for b in layout.bases(model):
            for path, t in walk(layout.STRUCTS[b], []):
                yield model, path, t


STEER = {('BinData', 'flags'): 0xf, ('FaceName', 'flags'): 0xe0,
         ('BorderFill', 'fillflags'): 7, ('ColumnsDef', 'flags'): 0x17fc,
         ('ShapeComponent', 'fill_flags'): 0x700}


def bits_cases(tier):
    seen = set()
    for model, path, t in flag_members():
        if model.startswith('FieldRevision'):
            continue
        width = {'u8': 8, 'u16': 16, 'u32': 32}[t[1]]
        ones = (1 << width) - 1
        for name, lsb, msb, _ in t[2]:
            n = min(msb, width - 1) - lsb + 1
            if n <= 0:
                continue
            vals = range(1 << n) if n <= 8 else \
                [0, 1, (1 << n) - 1, 1 << (n - 1)] + \
                [1 << j for j in range(n)]
            for x in vals:
                for bg in (0, ones):
                    word = (bg & ~(((1 << n) - 1) << lsb)) | x << lsb
                    fixed = {path[0]: word}
                    if model in layout.CHID_OF:
                        fixed['chid'] = layout.CHID_OF[model]
                    if model == 'ShapeComponent':
                        fixed['chid'] = '$rec'
                        fixed['scalerotations_count'] = 1
                    if model == 'TableBody':
                        fixed['rows'] = 1
                    key = (model, path[0], word)
                    if key in seen:
                        continue
                    seen.add(key)
                    yield {'model': model, 'fixed': fixed,
                           'version': [5, 0, 3, 4]}


def structbits(case):
    """bit fields of flags nested in structures, via the typed reader"""
    from hwp5 import binmodel
    from hwp5.bintype import read_type
    sname, member, word = case['struct'], case['member'], case['word']
    t = [m for m in layout.STRUCTS[sname] if m[0] == member][0][1]
    typ = find_struct(binmodel, sname)
    if typ is None:
        return TRIVIAL
    ctx = layout.Ctx((5, 0, 3, 4))
    data, want = layout.encode_struct(sname, {member: word}, ctx)
    got = read_type(typ, {'version': (5, 0, 3, 4)}, io.BytesIO(data))
    expect_equal(doc.plain(got), doc.plain(want), sname)
    check_struct(layout.STRUCTS[sname], got, sname)
    return word


def find_struct(mod, sname):
    import sys
    for name, m in sorted(sys.modules.items()):
        if name.startswith('hwp5.binmodel') and m is not None:
            x = getattr(m, sname, None)
            if x is not None:
                return x
    return None


def structbits_cases(tier):
    for sname in ('Border', 'BorderLine', 'LineSeg', 'RangeTag', 'Tab',
                  'NumberingLevel', 'FillColorPattern', 'FillImage',
                  'FillGradation'):
        for m in layout.STRUCTS[sname]:
            if m[1][0] != 'flags':
                continue
            width = {'u8': 8, 'u16': 16, 'u32': 32}[m[1][1]]
            ones = (1 << width) - 1
            for name, lsb, msb, _ in m[1][2]:
                n = min(msb, width - 1) - lsb + 1
                vals = range(1 << n) if n <= 8 else \
                    [0, 1, (1 << n) - 1] + [1 << j for j in range(n)]
                for x in vals:
                    for bg in (0, ones):
                        yield {'struct': sname, 'member': m[0],
                               'word': (bg & ~(((1 << n) - 1) << lsb)) |
                               x << lsb}


# ---- resolution of list headers, control data and shapes by context ----

CHILDREN = {
    'TableControl': ['list', 'TableBody', 'ControlData'],
    'GShapeObjectControl': ['list', 'ShapeComponent', 'ControlData'],
    'ShapeComponent': ['list', 'ShapeComponent', 'ShapeRectangle'],
    'Header': ['list'], 'Footer': ['list'], 'FootNote': ['list'],
    'EndNote': ['list'], 'HiddenComment': ['list'],
    'BookmarkControl': ['ControlData'],
    'FieldClickHere': ['ControlData', 'list'],
    'SectionDef': ['ControlData', 'PageDef', 'list'],
}


def resolve(parent, kind, seen):
    if kind == 'list':
        return layout.LISTS.get((parent, seen), 'ListHeader')
    if kind == 'ControlData':
        return layout.CTRLDATA.get(parent, 'ControlData')
    return kind


def context_run(case):
    """children of two controls in a row, second may be nested"""
    version = (5, 0, 3, 4)

    def build(parent, kinds, inner):
        seen = False
        out = []
        for k in kinds:
            m = resolve(parent, k, seen)
            if k == 'TableBody' and parent == 'TableControl':
                seen = True
            node = N(m)
            if m == 'ShapeComponent':
                node.values['chid'] = '$rec'
            if m == 'ControlData':
                node.extra = b'xyz'
            if m == 'FieldClickHereData':
                node.extra = b'pq'
            out.append(node)
            if inner is not None and k == inner[0]:
                node.children.append(N('Paragraph', children=[inner[1]]))
                inner = None
        return out

    p2, k2 = case['second']
    second = N(p2, children=build(p2, k2, None))
    p1, k1 = case['first']
    if case['nest']:
        first = N(p1, children=build(p1, k1, (case['nest'], second)))
        nodes = [N('Paragraph', children=[first])]
    else:
        first = N(p1, children=build(p1, k1, None))
        nodes = [N('Paragraph', children=[first, second])]
    encs = doc.encode(nodes, version)
    ms = parse([(e.tag, e.level, e.payload) for e in encs], version)
    expect_equal([m['type'].__name__ for m in ms],
                 [e.node.model for e in encs], 'resolved types')
    for m, e in zip(ms, encs):
        expect_equal(doc.plain(m['content']), doc.plain(e.content),
                     e.node.model)
        expect_equal(m.get('unparsed', b''), e.node.extra, 'remainder')
    return [m['type'].__name__ for m in ms]


def context_cases(tier):
    q = tier == 'quick'
    seqs = []
    for p, kinds in sorted(CHILDREN.items()):
        top = 4 if p == 'TableControl' else 3
        for n in range(0, (top if q else 5)):
            if n > 2 and len(kinds) < 3:
                continue
            for ks in itertools.product(kinds, repeat=n):
                seqs.append((p, list(ks)))
    shorts = [s for s in seqs if len(s[1]) <= 2]
    for a in seqs:
        for b in (shorts if len(a[1]) <= 3 else
                  [s for s in shorts if s[0] == 'TableControl']):
            yield {'first': a, 'second': b, 'nest': ''}
            if 'list' in a[1]:
                yield {'first': a, 'second': b, 'nest': 'list'}


FAMILIES = [Family('layout', layout_cases, layout_run),
            Family('large', large_cases, large_run, limit=120),
            Family('values', value_cases, layout_run),
            Family('truncate', truncate_cases, truncate),
            Family('bits', bits_cases, bits),
            Family('structbits', structbits_cases, structbits),
            Family('context', context_cases, context_run)]
