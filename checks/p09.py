# -*- coding: utf-8 -*-
"""P09 XML of records, texts and documents: well-formed, values preserved."""
import io
import itertools
import os
import re

from mc import cli
from mc import doc
from mc import hwp
from mc import layout
from mc import ole
from mc import rec
from mc.core import Family, TRIVIAL, Violation, expect, expect_equal
from mc.doc import N, para
from checks import p04

PROPERTY = 'P09'
LEVEL = 'exploration'
RULE = ('a case is one record with one assignment of its members, one string '
        'in one place, or one document and one way to get its XML; '
        'non-trivial when something is compared')
ASSUMPTIONS = ['expat and libxml2 decide what is well-formed',
               'private use characters of old Hangul are converted when text '
               'is decoded, so their text is compared with the decoded models']

BRK = 13
SKIP = ('ParaText', 'ParaCharShape', 'ParaLineSeg', 'ParaRangeTag')


def clean(s):
    """what of a string XML can represent"""
    return ''.join(c for c in s if c in '\t\n\r' or
                   '\x20' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or
                   c >= '\U00010000')


def lone(s):
    return s.encode('utf-16le', 'surrogatepass').decode('utf-16le',
                                                        'surrogatepass')


def docinfo_xml(records, version=(5, 0, 1, 7), **kw):
    from hwp5.xmlmodel import DocInfo
    d = DocInfo(doc._Open(rec.encode(records)), tuple(version))
    return b''.join(d.xmlevents().bytechunks(**kw))


# ---- every member of every record

def color(v):
    v &= 0xffffffff
    return '#%02x%02x%02x' % (v & 255, v >> 8 & 255, v >> 16 & 255)


def dashed(n):
    return n.replace('_', '-')


def cmp_value(e, name, t, v, path):
    """value v (of layout type t) against the attributes/children of e"""
    where = '%s/@%s' % (path, name)
    a = e.get(dashed(name))
    if not isinstance(t, str) and t[0] == 'struct' and t[1] == 'Margin':
        for k, x in v.items():
            expect_equal(e.get('%s-%s' % (dashed(name), k)), str(x),
                         '%s.%s' % (where, k))
        return
    if not isinstance(t, str) and t[0] in ('struct', 'select'):
        kids = [c for c in e if c.get('attribute-name') == name]
        expect_equal(len(kids), 1, '%s: elements for %s' % (path, name))
        if t[0] == 'struct':
            cmp_struct(kids[0], layout.STRUCTS[t[1]], v,
                       '%s/%s' % (path, name))
        else:
            for tt in t[2].values():
                ms = layout.STRUCTS[tt[1]]
                if sorted(m[0] for m in ms) == sorted(v):
                    cmp_struct(kids[0], ms, v, '%s/%s' % (path, name))
                    break
            else:
                raise AssertionError((t, v))
        return
    if not isinstance(t, str) and t[0] in ('arr', 'narr', 'xarr'):
        item = t[2]
        if item[0] == 'struct':
            kids = [c for c in e if c.tag == 'Array' and
                    c.get('name') == name]
            expect_equal(len(kids), 1, '%s: arrays %s' % (path, name))
            expect_equal(len(kids[0]), len(v), '%s: items' % where)
            for c, x in zip(kids[0], v):
                cmp_struct(c, layout.STRUCTS[item[1]], x,
                           '%s/%s' % (path, name))
        elif a is None:
            # colours are listed as elements of their own
            kids = [c for c in e if c.tag == name]
            expect_equal([c.get('hex') for c in kids],
                         [color(x) for x in v], where)
        elif v and isinstance(v[0], str):
            at = 0
            for x in v:
                k, n = min((a.find(y, at), len(y)) if y in a[at:] else
                           (1 << 30, 0)
                           for y in (clean(x), repr(x)[1:-1]))
                expect(k < 1 << 30, '%s: %r is not in %r' % (where, x, a))
                at = k + n
        else:
            expect_equal([float(x) for x in re.findall(
                r'-?[\d.]+(?:e[+-]?\d+)?', a)],
                [float(x) for x in v], where)
        return
    if not isinstance(t, str) and t[0] == 'flags':
        size = {'u8': 2, 'u16': 4, 'u32': 8}[t[1]]
        expect_equal(a, '%0*X' % (size, v), where)
        for sub, lsb, msb, enum in t[2]:
            x = v >> lsb & ((1 << (msb + 1 - lsb)) - 1)
            want = str(x)
            if enum and x in enum:
                want = enum[x].lower()
            expect_equal(e.get(dashed(sub)), want, '%s.%s' % (where, sub))
        return
    expect(a is not None, '%s is missing' % where)
    if t in ('bstr', 'chid'):
        expect_equal(a, clean(v), where)
    elif t == 'f64':
        expect_equal(float(a), v, where)
    elif t[0] == 'hex':
        expect(v.decode() in a, '%s is %r, expected %r' % (where, a, v))
    else:
        ok = [str(v), color(v), '%X' % (v & 0xffffffff),
              '%08X' % (v & 0xffffffff), 'BIN%04X' % (v & 0xffffffff)]
        if t == 'u16':
            ok.append(clean(chr(v)) if v else '')
            if 0xf000 <= v <= 0xf0ff:
                return
        expect(a in ok, '%s is %r, expected %r' % (where, a, v))


def cmp_struct(e, ms, v, path):
    for m in ms:
        if m[0] not in v or m[0] == 'chid0':
            continue
        if m[0] == 'rowcols':
            continue            # becomes the rows
        cmp_value(e, m[0], m[1], v[m[0]], path)


RECORD_VERSIONS = ([5, 0, 0, 0], [5, 0, 0, 5], [5, 0, 1, 7], [5, 0, 3, 4])


def record_cases(tier):
    q = tier == 'quick'
    for c in p04.layout_cases(tier):
        if c.get('extra') or c['model'] in SKIP:
            continue
        if q and c['version'] not in RECORD_VERSIONS:
            continue
        yield c
    if not q:
        for c in p04.value_cases('quick'):
            if c['model'] not in SKIP:
                yield c
    else:
        # extreme values of each member
        for c in p04.value_cases('quick'):
            if c['model'] in SKIP or c['version'] != [5, 0, 1, 7]:
                continue
            if c['model'].startswith('FieldRevision'):
                continue
            if c['model'] == 'ShapeComponent' and \
                    c['fixed']['fill_flags'] not in (0, 0x700):
                continue
            if c['override'][1] == 2:
                continue
            yield c


def target(root, model):
    found = [e for e in root.iter(model)]
    expect(found, 'no <%s> element' % model)
    return found[-1] if model not in ('Paragraph',) else found[0]


def record_run(case):
    recs, (tag, level), payload, content, fill = p04.encode(case)
    data = docinfo_xml(recs + [(tag, level, payload)], case['version'])
    root = doc.parse_xml(data)
    e = [x for x in root.iter() if x.tag == case['model']]
    expect(e, 'no <%s> element' % case['model'])
    cmp_struct(e[-1], layout.members(case['model']), content, case['model'])
    return data


# ---- strings in every string member

SIG = ['a', ' ', '<', '>', '&', '"', "'", ']]>', '\t', '\n', '\r', '\0',
       '\x01', '\x1f', '\x7f', '\x85', '\xa0', '\u2028', '\uac00', '\ufeff',
       '\ufffd', '\ufffe', '\uffff', '\ud800', '\udc00', '\U0001f600',
       '\U0010ffff', '&amp;', '<!--', '\u200b']


class SFill(p04.Fill):
    def __init__(self, at, s):
        p04.Fill.__init__(self)
        self.at = at
        self.s = s
        self.n = 0

    def leaf(self, t):
        if t == 'bstr':
            i = self.n
            self.n += 1
            if i == self.at:
                self.k += 1
                return self.s
        return p04.Fill.leaf(self, t)


def string_places():
    """(model, fixed values, index of the string)"""
    for model in p04.models():
        if model in SKIP or (model.startswith('Field') and
                             model not in ('FieldClickHere', 'FieldMemo')):
            continue
        best = {}
        for fixed in p04.steering(model):
            f = SFill(-1, None)
            ctx = layout.Ctx((5, 0, 3, 4), (p04.host(model) or [None])[-1],
                             {})
            for b in layout.bases(model):
                f.struct(layout.STRUCTS[b], ctx, fixed, {})
            best.setdefault(f.n, fixed)
        for n, fixed in sorted(best.items()):
            for i in range(n):
                if model == 'Numbering' and i not in (0, n - 1):
                    continue
                yield model, fixed, i


def string_cases(tier):
    q = tier == 'quick'
    for model, fixed, i in string_places():
        for n in (1, 2):
            for t in itertools.product(range(len(SIG)), repeat=n):
                if n == 2 and q and model not in ('Style', 'IndexMarker') \
                        and t[0] != t[1] and 0 not in t:
                    continue
                yield {'m': model, 'f': fixed, 'i': i, 's': list(t)}
    if not q:
        for t in itertools.product(range(len(SIG)), repeat=3):
            yield {'m': 'Style', 'f': {}, 'i': 0, 's': list(t)}


def string_run(case):
    s = lone(''.join(SIG[k] for k in case['s']))
    model = case['m']
    version = (5, 0, 3, 4)
    records = []
    level = 0
    parent = pv = None
    for h in p04.host(model):
        sib = h.startswith('+')
        h = h.lstrip('+')
        payload, content = layout.encode_record(
            h, {}, layout.Ctx(version, parent, pv))
        records.append((layout.tag_of(h), level, payload))
        if not sib:
            parent, pv = h, content
            level += 1
    ctx = layout.Ctx(version, parent, pv)
    fill = SFill(case['i'], s)
    values = {}
    for b in layout.bases(model):
        values.update(fill.struct(layout.STRUCTS[b], ctx, case['f'], {}))
    payload, content = layout.encode_record(model, values, ctx)
    data = docinfo_xml(records + [(layout.tag_of(model), level, payload)],
                       version)
    root = doc.parse_xml(data)
    e = [x for x in root.iter() if x.tag == model]
    expect(e, 'no <%s> element' % model)
    cmp_struct(e[-1], layout.members(model), content, model)
    return data


# ---- single characters as values

def wchar_cases(tier):
    for m, name in (('Bullet', 'char'), ('PageNumberPosition', 'dash'),
                    ('AutoNumbering', 'prefix'), ('FootnoteShape', 'suffix')):
        step = 256
        for base in range(0, 0x10000, step):
            if tier == 'quick' and m != 'Bullet' and \
                    base not in (0, 0xd800, 0xdc00, 0xff00, 0x2000):
                continue
            yield {'m': m, 'n': name, 'b': base}


def wchar_run(case):
    recs = []
    m = case['m']
    for v in range(case['b'], case['b'] + 256):
        payload, _ = layout.encode_record(
            m, {case['n']: v}, layout.Ctx((5, 0, 3, 4), None, {}))
        recs.append((layout.tag_of(m), 0, payload))
    root = doc.parse_xml(docinfo_xml(recs, (5, 0, 3, 4)))
    got = [e.get(case['n']) for e in root]
    expect_equal(len(got), 256, 'records')
    for v, g in zip(range(case['b'], case['b'] + 256), got):
        want = clean(chr(v)) if v else ''
        if 0xf000 <= v <= 0xf0ff:
            expect(g is not None and len(g) == 1, 'character %04X' % v)
            continue
        expect_equal(g, want, 'character %04X' % v)
    return got


# ---- text of paragraphs

def text_of(root):
    out = []
    for e in root.iter():
        if e.tag == 'Text':
            if e.text:
                out.append(e.text)
        elif e.tag == 'ControlChar':
            c = int(e.get('code'))
            out.append((c, e.get('char')))
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


def models_text(nodes, version):
    from hwp5.xmlmodel import Section
    s = Section(doc._Open(doc.stream(nodes, version)), version)
    out = []
    for m in s.models():
        if m['type'].__name__ == 'ParaText':
            for _, c in m['content']['chunks']:
                if isinstance(c, str):
                    out.append(c)
    return ''.join(out)


def unit_cases(tier):
    q = tier == 'quick'
    for base in range(0, 0x10000, 256):
        yield {'b': base, 'n': 256}
    for plane in range(1, 17):
        for off in range(0, 0x10000, 0x1000):
            if q and plane not in (1, 2, 16) and off not in (0, 0xf000):
                continue
            yield {'b': plane * 0x10000 + off, 'n': 0x1000}


def unit_run(case):
    cps = [c for c in range(case['b'], case['b'] + case['n']) if c >= 32]
    text = ''.join(chr(c) for c in cps)
    if 0xd800 <= case['b'] < 0xe000:
        # every surrogate alone
        text = ''.join('a' + chr(c) for c in cps)
    nodes = [doc.secpara(), para([text, BRK], shapes=[(0, 0)])]
    data = doc.section_xml(nodes)
    got = ''.join(x for x in text_of(doc.parse_xml(data))
                  if isinstance(x, str))
    private = 0xe000 <= case['b'] < 0xf900
    want = models_text(nodes, (5, 0, 1, 7)) if private else text
    expect_equal(got, clean(want), 'text')
    return got


def text_cases(tier):
    toks = list(range(len(SIG)))
    for n in (1, 2):
        for t in itertools.product(toks, repeat=n):
            yield {'t': list(t), 's': 0}
    few = [SIG.index(c) for c in ('a', '<', '&', ']]>', '\t', '\r', '\0',
                                  '\ufffe', '\ud800', '\udc00', '\U0001f600',
                                  '\uac00')]
    for t in itertools.product(few if tier == 'quick' else toks, repeat=3):
        yield {'t': list(t), 's': 0}
    for t in itertools.product(few, repeat=2):
        for s in (1, 2):
            yield {'t': list(t), 's': s}


def text_run(case):
    text = ''
    toks = []
    expected = []

    def flush():
        nonlocal text
        if text:
            t = lone(text)
            toks.append(t)
            expected.append(clean(t))
        text = ''
    for k in case['t']:
        c = SIG[k]
        if len(c) == 1 and c < ' ':
            flush()
            if c == '\t':
                toks.append(('w', 9))
                expected.append((9, '\t'))
            elif c in '\n\r':
                toks.append(ord(c))
                expected.append((ord(c), c))
            elif c in '\0\x1f':
                toks.append(ord(c))
                expected.append((ord(c), None))
            else:
                continue
        else:
            text += c
    flush()
    toks.append(BRK)
    expected.append((13, '\r'))
    shapes = [(0, 0)]
    if case['s']:
        shapes.append((case['s'], 1))
    data = doc.section_xml([doc.secpara(), para(toks, shapes=shapes)])
    got = text_of(doc.parse_xml(data))[1:]
    want = []
    for x in expected:
        if isinstance(x, str) and want and isinstance(want[-1], str):
            want[-1] += x
        elif x != '':
            want.append(x)
    expect_equal(got, want, 'text')
    return got


# ---- whole documents by every way to their XML

def make_doc(s, flags=1):
    nodes = [doc.secpara([s or 'x', N('IndexMarker', keyword1=s,
                                      keyword2=s + 'k')]),
             para([doc.table([[[para([s or 'y', BRK])]]], description=s),
                   N('FieldHyperLink', command=s), 'l', ('end',), BRK])]
    props = [(2, ole.lpwstr(s)), (3, ole.lpwstr('b' + s)),
             (0x15, ole.i4(3))] + [p for p in ole.DEFAULT
                                   if p[0] not in (2, 3, 0x15)]
    info = hwp.docinfo(bindata=[dict(flags=1, bindata=dict(
        storage_id=1, ext='jpg'))], styles=[dict(local_name=s, name=s + 's')])
    t = hwp.tree(flags=flags, docinfo_bytes=info,
                 sections=[doc.stream(nodes, (5, 0, 1, 7))],
                 bindata={'BIN0001.jpg': b'\x00\xff<&\r\n' * 30},
                 prvtext=clean(s), summary=hwp.summaryinfo(props))
    return t, nodes


def check_doc(root, s, embed=False, summary=True):
    names = [e.tag for e in root]
    expect_equal(names, ['HwpSummaryInfo', 'DocInfo', 'BodyText'], 'parts')
    if summary:
        check_summary(root[0], s)
    check_docinfo(root[1], s, embed)
    check_body(root[2], s)


def check_summary(e, s):
    d = dict((p.get('id'), p.get('value')) for p in e.iter('Property'))
    expect_equal(d.get('2'), clean(s), 'title')
    expect_equal(d.get('3'), clean('b' + s), 'subject')
    expect_equal(d.get('21'), '3', 'paragraphs')


def check_docinfo(e, s, embed):
    st = next(e.iter('Style'))
    expect_equal(st.get('local-name'), clean(s), 'style local name')
    expect_equal(st.get('name'), clean(s + 's'), 'style name')
    b = next(e.iter('BinData'))
    txt = ''.join(b.itertext()).strip()
    if embed:
        import base64
        expect_equal(base64.b64decode(txt), b'\x00\xff<&\r\n' * 30,
                     'embedded data')
    else:
        expect_equal(txt, '', 'text of BinData')


def check_body(e, s):
    i = next(e.iter('IndexMarker'))
    expect_equal(i.get('keyword1'), clean(s), 'keyword1')
    expect_equal(i.get('keyword2'), clean(s + 'k'), 'keyword2')
    t = next(e.iter('TableControl'))
    expect_equal(t.get('description'), clean(s), 'description')
    f = next(e.iter('FieldHyperLink'))
    expect_equal(f.get('command'), clean(s), 'command')
    expect_equal(''.join(t.text or '' for t in f.iter('Text')), 'l',
                 'field text')
    got = [x for x in text_of(e) if isinstance(x, str)]
    want = [clean(s or 'x'), clean(s or 'y'), 'l']
    expect_equal([g for g in got if g], [w for w in want if w], 'texts')


HOW = ['events', 'xmlevents', 'views', 'open', 'proc', 'proc-valid',
       'proc-embed', 'proc-nodecl', 'flat', 'cat']
ENC = ['utf-8', 'utf-16', 'us-ascii', 'iso-8859-1', 'euc-kr', 'utf-16-le',
       'shift_jis']


def doc_cases(tier):
    strings = [[k] for k in range(len(SIG))] + [[], list(range(len(SIG)))]
    strings = [s for s in strings if not (len(s) == 1 and len(SIG[s[0]]) == 1
                                          and SIG[s[0]] < ' ')]
    for s in strings:
        for how in HOW:
            if how == 'proc-valid' and tier == 'quick' and len(s) == 1 \
                    and s[0] % 3:
                continue
            yield {'s': s, 'how': how}
        for enc in ENC:
            yield {'s': s, 'how': 'enc', 'enc': enc}


def textable(s):
    return ''.join(c for c in s if c >= ' ')


def doc_run(case):
    from hwp5.xmlmodel import Hwp5File
    s = textable(lone(''.join(SIG[k] for k in case['s'])))
    if s == '' and case['s']:
        return TRIVIAL
    t, nodes = make_doc(s)
    how = case['how']
    if how in ('events', 'xmlevents', 'views', 'open', 'enc'):
        f = Hwp5File(hwp.Storage(t))
        if how == 'events':
            stack = []
            n = 0
            for ev, (model, attrs, ctx) in f.events():
                n += 1
                if ev.__name__ == 'STARTEVENT':
                    stack.append(model)
                else:
                    expect(stack and stack[-1] is model,
                           'end of %s inside %s' % (model, stack[-1:]))
                    stack.pop()
            expect_equal(stack, [], 'open at the end')
            return n
        if how == 'xmlevents':
            data = b''.join(f.xmlevents().bytechunks())
            check_doc(doc.parse_xml(data), s)
            return data
        if how == 'open':
            data = f.xmlevents(embedbin=True).open().read()
            check_doc(doc.parse_xml(data), s, True)
            return data
        if how == 'enc':
            from lxml import etree
            data = b''.join(f.xmlevents().bytechunks(
                xml_encoding=case['enc']))
            try:
                root = etree.fromstring(data)
            except etree.XMLSyntaxError as e:
                raise Violation('XML in %s is not well-formed: %s'
                                % (case['enc'], e))
            check_doc(root, s)
            return data
        d = f.docinfo.xmlevents().open().read()
        check_docinfo(doc.parse_xml(d), s, False)
        b = f.bodytext.xmlevents().open().read()
        check_body(doc.parse_xml(b), s)
        c = f.bodytext.section(0).xmlevents().open().read()
        check_body(doc.parse_xml(c), s)
        x = f.summaryinfo.xmlevents().open().read()
        check_summary(doc.parse_xml(x), s)
        return d + b + c + x
    path = hwp.write(hwp.scratch('a.hwp'), t)
    out = hwp.scratch('out.xml')
    if how == 'cat':
        res = b''
        for name, chk in (('DocInfo.xml',
                           lambda e: check_docinfo(e, s, False)),
                          ('BodyText.xml', lambda e: check_body(e, s)),
                          ('BodyText/Section0.xml',
                           lambda e: check_body(e, s))):
            r = cli.run('hwp5proc', ['cat', '--vstreams', path, name])
            expect_equal(r.code, 0, 'exit status of cat %s' % name)
            chk(doc.parse_xml(r.out))
            res += r.out
        return res
    args = ['xml', path]
    if how == 'flat':
        args += ['--format', 'flat']
    if how == 'proc-embed':
        args += ['--embedbin']
    if how == 'proc-nodecl':
        args += ['--no-xml-decl']
    if how == 'proc-valid':
        args += ['--output', out]
    else:
        args += ['--no-validate-wellformed']
    r = cli.run('hwp5proc', args)
    expect_equal(r.code, 0, 'exit status (%r)' % r)
    data = r.out
    if how == 'proc-valid':
        with open(out, 'rb') as f:
            data = f.read()
        os.unlink(out)
    root = doc.parse_xml(data)
    expect_equal(data.startswith(b'<?xml'),
                 how not in ('proc-nodecl', 'proc-valid') or
                 data.startswith(b'<?xml') and how == 'proc-valid',
                 'XML declaration')
    if how == 'flat':
        expect_equal(root.tag, 'Hwp5Doc', 'root')
        names = [e.get('value') for e in root.iter('item')
                 if e.get('name') == 'local_name']
        expect_equal(names, [clean(s)], 'style name in the flat XML')
        seq = [int(e.get('seqno')) for sec in root.iter('Section')
               for e in sec.iter('Record')]
        expect_equal(seq, list(range(len(seq))), 'records in the flat XML')
        return data
    check_doc(root, s, how == 'proc-embed')
    return data


FAMILIES = [
    Family('records', record_cases, record_run),
    Family('strings', string_cases, string_run),
    Family('characters', wchar_cases, wchar_run),
    Family('units', unit_cases, unit_run),
    Family('texts', text_cases, text_run),
    Family('documents', doc_cases, doc_run),
]
