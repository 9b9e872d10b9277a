# -*- coding: utf-8 -*-
"""P28 low level dumps account for every byte of every record."""
import ast
import io
import itertools
import json
import re
import struct
import xml.etree.ElementTree as ET

from checks import p04
from mc import cli
from mc import doc
from mc import hwp
from mc import layout
from mc import rec
from mc.core import Family, Violation, expect, expect_equal

from hwp5.binmodel import ModelStream
from hwp5.storage import Open2Stream

PROPERTY = 'P28'
LEVEL = 'exploration'
RULE = ('a case is a batch of records of one format version, dumped with '
        '`hwp5proc models --events` or `hwp5proc xml --format=flat`, or one '
        'arrangement of the sections of a document; non-trivial when at '
        'least one record is dumped')
ASSUMPTIONS = ['the layout tables in mc/layout.py are the reference',
               'only the meaning of a printed value is compared, not the '
               'notation of byte strings']

SIZE = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f64': 8,
        'chid': 4}


# ---- what a dump has to show of a record: nested rows

def rows_of(t, val, ctx, v, off, name):
    """-> (rows, end offset, decoded value)"""
    k = t if isinstance(t, str) else t[0]
    if isinstance(t, str) or k in ('hex', 'flags'):
        b, e = layout.encode_value(t, val, ctx, v)
        return [('item', name, off, e, t)], off + len(b), e
    if k == 'select':
        key = ctx.ev(t[1], v)
        if key not in t[2]:
            return [], off, None
        t = t[2][key]
        return rows_of(t, layout.default(t) if val is None else val, ctx, v,
                       off, name)
    if k == 'struct':
        vv = {}
        kids, off = struct_rows(layout.STRUCTS[t[1]], val or {}, ctx, vv, off)
        return [('struct', name, t[1], kids)], off, vv
    kids = []
    if k == 'arr':
        n = t[1]
        if val is None:
            val = layout.default(t)
    elif k == 'narr':
        val = val or []
        n = len(val)
        kids_off = off + struct.calcsize('<' + layout.FMT[t[1]])
        # the count is a value of the stream as well
        head = [('item', None, off, n, t[1])]
        off = kids_off
    else:
        n = max(ctx.ev(t[1], v), 0)
        if val is None:
            val = [layout.default(t[2]) for _ in range(n)]
    assert len(val) == n
    out = []
    for x in val:
        r, off, e = rows_of(t[2], x, ctx, v, off, None)
        kids.extend(r)
        out.append(e)
    rows = [('array', name, None, kids)]
    if k == 'narr':
        rows = head + rows
    return rows, off, out


def struct_rows(ms, values, ctx, v, off):
    rows = []
    for m in ms:
        name, t = m[0], m[1]
        gate = m[2] if len(m) > 2 else None
        cond = m[3] if len(m) > 3 else None
        if gate and ctx.version < tuple(gate):
            continue
        if cond and not ctx.ev(cond, v):
            continue
        val = values.get(name)
        if val is None:
            val = layout.default(t)
        r, off, e = rows_of(t, val, ctx, v, off, name)
        if t[0] == 'select' and not r:
            continue
        v[name] = e
        rows.extend(r)
    return rows, off


class Rec(object):
    """a record to be dumped and what its dump has to show"""

    def __init__(self, model, level, values, ctx, extra=b''):
        self.model = model
        self.tag = layout.tag_of(model)
        self.level = level
        self.extra = extra
        if model in layout.CHID_OF and 'chid' not in values:
            values = dict(values, chid=layout.CHID_OF[model])
        self.payload, self.content = layout.encode_record(model, values, ctx)
        self.parts = []
        off = 0
        for b in layout.bases(model):
            rows, off = struct_rows(layout.STRUCTS[b], values, ctx, {}, off)
            if rows:
                self.parts.append((b, rows))
        assert off == len(self.payload), (model, off, len(self.payload))
        self.end = off


def recs_of(case):
    """the records of a setting of P04, with their ancestors"""
    version = tuple(case['version'])
    out = []
    parent = pv = None
    level = 0
    for h in list(case.get('host') or p04.host(case['model'])):
        sib = h.startswith('+')
        h = h.lstrip('+')
        vals = {}
        if h == 'Paragraph':
            n = case.get('n', 2)
            vals = {'charshapes': n, 'linesegs': n, 'rangetags': n}
        r = Rec(h, level, vals, layout.Ctx(version, parent, pv))
        out.append(r)
        if not sib:
            parent, pv = h, r.content
            level += 1
    ctx = layout.Ctx(version, parent, pv)
    fill = p04.Fill(case.get('override'), case.get('count', 2))
    values = {}
    for b in layout.bases(case['model']):
        values.update(fill.struct(layout.STRUCTS[b], ctx,
                                  case.get('fixed') or {}, {}))
    out.append(Rec(case['model'], level, values, ctx,
                   bytes(case.get('extra') or ())))
    return out


def stream_of(recs):
    return rec.encode([(r.tag, r.level, r.payload + r.extra) for r in recs])


def xmlclean(s):
    return ''.join(c for c in s if c in '\t\n\r' or
                   '\x20' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or
                   c >= '\U00010000')


# ---- hwp5proc models --events

LINE = re.compile(r'^([0-9a-f]{4,}) (.*)$', re.S)


def check_events(text, recs):
    """the printed events against the rows of the records"""
    stream = expected_events(recs)
    lines = text.split('\n')
    expect(lines and lines[-1] == '', 'the last line ends')
    lines.pop()
    lines = without_empty(lines)
    pos = 0
    for want in stream:
        if pos >= len(lines):
            raise Violation('the dump ends before %r' % (want,))
        line = lines[pos]
        pos += 1
        kind = want[0]
        if kind == 'rec':
            _, ev, r, i = want
            toks = line.split()
            expect_equal(toks[:2] + toks[2:4], [ev, 'Record', str(i),
                                                'level=%d' % r.level],
                         'record %d (%s)' % (i, r.model))
        elif kind == 'group':
            _, ev, r, what, name, tname = want
            toks = line.split()
            expect_equal(toks[0], ev, '%s of %s: %r'
                         % (name, r.model, line))
            if name:
                expect_equal(toks[-1], name, 'name in %r of %s'
                             % (line, r.model))
            if tname:
                expect_equal(toks[1], tname, 'structure in %r of %s'
                             % (line, r.model))
        elif kind == 'item':
            _, r, name, off, val, t = want
            m = LINE.match(line)
            expect(m, 'not a value: %r, expected %s of %s'
                   % (line, name, r.model))
            expect_equal(int(m.group(1), 16), off, 'offset of %s of %s'
                         % (name, r.model))
            rest = m.group(2)
            mm = re.match(r'^(.*?) %s (.*)$' % re.escape(name or '-'), rest,
                          re.S)
            expect(mm, 'no member %s of %s in %r' % (name, r.model, line))
            value_equal(mm.group(2), val, t, r.model, name, True)
        elif kind == 'end':
            _, r = want
            expect_equal(int(line, 16), r.end, 'end of the members of %s'
                         % r.model)
            if r.extra:
                expect_equal(lines[pos:pos + 2], ['', 'leftover:'],
                             'remainder of %s' % r.model)
                pos += 2
                dumped = []
                while pos < len(lines) and lines[pos] != '-' * 20:
                    dumped.append(lines[pos])
                    pos += 1
                expect_equal(undump(dumped), r.extra,
                             'bytes of the remainder of %s' % r.model)
            expect_equal(lines[pos] if pos < len(lines) else None, '-' * 20,
                         'end of %s' % r.model)
            pos += 1
    expect_equal(lines[pos:], [], 'lines after the last record')


def without_empty(lines):
    """leave out the structures without members right below a record"""
    out = []
    depth = 0
    for ln in lines:
        toks = ln.split()[:2]
        if toks[:1] == ['STARTEVENT']:
            depth += 1
        elif toks[:1] == ['ENDEVENT']:
            depth -= 1
            if depth == 1 and out[-1].split() == ['STARTEVENT', toks[1]]:
                out.pop()
                continue
        out.append(ln)
    return out


def undump(lines):
    out = []
    for ln in lines:
        for tok in ln.split():
            expect(re.match('^[0-9a-fA-F]{2}$', tok), 'hex dump line %r' % ln)
            out.append(int(tok, 16))
    return bytes(out)


def expected_events(recs):
    # one after another, not nested
    for i, r in enumerate(recs):
        yield 'rec', 'STARTEVENT', r, i
        for b, rows in r.parts:
            yield 'group', 'STARTEVENT', r, 'struct', None, b
            for x in row_events(rows, r):
                yield x
            yield 'group', 'ENDEVENT', r, 'struct', None, b
        yield 'rec', 'ENDEVENT', r, i
        yield 'end', r


def row_events(rows, r):
    for row in rows:
        if row[0] == 'item':
            yield ('item', r) + row[1:]
        else:
            what, name, tname, kids = row
            yield 'group', 'STARTEVENT', r, what, name, tname
            for x in row_events(kids, r):
                yield x
            yield 'group', 'ENDEVENT', r, what, name, tname


def value_equal(got, want, t, model, name, isrepr):
    """a printed value against the decoded one"""
    what = '%s of %s' % (name, model)
    k = t if isinstance(t, str) else t[0]
    if k == 'hex':
        h = want.decode('ascii')
        ok = got in (h, repr(h), repr(want))
        expect(ok, '%s is %r, expected %s' % (what, got, h))
    elif k == 'f64':
        expect_equal(float(got), want, what)
    elif k in ('bstr', 'chid'):
        if isrepr:
            expect_equal(ast.literal_eval(got), want, what)
        else:
            expect_equal(got, xmlclean(want), what)
    elif k == 'chunks':
        expect_equal(ast.literal_eval(got), want, what)
    else:
        try:
            n = int(got)
        except ValueError:
            raise Violation('%s is %r, expected %d' % (what, got, want))
        expect_equal(n, want, what)


def events_run(case):
    version = tuple(case['version'])
    recs = batch_recs(case)
    r = cli.run('hwp5proc', ['models', '--events', '-V',
                             '%d.%d.%d.%d' % version],
                stdin=stream_of(recs))
    expect(r.code == 0 and not r.exc, 'models --events: %r' % r)
    events = r.out
    check_events(r.out.decode('utf-8'), recs)
    # the same events kept in a list
    s = ModelStream(Open2Stream(lambda: io.BytesIO(stream_of(recs))), version)
    kept(list(s.parse_model_events()), recs)
    r = cli.run('hwp5proc', ['models', '-V', '%d.%d.%d.%d' % version],
                stdin=stream_of(recs))
    expect(r.code == 0 and not r.exc, 'models: %r' % r)
    listed = json.loads(r.out.decode('utf-8'))
    expect_equal(len(listed), len(recs), 'models listed')
    total = len(events)
    for i, (j, r) in enumerate(zip(listed, recs)):
        expect_equal((j['seqno'], j['level'], j['tagid'], j['size'],
                      j['type']),
                     (i, r.level, r.tag, len(r.payload) + len(r.extra),
                      r.model), 'model %d (%s)' % (i, r.model))
        total += len(j['payload'])
        expect_equal(j['content'], jsonish(r.content),
                     'content of %s in JSON' % r.model)
        expect_equal(bytes.fromhex(''.join(''.join(j['payload']).split())),
                     r.payload + r.extra, 'payload of %s in JSON' % r.model)
        expect_equal(bytes.fromhex(''.join(''.join(j.get('unparsed', []))
                                           .split())),
                     r.extra, 'remainder of %s in JSON' % r.model)
    return total


def jsonish(x):
    if isinstance(x, dict):
        return dict((k, jsonish(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [jsonish(v) for v in x]
    if isinstance(x, bytes):
        return x.decode('latin1')
    return x


def kept(events, recs):
    got = []
    for ev, item in events:
        if ev is None:
            got.append((item.get('name'), item['bin_offset'],
                        plain(item['value'])))
        elif 'record' in item and ev.__name__ == 'STARTEVENT':
            got.append(('record', item['record']['seqno']))
        elif 'record' in item:
            got.append(('rest', item['leftover']['offset'],
                        item['leftover']['bytes']))
    want = []
    for i, r in enumerate(recs):
        want.append(('record', i))
        for b, rows in r.parts:
            want.extend(flat_rows(rows))
        want.append(('rest', r.end, r.extra))
    if got != want:
        for g, w in zip(got, want):
            expect_equal(g, w, 'events kept in a list')
        expect_equal(len(got), len(want), 'events kept in a list')


def flat_rows(rows):
    for x in rows:
        if x[0] == 'item':
            yield x[1], x[2], plain(x[3])
        else:
            for y in flat_rows(x[3]):
                yield y


def plain(x):
    if isinstance(x, int):
        return int(x)
    return x


def batch_recs(case):
    out = []
    for s in batch(case):
        out.extend(recs_of(dict(s, version=case['version'])))
    return out


_SETTINGS = {}


def settings(kind):
    if kind not in _SETTINGS:
        _SETTINGS[kind] = list({
            'plain': lambda: p04.all_settings('quick'),
            'extra': lambda: (dict(s, extra=x)
                              for s in p04.all_settings('quick')
                              for x in ([0], list(range(250, 256)),
                                        list(range(40)))),
            'long': lambda: (dict(s, extra=[(i * 7 + 3) & 255
                                            for i in range(n)])
                             for s in p04.all_settings('quick')
                             if s.get('n', 2) == 2 and s.get('count', 1) == 1
                             for n in (16, 17, 255, 256, 257, 1000, 5000)),
            'values': all_overrides,
            'bits': bit_settings}[kind]())
    return _SETTINGS[kind]


def all_overrides():
    """each leaf in turn at its extreme values"""
    for s in p04.all_settings('quick'):
        if s.get('n', 0) > 7:
            continue
        c = dict(s, version=[5, 0, 3, 4])
        leaves = p04.encode(c)[4].leaves
        for i, t in enumerate(leaves):
            if t is None:
                continue
            for ch in range(len(p04.STRINGS) if t == 'bstr' else 3):
                yield dict(s, override=[i, ch])


def bit_settings():
    for c in p04.bits_cases('quick'):
        c.pop('version')
        yield c
    # flags inside of nested structures
    for s in p04.all_settings('quick'):
        if s.get('n', 0) > 2 or s.get('count', 1) > 1:
            continue
        c = dict(s, version=[5, 0, 3, 4])
        fill = p04.encode(c)[4]
        for i, t in enumerate(fill.leaves):
            if t in ('u8', 'u16', 'u32'):
                for ch in (0, 1, 2):
                    yield dict(s, override=[i, ch])


def batch(case):
    ss = settings(case['kind'])
    return ss[case['from']:case['from'] + case['n']]


VERSIONS = [list(v) for v in layout.versions()]


def batches(kind, n, versions):
    total = len(settings(kind))
    for v in versions:
        for k in range(0, total, n):
            yield {'version': v, 'kind': kind, 'from': k, 'n': n}


SOME = ([5, 0, 0, 0], [5, 0, 1, 7], [5, 0, 2, 5], [5, 0, 3, 4])


def events_cases(tier):
    q = tier == 'quick'
    for c in batches('plain', 24, VERSIONS):
        yield c
    for c in batches('extra', 40, SOME if q else VERSIONS):
        yield c
    for c in batches('long', 40, [[5, 0, 3, 4]] if q else SOME):
        yield c
    for c in batches('values', 80, [[5, 0, 3, 4]] if q else VERSIONS):
        yield c
    for c in batches('bits', 80, [[5, 0, 3, 4]] if q else SOME):
        yield c


# ---- hwp5proc xml --format=flat

DOCINFO = set(layout.TAGS[t] for t in layout.TAGS if t < 66)


def flat_doc(version, docinfo, sections, names=None, flags=0, view=None):
    """-> root element of the flat dump of a document"""
    t = hwp.tree(version=version, flags=flags, docinfo_bytes=docinfo,
                 sections=sections, viewtext=view, summary=hwp.summaryinfo())
    if names:
        t['BodyText'] = dict((n, t['BodyText']['Section%d' % i])
                             for i, n in enumerate(names))
    path = hwp.write(hwp.scratch('flat.hwp'), t)
    r = cli.run('hwp5proc', ['xml', '--format=flat',
                             '--no-validate-wellformed', path])
    expect(r.code == 0 and not r.exc, 'xml --format=flat: %r' % r)
    expect(r.out.startswith(b'<?xml'), 'XML declaration')
    return ET.fromstring(r.out), r.out


def check_records(elem, recs, what):
    """the Record elements below a stream element"""
    got = flat_records(elem)
    expect_equal(len(got), len(recs), 'records of %s' % what)
    for i, (r, e) in enumerate(zip(recs, got)):
        expect_equal((e.get('seqno'), e.get('level'), e.get('size'),
                      e.get('tagid')),
                     (str(i), str(r.level),
                      str(len(r.payload) + len(r.extra)), str(r.tag)),
                     'record %d of %s (%s)' % (i, what, r.model))
        kids = list(e)
        expect(all(k.tag == 'struct' for k in kids), 'inside of %s' % r.model)
        kids = [k for k in kids if len(k)]
        expect_equal([k.get('type') for k in kids], [b for b, _ in r.parts],
                     'structures of %s' % r.model)
        for k, (b, rows) in zip(kids, r.parts):
            check_rows(k, rows, r)


def flat_records(elem):
    kids = list(elem)
    expect(all(k.tag == 'Record' for k in kids), 'elements beside the '
           'records: %r' % [k.tag for k in kids if k.tag != 'Record'][:3])
    return kids


def check_rows(elem, rows, r):
    kids = list(elem)
    expect_equal([(k.tag, k.get('name')) for k in kids],
                 [(x[0], x[1]) for x in rows],
                 'members of %s in %s' % (elem.get('name') or
                                          elem.get('type'), r.model))
    for k, x in zip(kids, rows):
        if x[0] == 'item':
            _, name, off, val, t = x
            expect_equal(k.get('offset'), str(off), 'offset of %s of %s'
                         % (name, r.model))
            value_equal(k.get('value'), val, t, r.model, name, False)
            check_bits(k, val, t, '%s of %s' % (name, r.model))
        else:
            check_rows(k, x[3], r)


def check_bits(k, val, t, what):
    if t[0] != 'flags':
        # an enumerated value or a plain one
        return
    kids = list(k)
    expect_equal([x.tag for x in kids], ['bitflags'], 'inside of ' + what)
    f = kids[0]
    width = struct.calcsize('<' + layout.FMT[t[1]]) * 8
    raw = val & ((1 << width) - 1)
    expect_equal(f.get('hex'), '%0*x' % (width // 4, raw), what + ' in hex')
    expect_equal(f.get('bin'), '{:0{}b}'.format(raw, width),
                 what + ' in binary')
    got = {}
    for b in f:
        expect_equal(b.tag, 'bits', 'inside of the bits of ' + what)
        expect(b.get('name') not in got, 'bits twice: %s' % b.get('name'))
        got[b.get('name')] = b
    expect_equal(sorted(got), sorted(n for n, _, _, _ in t[2]),
                 'bit fields of ' + what)
    for name, lsb, msb, enum in t[2]:
        b = got[name]
        want = raw >> lsb & ((1 << (msb + 1 - lsb)) - 1)
        expect_equal((b.get('lsb'), b.get('msb'), b.get('value')),
                     (str(lsb), str(msb), str(want)),
                     'bits %s of %s' % (name, what))
        es = list(b)
        if enum:
            expect_equal([(x.tag, x.get('value')) for x in es],
                         [('enum', enum.get(want) or str(want))],
                         'meaning of %s=%d of %s' % (name, want, what))
        else:
            expect_equal(es, [], 'inside of the bits of ' + what)


def flat_run(case):
    version = tuple(case['version'])
    info = []
    body = []
    for s in batch(case):
        rs = recs_of(dict(s, version=version))
        if rs[-1].model in DOCINFO and len(rs) == 1:
            info.extend(rs)
        else:
            body.append(rs)
    # dealt out over three sections
    secs = [[r for rs in body[k::3] for r in rs] for k in range(3)]
    root, data = flat_doc(version, stream_of(info),
                          [stream_of(s) for s in secs])
    check_root(root, version, 0)
    kids = list(root)
    check_records(kids[1], info, 'DocInfo')
    expect_equal([k.get('name') for k in kids[2:]],
                 ['Section%d' % i for i in range(3)], 'names of sections')
    for k, rs in zip(kids[2:], secs):
        check_records(k, rs, k.get('name'))
    return len(data)


def check_root(root, version, flags):
    expect_equal((root.tag, root.get('version'), root.get('hexversion')),
                 ('Hwp5Doc', '%d.%d.%d.%d' % version,
                  '%02x%02x%02x%02x' % version), 'the document element')
    kids = list(root)
    expect_equal([k.tag for k in kids[:2]], ['FileHeader', 'DocInfo'],
                 'first elements')
    expect(all(k.tag == 'Section' for k in kids[2:]), 'section elements')
    st = list(kids[0])
    expect_equal([x.tag for x in st], ['struct'], 'inside of FileHeader')
    items = [(x.get('name'), x.get('offset')) for x in st[0]]
    expect_equal(items, [('signature', '0'), ('version', '32'),
                         ('flags', '36'), ('reserved', '40')],
                 'members of FileHeader')
    v = st[0][1].get('value')
    expect_equal(ast.literal_eval(v), version, 'version in FileHeader')
    f = st[0][2]
    expect_equal(int(f.get('value')), flags, 'flags in FileHeader')
    bf = list(f)
    expect_equal([b.get('hex') for b in bf], ['%08x' % flags],
                 'flags in hex')
    expect_equal([b.get('bin') for b in bf], ['{:032b}'.format(flags)],
                 'flags in binary')
    for b in bf[0]:
        lsb, msb = int(b.get('lsb')), int(b.get('msb'))
        expect_equal(int(b.get('value')),
                     flags >> lsb & ((1 << msb + 1 - lsb) - 1),
                     'flag %s' % b.get('name'))


def flat_cases(tier):
    q = tier == 'quick'
    for c in batches('plain', 100, VERSIONS):
        yield c
    for c in batches('extra', 150, SOME if q else VERSIONS):
        yield c
    for c in batches('values', 300, [[5, 0, 3, 4]] if q else VERSIONS):
        yield c
    for c in batches('bits', 300, [[5, 0, 3, 4]] if q else SOME):
        yield c


# ---- the pieces of a text

PIECES = {
    'a': ('text', 'a'), 'h': ('text', '\uac00'), 's': ('text', '\U0001f600'),
    'p': ('text', '\ue000'), '<': ('text', '<&"\''),
    't': ('ctl', 9), 'l': ('ctl', 10), 'e': ('ctl', 13), 'b': ('ctl', 24),
    'c': ('ctl', 2, 'secd'), 'g': ('ctl', 11, 'gso '), 'f': ('ctl', 3, '%clk'),
    'z': ('ctl', 0),
}
WIDE = set([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21,
            22, 23])


def text_encode(word):
    """-> (payload, [(start, end, kind, value)])"""
    out = b''
    chunks = []
    for i, c in enumerate(word):
        p = PIECES[c]
        start = len(out) // 2
        if p[0] == 'text':
            out += p[1].encode('utf-16le')
            end = len(out) // 2
            if chunks and chunks[-1][2] == 'text':
                s, _, _, v = chunks.pop()
                chunks.append((s, end, 'text', v + p[1]))
            else:
                chunks.append((start, end, 'text', p[1]))
            continue
        code = p[1]
        out += struct.pack('<H', code)
        want = {'code': code}
        if code in WIDE:
            param = bytes([i & 255, 255 - (i & 255)] * 4)
            if len(p) > 2:
                out += p[2].encode('latin1')[::-1] + param
                want['chid'] = p[2]
                want['param'] = param
            else:
                param = bytes([i + 1 & 255, 200 - i & 255] * 6)
                out += param
                want['param'] = param
                if code == 9:
                    w, u0, u1 = struct.unpack('<IBB', param[:6])
                    want['param'] = {'width': w, 'unknown0': u0,
                                     'unknown1': u1, 'unknown2': param[6:]}
            out += struct.pack('<H', code)
        chunks.append((start, len(out) // 2, 'ctl', want))
    return out, chunks


def text_recs(words):
    out = []
    for w in words:
        ctx = layout.Ctx((5, 0, 3, 4))
        out.append(Rec('Paragraph', 0, {}, ctx))
        r = Rec('ParaText', 1, {}, layout.Ctx((5, 0, 3, 4), 'Paragraph',
                                              out[-1].content))
        r.payload, r.chunks = text_encode(w)
        out.append(r)
    return out


def text_words(tier):
    keys = ''.join(sorted(PIECES))
    for n in range(0, 4 if tier == 'quick' else 5):
        for w in itertools.product(keys, repeat=n):
            yield ''.join(w)
    for n in (20, 500, 5000):
        yield 'ahs' * n + 'cge'
        yield 'ct' * n + 'a'


def text_cases(tier):
    ws = list(text_words(tier))
    for k in range(0, len(ws), 200):
        yield {'tier': tier, 'from': k}


_WORDS = {}


def text_run(case):
    if case['tier'] not in _WORDS:
        _WORDS[case['tier']] = list(text_words(case['tier']))
    words = _WORDS[case['tier']][case['from']:case['from'] + 200]
    recs = text_recs(words)
    data = stream_of(recs)
    root, out = flat_doc((5, 0, 3, 4), b'', [data])
    got = flat_records(list(root)[2])
    expect_equal(len(got), len(recs), 'records')
    for e, r, w in zip(got[1::2], recs[1::2], words):
        expect_equal(e.get('size'), str(len(r.payload)), 'size of the text')
        items = [x for x in e.iter('item')]
        expect_equal([int(x.get('offset')) for x in items],
                     [s * 2 for s, _, _, _ in r.chunks],
                     'offsets of the pieces of %r' % w)
        for x, (s, _, kind, v) in zip(items, r.chunks):
            if kind == 'text':
                expect_equal((x.get('type'), x.get('value')),
                             ('Text', xmlclean(v)), 'text in %r' % w)
            else:
                expect_equal(x.get('type'), 'ControlChar',
                             'kind of the piece at %d of %r' % (s, w))
                d = ast.literal_eval(x.get('value'))
                expect_equal(d, v, 'control character at %d of %r' % (s, w))
    r = cli.run('hwp5proc', ['models', '--events', '-V', '5.0.3.4'],
                stdin=data)
    expect(r.code == 0 and not r.exc, 'models --events: %r' % r)
    lines = [x for x in r.out.decode('utf-8').split('\n')
             if x.startswith('0000 ParaTextChunks ')]
    expect_equal(len(lines), len(words), 'texts among the events')
    for ln, rr, w in zip(lines, recs[1::2], words):
        expect_equal(ast.literal_eval(ln.split(' ', 3)[3]),
                     [((s, e), v) for s, e, _, v in rr.chunks],
                     'pieces of %r' % w)
    return len(out)


# ---- which streams, in which order

def marked(k, version):
    return stream_of([Rec('Paragraph', 0, {'parashape_id': k},
                          layout.Ctx(version))])


def order_cases(tier):
    for n in (0, 1, 2, 3, 9, 10, 11, 12, 101) + (
            () if tier == 'quick' else (25, 300)):
        for how in ('up', 'down', 'text', 'odd'):
            yield {'n': n, 'how': how}
    for perm in itertools.permutations((0, 1, 2, 10)):
        yield {'n': 4, 'how': 'list', 'list': list(perm)}
    for flags in [0, hwp.COMPRESSED, hwp.DIST | hwp.COMPRESSED] + \
            [1 << k for k in range(3, 12)]:
        for n in (1, 2, 12):
            yield {'n': n, 'how': 'down', 'flags': flags}


def order_run(case):
    version = (5, 0, 3, 4)
    n, how = case['n'], case['how']
    flags = case.get('flags', 0)
    ids = list(range(n))
    if how == 'list':
        ids = case['list']
    elif how == 'down':
        ids = ids[::-1]
    elif how == 'text':
        ids = sorted(ids, key=str)
    elif how == 'odd':
        ids = ids[1::2] + ids[::2]
    secs = [marked(i, version) for i in ids]
    names = ['Section%d' % i for i in ids]
    if flags & hwp.DIST:
        t_body = [marked(60000, version)]
        t = hwp.tree(version=version, flags=flags, docinfo_bytes=b'',
                     sections=t_body, viewtext=secs,
                     summary=hwp.summaryinfo())
        t['ViewText'] = dict((nm, t['ViewText']['Section%d' % k])
                             for k, nm in enumerate(names))
        path = hwp.write(hwp.scratch('flat.hwp'), t)
        r = cli.run('hwp5proc', ['xml', '--format=flat',
                                 '--no-validate-wellformed', path])
        expect(r.code == 0 and not r.exc, 'xml --format=flat: %r' % r)
        root, out = ET.fromstring(r.out), r.out
    else:
        root, out = flat_doc(version, b'', secs, names, flags)
    check_root(root, version, flags)
    got = [(s.get('name'), [x.get('value') for x in s.iter('item')
                            if x.get('name') == 'parashape_id'])
           for s in list(root)[2:]]
    expect_equal(got, [('Section%d' % i, [str(i)]) for i in sorted(ids)],
                 'sections in the flat dump')
    return len(out)


FAMILIES = [Family('order', order_cases, order_run),
            Family('texts', text_cases, text_run),
            Family('flat', flat_cases, flat_run, limit=120),
            Family('events', events_cases, events_run, limit=120)]
