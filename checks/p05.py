# -*- coding: utf-8 -*-
"""P05 parsing against histories, interleavings and thread schedules.

Every execution is a forked process in which nothing has been parsed yet;
what it yields is compared with what the same read yields in a process which
does nothing else.
"""
import io
import itertools
import json

from checks import p04
from checks import p10
from mc import cfb
from mc import doc
from mc import hwp
from mc import layout
from mc import rec
from mc import sched
from mc.core import Family, TRIVIAL, Violation, expect_equal, short
from mc.doc import N, para, secpara

import hwp5.binmodel
import hwp5.bintype
import hwp5.cli
import hwp5.dataio
import hwp5.filestructure
import hwp5.hwp5html
import hwp5.hwp5odt
import hwp5.hwp5txt
import hwp5.msoleprops
import hwp5.plat
import hwp5.recordstream
import hwp5.storage
import hwp5.storage.ole
import hwp5.summaryinfo
import hwp5.xmldump_flat
import hwp5.xmlmodel
import hwp5.zlib_raw_codec

PROPERTY = 'P05'
LEVEL = 'exploration'
RULE = ('a case is a history of reads, an interleaving of lazy reads, or a '
        'schedule of threads, in a process which has parsed nothing before; '
        'every read is compared with the same read alone')
ASSUMPTIONS = ['what a read yields alone in a fresh process is the '
               'reference; the other checks judge it',
               'threads read documents of their own, and are switched '
               'between lines (between bytecodes where state outlives the '
               'call)']

VERSIONS = layout.versions()


def plain(x):
    """comparable without the process"""
    if isinstance(x, dict):
        return sorted((str(k), plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, (bytes, str, float)) or x is None:
        return repr(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, Exception):
        return [type(x).__name__, str(x)]
    return type(x).__name__


def model(m):
    return json.dumps([m['type'].__name__, m['seqno'], m['level'],
                       plain(m['content']), plain(m.get('unparsed')),
                       [[None if ev is None else ev.__name__,
                         item.get('name'), item.get('bin_offset'),
                         plain(item.get('value'))]
                        for ev, item in m['binevents']]])


class Source(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


def stream(data, version):
    from hwp5.binmodel import ModelStream
    return ModelStream(Source(data), tuple(version))


def lazily(make, take=None):
    """consume an iterable, at most `take` items, ending in its error"""
    out = []
    try:
        it = iter(make())
        for x in it:
            out.append(x)
            if take is not None and len(out) >= take:
                break
    except Exception as e:
        out.append('%s: %s' % (type(e).__name__, e))
    return out


_REF = {}


def alone(fn, *args):
    k = (fn.__name__, repr(args))
    if k not in _REF:
        _REF[k] = sched.forked(fn, *args)
    return _REF[k]


# ---- versions and record types

def records_of(name, version, setting):
    if name == 'ParaText':
        return [(e.tag, e.level, e.payload) for e in doc.encode(
            [para(['a', ('w', 9), '\uac00', 13])], version)[:2]]
    records, (tag, level), payload = p04.encode(
        {'model': name, 'version': list(version), 'fixed': setting})[:3]
    return records + [(tag, level, payload)]


_SETTINGS = {}


def settings(name):
    if name not in _SETTINGS:
        found = p04.steering(name)
        _SETTINGS[name] = [found[i] for i in sorted(set(
            (0, len(found) // 3, len(found) // 2, len(found) - 1)))]
    return _SETTINGS[name]


_ALL = {}


def everything(version):
    """records of every type, with every setting"""
    if version not in _ALL:
        out = []
        for name in p04.models():
            for s in settings(name):
                out += records_of(name, version, s)
        _ALL[version] = rec.encode(out)
    return _ALL[version]


def read_all(version, take=None, cut=None):
    data = everything(version)
    if cut is not None:
        data = data[:cut]
    return lazily(lambda: (model(m) for m in
                           stream(data, version).models()), take)


def version_cases(tier):
    q = tier == 'quick'
    for a, b in itertools.product(range(len(VERSIONS)), repeat=2):
        if a != b:
            yield {'v': [a, b], 'm': 'full'}
    for a, b in itertools.product(range(len(VERSIONS)), repeat=2):
        if a != b and (not q or (a + b) % 3 == 0):
            for k in (1, 40, 120):
                yield {'v': [a, b], 'm': 'left', 'k': k}
            for k in (50, 1001, 4003):
                yield {'v': [a, b], 'm': 'cut', 'k': k}
    if not q:
        for v in itertools.product(range(0, len(VERSIONS), 2), repeat=3):
            if v[0] != v[1] != v[2]:
                yield {'v': list(v), 'm': 'full'}


def version_run(case):
    vs = [VERSIONS[i] for i in case['v']]
    for v in vs:
        everything(v)           # encoded before the fork

    def work():
        kept = []
        out = []
        for v in vs[:-1]:
            if case['m'] == 'full':
                out.append(read_all(v))
            elif case['m'] == 'left':
                it = iter(stream(everything(v), v).models())
                kept.append(it)
                out.append(lazily(lambda: (model(m) for m in it), case['k']))
            else:
                out.append(read_all(v, None, case['k']))
        out.append(read_all(vs[-1]))
        if case['m'] == 'left':         # and the one left comes back
            out[0] += lazily(lambda: (model(m) for m in kept[0]))
        return out
    got = sched.forked(work)
    for i, v in enumerate(vs):
        cut = case['k'] if case['m'] == 'cut' and i < len(vs) - 1 else None
        same(got[i], alone(read_all, v, None, cut),
             'records of version %r read after %r' % (v, vs[:i]))
    return case


def same(got, want, what):
    if got == want:
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            k = next((j for j, (x, y) in enumerate(zip(g, w)) if x != y),
                     min(len(g), len(w))) if isinstance(g, (str, bytes)) \
                else 0
            k = max(0, k - 80)
            raise Violation('%s: item %d is ...%s, alone ...%s' % (
                what, i, short(g[k:k + 300] if hasattr(g, '__getitem__')
                               else g),
                short(w[k:k + 300] if hasattr(w, '__getitem__') else w)))
    raise Violation('%s: %d items, alone %d' % (what, len(got), len(want)))


def type_cases(tier):
    names = p04.models()
    for a in names:
        yield {'a': a, 'v': [(5, 0, 3, 4), (5, 0, 3, 4)]}
        if tier != 'quick':
            yield {'a': a, 'v': [(5, 0, 0, 4), (5, 0, 3, 4)]}
            yield {'a': a, 'v': [(5, 0, 3, 4), (5, 0, 1, 6)]}


def read_type(name, version, i, cut):
    s = settings(name)[i]
    recs = records_of(name, version, s)
    if cut:
        tag, level, payload = recs[-1]
        recs = recs[:-1] + [(tag, level, payload[:len(payload) // 2])]
    return lazily(lambda: (model(m) for m in
                           stream(rec.encode(recs), version).models()))


def type_run(case):
    """a record of one type, whole, with other options, and cut, before one
    of each other type"""
    a = case['a']
    va, vb = [tuple(v) for v in case['v']]
    n = 0
    for i, cut in [(i, 0) for i in range(len(settings(a)))] + [(0, 1)]:
        for b in p04.models():
            for j in range(len(settings(b))):
                def work():
                    return (read_type(a, va, i, cut),
                            read_type(b, vb, j, 0))
                x, y = sched.forked(work)
                what = '%s[%d]%s, then %s[%d]' % (a, i, '(cut)' * cut, b, j)
                same(x, alone(read_type, a, va, i, cut), what)
                same(y, alone(read_type, b, vb, j, 0), what)
                n += 1
    return n, a


# ---- histories of operations on documents

def small_section(words, version, picture=False):
    t = doc.table([[[p10.P(words[0])], [p10.P('k' + words[1])]]])
    body = [secpara([words[0], t, 'b'], shapes=((0, 0), (17, 1))),
            p10.P(words[1], N('FieldHyperLink', command='c'), 'f', ('end',),
                  '\uac00\u0391'),
            p10.P(doc.note('FootNote', [p10.P('n' + words[0])]))]
    if picture:
        body.append(p10.P(doc.picture(1)))
    return doc.stream(body, version)


def document(kind):
    """-> tree"""
    version = {'new': (5, 0, 3, 4), 'old': (5, 0, 0, 4), 'dist': (5, 0, 1, 7),
               'bad': (5, 0, 3, 4), 'mid': (5, 0, 2, 4)}[kind]
    full = dict((lang, 100) for lang in ('ko', 'en', 'cn', 'jp', 'other',
                                         'symbol', 'user'))
    n = {'new': 2, 'old': 1, 'dist': 3, 'bad': 2, 'mid': 2}[kind]
    info = hwp.docinfo(
        version, sections=2, fonts=n,
        bindata=[dict(flags=1, bindata={'storage_id': 1, 'ext': 'png'})],
        charshapes=[dict(basesize=1000 + 100 * i, relative_size=full,
                         font_face=dict((k, i % n) for k in full))
                    for i in range(n + 1)],
        parashapes=n, styles=[dict(local_name='%s %d' % (kind, i),
                                   name='%s-%d' % (kind, i),
                                   charshape_id=i) for i in range(n)])
    secs = [small_section(('%s0' % kind, 'x'), version),
            small_section(('%s1' % kind, 'y'), version, True)]
    if kind == 'bad':
        secs[0] = secs[0][:-30]
    flags = {'new': 1, 'old': 0, 'dist': 5, 'bad': 1, 'mid': 1}[kind]
    return hwp.tree(
        version, flags, info, secs,
        bindata={'BIN0001.png': ('picture of ' + kind).encode() * 9},
        viewtext=[secs[1], secs[0]] if kind == 'dist' else None,
        scripts={'JScriptVersion': b'12345678' + kind.encode(),
                 'DefaultJScript': b'code ' + kind.encode()},
        prvtext='preview of ' + kind, summary=hwp.summaryinfo())


_DOCS = {}
KINDS = ('new', 'old', 'dist', 'bad', 'mid')


def ole(kind):
    if kind not in _DOCS:
        _DOCS[kind] = cfb.build(document(kind))
    return _DOCS[kind]


def open_doc(kind):
    """through the real storage, over the bytes of the file"""
    from hwp5.storage.ole import OleStorage
    from hwp5.xmlmodel import Hwp5File
    return Hwp5File(OleStorage(io.BytesIO(ole(kind))))


def op_models(f):
    return [model(m) for m in f.docinfo.models()] + \
        [model(m) for m in f.text.section(0).models()]


def op_xml(f):
    return b''.join(f.xmlevents().bytechunks())


def op_embed(f):
    return b''.join(f.xmlevents(embedbin=True).bytechunks())


def op_section(f):
    return b''.join(f.text.section(1).xmlevents().bytechunks())


def op_body(f):
    return b''.join(f.text.xmlevents(xml_encoding='utf-16').bytechunks())


def op_header(f):
    return plain(f.fileheader.value), str(f.fileheader.flags), \
        f.header.version


def op_records(f):
    return [plain(r) for r in f.text.section(1).records()] + \
        [f.text.section(0).records_json().open().read()]


def op_group(f):
    return [model(m) for m in f.text.section(1).models(treegroup=1)]


def op_json(f):
    return f.docinfo.models_json().open().read()


def op_half(f):
    """left in the middle"""
    it = f.text.section(1).models()
    f.kept = getattr(f, 'kept', []) + [it]
    return [model(next(it)) for _ in range(7)]


def op_halfxml(f):
    it = iter(f.xmlevents().bytechunks())
    f.kept = getattr(f, 'kept', []) + [it]
    return [next(it) for _ in range(60)]


def op_streams(f):
    out = []
    for name in ('DocInfo', 'PrvText'):
        out.append(f[name].open().read())
    for name in f['BodyText']:
        out.append(f['BodyText'][name].open().read())
    out.append(f['BinData']['BIN0001.png'].open().read(5))
    out.append(f['BinData']['BIN0001.png'].open().read())
    out.append([f['Scripts'][n].open().read() for n in f['Scripts']])
    return out


def op_summary(f):
    s = f.summaryinfo
    return s.title, str(s.lastSavedTime), list(s.plaintext_lines)


def op_destroy(f):
    """what was read is torn apart by its reader"""
    found = list(itertools.chain(f.docinfo.models(),
                                 f.text.section(1).models(),
                                 f.text.section(1).records(),
                                 f.text.section(1).modelevents()))
    for m in found:
        tear(m)
    return len(found)


def tear(x):
    if isinstance(x, tuple):
        for v in x:
            tear(v)
    elif isinstance(x, dict):
        for v in list(x.values()):
            tear(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            tear(v)
        del x[:]


def op_fail(f):
    """a read which fails, whatever the document"""
    from hwp5.binmodel import ModelStream
    data = f.text.section(1).open().read()
    return lazily(lambda: (model(m) for m in ModelStream(
        Source(data[:-3]), f.header.version).models()))


def op_text(f):
    from mc import conv
    return conv.text(f)


def op_html(f):
    from mc import conv
    return conv.xhtml(f) + conv.css(f)


def op_dump(f):
    """the flat dump of the records, as the events of a second layer"""
    return [short([str(ev), item.get('type').__name__, item.get('name'),
                   plain(item.get('value'))], 200)
            for ev, item in f.docinfo.parse_model_events()]


OPS = [op_models, op_xml, op_section, op_body, op_header, op_records,
       op_group, op_json, op_half, op_halfxml, op_streams, op_summary,
       op_destroy, op_fail, op_embed, op_text, op_html, op_dump]
LIGHT = [op_models, op_xml, op_half, op_halfxml, op_fail, op_destroy,
         op_streams, op_header]


def attempt(op, f):
    try:
        return op(f)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def one(kind, k):
    return attempt(OPS[k], open_doc(kind))


def history_cases(tier):
    """operations on different documents"""
    light = [OPS.index(o) for o in LIGHT]
    steps = [(d, o) for d in KINDS for o in range(len(OPS))]
    lights = [(d, o) for d in KINDS[:4] for o in light]
    for a in steps:
        for b in steps if tier != 'quick' else lights:
            yield {'h': [a, b]}
    if tier != 'quick':
        few = [(d, OPS.index(o)) for d in ('new', 'old', 'bad')
               for o in (op_xml, op_half, op_fail, op_models)]
        for h in itertools.product(few, repeat=3):
            yield {'h': list(h)}


def history_run(case):
    for k in KINDS:
        ole(k)
    got = sched.forked(lambda: [one(d, o) for d, o in case['h']])
    for i, (d, o) in enumerate(case['h']):
        same_value(got[i], alone(one, d, o), '%s of %r after %r' % (
            OPS[o].__name__, d,
            [(x, OPS[y].__name__) for x, y in case['h'][:i]]))
    return case


def same_value(got, want, what):
    if got == want:
        return
    if isinstance(want, list) and isinstance(got, list):
        same(got, want, what)
    same([got], [want], what)


def object_cases(tier):
    """operations on one document object"""
    n = len(OPS)
    for d in KINDS if tier != 'quick' else ('new', 'dist', 'bad'):
        for h in itertools.product(range(n), repeat=2):
            yield {'d': d, 'h': list(h)}
    few = range(n) if tier != 'quick' else [OPS.index(o) for o in LIGHT]
    for d in ('new', 'dist') if tier != 'quick' else ('new',):
        for h in itertools.product(few, repeat=3):
            yield {'d': d, 'h': list(h)}


def object_run(case):
    ole(case['d'])

    def work():
        f = open_doc(case['d'])
        return [attempt(OPS[o], f) for o in case['h']]
    got = sched.forked(work)
    for i, o in enumerate(case['h']):
        same_value(got[i], alone(one, case['d'], o), '%s of %r after %r' % (
            OPS[o].__name__, case['d'],
            [OPS[y].__name__ for y in case['h'][:i]]))
    return case


# ---- interleaved lazy reads

def lazy_reader(kind, which, f=None):
    """-> iterator of a few comparable items"""
    f = f or open_doc(kind)
    if which == 'models':
        return chunked((model(m) for m in f.text.section(1).models()), 9)
    if which == 'docinfo':
        return chunked((model(m) for m in f.docinfo.models()), 5)
    if which == 'records':
        return chunked((json.dumps(plain(r))
                        for r in f.text.section(1).records()), 9)
    if which == 'xml':
        return chunked(iter(f.text.section(1).xmlevents().bytechunks()), 160)
    if which == 'doc':
        return chunked(iter(f.xmlevents().bytechunks()), 700)
    if which == 'groups':
        return (json.dumps([model(m) for m in g])
                for g in f.text.section(1).models_treegrouped())
    if which == 'bytes':
        s = f['BodyText']['Section1'].open()
        return iter(lambda: s.read(300), b'')
    if which == 'json':
        s = f.text.section(1).models_json().open()
        return chunked(iter(lambda: s.read(1500), b''), 8)
    raise KeyError(which)


def chunked(it, n):
    """n items at a time"""
    while True:
        part = list(itertools.islice(it, n))
        if not part:
            return
        yield part


READERS = ('models', 'docinfo', 'records', 'xml', 'doc', 'groups', 'bytes',
           'json')


def whole(kind, which):
    return lazily(lambda: lazy_reader(kind, which))


def schedules(n):
    """the orders of the steps of the readers, with n[i] steps each"""
    if not any(n):
        yield ()
        return
    for i in range(len(n)):
        if n[i]:
            m = list(n)
            m[i] -= 1
            for rest in schedules(m):
                yield (i,) + rest


STEPS = 5


def steps(kind, which, limit=STEPS):
    return min(len(alone(whole, kind, which)) + 1, limit)


def inter_cases(tier):
    q = tier == 'quick'
    pairs = []
    for a, b in itertools.combinations_with_replacement(READERS, 2):
        pairs.append((('new', a), ('new', b), 1))
        pairs.append((('new', a), ('old', b), 0))
        if not q:
            pairs.append((('bad', a), ('new', b), 0))
            pairs.append((('dist', a), ('dist', b), 1))
    for p in pairs:
        limit = 3 if q else 4
        n = [steps(k, w, limit) for k, w in p[:2]]
        for s in schedules(n):
            yield {'r': [list(x) for x in p[:2]], 'one': p[2], 's': list(s)}
    few = ('models', 'xml', 'docinfo') if q else READERS[:5]
    for a in itertools.combinations(few, 3):
        for ks in (('new', 'old', 'mid'), ('new', 'new', 'new')):
            n = [steps(k, w, 2) for k, w in zip(ks, a)]
            for s in schedules(n):
                yield {'r': [list(x) for x in zip(ks, a)],
                       'one': int(ks[1] == 'new'), 's': list(s)}


def inter_run(case):
    for k in KINDS:
        ole(k)

    def work():
        f = open_doc(case['r'][0][0]) if case['one'] else None
        its = [lazy_reader(k, w, f) for k, w in case['r']]
        out = [[] for _ in its]
        over = [False] * len(its)

        def step(i):
            if over[i]:
                return
            try:
                out[i].append(next(its[i]))
            except StopIteration:
                over[i] = True
            except Exception as e:
                over[i] = True
                out[i].append('%s: %s' % (type(e).__name__, e))
        for i in case['s']:
            step(i)
        for i in range(len(its)):
            while not over[i]:
                step(i)
        return out
    got = sched.forked(work)
    for g, (k, w) in zip(got, case['r']):
        same(g, alone(whole, k, w), '%s of %r interleaved' % (w, k))
    return case


# ---- threads

TINY = {}


def tiny(version, b=0):
    """a stream of few records"""
    key = version, b
    if key not in TINY:
        if b == 0:
            TINY[key] = doc.stream([para(['a', 13])] + [
                N('CharShape'), N('BorderFill'),
                N('ParaShape')], version)
        elif b == 1:
            TINY[key] = doc.stream([p10.P('a', doc.table([[[p10.P('b')]]]),
                                          '\uac00')], version)
        else:
            TINY[key] = doc.stream([N('CharShape'), N('Style', name='s'),
                                    N('FaceName', name='f')], version)
    return TINY[key]


def job(name):
    from hwp5.xmlmodel import Section
    what, v = name[:-1], VERSIONS[{'0': 1, '1': -4}[name[-1]]]
    if what == 'models':
        return [model(m) for m in stream(tiny(v), v).models()]
    if what == 'other':
        return [model(m) for m in stream(tiny(v, 2), v).models()]
    if what == 'xml':
        return b''.join(Section(Source(tiny(v, 1)), v)
                        .xmlevents().bytechunks())
    if what == 'file':
        f = open_doc({'0': 'old', '1': 'dist'}[name[-1]])
        return op_header(f), op_summary(f), op_streams(f)
    if what == 'doc':
        return op_xml(open_doc({'0': 'old', '1': 'new'}[name[-1]]))
    raise KeyError(name)


def jobs(names):
    return [lambda n=n: job(n) for n in names]


def ready():
    for k in KINDS:
        ole(k)
    for v in VERSIONS:
        for b in (0, 1, 2):
            tiny(v, b)
    sched.package_codes()


def every(code):
    return True


_SHARED = {}


def shared(code):
    if 'codes' not in _SHARED:
        _SHARED['codes'] = sched.shared_codes()
    return code in _SHARED['codes']


POINTS = {'line': (every, False), 'shared': (shared, True),
          'sline': (shared, False)}


def points(names, mode):
    ready()
    shared(None)
    return sched.forked(lambda: sched.record_points(
        jobs(names), *POINTS[mode]))


def chosen(points, per):
    """the first and last few visits of each place"""
    out = set()
    for where, ns in points.items():
        out.update(ns[:per])
        out.add(ns[-1])
    return sorted(out)


PAIRS = [('models0', 'models1'), ('models1', 'models1'), ('xml1', 'xml0'),
         ('file1', 'file1')]
MORE = [('models0', 'models0'), ('models1', 'models0'),
        ('models1', 'other1'), ('xml0', 'xml0'),
        ('file0', 'file1'), ('doc0', 'doc1'),
        ('models0', 'file1'), ('other0', 'models0')]


def thread_cases(tier):
    q = tier == 'quick'
    for p in PAIRS + ([] if q else MORE):
        # after the first (and last) visits of each line
        count, pts = points(p, 'line')
        for n in chosen(pts[0], 1 if p[0][:3] != 'xml' else 0):
            yield {'j': list(p), 'm': 'line', 's': [[0, n]]}
        # and of each bytecode where state may outlive the call
        count, pts = points(p, 'shared')
        for n in chosen(pts[0], 1 if q else 2):
            yield {'j': list(p), 'm': 'shared', 's': [[0, n]]}
    # two switches: back to the first before the second has ended
    for p in PAIRS[:1]:
        count, pts = points(p, 'sline')
        a, b = [sorted(ns[0] for ns in x.values()) if
                q or 'xml' in p[0] else chosen(x, 1) for x in pts]
        for x, y in itertools.product(a, b):
            yield {'j': list(p), 'm': 'sline', 's': [[0, x], [1, y]]}
    if not q:
        p = ('models0', 'models1', 'models0')
        count, pts = points(p, 'sline')
        for x, y in itertools.product(chosen(pts[0], 0), chosen(pts[1], 0)):
            yield {'j': list(p), 'm': 'sline', 's': [[0, x], [1, y]]}


def thread_run(case):
    ready()
    shared(None)

    def work():
        s = sched.Scheduler(jobs(case['j']), [tuple(x) for x in case['s']],
                            *POINTS[case['m']])
        return s.run(), len(s.switches)
    got, left = sched.forked(work)
    for g, name in zip(got, case['j']):
        if g[0] != 'ok':
            raise Violation('thread reading %s: %s' % (name, g[1]))
        want = alone(job, name)
        if isinstance(want, tuple):
            want, g = list(want), (g[0], list(g[1]))
        same_value(g[1], want, 'thread reading %s' % name)
    return TRIVIAL if left == len(case['s']) else case


FAMILIES = [Family('versions', version_cases, version_run),
            Family('types', type_cases, type_run, limit=300),
            Family('histories', history_cases, history_run),
            Family('objects', object_cases, object_run),
            Family('interleaved', inter_cases, inter_run),
            Family('threads', thread_cases, thread_run)]
