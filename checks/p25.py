# -*- coding: utf-8 -*-
"""P25 selections of the model listings, and searches."""
import io
import itertools
import json
import os

from mc import cfb
from mc import cli
from mc import doc
from mc import hwp
from mc import layout
from mc import rec
from mc.core import Family, Violation, expect, expect_equal
from mc.doc import N, para

PROPERTY = 'P25'
LEVEL = 'exploration'
RULE = ('a case is a sequence of top-level record trees with every selection '
        'of it in every output format, or a set of documents with a search')
ASSUMPTIONS = ['record trees are well-formed; content is judged by P04']

V = (5, 0, 3, 4)


def group(kind, i):
    """a top-level tree of records"""
    if kind == 'p':
        return para(['a' * (i + 1), 13])
    if kind == 't':
        return para([doc.table([[[para(['x', 13])], [para(['y', 13])]]]),
                     13])
    if kind == 's':
        return para([doc.secd(), 13])
    if kind == 'u':                 # tags without names, with children
        return N('TagModel32', raw=bytes((i % 256, 1)), tag=0x20, children=[
            N('TagModel32', raw=b'', tag=0x3f0)])
    if kind == 'x':                 # with a remainder
        return N('CharShape', basesize=100 + i, extra=b'rest %d' % i)
    if kind == 'd':
        return N('IdMappings', children=[N('FaceName', name='f%d' % i),
                                         N('Style', name='s%d' % i)])
    if kind == 'b':                 # text of every kind
        return para(['\uac00<&', ('w', 9), N('BookmarkControl', children=[
            N('BookmarkControlData', name='m')]), 13], shapes=((0, 0),
                                                              (3, 1)))
    if kind == 'g':                 # tags named alike
        return para([doc.picture(i + 1), 13])
    raise KeyError(kind)


KINDS = 'ptsuxdb'


def nodes_of(case):
    out = []
    for i, k in enumerate(case['g']):
        out.append(group(k, i))
    return out


def groups_of(encs):
    out = []
    for e in encs:
        if e.level == 0 or not out:
            out.append([])
        out[-1].append(e)
    return out


class Source(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


def essence(m):
    return (m['seqno'], m['level'], m['tagid'], m['tagname'], m['size'],
            m['type'].__name__, m['payload'], m.get('unparsed'),
            json.dumps(doc.plain(strings(m['content'])), sort_keys=True))


def strings(x):
    if isinstance(x, dict):
        return dict((str(k), strings(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [strings(v) for v in x]
    if isinstance(x, bytes):
        return x.decode('latin1')
    return x


def events_key(evs):
    return [(getattr(ev, '__name__', None), it.get('name'),
             it.get('bin_offset'), repr(it.get('value'))
             if ev is None else '') for ev, it in evs]


def select_cases(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(top + 1):
        for g in itertools.product(KINDS if n < 4 else 'ptux', repeat=n):
            yield {'g': ''.join(g)}


def library_run(case):
    from hwp5.binmodel import ModelStream
    encs = doc.encode(nodes_of(case), V)
    data = rec.encode((e.tag, e.level, e.payload) for e in encs)

    def s():
        return ModelStream(Source(data), V)
    full = [essence(m) for m in s().models()]
    binev = [events_key(m['binevents']) for m in s().models()]
    expect_equal([m[:3] + m[5:8] for m in full],
                 [(e.seqno, e.level, e.tag, expected_type(e), e.payload,
                   e.node.extra or (e.payload if e.tag == 0x20 else None)
                   or None) for e in encs], 'all models')
    groups = groups_of(encs)
    for n in range(len(encs) + 2):
        m = s().model(n)
        want = full[n] if n < len(full) else None
        expect_equal(m and essence(m), want, 'model %d' % n)
    for k in range(len(groups) + 2):
        want = [full[e.seqno] for e in groups[k]] if k < len(groups) else []
        ms = list(s().models(treegroup=k))
        expect_equal([essence(m) for m in ms], want, 'treegroup %d' % k)
        expect_equal([events_key(m['binevents']) for m in ms],
                     [binev[m[0]] for m in want],
                     'values of treegroup %d' % k)
    expect_equal([[essence(m) for m in g]
                  for g in s().models_treegrouped()],
                 [[full[e.seqno] for e in g] for g in groups],
                 'tree groups')
    # json views
    listed = json.loads(s().models_json().open().read())
    check_json(listed, full)
    d = s().other_formats()
    expect_equal(json.loads(d['.models']().read()), listed, '.models')
    # events of the records
    evs = list(s().parse_model_events())
    starts = [it for ev, it in evs if getattr(ev, '__name__', '') ==
              'STARTEVENT' and it['type'].__name__ == 'RecordModel']
    expect_equal([(it['record']['seqno'], it['treegroup']) for it in starts],
                 [(e.seqno, k) for k, g in enumerate(groups) for e in g],
                 'records of the events')
    return [m[5] for m in full]


def expected_type(e):
    return {0x3f0: 'UnknownTagModel'}.get(e.tag) or e.node.model


def check_json(listed, want):
    expect_equal([(j['seqno'], j['level'], j['tagid'], j['tagname'],
                   j['size'], j['type'],
                   json.dumps(doc.plain(j['content']), sort_keys=True))
                  for j in listed],
                 [m[:6] + m[8:] for m in want], 'JSON models')
    for j, m in zip(listed, want):
        expect_equal(unhex(j['payload']), m[6], 'JSON payload')
        if m[7] is not None:
            expect_equal(unhex(j['unparsed']), m[7], 'JSON remainder')
        else:
            expect('unparsed' not in j, 'JSON remainder out of nothing')


def unhex(lines):
    return bytes.fromhex(''.join(''.join(x.split()) for x in lines))


# ---- the models command

def cli_cases(tier):
    top = 2 if tier == 'quick' else 3
    for n in range(top + 1):
        for g in itertools.product(KINDS, repeat=n):
            for src in ('doc', 'sec', 'stdin'):
                if src == 'stdin' or tier != 'quick' or n < 2 or \
                        g[0] < g[-1]:
                    yield {'g': ''.join(g), 'src': src}


def cli_run(case):
    from hwp5.binmodel import ModelStream
    encs = doc.encode(nodes_of(case), V)
    data = rec.encode((e.tag, e.level, e.payload) for e in encs)
    full = [essence(m) for m in ModelStream(Source(data), V).models()]
    groups = groups_of(encs)
    base = ['models']
    stdin = b''
    if case['src'] == 'stdin':
        base += ['-V', '5.0.3.4']
        stdin = data
    else:
        other = doc.stream([N('Style', name='other')], V)
        t = hwp.tree(V, 1, data if case['src'] == 'doc' else other,
                     [other, data if case['src'] == 'sec' else other])
        path = hwp.write(hwp.scratch('a.hwp'), t)
        base += [path, {'doc': 'DocInfo', 'sec': 'bodytext/1'}[case['src']]]

    def run(*args):
        r = cli.run('hwp5proc', base + list(args), stdin)
        if r.exc or r.code:
            raise Violation('%r: %r' % (args, r))
        return r.out.decode('utf-8')
    blocks = event_blocks(run('--events'))
    expect_equal([b[0] for b in blocks],
                 ['STARTEVENT Record %d level=%d %s' % (m[0], m[1], m[3])
                  for m in full], 'events of all')
    sels = [([], [m[0] for m in full])]
    for n in range(len(full) + 2):
        sels.append((['--seqno=%d' % n], [n] if n < len(full) else []))
    for k in range(len(groups) + 2):
        sels.append((['--treegroup=%d' % k],
                     [e.seqno for e in groups[k]] if k < len(groups)
                     else []))
    for sel, want in sels:
        listed = json.loads(run(*sel))
        check_json(listed, [full[i] for i in want])
        expect_equal(json.loads(run('--json', *sel)), listed, '--json')
        expect_equal(run('--simple', *sel), ''.join(
            '%04d %s%s\n' % (full[i][0], ' ' * full[i][1], full[i][5])
            for i in want), '--simple %r' % sel)
        expect_equal(run('--format=%(seqno)s\\t%(level)s:%(tagname)s %(size)s'
                         ' \uac00%(type)s\\n', *sel), ''.join(
            '%d\t%d:%s %d \uac00%s\n' % (full[i][0], full[i][1], full[i][3],
                                         full[i][4], full[i][5])
            for i in want), '--format %r' % sel)
        expect_equal(event_blocks(run('--events', *sel)),
                     [blocks[i] for i in want], '--events %r' % sel)
    return case


def event_blocks(text):
    out = []
    for line in text.splitlines():
        if line.lstrip().startswith('STARTEVENT Record '):
            out.append([line.strip()])
        elif out:
            out[-1].append(line)
        else:
            raise Violation('an event of no record: %r' % line)
    return out


# ---- searches

DOCS = {
    # sections as sequences of groups, or a broken one
    '0': [],
    '1': ['p'],
    '2': ['px', 'tu'],
    '3': ['s', '', 'xd', 'pp', 'b', 'u', 'p', 't', 'x', 'd', 'px'],
    '4': ['bd', 'u'],
    '5': ['gp', 'g'],
    'e': ['p!p', 'x'],
}


def search_docs(name):
    """-> path, [(stream, [essences])], whether it fails"""
    secs = DOCS[name]
    info = hwp.docinfo(V, sections=len(secs), fonts=1)
    streams = []
    datas = []
    for s in secs:
        encs = []
        ns = []
        for i, k in enumerate(s):
            if k == '!':            # cut inside its payload
                ns.append(N('CharShape', raw=b'\1\2\3'))
            else:
                ns.append(group(k, i))
        encs = doc.encode(ns, V)
        datas.append(rec.encode((e.tag, e.level, e.payload) for e in encs))
        streams.append(encs)
    path = hwp.scratch('%s.hwp' % name)
    hwp.write(path, hwp.tree(V, 1, info, datas))
    out = [('DocInfo', [found(e) for e in doc.encode(
        hwp.docinfo_nodes(sections=len(secs), fonts=1), V)], False)]
    for i, encs in enumerate(streams):
        ok = []
        bad = False
        for e in encs:
            if e.node.raw == b'\1\2\3' and e.tag == 21:
                bad = True
                break
            ok.append(found(e))
        out.append(('BodyText/Section%d' % i, ok, bad))
    return path, out


def found(e):
    return (e.seqno, e.tag, layout_name(e.tag), expected_type(e),
            bool(e.node.extra) or e.tag == 0x3f0 and bool(e.payload) or
            e.tag == 0x20 and bool(e.payload))


def layout_name(tag):
    from hwp5.tagids import tagnames
    return tagnames.get(tag, 'HWPTAG%d' % (tag - 16))


MODELS = ['Paragraph', 'ParaText', 'CharShape', 'TableCell', 'ListHeader',
          'TableControl', 'Control', 'TagModel32', 'UnknownTagModel',
          'FaceName', 'Style', 'NoSuchModel', 'paragraph', 'PageDef',
          'BookmarkControlData', 'ControlData', 'RecordModel', 'ShapeComponent', 'ShapePicture',
          'GShapeObjectControl', 'Shape', 'Para', 'Text']
TAGS = ['HWPTAG_PARA_TEXT', '66', '67', '71', '72', '21', 'HWPTAG_CTRL_HEADER',
        'HWPTAG_CHAR_SHAPE', '32', '1008', 'HWPTAG992', '5', '999', 'NONE',
        'HWPTAG_TABLE', '19', '016', 'HWPTAG_SHAPE_COMPONENT', '76', '85',
        'HWPTAG_SHAPE_COMPONENT_PICTURE', 'HWPTAG_PARA', 'HWPTAG',
        'hwptag_para_text', '0x43', '6', '-1', '66 ']


def find_cases(tier):
    combos = [(), ('1',), ('2',), ('3',), ('4',), ('e',), ('5',)]
    combos += list(itertools.permutations('012e', 2))
    combos += [('1', '1'), ('e', '3', '2'), ('2', 'e', '4'), ('0', '3', '4')]
    if tier != 'quick':
        combos += list(itertools.permutations('0124e', 3))
    for c in combos:
        for crit in [''] + ['m:' + m for m in MODELS] + \
                ['t:' + t for t in TAGS]:
            for inc in (0, 1):
                if inc and crit and tier == 'quick' and len(c) > 1 and \
                        'e' not in c:
                    continue
                yield {'d': list(c), 'c': crit, 'i': inc}


def matches(r, case):
    seqno, tag, tagname, typ, incomplete = r
    kind, _, what = case['c'].partition(':')
    if case['i'] and not incomplete:
        return False
    if kind == 'm':
        return typ == what
    if kind == 't':
        try:
            return tag == int(what)
        except ValueError:
            return tagname == what
    return True


_FOUND = {}


def find_run(case):
    args = ['find']
    kind, _, what = case['c'].partition(':')
    if kind == 'm':
        args.append('--model=' + what)
    if kind == 't':
        args.append('--tag=' + what)
    if case['i']:
        args.append('--incomplete')
    want = []
    paths = []
    for d in case['d']:
        if d not in _FOUND:
            _FOUND[d] = search_docs(d)
        path, streams = _FOUND[d]
        paths.append(path)
        for stream, recs, bad in streams:
            for r in recs:
                if matches(r, case):
                    want.append((path, stream) + r[:1] + r[2:4])
            if bad:
                break
    failing = any(b for d in case['d'] for s, r, b in _FOUND[d][1])

    def run(args, stdin=b''):
        r = cli.run('hwp5proc', args, stdin)
        if r.exc:
            raise Violation('%r: %r' % (args, r))
        if not failing:
            expect_equal(r.code, 0, 'exit status')
        return r.out.decode('utf-8')
    lines = ['%s %s %d %s %s\n' % w for w in want]
    # the order of the sections is not prescribed
    expect_equal(sorted(run(args + paths).splitlines(True)), sorted(lines),
                 'found')
    for end in ('\n', ''):
        expect_equal(sorted(run(
            args + ['--from-stdin'], ('\n'.join(paths) + (
                end if paths else '')).encode()).splitlines(True)),
            sorted(lines), 'found from stdin')
    fmt = '%(type)s|%(seqno)s|%(filename)s|%(stream)s'
    expect_equal(sorted(run(args + ['--format=' + fmt] + paths)
                        .splitlines(True)),
                 sorted('%s|%d|%s|%s\n' % (w[4], w[2], w[0], w[1])
                        for w in want), 'found, formatted')
    # dumps: a line, the model, and its values
    text = run(args + ['--dump', '--format=@@%(stream)s %(seqno)s'] + paths)
    parts = text.split('@@')
    expect_equal(parts[0], '', 'before the first dump')
    got = []
    for p in parts[1:]:
        j, _ = json.JSONDecoder().raw_decode(p.split('\n', 1)[1])
        stream, seqno = p.split('\n', 1)[0].split(' ')
        expect_equal(j['seqno'], int(seqno), 'dumped model')
        got.append((stream, j['seqno'], j['tagname'], j['type']))
    expect_equal(sorted(got), sorted(w[1:] for w in want), 'dumps')
    return len(want), case['c'], case['d']


# ---- names of searched files

FILES = ['a', ' a', 'a ', ' a ', '\ta', 'a\t', 'a b', '\uac00', '%s',
         '%(seqno)s', '#a', '"a"', "'a'", '\\a', 'a\x0bb',
         '\x0ca\x0c', '\u3000a\u3000', 'a\x85b', '\u2028a', '.a', '-a',
         '@a', '~', '*', 'a.hwp', '\ufeffa', '\x1fa']


def file_cases(tier):
    n = len(FILES)
    for i in range(n):
        yield {'f': [i]}
    for i, j in itertools.permutations(range(n), 2):
        if tier != 'quick' or abs(i - j) == 1:
            yield {'f': [i, j]}


def file_run(case):
    if '2' not in _FOUND:
        _FOUND['2'] = search_docs('2')
    path, streams = _FOUND['2']
    with open(path, 'rb') as f:
        data = f.read()
    top = hwp.scratch('p25 files')
    import shutil
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    names = [FILES[i] for i in case['f']]
    for name in names:
        with open(os.path.join(top, name), 'wb') as f:
            f.write(data)
    want = sorted('%s %s %d %s %s' % ((name, stream) + r[:1] + r[2:4])
                  for name in names for stream, recs, bad in streams
                  for r in recs if r[3] == 'Paragraph')
    for end in ('\n', ''):
        r = cli.run('hwp5proc', ['find', '--model=Paragraph',
                                 '--from-stdin'],
                    ('\n'.join(names) + end).encode(), cwd=top)
        expect_equal((r.code, sorted(r.out.decode('utf-8').split('\n'))),
                     (0, [''] + want), 'found from stdin (%r)' % r)
    r = cli.run('hwp5proc', ['find', '--model=Paragraph', '--'] + names,
                cwd=top)
    expect_equal((r.code, sorted(r.out.decode('utf-8').split('\n'))),
                 (0, [''] + want), 'found (%r)' % r)
    return want


# ---- many records

def many_cases(tier):
    for g in ('p', 'u', 'x', 'px', 'tus', 'pb'):
        for n in (99, 257, 1025):
            if n == 1025 and len(g) == 1 or n < 1025:
                yield {'g': g, 'n': n}


def many_run(case):
    from hwp5.binmodel import ModelStream
    encs = doc.encode(nodes_of({'g': (case['g'] * case['n'])[:case['n']]}),
                      V)
    data = rec.encode((e.tag, e.level, e.payload) for e in encs)

    def s():
        return ModelStream(Source(data), V)
    full = [essence(m) for m in s().models()]
    expect_equal([m[:3] + m[5:7] for m in full],
                 [(e.seqno, e.level, e.tag, expected_type(e), e.payload)
                  for e in encs], 'all models')
    groups = groups_of(encs)
    near = [0, 99, 100, 255, 256, 257, 1023, 1024]
    for n in near + [len(encs) - 1, len(encs)]:
        m = s().model(n)
        want = full[n] if n < len(full) else None
        expect_equal(m and essence(m), want, 'model %d' % n)
    for k in near + [len(groups) - 1, len(groups)]:
        want = [full[e.seqno] for e in groups[k]] if k < len(groups) else []
        expect_equal([essence(m) for m in s().models(treegroup=k)], want,
                     'treegroup %d' % k)
    expect_equal([[essence(m) for m in g]
                  for g in s().models_treegrouped()],
                 [[full[e.seqno] for e in g] for g in groups],
                 'tree groups')
    check_json(json.loads(s().models_json().open().read()), full)
    starts = [it for ev, it in s().parse_model_events()
              if getattr(ev, '__name__', '') == 'STARTEVENT' and
              it['type'].__name__ == 'RecordModel']
    expect_equal([(it['record']['seqno'], it['treegroup']) for it in starts],
                 [(e.seqno, k) for k, g in enumerate(groups) for e in g],
                 'records of the events')
    return len(full)


FAMILIES = [Family('library', select_cases, library_run),
            Family('many', many_cases, many_run),
            Family('file names', file_cases, file_run),
            Family('command', cli_cases, cli_run),
            Family('find', find_cases, find_run)]
