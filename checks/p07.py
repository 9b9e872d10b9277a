# -*- coding: utf-8 -*-
"""P07 text + shape positions + line positions -> runs of the section XML."""
import itertools

from mc import doc
from mc.core import Family, TRIVIAL, Violation, expect, expect_equal
from mc.doc import N

PROPERTY = 'P07'
LEVEL = 'exploration'
RULE = ('a case is one text (tokens), one set of shape positions and one '
        'set of line positions; non-trivial when there is a boundary inside '
        'the text')
ASSUMPTIONS = ['the first shape and the first line start at position 0 and '
               'positions do not decrease',
               'a boundary inside a control or a surrogate pair takes effect '
               'after it']

TOK = {'a': 'a', 'k': '\uac00', 's': ' ', 'p': '\U0001f600',
       # the first and the last of their halves
       'q': '\U00010000', 'r': '\U000103ff', 'u': '\U0010fc00',
       'v': '\U0010ffff', 'w': '\ud7ff', 'x': '\ue000',
       'n': 0x0a, 't': ('w', 0x09), 'b': 'BOOK', 'c': 0x1f, 'j': '\u3042'}


def atoms(text):
    """-> list of (kind, value, first unit) of the indivisible items"""
    out = []
    pos = 0
    for k in text:
        t = TOK[k]
        if t == 'BOOK':
            t = N('BookmarkControl')
        out.append((k, t, pos))
        pos += doc.token_units(t)
    return out, pos


def expected(text, shapes, lines):
    ats, n = atoms(text)
    out = []
    for k, t, pos in ats:
        s = [sid for p, sid in shapes if p <= pos][-1]
        l = [i for i, p in enumerate(lines) if p <= pos][-1]
        if isinstance(t, str):
            out.append((l, s, t))
        elif isinstance(t, N):
            out.append((l, None, 'BookmarkControl'))
        else:
            code = t if isinstance(t, int) else t[1]
            out.append((l, s, code))
    return out


def observed(p):
    out = []
    seen = []
    for line in p:
        expect(line.tag == 'LineSeg', 'paragraph child %r' % line.tag)
        no = int(line.get('y')) // 1000
        expect(no not in seen, 'line %d appears twice' % no)
        seen.append(no)
        for x in line:
            if x.tag == 'Text':
                txt = x.text or ''
                expect(txt != '', 'empty text run')
                for ch in txt:
                    out.append((no, int(x.get('charshape-id')), ch))
            elif x.tag == 'ControlChar':
                out.append((no, int(x.get('charshape-id')),
                            int(x.get('code'))))
            else:
                out.append((no, None, x.tag))
    return out


def make(case):
    text, shapes, lines = case['x'], case['s'], case['l']
    ats, n = atoms(text)
    ids = case.get('i') or range(10, 10 + len(shapes))
    sh = list(zip(shapes, ids))
    return doc.para([t for _, t, _ in ats], shapes=sh, lines=lines,
                    lineseg=lines != []), sh


def run(case):
    """a batch of paragraphs in one section"""
    batch = case['batch']
    paras = []
    want = []
    for c in batch:
        p, sh = make(c)
        paras.append(p)
        want.append(expected(c['x'], sh, c['l'] or [0]))
    xml = doc.section_xml([doc.secpara()] + paras)
    root = doc.parse_xml(xml)
    got = [p for p in root.iter('Paragraph')][1:]
    expect_equal(len(got), len(paras), 'paragraphs')
    nontrivial = 0
    for c, p, w in zip(batch, got, want):
        try:
            o = observed(p)
        except Violation as e:
            raise Violation('%s in %r' % (e.message, c))
        expect_equal(o, w, 'styled characters (line, shape, character) of %r'
                     % c)
        if len(c['s']) + len(c['l']) > 2:
            nontrivial += 1
    if not nontrivial:
        return TRIVIAL
    return want


def subsets(points, maxn):
    for n in range(0, maxn + 1):
        for s in itertools.combinations(points, n):
            yield [0] + list(s)


def dups(points):
    """positions given twice: the later one wins"""
    for p in points:
        yield [0, p, p]
    yield [0, 0]


def singles(tier):
    q = tier == 'quick'
    keys = 'akspntbcj'
    # every subset of positions of plain and mixed texts
    for text in (('abcdef'.replace('b', 'k').replace('c', 's')
                  .replace('d', 'a').replace('e', 'j').replace('f', 'a'),
                  'papka', 'aaaaa') +
                 (() if q else ('apapapa', 'akjsakja'))):
        n = atoms(text)[1]
        for s in subsets(range(1, n + 1), n):
            for l in subsets(range(1, n + 1), n if n < 7 else 3):
                yield {'x': text, 's': s, 'l': l}
    for ln in (0, 1, 2):
        for x in itertools.product(keys, repeat=ln):
            n = atoms(x)[1]
            for s in itertools.chain(subsets(range(1, n + 2), 2),
                                     dups(range(1, n + 1))):
                for l in itertools.chain(
                        [[]], subsets(range(1, n + 2), 1)):
                    yield {'x': ''.join(x), 's': s, 'l': l}
    for ln in (1, 2, 3):
        for x in itertools.product('qruvwxp' if ln < 3 else 'qvx',
                                   repeat=ln):
            n = atoms(x)[1]
            for s in subsets(range(1, n + 1), 2):
                for l in subsets(range(1, n + 1), 1):
                    yield {'x': ''.join(x), 's': s, 'l': l}
    for ln in (3,) if q else (3, 4):
        for x in itertools.product('apkntb' if not q else 'apkb', repeat=ln):
            n = atoms(x)[1]
            marks = sorted(set(p for _, _, p in atoms(x)[0]) |
                           set(p + 1 for _, _, p in atoms(x)[0]) | set([n]))
            marks = [m for m in marks if m > 0]
            for s in subsets(marks, 2):
                for l in subsets(marks, 2 if ln == 3 else 1):
                    yield {'x': ''.join(x), 's': s, 'l': l}


def cases(tier):
    batch = []
    for c in singles(tier):
        batch.append(c)
        if len(batch) == 40:
            yield {'batch': batch}
            batch = []
    if batch:
        yield {'batch': batch}


def id_cases(tier):
    """every assignment of few shapes to the shape positions"""
    q = tier == 'quick'
    batch = []
    for text in ('akaskb', 'apta') if q else ('akaskb', 'apta', 'aajkpsk'):
        n = atoms(text)[1]
        marks = [m for _, _, m in atoms(text)[0] if m > 0] + [n]
        for s in subsets(marks, 4):
            for ids in itertools.product((0, 1) if len(s) > 3 else (0, 1, 2),
                                         repeat=len(s)):
                for l in ([0], [0, marks[1]]):
                    batch.append({'x': text, 's': s, 'l': l, 'i': list(ids)})
                    if len(batch) == 40:
                        yield {'batch': batch}
                        batch = []
    if batch:
        yield {'batch': batch}


def long_cases(tier):
    """long texts, many boundaries, positions around powers of two"""
    for k in 'akp':
        u = atoms(k)[1]
        for n in (255, 256, 257, 1000, 40000, 70000):
            for pts in ([n * u // 2], [255], [256, 257], [n * u],
                        list(range(1, min(n * u, 300))),
                        list(range(7, n * u, max(n // 40, 1)))):
                pts = [p for p in pts if p > 0]
                yield {'batch': [{'x': k * n, 's': [0] + pts, 'l': [0]},
                                 {'x': k * n, 's': [0], 'l': [0] + pts}]}


FAMILIES = [Family('positions', cases, run),
            Family('equal shapes', id_cases, run),
            Family('long', long_cases, run)]
