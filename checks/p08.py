# -*- coding: utf-8 -*-
"""P08 script runs partition text by language class."""
import itertools

from mc import doc
from mc.core import Family, TRIVIAL, Violation, expect, expect_equal

PROPERTY = 'P08'
LEVEL = 'exploration'
RULE = ('a case is a block of code points, each in every context of the '
        'context list, or a batch of words over one character of each '
        'boundary of each block, or a section with such texts in it')
ASSUMPTIONS = ['the characters U+0000..U+0040 are the class-neutral ones',
               'a text of neutral characters only is one run, of any class',
               'blocks and classes are those of the table in charsets.py, '
               'transcribed in the check']

# first, last, class (None: neutral), after the Unicode block chart
BLOCKS = [
    (0x0000, 0x0040, None),         # controls, space, digits, punctuation
    (0x0041, 0x007f, 'en'),         # Basic Latin
    (0x0080, 0x00ff, 'en'),         # Latin-1 Supplement
    (0x0100, 0x017f, 'en'),         # Latin Extended-A
    (0x0180, 0x024f, 'en'),         # Latin Extended-B
    (0x1100, 0x11ff, 'ko'),         # Hangul Jamo
    (0x2e80, 0x2eff, 'cn'),         # CJK Radicals Supplement
    (0x2f00, 0x2fdf, 'cn'),         # Kangxi Radicals
    (0x3000, 0x303f, 'symbol'),     # CJK Symbols and Punctuation
    (0x3040, 0x309f, 'jp'),         # Hiragana
    (0x30a0, 0x30ff, 'jp'),         # Katakana
    (0x3130, 0x318f, 'ko'),         # Hangul Compatibility Jamo
    (0x3400, 0x4dbf, 'cn'),         # CJK Unified Ideographs Extension A
    (0x4e00, 0x9fff, 'cn'),         # CJK Unified Ideographs
    (0xa960, 0xa97f, 'ko'),         # Hangul Jamo Extended-A
    (0xac00, 0xd7af, 'ko'),         # Hangul Syllables
    (0xd7b0, 0xd7ff, 'ko'),         # Hangul Jamo Extended-B
    (0xf900, 0xfaff, 'cn'),         # CJK Compatibility Ideographs
]


def table():
    t = ['other'] * 0x110000
    for a, b, c in BLOCKS:
        t[a:b + 1] = [c] * (b + 1 - a)
    return t


CLASS = table()


def check_runs(text, runs, what='runs'):
    runs = list(runs)
    got = ''.join(t for l, t in runs)
    if got != text:
        raise Violation('%s of %r give %r (%r)' % (what, text, got, runs))
    prev = None
    for lang, t in runs:
        expect(t != '', 'an empty run in %r' % (runs,))
        expect(lang is not None, 'a run without class in %r' % (runs,))
        expect(lang != prev, 'adjacent runs of one class in %r' % (runs,))
        prev = lang
        for ch in t:
            c = CLASS[ord(ch)]
            if c is not None and c != lang:
                raise Violation('%r is of class %s, in a run of class %s: %r'
                                % (ch, c, lang, runs))
    return runs


def expect_neutral(text, runs):
    """a text without any class is one run"""
    if text and all(CLASS[ord(c)] is None for c in text):
        expect_equal(len(runs), 1, 'runs of %r' % text)


# ---- every code point

CONTEXTS = [('', ''), ('a', 'a'), ('\uac00', '\u3042'), ('\u4e00', ''),
            ('', '\u3001'), (' ', ' '), ('\u0416', '\U0001f600')]
STEP = 0x400


def point_cases(tier):
    for first in range(0, 0x110000, STEP):
        yield {'first': first}


def point_run(case):
    from hwp5.charsets import get_unichr_lang
    from hwp5.charsets import tokenize_unicode_by_lang
    seen = set()
    for cp in range(case['first'], case['first'] + STEP):
        ch = chr(cp)
        expect_equal(get_unichr_lang(ch), CLASS[cp], 'class of U+%04X' % cp)
        for a, b in CONTEXTS:
            text = a + ch + b
            runs = check_runs(text, tokenize_unicode_by_lang(text))
            expect_neutral(text, runs)
        seen.add(CLASS[cp])
    return sorted(map(str, seen)), case['first']


# ---- words

def reps(tier):
    out = [' ', '\t', '0', '@', 'A', '\u024f', '\u0250', '\u1100', '\u2e80',
           '\u3000', '\u3042', '\u3131', '\u4e00', '\uac00', '\ud7ff',
           '\ue000', '\U0001f600', '\ud800']
    return out


def word_cases(tier):
    rs = reps(tier)
    depth = 4 if tier == 'quick' else 5
    for n in range(depth):
        for head in itertools.product(range(len(rs)), repeat=min(n, 2)):
            yield {'head': list(head), 'tail': n - len(head)}
    # longer ones of few classes
    for n in (6, 7, 8) if tier == 'quick' else (6, 7, 8, 9, 10):
        for head in itertools.product((0, 2, 4, 13), repeat=2):
            yield {'head': list(head), 'tail': n - 2, 'few': 1}


def word_run(case):
    from hwp5.charsets import tokenize_unicode_by_lang
    rs = reps('')
    tail = [0, 4, 13] if case.get('few') else range(len(rs))
    n = 0
    for t in itertools.product(tail, repeat=case['tail']):
        text = ''.join(rs[k] for k in case['head'] + list(t))
        runs = check_runs(text, tokenize_unicode_by_lang(text))
        expect_neutral(text, runs)
        if text == '':
            expect_equal(runs, [], 'runs of no text')
        n += len(runs)
    return n, case['head']


# ---- sections

SECTION_REPS = ['a', ' ', '\uac00', '\u3042', '\u4e00', '\u3001', '\u0416',
                '\U0001f600', '0']


def section_cases(tier):
    n = 3 if tier == 'quick' else 4
    batch = []
    for ln in range(1, n + 1):
        for t in itertools.product(range(len(SECTION_REPS)), repeat=ln):
            for cut in range(0, ln + 1):
                for how in ('shape', 'line', 'control') if cut else ('',):
                    if how == 'control' and cut == ln:
                        continue
                    batch.append([list(t), cut, how])
                    if len(batch) == 60:
                        yield {'batch': batch}
                        batch = []
    if batch:
        yield {'batch': batch}


def section_run(case):
    """the Text elements of one shape, line and gap between controls"""
    paras = []
    want = []
    for t, cut, how in case['batch']:
        text = [SECTION_REPS[k] for k in t]
        head, tail = ''.join(text[:cut]), ''.join(text[cut:])
        u = doc.token_units(head)
        shapes, lines, toks = [(0, 3)], [0], [head + tail]
        pieces = [head, tail]
        if how == 'shape':
            shapes.append((u, 4))
        elif how == 'line':
            lines.append(u)
        elif how == 'control':
            toks = [head, ('w', 9), tail]
        else:
            pieces = [head + tail]
        want.append([p for p in pieces if p])
        paras.append(doc.para(toks, shapes=shapes, lines=lines))
    root = doc.parse_xml(doc.section_xml([doc.secpara()] + paras))
    got = list(root.iter('Paragraph'))[1:]
    expect_equal(len(got), len(paras), 'paragraphs')
    seen = []
    for c, p, w in zip(case['batch'], got, want):
        groups = []
        prev = None
        for line in p:
            for x in line:
                key = None
                if x.tag == 'Text':
                    key = id(line), x.get('charshape-id')
                    if key != prev:
                        groups.append([])
                    groups[-1].append((x.get('lang'), x.text or ''))
                prev = key
        expect_equal([''.join(t for l, t in g) for g in groups], w,
                     'texts of %r' % c)
        for text, g in zip(w, groups):
            expect_neutral(text, check_runs(text, g, 'Text elements'))
            seen.append(len(g))
    return seen


FAMILIES = [Family('code points', point_cases, point_run),
            Family('words', word_cases, word_run),
            Family('sections', section_cases, section_run)]
