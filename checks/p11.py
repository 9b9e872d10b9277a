# -*- coding: utf-8 -*-
"""P11 field marks in the text against the nesting of field elements."""
import itertools

from mc import doc
from mc import layout
from mc import skeleton
from mc.core import Family, Violation, expect_equal
from mc.doc import N, para
from checks import p10

PROPERTY = 'P11'
LEVEL = 'exploration'
RULE = ('a case is a sequence of text, field start marks, field end marks and '
        'controls, with its line boundaries and the containers around; '
        'non-trivial when it has a mark')
ASSUMPTIONS = ['an end mark belongs to the nearest open field of the same '
               'text (the same section body, cell, note, header or text box)']

BRK = 13
KIND = {'[': 'FieldClickHere', '(': 'FieldHyperLink', '<': 'FieldMemo'}


def make(k, inner=None):
    if k in KIND:
        return N(KIND[k])
    if k == '?':
        return N('Control', chid='%zzz')
    if k == ']':
        return ('end',)
    if k == 'n':
        return 10
    if k == 'T':
        return doc.table([[inner if inner is not None else [
            para(['t', BRK])]]])
    if k == 'F':
        return doc.note('FootNote', inner or [para(['f', BRK])])
    if k == 'G':
        return doc.textbox(inner or [para(['g', BRK])])
    if k == 'A':
        return N('AutoNumbering')
    if k == 'k':
        return '\uac00'
    return k


def tokens(s, inner=None):
    return [make(k, inner) for k in s]


def text_of(s):
    """all text below a skeleton, in order"""
    if s[0] == '#text':
        return s[1]
    if s[0] == '#ctrl':
        return '\\%d' % s[1]
    return ''.join(text_of(c) for c in s[2])


def check(nodes, plain=None):
    data = check_structure(nodes)
    if plain is not None:
        a = skeleton.observed(doc.parse_xml(data))
        b = skeleton.observed(doc.parse_xml(doc.section_xml(plain)))
        expect_equal(text_of(a), text_of(b), 'text with/without fields')
    return data


def check_structure(nodes):
    doc.CODE_OF['Control'] = 3
    try:
        return p10.check(nodes)
    finally:
        doc.CODE_OF['Control'] = 0x0b


# ---- one paragraph, one line or several

def flat_cases(tier):
    n = 5 if tier == 'quick' else 6
    for k in range(1, n + 1):
        for t in itertools.product('a[]' if k > 4 else 'a[(]', repeat=k):
            if set(t) & set('[]('):
                yield {'x': ''.join(t), 'l': []}


def positions(toks):
    pos = [0]
    for t in toks:
        pos.append(pos[-1] + doc.token_units(t))
    return pos


def line_cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(2, n + 1):
        for t in itertools.product('a[]?' if k < 4 else 'a[]', repeat=k):
            if not set(t) & set('[]'):
                continue
            for r in (1, 2, 3):
                for cut in itertools.combinations(range(1, k + 1), r):
                    yield {'x': ''.join(t), 'l': list(cut)}


def flat_run(case):
    nodes = []
    for strip in (False, True):
        x = case['x']
        toks = tokens(x) + [BRK]
        pos = positions(toks)
        lines = [0] + [pos[c] for c in case['l']]
        if strip:
            # the same text and lines without the fields
            keep = [i for i, k in enumerate(x) if k not in '[](?']
            toks = [toks[i] for i in keep] + [BRK]
            lines = [0]
        nodes.append([doc.secpara(), para(toks, lines=lines),
                      para(['z', BRK])])
    return check(*nodes)


# ---- unknown kinds, other controls, every field kind

def mixed_cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(2, n + 1):
        for t in itertools.product('a[]?TA' if k < 5 else '[]?TA', repeat=k):
            if '[' in t or ']' in t:
                yield {'x': ''.join(t), 'l': []}
    for k in range(2, 4):
        for t in itertools.product('[]FGn<k', repeat=k):
            if '[' in t or ']' in t:
                yield {'x': ''.join(t), 'l': []}


def kind_cases(tier):
    for m in sorted(skeleton.FIELDS):
        for form in ('one', 'nest', 'lines', 'cell'):
            yield {'m': m, 'f': form}


def kind_run(case):
    f = N(case['m'], command='cmd')
    if case['f'] == 'one':
        toks = ['a', f, 'b', ('end',), 'c', BRK]
    elif case['f'] == 'nest':
        toks = ['a', N('FieldBookmark'), f, 'b', ('end',), 'c', ('end',),
                BRK]
    elif case['f'] == 'cell':
        toks = [doc.table([[[para([f, 'b', ('end',), 'c', BRK])]]]), BRK]
    else:
        toks = ['a', f, 'bcd', ('end',), 'e', BRK]
    lines = [0, 10, 11] if case['f'] == 'lines' else [0]
    return check([doc.secpara(), para(toks, lines=lines)])


# ---- fields and paragraphs, cells, notes

def across_cases(tier):
    n = 3 if tier == 'quick' else 4
    seqs = [''.join(t) for k in range(0, n)
            for t in itertools.product('a[]', repeat=k)]
    for s in seqs:
        for t in seqs:
            for end in ('', ']'):
                if set(s + t) & set('[]'):
                    yield {'p': [s, t, end]}


def across_run(case):
    nodes = [doc.secpara()]
    for s in case['p']:
        nodes.append(para(tokens(s) + [BRK]))
    return check(nodes)


def inner_cases(tier):
    n = 3 if tier == 'quick' else 4
    inner = [''.join(t) for k in range(0, n)
             for t in itertools.product('a[]', repeat=k)]
    outer = ['C', '[C', 'C]', '[C]', '[[C]]', '[]C', '[aCb', '?C]', '[?C]]',
             '(C']
    for o in outer:
        for i in inner:
            for kind in 'TFG':
                for two in (0, 1):
                    yield {'o': o, 'i': i, 'k': kind, 'two': two}


def inner_run(case):
    inner = [para(tokens(case['i']) + [BRK])]
    if case['two']:
        inner.append(para(['x', ('end',), 'y', BRK]))
    toks = []
    for k in case['o']:
        if k == 'C':
            toks.append(make(case['k'], inner))
        else:
            toks.append(make(k))
    nodes = [doc.secpara(), para(toks + [BRK]), para(['z', ('end',), 'w',
                                                      BRK])]
    return check(nodes)


def cells_cases(tier):
    seqs = [''.join(t) for k in range(0, 3)
            for t in itertools.product('a[]', repeat=k)]
    for a in seqs:
        for b in seqs:
            for o in ('C', '[C]'):
                yield {'o': o, 'a': a, 'b': b}


def cells_run(case):
    t = doc.table([[[para(tokens(case['a']) + [BRK])],
                    [para(tokens(case['b']) + [BRK])]]],
                  caption=[para(tokens(case['a']) + [BRK])])
    toks = [t if k == 'C' else make(k) for k in case['o']]
    return check([doc.secpara(), para(toks + [BRK]), para(['z', BRK])])


# ---- deep and long: more fields than any short text holds

MANY = (3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 64, 100)


def many_cases(tier):
    for n in MANY:
        deep = ''.join('[(<'[i % 3] + 'a' for i in range(n))
        ends = 'b]' * n
        xs = [deep + ends, deep, deep + ends[:-2], deep + ends + ']',
              '[a]' * n, '[a' * n + ']' * n + '(b]' * n,
              '(' + '[a]' * n + 'c]', '[T' * n + ']' * n, '[A' * n + ']k' * n,
              '[?a' * n + ']' * (2 * n), '?[a' * n + ']b' * (2 * n - 1)]
        for x in xs:
            k = len(x)
            for cuts in ([], [k // 2], [1, k // 2, k - 1],
                         list(range(1, k, 3)), list(range(1, k))):
                cuts = sorted(set(c for c in cuts if 0 < c <= k))
                if len(cuts) * n > 2500:
                    continue
                if cuts and set(x) & set('TA'):
                    continue
                yield {'x': x, 'l': cuts}


def many_across_cases(tier):
    for n in MANY:
        for a, b in (('[', ']'), ('[(', ']'), ('[a', 'b]]'), ('[]', ''),
                     ('[a]b', ']')):
            yield {'p': [a] * n + [b] * n}
            yield {'p': [a, b] * n}


# ---- containers in containers

def nested_cases(tier):
    sides = [(a, b) for a in ('', '[', '(') for b in ('', ']', 'a]')]
    for d in (2, 3):
        for t in itertools.product(range(9), repeat=d):
            for kinds in ('TFG', 'GTF') if d == 3 else ('TT', 'FG', 'GT'):
                yield {'s': [list(sides[i]) for i in t], 'k': kinds[:d],
                       'm': 0}
    for d in (2, 3, 4, 5, 8):
        for a, b in (('[', ']'), ('[(', ']]'), ('', ']'), ('[', ''),
                     ('[a', 'b'), ('?[', ']]')):
            for kinds in 'TFG':
                for m in (0, 1):
                    yield {'s': [[a, b]] * d, 'k': kinds * d, 'm': m}


def nested_run(case):
    inner = None
    for k, (a, b) in zip(case['k'] + 'x', reversed(case['s'] + [['', '']])):
        toks = tokens(a)
        if inner is not None:
            toks.append(make(was, inner))
        if case['m'] and inner is not None:
            toks += ['m', make('F')]
        toks += tokens(b) + [BRK]
        inner = [para(toks), para(['p', ('end',), 'q', BRK])]
        was = k
    return check([doc.secpara()] + inner + [para(['z', BRK])])


FAMILIES = [
    Family('nested', nested_cases, nested_run),
    Family('flat', flat_cases, flat_run),
    Family('lines', line_cases, flat_run),
    Family('mixed', mixed_cases, flat_run),
    Family('kinds', kind_cases, kind_run),
    Family('across', across_cases, across_run),
    Family('inner', inner_cases, inner_run),
    Family('cells', cells_cases, cells_run),
    Family('many', many_cases, flat_run),
    Family('many across', many_across_cases, across_run),
]
