# -*- coding: utf-8 -*-
"""P19 plain text conversion keeps all text in reading order."""
import itertools
import re

from mc import cli
from mc import conv
from mc import doc
from mc import hwp
from mc.core import Family, Violation, expect, expect_equal
from mc.doc import N, para
from checks import p10

PROPERTY = 'P19'
LEVEL = 'exploration'
RULE = ('a case is one document: a block of paragraphs enumerated over token '
        'sequences, character shape splits and line splits, or a block of '
        'characters, or containers nested in each other, or sections, or a '
        'command line or a sequence of conversions; its text is compared '
        'with the one which its records denote')
ASSUMPTIONS = ['characters which XML cannot represent are not kept',
               'every extended control character has its control record and '
               'the reverse, in the same order',
               'containers are nested less than 30 deep']

V = (5, 0, 3, 4)
BRK = 13
ILLEGAL = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]')
ONE = {9: '\t', 10: '\n', 24: '-', 30: '\xa0', 31: ' '}
NOTES = ('FootNote', 'EndNote', 'Header', 'Footer', 'HiddenComment')


def denoted(paras):
    """text of a list of paragraphs"""
    out = []
    for p in paras:
        for t in p.tokens:
            if isinstance(t, str):
                out.append(ILLEGAL.sub('', t))
            elif isinstance(t, int):
                out.append(ONE.get(t, ''))
            elif isinstance(t, N):
                if t.model == 'TableControl':
                    out.append('\n<\ud45c>\n')
                elif t.model == 'GShapeObjectControl':
                    out.append('\n<\uadf8\ub9bc>\n')
                elif t.model in NOTES:
                    out.append('\n')
                    out.append(denoted(t.children[1:]))
            elif t[0] == 'w':
                out.append(ONE.get(t[1], ''))
        out.append('\n')
    return ''.join(out)


def tree(sections, flags=0, version=V, **kw):
    data = []
    for s in sections:
        d = doc.stream(s, version)
        if flags & 4 and not flags & 1:
            from mc import rec
            d += rec.encode([(1000, 0, b'\0' * (-(len(d) + 4) % 16))])
        data.append(d)
    kw.setdefault('docinfo_bytes',
                  hwp.docinfo(version, sections=len(data)))
    return hwp.tree(version, flags, sections=data,
                    viewtext=data if flags & 4 else None,
                    summary=hwp.summaryinfo(), **kw)


def text_of(sections, **kw):
    return conv.text(conv.hwp5file(tree(sections, **kw))).decode('utf-8')


def compare(got, sections, what='text'):
    want = ''.join(denoted(s) for s in sections)
    if got == want:
        return
    n = 0
    while n < len(got) and n < len(want) and got[n] == want[n]:
        n += 1
    # the paragraph where they differ
    at = 0
    where = None
    for s in sections:
        for p in s:
            at += len(denoted([p]))
            if at > n and where is None:
                where = p
    raise Violation('%s: differs at %d: %r, not %r; paragraph of %r, shapes '
                    '%r, lines %r' % (
                        what, n, got[max(0, n - 20):n + 30],
                        want[max(0, n - 20):n + 30],
                        where and where.tokens,
                        where and where.shapes, where and where.lines))


# ---- texts of paragraphs

def tok(k):
    if k == 'x':
        return 'xy'
    if k == ' ':
        return ' '
    if k == '<':
        return '<&'
    if k == 'U':
        return '\U00020000'
    if k == '-':
        return 0x18
    if k == '_':
        return 30
    if k == '=':
        return 31
    if k == 'f':
        return N('FieldClickHere', command='c')
    if k == 'e':
        return ('end',)
    if k == 'l':
        return N('FieldHyperlink', command='c')
    return p10.make(k)


ALPHA = 'xk U<nt-_=TGFHCIABfe'
FEW = 'xknTFGfe t'


def balanced(seq):
    d = 0
    for k in seq:
        d += (k in 'fl') - (k == 'e')
        if d < 0:
            return False
    return d == 0


def seqs(alpha, n):
    return [s for s in map(''.join, itertools.product(alpha, repeat=n))
            if balanced(s)]


def mk(seq, shapes, lines, lineseg=True, brk=True):
    """a paragraph: shapes, lines: bits, one for each inner boundary"""
    toks = [tok(k) for k in seq] + ([BRK] if brk else [])
    pos = [0]
    for t in toks:
        pos.append(pos[-1] + doc.token_units(t))
    cuts = pos[1:len(toks)]
    # the text tokens of two characters have an inner place as well
    ins = [pos[i] + 1 for i, t in enumerate(toks)
           if isinstance(t, str) and len(t) == 2]
    cuts = sorted(cuts + ins)
    sh = [(0, 0)] + [(c, 1 + i % 2) for i, c in enumerate(cuts)
                     if shapes >> i & 1]
    ln = [0] + [c for i, c in enumerate(cuts) if lines >> i & 1]
    p = para(toks, shapes=sh, lines=ln, lineseg=lineseg)
    p.shapes = sh
    return p, len(cuts)


def ncuts(seq):
    return len(seq) + sum(1 for k in seq if k in 'x<')


BLOCK = 200
INFO = {}


def info3():
    if not INFO:
        INFO['x'] = hwp.docinfo(V, charshapes=3)
    return INFO['x']


def plan(tier):
    """(alphabet, length, every split?)"""
    q = tier == 'quick'
    out = [(ALPHA, 0, True), (ALPHA, 1, True), (ALPHA, 2, True),
           (ALPHA, 3, False), (FEW, 3, True)]
    if q:
        out += [('xTFfe', 4, True)]
    else:
        out[3:] = [(ALPHA, 3, True), ('xTFfe', 4, True), ('xTfe', 5, True),
                   (FEW, 4, False), ('xTfe', 6, False)]
    return out


def splits(seq, every):
    n = ncuts(seq)
    if every:
        for a in range(1 << n):
            for b in range(1 << n):
                yield a, b, True
    else:
        full = (1 << n) - 1
        for a, b in ((0, 0), (full, 0), (0, full), (full, full),
                     (0x55 & full, 0x33 & full), (0x2a & full, 0x15 & full)):
            yield a, b, True
    yield 0, 0, False
    yield (1 << n) - 1, 0, False


def text_cases(tier):
    for alpha, n, every in plan(tier):
        block = []
        size = 0
        for s in seqs(alpha, n):
            c = ncuts(s)
            if every and c > 5:
                continue
            block.append(s)
            size += (1 << 2 * c) if every else 6
            if size >= BLOCK:
                yield {'s': block, 'e': every}
                block, size = [], 0
        if block:
            yield {'s': block, 'e': every}


def text_run(case):
    n = 0
    paras = [doc.secpara(['s'])]
    paras[0].shapes = ()
    for s in case['s']:
        for a, b, seg in splits(s, case['e']):
            p, _ = mk(s, a, b, seg)
            paras.append(p)
            n += 1
            if len(paras) > 400:
                compare(text_of([paras], docinfo_bytes=info3()), [paras])
                paras = paras[:1]
    got = text_of([paras], docinfo_bytes=info3())
    compare(got, [paras])
    return got


# ---- characters

def char_cases(tier):
    for b in range(256):
        if not 0xd8 <= b < 0xe0:
            yield {'b': b << 8}
    planes = range(1, 17)
    for p in planes:
        for b in range(256):
            if tier == 'quick' and b not in (0, 1, 0x7f, 0x80, 0xff) and \
                    p not in (2,):
                continue
            yield {'b': p << 16 | b << 8}


def char_run(case):
    paras = []
    for c in range(case['b'], case['b'] + 256):
        if c < 32:
            continue
        x = chr(c)
        for s in (x + 'a' + x + '\uac00' + x + x, x):
            p = para([s, BRK], shapes=[(0, 0)])
            p.shapes = ()
            paras.append(p)
    p = para([''.join(chr(c) for c in range(case['b'], case['b'] + 256)
                      if c >= 32) + 'z', BRK])
    p.shapes = ()
    paras.append(p)
    compare(text_of([paras]), [paras])
    return case['b']


# ---- lone surrogates, other things which are not characters

def odd_cases(tier):
    units = [0xd800, 0xdbff, 0xdc00, 0xdfff, 0xfffe, 0xffff, 0x41, 0xac00]
    for n in (1, 2, 3):
        for t in itertools.product(units, repeat=n):
            yield {'u': list(t)}


def odd_run(case):
    """what is a character stays where it is"""
    s = ''.join(map(chr, case['u']))
    s = s.encode('utf-16le', 'surrogatepass').decode('utf-16le',
                                                     'surrogatepass')
    want = ''.join(c for c in s if not 0xd800 <= ord(c) < 0xe000 and
                   c not in '\ufffe\uffff')
    paras = [para(['<' + s + '>', BRK]), para(['next', BRK])]
    got = text_of([paras])
    # the place of what cannot be represented may be marked
    got = got.replace('\ufffd', '')
    expect_equal(got, '<' + want + '>\nnext\n', 'text')
    return got


# ---- containers in each other

def nest_cases(tier):
    for c in p10.nest_cases(tier):
        yield c
    for n in (10, 20) + (() if tier == 'quick' else (25,)):
        for k in 'TGFHCV':
            for at in ('only', 'first', 'last'):
                yield {'p': k * n, 'at': at}


def nest_run(case):
    paras = [p10.P('deep')]
    for k in reversed(case['p']):
        c = p10.container(k, paras)
        if case['at'] == 'only':
            paras = [para([c])]
        elif case['at'] == 'first':
            paras = [p10.P(c, 'x'), p10.P('y')]
        elif case['at'] == 'last':
            paras = [p10.P('y'), p10.P('x', c)]
        else:
            paras = [p10.P('x', c, p10.container(k, [p10.P('v')]), 'y'),
                     p10.P(p10.c2(k))]
    s = [doc.secpara()] + paras
    for p in s:
        p.shapes = ()
    got = text_of([s])
    compare(got, [s])
    return got


# ---- many of a kind

def many_cases(tier):
    from checks import p20
    for c in p20.many_cases(tier):
        yield c
    for n in (500, 2000):
        for how in ('texts', 'notes', 'sections'):
            if n * n < 300000 or how == 'sections':
                yield {'n': n, 'how': how}


def many_run(case):
    from checks import p20
    sections = p20.many_sections(case)
    got = text_of(sections)
    compare(got, sections)
    return got


# ---- sections and columns

def section_cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        for order in itertools.permutations(range(k)):
            for empty in range(1 << k) if k < 3 else (0, 1, (1 << k) - 1):
                yield {'o': list(order), 'e': empty}
    for k in (10, 11, 12, 30, 101):
        yield {'o': sorted(range(k), key=str), 'e': 0}
        yield {'o': list(reversed(range(k))), 'e': 5}
    for sp in itertools.product((0, 1, 2, 3, 4, 8), repeat=3):
        for where in ('none', 'start', 'mid', 'end'):
            yield {'sp': list(sp), 'w': where}


def section_run(case):
    if 'sp' in case:
        paras = [doc.secpara(['s'])]
        for i, sp in enumerate(case['sp']):
            toks = ['p%d' % i]
            col = doc.cold(2)
            if case['w'] == 'start':
                toks.insert(0, col)
            elif case['w'] == 'mid':
                toks += [col, 'q']
            elif case['w'] == 'end':
                toks.append(col)
            paras.append(p10.P(*toks, split=sp))
        sections = [paras, [doc.secpara(['t'])]]
        t = tree(sections)
    else:
        sections = []
        for i in range(len(case['o'])):
            s = [doc.secpara(['' if case['e'] >> i & 1 else 'sec%d' % i])]
            s += [p10.P('x%d' % i, p10.make('T'))] * (i % 3)
            sections.append(s)
        t = tree(sections)
        body = t['BodyText']
        t['BodyText'] = dict(('Section%d' % i, body['Section%d' % i])
                             for i in case['o'])
    for s in sections:
        for p in s:
            p.shapes = ()
    got = conv.text(conv.hwp5file(t)).decode('utf-8')
    compare(got, sections)
    return got


# ---- the command, and sequences of conversions

def some_doc(k):
    """a document of two sections"""
    out = [[doc.secpara(['one ', p10.make(k), 'two']), p10.P('\uac00 ', 10,
                                                            p10.make(k))],
           [doc.secpara(), p10.P(k, p10.make(k))]]
    for s in out:
        for p in s:
            p.shapes = ()
    return out


def command_cases(tier):
    for flags in (0, 1, 4, 5):
        for k in 'akTGFHCB':
            for how in ('stdout', 'output', 'exists', 'dash', 'debug'):
                yield {'f': flags, 'k': k, 'h': how}


def command_run(case):
    import os
    s = some_doc(case['k'])
    name = 'p19.hwp'
    path = hwp.write(hwp.scratch(name), tree(s, case['f']))
    out = hwp.scratch('p19.txt')
    for p in (out,):
        if os.path.exists(p):
            os.unlink(p)
    args = [path]
    if case['h'] in ('output', 'exists'):
        if case['h'] == 'exists':
            with open(out, 'wb') as f:
                f.write(b'old text ' * 10000)
        args = ['--output', out, path]
    elif case['h'] == 'dash':
        args = ['--output=' + out, path]
    elif case['h'] == 'debug':
        args = ['--loglevel', 'debug', '--logfile', hwp.scratch('log'), path]
    r = cli.run('hwp5txt', args)
    expect_equal(r.code, 0, 'exit status of hwp5txt %r (%r)' % (args, r))
    got = r.out
    if case['h'] in ('output', 'exists', 'dash'):
        expect_equal(r.out, b'', 'standard output')
        with open(out, 'rb') as f:
            got = f.read()
    compare(got.decode('utf-8'), s, 'hwp5txt')
    return got


def history_cases(tier):
    n = 3 if tier == 'quick' else 4
    for t in itertools.product('akTGFH', repeat=n):
        yield {'k': ''.join(t)}


def history_run(case):
    """one transform, several documents; each document twice"""
    from hwp5.hwp5txt import TextTransform
    import io
    T = TextTransform()
    opened = []
    for k in case['k']:
        s = some_doc(k)
        f = conv.hwp5file(tree(s))
        opened.append((s, f))
        out = io.BytesIO()
        T.transform_hwp5_to_text(f, out)
        compare(out.getvalue().decode('utf-8'), s)
    for s, f in reversed(opened):
        out = io.BytesIO()
        T.transform_hwp5_to_text(f, out)
        compare(out.getvalue().decode('utf-8'), s, 'again')
    return case['k']


def program_cases(tier):
    for n in (0, 1, 2):
        for s in seqs('xk UnTGFHCAfe', n):
            yield {'s': s}


def program_run(case):
    """the same with the other implementation of transforms"""
    from hwp5.hwp5txt import TextTransform
    from hwp5.plat import xsltproc
    import io
    paras = [doc.secpara(['s'])]
    paras[0].shapes = ()
    for a, b, seg in splits(case['s'], ncuts(case['s']) < 3):
        paras.append(mk(case['s'], a, b, seg)[0])
    t = tree([paras], docinfo_bytes=info3())
    out = io.BytesIO()
    T = TextTransform(xslt_compile=xsltproc.xslt_compile)
    path = hwp.scratch('p19x.txt')
    with open(path, 'wb+') as out:
        T.transform_hwp5_to_text(conv.hwp5file(t), out)
    with open(path, 'rb') as f:
        got = f.read()
    compare(got.decode('utf-8'), [paras], 'through xsltproc')
    return got


FAMILIES = [
    Family('texts', text_cases, text_run),
    Family('characters', char_cases, char_run),
    Family('odd characters', odd_cases, odd_run),
    Family('nesting', nest_cases, nest_run),
    Family('many', many_cases, many_run, limit=300),
    Family('sections', section_cases, section_run),
    Family('command', command_cases, command_run),
    Family('histories', history_cases, history_run),
    Family('programs', program_cases, program_run),
]
