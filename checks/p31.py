# -*- coding: utf-8 -*-
"""P31 the XSLT and RelaxNG back ends are interchangeable."""
import io
import itertools
import os
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from checks import p20
from checks import p21
from mc import cli
from mc import hwp
from mc import odf
from mc.core import Family, Violation, expect, expect_equal

from lxml import etree

from hwp5 import plat
from hwp5.errors import ValidationFailed
from hwp5.plat import _lxml
from hwp5.plat import xmllint
from hwp5.plat import xsltproc

PROPERTY = 'P31'
LEVEL = 'exploration'
RULE = ('a case is one input (and style sheet or schema) given to every '
        'back end, or one choice of back ends for a conversion')
ASSUMPTIONS = ['inputs are within the default limits of the XML parser',
               'parameters hold only one kind of quotes',
               'style sheets lie in directories whose names are valid in '
               'URLs; inputs and outputs have any names']

XSLTS = [_lxml, xsltproc]
RNGS = [_lxml, xmllint]


class Backends(object):
    """only these are there"""

    def __init__(self, *names):
        self.names = names

    def __enter__(self):
        self.lxml = dict((n, m) for n, m in sys.modules.items()
                         if n == 'lxml' or n.startswith('lxml.'))
        if 'lxml' not in self.names:
            for n in self.lxml:
                del sys.modules[n]
            sys.modules['lxml'] = None
        for m, n in ((xsltproc, 'xsltproc'), (xmllint, 'xmllint')):
            (m.enable if n in self.names else m.disable)()

    def __exit__(self, *args):
        sys.modules.pop('lxml', None)
        sys.modules.update(self.lxml)
        xsltproc.enable()
        xmllint.enable()


def scratch():
    d = hwp.scratch('p31')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'tmp'))
    tempfile.tempdir = os.path.join(d, 'tmp')
    return d


def clean(d):
    expect_equal(os.listdir(os.path.join(d, 'tmp')), [], 'temporary files')


def put(path, data):
    if not isinstance(data, bytes):
        data = data.encode('utf-8')
    with open(path, 'wb') as f:
        f.write(data)
    return path


def get(path):
    with open(path, 'rb') as f:
        return f.read()


# ---- style sheets, each with what it makes of a tree

XSL = '<xsl:stylesheet version="1.0" xmlns:xsl=' \
      '"http://www.w3.org/1999/XSL/Transform">%s</xsl:stylesheet>'

SHEETS = {
    'text': '<xsl:output method="text" encoding="utf-8"/>'
            '<xsl:template match="/"><xsl:value-of select="."/>'
            '</xsl:template>',
    'names': '<xsl:output method="text" encoding="utf-8"/>'
             '<xsl:template match="text()"/>'
             '<xsl:template match="*">(<xsl:value-of select="name()"/>'
             '<xsl:for-each select="@*"><xsl:sort select="name()"/>'
             '<xsl:value-of select="concat(\' \', name(), \'=\', .)"/>'
             '</xsl:for-each><xsl:apply-templates/>)</xsl:template>',
    'count': '<xsl:output method="text" encoding="utf-8"/>'
             '<xsl:template match="/"><xsl:value-of select='
             '"concat(count(//a), \',\', count(//b), \',\', '
             'count(//@x), \',\', string-length(.))"/></xsl:template>',
    'copy': '<xsl:output method="xml" encoding="utf-8"/>'
            '<xsl:template match="@*|node()"><xsl:copy>'
            '<xsl:apply-templates select="@*|node()"/></xsl:copy>'
            '</xsl:template>',
}


def elements(n):
    """forests of n nodes over a, b and pieces of text"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        firsts = []
        if k == 1:
            firsts += ['t']
        for kids in elements(k - 1):
            firsts += [('a', kids), ('b', kids)]
        for f in firsts:
            for rest in elements(n - k):
                if f == 't' and rest[:1] == ('t',):
                    continue
                yield (f,) + rest


TEXTS = ['x', '\uac00', '&', '<', ' ', '\u3000', '\U0001f600', ']]>', '\n',
         '\t', '"', '\xa0', '\ue000', 'e\u0301']


def build(t, i, attrs):
    """-> (markup, text, names)"""
    m, s, n = '', '', ''
    for x in t:
        if x == 't':
            v = TEXTS[i[0] % len(TEXTS)]
            i[0] += 1
            m += escape(v)
            s += v
        else:
            a = ''
            if attrs:
                v = TEXTS[i[0] % len(TEXTS)].strip() or 'v'
                i[0] += 1
                a = ' x=%s' % v
                m += '<%s x=%s>' % (x[0], quoteattr(v))
            else:
                m += '<%s>' % x[0]
            mm, ss, nn = build(x[1], i, attrs)
            m += mm + '</%s>' % x[0]
            s += ss
            n += '(%s%s%s)' % (x[0], a, nn)
    return m, s, n


def nodes(root):
    return [(e.tag, sorted(e.attrib.items()), e.text or '', e.tail or '')
            for e in root.iter()]


def result_cases(tier):
    for n in range(5 if tier == 'quick' else 6):
        for f in elements(n):
            yield {'f': f}


def tup(x):
    return x if isinstance(x, str) else tuple(tup(y) for y in x)


def result_run(case):
    d = scratch()
    sheets = dict((k, put(os.path.join(d, k + '.xsl'), XSL % v))
                  for k, v in SHEETS.items())
    f = tup(case['f'])
    for start, attrs in ((0, False), (len(repr(f)), True)):
        i = [start]
        m, s, n = build(f, i, attrs)
        inp = put(os.path.join(d, 'in.xml'), '<r>%s</r>' % m)
        for mod in XSLTS:
            for k, xsl in sheets.items():
                out = os.path.join(d, 'out')
                with open(out, 'wb') as o:
                    mod.xslt_compile(xsl)(inp, o)
                got = get(out)
                what = '%s of %r by %s' % (k, m, mod.__name__)
                if k == 'text':
                    expect_equal(got.decode('utf-8'), s, what)
                elif k == 'names':
                    expect_equal(got.decode('utf-8'), '(r%s)' % n, what)
                elif k == 'count':
                    expect_equal(got.decode('utf-8'), '%d,%d,%d,%d' % (
                        n.count('(a'), n.count('(b'), n.count(' x='),
                        len(s)), what)
                else:
                    expect_equal(nodes(ET.fromstring(got)),
                                 nodes(ET.fromstring('<r>%s</r>' % m)), what)
        expect(get(inp).decode('utf-8') == '<r>%s</r>' % m,
               'the input was changed')
    clean(d)
    return n


# ---- encodings and declarations of inputs, output methods

ENC = ['utf-8', 'utf-16', 'utf-16-le', 'utf-8-sig', 'euc-kr', 'ascii',
       'iso-8859-1']


def encoding_cases(tier):
    for e in ENC:
        for o in ('utf-8', 'euc-kr', 'us-ascii', 'utf-16', 'iso-8859-1'):
            for method in ('text', 'xml', 'html'):
                for t in TEXTS:
                    yield {'e': e, 'o': o, 'm': method, 't': t}


def encoding_run(case):
    d = scratch()
    e, t = case['e'], case['t']
    if case['m'] == 'text' and case['o'] not in ('utf-8', 'utf-16'):
        return 'not representable'
    name = {'utf-8-sig': 'utf-8', 'utf-16-le': 'utf-16'}.get(e, e)
    m = '<?xml version="1.0" encoding="%s"?><!DOCTYPE r [<!ENTITY q "%s">]>' \
        '<r>&q;%s</r>' % (name, 'Q', escape(t))
    data = m.encode(e, 'xmlcharrefreplace')
    if e == 'utf-16-le':
        data = b'\xff\xfe' + data
    inp = put(os.path.join(d, 'in.xml'), data)
    xsl = put(os.path.join(d, 't.xsl'), XSL % (
        '<xsl:output method="%s" encoding="%s"/><xsl:template match="/">'
        % (case['m'], case['o']) + (
            '<xsl:value-of select="."/>' if case['m'] == 'text' else
            '<p><xsl:value-of select="."/></p>') + '</xsl:template>'))
    outs = []
    for mod in XSLTS:
        out = os.path.join(d, 'out')
        with open(out, 'wb') as o:
            mod.xslt_compile(xsl)(inp, o)
        got = get(out)
        if case['m'] == 'text':
            expect_equal(got.decode(case['o']), 'Q' + t, mod.__name__)
        elif case['m'] == 'xml':
            expect_equal(etree.fromstring(got).text, 'Q' + t, mod.__name__)
        outs.append(got)
    expect_equal(outs[1].strip(), outs[0].strip(), 'outputs')
    clean(d)
    return outs[0]


# ---- parameters, imports

VALUES = ['', 'v', "a'b", 'a"b', '\uac00', '-x', '--novalid', ' ', 'a b',
          '1', '/r', '$q', '<&>', 'a\nb', "''", '%41', '\U0001f600',
          'true()', "concat('a')", '{q}', '&amp;', 'a=b', 'x' * 3000]


def param_cases(tier):
    for a, b in itertools.product(VALUES, repeat=2):
        yield {'v': [a, b]}


def param_run(case):
    d = scratch()
    os.mkdir(os.path.join(d, 'sub'))
    inp = put(os.path.join(d, 'in.xml'), '<r>t</r>')
    xsl = put(os.path.join(d, 't.xsl'), XSL % (
        '<xsl:import href="sub/i.xsl"/><xsl:include href="n.xsl"/>'
        '<xsl:output method="text" encoding="utf-8"/>'
        '<xsl:param name="p">P</xsl:param>'
        '<xsl:param name="q">Q</xsl:param>'
        '<xsl:template match="/"><xsl:value-of select="$p"/>|'
        '<xsl:value-of select="$q"/>|<xsl:call-template name="i"/>|'
        '<xsl:call-template name="n"/></xsl:template>'))
    put(os.path.join(d, 'sub', 'i.xsl'), XSL % (
        '<xsl:param name="q">I</xsl:param><xsl:template name="i">'
        'i<xsl:value-of select="$q"/></xsl:template>'
        '<xsl:template name="n">imported</xsl:template>'))
    put(os.path.join(d, 'n.xsl'), XSL % (
        '<xsl:template name="n">n<xsl:value-of select="/r"/>'
        '</xsl:template>'))
    a, b = case['v']
    for mod in XSLTS:
        made = [(params, mod.xslt_compile(xsl, **params)) for params in (
            {'p': a, 'q': b}, {'p': a}, {'q': b}, {}, {'p': b, 'q': a})]
        for params, t in made + made[::-1]:
            out = os.path.join(d, 'out')
            with open(out, 'wb') as o:
                t(inp, o)
            q = params.get('q', 'Q')
            expect_equal(get(out).decode('utf-8'), '%s|%s|i%s|nt' % (
                params.get('p', 'P'), q, q),
                'result of %s with %r' % (mod.__name__, params))
    clean(d)
    return case['v']


# ---- names of inputs and outputs

NAMES = ['plain', 'a b', '\uac00', 'a%20b', '%41', 'a#b', 'a?b', 'a&b',
         "a'b", 'a"b', 'a<b', 'a;b', 'a:b', 'a@b', 'a+b', 'a=b', 'a\\b',
         '~', 'a*b', '[b]', '{b}', 'a|b', 'a^b', '$b', 'http:', '-x',
         'a\nb', '\u3000', '.x', 'e\u0301', 'file:x', 'x' * 200]


def name_cases(tier):
    for n in NAMES:
        for how in ('input', 'output', 'both', 'schema input'):
            for deep in (0, 1):
                yield {'n': n, 'h': how, 'd': deep}


def name_run(case):
    d = scratch()
    n = case['n']
    base = d
    if case['d']:
        base = os.path.join(d, n)
        os.mkdir(base)
    how = case['h'].split()
    inp = os.path.join(base, 'i' + n if how[-1] != 'output' else 'in.xml')
    out = os.path.join(base, 'o' + n if how[-1] != 'input' else 'out')
    if case['d']:
        inp = os.path.join(base, n if how[-1] != 'output' else 'in.xml')
    put(inp, '<r>\uac00</r>')
    if how[0] == 'schema':
        rng = put(os.path.join(d, 's.rng'),
                  '<element name="r" xmlns="%s"><text/></element>' % RNS)
        for mod in RNGS:
            expect(mod.relaxng(rng, inp) and
                   mod.relaxng_compile(rng).validate(inp),
                   '%s: %r is not valid' % (mod.__name__, n))
            put(inp, '<x/>')
            expect(not mod.relaxng(rng, inp) and
                   not mod.relaxng_compile(rng).validate(inp),
                   '%s: %r is valid' % (mod.__name__, n))
            put(inp, '<r>\uac00</r>')
    else:
        xsl = put(os.path.join(d, 't.xsl'), XSL % SHEETS['text'])
        for mod in XSLTS:
            mod.xslt(xsl, inp, out)
            expect_equal(get(out), b'\xea\xb0\x80', mod.__name__)
            os.unlink(out)
            mod.XSLT(xsl).transform(inp, out)
            expect_equal(get(out), b'\xea\xb0\x80', mod.__name__)
            os.unlink(out)
    clean(d)
    return case


# ---- transformations which fail

BADIN = {'empty': b'', 'text': b'text', 'open': b'<r>', 'two': b'<r/><r/>',
         'entity': b'<r>&none;</r>', 'encoding': b'<r>\xff</r>',
         'attribute': b'<r x="1" x="2"/>', 'missing': None,
         'nul': b'<r>\0</r>', 'good': b'<r>t</r>'}
BADXSL = {
    'good': SHEETS['text'],
    'terminate': '<xsl:template match="/">some<xsl:message terminate="yes">'
                 'no</xsl:message></xsl:template>',
    'late': '<xsl:template match="/">some<xsl:call-template name="none"/>'
            '</xsl:template>',
    'syntax': '<xsl:template match="///"/>',
    'variable': '<xsl:template match="/"><xsl:value-of select="$none"/>'
                '</xsl:template>',
    'include': '<xsl:include href="none.xsl"/>',
    'unclosed': '<xsl:template match="/">',
    'loop': '<xsl:template match="/"><xsl:call-template name="l"/>'
            '</xsl:template><xsl:template name="l"><xsl:call-template '
            'name="l"/></xsl:template>',
}


def failing_cases(tier):
    for x in sorted(BADXSL):
        for i in sorted(BADIN):
            yield {'x': x, 'i': i}
    yield {'x': 'none', 'i': 'good'}


def failing_run(case):
    d = scratch()
    xsl = os.path.join(d, 't.xsl')
    if case['x'] != 'none':
        put(xsl, XSL % BADXSL[case['x']])
    inp = os.path.join(d, 'in.xml')
    if BADIN[case['i']] is not None:
        put(inp, BADIN[case['i']])
    good = case['x'] == case['i'] == 'good'
    for mod in XSLTS:
        out = os.path.join(d, 'out')
        with open(out, 'wb') as o:
            try:
                mod.xslt_compile(xsl)(inp, o)
                ok = True
            except Exception:
                ok = False
        expect_equal(ok, good, '%s: %r' % (mod.__name__, case))
        expect_equal(get(out), b't' if good else b'', 'output of %s'
                     % mod.__name__)
    clean(d)
    return good


# ---- schemas

RNS = 'http://relaxng.org/ns/structure/1.0'

# a pattern: name of it -> (RelaxNG, {element: content test})
GRAMMARS = {
    # any children in any order
    'any': ('<zeroOrMore><choice><ref name="a"/><ref name="b"/><text/>'
            '</choice></zeroOrMore>',
            lambda k: True),
    'notext': ('<zeroOrMore><choice><ref name="a"/><ref name="b"/></choice>'
               '</zeroOrMore>', lambda k: 't' not in k),
    'order': ('<zeroOrMore><ref name="a"/></zeroOrMore>'
              '<zeroOrMore><ref name="b"/></zeroOrMore>',
              lambda k: 't' not in k and 'ba' not in k),
    'one': ('<choice><ref name="a"/><ref name="b"/><text/></choice>',
            lambda k: len(k) <= 1),
    'pair': ('<optional><ref name="a"/><ref name="b"/></optional>',
             lambda k: k in ('', 'ab')),
}


def legal(f, content, top=True):
    k = ''.join(x if x == 't' else x[0] for x in f)
    return content(k) and all(legal(x[1], content, False) for x in f
                              if x != 't')


def schema_cases(tier):
    for n in range(4 if tier == 'quick' else 5):
        for f in elements(n):
            yield {'f': f}


def schema_run(case):
    d = scratch()
    f = tup(case['f'])

    def mark(f):
        return ''.join('x' if x == 't' else '<%s>%s</%s>' % (
            x[0], mark(x[1]), x[0]) for x in f)
    data = ('<r>%s</r>' % mark(f)).encode('utf-8')
    inp = put(os.path.join(d, 'in.xml'), data)
    out = []
    for g in sorted(GRAMMARS):
        pattern, content = GRAMMARS[g]
        rng = put(os.path.join(d, g + '.rng'), (
            '<grammar xmlns="%s"><start><element name="r">%s</element>'
            '</start>' % (RNS, pattern)) + ''.join(
                '<define name="%s"><element name="%s">%s</element></define>'
                % (n, n, pattern) for n in 'ab') + '</grammar>')
        want = legal(f, content)
        for mod in RNGS:
            what = '%s: %r in grammar %s' % (mod.__name__, data, g)
            v = mod.relaxng_compile(rng)
            expect_equal(bool(v.validate(inp)), want, what)
            expect_equal(bool(mod.relaxng(rng, inp)), want, what)
            verdict(d, v, data, want, what)
        out.append(want)
    clean(d)
    return out


def verdict(d, v, data, want, what):
    """what comes through a validated output"""
    path = os.path.join(d, 'validated')
    with open(path, 'wb') as o:
        try:
            with v.validating_output(o) as f:
                f.write(data[:5])
                f.write(data[5:])
            ok = True
        except ValidationFailed:
            ok = False
    expect_equal(ok, want, what)
    expect_equal(get(path), data if want else b'', 'output, ' + what)
    clean(d)


def refusal_cases(tier):
    for i in sorted(BADIN):
        yield {'i': i, 'how': 'data'}
    for exc in ('ValueError', 'OSError', 'KeyboardInterrupt', 'SystemExit'):
        for n in (0, 3, 9, 10 ** 5):
            yield {'e': exc, 'n': n, 'how': 'raise'}
    for n in (0, 1, 4095, 4096, 4097, 8192, 65536, 65537, 10 ** 6):
        yield {'n': n, 'how': 'long'}


def refusal_run(case):
    d = scratch()
    rng = put(os.path.join(d, 'r.rng'),
              '<element name="r" xmlns="%s"><text/></element>' % RNS)
    out = os.path.join(d, 'out')
    for mod in RNGS:
        v = mod.relaxng_compile(rng)
        if case['how'] == 'data':
            data = BADIN[case['i']]
            inp = os.path.join(d, 'in.xml')
            if data is not None:
                put(inp, data)
            try:
                ok = bool(v.validate(inp))
            except Exception:
                ok = False
            expect_equal(ok, case['i'] == 'good', mod.__name__)
            with open(out, 'wb') as o:
                try:
                    with v.validating_output(o) as f:
                        f.write(data or b'')
                    ok = True
                except Exception:
                    ok = False
            expect_equal(ok, case['i'] == 'good', mod.__name__)
            expect_equal(get(out), data if ok else b'', 'output')
        elif case['how'] == 'raise':
            exc = getattr(__import__('builtins'), case['e'])
            with open(out, 'wb') as o:
                try:
                    with v.validating_output(o) as f:
                        f.write(b'<r></r>'[:case['n']] + b' ' * case['n'])
                        raise exc('x')
                except exc:
                    ok = False
                else:
                    ok = True
            expect(not ok, '%s swallowed in %s' % (case['e'], mod.__name__))
            expect_equal(get(out), b'', 'output')
        else:
            verdict(d, v, b'<r>' + b'x' * case['n'] + b'</r>', True,
                    mod.__name__)
            verdict(d, v, b'<q>' + b'x' * case['n'] + b'</q>', False,
                    mod.__name__)
        clean(d)
    return case


# ---- choice of back ends, whole conversions

def choice_cases(tier):
    for n in range(4):
        for ks in itertools.combinations(('lxml', 'xsltproc', 'xmllint'), n):
            for k in 'akTGFI':
                for flags in (0, 1, 5):
                    yield {'k': list(ks), 'd': k, 'f': flags}


def choice_run(case):
    d = scratch()
    t = p20.tree(p20.some_doc(case['d']), case['f'])
    path = hwp.write(os.path.join(d, 'in.hwp'), t)
    outs = []
    for ks in (('lxml', 'xsltproc', 'xmllint'), tuple(case['k'])):
        able = 'lxml' in ks or 'xsltproc' in ks
        got = []
        with Backends(*ks):
            expect_equal(plat.get_xslt() is not None, able, 'get_xslt')
            expect_equal(plat.get_xslt_compile() is not None, able,
                         'get_xslt_compile')
            has = 'lxml' in ks or 'xmllint' in ks
            expect_equal(plat.get_relaxng() is not None, has, 'get_relaxng')
            expect_equal(plat.get_relaxng_compile() is not None, has,
                         'get_relaxng_compile')
            for prog, args in (('hwp5odt', ['--output', 'o.odt']),
                               ('hwp5odt', ['--output', 'o.xml',
                                            '--document']),
                               ('hwp5html', ['--output', 'html']),
                               ('hwp5txt', ['--output', 'o.txt'])):
                w = os.path.join(d, 'w')
                shutil.rmtree(w, ignore_errors=True)
                os.mkdir(w)
                r = cli.run(prog, args + [path], cwd=w)
                files = p21.listing(w)
                clean(d)
                if not able:
                    expect(r.code != 0, '%s without XSLT' % prog)
                    expect(not any(files.values()), '%s without XSLT: %r'
                           % (prog, sorted(files)))
                    continue
                expect_equal(r.code, 0, '%s with %r (%r)' % (prog, ks, r))
                got.append(files)
        outs.append((able, [content(x) for x in got]))
    if outs[1][0]:
        expect_equal(outs[1], outs[0], 'results with %r' % case['k'])
    return outs[1][0]


def content(files):
    if 'o.odt' in files:
        files = dict(odf.package(files['o.odt'], {'BIN0001.png': p20.PNG}))
    return sorted((n, canonical(n, x)) for n, x in files.items())


def canonical(name, data):
    """XML apart from how it is written"""
    if name.endswith(('.xml', '.xhtml', '.rdf')):
        return ET.canonicalize(data.decode('utf-8'))
    return data


FAMILIES = [
    Family('results', result_cases, result_run),
    Family('encodings', encoding_cases, encoding_run),
    Family('parameters', param_cases, param_run),
    Family('names', name_cases, name_run),
    Family('failing', failing_cases, failing_run),
    Family('schemas', schema_cases, schema_run),
    Family('refusal', refusal_cases, refusal_run),
    Family('choice', choice_cases, choice_run),
]
