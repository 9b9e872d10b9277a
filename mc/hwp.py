# -*- coding: utf-8 -*-
"""Independent builder of HWP v5 documents (no code shared with pyhwp)."""
import io
import os
import struct
import zlib

from mc import cfb
from mc import rec

COMPRESSED, PASSWORD, DIST = 1, 2, 4
SIGNATURE = b'HWP Document File'.ljust(32, b'\0')


def fileheader(version=(5, 0, 1, 7), flags=0, signature=SIGNATURE):
    v = bytes(reversed(version))
    return signature + v + struct.pack('<I', flags) + b'\0' * 216


def deflate(data, level=9):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


class Rand(object):
    """MSVC rand()"""
    def __init__(self, seed):
        self.s = seed & 0xffffffff

    def __call__(self):
        self.s = (self.s * 214013 + 2531011) % (1 << 32)
        return (self.s >> 16) & 0x7fff


def dist_head(seed, sha1_utf16, filler=0):
    """256 byte payload of HWPTAG_DISTRIBUTE_DOC_DATA for a seed"""
    off = 4 + (seed & 0xf)
    plain = bytearray((filler + i * 13) & 0xff for i in range(256))
    plain[off:off + 80] = sha1_utf16
    r = Rand(seed)
    stream = []
    while len(stream) < 256:
        key = r() & 0xff
        n = (r() & 0xf) + 1
        stream.extend([key] * n)
    out = bytearray(256)
    out[0:4] = struct.pack('<I', seed)
    for i in range(4, 256):
        out[i] = plain[i] ^ stream[i]
    return bytes(out)


def aes_ecb_encrypt(key, data):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms
    from cryptography.hazmat.primitives.ciphers import modes
    e = Cipher(algorithms.AES(key), modes.ECB()).encryptor()
    return e.update(data) + e.finalize()


def dist_encode(content, seed=0x12345678, password='12345', filler=0):
    import hashlib
    sha1 = hashlib.sha1(password.encode('ascii')).hexdigest().upper()
    head = dist_head(seed, sha1.encode('utf-16le'), filler)
    key = sha1.encode('utf-16le')[:16]
    pad = -len(content) % 16
    body = aes_ecb_encrypt(key, content + b'\0' * pad)
    return rec.encode([(28, 0, head)]) + body


class Stream(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


class Storage(object):
    """in-memory storage; order of names is the given order"""

    def __init__(self, tree):
        self.tree = tree

    def __iter__(self):
        return iter(list(self.tree))

    def __getitem__(self, name):
        v = self.tree[name]
        if isinstance(v, dict):
            return Storage(v)
        return Stream(v)

    def close(self):
        pass


SUMMARY = '\x05HwpSummaryInformation'


def bstr(s):
    u = s.encode('utf-16le')
    return struct.pack('<H', len(u) // 2) + u


def docinfo_nodes(sections=1, bindata=(), fonts=1, charshapes=None,
                  parashapes=1, styles=None, borderfills=1, idmappings=None):
    """a small but complete set of document tables"""
    from mc.doc import N
    if charshapes is None:
        charshapes = [{}]
    if isinstance(charshapes, int):
        charshapes = [{}] * charshapes
    if isinstance(parashapes, int):
        parashapes = [{}] * parashapes
    if styles is None:
        styles = [dict(local_name='st0', name='Normal')]
    im = dict(bindata=len(bindata), ko_fonts=fonts, en_fonts=fonts,
              cn_fonts=fonts, jp_fonts=fonts, other_fonts=fonts,
              symbol_fonts=fonts, user_fonts=fonts, borderfills=borderfills,
              charshapes=len(charshapes), parashapes=len(parashapes),
              styles=len(styles), tabdefs=1)
    im.update(idmappings or {})
    kids = []
    for b in bindata:
        kids.append(N('BinData', **b))
    for lang in ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user'):
        for i in range(fonts):
            kids.append(N('FaceName', name='%s-font%d' % (lang, i)))
    for i in range(borderfills):
        kids.append(N('BorderFill'))
    for c in charshapes:
        c = dict(dict(basesize=1000), **c)
        kids.append(N('CharShape', **c))
    kids.append(N('TabDef'))
    for p in parashapes:
        kids.append(N('ParaShape', **p))
    for st in styles:
        kids.append(N('Style', **st))
    return [N('DocumentProperties', section_count=sections, page_startnum=1,
              footnote_startnum=1, endnote_startnum=1, picture_startnum=1,
              table_startnum=1, math_startnum=1),
            N('IdMappings', im, children=kids)]


def docinfo(version=(5, 0, 1, 7), **kw):
    from mc import doc
    return doc.stream(docinfo_nodes(**kw), version)


def summaryinfo(props=None, **kw):
    """HwpSummaryInformation with the given [(pid, bytes)]"""
    from mc import ole
    return ole.summary(ole.DEFAULT if props is None else props, **kw)


def tree(version=(5, 0, 1, 7), flags=0, docinfo_bytes=b'', sections=(),
         bindata=None, viewtext=None, scripts=None, prvtext=None,
         summary=None, extra=None, seed=0x12345678):
    comp = (lambda d: deflate(d)) if flags & COMPRESSED else (lambda d: d)
    if flags & DIST:
        dist = lambda d: dist_encode(d, seed)  # noqa
    else:
        dist = lambda d: d                     # noqa
    t = {'FileHeader': fileheader(version, flags),
         'DocInfo': comp(docinfo_bytes)}
    t['BodyText'] = dict(('Section%d' % i, comp(s))
                         for i, s in enumerate(sections))
    if viewtext is not None:
        t['ViewText'] = dict(('Section%d' % i, dist(comp(s)))
                             for i, s in enumerate(viewtext))
    if bindata is not None:
        t['BinData'] = dict((k, comp(v)) for k, v in bindata.items())
    if scripts is not None:
        t['Scripts'] = dict((k, dist(comp(v))) for k, v in scripts.items())
    if prvtext is not None:
        t['PrvText'] = prvtext.encode('utf-16le')
    if summary is not None:
        t['\x05HwpSummaryInformation'] = summary
    if extra:
        t.update(extra)
    return t


def scratch(name):
    d = os.environ.get('VERIF_SCRATCH')
    assert d, 'run through ./check'
    d = os.path.join(d, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)


def write(path, t):
    with open(path, 'wb') as f:
        f.write(cfb.build(t))
    return path
