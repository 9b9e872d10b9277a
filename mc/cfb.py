# -*- coding: utf-8 -*-
"""A small, independent writer of OLE2 compound files (MS-CFB, version 3).

build({'FileHeader': b'...', 'BodyText': {'Section0': b'...'}}) -> bytes
"""
import struct

SECT = 512
MINI = 64
CUTOFF = 4096
FREE = 0xffffffff
EOC = 0xfffffffe
FATSECT = 0xfffffffd
NOSTREAM = 0xffffffff


def _key(name):
    u = name.encode('utf-16le')
    return (len(u), name.upper())


class _Entry(object):
    def __init__(self, name, typ, data=None):
        self.name = name
        self.typ = typ          # 1 storage 2 stream 5 root
        self.data = data
        self.left = self.right = self.child = NOSTREAM
        self.start = 0 if typ == 1 else EOC
        self.size = 0


def build(tree, root_clsid=b'\0' * 16):
    entries = [_Entry('Root Entry', 5)]

    def add(subtree):
        ids = []
        for name in sorted(subtree, key=_key):
            v = subtree[name]
            if isinstance(v, dict):
                e = _Entry(name, 1)
                entries.append(e)
                i = len(entries) - 1
                ids.append(i)
                e.child = add(v)
            else:
                e = _Entry(name, 2, bytes(v))
                entries.append(e)
                ids.append(len(entries) - 1)

        def bst(lo, hi):
            if lo >= hi:
                return NOSTREAM
            mid = (lo + hi) // 2
            e = entries[ids[mid]]
            e.left = bst(lo, mid)
            e.right = bst(mid + 1, hi)
            return ids[mid]
        return bst(0, len(ids))

    entries[0].child = add(tree)

    sectors = []        # list of bytes
    fat = []

    def alloc(data):
        if not data:
            return EOC
        n = (len(data) + SECT - 1) // SECT
        first = len(sectors)
        for k in range(n):
            sectors.append(data[k * SECT:(k + 1) * SECT].ljust(SECT, b'\0'))
            fat.append(first + k + 1 if k + 1 < n else EOC)
        return first

    mini = b''
    minifat = []
    for e in entries:
        if e.typ != 2:
            continue
        e.size = len(e.data)
        if e.size == 0:
            e.start = EOC
        elif e.size < CUTOFF:
            n = (e.size + MINI - 1) // MINI
            e.start = len(minifat)
            for k in range(n):
                minifat.append(e.start + k + 1 if k + 1 < n else EOC)
            mini += e.data.ljust(n * MINI, b'\0')
        else:
            e.start = alloc(e.data)
    entries[0].size = len(mini)
    entries[0].start = alloc(mini)
    minifat_bytes = struct.pack('<%dI' % len(minifat), *minifat)
    if minifat_bytes:
        minifat_bytes += b'\xff' * (-len(minifat_bytes) % SECT)
    minifat_start = alloc(minifat_bytes)

    d = b''
    for e in entries:
        u = e.name.encode('utf-16le') + b'\0\0'
        d += u.ljust(64, b'\0')
        d += struct.pack('<HBBIII', len(u), e.typ, 1, e.left, e.right,
                         e.child)
        d += (root_clsid if e.typ == 5 else b'\0' * 16)
        d += struct.pack('<IQQIQ', 0, 0, 0, e.start, e.size)
    while len(d) % SECT:
        d += (b'\0' * 68 + struct.pack('<III', NOSTREAM, NOSTREAM, NOSTREAM)
              + b'\0' * 48)
    dir_start = alloc(d)

    nfat = 0
    while nfat * 128 < len(sectors) + nfat:
        nfat += 1
    assert nfat <= 109, 'too large'
    fat_start = len(sectors)
    for k in range(nfat):
        fat.append(FATSECT)
    fatbytes = struct.pack('<%dI' % len(fat), *fat)
    fatbytes += b'\xff' * (-len(fatbytes) % SECT)
    for k in range(nfat):
        sectors.append(fatbytes[k * SECT:(k + 1) * SECT])

    difat = [fat_start + k for k in range(nfat)] + [FREE] * (109 - nfat)
    header = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 16
    header += struct.pack('<HHHHH', 0x3e, 3, 0xfffe, 9, 6) + b'\0' * 6
    header += struct.pack('<IIIIIIIII', 0, nfat, dir_start, 0, CUTOFF,
                          minifat_start, len(minifat_bytes) // SECT,
                          EOC, 0)
    header += struct.pack('<109I', *difat)
    assert len(header) == 512
    return header + b''.join(sectors)
