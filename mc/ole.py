# -*- coding: utf-8 -*-
"""Independent writer of [MS-OLEPS] property set streams."""
import struct
import uuid

HWP_FMTID = uuid.UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c')

I4, LPWSTR, FILETIME = 3, 0x1f, 0x40


def i4(v):
    return struct.pack('<Ii', I4, v)


def lpwstr(s, pad=True):
    u = s.encode('utf-16le', 'surrogatepass') + b'\0\0'
    out = struct.pack('<II', LPWSTR, len(u) // 2) + u
    if pad:
        out += b'\0' * (-len(out) % 4)
    return out


def filetime(v):
    return struct.pack('<IQ', FILETIME, v)


def dictionary(entries):
    out = struct.pack('<I', len(entries))
    for pid, name in entries:
        b = name.encode('latin1') + b'\0'
        out += struct.pack('<II', pid, len(b)) + b
    return out + b'\0' * (-len(out) % 4)


def propset(props, layout_order=None, gap=0):
    """props: list of (pid, bytes) in the order of the descriptor list;
    layout_order: order in which the values are stored"""
    n = len(props)
    pos = 8 + 8 * n
    order = layout_order if layout_order is not None else range(n)
    offs = {}
    body = b''
    for i in order:
        offs[i] = pos + len(body)
        body += props[i][1] + b'\xff' * gap
    descs = b''.join(struct.pack('<II', props[i][0], offs[i])
                     for i in range(n))
    return struct.pack('<II', pos + len(body), n) + descs + body


def stream(sets, clsid=HWP_FMTID, version=0, sysid=0x00020005,
           order=0xfffe):
    """sets: list of (fmtid, propset bytes)"""
    head = struct.pack('<HHI', order, version, sysid) + clsid.bytes_le + \
        struct.pack('<I', len(sets))
    pos = len(head) + 20 * len(sets)
    out = b''
    for fmtid, data in sets:
        head += fmtid.bytes_le + struct.pack('<I', pos + len(out))
        out += data
    return head + out


def summary(props, **kw):
    return stream([(HWP_FMTID, propset(props, **kw))])


DEFAULT = [
    (2, lpwstr('title')), (3, lpwstr('subject')), (4, lpwstr('author')),
    (0x14, lpwstr('date')), (5, lpwstr('keywords')), (6, lpwstr('comments')),
    (8, lpwstr('last')), (9, lpwstr('5, 0, 1, 7')),
    (0xc, filetime(129500000000000000)), (0xd, filetime(129500000010000000)),
    (0xb, filetime(0)), (0xe, i4(1)), (0x15, i4(3)),
    (0, dictionary([(0x14, 'HWPPIDSI_DATE_STR'),
                    (0x15, 'HWPPIDSI_PARACOUNT')])),
]
