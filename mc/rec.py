# -*- coding: utf-8 -*-
"""Independent model of the HWP record-stream framing."""
import struct


def encode(records):
    """records: iterable of (tag, level, payload)"""
    out = b''
    for tag, level, payload in records:
        size = len(payload)
        if size < 0xfff:
            out += struct.pack('<I', tag | level << 10 | size << 20)
        else:
            out += struct.pack('<II', tag | level << 10 | 0xfff << 20, size)
        out += payload
    return out


def pattern(n, k=0):
    """n distinctive bytes"""
    return bytes(((i * 7 + k * 31 + (i >> 8)) & 0xff) for i in range(n))


def level_sequences(maxlen, maxlevel, wellformed=True, first=(0,)):
    """every level sequence, simplest first"""
    def gen(prefix, n):
        if len(prefix) == n:
            yield prefix
            return
        if not prefix:
            choices = first
        elif wellformed:
            choices = range(0, min(prefix[-1] + 1, maxlevel) + 1)
        else:
            choices = range(0, maxlevel + 1)
        for c in choices:
            for x in gen(prefix + [c], n):
                yield x
    for n in range(0, maxlen + 1):
        for x in gen([], n):
            yield x
