# -*- coding: utf-8 -*-
"""Documents as trees of plain streams, and how each flag stores them."""
from mc import hwp

LAYERED = ('BinData', 'BodyText', 'ViewText', 'Scripts')


def stored(path, plain, flags, seed=0x1234567, level=6):
    """bytes stored for the stream with the plain content"""
    part = path[0]
    if flags & 2:                       # password: the content is ciphertext
        return plain
    if flags & 1 and (path == ('DocInfo',) or
                      part in LAYERED and len(path) == 2):
        plain = hwp.deflate(plain, level)
    if flags & 4 and part in ('Scripts', 'ViewText') and len(path) == 2:
        plain = hwp.dist_encode(plain, seed)
    return plain


def tree(plains, flags, version=(5, 0, 1, 7), **kw):
    """plains: {path tuple: plain content} in storage order"""
    t = {'FileHeader': hwp.fileheader(version, flags)}
    for path, plain in plains.items():
        d = t
        for name in path[:-1]:
            d = d.setdefault(name, {})
        d[path[-1]] = plain if path == ('FileHeader',) else \
            stored(path, plain, flags, **kw)
    return t


def walk(t, base=()):
    """(path, stored bytes) of every stream of a tree"""
    for name, v in t.items():
        if isinstance(v, dict):
            for x in walk(v, base + (name,)):
                yield x
        else:
            yield base + (name,), v


def blocks(n):
    """n bytes, rounded up to whole cipher blocks"""
    return bytes((i * 7 + i // 251) & 255 for i in range((n + 15) // 16 * 16))
