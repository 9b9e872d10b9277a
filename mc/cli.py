# -*- coding: utf-8 -*-
"""Run the real command line entry points in-process."""
import io
import logging
import os
import sys

ENTRY = {}


def entry(name):
    if name not in ENTRY:
        mod = __import__('hwp5.' + name, fromlist=['main'])
        ENTRY[name] = mod.main
    return ENTRY[name]


class Result(object):
    def __init__(self, code, out, err, exc):
        self.code = code
        self.out = out
        self.err = err
        self.exc = exc

    def __repr__(self):
        return ('Result(code=%r, out=%r, err=%r, exc=%r)'
                % (self.code, self.out[:300], self.err[-600:], self.exc))


def run(prog, args, stdin=b'', cwd=None, logs=True):
    """-> Result; code is the exit status the process would have"""
    main = entry(prog)
    saved = (sys.argv, sys.stdin, sys.stdout, sys.stderr)
    out = io.BytesIO()
    err = io.BytesIO()
    logger = logging.getLogger('hwp5')
    handlers = list(logger.handlers)
    level = logger.level
    olddisable = logging.root.manager.disable
    oldcwd = os.getcwd() if cwd else None
    code = 0
    exc = None
    sys.argv = [prog] + list(args)
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding='utf-8')
    sys.stdout = io.TextIOWrapper(out, encoding='utf-8',
                                  write_through=True)
    sys.stderr = io.TextIOWrapper(err, encoding='utf-8',
                                  errors='backslashreplace',
                                  write_through=True)
    logging.disable(logging.NOTSET if logs else logging.CRITICAL)
    try:
        if cwd:
            os.chdir(cwd)
        try:
            rv = main()
            if rv is None:
                code = 0
            elif isinstance(rv, int):
                code = rv
            else:
                code = 1
        except SystemExit as e:
            if e.code is None:
                code = 0
            elif isinstance(e.code, int):
                code = e.code & 0xff
            else:
                code = 1
                sys.stderr.write(str(e.code))
        except Exception as e:
            code = 1
            exc = e
        try:
            sys.stdout.flush()
        except Exception as e:
            exc = exc or e
    finally:
        stdout, stderr = sys.stdout, sys.stderr
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
        for s in (stdout, stderr):
            try:
                s.detach()
            except Exception:
                pass
        for h in list(logger.handlers):
            if h not in handlers:
                logger.removeHandler(h)
        logger.setLevel(level)
        logging.disable(olddisable)
        if oldcwd:
            os.chdir(oldcwd)
    return Result(code, out.getvalue(), err.getvalue(), exc)
