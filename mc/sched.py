# -*- coding: utf-8 -*-
"""Fresh processes and controlled thread schedules."""
import dis
import gc
import os
import pickle
import signal
import sys
import threading
import traceback
import types

PREFIX = '/repo/src/hwp5'


class Died(Exception):
    pass


def forked(fn, *args):
    """the result of fn(*args) in a process forked from this one"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except BaseException:
                out = ('error', traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        pid = None
    finally:
        if pid is not None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if not data:
        raise Died('the process died')
    out = pickle.loads(data)
    if out[0] == 'error':
        raise Died(out[1])
    return out[1]


# ---- schedules of threads

class Scheduler(object):
    """Runs one thread at a time.

    switches: [(thread, n)]: the thread gives way to the next one when it
    reaches its n-th point (counted from 1); a thread which ends gives way
    to the next which has not ended.  A thread which is waited for by the
    others but does not move within a second is taken to be blocked by one
    of them, which then goes on.
    """

    def __init__(self, jobs, switches, point, opcodes=False):
        self.jobs = jobs
        self.switches = list(switches)
        self.point = point
        self.opcodes = opcodes
        self.count = [0] * len(jobs)
        self.done = [False] * len(jobs)
        self.results = [None] * len(jobs)
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.end = threading.Semaphore(0)
        self.blocked = 0
        self.points = [dict() for _ in jobs]
        self.idents = {}

    def run(self):
        self.monitor()
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True)
              for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        self.turn[0].release()
        for t in ts:
            self.end.acquire()
        return self.results

    def next_of(self, i):
        n = len(self.jobs)
        for k in range(1, n):
            j = (i + k) % n
            if not self.done[j]:
                return j

    def body(self, i):
        self.turn[i].acquire()
        self.idents[threading.get_ident()] = i
        try:
            r = ('ok', self.jobs[i]())
        except BaseException as e:
            r = ('raised', '%s: %s\n%s' % (type(e).__name__, e,
                                           traceback.format_exc(limit=-4)))
        finally:
            del self.idents[threading.get_ident()]
        self.results[i] = r
        self.done[i] = True
        j = self.next_of(i)
        if j is not None:
            self.turn[j].release()
        self.end.release()

    def monitor(self):
        """have every line (or bytecode) at a point of interest reported"""
        mon = sys.monitoring
        tool = mon.DEBUGGER_ID
        ev = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE

        def seen(code, where):
            i = self.idents.get(threading.get_ident())
            if i is not None:
                self.reached(i, (code.co_filename, code.co_qualname, where))
        mon.use_tool_id(tool, 'schedule')
        mon.register_callback(tool, ev, seen)
        for code in package_codes():
            if self.point(code):
                mon.set_local_events(tool, code, ev)

    def reached(self, i, where):
        self.count[i] += 1
        n = self.count[i]
        if self.switches == 'record':
            self.points[i].setdefault(where, []).append(n)
            return
        if self.switches and self.switches[0] == (i, n):
            self.switches.pop(0)
            j = self.next_of(i)
            if j is None:
                return
            self.turn[j].release()
            while not self.turn[i].acquire(timeout=1):
                seen = list(self.count)
                if self.turn[i].acquire(timeout=1):
                    return
                if seen == self.count:
                    self.blocked += 1
                    return          # go on: the others wait for this one


_CODES = []


def package_codes():
    """every code object of the package"""
    if not _CODES:
        found = set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and \
                    o.__code__.co_filename.startswith(PREFIX):
                found.update(_codes(o.__code__))
        _CODES.extend(found)
    return _CODES


def record_points(jobs, point, opcodes=False):
    """-> [number of points of each job], [{where: [n, ...]}]"""
    s = Scheduler(jobs, [], point, opcodes)
    s.switches = 'record'
    s.run()
    return s.count, s.points


def _codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            for x in _codes(c):
                yield x


MUTABLE = (dict, list, set, bytearray)
STORES = ('STORE_ATTR', 'STORE_GLOBAL', 'DELETE_ATTR')


def shared_codes():
    """code objects of the package which may touch state that outlives a
    call: mutable globals, attributes, mutable defaults or closures"""
    found = set()
    attrs = set()
    for name, mod in list(sys.modules.items()):
        if name.startswith('hwp5'):
            for v in list(vars(mod).values()):
                if isinstance(v, type) and v.__module__.startswith('hwp5'):
                    attrs.update(k for k, x in vars(v).items()
                                 if isinstance(x, MUTABLE))
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, '__file__', None)
        if not name.startswith('hwp5') or not f or \
                not f.startswith(PREFIX):
            continue
        shared = attrs | set(
            k for k, v in vars(mod).items()
            if isinstance(v, MUTABLE) and k != '__builtins__')
        for v in list(vars(mod).values()):
            for fn in functions(v):
                for code in _codes(fn.__code__):
                    if shared & set(code.co_names) or \
                            code.co_name != '__init__' and \
                            any(i.opname in STORES
                                for i in dis.get_instructions(code)):
                        found.add(code)
                cells = []
                for c in fn.__closure__ or ():
                    try:
                        cells.append(c.cell_contents)
                    except ValueError:
                        pass
                if any(isinstance(x, MUTABLE) for x in
                       cells + list(fn.__defaults__ or ())):
                    found.update(_codes(fn.__code__))
                if vars(fn):
                    found.update(_codes(fn.__code__))
    return found


def functions(v, seen=None):
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        for x in (v.fget, v.fset):
            if x is not None:
                for y in functions(x):
                    yield y
    elif isinstance(v, types.FunctionType):
        w = getattr(v, '__wrapped__', None)
        if isinstance(w, types.FunctionType):
            yield w
        yield v
    elif isinstance(v, type):
        for x in list(vars(v).values()):
            if not isinstance(x, type):
                for y in functions(x):
                    yield y
