"""Deterministic scheduling of real threads: exactly one runs at a time, and the
scenario decides after which traced step of the system the next one takes over."""

import collections
import dis
import hashlib
import os
import sys
import threading

import numpy as np

SEP = os.sep + 'bayespy' + os.sep


class Abort(BaseException):
    pass


_lines = {}


def classes():
    for (name, m) in sorted(sys.modules.items()):
        if name.startswith('bayespy') and m is not None:
            for c in list(vars(m).values()):
                if isinstance(c, type) and c.__module__.startswith('bayespy'):
                    yield c


def common_objects():
    """Instances that hang on classes."""
    r = {}
    for c in classes():
        r[id(c)] = c
        for v in list(vars(c).values()):
            if type(v).__module__.startswith('bayespy'):
                r[id(v)] = v
    return r


CONTAINER = (list, dict, set, bytearray, collections.deque, np.ndarray)
_names = set()


def container_names():
    """Names of mutable class attributes."""
    if not _names:
        _names.add('')
        for c in classes():
            for (k, v) in list(vars(c).items()):
                if isinstance(v, CONTAINER) and not k.startswith('__'):
                    _names.add(k)
    return _names


def writing(code, what, names=()):
    """Source lines of a function around which state is written (and, for
    'global', mutable global state is used)."""
    r = _lines.get((code, what))
    if r is not None:
        return r
    r = set()
    ins = list(dis.get_instructions(code))
    for (j, i) in enumerate(ins):
        line = i.positions.lineno if i.positions is not None else None
        if line is None:
            continue
        hit = False
        if i.opname.startswith(('STORE_GLOBAL', 'DELETE_GLOBAL')):
            hit = True
        elif i.opname.startswith(('STORE_ATTR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'DELETE_ATTR')):
            hit = what == 'any' or shared(ins, j)
        elif what == 'global' and i.opname == 'LOAD_GLOBAL':
            hit = isinstance(names.get(i.argval) if names else None, CONTAINER)
        elif what == 'global' and i.opname in ('LOAD_ATTR', 'LOAD_METHOD'):
            hit = i.argval in container_names()
        if hit:
            r |= {line, line + 1, line + 2}
    _lines[(code, what)] = r
    return r


def shared(ins, j):
    """Whether the object written to comes straight from a global name."""
    before = [x.opname for x in ins[max(0, j - 12):j] if x.positions.lineno == ins[j].positions.lineno]
    if 'COPY' in before:
        k = before.index('COPY')
        return 'LOAD_GLOBAL' in before[max(0, k - 3):k]
    n = 1 if ins[j].opname.endswith('_ATTR') else 2
    return 'LOAD_GLOBAL' in before[-n - 1:]


def prime():
    """Let the interpreter know that single bytecodes are going to be traced
    (it looks at this when tracing starts)."""
    sys._getframe().f_trace_opcodes = True


class Sched:

    def __init__(self, switches, opcodes=False, focus=None):
        """switches: [[gap, who], ...]: after `gap` further steps the baton goes
        to the `who`-th other living thread.  focus: (salt, modulus, writes): count
        and switch in a pseudo-random fraction of all functions only, and there
        perhaps only around writes to objects ('any') or around what looks like
        state shared by all models ('global'), and perhaps only the first few times
        there (a fourth element)."""
        self.cap = focus[3] if focus and len(focus) > 3 else None
        self.visits = collections.Counter()
        self.shared = common_objects() if focus and len(focus) > 2 and focus[2] == 'global' else ()
        self.focus = focus
        self.writes = focus[2] if focus and len(focus) > 2 else None
        self.focused = {}
        self.switches = list(switches)
        self.opcodes = opcodes
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else -1
        self.steps = 0
        self.done = 0
        self.alive = []
        self.sem = []
        self.hold = 0
        self.abort = False
        self.finished = threading.Semaphore(0)
        self.where = []

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            if self.abort:
                raise Abort()
            if self.writes and frame.f_lineno not in writing(frame.f_code, self.writes, frame.f_globals) \
                    and not (self.writes == 'global' and self.common(frame)):
                return self.local
            if self.cap is not None:
                place = (frame.f_code, frame.f_lineno)
                self.visits[place] += 1
                if self.visits[place] > self.cap:
                    return self.local
            self.steps += 1
            if self.left > 0:
                self.left -= 1
                if self.left == 0:
                    self.switch(frame)
        return self.local

    def common(self, frame):
        """A method of an object shared by all models writes to it."""
        c = frame.f_code
        if not c.co_argcount or frame.f_lineno not in writing(c, 'any'):
            return False
        return id(frame.f_locals.get(c.co_varnames[0])) in self.shared

    def tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if SEP not in f or '/tests/' in f:
            return None
        if self.focus is not None:
            name = frame.f_code.co_qualname
            v = self.focused.get(name)
            if v is None:
                h = hashlib.md5(('%s %s' % (self.focus[0], name)).encode()).digest()
                v = self.focused[name] = int.from_bytes(h[:4], 'big') % self.focus[1] == 0
            if not v:
                return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def switch(self, frame):
        if self.hold:
            # (not here: shared random numbers are being drawn)
            self.left = 1
            return
        me = self.me
        (_, who) = self.switches[self.pos]
        self.pos += 1
        self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else -1
        others = [t for t in self.alive if t != me]
        if not others:
            return
        to = others[who % len(others)]
        self.done += 1
        if len(self.where) < 2000:
            self.where.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        self.give(to)
        self.sem[me].acquire()
        if self.abort:
            raise Abort()

    def give(self, to):
        self.me = to
        self.sem[to].release()

    def run(self, bodies):
        results = [None] * len(bodies)

        if self.opcodes:
            prime()
        # (tracing is switched on in every thread before anything runs and off
        # after everything has run: the interpreter does not like it otherwise)
        ready = threading.Barrier(len(bodies) + 1)
        over = threading.Event()

        def thread(i):
            sys.settrace(self.tracer)
            ready.wait()
            self.sem[i].acquire()
            try:
                if not self.abort:
                    results[i] = ('ok', bodies[i]())
            except Abort:
                pass
            except BaseException as e:
                results[i] = ('raised', e)
            self.alive.remove(i)
            if self.alive and not self.abort:
                self.give(self.alive[0])
            elif not self.alive:
                over.set()
                self.finished.release()
            over.wait()
            sys.settrace(None)
        ts = []
        for i in range(len(bodies)):
            self.sem.append(threading.Semaphore(0))
            self.alive.append(i)
            ts.append(threading.Thread(target=thread, args=(i,), daemon=True))
        for t in ts:
            t.start()
        ready.wait()
        try:
            self.give(0)
            self.finished.acquire()
        except BaseException:
            self.abort = True
            over.set()
            for s in self.sem:
                s.release()
            raise
        for t in ts:
            t.join(20)
        return results
