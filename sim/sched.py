"""The simulated thread scheduler: exactly one thread runs at a time, and a recorded list of quanta
(counted in executed lines of the code under test) decides when which thread gets to run.

Locks are part of the seam: `install()` replaces threading's locks before the code under test is
imported, so that a thread which waits for a lock hands over instead of blocking the simulation."""
import _thread
import functools
import hashlib
import sys
import threading
import zlib

_sim = {}  # ident -> (Scheduler, index)


class Deadlock(Exception):
    pass


class Lock:
    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _sim.get(_thread.get_ident())
        if me is None:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            me[0].blocked(me[1])
        me[0].progress()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()


class RLock(Lock):
    def __init__(self):
        super().__init__()
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.owner != me:
            if not Lock.acquire(self, blocking, timeout):
                return False
            self.owner = me
        self.n += 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if not self.n:
            self.owner = None
            Lock.release(self)

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        n, self.n, self.owner = self.n, 0, None
        Lock.release(self)
        return n

    def _acquire_restore(self, n):
        Lock.acquire(self)
        self.owner, self.n = _thread.get_ident(), n


def install():
    threading.Lock, threading.RLock = Lock, RLock
    if hasattr(functools, "RLock"):
        functools.RLock = RLock


class Scheduler:
    STALL = 45

    def __init__(self, prefix, quanta, hot=None):
        """hot: [seed, k]: besides, every kth line of the code (which ones, the seed decides) is a switch"""
        self.prefix, self.quanta = prefix, quanta
        self.hot, self.ishot = hot, {}
        self.pos = 0
        self.h = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.lines = 0

    def run(self, fns):
        n = len(fns)
        self.go = [_thread.allocate_lock() for _ in range(n)]
        for g in self.go:
            g.acquire()
        self.alive = set(range(n))
        self.waiting = set()
        self.res = [None] * n
        self.main = _thread.allocate_lock()
        self.main.acquire()
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.left = 0
        self.handover(None)
        if not self.main.acquire(True, self.STALL):
            raise RuntimeError("simulated threads stalled")
        return self.res

    def body(self, i, fn):
        self.go[i].acquire()
        _sim[_thread.get_ident()] = (self, i)
        sys.settrace(self.globaltrace)
        try:
            self.res[i] = (True, fn())
        except BaseException as e:
            self.res[i] = (False, e)
        finally:
            sys.settrace(None)
            del _sim[_thread.get_ident()]
            self.alive.discard(i)
            self.waiting.clear()
            if self.alive:
                self.handover(None)
            else:
                self.main.release()

    def globaltrace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.localtrace
        return None

    def localtrace(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            self.left -= 1
            if self.left <= 0 or self.hot and self.at_hot(frame):
                i = _sim[_thread.get_ident()][1]
                self.h.update(b"%d %s %d;" % (i, frame.f_code.co_name.encode(), frame.f_lineno))
                self.handover(i)
        return self.localtrace

    def at_hot(self, frame):
        key = (frame.f_code, frame.f_lineno)
        if key not in self.ishot:
            s = "%s:%s:%d:%d" % (frame.f_code.co_filename[len(self.prefix) :], frame.f_code.co_name, frame.f_lineno, self.hot[0])
            self.ishot[key] = zlib.crc32(s.encode()) % self.hot[1] == 0
        return self.ishot[key]

    def nextup(self, avoid=()):
        """the thread the schedule names next, among those which can run"""
        ok = sorted(self.alive - set(avoid))
        t, q = self.quanta[self.pos % len(self.quanta)] if self.quanta else (0, 10**9)
        self.pos += 1
        self.left = q
        return t if t in ok else ok[t % len(ok)]

    def handover(self, me, avoid=()):
        nxt = self.nextup(avoid)
        if nxt == me:
            return
        self.switches += 1
        self.go[nxt].release()
        if me is not None:
            self.go[me].acquire()

    def blocked(self, me):
        self.waiting.add(me)
        if self.waiting >= self.alive:
            raise Deadlock("every thread waits for a lock")
        self.handover(me, self.waiting)

    def progress(self):
        self.waiting.clear()
