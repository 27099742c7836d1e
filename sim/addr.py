"""Addresses: what id() says of objects is decided here, not by the allocator.

An address belongs to one object as long as that object lives, and is handed out again once it is
gone. Real allocators do the latter whenever they like; this one does it at the explicit points
collect() only, and then as soon as possible: the next object asked for its address at the same
place in the code gets the address of the one which died first."""
import builtins
import gc
import sys
import weakref

_real = builtins.id


class Addresses:
    def __init__(self):
        self.known, self.free, self.dead = {}, {}, []
        self.next, self.first, self.reused = 1 << 56, 1 << 56, 0

    def install(self):
        for name, m in list(sys.modules.items()):
            if m is not None and (name == "pyflp" or name.startswith("pyflp.")):
                m.__dict__["id"] = self.id

    def begin(self):
        """a new run: what died before is not handed out any more"""
        self.free, self.first = {}, self.next
        del self.dead[:]

    def id(self, obj):
        real = _real(obj)
        k = self.known.get(real)
        if k is not None and k[0]() is obj:
            return k[1]
        f = sys._getframe(1)
        site = (f.f_code.co_filename, f.f_lineno)
        free = self.free.get(site)
        if free:
            sid = free.pop()
            self.reused += 1
        else:
            sid = self.next
            self.next += 8

        def gone(ref, known=self.known, dead=self.dead):
            if known.get(real, (None,))[0] is ref:
                del known[real]
            dead.append((sid, site))

        try:
            self.known[real] = weakref.ref(obj, gone), sid
        except TypeError:
            return real
        return sid

    def collect(self):
        gc.collect()
        gc.collect()
        dead = sorted(((s, x) for s, x in self.dead if s >= self.first), reverse=True)
        del self.dead[:]
        self.free = {}  # those left over from the last time are forgotten
        for sid, site in dead:
            self.free.setdefault(site, []).append(sid)
