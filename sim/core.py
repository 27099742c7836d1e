"""Simulator core: the simulated disk, the crash/interrupt injector, violations, statistics."""
import collections
import ctypes
import hashlib
import os
import pathlib
import shutil
import sys

from . import addr, api

OPEN_R, OPEN_W, READ, WRITE, CLOSE, FSYNC, TRUNC, RENAME, UNLINK, MKDIR = range(10)
OPNAMES = ("open_r", "open_w", "read", "write", "close", "fsync", "trunc", "rename", "unlink", "mkdir")
ERRNO, SHORT, EOF, DIE, QUOTA, TRICKLE, LOSE, INTR = 1, 2, 3, 4, 5, 6, 7, 8
ACTNAMES = {ERRNO: "errno", SHORT: "short", EOF: "premature_eof", DIE: "crash", QUOTA: "disk_full", TRICKLE: "trickle", LOSE: "lost_on_close", INTR: "ctrl_c_in_call"}
EINTR, EIO, ENOENT, EACCES, EMFILE, ENOSPC, EROFS, EDQUOT = 4, 5, 2, 13, 24, 28, 30, 122


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__("%s: %s" % (cls, detail))
        self.cls, self.detail = cls, detail


class Abort(Exception):
    """The code under test failed outside the property this run decides."""


class HarnessError(Exception):
    pass


class Known(Exception):
    """The run met a defect listed in known_findings.json (identified by its key)."""

    def __init__(self, key, detail):
        super().__init__("%s: %s" % (key, detail))
        self.key, self.detail = key, detail


_lib = ctypes.CDLL(None)
try:
    _lib.sim_stray.restype = ctypes.c_char_p
    _lib.sim_arm.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
    _lib.sim_log_res.restype = ctypes.c_long
    HAVE_SHIM = True
except AttributeError:
    HAVE_SHIM = False


DECO = [
    lambda n: n,
    lambda n: n,
    lambda n: "my song " + n,
    lambda n: "a;b&c'd " + n,
    lambda n: n.replace(".flp", ".FLP"),
    lambda n: n.replace(".flp", ""),
    lambda n: n.replace(".flp", ".bak"),
    lambda n: "." + n,
    lambda n: n.replace(".flp", ".tmp") + " ",
    lambda n: "x" * 120 + n,
    lambda n: "v1.2%s.{0}." + n,
]
FORMS = ["str", "str", "path", "path", "rel", "relpath", "dot"]


class Disk:
    """One scratch directory behind the LD_PRELOAD shim."""

    def __init__(self, root):
        self.root = root
        self.use(0)

    def use(self, style):
        """how this run calls its files (as a name, and as an argument)"""
        self.deco, self.form = DECO[style % len(DECO)], FORMS[style // len(DECO) % len(FORMS)]
        self.logical = {}

    def actual(self, name):
        n = self.deco(name)
        if n != name:
            self.logical[n] = name
        return n

    def path(self, name):
        return os.path.join(self.root, self.actual(name))

    def arg(self, name):
        """what the code under test is given"""
        n = self.actual(name)
        if self.form == "rel":
            return n
        if self.form == "relpath":
            return pathlib.Path(n)
        if self.form == "dot":
            return os.path.join(".", n)
        n = os.path.join(self.root, n)
        return pathlib.Path(n) if self.form == "path" else n

    def on(self):
        _lib.sim_root(self.root.encode())

    def off(self):
        _lib.sim_root(b"")

    def clear(self):
        self.off()
        _lib.sim_forget_fds()
        _lib.sim_reset()
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

    # harness-side access, not simulated
    def get(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def put(self, name, data):
        if data is None:
            if os.path.exists(self.path(name)):
                os.unlink(self.path(name))
            return
        with open(self.path(name), "wb") as f:
            f.write(data)

    def names(self):
        return sorted(self.logical.get(n, n) for n in os.listdir(self.root))


class World:
    def __init__(self, root):
        self.disk = Disk(root)
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.h = hashlib.sha256()
        self.trace = None
        self.dead = False
        self.fired = {}
        self.reads = 0

    addr = None

    def addresses(self):
        """from now on id() is simulated in the code under test"""
        self.addr = addr.Addresses()
        self.addr.install()

    def collect(self):
        if self.addr is not None:
            self.addr.collect()
            self.stats["collections"] += 1

    def begin(self):
        if self.addr is not None:
            self.addr.begin()
        self.disk.clear()
        self.h = hashlib.sha256()
        self.trace = []

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode("utf8", "surrogatepass") + b"\n")
        self.trace.append(s if len(s) < 400 else s[:400] + "...")

    def state(self, *what):
        d = hashlib.blake2b(digest_size=8)
        for x in what:
            d.update(x if isinstance(x, bytes) else repr(x).encode("utf8", "surrogatepass"))
        self.states.add(d.digest())

    # ---- running code under test against the simulated disk
    def run(self, fn, faults=(), interrupt=None, watch=False):
        """Call fn() with the disk simulated; returns (ok, result or exception).

        faults: [[op, nth, action, arg], ...]; interrupt: [kind, n]: raise at the nth line the
        code under test executes. A crash fault leaves self.dead set: the caller must drop every object."""
        d = self.disk
        _lib.sim_reset()
        for f in faults:
            _lib.sim_arm(*[int(x) for x in f])
        if watch:
            _lib.sim_watch(1)
        inj = Interrupter(*interrupt) if interrupt else None
        d.on()
        try:
            if inj:
                inj.start()
            try:
                res = fn()
                ok = True
            finally:
                if inj:
                    inj.stop()
        except (KeyboardInterrupt, MemoryError, RecursionError) as e:
            if (inj is None or not inj.fired) and not _lib.sim_fired(INTR):
                raise
            ok, res = False, e
        except Exception as e:
            ok, res = False, e
        finally:
            d.off()
        self.dead = bool(_lib.sim_dead())
        self.fired = {a: _lib.sim_fired(a) for a in ACTNAMES if _lib.sim_fired(a)}
        for a, n in self.fired.items():
            self.stats["fault:" + ACTNAMES[a]] += n
        if inj and inj.fired:
            self.stats["fault:interrupt_" + inj.kind.__name__] += 1
            self.fired["interrupt"] = 1
        self.inj = inj
        self.strays = _lib.sim_strays() if watch else 0
        self.stray = (_lib.sim_stray() or b"").decode() if watch else ""
        _lib.sim_watch(0)
        self.open_fds = _lib.sim_open_fds()
        self.oplog = [(OPNAMES[_lib.sim_log_op(i)], _lib.sim_log_res(i), _lib.sim_log_err(i)) for i in range(_lib.sim_log_len())]
        self.stats["io_calls"] += len(self.oplog)
        _lib.sim_disarm()
        return ok, res

    def count_fds(self):
        return _lib.sim_open_fds()

    def parse(self, name, **kw):
        import pyflp

        return self.run(lambda: pyflp.parse(self.disk.arg(name)), **kw)

    def save(self, project, name, **kw):
        import pyflp

        return self.run(lambda: pyflp.save(project, self.disk.arg(name)), **kw)


KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}


class Interrupter:
    """Raises in the code under test at the nth line of it that gets executed (from now on)."""

    def __init__(self, kind, n):
        self.kind, self.n, self.count, self.fired, self.nested, self.where = KINDS[kind], n, 0, False, False, None
        self.seen = {}  # line -> the numbers under which it was executed

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.n < 0:
                self.seen.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(self.count)
            elif self.count == self.n:
                self.fired = True
                self.where = "%s:%s" % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                f = frame
                while f is not None:  # below construct's parser, which takes MemoryError for a parse error
                    if "construct" in f.f_code.co_filename and "parse" in f.f_code.co_name:
                        self.nested = True
                        break
                    f = f.f_back
                sys.settrace(None)
                raise self.kind("injected")
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(api.PYFLP_DIR):
            return self._local
        return None

    def start(self):
        sys.settrace(self._global)

    def stop(self):
        sys.settrace(None)


def measure(fn):
    it = Interrupter("KeyboardInterrupt", -1)
    it.start()
    try:
        fn()
    except Exception:
        pass
    finally:
        it.stop()
    return it


def point(intr, fn):
    """[kind, x] -> [kind, n]: fn() is to be interrupted at the nth line of the code under test it executes.

    One half of the x's picks from all executed lines, the other from the distinct ones first, so that
    what is executed once is interrupted as often as what is executed a thousand times."""
    return points([intr], fn)[0]


def points(intrs, fn):
    it = measure(fn)
    keys = sorted(it.seen)

    def one(kind, x):
        if not it.count:
            return None
        x *= 2
        if x < 1:
            return [kind, 1 + int(x * it.count)]
        x = (x - 1) * len(keys)
        at = it.seen[keys[int(x)]]
        return [kind, at[int((x - int(x)) * len(at))]]

    return [one(*i) for i in intrs]


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
