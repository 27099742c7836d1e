"""C17: every operation ends, and costs no more for what happened before."""
import collections
import enum
import gc
import random
import sys

import pyflp

from .. import api, catalog, core, flp, gen
from ..core import Abort, Violation, short
from ..session import Plan, attrs, faultspec, hard, plug_ok
from .disk import BROWSE, _peek
from .edits import bad_native, bad_pick
from .live import C14, colls


class Over(BaseException):
    pass


class Meter:
    """counts executed lines of the library; past the budget it ends the operation"""

    def __init__(self, budget):
        self.n, self.budget, self.over = 0, budget, False

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.budget:
                self.over = True
                raise Over
        return self._local

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(api.PYFLP_DIR) else None

    def __call__(self, fn):
        sys.settrace(self._global)
        try:
            fn()
            return "ok"
        except Over:
            return "over"
        except Exception as e:
            return type(e).__name__
        finally:
            sys.settrace(None)


OPS = ["read", "read", "iter", "iter", "browse", "browse", "save", "parse", "reedit", "bad", "failsave", "event", "open", "plug"]


class C17(C14):
    prop = "C17"

    @staticmethod
    def gen(r):
        if r.random() < 0.4:  # any file: does it end?
            run = C14.gen(r)
            run["steps"] = run["steps"][:-1] + [["through", r.getrandbits(24)]]
            return run
        sp = {"seed": r.getrandbits(32), "size": r.choice([0, 0, 1, 1, 2]), "canon": True}
        P = Plan(r, sp)
        for _ in range(r.choice([0, 0, 1, 2])):
            P.edit()
        seed = r.getrandbits(24)
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(OPS)
            P.steps.append(["op", k, seed if r.random() < 0.5 else r.getrandbits(24), r.random() < 0.5])
        for _ in range(r.choice([0, 0, 1, 2])):
            P.steps.append(["noise", r.choice(OPS), r.getrandbits(24), r.random() < 0.5])
        return {"project": sp, "steps": P.steps, "reps": r.choice([8, 16, 16, 32, 64])}

    def after_open(self, name):
        super().after_open(name)
        if not hasattr(self, "ops"):
            self.ops, self.noise = [], []

    def on_edit_error(self, ent, name, val, e):
        raise Abort("edit refused: %r" % (e,))

    # ---- part 1: it ends
    def do_through(self, seed):
        w = self.w
        w.disk.put("bad.flp", self.raw)
        box = []

        def measure(what, fn, budget):
            m = Meter(budget)
            how = m(fn)
            w.stats["measured_operations"] += 1
            w.log(what, how, m.n)
            if m.over:
                raise Violation("runaway", "%s does not end within %d lines for a file of %d bytes" % (what, budget, len(self.raw)))
            return how

        def parse():
            ok, p = w.parse("bad.flp")
            if ok:
                box.append(p)

        measure("parse", parse, 20000 + 400 * len(self.raw))
        w.state("through", self.raw)
        if not box:
            return
        p = box[0]
        n = len(list(p.events)) + len(self.raw) // 8 + 50
        r = random.Random(seed)
        for k in r.sample(range(len(BROWSE)), 4):
            measure("reading (%d)" % k, lambda: BROWSE[k](p, random.Random(seed)), 2000 * n * n)
        measure("save", lambda: w.save(p, "out.flp"), 20000 + 400 * len(self.raw))

    # ---- part 2: it does not get dearer
    def do_op(self, kind, seed, kept):
        self.ops.append((kind, seed, kept))

    def do_noise(self, kind, seed, kept):
        self.noise.append((kind, seed, kept))

    def act(self, kind, seed, kept):
        """-> a function to call again and again; it leaves the project as it was"""
        r = random.Random(seed)
        w, L, p = self.w, self.layout(), self.P
        if kind == "read":
            pairs = list(attrs(L, r, 3))

            def read():
                nav = self.nav if kept else api.Nav(p)
                for ent, name in pairs:
                    try:
                        api.read(nav.get(ent.path), ent.kind, name)
                    except Exception:
                        pass

            return read
        if kind == "iter":
            key, get, paths = r.choice(colls(L))
            return lambda: list(get(self.nav if kept else api.Nav(p)))
        if kind == "browse":
            k = r.randrange(len(BROWSE) + 4)
            return lambda: (BROWSE[k] if k < len(BROWSE) else _peek)(p, random.Random(seed))
        if kind == "save":
            return lambda: w.save(p, "s.flp")
        if kind == "failsave":
            f = faultspec(hard(r), len(self.m.encode()))
            return lambda: w.save(p, "f.flp", faults=f)
        if kind == "parse":
            return lambda: w.parse("in.flp")
        if kind == "open":
            raw = self.good["in.flp"][0].encode()
            w.disk.put("cut.flp", raw[: r.choice([0, 11, 22, len(raw) // 2, len(raw) - 1])])
            return lambda: w.parse("cut.flp")
        if kind in ("reedit", "bad"):
            e = gen.pick_edit(r, L) if kind == "reedit" else bad_pick(r, L)
            if e is None:
                return None
            path, name, val = e[:3]
            ent = L.ents[tuple(path)]
            if name in ("iid", "version", "channel_count"):
                return None

            def reedit():
                nav = self.nav if kept else api.Nav(p)
                h = nav.get(ent.path)
                old = getattr(h, name)
                try:
                    setattr(h, name, (api.native if kind == "reedit" else bad_native)(val, h, name, nav, ent.kind))
                except Exception:
                    return
                setattr(h, name, old)

            return reedit
        if kind == "plug":
            slots = [e for e in L.ents.values() if e.kind in ("instrument", "slot")]
            pairs = [(d, s) for d in slots for s in slots if plug_ok(d, s, L)]
            if not pairs:
                return None
            d, s = r.choice(pairs)
            box = []

            def plug():
                nav = self.nav if kept else api.Nav(p)
                if not box or seed % 2:
                    box[:] = [nav.get(s.path).plugin]
                nav.get(d.path).plugin = box[0]

            return plug
        if kind == "event":
            ids = [int(e.id) for e in p.events]
            pos = r.randrange(1, len(ids))
            src = next(e for e in p.events if int(e.id) < 64) if any(i < 64 for i in ids) else None
            if src is None:
                return None

            def event():
                e = type(src)(src.id, bytes([1]))
                p.events.insert(pos, e)
                n = [x for x in p.events if x.id == src.id].index(e) if False else sum(1 for i, x in enumerate(p.events) if i < pos and x.id == src.id)
                p.events.pop(src.id, n)

            return event

    def finish(self):
        w = self.w
        if not self.ops or self.P is None:
            return
        try:
            ops = [(o, self.act(*o)) for o in self.ops]
            noise = [f for f in (self.act(*o) for o in self.noise) if f]
        except Exception as e:
            raise Abort("cannot prepare: %r" % (e,))
        reps = self.run.get("reps", 16)
        for o, fn in ops:
            if fn is None:
                continue
            counts, hows = [], []
            budget = 1 << 60
            for k in range(reps):
                m = Meter(budget)
                hows.append(m(fn))
                counts.append(m.n)
                w.stats["measured_operations"] += 1
                if m.over:
                    break
                if k == 1:
                    budget = 20 * max(counts) + 20000
                for f in noise:
                    try:
                        f()
                    except Exception:
                        pass
            w.log("cost", o, counts, hows[:2])
            w.state(o[0], counts[0], hows[0])
            if hows[-1] == "over":
                raise Violation("grows", "%s took %s lines, then more than %d" % (o[0], counts[:2], budget))
            if len(set(hows)) > 1:
                continue  # what an operation says is judged by other properties
            q = max(1, reps // 4)
            early, late = sorted(counts[q : 2 * q])[q // 2], sorted(counts[-q:])[q // 2]
            if late > early + max(6, early // 50):
                raise Violation("grows", "%s costs more each time: %s lines" % (o[0], short(counts[:3] + ["..."] + counts[-3:])))


# ---------------------------------------------------------------------------- C18
BOXED = {int, float, bool, type(None), collections.Counter}
EXTENT = (bytes, bytearray, str, list, dict, set, tuple, frozenset, collections.deque)


def census():
    """-> ({type: living objects}, {type: total length})"""
    gc.collect()
    gc.collect()
    objs = gc.get_objects()
    n = collections.Counter(map(type, objs))
    ext = collections.Counter({t: 0 for t in EXTENT})  # no type which is counted: results stay
    for o in objs:
        t = type(o)
        if t in ext and o is not objs:
            ext[t] += len(o)
    del objs, o
    return [n, ext]


def grown(a, b, least):
    """{name: growth}"""
    out = {}
    for t in b[0]:
        if t not in BOXED and b[0][t] - a[0].get(t, 0) >= least:
            out["%s objects" % t.__name__] = b[0][t] - a[0].get(t, 0)
    for t in EXTENT:
        if b[1][t] - a[1][t] >= least:
            out["elements of %s" % t.__name__] = b[1][t] - a[1][t]
    return out


KEEP = ["read", "iter", "browse", "save", "reedit", "bad", "failsave", "event", "plug", "abandon", "cutread", "cutsave", "vary", "vary", "ask"]
FLEET = ["parse", "open", "life", "life", "cutparse", "other", "other"]


def varying(L):
    """[(entity, name, value)] of properties which take about any text or number"""
    out = []
    for ent, name in attrs(L):
        a = catalog.K[ent.kind][name]
        if a.ro or name in ("iid", "version", "channel_count", "licensee", "ppq") or not gen.editable(ent, name, L):
            continue
        v = a.read(ent, L)
        if isinstance(v, str) or type(v) in (int, float):
            out.append((ent, name, v))
    return sorted(out, key=lambda t: (not isinstance(t[2], str), str(t[0].path), t[1]))


def other(old, k):
    """like old, another one for each k; all of the same size"""
    return "v%06d" % k if isinstance(old, str) else type(old)(k % 120)


class C18(C17):
    prop = "C18"

    @staticmethod
    def gen(r):
        sp = {"seed": r.getrandbits(32), "size": r.choice([0, 0, 1, 1, 2]), "canon": True}
        P = Plan(r, sp)
        for _ in range(r.choice([0, 0, 1, 2])):
            P.edit()
        kinds = r.choice([KEEP, KEEP, FLEET, KEEP + FLEET])
        for _ in range(r.choice([1, 2, 3, 4])):
            P.steps.append(["op", r.choice(kinds), r.getrandbits(24), r.random() < 0.5])
        if r.random() < 0.4:
            P.steps.append(["gone", r.getrandbits(24), r.choice([0, 1, 2, 4, 8])])
        return {"project": sp, "steps": P.steps, "reps": r.choice([6, 8, 12])}

    def do_gone(self, seed, n):
        """a project is opened, used and dropped: nothing of it is left (besides what its predecessor left)"""
        w = self.w
        w.disk.put("tiny.flp", flp.Flp(0, 0, 96, [flp.Ev(199, b"20.8.4.2576\0")]).encode())
        keep, nav = self.P, self.nav

        def life(name, n):
            try:
                ok, q = w.parse(name)
                if not ok:
                    raise Abort("cannot open")
                self.P, self.nav = q, api.Nav(q)
                r = random.Random(seed)
                for _ in range(n):
                    k = r.choice(["read", "iter", "browse", "save", "reedit", "failsave", "bad", "event", "plug", "abandon", "cutread", "cutsave", "vary", "ask"])
                    try:
                        f = self.act(k, r.getrandbits(24), r.random() < 0.5)
                        if f:
                            f()
                    except Exception:
                        pass
                    f = None
            finally:
                self.P, self.nav = keep, nav

        def ours():
            n, ext = census()
            return {t: k for t, k in n.items() if t.__module__.split(".")[0] == "pyflp" and not issubclass(t, enum.Enum)}, ext[bytes] + ext[bytearray]

        life("in.flp", n)
        life("tiny.flp", 0)
        a, x = ours()
        life("in.flp", n)
        b, y = ours()
        w.stats["memory_comparisons"] += 1
        left = {t.__name__: k - a.get(t, 0) for t, k in b.items() if k > a.get(t, 0)}
        w.log("gone", sorted(left))
        size = len(w.disk.get("in.flp"))
        if y - x > size // 2 + 100:
            raise Violation("kept", "%d bytes are held after a project read from a file of %d bytes is gone" % (y - x, size))
        if left:
            k = sorted(left, key=lambda k: (-left[k], k))[0]
            raise Violation("kept", "%d objects of a project are alive after its last handle is gone, e.g. %d %s" % (sum(left.values()), left[k], k))

    def act(self, kind, seed, kept):
        r = random.Random(seed)
        w, L, p = self.w, self.layout(), self.P
        if kind == "abandon":
            key, get, paths = r.choice(colls(L))
            n = r.randrange(3)

            def abandon():
                it = iter(get(self.nav if kept else api.Nav(p)))
                for _ in range(n):
                    next(it, None)

            return abandon
        if kind == "vary":  # another value each time
            texts = varying(L)
            if not texts:
                return None
            words = [t for t in texts if isinstance(t[2], str)]
            ent, name, old = r.choice(words if words and r.random() < 0.7 else texts)
            box = [0]

            def vary():
                box[0] += 1
                h = (self.nav if kept else api.Nav(p)).get(ent.path)
                setattr(h, name, other(old, box[0]))
                getattr(h, name)
                if r.random() < 0.2:
                    w.save(p, "v.flp")

            return vary
        if kind == "ask":  # for what is not there, by another name each time
            box = [0]

            def ask():
                box[0] += 1
                for c in ("channels", "patterns", "mixer", "arrangements"):
                    try:
                        getattr(p, c)["nobody %06d" % box[0]]
                    except Exception:
                        pass
                    try:
                        getattr(p, c)[1000000 + box[0]]
                    except Exception:
                        pass

            return ask
        if kind == "other":  # another file each time, under another name
            texts = varying(L)
            box = [0]
            bad = r.random() < 0.3

            def another():
                box[0] += 1
                ok, q = w.parse("in.flp")
                if not ok:
                    return
                nav = api.Nav(q)
                for ent, name, old in texts[:8]:
                    try:
                        setattr(nav.get(ent.path), name, other(old, box[0]))
                    except Exception:
                        pass
                fn = "p%06d.flp" % box[0]
                w.save(q, fn)
                if bad:
                    w.disk.put(fn, (w.disk.get(fn) or b"")[:-1 - box[0] % 7])
                ok, q = w.parse(fn)
                if ok:
                    BROWSE[seed % len(BROWSE)](q, random.Random(seed))
                w.disk.put(fn, None)

            return another
        if kind in ("cutread", "cutsave", "cutparse"):
            if kind == "cutread":
                k = r.randrange(len(BROWSE))
                fn = lambda q: BROWSE[k](q, random.Random(seed))  # noqa: E731
            elif kind == "cutsave":
                fn = lambda q: pyflp.save(q, w.disk.arg("c.flp"))  # noqa: E731
            else:
                fn = lambda q: pyflp.parse(w.disk.arg("in.flp"))  # noqa: E731
            it = core.point([r.choice(["KeyboardInterrupt", "MemoryError"]), r.random()], lambda: fn(p))
            if it is None:
                return None
            return lambda: w.run(lambda: fn(p), interrupt=it)
        if kind == "life":  # a project opened, used and dropped
            def life():
                keep, self.P = self.P, None
                nav = self.nav
                try:
                    ok, q = w.parse("in.flp")
                    if not ok:
                        return
                    self.P, self.nav = q, api.Nav(q)
                    rr = random.Random(seed)
                    for _ in range(3):
                        f = C17.act(self, rr.choice(["read", "iter", "browse", "save", "reedit", "failsave", "bad"]), rr.getrandbits(24), rr.random() < 0.5)
                        if f:
                            try:
                                f()
                            except Exception:
                                pass
                finally:
                    self.P, self.nav = keep, nav

            return life
        return super().act(kind, seed, kept)

    def finish(self):
        w = self.w
        if not self.ops or self.P is None:
            return
        try:
            ops = [(o, f) for o, f in ((o, self.act(*o)) for o in self.ops) if f]
        except Exception as e:
            raise Abort("cannot prepare: %r" % (e,))
        if not ops:
            return
        n = self.run.get("reps", 8)

        def rounds(k):
            for _ in range(k):
                for o, f in ops:
                    try:
                        f()
                    except Exception:
                        pass
            w.stats["measured_operations"] += k * len(ops)

        def window(k):
            a = census()
            rounds(k)
            return grown(a, census(), k)

        rounds(3)
        g = window(n)
        w.stats["memory_comparisons"] += 1
        w.state([o for o, f in ops])
        if g:
            g1 = window(n)
            if set(g) & set(g1):  # is it a cache which fills up?
                rounds(1200 if any(o[0] in ("vary", "ask", "other") for o, f in ops) else 300)
                g2, g3 = window(2 * n), window(2 * n)
                both = sorted(set(g) & set(g1) & set(g2) & set(g3))
                w.log("growth", both)
                if both:
                    k = both[0]
                    raise Violation("accumulates", "%s: memory grows by %d %s in %d rounds and again by %d in the next (%s)" % (" / ".join(o[0] for o, f in ops), g2[k], k, 2 * n, g3[k], ", ".join(both[:6])))
        w.log("rounds", [o[0] for o, f in ops])


ALL = [C17, C18]
