"""A simulated session: one process of a user program working on projects kept on the simulated disk.

A run is plain data: {"prop", "project", "steps": [...]}. `Session.play` executes the steps against the
real library and the reference model side by side. Steps which make no sense in the current state
(the minimiser removes steps freely) are skipped."""
import json
import os
import random

from . import api, catalog, core, flp, gen
from .core import Abort, short

ASSETS = os.path.join(api.REPO, "tests", "assets")


def asset(name):
    with open(os.path.join(ASSETS, name), "rb") as f:
        return f.read()


def load(spec):
    """project spec -> (Flp model, bytes)"""
    if "hex" in spec:
        b = bytes.fromhex(spec["hex"])
        return flp.decode(b)[0], b
    if "asset" in spec:
        b = asset(spec["asset"])
        return flp.decode(b)[0], b
    m = gen.project(spec["seed"], spec.get("size"), spec.get("canon", True))
    if spec.get("big"):  # an event as large as those which hold a sample or a plugin's state
        n = spec["big"]
        m.events.insert(1 + spec["seed"] % len(m.events), flp.Ev(gen.UNKNOWN[-1 - spec["seed"] % 9], (bytes(range(1, 252)) * (n // 251 + 1))[:n]))
    if spec.get("crowd"):  # thousands of events
        n, at = spec["crowd"], 1 + spec["seed"] % len(m.events)
        m.events[at:at] = [flp.Ev(gen.UNKNOWN[0], bytes([k % 251])) for k in range(n)]
    if spec.get("fit"):  # the file ends at, just before or just behind a multiple of a usual buffer size
        mod, off = spec["fit"]
        at, k = 1 + spec["seed"] % len(m.events), gen.UNKNOWN[-1 - spec["seed"] % 9]
        size = len(m.encode())
        for n in range((off - size) % mod - 5, 2 * mod):
            if n >= 0 and (size + len(flp.event(flp.Ev(k, bytes(n)))) - off) % mod == 0:
                m.events.insert(at, flp.Ev(k, (bytes(range(1, 252)) * (n // 251 + 1))[:n]))
                break
    return m, m.encode()


def faultspec(faults, size):
    """[op, nth, action, arg]; a float arg is a fraction of the expected file size"""
    out = [[o, n, a, int(x * size) if isinstance(x, float) else x] for o, n, a, x in faults]
    for f in out:
        if f[2] == core.TRICKLE:  # no more calls than the shim's log holds
            f[3] = max(f[3], size // 1500)
    return out


# ---------------------------------------------------------------------------- comparing
def edit_cells(edits, L):
    """{id(event) or field name: [(off, size, mask or None)]}"""
    out = {}
    for path, name in edits:
        ent = L.ents.get(path)
        if ent is None:
            continue
        if name == "=plugin":
            for e in ent.evs:
                if e.id in (201, 212, 213):
                    out.setdefault(id(e), []).append((0, None, None))
            continue
        at = catalog.K.get(ent.kind, {}).get(name)
        if at is None:
            continue
        for ev, off, size in at.cells(ent, L):
            if ev is None:
                out.setdefault(off, []).append((0, None, None))
                continue
            c = at.codec
            mask = c.u.pack(c.mask) if isinstance(c, catalog.Bit) else None
            if size == len(ev.data) and off == 0 and mask is None:
                size = None
            out.setdefault(id(ev), []).append((off, size, mask))
    return out


def compare(buf, m, edits, L=None):
    """Differences of saved bytes from the model: [(class, detail)] with class edited / other / structure."""
    if buf == m.encode():
        return []
    try:
        g, _ = flp.decode(buf)
    except flp.Bad as e:
        return [("structure", "saved file is not a well formed project: %s" % e)]
    L = L or flp.layout(m)
    cells = edit_cells(edits, L)
    out = []
    for f in ("fmt", "nch", "ppq"):
        if getattr(g, f) != getattr(m, f):
            out.append(("edited" if f in cells else "other", "header %s is %r, not %r" % (f, getattr(g, f), getattr(m, f))))
    gi, mi = [e.id for e in g.events], [e.id for e in m.events]
    if gi != mi:
        k = next((i for i, (a, b) in enumerate(zip(gi, mi)) if a != b), min(len(gi), len(mi)))
        out.append(("structure", "%d events, not %d; first difference at event %d" % (len(gi), len(mi), k)))
        return out
    for i, (a, b) in enumerate(zip(g.events, m.events)):
        if a.data == b.data:
            continue
        what = "event #%d id %d: %s, not %s" % (i, b.id, short(a.data.hex(), 80), short(b.data.hex(), 80))
        cs = cells.get(id(b), [])
        if not cs:
            out.append(("other", what))
        elif any(size is None for _, size, _ in cs):
            out.append(("edited", what))
        elif len(a.data) != len(b.data):
            ia, ib = flp.vst_items(a.data), flp.vst_items(b.data)
            ed = {i for i, o, n in ib for off, size, _ in cs if off <= o + n and o - 8 <= off + size}
            da = {i: a.data[o : o + n] for i, o, n in ia if i not in ed}
            db = {i: b.data[o : o + n] for i, o, n in ib if i not in ed}
            out.append(("edited" if b.id == 213 and da == db else "other", what))
        else:
            inside = bytearray(len(b.data))
            for off, size, mask in cs:
                for j in range(size):
                    inside[off + j] |= 0xFF if mask is None else mask[j]
            other = any((x ^ y) & ~k & 0xFF for x, y, k in zip(a.data, b.data, inside))
            mine = any((x ^ y) & k for x, y, k in zip(a.data, b.data, inside))
            if other:
                out.append(("other", what))
            if mine:
                out.append(("edited", what))
    return out


def attrs(L, r=None, n=None, skip=()):
    """(ent, name) of readable properties: all of them, or n random ones"""
    if r is None:
        for ent in L.ents.values():
            for name in catalog.K.get(ent.kind, ()):
                if (ent.path, name) not in skip:
                    yield ent, name
        return
    ents = [e for e in L.ents.values() if e.kind in catalog.K]
    for _ in range(n):
        ent = r.choice(ents)
        name = r.choice(sorted(catalog.K[ent.kind]))
        if (ent.path, name) not in skip:
            yield ent, name


def expected(ent, name, L):
    return catalog.K[ent.kind][name].read(ent, L)


def colls(L):
    """(key, how to get the iterable from a Nav, expected children)"""
    out = []

    def add(key, get, paths):
        out.append((key, get, paths))

    def kids(prefix):
        return [p for p in sorted((q for q in L.ents if q[:-1] == prefix and isinstance(q[-1], int)), key=lambda q: q[-1])]

    add("channels", lambda n: n.get(("channels",)), [c.path for c in L.channels])
    add("patterns", lambda n: n.get(("patterns",)), [c.path for c in L.patterns])
    if L.arrangements:
        add("arrangements", lambda n: n.get(("arrangements",)), [c.path for c in L.arrangements])
    add("mixer", lambda n: n.get(("mixer",)), [c.path for c in L.inserts])
    add("groups", lambda n: n.get(("channels",)).groups, kids(("groups",)))
    for x in ("automation", "instrument", "layer", "sampler"):
        add(x + "s", lambda n, x=x: getattr(n.get(("channels",)), x + "s"), [c.path for c in L.channels if c.kind == x])
    if len(L.channels) > 1:
        add("channels[]", lambda n: n.get(("channels",))[1:99], [c.path for c in L.channels][1:])
    if len(L.patterns) > 1:
        add("patterns[]", lambda n: n.get(("patterns",))[1:99], [c.path for c in L.patterns][1:])
    if len(L.inserts) > 1:
        add("mixer[]", lambda n: n.get(("mixer",))[1:99], [c.path for c in L.inserts][1:])
    by = {}
    for c in L.channels:
        by[expected(c, "iid", L)] = c.path
        if c.kind == "automation":
            add(("points",) + c.path, lambda n, p=c.path: n.get(p), kids(c.path + ("points",)))
    for c in L.channels:
        if c.kind == "layer":
            try:
                ch = expected(c, "__children__", L)
            except catalog.Undecodable:
                continue
            if all(i in by for i in ch):
                add(("children",) + c.path, lambda n, p=c.path: n.get(p), [by[i] for i in ch])
    for q in L.patterns:
        for x in ("notes", "controllers", "timemarkers"):
            if x == "timemarkers" or q.first(224 if x == "notes" else 223) is not None:
                add((x,) + q.path, lambda n, p=q.path, x=x: getattr(n.get(p), x), kids(q.path + (x,)))
    for a in L.arrangements:
        add(("timemarkers",) + a.path, lambda n, p=a.path: n.get(p).timemarkers, kids(a.path + ("timemarkers",)))
        ts = kids(a.path + ("tracks",))
        if ts and a.first(238) is not None:
            add(("tracks",) + a.path, lambda n, p=a.path: n.get(p).tracks, ts)
            for t in ts:
                add(("items",) + t, lambda n, p=t: n.get(p), kids(t + ("items",)))
    for i in L.inserts:
        add(("slots",) + i.path, lambda n, p=i.path: n.get(p), kids(i.path + ("slots",)))
    return out


def mismatch(nav, L, ent, name):
    """None when the API says what the model says, else a description."""
    try:
        exp = expected(ent, name, L)
    except catalog.Undecodable:
        return None
    where = "%s.%s of %s" % (ent.kind, name, "/".join(map(str, ent.path)) or "the project")
    try:
        got = api.read(nav.get(ent.path), ent.kind, name, strict=exp is not None)
    except Exception as e:
        return "%s raises %s: %s, expected %s" % (where, type(e).__name__, short(str(e), 80), short(exp, 80))
    if api.same(got, exp):
        return None
    return "%s is %s, expected %s" % (where, short(got, 80), short(exp, 80))


class Session:
    prop = "?"

    def __init__(self, w, run):
        self.w, self.run = w, run
        w.begin()
        self.m, b = load(run["project"])
        self.first = b
        self.edits = set()
        self.good = {}  # name -> (model, edits) of the files a completed save (or the user) put there
        self.order = []
        self.P = self.nav = self.L = None
        self.steps_done = 0
        w.disk.put("in.flp", b)
        self.mark("in.flp", b)
        self.open("in.flp")

    # ---- bookkeeping
    def mark(self, name, raw=None):
        self.good[name] = (self.m.copy(), set(self.edits), raw)
        if name in self.order:
            self.order.remove(name)
        self.order.append(name)

    def unmark(self, name):
        self.good.pop(name, None)
        if name in self.order:
            self.order.remove(name)

    def layout(self):
        if self.L is None:
            self.L = flp.layout(self.m)
        return self.L

    def ent(self, path):
        return self.layout().ents.get(tuple(path))

    # ---- process
    def open(self, name, **kw):
        m, edits, _ = self.good[name]
        ok, res = self.w.parse(name, **kw)
        self.w.log("open", name, "ok" if ok else type(res).__name__)
        if not ok:
            self.P = None
            return self.on_open_error(name, res)
        self.m, self.edits, self.L = m.copy(), set(edits), None
        self.P, self.nav = res, api.Nav(res)
        self.after_open(name)
        return True

    def fresh(self):
        return api.Nav(self.P)

    def restart(self, avoid=None):
        """The process is gone; a new one opens the newest intact file."""
        self.P = self.nav = None
        names = [n for n in self.order if n != avoid]
        if not names:
            return
        self.w.stats["restarts"] += 1
        self.open(names[-1])

    # ---- steps
    def play(self):
        for st in self.run["steps"]:
            f = getattr(self, "do_" + st[0])
            if self.P is None and st[0] not in ("crash",):
                continue
            f(*st[1:])
            self.steps_done += 1
            self.w.stats["steps"] += 1
        self.finish()

    def finish(self):
        pass

    def do_crash(self):
        self.w.log("crash")
        self.w.stats["fault:crash_between_operations"] += 1
        self.restart()

    def valid_edit(self, path, name):
        ent = self.ent(path)
        return ent is not None and name in catalog.K.get(ent.kind, {}) and gen.editable(ent, name, self.layout())

    def do_edit(self, path, name, val, kept=False):
        path = tuple(path)
        if not self.valid_edit(path, name):
            return
        ent, L = self.ent(path), self.layout()
        nav = self.nav if kept else self.fresh()
        try:
            h = nav.get(path)
            value = api.native(val, h, name, nav, ent.kind)
        except Exception as e:
            raise Abort("cannot reach %s: %r" % (path, e))
        try:
            setattr(h, name, value)
        except Exception as e:
            self.w.log("edit", path, name, short(val), "raised", type(e).__name__)
            return self.on_edit_error(ent, name, val, e)
        catalog.K[ent.kind][name].write(ent, L, val)
        self.edits.add((path, name))
        self.w.log("edit", path, name, short(val))
        self.w.stats["edits"] += 1
        self.after_edit(nav, h, ent, name, val)

    def do_plug(self, dst, src, kept=False):
        dst, src = tuple(dst), tuple(src)
        d, s, L = self.ent(dst), self.ent(src), self.layout()
        if not plug_ok(d, s, L):
            return
        nav = self.fresh()
        try:
            hd, p = nav.get(dst), nav.get(src).plugin
        except Exception as e:
            raise Abort("cannot reach %s / %s: %r" % (dst, src, e))
        try:
            hd.plugin = p
        except Exception as e:
            return self.on_edit_error(d, "plugin", list(src), e)
        for e in d.evs:
            if e.id in (212, 213):
                e.data = s.first(e.id).data
        k = s.x["plugin"]
        if k != "native":
            n = next(n for n, q in flp.PLUGINS.items() if q == k)
            d.first(201).data = (n + "\0").encode("utf-16-le" if L.uni else "ascii")
        self.edits = {x for x in self.edits if x[0][: len(dst) + 1] != dst + ("plugin",)}
        self.edits.add((dst, "=plugin"))
        self.L = None
        self.nav = self.fresh()
        self.w.log("plug", dst, src)
        self.w.stats["plugin_assignments"] += 1
        self.after_plug(dst)

    def do_gc(self):
        """the memory of objects nobody holds any more gets reused"""
        self.w.collect()

    def do_read(self, seed, n):
        L, nav = self.layout(), self.nav
        for ent, name in attrs(L, random.Random(seed), n):
            try:
                api.read(nav.get(ent.path), ent.kind, name)
            except Exception:
                pass
        self.w.log("read", n)

    def do_save(self, name, faults=(), interrupt=None):
        want = self.m.encode()
        before = self.w.disk.get(name)
        ok, res = self.w.save(self.P, name, faults=faultspec(faults, len(want)), interrupt=interrupt)
        if self.w.dead:
            self.w.log("save", name, "crashed", self.w.oplog)
            self.unmark(name)
            self.after_torn(name, before)
            return self.restart(avoid=name)
        buf = self.w.disk.get(name)
        self.w.log("save", name, "ok" if ok else type(res).__name__, self.w.oplog, buf and len(buf))
        self.w.stats["saves"] += 1
        if not ok:
            self.w.stats["failed_saves"] += 1
            if buf != before:
                self.unmark(name)
            return self.on_save_error(name, before, buf, res)
        self.w.state(buf or b"")
        r = self.after_save(name, before, buf)
        self.mark(name)
        return r

    def do_clobber(self, name, how):
        """another program replaces, cuts or deletes the file"""
        if not [n for n in self.order if n != name]:
            return
        old = self.w.disk.get(name)
        new = {"gone": None, "junk": b"x" * 40, "cut": old and old[: len(old) // 2], "old": self.first, "same size": old and bytes(len(old))}[how]
        self.w.disk.put(name, new)
        self.unmark(name)
        self.w.log("clobber", name, how)
        self.w.stats["fault:file_replaced"] += 1

    # ---- what the properties override
    def after_open(self, name):
        pass

    def after_edit(self, nav, h, ent, name, val):
        pass

    def after_plug(self, dst):
        pass

    def after_save(self, name, before, buf):
        pass

    def after_torn(self, name, before):
        pass

    def on_open_error(self, name, e):
        raise Abort("open failed: %r" % (e,))

    def on_edit_error(self, ent, name, val, e):
        raise Abort("edit failed: %r" % (e,))

    def on_save_error(self, name, before, buf, e):
        if self.w.fired:
            return
        raise Abort("save failed: %r" % (e,))


def plug_ok(d, s, L):
    if d is None or s is None or d is s or d.kind not in ("instrument", "slot") or s.kind not in ("instrument", "slot"):
        return False
    k, old = s.x.get("plugin"), d.x.get("plugin")
    if k is None or d.first(201) is None or d.first(213) is None:
        return False
    for id in (212, 213):
        if d.first(id) is not None and s.first(id) is None:
            return False
        if len(d.all(id)) > 1 or len(s.all(id)) > 1:
            return False
    if d.kind == "instrument" and (k not in flp.GENERATORS and k != "native" or not flp.dec_str(d.first(201).data, L.uni)):
        return False
    if d.kind == "slot" and k not in flp.EFFECTS and k != "native":
        return False
    return k != "native" or old == "native"


# ---------------------------------------------------------------------------- generating steps
class Plan:
    """Chooses steps by running them on the reference model only."""

    def __init__(self, r, spec):
        self.r = r
        self.m, _ = load(spec)
        self.L = flp.layout(self.m)
        self.steps = []
        self.hot = []

    def edit(self, kinds=None, near=0.35):
        r = self.r
        if self.hot and r.random() < near:  # near an earlier edit: same object, same or sibling property
            path = r.choice(self.hot)
            ent = self.L.ents.get(path)
            if ent is not None:
                for _ in range(20):
                    name = r.choice(sorted(n for n, a in catalog.K[ent.kind].items() if not a.ro))
                    if gen.editable(ent, name, self.L):
                        v = gen.gen_value(r, ent, name, self.L)
                        if v is not None:
                            return self._edit(path, name, v)
        e = gen.pick_edit(r, self.L, kinds)
        if e is None:
            return False
        return self._edit(*e)

    def drill(self, n):
        """one property, many values; properties with a logic of their own more often"""
        r = self.r
        pairs = {}
        for e in self.L.ents.values():
            if e.kind in catalog.K:
                pairs.setdefault(e.kind, []).append(e)
        pairs = [(k, nm) for k in sorted(pairs) for nm, a in sorted(catalog.K[k].items()) if not a.ro for _ in range(1 if type(a) is catalog.Attr else 4)]
        for _ in range(20):
            k, name = r.choice(pairs)
            ent = r.choice([e for e in self.L.ents.values() if e.kind == k])
            if not gen.editable(ent, name, self.L):
                continue
            for _ in range(n):
                v = gen.gen_value(r, ent, name, self.L)
                if v is None or not gen.editable(ent, name, self.L):
                    break
                self._edit(ent.path, name, v)
            return True
        return False

    def renumber(self, n):
        """channels and patterns get other numbers, items refer to others"""
        r = self.r
        for _ in range(n):
            c = [(e, nm) for e in self.L.ents.values() for nm in (["iid"] if e.kind in catalog.CH or e.kind == "pattern" else ["channel"] * 2 if e.kind == "chitem" else ["pattern"] * 2 if e.kind == "patitem" else [])]
            if not c:
                return
            ent, name = r.choice(c)
            if gen.editable(ent, name, self.L):
                v = gen.gen_value(r, ent, name, self.L)
                if v is not None:
                    self._edit(ent.path, name, v)

    def _edit(self, path, name, v):
        ent = self.L.ents[path]
        catalog.K[ent.kind][name].write(ent, self.L, v)
        self.hot.append(path)
        self.steps.append(["edit", list(path), name, v, self.r.random() < 0.4])
        return True

    def pingpong(self, names):
        """the same value and file again and again, with something else in between"""
        r = self.r
        n = len(self.steps)
        if not self.edit(near=0) or self.steps[-1][0] != "edit":
            return
        _, path, name, v, _ = self.steps[-1]
        path = tuple(path)
        file = r.choice(names)
        self.steps.append(["save", file])
        for _ in range(r.choice([1, 2])):
            other = r.random()
            if other < 0.7 and path in self.L.ents and gen.editable(self.L.ents[path], name, self.L):
                w = gen.gen_value(r, self.L.ents[path], name, self.L)
                if w is None:
                    return
                self._edit(path, name, w)
                self.steps.append(["save", r.choice([file, file, r.choice(names)]), r.choice([[], hard(r), hard(r), benign(r)])])
                if path not in self.L.ents or not gen.editable(self.L.ents[path], name, self.L):
                    return
                self._edit(path, name, v)
            if other > 0.5:
                self.steps.append(["clobber", file, r.choice(["gone", "junk", "cut", "old", "same size"])])
            self.steps.append(["save", file])

    def clone(self):
        """one object is made like another of its kind, then each goes its own way"""
        r = self.r
        kinds = {}
        for e in self.L.ents.values():
            if e.kind in catalog.K:
                kinds.setdefault((e.kind, e.path[:-1] if r.random() < 0.9 else None), []).append(e)
        kinds = {k: v for k, v in kinds.items() if len(v) > 1 and any(not a.ro for a in catalog.K[k[0]].values())}
        if not kinds:
            return False
        es = kinds[r.choice(sorted(kinds, key=repr))]
        k = r.randrange(len(es) - 1)
        a, b = es[k : k + 2] if r.random() < 0.7 else r.sample(es, 2)
        if r.random() < 0.5:
            a, b = b, a
        names = [n for n, at in sorted(catalog.K[a.kind].items()) if type(at) is catalog.Attr and not at.ro and n not in ("iid", "index", "channel", "pattern")]
        r.shuffle(names)
        for n in names[:24]:
            if not gen.editable(a, n, self.L) or not gen.editable(b, n, self.L):
                continue
            try:
                v = json.loads(json.dumps(catalog.K[a.kind][n].read(a, self.L)))
                cod = catalog.K[a.kind][n].codec
                if getattr(cod, "enum", False):
                    v = ["enum", v] if v in cod.values else None
                if v is None:
                    continue
                catalog.K[b.kind][n].write(b, self.L, v)
            except Exception:
                continue
            self._edit(b.path, n, v)
        self.hot = [a.path, b.path]
        for _ in range(r.choice([1, 2, 3])):
            self.edit(near=1)
        return True

    def plug(self):
        r = self.r
        c = [e for e in self.L.ents.values() if e.kind in ("instrument", "slot")]
        for _ in range(12):
            if len(c) < 2:
                return False
            d, s = r.sample(c, 2)
            if plug_ok(d, s, self.L):
                for e in d.evs:
                    if e.id in (212, 213):
                        e.data = s.first(e.id).data
                k = s.x["plugin"]
                if k != "native":
                    n = next(n for n, q in flp.PLUGINS.items() if q == k)
                    d.first(201).data = (n + "\0").encode("utf-16-le" if self.L.uni else "ascii")
                self.L = flp.layout(self.m)
                self.steps.append(["plug", list(d.path), list(s.path)])
                self.hot += [d.path + ("plugin",), s.path + ("plugin",)]
                return True
        return False


def benign(r):
    """Faults a correct program absorbs: nothing is lost, the kernel is merely unhelpful."""
    from .core import EINTR, ERRNO, SHORT, TRICKLE, WRITE, OPEN_W

    c = r.random()
    if c < 0.3:
        return [[WRITE, 1, SHORT, r.choice([1, 2, 3, 17, 22, 23, 100, 4096, r.random()])]]
    if c < 0.5:
        return [[WRITE, 1, SHORT, r.random()], [WRITE, 2, r.choice([SHORT, SHORT]), r.choice([1, 7, 64])], [WRITE, 3, ERRNO, EINTR]]
    if c < 0.65:
        return [[WRITE, r.choice([1, 1, 2]), ERRNO, EINTR]]
    if c < 0.75:
        return [[OPEN_W, 1, ERRNO, EINTR]]
    return [[WRITE, 1, TRICKLE, r.choice([37, 64, 500, 4096])]]


def hard(r, kinds=None):
    """Faults which make the data not arrive: the caller has to be told."""
    from .core import CLOSE, EACCES, EDQUOT, EIO, EMFILE, ENOSPC, EROFS, ERRNO, INTR, LOSE, OPEN_W, QUOTA, SHORT, WRITE

    k = r.choice(kinds or ["full", "full", "eio", "late", "close", "open", "ctrlc"])
    if k == "full":
        return [[WRITE, 1, QUOTA, r.choice([0, 1, 21, 22, 23, r.random(), r.random(), 0.999])]]
    if k == "eio":
        return [[WRITE, 1, ERRNO, r.choice([EIO, ENOSPC, EDQUOT])]]
    if k == "late":
        return [[WRITE, 1, SHORT, r.choice([1, 22, r.random()])], [WRITE, 2, ERRNO, r.choice([EIO, ENOSPC, EDQUOT])]]
    if k == "close":
        return [[CLOSE, 1, LOSE, r.choice([0, 10, 50, 90, 99])]]
    if k == "ctrlc":
        return r.choice([[[WRITE, 1, INTR, 0]], [[WRITE, 1, SHORT, r.choice([1, 22, r.random()])], [WRITE, 2, INTR, 0]], [[OPEN_W, 1, INTR, 0]]])
    return [[OPEN_W, 1, ERRNO, r.choice([EACCES, EMFILE, EROFS, ENOSPC, EIO])]]


def die(r):
    from .core import CLOSE, DIE, OPEN_W, SHORT, WRITE

    c = r.random()
    if c < 0.1:
        return [[OPEN_W, 1, DIE, 0]]
    if c < 0.8:
        return [[WRITE, 1, DIE, r.choice([0, 1, 13, 14, 18, 21, 22, 23, r.random(), r.random(), r.random(), 0.999])]]
    if c < 0.95:
        return [[WRITE, 1, SHORT, r.random()], [WRITE, 2, DIE, r.choice([0, 1, 5])]]
    return [[CLOSE, 1, DIE, 0]]
