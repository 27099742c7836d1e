"""C01 durable edits, C02 frame, C05 unstorable values, C10 handles, C11 rejected edits."""
import random

from .. import api, catalog, core, flp, gen
from ..core import Abort, Known, Violation, short
from ..session import Plan, Session, attrs, benign, compare, die, expected, hard, mismatch


def spec(r, size=None):
    return {"seed": r.getrandbits(32), "size": r.choice([0, 1, 1, 2, 2, 3]) if size is None else size, "canon": True}


NAMES = ["a.flp", "b.flp", "in.flp"]


def disk_step(r, st, p_crash=0.25):
    """A save with whatever disk weather, or a crash"""
    c = r.random()
    if c < p_crash * 0.5:
        st.append(["crash"])
    elif c < p_crash:
        st.append(["save", r.choice(NAMES), die(r)])
    elif c < p_crash + 0.15:
        st.append(["save", r.choice(NAMES), hard(r)])
    elif c < p_crash + 0.4:
        st.append(["save", r.choice(NAMES), benign(r)])
    else:
        st.append(["save", r.choice(NAMES)])


# ---------------------------------------------------------------------------- C01
class C01(Session):
    prop = "C01"

    def __init__(self, w, run):
        self.ever = set()
        super().__init__(w, run)

    @staticmethod
    def gen(r):
        sp = spec(r)
        P = Plan(r, sp)
        for _ in range(r.choice([1, 2, 3])):
            for _ in range(r.choice([1, 2, 4, 8])):
                if r.random() < 0.04 and P.plug():
                    continue
                P.edit()
            if r.random() < 0.2:
                P.steps.append(["read", r.getrandbits(20), 15])
            disk_step(r, P.steps)
        if r.random() < 0.12:
            P.pingpong(NAMES)
        if r.random() < 0.1:
            P.clone()
        if r.random() < 0.4:
            P.drill(r.choice([4, 8, 16]))
        if r.random() < 0.1:
            P.renumber(r.choice([3, 6, 12]))
        if r.random() < 0.7:
            P.steps.append(["save", r.choice(NAMES)])
        P.steps.append(["crash"])
        return {"project": sp, "steps": P.steps}

    def on_edit_error(self, ent, name, val, e):
        raise Violation("rejected", "assigning %s to %s.%s of %s raises %s: %s" % (short(val), ent.kind, name, ent.path, type(e).__name__, short(str(e), 80)))

    def after_edit(self, nav, h, ent, name, val):
        self.ever.add((ent.path, name))
        self.w.probes[ent.kind + "." + name] += 1
        L = self.layout()
        exp = expected(ent, name, L)
        try:
            got = api.read(h, ent.kind, name)
        except Exception as e:
            raise Violation("readback", "%s.%s of %s raises %r after assigning %s" % (ent.kind, name, ent.path, e, short(val)))
        if not api.same(got, exp):
            raise Violation("readback", "%s.%s of %s reads %s after assigning %s" % (ent.kind, name, ent.path, short(got), short(val)))
        d = mismatch(self.fresh(), L, ent, name)
        if d:
            raise Violation("readback", "looked up again: " + d)

    def still(self, when):
        """every value assigned so far reads back, through old and new handles"""
        L = self.layout()
        todo = sorted(self.ever, key=repr)
        if len(todo) > 24:
            todo = random.Random(self.steps_done).sample(todo, 24)
        for nav in (self.nav, self.fresh()):
            for path, nm in todo:
                ent = L.ents.get(path)
                if ent is None or nm not in catalog.K[ent.kind]:
                    continue
                d = mismatch(nav, L, ent, nm)
                if d:
                    raise Violation("lost", when + ": " + d)

    def do_read(self, seed, n):
        super().do_read(seed, n)
        self.still("after reading other properties")

    def do_vcross(self):
        """a version on the other side of 11.5, where the encoding of all text changes"""
        p = self.P
        old = [str(c.name) for c in p.patterns if c.name] + [str(p.title), str(p.comments)]
        p.version = "9.0.0" if self.m.version() >= (11, 5) else "20.0.0"
        ok, e = self.w.save(p, "x.flp")
        if not ok:
            return
        ok, q = self.w.parse("x.flp")
        new = [str(c.name) for c in q.patterns if c.name] + [str(q.title), str(q.comments)] if ok else repr(q)
        self.w.log("vcross", new == old)
        if new != old:
            raise Known("version-11.5", "texts read %s, expected %s" % (short(new, 90), short(old, 90)))

    def do_save(self, name, faults=(), interrupt=None):
        self.still("before saving")
        super().do_save(name, faults, interrupt)
        if self.P is not None and not self.w.dead:
            self.still("after a save")

    def on_save_error(self, name, before, buf, e):
        fatal = set(self.w.fired) & {core.QUOTA, core.LOSE, core.DIE, core.INTR} or any(o in ("open_w", "write", "close") and rc < 0 and er != core.EINTR for o, rc, er in self.w.oplog)
        if not fatal:
            raise Violation("unsaveable", "save raises %s: %s" % (type(e).__name__, short(str(e), 100)))

    def after_save(self, name, before, buf):
        for cls, d in compare(buf or b"", self.m, self.edits):
            if cls == "edited":
                raise Violation("lost", "saved file: " + d)
            if cls == "structure":
                self.structural(buf, d)

    def structural(self, buf, d):
        try:
            G = flp.layout(flp.decode(buf)[0])
        except Exception:
            raise Violation("lost", d)
        for path, name in sorted(self.edits, key=repr):
            ent = self.ent(path)
            if ent is None or name == "=plugin":
                continue
            try:
                same = expected(G.ents[path], name, G) == expected(ent, name, self.layout())
            except Exception:
                same = False
            if not same:
                raise Violation("lost", "%s of %s is not in the saved file; %s" % (name, path, d))

    def on_open_error(self, name, e):
        if self.edits:
            raise Violation("unreadable", "%s cannot be opened after a completed save: %s: %s" % (name, type(e).__name__, short(str(e), 100)))
        raise Abort("cannot open")

    def after_open(self, name):
        L = self.layout()
        for path, nm in sorted(self.ever, key=repr):
            ent = L.ents.get(path)
            if ent is None or nm not in catalog.K[ent.kind]:
                continue
            d = mismatch(self.nav, L, ent, nm)
            if d:
                raise Violation("lost" if (path, nm) in self.edits else "ghost", "after restart from %s: %s" % (name, d))


# ---------------------------------------------------------------------------- C02
class C02(Session):
    prop = "C02"

    @staticmethod
    def gen(r):
        sp = spec(r)
        P = Plan(r, sp)
        for _ in range(r.choice([1, 1, 2])):
            for _ in range(r.choice([1, 1, 2, 4, 7])):
                if r.random() < 0.15 and P.plug():
                    continue
                P.edit(near=0.25)
            if r.random() < 0.15:
                P.clone()
            disk_step(r, P.steps, 0.2)
        P.steps.append(["save", r.choice(NAMES)])
        P.steps.append(["crash"])
        return {"project": sp, "steps": P.steps}

    def covered(self):
        """properties stored in bytes which were edited (any of them may change)"""
        L = self.layout()
        out = set(self.edits)
        hit = {}
        for path, name in self.edits:
            ent = L.ents.get(path)
            at = catalog.K.get(ent.kind, {}).get(name) if ent is not None else None
            if at is not None:
                for ev, off, size in at.cells(ent, L):
                    hit.setdefault(id(ev) if ev is not None else off, []).append((path, name))
            elif name == "=plugin" and ent is not None:
                for e in ent.evs:
                    if e.id in (201, 212, 213):
                        hit.setdefault(id(e), []).append("=")
        return out, hit

    def check(self, pairs, when):
        L, nav = self.layout(), self.fresh()
        skip, hit = self.covered()
        for ent, name in pairs:
            if (ent.path, name) in skip:
                continue
            at = catalog.K[ent.kind][name]
            if any("=" in hit.get(id(ev), ()) for ev, _, _ in at.cells(ent, L) if ev is not None):
                continue
            d = mismatch(nav, L, ent, name)
            if d:
                raise Violation("changed", "%s: %s" % (when, d))

    def after_edit(self, nav, h, ent, name, val):
        L = self.layout()
        mine = {id(ev) for ev, _, _ in catalog.K[ent.kind][name].cells(ent, L) if ev is not None}
        near = [e for e in L.ents.values() if e.path == ent.path or mine and e.path and e.kind not in ("rack", "patterns", "arrangements", "mixer") and any(id(x) in mine for x in e.evs)]
        rr = random.Random(self.steps_done)
        pairs = [(e, n) for e in near for n in catalog.K.get(e.kind, ())]
        if len(pairs) > 70:
            pairs = rr.sample(pairs, 70)
        self.check(pairs, "after editing %s of %s" % (name, ent.path))
        self.check(list(attrs(L, rr, 15)), "after editing %s of %s" % (name, ent.path))

    def after_plug(self, dst):
        L = self.layout()
        self.check(list(attrs(L)), "after assigning the plugin of %s" % (dst,))

    def after_save(self, name, before, buf):
        for cls, d in compare(buf or b"", self.m, self.edits, self.layout()):
            if cls in ("other", "structure"):
                raise Violation("collateral", "saved file: " + d)

    def on_open_error(self, name, e):
        if self.edits:
            raise Violation("unreadable", "%s cannot be opened after a completed save: %r" % (name, e))
        raise Abort("cannot open")

    def after_open(self, name):
        self.check(list(attrs(self.layout())), "after opening " + name)

    def finish(self):
        if self.P is not None:
            self.check(list(attrs(self.layout(), random.Random(1), 60)), "at the end")


# ---------------------------------------------------------------------------- unstorable values

def bad_pick(r, L, tries=60):
    for _ in range(tries):
        e = gen.pick_edit(r, L)
        if e is None:
            return None
        path, name, _ = e
        ent = L.ents[path]
        at = catalog.K[ent.kind][name]
        if isinstance(at, catalog.Lev) and len(at.cells(ent, L)) > 1:
            continue  # a file with both legacy spellings: its value may not fit the narrower one
        b = at.codec.bad(r)
        if not b:
            continue
        return path, name, r.choice(b)
    return None


def is_absent(ent, name):
    at = catalog.K[ent.kind][name]
    if at.ro or isinstance(at.codec, (catalog.Enum, type(None))) or at.codec is at and not isinstance(at, (catalog.VstStr, catalog.PathAttr)):
        return False
    return at.loc(ent) is None


def absent_pick(r, L):
    ents = [e for e in L.ents.values() if e.kind in catalog.K]
    for _ in range(60):
        ent = r.choice(ents)
        name = r.choice(sorted(catalog.K[ent.kind]))
        if is_absent(ent, name):
            return ent.path, name, catalog.K[ent.kind][name].gen(r, ent, L)
    return None


def bad_native(val, h, name, nav, kind):
    if isinstance(val, list) and val and val[0] == "enum":
        return val[1]
    return api.native(val, h, name, nav, kind)


class Bad(Session):
    """Adds the step [bad, path, name, val]"""

    def try_bad(self, path, name, val, kept):
        """-> None (step not applicable) or (ent, handle, value, old, exception or None)"""
        path = tuple(path)
        if not self.valid_edit(path, name):
            return None
        ent = self.ent(path)
        nav = self.nav if kept else self.fresh()
        try:
            h = nav.get(path)
            value = bad_native(val, h, name, nav, ent.kind)
            old = getattr(h, name)
        except Exception as e:
            raise Abort("cannot reach %s.%s: %r" % (path, name, e))
        try:
            setattr(h, name, value)
        except Exception as e:
            self.w.stats["rejected_values"] += 1
            self.w.log("bad", path, name, short(val), "raised", type(e).__name__)
            return ent, h, value, old, e
        self.w.stats["accepted_unstorable_values"] += 1
        self.w.log("bad", path, name, short(val), "accepted")
        return ent, h, value, old, None


class C05(Bad):
    prop = "C05"

    @staticmethod
    def gen(r):
        sp = spec(r)
        P = Plan(r, sp)
        for _ in range(r.choice([1, 2, 3, 5])):
            for _ in range(r.choice([0, 0, 1, 3])):
                P.edit()
            b = bad_pick(r, P.L)
            if b:
                # existing or new destination; maybe the disk misbehaves as well
                P.steps.append(["bad", list(b[0]), b[1], b[2], r.random() < 0.4, r.choice(["new.flp", "in.flp", "a.flp"]), benign(r) if r.random() < 0.2 else []])
            if r.random() < 0.25:
                disk_step(r, P.steps, 0.2)
        return {"project": sp, "steps": P.steps}

    def do_bad(self, path, name, val, kept, target, faults):
        t = self.try_bad(path, name, val, kept)
        if t is None:
            return
        ent, h, value, old, err = t
        if err is not None:
            return
        d = self.w.disk
        before, names = d.get(target), d.names()
        ok, res = self.w.save(self.P, target, faults=core and self._f(faults))
        what = "%s assigned to %s.%s of %s" % (short(val), ent.kind, name, ent.path)
        if not ok:
            self.w.stats["refused_saves"] += 1
            self.w.log("save refused", type(res).__name__)
            if d.get(target) != before:
                raise Violation("destroyed", "%s: save raises %s but %s %s" % (what, type(res).__name__, target, "was left behind" if before is None else "was overwritten"))
            if d.names() != names:
                raise Violation("destroyed", "%s: the refused save left %s" % (what, sorted(set(d.names()) - set(names))))
            try:
                setattr(h, name, old)
            except Exception as e:
                raise Violation("stuck", "%s: a valid value cannot be assigned any more: %r" % (what, e))
            ok, res = self.w.save(self.P, target)
            if not ok:
                raise Violation("stuck", "%s: save still raises %r after a valid value was assigned" % (what, res))
            diff = compare(d.get(target) or b"", self.m, {(ent.path, name)} | self.edits, self.layout())
            if diff:
                raise Violation("stuck", "%s, then repaired: %s" % (what, diff[0][1]))
            self.mark(target)
            return
        # neither refused: then it must really have been stored
        self.unmark(target)
        ok, p = self.w.parse(target)
        if not ok:
            raise Violation("swallowed", "%s: save succeeds, the file cannot be opened: %r" % (what, p))
        try:
            got = api.read(api.Nav(p).get(ent.path), ent.kind, name)
        except Exception as e:
            raise Violation("swallowed", "%s: save succeeds, reading it back raises %r" % (what, e))
        if isinstance(val, list) and val[:1] == ["enum"]:
            val = val[1]
        want = list(value) if isinstance(value, list) else api.norm(value)
        if not api.same(got, want):
            raise Violation("swallowed", "%s: save succeeds, the file says %s" % (what, short(got)))
        try:
            setattr(h, name, old)
        except Exception as e:
            raise Violation("stuck", "%s: the old value cannot be assigned any more: %r" % (what, e))

    def _f(self, faults):
        from ..session import faultspec

        return faultspec(faults, len(self.m.encode()))


class C11(Bad):
    prop = "C11"

    @staticmethod
    def gen(r):
        sp = spec(r)
        P = Plan(r, sp)
        for _ in range(r.choice([1, 2, 4, 7])):
            for _ in range(r.choice([0, 0, 1, 3])):
                P.edit()
            b = bad_pick(r, P.L)
            if b:
                P.steps.append(["bad", list(b[0]), b[1], b[2], r.random() < 0.5])
            if r.random() < 0.35:
                a = absent_pick(r, P.L)
                if a:
                    P.steps.append(["absent", list(a[0]), a[1], a[2], r.random() < 0.5])
            if r.random() < 0.15:
                c = [e for e in P.L.ents.values() if e.kind in ("instrument", "slot")]
                if c:
                    P.steps.append(["badplug", list(r.choice(c).path), r.getrandbits(24)])
            if r.random() < 0.2:
                disk_step(r, P.steps, 0.2)
        P.steps.append(["save", "a.flp", benign(r) if r.random() < 0.3 else []])
        return {"project": sp, "steps": P.steps}

    def do_absent(self, path, name, val, kept):
        """Assigning a property this project has no storage for"""
        path = tuple(path)
        ent = self.ent(path)
        if ent is None or name not in catalog.K.get(ent.kind, {}) or not is_absent(ent, name):
            return
        nav = self.nav if kept else self.fresh()
        try:
            h = nav.get(path)
            value = api.native(val, h, name, nav, ent.kind)
        except Exception as e:
            raise Abort("cannot reach %s.%s: %r" % (path, name, e))
        try:
            setattr(h, name, value)
        except Exception as e:
            self.w.stats["rejected_absent"] += 1
            self.w.log("absent", path, name, type(e).__name__)
            return self.no_trace(ent, name, val, e)
        raise Violation("dropped", "%s.%s of %s is not stored in this project, yet assigning %s is accepted" % (ent.kind, name, path, short(val)))

    def do_badplug(self, path, seed):
        """Something which is no plugin, or a plugin for an object which has no place for one"""
        path, r = tuple(path), random.Random(seed)
        ent, L, nav = self.ent(path), self.layout(), self.fresh()
        if ent is None or ent.kind not in ("instrument", "slot"):
            return
        try:
            h = nav.get(path)
            if ent.first(213) is not None:
                what = r.choice(["none", "text", "pattern", "number"])
                value = {"none": None, "text": "x", "number": 5, "pattern": nav.get(("patterns", 0)) if L.patterns else object()}[what]
            else:
                src = [e for e in L.ents.values() if e.kind in ("instrument", "slot") and e.x.get("plugin")]
                if not src:
                    return
                s = r.choice(src)
                what, value = "the plugin of %s" % (s.path,), nav.get(s.path).plugin
        except Exception as e:
            raise Abort("cannot reach %s: %r" % (path, e))
        try:
            h.plugin = value
        except Exception as e:
            self.w.stats["rejected_plugins"] += 1
            self.w.log("badplug", path, what, type(e).__name__)
            return self.no_trace(ent, "plugin", what, e)
        raise Violation("dropped", "%s is accepted as plugin of %s, which %s" % (what, path, "is none" if ent.first(213) is not None else "has no place to store it"))

    def do_bad(self, path, name, val, kept):
        t = self.try_bad(path, name, val, kept)
        if t is None:
            return
        ent, h, value, old, err = t
        L = self.layout()
        if err is None:
            try:
                setattr(h, name, old)
            except Exception as e:
                raise Violation("stuck", "%s.%s of %s: after assigning %s the old value is refused: %r" % (ent.kind, name, ent.path, short(val), e))
        self.no_trace(ent, name, val, err)

    def no_trace(self, ent, name, val, err):
        L = self.layout()
        if name == "plugin":
            mine = {id(ev) for ev in ent.evs if ev.id in (201, 212, 213)}
        else:
            mine = {id(ev) for ev, _, _ in catalog.K[ent.kind][name].cells(ent, L) if ev is not None}
        near = [e for e in L.ents.values() if e.path == ent.path or mine and e.path and e.kind not in ("rack", "patterns", "arrangements", "mixer") and any(id(x) in mine for x in e.evs)]
        pairs = [(e, n) for e in near for n in catalog.K.get(e.kind, ())]
        rr = random.Random(self.steps_done)
        if len(pairs) > 60:
            pairs = rr.sample(pairs, 60)
        if name != "plugin":
            pairs += [(ent, name)]
        pairs += list(attrs(L, rr, 10))
        nav = self.fresh()
        for e, n in pairs:
            d = mismatch(nav, L, e, n)
            if d:
                raise Violation("trace", "%s %s for %s.%s of %s: %s" % ("rejecting" if err else "undoing", short(val), ent.kind, name, ent.path, d))
        self.touched = True
        self.last = "%s to %s.%s of %s (%s)" % (short(val), ent.kind, name, ent.path, "rejected" if err else "undone")

    touched = False
    last = ""

    def on_save_error(self, name, before, buf, e):
        if self.w.fired:
            return
        if self.touched:
            raise Violation("trace", "save raises %r after assigning %s" % (e, self.last))
        raise Abort("save failed")

    def after_save(self, name, before, buf):
        if self.touched:
            d = compare(buf or b"", self.m, set(), self.layout())
            if d:
                raise Violation("trace", "saved file after assigning %s: %s" % (self.last, d[0][1]))


# ---------------------------------------------------------------------------- C10
def lookups(L):
    """Ways to get at objects other than by iteration: [(key, nav -> object or list, paths)]"""
    out = []

    def unique(ents, name):
        """(value, path) of those objects which are the first of that name"""
        seen = set()
        for e in ents:
            try:
                v = expected(e, name, L)
            except Exception:
                continue
            if v is not None and v not in seen:
                seen.add(v)
                yield v, e.path

    for coll, ents, name in (("channels", L.channels, "display_name"), ("patterns", L.patterns, "name"), ("arrangements", L.arrangements, "name"), ("mixer", L.inserts, "name")):
        for v, path in unique(ents, name):
            out.append((coll + "[name]", lambda n, c=coll, v=v: n.get((c,))[v], [path]))
        for k, e in enumerate(ents):
            i = expected(e, "iid", L) if coll == "channels" else k - 1 if coll == "mixer" else k
            out.append((coll + "[index]", lambda n, c=coll, i=i: n.get((c,))[i], [e.path]))
        if len(ents) > 1:
            out.append((coll + "[slice]", lambda n, c=coll, k=len(ents): n.get((c,))[1:k], [e.path for e in ents][1:]))
    for x in ("automation", "instrument", "layer", "sampler"):
        c = [c.path for c in L.channels if c.kind == x]
        if c:
            out.append((x + "s", lambda n, x=x: list(getattr(n.get(("channels",)), x + "s")), c))
    by = {expected(c, "iid", L): c.path for c in L.channels}
    for c in L.channels:
        if c.kind == "layer":
            ch = expected(c, "__children__", L)
            if all(i in by for i in ch):
                for i in ch:
                    out.append(("layer[iid]", lambda n, p=c.path, i=i: n.get(p)[i], [by[i]]))
                if len(ch) == len(set(ch)) and ch:
                    out.append(("layer[slice]", lambda n, p=c.path, k=len(ch): n.get(p)[0:k], [by[i] for i in ch]))
                if ch:
                    out.append(("iter(layer)", lambda n, p=c.path: list(n.get(p)), [by[i] for i in ch]))
        if ("groups", c.x["group"]) in L.ents:
            out.append(("channel.group", lambda n, p=c.path: n.get(p).group, [("groups", c.x["group"])]))
        if c.kind == "automation":
            pts = sorted((q for q in L.ents if q[:-1] == c.path + ("points",)), key=lambda q: q[-1])
            for k, q in enumerate(pts):
                out.append(("automation[index]", lambda n, p=c.path, k=k: n.get(p)[k], [q]))
            if pts:
                out.append(("automation[slice]", lambda n, p=c.path, k=len(pts): n.get(p)[0:k], pts))
    pats = {}
    for q in L.patterns:
        if q.first(65) is not None:
            pats.setdefault(expected(q, "iid", L), q.path)
    root = L.ents[()]
    e = root.first(67)
    if e is not None and int.from_bytes(e.data, "little") in pats:
        out.append(("patterns.current", lambda n: n.get(("patterns",)).current, [pats[int.from_bytes(e.data, "little")]]))
    a = root.first(100)
    if a is not None and int.from_bytes(a.data, "little") < len(L.arrangements):
        out.append(("arrangements.current", lambda n: n.get(("arrangements",)).current, [L.arrangements[int.from_bytes(a.data, "little")].path]))
    for t in L.ents.values():
        if t.kind == "track":
            items = sorted((q for q in L.ents if q[:-1] == t.path + ("items",)), key=lambda q: q[-1])
            for k, q in enumerate(items):
                out.append(("track[index]", lambda n, p=t.path, k=k: n.get(p)[k], [q]))
            if items:
                out.append(("track[slice]", lambda n, p=t.path: n.get(p)[0:], items))
        elif t.kind in ("chitem", "patitem"):
            x = "channel" if t.kind == "chitem" else "pattern"
            d = (by if t.kind == "chitem" else pats).get(expected(t, x, L)[1])
            if d is not None:
                out.append(("item." + x, lambda n, p=t.path, x=x: getattr(n.get(p), x), [d]))
        elif t.kind == "insert":
            slots = [s for s in L.ents.values() if s.kind == "slot" and s.path[:2] == t.path]
            for k, s in enumerate(slots):
                out.append(("insert[index]", lambda n, p=t.path, k=k: n.get(p)[k], [s.path]))
            if slots:
                out.append(("insert[slice]", lambda n, p=t.path, k=len(slots): n.get(p)[0:k], [s.path for s in slots]))
            for v, path in unique(slots, "name"):
                out.append(("insert[name]", lambda n, p=t.path, v=v: n.get(p)[v], [path]))
    return out


class C10(Session):
    prop = "C10"

    def __init__(self, w, run):
        self.held = {}
        super().__init__(w, run)

    @staticmethod
    def gen(r):
        sp = spec(r, r.choice([1, 2, 2, 3]))
        P = Plan(r, sp)
        paths = sorted((p for p, e in P.L.ents.items() if e.kind in catalog.K), key=repr)
        kinds = {}
        for p in paths:
            kinds.setdefault(P.L.ents[p].kind, []).append(p)
        pool = [r.choice(paths) if r.random() < 0.5 else r.choice(kinds[r.choice(sorted(kinds))]) for _ in range(r.choice([2, 4, 8]))]
        refs = [p for p in paths if P.L.ents[p].kind in ("chitem", "patitem", "layer")]
        for _ in range(r.choice([4, 8, 16])):
            c = r.random()
            if c < 0.4 or not P.steps:
                P.steps.append(["hold", list(r.choice(pool)), "nav" if r.random() < 0.4 else r.getrandbits(20)])
            elif c < 0.8:
                P.hot = [p for p in pool if p in P.L.ents]
                n = len(P.steps)
                P.edit(near=0.85)
                for s in P.steps[n:]:
                    s[0] = "via"
                    s[4] = r.getrandbits(16)
            elif c < 0.84:
                P.plug() if r.random() < 0.6 else P.clone()
            elif c < 0.92:
                P.steps.append(["save", r.choice(NAMES), r.choice([[], [], hard(r), benign(r)])])
            elif refs:
                P.steps.append(["hold", list(r.choice(refs)), "nav"])
            if r.random() < 0.02:
                P.steps.append(["gc"])
            if r.random() < 0.3:
                P.steps.append(["read", r.getrandbits(20), 20])
        P.steps.append(["agree"])
        return {"project": sp, "steps": P.steps}

    def after_open(self, name):
        self.held = {}

    def do_hold(self, path, route):
        path = tuple(path)
        ent = self.ent(path)
        if ent is None:
            return
        try:
            h = self.reach(ent, route)
        except Abort:
            raise
        except Exception as e:
            raise Abort("cannot reach %s: %r" % (path, e))
        if h is not None:
            self.held.setdefault(path, []).append(h)
            self.w.stats["handles"] += 1
            self.w.log("hold", path, route)

    def reach(self, ent, route):
        """a handle by one of the ways there are; route: "nav" (iteration) or a number choosing among the others"""
        path, L, nav = ent.path, self.layout(), self.fresh()
        if route == "nav":
            return nav.get(path)
        ways = [(key, get, q, k) for key, get, paths in lookups(L) for k, q in enumerate(paths) if path[: len(q)] == q]
        if not ways:
            return nav.get(path)
        key, get, q, k = ways[route % len(ways)]
        obj = get(nav)
        if route % 3 == 0:  # the same through collections and objects which the caller kept
            try:
                obj = get(self.nav)
            except Exception as e:
                raise Violation("stale", "%s does not find %s by %s of the objects obtained earlier: %r" % (self.prop, path, key, e))
            self.w.stats["kept_lookups"] += 1
        if k >= 0 and isinstance(obj, (list, tuple)):
            obj = obj[k]
        self.w.stats["route:" + key] += 1
        if obj is None:
            raise Abort("nothing found by " + key)
        sub = api.Nav(self.P)
        sub.cache[q] = obj
        return sub.get(path)

    def after_plug(self, dst):
        for q in list(self.held):
            if q[: len(dst) + 1] == dst + ("plugin",):
                del self.held[q]  # another plugin sits there now
        for q in list(self.held):
            e = self.layout().ents.get(q)
            if e is not None and q[: len(dst)] == dst:
                for n in catalog.K[e.kind]:
                    self.agree(e, n, "after a plugin was assigned to %s" % (dst,))

    def do_via(self, path, name, val, k):
        path = tuple(path)
        if not self.valid_edit(path, name):
            return
        ent, L = self.ent(path), self.layout()
        hs = self.held.get(path)
        try:
            h = hs[k % len(hs)] if hs else self.fresh().get(path)
            value = api.native(val, h, name, self.fresh(), ent.kind)
        except Exception as e:
            raise Abort("cannot reach %s: %r" % (path, e))
        try:
            setattr(h, name, value)
        except Exception as e:
            if hs and k % len(hs) >= 0:
                try:
                    g = self.fresh().get(path)
                    setattr(g, name, value)
                except Exception:
                    raise Abort("edit rejected: %r" % (e,))
                raise Violation("stale", "%s.%s of %s can be assigned %s through a new handle, an older one raises %r" % (ent.kind, name, path, short(val), e))
            raise Abort("edit rejected: %r" % (e,))
        catalog.K[ent.kind][name].write(ent, L, val)
        self.edits.add((path, name))
        self.w.stats["edits"] += 1
        self.w.log("via", path, name, short(val), k)
        # everything held that shows the same stored data has to say the same at once
        cells = {(id(ev) if ev is not None else off) for ev, off, _ in catalog.K[ent.kind][name].cells(ent, L)}
        for q in self.held:
            e = L.ents.get(q)
            if e is None:
                continue
            for n in catalog.K[e.kind]:
                at = catalog.K[e.kind][n]
                if q == path and n == name or at.ro or any((id(ev) if ev is not None else off) in cells for ev, off, _ in at.cells(e, L)):
                    self.agree(e, n, "after %s of %s became %s" % (name, path, short(val)))

    def agree(self, ent, name, when):
        L = self.layout()
        try:
            exp = expected(ent, name, L)
        except catalog.Undecodable:
            return
        vals = []
        for h in self.held[ent.path] + [self.fresh().get(ent.path)]:
            try:
                vals.append(api.read(h, ent.kind, name, strict=exp is not None))
            except Exception as e:
                vals.append(["raises", type(e).__name__])
        self.w.stats["agreement_checks"] += 1
        if any(not api.same(v, exp) for v in vals):
            if all(v == vals[0] for v in vals) and exp is not None and (ent.path, name) not in self.edits:
                raise Abort("all handles agree on another value than the model")
            raise Violation("disagree", "%s: handles to %s.%s of %s say %s, expected %s" % (when, ent.kind, name, ent.path, short(vals), short(exp)))

    def do_agree(self):
        for q in list(self.held):
            e = self.layout().ents.get(q)
            if e is not None:
                for n in catalog.K[e.kind]:
                    self.agree(e, n, "at the end")

    def after_save(self, name, before, buf):
        d = compare(buf or b"", self.m, self.edits, self.layout())
        if any(c == "edited" for c, _ in d):
            raise Violation("disagree", "the saved file does not hold what the handles say: " + d[0][1])


ALL = [C01, C02, C05, C10, C11]
