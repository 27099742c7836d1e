"""C13: separate projects stay separate, whatever the interleaving of the programs working on them.
C16: several threads may read and save one project."""
import random

import pyflp

from .. import api, catalog, flp, gen, sched
from ..core import Abort, Violation, short
from ..session import Plan, Session, attrs, compare, expected, faultspec, hard, load, mismatch, plug_ok
from .disk import QUIET, browse
from .edits import bad_native, bad_pick
from .live import colls


class Task:
    """One program working on one project of its own."""

    def __init__(self, idx, w, spec):
        self.idx, self.w = idx, w
        self.name = "p%d.flp" % idx
        self.m, raw = load(spec)
        self.saved = self.m.copy()
        self.edits, self.saved_edits = set(), set()
        self.P = self.nav = self.L = None
        self.log = []
        w.disk.put(self.name, raw)

    def layout(self):
        if self.L is None:
            self.L = flp.layout(self.m)
        return self.L

    def open(self):
        try:
            p = pyflp.parse(self.w.disk.arg(self.name))
        except Exception as e:
            raise Violation("bleed", "project %d cannot be opened: %r" % (self.idx, e))
        self.m, self.edits, self.L = self.saved.copy(), set(self.saved_edits), None
        self.P, self.nav = p, api.Nav(p)

    def edit(self, path, name, val, kept):
        path = tuple(path)
        L = self.layout()
        ent = L.ents.get(path)
        if ent is None or name not in catalog.K.get(ent.kind, {}) or not gen.editable(ent, name, L):
            return
        nav = self.nav if kept else api.Nav(self.P)
        try:
            h = nav.get(path)
            setattr(h, name, api.native(val, h, name, nav, ent.kind))
        except Exception as e:
            raise Violation("bleed", "project %d: assigning %s to %s.%s raises %r" % (self.idx, short(val), path, name, e))
        catalog.K[ent.kind][name].write(ent, L, val)
        self.edits.add((path, name))
        self.see([(ent, name)], "right after assigning it")

    def bad(self, path, name, val):
        """an edit which may fail; when it does not, it is taken back"""
        path = tuple(path)
        L = self.layout()
        ent = L.ents.get(path)
        if ent is None or name not in catalog.K.get(ent.kind, {}) or not gen.editable(ent, name, L):
            return
        nav = api.Nav(self.P)
        try:
            h = nav.get(path)
            value = bad_native(val, h, name, nav, ent.kind)
            old = getattr(h, name)
        except Exception as e:
            raise Violation("bleed", "project %d: %s.%s cannot be read: %r" % (self.idx, path, name, e))
        try:
            setattr(h, name, value)
        except Exception:
            return
        try:
            setattr(h, name, old)
        except Exception as e:
            raise Violation("bleed", "project %d: %s.%s cannot be set back: %r" % (self.idx, path, name, e))

    def see(self, pairs, when, fresh=True):
        L = self.layout()
        nav = api.Nav(self.P) if fresh else self.nav
        for ent, name in pairs:
            d = mismatch(nav, L, ent, name)
            if d:
                raise Violation("bleed", "project %d, %s: %s" % (self.idx, when, d))

    def read(self, seed, n, when="when read"):
        r = random.Random(seed)
        self.see(list(attrs(self.layout(), r, n)), when, r.random() < 0.6)

    def save(self):
        want = self.m.encode()
        try:
            pyflp.save(self.P, self.w.disk.arg(self.name))
        except Exception as e:
            raise Violation("bleed", "project %d cannot be saved: %r" % (self.idx, e))
        self.check_file(want)
        self.saved, self.saved_edits = self.m.copy(), set(self.edits)

    def check_file(self, want):
        buf = self.w.disk.get(self.name)
        if buf != want:
            d = compare(buf or b"", self.m, self.edits, self.layout())
            raise Violation("bleed", "project %d as saved: %s" % (self.idx, d[0][1] if d else "bytes differ"))


def quanta(r, k):
    """who runs for how many lines; repeated when used up"""
    style = r.random()
    q = []
    for _ in range(r.choice([1, 3, 10, 40])):
        t = r.randrange(k)
        if style < 0.3:
            n = r.choice([1, 1, 2, 3, 5])
        elif style < 0.7:
            n = int(2 ** r.uniform(0, 10))
        else:
            n = r.choice([1, 2, 1000, 5000])
        q.append([t, n])
    if len({t for t, _ in q}) < k:
        q += [[t, r.choice([1, 7, 50, 400])] for t in range(k)]
    return q


def schedule(r, k, run):
    if r.random() < 0.4:  # switches at certain lines of the code
        run["hot"] = [r.getrandbits(24), r.choice([5, 20, 60, 60, 200, 200]), 1]
        run["sched"] = [[r.randrange(k), 10**6] for _ in range(7)] if r.random() < 0.7 else quanta(r, k)
        if len({t for t, _ in run["sched"]}) < k:
            run["sched"] += [[t, 10**6] for t in range(k)]
    else:
        run["sched"] = quanta(r, k)
    return run


class C13:
    prop = "C13"
    fresh = True  # every run in a process of its own

    def __init__(self, w, run):
        self.w, self.run = w, run

    @staticmethod
    def gen(r):
        mode = r.choice(["ops", "threads", "threads"])
        k = r.choice([2, 2, 3])
        sp = [{"seed": r.getrandbits(32), "size": r.choice([0, 0, 1, 1, 2] if mode == "threads" else [0, 1, 2, 2]), "canon": True} for _ in range(k)]
        if r.random() < 0.5:  # identical twins show the most
            sp[1] = dict(sp[0])
        steps = []
        per = []
        for t in range(k):
            P = Plan(r, sp[t])
            P.t = t
            st = [["open"]]
            for _ in range(r.choice([2, 3, 5])):
                c = r.random()
                n = len(P.steps)
                if c < 0.5:
                    P.edit()
                    st += P.steps[n:]
                elif c < 0.65:
                    st.append(["read", r.getrandbits(24), r.choice([10, 30])])
                elif c < 0.72:
                    st.append(["browse", r.getrandbits(24)])
                elif c < 0.8:
                    b = bad_pick(r, P.L)
                    if b:
                        st.append(["bad", list(b[0]), b[1], b[2]])
                elif c < 0.92:
                    st.append(["save"])
                else:
                    st.append(["open"])
                    P = Plan(r, sp[t])
            st += [["save"], ["read", r.getrandbits(24), 25]]
            per.append(st)
        if mode == "threads":
            for t, st in enumerate(per):
                steps += [[t] + s for s in st]
            return schedule(r, k, {"mode": mode, "projects": sp, "steps": steps})
        if r.random() < 0.3:  # one after the other, each closed before the next is opened
            for t, st in enumerate(per):
                steps += [[t] + s for s in st] + [[t, "drop", r.getrandbits(24)]]
            return {"mode": mode, "projects": sp, "steps": steps}
        while any(per):  # a random merge
            t = r.choice([i for i, p in enumerate(per) if p])
            steps.append([t] + per[t].pop(0))
            if r.random() < 0.12:
                o = r.randrange(k)
                if o != t:
                    x = r.getrandbits(24)
                    steps.append([t, "xplug", o, x])
                    if r.random() < 0.5:  # the same plugin once more, then one of the copies is edited
                        steps.append([r.randrange(k), "xplug", o, x])
                    if r.random() < 0.7:
                        steps.append([r.choice([t, t, o]), "xedit", r.getrandbits(24)])
            if r.random() < 0.12:
                steps.append([t, r.choice(["junk", "fail", "drop"]), r.getrandbits(24)])
        for t in range(k):
            steps.append([t, "save"])
        return {"mode": mode, "projects": sp, "steps": steps}

    # ------------------------------------------------------------------
    def play(self):
        w = self.w
        w.begin()
        try:
            self._play()
        except Violation as v:
            if not self.run.get("solo") and self.alone():
                raise Abort("also happens to one project alone: %s" % v)
            raise

    def alone(self):
        """Does some project misbehave the same without the others around (in a process of its own)?"""
        from .. import main

        for t in range(len(self.run["projects"])):
            run = dict(self.run, mode="ops", steps=[s for s in self.run["steps"] if s[0] == t and s[1] not in ("xplug", "xedit")], solo=True)
            if main.fresh([run])[-1]["verdict"] not in ("ok",):
                return True
        return False

    def _play(self):
        w = self.w
        self.tasks = [Task(i, w, s) for i, s in enumerate(self.run["projects"])]
        if self.run["mode"] == "threads":
            self.threads()
        else:
            for st in self.run["steps"]:
                self.step(st)
                w.stats["steps"] += 1
            w.state("ops", [s[:2] for s in self.run["steps"]])

    def one(self, task, st):
        kind, a = st[0], st[1:]
        if kind == "open":
            return task.open()
        if task.P is None:
            return
        if kind == "edit":
            task.edit(*a)
        elif kind == "bad":
            task.bad(*a)
        elif kind == "read":
            task.read(*a)
        elif kind == "browse":
            browse(task.P, random.Random(a[0]))
        elif kind == "save":
            task.save()

    def threads(self):
        w = self.w
        fns = []
        for t in self.tasks:
            mine = [s[1:] for s in self.run["steps"] if s[0] == t.idx]

            def fn(t=t, mine=mine):
                for s in mine:
                    self.one(t, s)
                return len(mine)

            fns.append(fn)
        s = sched.Scheduler(api.PYFLP_DIR, self.run["sched"], self.run.get("hot"))
        ok, res = w.run(lambda: s.run(fns))
        if not ok:
            raise Abort("scheduler: %r" % (res,))
        w.stats["thread_runs"] += 1
        w.stats["context_switches"] += s.switches
        w.stats["lines"] += s.lines
        w.state(s.h.digest())
        w.log("threads", s.switches, s.lines, s.h.hexdigest())
        for good, r in res:
            if not good:
                if isinstance(r, Violation):
                    raise r
                if isinstance(r, sched.Deadlock):
                    raise Violation("deadlock", str(r))
                raise r
            w.stats["steps"] += r
        for t in self.tasks:
            if t.P is not None:
                t.see(list(attrs(t.layout(), random.Random(7), 40)), "at the end")

    def step(self, st):
        w = self.w
        t = self.tasks[st[0] % len(self.tasks)]
        kind = st[1]
        w.log(*st)
        if kind == "xplug":
            self.xplug(t, *st[2:])
        elif kind == "xedit":
            self.xedit(t, *st[2:])
        elif kind == "junk":
            raw = t.saved.encode()
            r = random.Random(st[2])
            w.disk.put("junk.flp", raw[: r.choice([0, 10, 22, len(raw) // 2])])
            w.parse("junk.flp")
        elif kind == "fail":
            if t.P is not None:
                r = random.Random(st[2])
                w.save(t.P, "x.flp", faults=faultspec(hard(r), len(t.m.encode())))
        elif kind == "drop":
            t.P = t.nav = None
            w.collect()
        else:
            ok, e = w.run(lambda: self.one(t, st[1:]))
            if not ok:
                raise e
        rr = random.Random(repr(st))
        for o in self.tasks:
            if o.P is not None:
                o.see(list(attrs(o.layout(), rr, 8)), "after project %d did %s" % (t.idx, st[1]), rr.random() < 0.5)

    def xplug(self, t, o, seed):
        """copy a plugin from one open project into another"""
        s = self.tasks[o % len(self.tasks)]
        if s is t or t.P is None or s.P is None:
            return
        r = random.Random(seed)
        ds = [e for e in t.layout().ents.values() if e.kind in ("instrument", "slot")]
        ss = [e for e in s.layout().ents.values() if e.kind in ("instrument", "slot")]
        if not ds or not ss or t.layout().uni != s.layout().uni:
            return
        rs = random.Random(seed)
        for _ in range(10):
            d, q = r.choice(ds), rs.choice(ss)
            if plug_ok(d, q, t.layout()):
                break
        else:
            return
        try:
            hd, p = api.Nav(t.P).get(d.path), api.Nav(s.P).get(q.path).plugin
            hd.plugin = p
        except Exception as e:
            raise Abort("cannot copy a plugin: %r" % (e,))
        for e in d.evs:
            if e.id in (212, 213):
                e.data = q.first(e.id).data
        k = q.x["plugin"]
        if k != "native":
            n = next(n for n, x in flp.PLUGINS.items() if x == k)
            d.first(201).data = (n + "\0").encode("utf-16-le" if t.layout().uni else "ascii")
        t.edits = {x for x in t.edits if x[0][: len(d.path) + 1] != d.path + ("plugin",)}
        t.edits.add((d.path, "=plugin"))
        t.L = None
        t.nav = api.Nav(t.P)
        self.w.stats["plugins_copied_across"] += 1

    def xedit(self, t, seed):
        """edit something of a plugin; nobody else's plugin changes"""
        if t.P is None:
            return
        r = random.Random(seed)
        L = t.layout()
        new = {p for p, n in t.edits if n == "=plugin"}
        c = [(e, n) for e in L.ents.values() if "plugin" in e.path and (not new or any(e.path[: len(p)] == p for p in new)) for n, a in sorted(catalog.K.get(e.kind, {}).items()) if not a.ro and gen.editable(e, n, L)]
        if not c:
            return
        ent, name = r.choice(c)
        v = gen.gen_value(r, ent, name, L)
        if v is None:
            return
        ok, e = self.w.run(lambda: t.edit(ent.path, name, v, r.random() < 0.5))
        if not ok:
            raise e
        self.w.stats["copied_plugins_edited"] += 1
        for o in self.tasks:
            if o.P is not None:
                o.see([x for x in attrs(o.layout()) if "plugin" in x[0].path], "after project %d edited a plugin" % t.idx)


class C16(Session):
    """One open project, several threads which read, iterate, print and save it."""

    prop = "C16"

    @staticmethod
    def gen(r):
        sp = {"seed": r.getrandbits(32), "size": r.choice([0, 1, 1, 1, 2, 2, 3]), "canon": True}
        P = Plan(r, sp)
        for _ in range(r.choice([0, 0, 1, 3])):
            P.edit()
        k = r.choice([2, 2, 3, 4])
        kinds = r.choice([["read"], ["iter"], ["read", "iter", "browse", "save"], ["save"], ["read", "save"], ["iter", "browse"], ["browse", "save"], ["near"], ["near", "save"], ["near", "iter", "save"], ["prop"], ["prop"], ["prop", "save"]])
        pick = r.getrandbits(24)
        for t in range(k):
            for _ in range(r.choice([1, 2, 3])):
                kind = r.choice(kinds)
                seed = pick if r.random() < 0.4 else r.getrandbits(24)  # often all of them look at the same
                P.steps.append(["th", t, kind, seed, r.random() < 0.5])
        run = schedule(r, k, {"project": sp, "steps": P.steps, "threads": k})
        if "hot" in run and sp["size"] < 2:  # the same again with other places to switch at
            run["hot"][2] = r.choice([2, 4, 6])
        run["near"] = r.getrandbits(24)
        return run

    def play(self):
        try:
            self._play()
        except Violation as v:
            if not self.run.get("solo"):
                from .. import main

                if main.fresh([dict(self.run, solo=True)])[-1]["verdict"] != "ok":
                    raise Abort("also happens with one thread: %s" % v)
            raise

    def _play(self):
        self.jobs = {}
        super().play()

    def on_edit_error(self, ent, name, val, e):
        raise Abort("edit refused: %r" % (e,))

    def do_th(self, t, kind, seed, shared):
        self.jobs.setdefault(t, []).append((kind, seed, shared))

    def job(self, t, todo):
        for kind, seed, shared in todo:
            r = random.Random(seed)
            if kind == "read":
                nav = self.nav if shared else api.Nav(self.P)
                for ent, name in list(attrs(self.L, r, 12)):
                    d = mismatch(nav, self.L, ent, name)
                    if d:
                        raise Violation("misread", "a thread reading while others read: " + d)
            elif kind == "iter":
                self.iterate(r, self.nav if shared else api.Nav(self.P))
            elif kind == "prop":
                self.alike(r, self.nav if shared else api.Nav(self.P))
            elif kind == "near":
                self.near(r, self.nav if shared else api.Nav(self.P))
            elif kind == "browse":
                browse(self.P, r)
            else:
                name = "t%d.flp" % t
                try:
                    pyflp.save(self.P, self.w.disk.arg(name))
                except Exception as e:
                    raise Violation("unsaveable", "a thread saving while others read or save: %r" % (e,))
                buf = self.w.disk.get(name)
                if buf != self.want:
                    d = compare(buf or b"", self.m, self.edits, self.L)
                    raise Violation("torn", "saved while others read or save: %s" % (d[0][1] if d else "bytes differ"))
        return len(todo)

    def alike(self, r, nav):
        """all threads read the same property, of any objects which have it"""
        rr = random.Random(self.run["near"])
        kind = rr.choice(sorted({e.kind for e in self.L.ents.values() if e.kind in catalog.K}))
        ents = [e for e in self.L.ents.values() if e.kind == kind]
        if kind in catalog.CH and rr.random() < 0.5:
            ents = [e for e in self.L.ents.values() if e.kind in catalog.CH]
        name = rr.choice(sorted(catalog.K[kind])) if rr.random() < 0.7 or "name" not in catalog.K[kind] else "name"
        for _ in range(r.choice([4, 8, 16])):
            e = r.choice(ents)
            if name not in catalog.K[e.kind]:
                continue
            d = mismatch(nav, self.L, e, name)
            if d:
                raise Violation("misread", "a thread reading while others read: " + d)

    def near(self, r, nav):
        """all threads look at the same channel, pattern, insert, ..."""
        by = {}
        for e in self.L.ents.values():
            if e.kind in catalog.K:
                by.setdefault(e.path[:2], []).append(e)
        group = random.Random(self.run["near"]).choice(list(by.values()))
        for _ in range(r.choice([4, 10, 20])):
            ent = r.choice(group[:3] if r.random() < 0.4 else group)
            if r.random() < 0.3:
                try:
                    obj = nav.get(ent.path)
                    (repr if r.random() < 0.6 else str)(obj)
                    len(obj)
                except QUIET:
                    pass
                continue
            d = mismatch(nav, self.L, ent, r.choice(sorted(catalog.K[ent.kind])))
            if d:
                raise Violation("misread", "a thread reading while others read: " + d)

    def iterate(self, r, nav):
        cs = colls(self.L)
        key, get, paths = r.choice(cs)
        got = 0
        try:
            for obj in get(nav):
                if got >= len(paths):
                    raise Violation("long", "iterating %s while other threads do gives more than %d objects" % (key, len(paths)))
                ent = self.L.ents[paths[got]]
                for name in sorted(catalog.K.get(ent.kind, ()))[:6]:
                    try:
                        exp = expected(ent, name, self.L)
                    except catalog.Undecodable:
                        continue
                    try:
                        v = api.read(obj, ent.kind, name, strict=exp is not None)
                    except Exception as e:
                        v = ["raises", type(e).__name__]
                    if not api.same(v, exp):
                        raise Violation("other", "item %d of %s while other threads iterate: %s.%s is %s, expected %s" % (got, key, ent.kind, name, short(v, 80), short(exp, 80)))
                got += 1
        except Violation:
            raise
        except Exception as e:
            if not paths:
                return
            raise Violation("raises", "iterating %s while other threads do raises %r at %d of %d" % (key, e, got, len(paths)))
        if got < len(paths):
            raise Violation("short", "iterating %s while other threads do ends after %d of %d" % (key, got, len(paths)))

    def finish(self):
        w = self.w
        if not self.jobs:
            return
        self.layout()
        self.want = self.m.encode()
        todo = [self.jobs[t] for t in sorted(self.jobs)]
        if self.run.get("solo"):
            for t, j in enumerate(todo):
                ok, e = w.run(lambda: self.job(t, j))
                if not ok:
                    raise e
            return
        hot = self.run.get("hot")
        for n in range(hot[2] if hot else 1):
            s = sched.Scheduler(api.PYFLP_DIR, self.run["sched"], hot and [hot[0] + n, hot[1]])
            ok, res = w.run(lambda: s.run([lambda t=t, j=j: self.job(t, j) for t, j in enumerate(todo)]))
            if not ok:
                raise Abort("scheduler: %r" % (res,))
            w.stats["thread_runs"] += 1
            w.stats["context_switches"] += s.switches
            w.stats["lines"] += s.lines
            w.state(s.h.digest())
            w.log("threads", s.switches, s.lines, s.h.hexdigest())
            for good, e in res:
                if not good:
                    if isinstance(e, sched.Deadlock):
                        raise Violation("deadlock", str(e))
                    raise e
        ok, e = w.save(self.P, "end.flp")
        if not ok:
            raise Violation("unsaveable", "after the threads are done: %r" % (e,))
        if w.disk.get("end.flp") != self.want:
            raise Violation("changed", "reading and saving in threads changed the project")


ALL = [C13, C16]
