"""C03 no drift, C04 saves under faults, C06 torn files, C07 reads change nothing, C08 all-or-nothing parse, C09 leaks."""
import gc
import os
import random

import pyflp
from pyflp.exceptions import HeaderCorrupted

from .. import api, core, flp
from ..core import Abort, Known, Violation, short
from ..session import ASSETS, Plan, Session, asset, attrs, benign, colls, compare, die, faultspec, hard, load, mismatch
from .edits import NAMES, disk_step, spec

_assets = None


def usable_assets():
    """files of the repository's own test assets which are complete, minimally encoded projects"""
    global _assets
    if _assets is None:
        _assets = []
        for d, _, fs in sorted(os.walk(ASSETS)):
            for f in sorted(fs):
                n = os.path.relpath(os.path.join(d, f), ASSETS)
                try:
                    m, minimal = flp.decode(asset(n))
                    if minimal and m.version() and len(m.encode()) < 60000 and m.encode() == asset(n):
                        _assets.append(n)
                except Exception:
                    pass
    return _assets


def anyspec(r, p_asset=0.15):
    if r.random() < p_asset:
        a = usable_assets()
        if a:
            return {"asset": r.choice(a)}
    return big(r, {"seed": r.getrandbits(32), "size": r.choice([0, 1, 2, 2, 3]), "canon": False})


CROWD = [950, 1950, 2100, 4200]
BIG = [16383, 16384, 16385, 65535, 65536, 70000, 131072, 300000, 2097151, 2097152]


def big(r, sp, p=0.03):
    """now and then an event which is large"""
    if r.random() < p:
        sp = dict(sp, big=r.choice(BIG))
    elif r.random() < p / 6:
        sp = dict(sp, crowd=r.choice(CROWD))
    elif r.random() < p:
        sp = dict(sp, fit=[r.choice([256, 512, 1024, 4096, 8192, 16384, 65536]), r.choice([-1, 0, 1, 21, 22, 23])])
    return sp


# ---------------------------------------------------------------------------- C03
class C03(Session):
    prop = "C03"

    def __init__(self, w, run):
        super().__init__(w, run)
        self.raw0 = self.w.disk.get("in.flp")

    @staticmethod
    def gen(r):
        sp = anyspec(r)
        if r.random() < 0.0025:
            sp = {"seed": r.getrandbits(32), "size": 0, "canon": False, "big": (1 << 24) + r.choice([-500, 0, 500])}
        st = []
        for _ in range(r.choice([1, 2, 4, 7])):
            c = r.random()
            if c < 0.3:
                st.append(["read", r.getrandbits(20), r.choice([5, 40, 150])])
            elif c < 0.4:
                st.append(["browse", r.getrandbits(20)])
            disk_step(r, st, 0.45)
            if r.random() < 0.15:
                st += [["clobber", st[-1][1] if st[-1][0] == "save" else r.choice(NAMES), r.choice(["gone", "junk", "cut", "same size"])], ["save", r.choice(NAMES)]]
        st.append(["save", r.choice(NAMES)])
        st.append(["crash"])
        st.append(["read", r.getrandbits(20), 60])
        st.append(["save", r.choice(NAMES)])
        return {"project": sp, "steps": st}

    def do_browse(self, seed):
        browse(held(self, seed), random.Random(seed))
        self.w.log("browse", seed)

    def on_open_error(self, name, e):
        raise Violation("unreadable", "a file %s cannot be opened: %r" % ("saved without edits" if name != "in.flp" or self.w.stats["saves"] else "which is in order", e))

    def on_save_error(self, name, before, buf, e):
        if not self.w.fired:
            raise Violation("unsaveable", "an unedited project cannot be saved: %r" % (e,))

    def after_save(self, name, before, buf):
        if buf != self.raw0:
            d = compare(buf or b"", self.m, set())
            raise Violation("drift", "saved without edits: " + (d[0][1] if d else "bytes differ"))


QUIET = (LookupError, AttributeError, TypeError, ValueError)


def _visit(p):
    """every object of the project, by iteration"""
    for ch in p.channels:
        yield ch
        for n in ("arp", "delay", "filter", "fx", "keyboard", "level_adjusts", "polyphony", "time", "content", "playback", "stretching", "lfo", "plugin"):
            try:
                yield getattr(ch, n)
            except QUIET:
                pass
        for n in ("tracking", "envelopes", "lfos"):
            yield from (getattr(ch, n, None) or {}).values()
        if type(ch).__name__ == "Automation":
            yield from ch
    for q in p.patterns:
        yield q
        yield from q.notes
        yield from q.controllers
        yield from q.timemarkers
    for i in p.mixer:
        yield i
        yield i.eq
        for s in i:
            yield s
            yield s.plugin
    for a in p.arrangements:
        yield a
        yield from a.timemarkers
        for t in a.tracks:
            yield t
            yield from t


BROWSE = [
    lambda p, r: [list(c) if hasattr(c, "__iter__") else c.iid for c in p.channels],
    lambda p, r: [list(q.notes) + list(q.controllers) + list(q.timemarkers) for q in p.patterns],
    lambda p, r: [[list(t) for t in a.tracks] for a in p.arrangements],
    lambda p, r: [[s.plugin for s in i] for i in p.mixer],
    lambda p, r: (repr(p), str(p)),
    lambda p, r: [(repr(x), str(x)) for x in r.choice([p.channels, p.patterns, p.mixer, p.arrangements])],
    lambda p, r: (p.channels[r.randint(0, 3)], p.channels["nope"]),
    lambda p, r: (p.patterns[r.randint(0, 2)], p.mixer[0][1], p.mixer["nope"]),
    lambda p, r: (len(p.events), [len(x) for x in (p.channels, p.patterns, p.arrangements, p.mixer)], bytes(next(iter(p.events)))),
    lambda p, r: [[repr(t) for t in a.tracks] for a in p.arrangements],
    lambda p, r: [str(m) + repr(m) for a in p.arrangements for m in a.timemarkers],
    lambda p, r: [str(n) + repr(n) for q in p.patterns for n in (*q.notes, *q.controllers, *q.timemarkers)],
    lambda p, r: [(i.dock, list(i.routes), repr(i.eq), i.eq.low.gain, len(i)) for i in p.mixer],
    lambda p, r: (p.patterns.current, p.arrangements.current, p.arrangements.loop_pos, p.arrangements.time_signature),
    lambda p, r: [list(getattr(p.channels, n)) for n in ("automations", "instruments", "layers", "samplers", "groups")],
    lambda p, r: [list(c) + [len(c), repr(c)] + [c[x.iid] for x in c] for c in p.channels.layers],
    lambda p, r: (p.channels[0:2], p.patterns[0:1], p.mixer[0:3], p.arrangements[0:1]),
    lambda p, r: (p.mixer.max_inserts, p.mixer.max_slots, p.arrangements.max_tracks, p.version, str(p.mixer), str(p.patterns)),
    lambda p, r: [(repr(e), e.size) for e in p.events],
    lambda p, r: (p.events.ids, p.events.indexes, [p.events.count(i) for i in p.events.ids], [p.events.first(i) for i in p.events.ids]),
    lambda p, r: [c == d for c in p.channels for d in p.channels if type(c) is type(d)],
    lambda p, r: [a == b for a in p.events for b in r.sample(list(p.events), min(4, len(p.events)))],
    lambda p, r: [list(p.events.separate(i)) for i in r.sample(sorted(p.events.ids), min(3, len(p.events.ids)))],
    lambda p, r: p.events.subtree(lambda e: r.random() < 0.5),
    lambda p, r: [(i.channel if hasattr(i, "channel") else i.pattern).name for a in p.arrangements for t in a.tracks for i in t],
    lambda p, r: [x.name for x in (*p.channels, *p.patterns, *p.arrangements, *p.mixer)],
    lambda p, r: [repr(s) for i in p.mixer for s in i],
    lambda p, r: [bytes(e) for e in p.events],
]


def _peek(p, r):
    """print some of the objects"""
    for x in list(_visit(p)) if r.random() < 0.3 else _visit(p):
        if r.random() < 0.3:
            try:
                repr(x), str(x)
            except QUIET:
                pass


class Held:
    """the project, as a program sees it that keeps its collections instead of asking for them each time"""

    def __init__(self, nav):
        self._nav = nav

    def __getattr__(self, name):
        return self._nav.get((name,)) if name in ("channels", "patterns", "arrangements", "mixer") else getattr(self._nav.p, name)

    def __repr__(self):
        return repr(self._nav.p)

    def __str__(self):
        return str(self._nav.p)


def held(s, seed):
    return Held(s.nav) if seed % 2 else s.P


def browse(p, r):
    """What an idle user program does: iterate, look up, compare, print"""
    n = r.randrange(len(BROWSE) + 6)
    try:
        (BROWSE[n] if n < len(BROWSE) else _peek)(p, r)
    except QUIET:
        pass


# ---------------------------------------------------------------------------- C04
class C04(Session):
    prop = "C04"

    @staticmethod
    def gen(r):
        sp = big(r, spec(r, r.choice([0, 1, 2, 3])))
        P = Plan(r, sp)
        st = P.steps
        for _ in range(r.choice([1, 2, 3])):
            for _ in range(r.choice([0, 0, 1, 2])):
                P.edit()
            c = r.random()
            pre = r.choice([None, None, 0, 1, 21, 22, 500, 100000, "same", "longer", "shorter"])
            f = benign(r) if c < 0.45 else hard(r) if c < 0.9 else []
            if c > 0.8:
                f = f + benign(r)[:1]
            st.append(["sv", r.choice(["a.flp", "b.flp", "in.flp"]), pre, f, r.choice(["path", "str", "rel"])])
            if r.random() < 0.5:
                st.append(["sv", st[-1][1], "keep", [], "path"])
        return {"project": sp, "steps": st}

    def do_sv(self, name, pre, faults, form):
        w, d = self.w, self.w.disk
        want = self.m.encode()
        if pre != "keep":
            if pre == "same":
                pre = len(want)
            elif pre == "longer":
                pre = len(want) + 999
            elif pre == "shorter":
                pre = len(want) // 2
            if name != "in.flp":
                d.put(name, None if pre is None else bytes(b % 251 for b in range(pre)))
        target = d.path(name)
        cwd = os.getcwd()
        if form == "path":
            import pathlib

            target = pathlib.Path(target)
        elif form == "rel":
            os.chdir(d.root)
            target = d.actual(name)
        try:
            ok, res = w.run(lambda: pyflp.save(self.P, target), faults=faultspec(faults, len(want)))
        finally:
            os.chdir(cwd)
        buf = d.get(name)
        w.stats["saves"] += 1
        w.log("save", name, ok if ok else type(res).__name__, w.oplog)
        w.state(tuple(sorted(w.fired)), [o for o, _, _ in w.oplog], ok)
        failed = [(o, er) for o, rc, er in w.oplog if rc < 0 and er != core.EINTR and o in ("open_w", "write", "close", "fsync", "rename", "trunc")]
        if core.INTR in w.fired:
            failed.append(("interrupted", core.EINTR))
        if ok:
            if buf != want:
                if not failed and not w.fired:
                    raise Violation("wrong", "save returned without any fault; %s" % why(buf, want, self))
                raise Violation("lost", "save returned although %s; %s" % (failed or sorted(core.ACTNAMES.get(k, k) for k in w.fired), why(buf, want, self)))
            return self.mark(name)
        w.stats["failed_saves"] += 1
        if not failed:
            raise Violation("fragile", "save raises %r although the disk did everything it was asked to (%s)" % (res, [core.ACTNAMES.get(k, k) for k in w.fired]))
        self.unmark(name)
        # the fault is over: the very next attempt has to go through
        ok, res = w.save(self.P, name)
        if not ok:
            raise Violation("stuck", "save still raises %r after the fault (%s) is gone" % (res, failed))
        if d.get(name) != want:
            raise Violation("wrong", "second attempt after a failed save: %s" % why(d.get(name), want, self))
        self.mark(name)


def why(buf, want, s):
    if buf is None:
        return "the file does not exist"
    if len(buf) != len(want):
        return "the file has %d bytes of %d" % (len(buf), len(want))
    d = compare(buf, s.m, set())
    return d[0][1] if d else "bytes differ"


# ---------------------------------------------------------------------------- C06
class C06(Session):
    prop = "C06"

    @staticmethod
    def gen(r):
        sp = big(r, spec(r, r.choice([0, 0, 1, 2]))) if r.random() < 0.8 else anyspec(r, 1.0)
        P = Plan(r, sp)
        st = P.steps
        for _ in range(r.choice([1, 2, 4])):
            if "seed" in sp:
                for _ in range(r.choice([0, 1, 2])):
                    P.edit()
            c = r.random()
            if c < 0.45:
                st.append(["save", r.choice(NAMES), die(r)])
            elif c < 0.6:
                st.append(["save", r.choice(NAMES), hard(r)])
            elif c < 0.8:
                st.append(["cut", r.choice([r.random(), r.random(), r.random(), 0, 1, 13, 14, 15, 17, 18, 20, 21, 22, 23, 24, -1, -2, -3, -9])])
            elif c < 0.9:
                st.append(["pad", r.choice([1, 1, 2, 3, 4096]), r.choice([0, 0, 255, 199])])
            else:
                st.append(["eof", r.choice([0.0, r.random(), r.random(), 1, 14, 21, 22, 23])])
        return {"project": sp, "steps": st}

    def refuse(self, name, what, **kw):
        ok, res = self.w.parse(name, **kw)
        self.w.stats["torn_files"] += 1
        self.w.log("torn", what, "opened" if ok else type(res).__name__)
        if ok:
            raise Violation("opened", "%s is opened as a project of %d events" % (what, len(list(res.events))))
        if not isinstance(res, HeaderCorrupted):
            raise Violation("error", "%s is refused with %s: %s, not with HeaderCorrupted" % (what, type(res).__name__, short(str(res), 80)))

    def judge(self, name, what, buf):
        if buf is None:
            return
        try:
            flp.decode(buf)
            return  # complete after all
        except flp.Bad:
            pass
        self.w.state(len(buf))
        self.refuse(name, what)

    def after_torn(self, name, before):
        buf = self.w.disk.get(name)
        if buf != before:
            self.judge(name, "what a crash during save left (%s of %d bytes)" % (None if buf is None else len(buf), len(self.m.encode())), buf)

    def on_save_error(self, name, before, buf, e):
        if not self.w.fired:
            raise Abort("save failed")
        if buf != before:
            self.judge(name, "what a failed save left (%s of %d bytes)" % (None if buf is None else len(buf), len(self.m.encode())), buf)

    def after_save(self, name, before, buf):
        if buf != self.m.encode() and buf is not None:
            self.judge(name, "a saved file of %d bytes" % len(buf), buf)

    def do_cut(self, at):
        raw = self.m.encode()
        n = int(at * len(raw)) if isinstance(at, float) else at
        self.w.disk.put("cut.flp", raw[:n])
        self.w.stats["fault:file_cut"] += 1
        self.judge("cut.flp", "a file cut to %d of %d bytes" % (len(raw[:n]), len(raw)), raw[:n])

    def do_pad(self, n, b):
        raw = self.m.encode() + bytes([b]) * n
        self.w.disk.put("cut.flp", raw)
        self.w.stats["fault:file_padded"] += 1
        self.judge("cut.flp", "a file followed by %d alien bytes" % n, raw)

    def do_eof(self, at):
        raw = self.m.encode()
        n = int(at * len(raw)) if isinstance(at, float) else at
        if n >= len(raw):
            return
        self.w.disk.put("cut.flp", raw)
        f = [[core.READ, 1, core.EOF, 0]] if n <= 0 else [[core.READ, 1, core.SHORT, n], [core.READ, 2, core.EOF, 0]]
        self.refuse("cut.flp", "a file whose reads end after %d of %d bytes" % (n, len(raw)), faults=f)

    def on_open_error(self, name, e):
        raise Abort("cannot open")


# ---------------------------------------------------------------------------- C07
def amount(get, nav):
    """how many objects an iteration delivers, or how it fails"""
    try:
        return len(list(get(nav)))
    except Exception as e:
        return type(e).__name__


class C07(Session):
    prop = "C07"

    @staticmethod
    def gen(r):
        sp = spec(r, r.choice([0, 1, 2, 2, 3]))
        odd = r.random() < 0.3
        if odd:  # not edited, so that it may have all the oddities
            sp["canon"] = False
        P = Plan(r, sp)
        st = P.steps
        for _ in range(0 if odd else r.choice([0, 0, 1, 3])):
            P.edit()
        for _ in range(r.choice([1, 2, 4])):
            c = r.random()
            intr = [[r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]), r.random()] for _ in range(r.choice([1, 2, 5, 12, 20]))] if r.random() < 0.7 else []
            if c < 0.25:
                st.append(["rd", "attr", r.getrandbits(24), intr])
            elif c < 0.35:
                st.append(["rd", "all", 0, intr])
            elif c < 0.6:
                st.append(["rd", r.choice(["browse", "browse", "iter"]), r.getrandbits(24), intr])
            else:
                st.append(["sv", r.choice(["a.flp", "in.flp"]), [] if intr else r.choice([hard(r), hard(r), benign(r)]), intr[:5]])
            if r.random() < 0.2 and not odd:
                P.edit()
        return {"project": sp, "steps": st}

    def twin(self):
        """the same project in the same state, to measure on (never the one that is judged)"""
        self.w.disk.put("twin.flp", self.m.encode())
        ok, p = self.w.parse("twin.flp")
        self.w.disk.put("twin.flp", None)
        if not ok:
            raise Abort("twin: %r" % (p,))
        return p

    def op(self, what, seed, nav):
        L = self.layout()
        if what == "browse":
            return lambda: browse(Held(nav) if seed % 2 else nav.p, random.Random(seed))
        if what == "iter":
            r = random.Random(seed)
            cs = colls(L)
            some = [r.choice(cs) for _ in range(r.choice([1, 1, 2, 4]))]

            def walk():
                for key, get, paths in some:
                    try:
                        list(get(nav))
                    except QUIET:
                        pass

            return walk
        pairs = list(attrs(L)) if what == "all" else list(attrs(L, random.Random(seed), 12))

        def fn():
            for ent, name in pairs:
                try:
                    api.read(nav.get(ent.path), ent.kind, name)
                except (LookupError, AttributeError, TypeError, ValueError):
                    pass

        return fn

    def do_rd(self, what, seed, intr):
        its, nav = [None], self.nav if seed % 3 else api.Nav(self.P)
        if intr:
            op = self.op(what, seed, api.Nav(self.twin()))
            if seed % 3 == 2:
                op()  # handles in use for long
            its = core.points(intr, op)
        op = self.op(what, seed, nav)
        for it in its:
            if intr and it is None:
                return
            ok, res = self.w.run(op, interrupt=it)
            self.w.log("rd", what, seed, it, ok if ok else type(res).__name__)
            self.w.stats["reads"] += 1
        self.unchanged("%s read%s" % (what, " interrupted at line %s" % ", then ".join(str(it[1]) for it in its) if intr else ""))

    def do_sv(self, name, faults, intr):
        its = [None]
        if intr:
            p = self.twin()
            its = core.points(intr, lambda: pyflp.save(p, self.w.disk.arg("twin.flp")))
            self.w.disk.put("twin.flp", None)
        for it in its:
            if intr and it is None:
                return
            ok, res = self.w.save(self.P, name, faults=faultspec(faults, len(self.m.encode())), interrupt=it)
            self.unmark(name)
            self.w.stats["saves"] += 1
            self.w.log("sv", name, it, self.w.oplog, ok if ok else type(res).__name__)
        self.unchanged("save %s" % ("interrupted at line %s" % ", then ".join(str(it[1]) for it in its) if intr else "that returned" if ok else "that failed with %s" % type(res).__name__))

    def unchanged(self, after):
        rr = random.Random(self.steps_done)
        L, nav = self.layout(), self.nav
        for ent, name in attrs(L, rr, 25):
            d = mismatch(nav, L, ent, name)
            if d:
                raise Violation("changed", "after a %s: %s" % (after, d))
        cs = colls(L)
        other = None
        for key, get, paths in rr.sample(cs, min(4, len(cs))):
            n = amount(get, nav)
            if n != len(paths):
                other = other or api.Nav(self.twin())
                want = amount(get, other)
                if n != want:
                    raise Violation("changed", "after a %s: iterating %s gives %s, before %s" % (after, key, n, want))
        ok, res = self.w.save(self.P, "chk.flp")
        if not ok:
            raise Violation("changed", "after a %s the project cannot be saved: %r" % (after, res))
        buf = self.w.disk.get("chk.flp")
        self.w.state(buf)
        if buf != self.m.encode():
            raise Violation("changed", "after a %s: %s" % (after, why(buf, self.m.encode(), self)))
        nav = self.fresh()
        for ent, name in attrs(L, rr, 25):
            d = mismatch(nav, L, ent, name)
            if d:
                raise Violation("changed", "after a %s: %s" % (after, d))


# ---------------------------------------------------------------------------- C08
def read_faults(r):
    """-> (faults, benign?)"""
    from ..core import EACCES, EINTR, EIO, EMFILE, EOF, ERRNO, INTR, OPEN_R, READ, SHORT, TRICKLE

    c = r.random()
    if c < 0.35:
        k = r.randrange(4)
        return [
            [[READ, 1, SHORT, r.choice([1, 14, 22, 23, r.random()])]],
            [[READ, r.choice([1, 2]), ERRNO, EINTR]],
            [[READ, 1, TRICKLE, r.choice([64, 333, 1000])]],
            [[OPEN_R, 1, ERRNO, EINTR], [READ, 1, SHORT, r.random()], [READ, 2, ERRNO, EINTR], [READ, 3, SHORT, 1]],
        ][k], True
    if c < 0.6:
        return [[READ, 1, ERRNO, EIO]] if r.random() < 0.4 else [[READ, 1, SHORT, r.random()], [READ, 2, ERRNO, EIO]], False
    if c < 0.68:
        return r.choice([[[READ, 1, INTR, 0]], [[READ, 1, SHORT, r.random()], [READ, 2, INTR, 0]], [[OPEN_R, 1, INTR, 0]]]), False
    if c < 0.85:
        return [[READ, 1, SHORT, r.choice([1, 14, 21, 22, 23, r.random(), r.random(), 0.999])], [READ, 2, EOF, 0]], False
    return [[OPEN_R, 1, ERRNO, r.choice([EACCES, EMFILE, EIO])]], False


class C08(Session):
    prop = "C08"

    def __init__(self, w, run):
        self.alt = None
        super().__init__(w, run)

    @staticmethod
    def gen(r):
        sp, sp2 = anyspec(r, 0.05), anyspec(r, 0.02)
        st = []
        for _ in range(r.choice([1, 2, 3])):
            which = r.choice(["in.flp", "in.flp", "other.flp"])
            if r.random() < 0.45:
                st.append(["pf", which, [], False, [r.choice(["KeyboardInterrupt", "MemoryError"]), r.random()]])
            else:
                f, ok = read_faults(r)
                st.append(["pf", which, f, ok, None])
            if r.random() < 0.3:
                st.append(["junk", r.choice([0, 5, 30, "cut"])])
        return {"project": sp, "other": sp2, "steps": st}

    def on_open_error(self, name, e):
        raise Violation("fragile", "a file which is in order cannot be opened: %r" % (e,))

    def model(self, name):
        if name == "in.flp":
            return load(self.run["project"])
        return load(self.run["other"])

    def do_junk(self, n):
        """the process meets a file which is no project in between"""
        raw = self.w.disk.get("in.flp")
        raw = raw[: len(raw) * 2 // 3] if n == "cut" else raw[:n] + b"junk"
        if n == "cut":  # complete container, event cut short
            raw = raw[:18] + (len(raw) - 22).to_bytes(4, "little") + raw[22:]
        self.w.disk.put("junk.flp", raw)
        ok, res = self.w.parse("junk.flp")
        self.w.log("junk", n, "ok" if ok else type(res).__name__)

    def do_pf(self, name, faults, harmless, intr):
        w = self.w
        m, raw = self.model(name)
        self.assets = "asset" in self.run["project" if name == "in.flp" else "other"]
        w.disk.put(name, raw)
        it = None
        if intr:
            it = core.point(intr, lambda: pyflp.parse(w.disk.arg(name)))
        ok, res = w.parse(name, faults=faultspec(faults, len(raw)), interrupt=it)
        w.log("parse", name, it, w.oplog, "ok" if ok else type(res).__name__)
        w.stats["parses"] += 1
        w.state(tuple(sorted(map(str, w.fired))), ok, len(w.oplog), it)
        failed = [1 for o, rc, er in w.oplog if rc < 0 and er != core.EINTR] or core.EOF in w.fired or core.INTR in w.fired or "interrupt" in w.fired
        if w.disk.get(name) != raw:
            raise Violation("source", "parsing changed the file")
        if ok:
            lost = [(o, er) for o, rc, er in w.oplog if o in ("open_r", "read") and rc < 0 and er == core.EIO]
            if lost:
                raise Violation("swallowed", "%s failed with errno %d and parse returns as if nothing had happened" % lost[0])
            inj = w.inj
            if inj is not None and inj.fired and inj.nested and intr[0] == "MemoryError":
                try:
                    self.whole(res, m, raw, "x")
                except Violation as v:
                    raise Known("memoryerror-in-construct", "MemoryError at %s: %s" % (inj.where, v.detail))
            self.whole(res, m, raw, "a parse during which %s" % (sorted(core.ACTNAMES.get(k, str(k)) for k in w.fired) or "nothing went wrong"))
        else:
            w.stats["failed_parses"] += 1
            if not failed:
                raise Violation("fragile", "parse raises %r although every read delivered" % (res,))
        if intr is None or not ok:
            ok, res = w.parse(name)
            if not ok:
                raise Violation("stuck", "the same file cannot be parsed after a failed attempt: %r" % (res,))
            self.whole(res, m, raw, "a second attempt")

    def do_memscan(self):
        """(probe of a known finding) MemoryError at one line after the other, until one gets lost"""
        m, raw = load(self.run["project"])
        self.assets = True
        n = core.measure(lambda: pyflp.parse(self.w.disk.arg("in.flp"))).count
        for k in range(1, n + 1):
            ok, res = self.w.parse("in.flp", interrupt=["MemoryError", k])
            inj = self.w.inj
            if ok and inj.fired and inj.nested:
                try:
                    self.whole(res, m, raw, "x")
                except Violation as v:
                    raise Known("memoryerror-in-construct", "MemoryError at %s: %s" % (inj.where, v.detail))

    def whole(self, p, m, raw, how):
        ok, res = self.w.save(p, "chk.flp")
        if not ok:
            raise Violation("partial", "%s gave a project which cannot be saved: %r" % (how, res))
        if self.w.disk.get("chk.flp") != raw:
            d = compare(self.w.disk.get("chk.flp") or b"", m, set())
            raise Violation("partial", "%s gave an incomplete project: %s" % (how, d[0][1] if d else "bytes differ"))
        if self.assets:
            return  # the assets are presets, no whole projects
        L, nav = flp.layout(m), api.Nav(p)
        for ent, name in attrs(L, random.Random(self.steps_done), 25):
            d = mismatch(nav, L, ent, name)
            if d:
                raise Violation("partial", "%s: %s" % (how, d))


# ---------------------------------------------------------------------------- C09
class C09(Session):
    prop = "C09"

    @staticmethod
    def gen(r):
        sp = spec(r, r.choice([0, 1, 2]))
        st = []
        P = Plan(r, sp)
        st = P.steps
        for _ in range(r.choice([2, 3, 5])):
            c = r.random()
            intr = ["KeyboardInterrupt", r.random()] if r.random() < 0.3 else None
            if c < 0.15:
                P.edit()
            if c < 0.4:
                st.append(["pf", r.choice(["in.flp", "in.flp", "nope.flp"]), [] if intr else read_faults(r)[0], intr])
            elif c < 0.55:
                st.append(["pj", r.choice(["empty", "cut", "magic", "event", "version", "text", "dir"]), intr])
            else:
                st.append(["sv", r.choice(["a.flp", "in.flp", "sub/x.flp", "dir"]), [] if intr or r.random() < 0.2 else r.choice([hard(r), hard(r), benign(r)]), intr, r.random() < 0.15])
        return {"project": sp, "steps": st}

    def check(self, what, names, untouched, res=None):
        w = self.w
        if w.open_fds and "interrupt" in w.fired:
            # an exception between two lines may hit before any handler is in place: what the collector closes is fine
            if isinstance(res, BaseException):
                res.__traceback__ = None
            gc.collect()
            w.open_fds = w.count_fds()
        if w.open_fds:
            raise Violation("leak", "%s leaves %d file descriptor(s) open" % (what, w.open_fds))
        if w.strays:
            raise Violation("stray", "%s writes outside the named file: %s" % (what, w.stray))
        got = w.disk.names()
        if not set(got) <= set(names):
            raise Violation("stray", "%s leaves %s behind" % (what, sorted(set(got) - set(names))))
        for n, b in untouched.items():
            if w.disk.get(n) != b:
                raise Violation("stray", "%s changes %s" % (what, n))

    def others(self, but=None):
        w = self.w
        return {n: w.disk.get(n) for n in w.disk.names() if n != but and not os.path.isdir(w.disk.path(n))}

    def do_pf(self, name, faults, intr):
        w = self.w
        it = None
        if intr and name == "in.flp":
            it = core.point(intr, lambda: pyflp.parse(w.disk.arg(name)))
        names, rest = w.disk.names(), self.others()
        ok, res = w.parse(name, faults=faultspec(faults, len(self.m.encode())), interrupt=it, watch=True)
        w.log("pf", name, w.oplog, ok if ok else type(res).__name__)
        w.stats["parses"] += 1
        w.state("pf", [o for o in w.oplog], it)
        self.check("a parse that %s" % ("returns" if ok else "raises %s" % type(res).__name__), names, rest, res)
        if ok:
            self.browse_leak(res)

    def browse_leak(self, p):
        names, rest = self.w.disk.names(), self.others()
        ok, res = self.w.run(lambda: browse(p, random.Random(self.steps_done)), watch=True)
        self.check("reading the project", names, rest)

    def do_pj(self, how, intr):
        raw = self.m.encode()
        d = self.w.disk
        if how == "dir":
            if not os.path.isdir(d.path("dir")):
                os.mkdir(d.path("dir"))
            return self.do_pf("dir", [], None)
        b = {"empty": b"", "cut": raw[: len(raw) // 2], "magic": b"RIFF" + raw[4:],
             "event": raw[:22] + b"\xc7\xff\xff\xff\xff", "version": raw[:22] + b"\xc2\x02a\0", "text": b"hello world, this is no project"}[how]
        if how in ("event", "version"):
            b = b[:18] + (len(b) - 22).to_bytes(4, "little") + b[22:]
        d.put("bad.flp", b)
        self.do_pf("bad.flp", [], None)

    def do_sv(self, name, faults, intr, poison):
        w = self.w
        if name == "dir" and not os.path.isdir(w.disk.path("dir")):
            os.mkdir(w.disk.path("dir"))
        it = None
        if intr:
            it = core.point(intr, lambda: pyflp.save(self.P, w.disk.arg("m.flp")))
            w.disk.put("m.flp", None)
        names, rest = w.disk.names() + [name], self.others(name)
        if poison:
            old = self.P.channel_count
            self.P.channel_count = 70000
        ok, res = w.save(self.P, name, faults=faultspec(faults, len(self.m.encode())), interrupt=it, watch=True)
        if poison:
            self.P.channel_count = old
        w.log("sv", name, w.oplog, ok if ok else type(res).__name__)
        w.stats["saves"] += 1
        self.unmark(name)
        w.state("sv", [o for o in w.oplog], it)
        self.check("a save that %s" % ("returns" if ok else "raises %s" % type(res).__name__), names, rest, res)


ALL = [C03, C04, C06, C07, C08, C09]
