"""C12 structural edits through views, C14 damaged bytes, C15 interleaved iterations."""
import copy
import random
import struct

from pyflp._events import EventEnum, U16Event, U32Event, U8Event, UnknownDataEvent

from .. import api, catalog, flp, gen
from ..core import Abort, Known, Violation, short
from ..session import Plan, Session, attrs, benign, colls, compare, expected, hard, mismatch
from .disk import anyspec, browse, held
from .edits import NAMES, disk_step, spec

# ---------------------------------------------------------------------------- C12
KEEP = {199, 201, 213}


def make_event(id, data):
    cls = U8Event if id < 64 else U16Event if id < 128 else U32Event if id < 192 else UnknownDataEvent
    return cls(EventEnum(id), data)


class View:
    """model of an event view: its tokens in file order, and its parent"""

    def __init__(self, toks, parent):
        self.toks, self.parent = toks, parent


class C12(Session):
    prop = "C12"

    @staticmethod
    def gen(r):
        sp = {"seed": r.getrandbits(32), "size": r.choice([0, 1, 1, 2]), "canon": False}
        if r.random() < 0.01:
            sp["crowd"] = r.choice([950, 1950, 2100, 4200])
        st = []
        n = 1
        for _ in range(r.choice([2, 4, 8, 14])):
            c = r.random()
            v = r.randrange(n) if r.random() < 0.8 else n - 1
            if c < 0.3:
                k = r.choice(["subtree", "subtree", "separate", "divide", "group", "model", "subtrees", "terminated"])
                st.append(["view", v, k, r.getrandbits(24)])
                n += 1
            elif c < 0.5:
                id = r.choice(gen.UNKNOWN)
                size = 1 if id < 64 else 2 if id < 128 else 4 if id < 192 else r.choice([0, 1, 5, 127, 128, 200])
                st.append(["ins", v, r.choice([0.0, r.random(), r.random(), 1.0]), id, bytes(r.randrange(256) for _ in range(size)).hex(), r.random() < 0.2])
            elif c < 0.6:
                st.append(["dup", v, r.random(), r.random(), r.random() < 0.3])
            elif c < 0.85:
                st.append(["pop", v, r.getrandbits(24), r.random() < 0.3])
            elif c < 0.9:
                st.append(["val", v, r.getrandbits(24)])
            elif c < 0.94:
                st.append(["look", r.getrandbits(24)])
            else:
                disk_step(r, st, 0.4)
                if st[-1][0] == "crash" or st[-1][-1] and st[-1][0] == "save" and len(st[-1]) > 2:
                    n = 1
        st.append(["save", r.choice(NAMES)])
        return {"project": sp, "steps": st}

    # tokens are the model's Ev objects
    def after_open(self, name):
        self.views = [View(list(self.m.events), None)]
        self.trees = [self.P.events]

    def pick(self, v):
        v %= len(self.views)
        return v, self.views[v], self.trees[v]

    def live(self, view):
        root = {id(t) for t in self.views[0].toks}
        return all(id(t) in root for t in view.toks)

    def do_view(self, v, kind, seed):
        r = random.Random(seed)
        v, mv, tree = self.pick(v)
        ids = sorted({t.id for t in mv.toks})
        if not ids or not self.live(mv):
            return
        E = EventEnum
        if kind == "subtree":
            sel = set(r.sample(ids, r.randint(1, len(ids))))
            t = tree.subtree(lambda e: int(e.id) in sel)
            toks = [x for x in mv.toks if x.id in sel]
        elif kind == "separate":
            i = r.choice(ids)
            group = [[x] for x in mv.toks if x.id == i]
            k = r.randrange(len(group))
            ts = list(tree.separate(E(i)))
            if len(ts) != len(group):
                raise Violation("view", "separate(%d) gives %d views of %d events" % (i, len(ts), len(group)))
            t, toks = ts[k], group[k]
        elif kind == "divide":
            sep = r.choice(ids)
            sel = set(r.sample(ids, r.randint(1, len(ids)))) | {sep}
            groups, cur, first = [], [], True
            for x in mv.toks:
                if x.id == sep:
                    if not first:
                        groups.append(cur)
                        cur = []
                    first = False
                if x.id in sel:
                    cur.append(x)
            groups.append(cur)
            ts = list(tree.divide(E(sep), *[E(i) for i in sel]))
            if len(ts) != len(groups):
                raise Violation("view", "divide(%d) gives %d views, expected %d" % (sep, len(ts), len(groups)))
            k = r.randrange(len(groups))
            t, toks = ts[k], groups[k]
        elif kind == "terminated":
            if not hasattr(tree, "terminated"):
                return
            end = r.choice(ids)
            sel = set(r.sample(ids, r.randint(1, len(ids)))) | {end}
            groups, cur = [], []
            for x in mv.toks:
                if x.id in sel:
                    cur.append(x)
                if x.id == end:
                    groups.append(cur)
                    cur = []
            if cur:
                groups.append(cur)
            ts = list(tree.terminated(E(end), *[E(i) for i in sel]))
            if len(ts) != len(groups):
                raise Violation("view", "terminated(%d) gives %d views, expected %d" % (end, len(ts), len(groups)))
            k = r.randrange(len(groups))
            t, toks = ts[k], groups[k]
        elif kind == "subtrees":
            sep = r.choice(ids)
            skip = set(r.sample(ids, r.randint(0, len(ids) // 2))) - {sep}
            repeat = r.choice([1, 2, -1, -1])
            seen = []

            def select(e):
                i = int(e.id)
                if i == sep and seen:
                    return False
                seen.append(i)
                return None if i in skip else True

            groups, cur, n, first = [], [], repeat, True
            for x in mv.toks:
                if not n:
                    break
                if x.id == sep and not first:
                    groups.append(cur)
                    cur, n = [x], n - 1
                else:
                    first = False
                    if x.id not in skip:
                        cur.append(x)
            ts = list(tree.subtrees(select, repeat))
            if len(ts) != len(groups):
                raise Violation("view", "subtrees(..., %d) at %d gives %d views, expected %d" % (repeat, sep, len(ts), len(groups)))
            if not groups:
                return
            k = r.randrange(len(groups))
            t, toks = ts[k], groups[k]
        elif kind == "group":
            sel = r.sample(ids, min(len(ids), r.choice([1, 2, 3])))
            cols = [[x for x in mv.toks if x.id == i] for i in sel]
            n = max(map(len, cols))
            ts = list(tree.group(*[E(i) for i in sel]))
            if len(ts) != n:
                raise Violation("view", "group%r gives %d views, expected %d" % (sel, len(ts), n))
            k = r.randrange(n)
            row = [c[k] for c in cols if k < len(c)]
            pos = {id(x): q for q, x in enumerate(mv.toks)}
            t, toks = ts[k], sorted(row, key=lambda x: pos[id(x)])
        else:  # through the object model
            if not self.pristine:
                return
            L = self.layout()
            es = [e for e in L.ents.values() if e.kind in ("channel", "sampler", "instrument", "layer", "automation", "pattern", "arrangement", "track", "insert", "slot")]
            if not es:
                return
            e = r.choice(es)
            try:
                t = self.fresh().get(e.path).events
            except Exception as x:
                raise Abort("cannot reach %s: %r" % (e.path, x))
            chain = []
            q = getattr(t, "parent", None)
            while q is not None:
                chain.append(q)
                q = q.parent
            if not chain or chain[-1] is not self.trees[0]:
                raise Abort("no way from a view to its ancestors")
            own = {id(x) for x in e.evs}
            toks = [x for x in self.views[0].toks if id(x) in own]
            if [(int(x.id)) for x in t] != [x.id for x in toks]:
                raise Abort("model view differs")
            # its ancestors become views of the model as well
            par = None
            for q in reversed(chain):
                par = self.adopt(q, par)
            self.views.append(View(toks, par))
            self.trees.append(t)
            self.w.log("view model", e.path, len(toks))
            self.check()
            return
        self.views.append(View(toks, mv))
        self.trees.append(t)
        self.w.stats["views"] += 1
        self.w.log("view", v, kind, len(toks))
        self.check()

    pristine = True
    touched = False  # a known event was ever inserted or removed

    def adopt(self, tree, par):
        for k, t in enumerate(self.trees):
            if t is tree:
                return self.views[k]
        own = {id(e): tok for e, tok in zip(self.trees[0], self.views[0].toks)}
        if any(id(e) not in own for e in tree):
            raise Abort("ancestor view differs")
        v = View([own[id(e)] for e in tree], par)
        self.views.append(v)
        self.trees.append(tree)
        return v

    def insert_model(self, mv, pos, tok):
        root = self.views[0]
        if pos == len(mv.toks):
            at = next(i for i, t in enumerate(root.toks) if t is mv.toks[-1]) + 1
        else:
            at = next(i for i, t in enumerate(root.toks) if t is mv.toks[pos])
        root.toks.insert(at, tok)
        order = {id(t): i for i, t in enumerate(root.toks)}
        q = mv
        while q is not None:
            if q is not root:
                q.toks.append(tok)
                q.toks.sort(key=lambda t: order.get(id(t), -1))
            q = q.parent
        self.m.events = list(root.toks)
        self.L, self.pristine = None, False

    def stale(self, v):
        """a view which (or an ancestor of which) still shows removed events: order is undefined there"""
        q = v
        while q is not None:
            if not self.live(q):
                return True
            q = q.parent
        return False

    def put(self, v, mv, tree, pos, e, tok, app, back=False):
        self.touched = self.touched or tok.id not in gen.UNKNOWN
        try:
            if app and pos % 2:
                self.trees[v] += e
            elif app:
                tree.append(e)
            elif back and pos < len(mv.toks):
                tree.insert(pos - len(mv.toks), e)  # counted from the end
            else:
                tree.insert(pos, e)
        except Exception as x:
            raise Violation("refused", "inserting an event at %d of a view of %d events raises %r" % (pos, len(mv.toks), x))
        self.insert_model(mv, pos, tok)
        self.w.stats["inserts"] += 1
        self.w.log("ins", v, pos, tok.id)
        self.check()

    def do_ins(self, v, frac, id, data, app):
        v, mv, tree = self.pick(v)
        if not mv.toks or self.stale(mv):
            return
        pos = len(mv.toks) if app else round(frac * len(mv.toks))
        if pos == 0 and mv is self.views[0]:
            pos = 1  # the version comes first
        data = bytes.fromhex(data)
        self.put(v, mv, tree, pos, make_event(id, data), flp.Ev(id, data), app, int(frac * 1e6) % 6 == 1)

    def do_dup(self, v, frac, src, app):
        v, mv, tree = self.pick(v)
        if not mv.toks or self.stale(mv):
            return
        pos = len(mv.toks) if app else round(frac * len(mv.toks))
        k = min(int(src * len(mv.toks)), len(mv.toks) - 1)
        tok = mv.toks[k]
        if tok.id in KEEP or pos == 0 and mv is self.views[0]:
            return
        e = copy.deepcopy(list(tree)[k])
        self.put(v, mv, tree, pos, e, flp.Ev(tok.id, tok.data), app)

    def pop_absent(self, v, mv, tree, r, i, toks, how):
        """something this view does not show"""
        k = len(toks) + r.choice([0, 0, 1, 5])
        there = {t.id for t in mv.toks}
        others = sorted({t.id for t in self.views[0].toks} - there - KEEP)
        if r.random() < 0.5 and others:
            i, k = r.choice(others), r.choice([0, 0, 1])
        try:
            tree.remove(EventEnum(i), k) if how else tree.pop(EventEnum(i), k)
        except LookupError:
            self.w.log("pop absent", v, i, k)
            self.w.stats["absent_removals"] += 1
            return self.check()
        except Exception as x:
            raise Violation("refused", "removing event %d (%d of %d) raises %r" % (i, k, len(toks), x))
        raise Violation("wrong", "removing event %d, number %d of %d in a view, is accepted" % (i, k, sum(t.id == i for t in mv.toks)))

    def do_pop(self, v, seed, how):
        r = random.Random(seed)
        v, mv, tree = self.pick(v)
        ids = sorted({t.id for t in mv.toks} - KEEP)
        if not ids:
            return
        i = r.choice(ids)
        toks = [t for t in mv.toks if t.id == i]
        if r.random() < 0.12:
            return self.pop_absent(v, mv, tree, r, i, toks, how)
        k = r.randrange(len(toks))
        if r.random() < 0.3:
            k = 0
        tok = toks[k]
        self.touched = self.touched or tok.id not in gen.UNKNOWN
        gone = not any(t is tok for t in self.views[0].toks)
        if not gone and self.stale(mv):
            # an ancestor may lack it although the root has it? no: ancestors show a superset
            pass
        where = (k,)
        if r.random() < 0.15:
            where = (k - len(toks),)  # counted from the end
        elif k == 0 and r.random() < 0.5:
            where = ()
        try:
            e = tree.remove(EventEnum(i), *where) if how else tree.pop(EventEnum(i), *where)
            ok = True
        except KeyError:
            ok = False
        except Exception as x:
            raise Violation("refused", "removing event %d (%d of %d) raises %r" % (i, k, len(toks), x))
        self.w.log("pop", v, i, k, ok)
        if gone:
            if ok:
                raise Violation("twice", "an event removed through another view was removed again")
            self.w.stats["double_removals"] += 1
            return self.check()
        if not ok:
            raise Violation("refused", "removing event %d (%d of %d) raises KeyError" % (i, k, len(toks)))
        self.w.stats["removals"] += 1
        if not how and (int(e.id) != tok.id):
            raise Violation("wrong", "pop(%d) returned event %d" % (i, int(e.id)))
        q = mv
        while q is not None:
            q.toks = [t for t in q.toks if t is not tok]
            q = q.parent
        self.m.events = list(self.views[0].toks)
        self.L, self.pristine = None, False
        self.check()

    def do_val(self, v, seed):
        r = random.Random(seed)
        v, mv, tree = self.pick(v)
        if self.stale(mv):
            return
        c = [k for k, t in enumerate(mv.toks) if t.id < 192 and t.id in gen.UNKNOWN]
        if not c:
            return
        k = r.choice(c)
        tok = mv.toks[k]
        n = r.getrandbits(8 * len(tok.data))
        list(tree)[k].value = n
        tok.data = n.to_bytes(len(tok.data), "little")
        self.w.log("val", v, k, n)
        self.check()

    def check(self):
        for k, (mv, tree) in enumerate(zip(self.views, self.trees)):
            if k and self.stale(mv):
                continue
            got = [int(e.id) for e in tree]
            exp = [t.id for t in mv.toks]
            if got != exp:
                raise Violation("order", "view %d shows events %s, expected %s" % (k, short(got), short(exp)))
            self.summary(k, tree, exp)
        for e, t in zip(self.P.events, self.views[0].toks):
            if t.id in gen.UNKNOWN and bytes(e)[-len(t.data):] != t.data and t.data:
                raise Violation("order", "event %d holds %s, expected %s" % (t.id, bytes(e).hex(), t.data.hex()))

    def summary(self, k, tree, exp):
        """what a view says about itself agrees with what it shows"""
        if len(tree) != len(exp):
            raise Violation("order", "view %d of %d events has length %d" % (k, len(exp), len(tree)))
        ids = sorted(int(i) for i in tree.ids)
        if ids != sorted(set(exp)):
            raise Violation("order", "view %d has events of %s, says %s" % (k, short(sorted(set(exp))), short(ids)))
        evs = list(tree)
        rr = random.Random(len(exp))
        for i in {rr.choice(exp) for _ in range(4)} if exp else ():
            n = exp.count(i)
            if tree.count(EventEnum(i)) != n or EventEnum(i) not in tree:
                raise Violation("order", "view %d has %d events %d, says %d" % (k, n, i, tree.count(EventEnum(i))))
            if tree.first(EventEnum(i)) is not evs[exp.index(i)] or len(list(tree.get(EventEnum(i)))) != n:
                raise Violation("order", "view %d gives other events %d than it shows" % (k, i))
        gone = next(i for i in gen.UNKNOWN + list(range(256)) if i not in exp)
        if EventEnum(gone) in tree or tree.count(EventEnum(gone)):
            raise Violation("order", "view %d has no event %d, says it has" % (k, gone))
        try:
            e = tree.first(EventEnum(gone))
        except KeyError:
            return
        raise Violation("order", "view %d has no event %d, first() gives %r" % (k, gone, e))

    def do_look(self, seed):
        if self.touched:  # else nothing but unknown events came and went: the objects are the same
            return
        L, nav = self.layout(), self.fresh()
        for ent, name in attrs(L, random.Random(seed), 20):
            d = mismatch(nav, L, ent, name)
            if d:
                raise Violation("other", "after inserting and removing unrelated events: " + d)

    def on_save_error(self, name, before, buf, e):
        if not self.w.fired:
            raise Violation("unsaveable", "save raises %r" % (e,))

    def after_save(self, name, before, buf):
        if buf != self.m.encode():
            try:
                g, _ = flp.decode(buf or b"")
                gi, mi = [(e.id, e.data) for e in g.events], [(e.id, e.data) for e in self.m.events]
                k = next((i for i, (a, b) in enumerate(zip(gi, mi)) if a != b), min(len(gi), len(mi)))
                d = "%d events, expected %d; first difference at %d: %s, expected %s" % (len(gi), len(mi), k, short(gi[k : k + 1], 80), short(mi[k : k + 1], 80))
            except flp.Bad as x:
                d = "not a well formed project: %s" % x
            raise Violation("saved", d)


# ---------------------------------------------------------------------------- C15
class C15(Session):
    prop = "C15"

    @staticmethod
    def gen(r):
        sp = spec(r, r.choice([1, 2, 3, 3]))
        P = Plan(r, sp)
        st = P.steps
        n = 0
        for _ in range(r.choice([8, 16, 30])):
            c = r.random()
            if c < 0.25 or not n:
                st.append(["it", r.getrandbits(24), r.random() < 0.5, r.random() < 0.4])
                n += 1
            elif c < 0.85:
                st.append(["next", r.randrange(n), r.choice([1, 1, 2, 3])])
            elif c < 0.9:
                st.append([r.choice(["browse", "look", "look"]), r.getrandbits(24)])
            elif c < 0.94:
                k = len(st)
                P.edit()
                if len(st) > k and st[-1][2] in ("iid", "index", "version", "channel", "pattern"):
                    st.pop()
            elif c < 0.97:
                st.append(["drop", r.randrange(n)])
                if r.random() < 0.1:
                    st.append(["gc"])
            else:
                st.append(["save", r.choice(NAMES), r.choice([[], hard(r), benign(r)])])
        for k in range(n):
            st.append(["next", k, 99])
        return {"project": sp, "steps": st}

    def after_open(self, name):
        self.its = []

    def do_edit(self, path, name, val, kept=False):
        if name in ("iid", "index", "version", "channel", "pattern"):
            return
        super().do_edit(path, name, val, kept)

    def do_look(self, seed):
        """something else is looked up in a collection which may be iterated right now"""
        r = random.Random(seed)
        what = r.choice(["channels", "patterns", "arrangements", "mixer"])
        k = r.choice([0, 1, 2, 5, 99, "x", "", slice(0, 2)])
        try:
            c = self.nav.get((what,))
            x = r.choice([lambda: c[k], lambda: c[k], lambda: len(c), lambda: repr(c), lambda: list(c), lambda: next(iter(c)), lambda: k in c])()
            self.w.log("look", what, k, type(x).__name__)
        except Exception as e:
            self.w.log("look", what, k, type(e).__name__)

    def do_it(self, seed, kept, again=False):
        cs = colls(self.layout())
        key, get, paths = cs[seed % len(cs)]
        if again and self.its:  # one which is, or was, iterated already
            old = self.its[seed % len(self.its)][0]
            for c in cs:
                if c[0] == old:
                    key, get, paths = c
        nav = self.nav if kept else self.fresh()
        try:
            it = iter(get(nav))
        except Exception as e:
            if not paths:
                return
            raise Abort("cannot iterate %s: %r" % (key, e))
        self.its.append([key, it, paths, 0])
        self.w.log("iter", key, len(paths))

    def do_browse(self, seed):
        browse(held(self, seed), random.Random(seed))

    def do_drop(self, k):
        if self.its:
            self.its[k % len(self.its)] = ["dropped", iter(()), [], 0]

    def do_next(self, k, n):
        if not self.its:
            return
        rec = self.its[k % len(self.its)]
        key, it, paths, pos = rec
        L = self.layout()
        for _ in range(n):
            try:
                obj = next(it)
            except StopIteration:
                if pos < len(paths):
                    raise Violation("short", "iterating %s while other iterations run ends after %d of %d" % (key, pos, len(paths)))
                rec[3] = pos
                return
            except Exception as e:
                if not paths:
                    self.its[k % len(self.its)] = ["dropped", iter(()), [], 0]
                    return
                raise Violation("raises", "iterating %s while other iterations run raises %r at %d of %d" % (key, e, pos, len(paths)))
            if pos >= len(paths):
                raise Violation("long", "iterating %s while other iterations run gives more than %d objects" % (key, len(paths)))
            ent = L.ents[paths[pos]]
            self.w.stats["delivered"] += 1
            for name in sorted(catalog.K.get(ent.kind, ())):
                try:
                    exp = expected(ent, name, L)
                except catalog.Undecodable:
                    continue
                try:
                    got = api.read(obj, ent.kind, name, strict=exp is not None)
                except Exception as e:
                    got = ["raises", type(e).__name__]
                if not api.same(got, exp):
                    raise Violation("other", "item %d of %s while other iterations run: %s.%s is %s, expected %s" % (pos, key, ent.kind, name, short(got, 80), short(exp, 80)))
            pos += 1
            rec[3] = pos
        self.w.state(tuple((str(a), d) for a, b, c, d in self.its))


# ---------------------------------------------------------------------------- C14
TEXTS = {192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 231, 239, 241}


class C14(Session):
    prop = "C14"

    @staticmethod
    def gen(r):
        sp = anyspec(r, 0.03)
        st = []
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(["payload", "payload", "payload", "bytes", "bits", "sector", "zero", "events", "length", "overrun", "header", "text", "text", "resize", "resize"])
            st.append(["damage", k, r.getrandbits(32), r.choice([1, 1, 1, 2, 4, 16])])
        st.append(["look", r.getrandbits(24)])
        return {"project": sp, "steps": st}

    def after_open(self, name):
        self.raw = self.good[name][2]
        self.kinds = set()
        self.hit = set()

    def do_damage(self, kind, seed, n):
        r = random.Random(seed)
        b = bytearray(self.raw)
        self.kinds.add(kind)
        self.w.stats["fault:damage_" + kind] += 1
        try:
            m, _ = flp.decode(bytes(b))
        except flp.Bad:
            m = None
        if kind == "payload" and m:
            ev = [e for e in m.events if e.data]
            for _ in range(n):
                e = r.choice(ev)
                if e.id == 199 and r.random() < 0.9:
                    continue
                d = bytearray(e.data)
                k = r.randrange(len(d))
                d[k] = r.choice([0, 255, r.randrange(256), d[k] ^ (1 << r.randrange(8))])
                if r.random() < 0.2:
                    k = min(len(d), k + r.choice([2, 4, 8]))
                    d[k - 1 :] = bytes(len(d[k - 1 :])) if r.random() < 0.5 else bytes([255]) * len(d[k - 1 :])
                if e.id == 213 and r.random() < 0.3:  # the sizes of what a plugin stores
                    for _, o, z in r.sample(flp.vst_items(e.data), min(2, len(flp.vst_items(e.data)))):
                        d[o - 8 : o] = r.choice([-12, -1, -z - 24, 1 << 31, 1 << 62, -(1 << 63), z + 1, z + 12, 0]).to_bytes(8, "little", signed=True)
                e.data = bytes(d)
            b = bytearray(m.encode())
        elif kind == "text" and m:
            ev = [e for e in m.events if e.id in TEXTS]
            for e in [r.choice(ev) for _ in range(min(n, 4))] if ev else ():
                d = bytearray(e.data)
                k = r.randrange(len(d) + 1)
                c = r.randrange(8)
                if c < 3:
                    d[k & ~1 : k & ~1] = r.choice([0xD800, 0xDC00, 0xDBFF, 0xDFFF, 0xD83D, 0, 0xFFFE, 0xFEFF, 0xFFFD]).to_bytes(2, "little")
                elif c == 3:
                    del d[len(d) - r.choice([1, 1, 2, 3]) :]
                elif c == 4:
                    d += r.choice([b"\0", b"\0\0", b"\0\0\0", b"a", b"a\0", b"\r\n", bytes([r.randrange(256)])])
                elif c == 5 and d:
                    d[k - 1] = r.choice([0, 0x80, 0xFF, 0xD8, 0xDC, 13, 10])
                elif c == 6:
                    d[k:k] = r.choice([b"\0", b"\r\0\n\0", b"\xff", b"\xe9", b"\x80\x81"])
                else:
                    d = bytearray(r.choice([b"", b"\0", b"\0\0", b"\0\0\0", b"\xff\xfea\0", b"\xef\xbb\xbf", b"a"]))
                if e.id == 199:
                    continue
                e.data = bytes(d)
            b = bytearray(m.encode())
        elif kind == "resize" and m:
            ev = [e for e in m.events if e.id >= 192 and e.id != 199]
            for e in [r.choice(ev) for _ in range(min(n, 3))] if ev else ():
                k = r.randrange(len(e.data) + 1)
                self.hit.add(e.id)
                e.data = r.choice([e.data[:k], e.data[:-1], e.data[:-4], e.data + bytes([r.randrange(256)]), e.data + e.data, e.data[:k] + e.data[k + 4 :], e.data[:k] + bytes(r.choice([1, 2, 4])) + e.data[k:], b""])
            b = bytearray(m.encode())
        elif kind == "bytes":
            for _ in range(n):
                b[r.randrange(22, len(b))] = r.randrange(256)
        elif kind == "bits":
            for _ in range(n):
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif kind in ("sector", "zero"):
            s = r.choice([16, 64, 512])
            k = r.randrange(0, len(b), s)
            j = r.randrange(0, len(b), s)
            b[k : k + s] = bytes(len(b[k : k + s])) if kind == "zero" else b[j : j + s].ljust(len(b[k : k + s]), b"\0")[: len(b[k : k + s])]
        elif kind == "events" and m and len(m.events) > 2:
            k, j = r.randrange(1, len(m.events)), r.randrange(1, len(m.events))
            c = r.random()
            if c < 0.4:
                m.events.pop(k)
            elif c < 0.7:
                m.events.insert(j, m.events[k])
            else:
                m.events[k], m.events[j] = m.events[j], m.events[k]
            b = bytearray(m.encode())
        elif kind == "length" and m:
            i, ls = 22, []
            for e in m.events:
                if e.id >= 192:
                    ls.append(i + 1)
                i += 1 + (len(flp.varint(len(e.data))) if e.id >= 192 else 0) + len(e.data)
            if ls:
                b[r.choice(ls)] = r.choice([0, 1, 127, 128, 255, r.randrange(256)])
        elif kind == "overrun" and m:  # an event which claims to be longer than the file, a file which ends within an event
            ks = [k for k, e in enumerate(m.events) if k and e.id >= 192]
            k = r.choice(ks) if ks and r.random() < 0.7 else None
            if k is None:
                b = b[: r.randrange(23, len(b))]
            else:
                e = r.choice([e for e in m.events if e.id == r.choice(sorted({m.events[j].id for j in ks}))] or [m.events[k]]) if r.random() < 0.5 else m.events[k]
                at = next(j for j, x in enumerate(m.events) if x is e)
                head = b"".join(flp.event(x) for x in m.events[:at])
                rest = b"".join(flp.event(x) for x in m.events[at + 1 :])
                if r.random() < 0.3:
                    rest = b""
                b = b[:22] + head + bytes([e.id]) + flp.varint(len(e.data) + len(rest) + r.choice([1, 1, 2, 300])) + e.data + rest
            b[18:22] = (len(b) - 22).to_bytes(4, "little")
        elif kind == "header":
            b[r.randrange(22)] = r.choice([0, 255, r.randrange(256)])
        self.raw = bytes(b)

    def do_probe480(self):
        """an undamaged FL 12 project with 15 playlist items of 32 bytes: is every item there?"""
        m = self.m.copy()
        item = struct.pack("<IHHIHHHHIff", 96, 20480, 20481, 96, 499, 0, 120, 64, 0x80806440, -1.0, -1.0)
        for e in m.events:
            if e.id == 233:
                e.data = item * 15
                break
        else:
            return
        self.w.disk.put("bad.flp", m.encode())
        ok, p = self.w.parse("bad.flp")
        if not ok:
            raise Violation("misread", "a playlist of 15 items: %r" % (p,))
        n = next(len(e) for e in p.events if int(e.id) == 233)
        self.w.log("probe480", n)
        if n != 15:
            raise Known("playlist-480", "15 playlist items of 32 bytes are read as %d" % n)

    def do_look(self, seed):
        w = self.w
        w.disk.put("bad.flp", self.raw)
        try:
            m, minimal = flp.decode(self.raw)
        except flp.Bad as e:
            m, why = None, str(e)
        ok, res = w.parse("bad.flp")
        w.log("damaged", sorted(self.kinds), "parsed" if ok else type(res).__name__)
        w.stats["damaged_files"] += 1
        w.state(self.raw)
        if not ok:
            w.stats["refused"] += 1
            return
        if m is None:
            raise Violation("accepted", "a damaged container (%s) is opened" % why)
        w.stats["opened_damaged"] += 1
        h = [(int(res.format), "fmt"), (res.channel_count, "nch"), (res.ppq, "ppq")]
        for got, f in h:
            if got != getattr(m, f):
                raise Violation("misread", "header field %s reads %r, stored is %r" % (f, got, getattr(m, f)))
        ids = [int(e.id) for e in res.events]
        if ids != [e.id for e in m.events]:
            raise Violation("misread", "%d events, stored are %d" % (len(ids), len(m.events)))
        if self.kinds <= {"payload", "text", "resize"} and not self.hit & {223, 224, 225, 233, 234} and "asset" not in self.run["project"]:
            self.semantic(res, m, random.Random(seed))
        ok, e = w.save(res, "out.flp")
        if not ok:
            w.stats["unsaveable_damaged"] += 1
            return
        buf = w.disk.get("out.flp")
        if minimal and buf != self.raw:
            d = compare(buf or b"", m, set(), flp.Layout())
            if any(known_playlist(x) for x in m.events):
                raise Known("playlist-480", d[0][1])
            raise Violation("rewritten", "saving what was read from a damaged file changes it: " + (d[0][1] if d else "bytes differ"))

    def semantic(self, p, m, r):
        try:
            L = flp.layout(m)
        except Exception:
            return
        if any(known_playlist(x) for x in m.events):
            return
        nav = api.Nav(p)
        pairs = list(attrs(L)) if r.random() < 0.3 else list(attrs(L, r, 120))
        tainted = set()
        for ent in L.ents.values():
            for name, at in catalog.K.get(ent.kind, {}).items():
                try:
                    at.read(ent, L)
                except Exception:
                    for c in self.safe_cells(at, ent, L):
                        tainted.add(c)
        for ent, name in pairs:
            at = catalog.K[ent.kind][name]
            if isinstance(getattr(at, "codec", None), catalog.Str):
                self.text(nav, ent, name, at, L)
            if any(c in tainted for c in self.safe_cells(at, ent, L)) or any(id(e) in tainted for e in ent.evs if at.ro):
                continue
            try:
                exp = expected(ent, name, L)
            except Exception:
                continue
            try:
                got = api.read(nav.get(ent.path), ent.kind, name)
            except Exception:
                continue  # saying that it cannot be read is fine
            if got is None or not api.same(got, exp):
                if got is None and exp is None:
                    continue
                raise Violation("misread", "%s.%s of %s reads %s, stored is %s" % (ent.kind, name, ent.path, short(got, 80), short(exp, 80)))

    def text(self, nav, ent, name, at, L):
        """text which is none: whoever shows it shows all of it"""
        try:
            at.read(ent, L)
            return
        except Exception:
            pass
        try:
            (ev, off, n), = at.cells(ent, L)
            got = api.read(nav.get(ent.path), ent.kind, name)
        except Exception:
            return
        if not isinstance(got, str):
            return
        raw = got.encode("utf-16-le" if L.uni else "latin-1", "surrogatepass" if L.uni else "replace")
        if raw != ev.data[: len(raw)] or ev.data[len(raw) :].strip(b"\0"):
            raise Violation("misread", "%s.%s of %s reads %s, stored is no text: %s" % (ent.kind, name, ent.path, short(got, 60), short(ev.data.hex(), 60)))

    @staticmethod
    def safe_cells(at, ent, L):
        try:
            return {id(ev) for ev, _, _ in at.cells(ent, L) if ev is not None}
        except Exception:
            return {id(e) for e in ent.evs}


def known_playlist(e):
    """a playlist whose length fits both item sizes"""
    return e.id == 233 and len(e.data) and len(e.data) % 480 == 0


ALL = [C12, C14, C15]
