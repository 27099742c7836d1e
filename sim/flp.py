"""Independent FLP container codec and reference model (no pyflp code in here).

The reference model of a project is nothing but the header plus the list of raw events; an
edit is a byte patch of one event. `layout()` says which events belong to which object of the
public object model, `catalog.py` which bytes of them hold which property.
"""
import struct

VALID_PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
FORMATS = (-1, 0, 16, 24, 32, 48, 49, 50, 64, 80)


class Bad(Exception):
    """The bytes are not a complete, well-formed FLP container."""


class Ev:
    __slots__ = ("id", "data")

    def __init__(self, id, data):
        self.id = id
        self.data = bytes(data)

    def __repr__(self):
        return "Ev(%d, %s)" % (self.id, self.data.hex())


def varint(n):
    out = bytearray()
    while True:
        if n > 127:
            out.append(0x80 | (n & 127))
            n >>= 7
        else:
            out.append(n)
            return bytes(out)


def event(e):
    return bytes([e.id]) + (varint(len(e.data)) if e.id >= 192 else b"") + e.data


class Flp:
    def __init__(self, fmt=0, nch=0, ppq=96, events=()):
        self.fmt, self.nch, self.ppq = fmt, nch, ppq
        self.events = list(events)

    def copy(self):
        return Flp(self.fmt, self.nch, self.ppq, [Ev(e.id, e.data) for e in self.events])

    def encode(self):
        body = bytearray()
        for e in self.events:
            body += event(e)
        return (
            struct.pack("<4sIh2H", b"FLhd", 6, self.fmt, self.nch, self.ppq)
            + b"FLdt"
            + struct.pack("<I", len(body))
            + bytes(body)
        )

    def version(self):
        for e in self.events:
            if e.id == 199:
                s = e.data.decode("ascii").rstrip("\0")
                return tuple(int(x) for x in s.split("."))
        return None

    def unicode(self):
        v = self.version()
        return v is not None and list(v[:2]) >= [11, 5]


def decode(buf):
    """Strict decoding. Returns (Flp, minimal) or raises Bad."""
    buf = bytes(buf)
    if len(buf) < 22:
        raise Bad("short")
    magic, hs, fmt, nch, ppq = struct.unpack("<4sIh2H", buf[:14])
    if magic != b"FLhd" or hs != 6 or buf[14:18] != b"FLdt":
        raise Bad("magic")
    if fmt not in FORMATS:
        raise Bad("format")
    if ppq not in VALID_PPQS:
        raise Bad("ppq")
    (size,) = struct.unpack("<I", buf[18:22])
    if size != len(buf) - 22 or size == 0:
        raise Bad("size")
    evs = []
    minimal = True
    i, n = 22, len(buf)
    while i < n:
        id = buf[i]
        i += 1
        if id < 64:
            ln = 1
        elif id < 128:
            ln = 2
        elif id < 192:
            ln = 4
        else:
            ln = sh = 0
            while True:
                if i >= n:
                    raise Bad("varint")
                b = buf[i]
                i += 1
                ln |= (b & 127) << sh
                sh += 7
                if b < 128:
                    if b == 0 and sh > 7:
                        minimal = False
                    break
        if i + ln > n:
            raise Bad("event size")
        evs.append(Ev(id, buf[i : i + ln]))
        i += ln
    return Flp(fmt, nch, ppq, evs), minimal


# ---------------------------------------------------------------------------- layout
CHANNEL_IDS = {0, 2, 3, 15, 20, 21, 22, 32, 64, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89,
               94, 97, 131, 132, 135, 138, 139, 140, 142, 143, 144, 145, 153, 192, 196, 209, 215,
               218, 219, 221, 228, 229, 234}
PLUGIN_IDS = {128, 155, 201, 203, 212, 213}
PATTERN_IDS = {26, 65, 150, 193, 160, 161, 162, 164, 223, 224}
MARKER_IDS = {33, 34, 148, 205}
ARR_IDS = {99, 241, 233}
TRACK_IDS = {239, 238}
INSERT_IDS = {95, 147, 149, 154, 204, 235, 236}


class Ent:
    """One object of the public object model and the raw events it is a view of."""

    __slots__ = ("kind", "path", "evs", "x")

    def __init__(self, kind, path, evs, **x):
        self.kind, self.path, self.evs, self.x = kind, path, evs, x

    def first(self, *ids):
        for id in ids:
            for e in self.evs:
                if e.id == id:
                    return e
        return None

    def all(self, id):
        return [e for e in self.evs if e.id == id]


PLUGINS = {
    "Fruity Wrapper": "vst", "BooBass": "boobass", "Fruit Kick": "fruitkick",
    "Fruity Balance": "balance", "Fruity Blood Overdrive": "overdrive",
    "Fruity Center": "center", "Fruity Fast Dist": "fastdist",
    "Fruity NoteBook 2": "notebook2", "Fruity Send": "send",
    "Fruity Soft Clipper": "softclipper", "Fruity Stereo Enhancer": "stereoenh",
    "Plucked!": "plucked", "Soundgoodizer": "soundgood",
}
GENERATORS = {"vst", "boobass", "fruitkick", "plucked"}
EFFECTS = set(PLUGINS.values()) - {"boobass", "fruitkick", "plucked"}
ENV_NAMES = ("Panning", "Volume", "Mod X", "Mod Y", "Pitch")
TRACKING_NAMES = ("volume", "keyboard")


def dec_str(data, uni):
    return data.decode("utf-16-le" if uni else "ascii").rstrip("\0")


class Layout:
    def __init__(self):
        self.ents = {}

    def add(self, kind, path, evs, **x):
        e = Ent(kind, path, evs, **x)
        self.ents[path] = e
        return e


def layout(m):
    """Which objects the project has, by path, and which raw events each one is a view of."""
    L = Layout()
    uni = m.unicode()
    L.uni = uni
    ver = m.version() or (0,)
    evs = m.events
    L.add("project", (), evs, m=m)

    # the plugin name in force at each data event
    pname = {}
    cur = None
    for e in evs:
        if e.id == 201:
            cur = dec_str(e.data, uni)
        elif e.id == 213:
            pname[id(e)] = cur

    # ------------------------------------------------------------------ rack
    groups = [e for e in evs if e.id == 231]
    L.add("rack", ("channels",), evs)
    for i, e in enumerate(groups):
        L.add("group", ("groups", i), [e])
    began = False
    rack = []
    for e in evs:
        if e.id == 236:
            began = True
        if e.id in CHANNEL_IDS or (e.id in PLUGIN_IDS and not began):
            rack.append(e)
    chans = []
    if any(e.id == 64 for e in rack):
        el, first = [], True
        for e in rack:
            if e.id == 64:
                if not first:
                    chans.append(el)
                    el = []
                first = False
            el.append(e)
        chans.append(el)
    L.channels = []
    for i, el in enumerate(chans):
        ent = Ent("?", ("channels", i), el)
        typ = ent.first(21).data[0]
        kind = {5: "automation", 3: "layer", 0: "sampler", 4: "instrument", 2: "instrument"}.get(typ, "channel")
        iname = ent.first(201)
        if kind == "instrument" and iname is not None and ent.first(196) is not None:
            if not dec_str(iname.data, uni):
                kind = "sampler"
        ent.kind = kind
        ent.x["group"] = struct.unpack("<i", ent.first(145).data)[0]
        L.ents[ent.path] = ent
        L.channels.append(ent)
        P = ent.path

        def sub(kind, name, *ids):
            return L.add(kind, P + (name,), [e for e in el if e.id in ids])

        sub("keyboard", "keyboard", 142, 135, 215)
        if kind in ("sampler", "instrument"):
            sub("arp", "arp", 215)
            sub("delay", "delay", 209, 138, 215)
            sub("leveladj", "level_adjusts", 229)
            sub("poly", "polyphony", 221)
            sub("time", "time", 97, 89, 215)
            for n, e in zip(TRACKING_NAMES, ent.all(228)):
                L.add("tracking", P + ("tracking", n), [e])
        if kind == "instrument":
            add_plugin(L, ent, pname, GENERATORS, uni)
        if kind == "sampler":
            sub("content", "content", 143, 215)
            sub("filter", "filter", 219)
            fx = sub("fx", "fx", 71, 76, 75, 69, 215, 86, 74, 83, 139, 131, 85, 70)
            L.add("reverb", fx.path + ("reverb",), [e for e in fx.evs if e.id == 139])
            sub("playback", "playback", 143, 20, 215)
            sub("stretching", "stretching", 215)
            for n, e in zip(ENV_NAMES, ent.all(218)):
                L.add("envelope", P + ("envelopes", n), [e])
                L.add("lfo", P + ("lfos", n), [e])
        if kind == "automation":
            sub("autolfo", "lfo", 234)
            a = ent.first(234)
            if a is not None:
                n = struct.unpack("<I", a.data[17:21])[0]
                for j in range(n):
                    L.add("point", P + ("points", j), [a], off=21 + 24 * j, j=j)

    # ------------------------------------------------------------------ patterns
    L.add("patterns", ("patterns",), evs)
    seen = False
    pats = {}
    curp = 0
    for e in evs:
        if e.id == 99:
            seen = True
        if e.id == 65:
            curp = struct.unpack("<H", e.data)[0]
        if e.id in PATTERN_IDS or (e.id in MARKER_IDS and not seen):
            pats.setdefault(curp, []).append(e)
    L.patterns = []
    for i, el in enumerate(pats.values()):
        ent = L.add("pattern", ("patterns", i), el)
        L.patterns.append(ent)
        P = ent.path
        n = ent.first(224)
        if n is not None and len(n.data) % 24 == 0:
            for j in range(len(n.data) // 24):
                L.add("note", P + ("notes", j), [n], off=24 * j)
        c = ent.first(223)
        if c is not None and len(c.data) % 12 == 0:
            for j in range(len(c.data) // 12):
                L.add("ctrl", P + ("controllers", j), [c], off=12 * j)
        add_markers(L, P, el)

    # ------------------------------------------------------------------ arrangements
    L.add("arrangements", ("arrangements",), evs)
    L.add("timesig", ("arrangements", "time_signature"), [e for e in evs if e.id in (17, 18)])
    L.arrangements = []
    seen = False
    el = None
    done = []
    for e in evs:
        if e.id == 99:
            if el is not None:
                done.append(el)
            el = []
        if el is None:
            continue
        if e.id == 100:
            done.append(el)
            el = None
            break
        if e.id in ARR_IDS or e.id in MARKER_IDS or e.id in TRACK_IDS:
            el.append(e)
    for i, el in enumerate(done):
        ent = L.add("arrangement", ("arrangements", i), el)
        L.arrangements.append(ent)
        P = ent.path
        add_markers(L, P, el)
        if not L.channels:
            continue
        maxidx = 499 if ver >= (12, 9, 1) else 198
        pl = ent.first(233)
        isz = None
        if pl is not None:
            isz = 60 if len(pl.data) % 60 == 0 else 32 if len(pl.data) % 32 == 0 else None
        tr, cur, first = [], [], True
        for e in el:
            if e.id == 238:
                if not first:
                    tr.append(cur)
                    cur = []
                first = False
            if e.id in TRACK_IDS:
                cur.append(e)
        tr.append(cur)
        for k, tel in enumerate(tr):
            t = L.add("track", P + ("tracks", k), tel)
            q = 0
            if isz:
                for j in range(len(pl.data) // isz):
                    o = j * isz
                    base, idx = struct.unpack("<HH", pl.data[o + 4 : o + 8])
                    rv = struct.unpack("<H", pl.data[o + 12 : o + 14])[0]
                    if maxidx - rv != k:
                        continue
                    kind = "chitem" if idx <= base else "patitem"
                    L.add(kind, t.path + ("items", q), [pl], off=o, base=base, idx=idx)
                    q += 1
            t.x["n"] = q

    # ------------------------------------------------------------------ mixer
    L.add("mixer", ("mixer",), evs)
    L.inserts = []
    began = False
    cur = []
    ins = []
    for e in evs:
        if e.id in INSERT_IDS or e.id in (29, 225, 98):
            began = True
        if began and (e.id in INSERT_IDS or e.id == 98 or e.id in PLUGIN_IDS):
            cur.append(e)
            if e.id == 147:
                ins.append(cur)
                cur = []
    par = next((e for e in evs if e.id == 225), None)
    params = {}
    if par is not None and len(par.data) % 12 == 0:
        for o in range(0, len(par.data), 12):
            pid = par.data[o + 4]
            cd = struct.unpack("<H", par.data[o + 6 : o + 8])[0]
            I, S = (cd >> 6) & 127, cd & 63
            key = (I, S, pid) if pid in (0, 1) else (I, None, pid)
            params[key] = o
    for i, el in enumerate(ins[:max_inserts(ver)]):
        own = [(pid, o) for (I, S, pid), o in params.items() if I == i and S is None]
        ent = L.add("insert", ("mixer", i), el, par=par, own=own, iid=i - 1)
        L.inserts.append(ent)
        d = dict(own)
        for band, (f, g, r) in (("low", (216, 208, 224)), ("mid", (217, 209, 225)), ("high", (218, 210, 226))):
            x = {"freq": f, "gain": g, "reso": r}
            have = {n: d[p] for n, p in x.items() if p in d}
            if have:
                L.add("eqband", ent.path + ("eq", band), [], par=par, have=have)
        cur, slots = [], []
        for e in el:
            if e.id == 98 or e.id in PLUGIN_IDS:
                cur.append(e)
            if e.id == 98:
                slots.append(cur)
                cur = []
        for j, sel in enumerate(slots):
            s = L.add("slot", ent.path + ("slots", j), sel, par=par,
                      mix=params.get((i, j, 1)), en=params.get((i, j, 0)))
            add_plugin(L, s, pname, EFFECTS, uni)
    return L


MAX_INSERTS = (((1, 6, 5), 5), ((2, 0, 1), 8), ((3, 0, 0), 18), ((3, 3, 0), 20), ((4, 0, 0), 64), ((9, 0, 0), 105), ((12, 9, 0), 127))


def max_inserts(ver):
    for k, v in MAX_INSERTS:
        if tuple(ver) <= k:
            return v
    return 127


def add_markers(L, P, el):
    by = {i: [e for e in el if e.id == i] for i in MARKER_IDS}
    for j in range(max(len(v) for v in by.values())):
        L.add("marker", P + ("timemarkers", j), [v[j] for v in by.values() if j < len(v)])


def add_plugin(L, ent, pname, allowed, uni):
    d = ent.first(213)
    if d is None:
        ent.x["plugin"] = None
        return
    kind = PLUGINS.get(pname[id(d)], "native")
    if kind != "native" and kind not in allowed:
        ent.x["plugin"] = None
        return
    ent.x["plugin"] = kind
    p = L.add("plugin:" + kind, ent.path + ("plugin",), [e for e in ent.evs if e.id in (212, 213)])
    if kind == "vst":
        for n in ("automation", "compatibility", "midi", "processing", "ui"):
            L.add("vst." + n, p.path + (n,), p.evs)


def vst_items(data):
    """[(id, offset of payload, length)] of a VST plugin event."""
    out, o = [], 4
    while o + 12 <= len(data):
        i, n = struct.unpack("<IQ", data[o : o + 12])
        if o + 12 + n > len(data):
            break
        out.append((i, o + 12, n))
        o += 12 + n
    return out
