"""Which stored bytes hold which property: the reference semantics of the object model.

Values travel as plain data ("vals"): bool / int / float / str / None, ["rgba", r, g, b, a] (bytes),
["pair", a, b], ["mt", bars, beats, ticks], ["bytes", hex], ["enum", n], ["path", s], ["ref", iid],
["ver", ...], ["pages", ...].
"""
import math
import struct

from . import flp

F32 = struct.Struct("<f")


# ---------------------------------------------------------------------------- codecs
class Codec:
    size = None
    enum = False

    def dec(self, b):
        raise NotImplementedError

    def enc(self, v, old):
        raise NotImplementedError

    def gen(self, r, old):
        raise NotImplementedError

    def bad(self, r):
        """values which cannot be stored"""
        return [None]


class Int(Codec):
    def __init__(self, fmt, bools=False):
        self.s = struct.Struct("<" + fmt)
        self.size = self.s.size
        bits = 8 * self.size
        self.lo, self.hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if fmt.islower() else (0, (1 << bits) - 1)
        self.bools = bools

    def dec(self, b):
        return self.s.unpack(b)[0]

    def enc(self, v, old):
        return self.s.pack(v)

    def gen(self, r, old):
        c = r.random()
        if c < 0.3:
            return r.choice([self.lo, self.hi, 0, 1, self.hi - 1, self.hi >> 1, (self.hi >> 1) + 1, self.lo + 1, 127, min(self.hi, 128), min(self.hi, 255)])
        if c < 0.6:
            return r.randint(max(self.lo, -300), min(self.hi, 13000))
        return r.randint(self.lo, self.hi)

    def bad(self, r):
        return [self.hi + 1, self.lo - 1, self.hi + r.randint(2, 1 << 40), None, "x", 1.5, [1], ["bytes", "00"]]


class Flag8(Codec):  # one byte boolean
    size = 1

    def dec(self, b):
        return b != b"\0"

    def enc(self, v, old):
        return b"\1" if v else b"\0"

    def gen(self, r, old):
        return r.random() < 0.5

    def bad(self, r):  # anything has a truth value
        return []


class Flag32(Flag8):
    size = 4

    def dec(self, b):
        return b != b"\0\0\0\0"

    def enc(self, v, old):
        return struct.pack("<I", 1 if v else 0)

    def bad(self, r):
        return [None, "x"]


class F(Codec):
    def __init__(self, fmt):
        self.s = struct.Struct("<" + fmt)
        self.size = self.s.size

    def dec(self, b):
        return self.s.unpack(b)[0]

    def enc(self, v, old):
        return self.s.pack(v)

    def gen(self, r, old):
        v = r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-1, 1), r.uniform(0, 1e4), -r.uniform(0, 1e6), 1e-30])
        return self.dec(self.s.pack(v))

    def bad(self, r):
        return [None, "x", [1.0]] + ([1e39, -1e300] if self.size == 4 else [])


class Rgba(Codec):
    size = 4

    def dec(self, b):
        return ["rgba"] + list(b)

    def enc(self, v, old):
        return bytes(v[1:])

    def gen(self, r, old):
        return ["rgba"] + [r.choice([0, 255, r.randint(0, 255)]) for _ in range(4)]

    def bad(self, r):
        return [["frgba", 2.0, 0.0, 0.0, 0.0], ["frgba", 0.0, -0.5, 0.0, 0.0], "x", 7, ["bytes", "616263"], ["pair", 0.5]]


class Rgba32(Rgba):
    def bad(self, r):
        return [["frgba", 0.0, 0.0, 1.5, 0.0], ["frgba", -1.0, 0.0, 0.0, 1.0], 1.5, 5, "x", None, ["pair", 0.5, 0.5], ["bytes", "61626364"]]


class Pair(Codec):
    def __init__(self, fmt):
        self.s = struct.Struct("<" + fmt)
        self.size = self.s.size
        self.i = Int(fmt[-1])

    def dec(self, b):
        return ["pair"] + list(self.s.unpack(b))

    def enc(self, v, old):
        return self.s.pack(*v[1:])

    def gen(self, r, old):
        return ["pair", self.i.gen(r, 0), self.i.gen(r, 0)]

    def bad(self, r):
        return [["pair", self.i.hi + 1, 0], ["pair", 0, -1], ["pair", 0], ["pair", "x", 0], 5]


class Str(Codec):
    """Whole event: text in the project's encoding, NUL terminated."""

    size = None

    def __init__(self, kind="auto"):
        self.kind = kind

    def gen(self, r, old):
        n = r.choice([0, 1, 2, 3, 7, 12, 31, 63, 64, 130, r.randint(0, 20), 0 if r.random() < 0.9 else r.choice([5000, 8191, 8192, 20000])])
        if n and r.random() < 0.08:
            return r.choice([" ", "a b  ", "\t", "x\ny", "a\0b", "  lead", "trail ", "%s", "\x7f", "."])
        return "".join(r.choice("abcXYZ 019_-./\\#") for _ in range(n))

    def gen_uni(self, r):
        n = r.choice([1, 2, 3, 8, 40, 127])
        return "".join(r.choice(["é", "Ж", "漢", "😀", "a", "\u00ff", "\u0100", "\ud7ff", "\ue000", "\uffff", " "]) for _ in range(n))

    def bad(self, r):
        # the last ones are fine in some projects: then they must be stored
        return [None, 5, ["bytes", "6162"], ["path", "a/b"], ["surr"], "abc\0", "\0", "a\0b\0\0", "a\0b", "Ж", "aé"]


class Enum(Codec):
    enum = True

    def __init__(self, fmt, values):
        self.i = Int(fmt)
        self.size = self.i.size
        self.values = values

    def dec(self, b):
        return self.i.dec(b)

    def enc(self, v, old):
        return self.i.enc(v[1] if isinstance(v, list) else v, old)

    def gen(self, r, old):
        return ["enum", r.choice(self.values)]

    def bad(self, r):
        return [None, "x", ["enum", 1 << 40]]


class CEnum(Codec):
    size = 4

    def __init__(self, *names):
        self.names = names

    def dec(self, b):
        n = struct.unpack("<I", b)[0]
        return self.names[n] if n < len(self.names) else n

    def enc(self, v, old):
        return struct.pack("<I", self.names.index(v))

    def gen(self, r, old):
        return r.choice(self.names)

    def bad(self, r):
        return [None, "nope", "", ["pair", 1, 2], 99, -1, 1 << 40, 1.5]


class Musical(Codec):
    size = 4

    def dec(self, b):
        n = struct.unpack("<I", b)[0]
        return ["mt", n // 768, n % 768 // 48, n % 48 * 5]

    def enc(self, v, old):
        return struct.pack("<I", v[1] * 768 + v[2] * 48 + v[3] // 5)

    def gen(self, r, old):
        if r.random() < 0.15:  # more beats than a bar has, more ticks than a beat
            return ["mt", r.choice([0, 1, 50]), r.choice([0, 15, 16, 40]), r.choice([0, 47, 48, 49, 100]) * 5]
        return ["mt", r.choice([0, 1, r.randint(0, 4000)]), r.randint(0, 15), r.randint(0, 47) * 5]

    def bad(self, r):
        return [["mt", -1, 0, 0], ["mt", 1 << 33, 0, 0], 3, ["mt", 0, 0, -5], ["mt", 1, "x", 0], None, "x"]


class Log2(Codec):
    size = 4

    def dec(self, b):
        n = struct.unpack("<i", b)[0]
        try:
            return 2 ** (n / 10000)
        except OverflowError:
            raise Undecodable

    def enc(self, v, old):
        return struct.pack("<i", v[1])

    def gen(self, r, old):
        return ["log2", r.choice([0, 1, -1, 10000, -10000, r.randint(-50000, 50000)])]

    def bad(self, r):
        return [0, -1.0, "x", None]


class LogNormal(Codec):
    size = 4

    def dec(self, b):
        a, k = struct.unpack("<HH", b)
        if not a:
            return 0.0
        if k != 63:
            raise Undecodable
        return max(min(1.0, 2 ** (a / 2**12) / 2**15), 0.0)

    def enc(self, v, old):
        return struct.pack("<HH", v[1], 63 if v[1] else 0)

    def gen(self, r, old):
        return ["lognorm", r.choice([0, 1, 61440, 61439, r.randint(0, 61440)])]

    def bad(self, r):
        return [1.0000001, -0.1, 2, "x", None]


class Undecodable(Exception):
    """These bytes have no meaning as this property (outside every claim)."""


class Height(Codec):
    size = 4

    def dec(self, b):
        f = F32.unpack(b)[0]
        if f != f or f in (math.inf, -math.inf):
            raise Undecodable
        return "%d%%" % round(f * 100)

    def enc(self, v, old):
        return F32.pack(int(v[:-1]) / 100)

    def gen(self, r, old):
        return "%d%%" % r.choice([0, 1, 30, 100, 150, 400, r.randint(0, 1840)])

    def bad(self, r):
        return ["abc", "", None, "x%", 1.0, "99.5%", "5", "%"]


class Bytes(Codec):
    def gen(self, r, old):
        return ["bytes", bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4, 16, 127, 128, 300]))).hex()]

    def bad(self, r):
        return ["x", 5, None]


class Bit(Codec):
    def __init__(self, fmt, mask, inv=False):
        self.s = struct.Struct("<" + fmt)
        self.size = self.s.size
        self.u = struct.Struct("<" + fmt.upper())
        self.mask, self.inv = mask, inv

    def dec(self, b):
        on = self.u.unpack(b)[0] & self.mask == self.mask
        return on != self.inv

    def enc(self, v, old):
        n = self.u.unpack(old)[0]
        n = n | self.mask if bool(v) != self.inv else n & ~self.mask & ((1 << 8 * self.size) - 1)
        return self.u.pack(n)

    def gen(self, r, old):
        return r.random() < 0.5

    def bad(self, r):
        return []


class Key(Codec):
    size = 2
    NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")

    def dec(self, b):
        n = struct.unpack("<H", b)[0]
        return self.NAMES[n % 12] + str(n // 12)

    def enc(self, v, old):
        if isinstance(v, str):
            n = v.rstrip("0123456789")
            v = self.NAMES.index(n) + 12 * int(v[len(n):])
        return struct.pack("<H", v)

    def gen(self, r, old):
        n = r.choice([0, 131, 60, r.randint(0, 131)])
        return n if r.random() < 0.5 else self.NAMES[n % 12] + str(n // 12)

    def bad(self, r):
        return [132, -1, 1000, "H3", "C", "", "C11", None, "c5", "C-1", "5", "Cb3", "B#2", 60.5, "C#11", " C5"]


# ---------------------------------------------------------------------------- attributes
class Attr:
    """loc(ent) -> (event, offset, size) or None (property absent in this object)."""

    def __init__(self, name, loc, codec, default=None, ro=False):
        self.name, self.loc, self.codec, self.default, self.ro = name, loc, codec, default, ro

    def read(self, ent, L):
        c = self.loc(ent)
        if c is None:
            return self.default
        ev, off, size = c
        if isinstance(self.codec, Str):
            return flp.dec_str(ev.data[off : off + size], L.uni)
        return self.codec.dec(ev.data[off : off + size])

    def write(self, ent, L, v):
        ev, off, size = self.loc(ent)
        old = ev.data[off : off + size]
        if isinstance(self.codec, Str):
            new = (v + "\0").encode("utf-16-le" if L.uni else "ascii")
        else:
            new = self.codec.enc(v, old)
        ev.data = ev.data[:off] + new + ev.data[off + size :]

    def cells(self, ent, L):
        c = self.loc(ent)
        return [] if c is None else [c]

    def gen(self, r, ent, L):
        if isinstance(self.codec, Str) and L.uni and r.random() < 0.35:
            return self.codec.gen_uni(r)
        return self.codec.gen(r, None)


def EV(*ids):
    def loc(ent):
        e = ent.first(*ids)
        return None if e is None else (e, 0, len(e.data))

    return loc


def ST(id, off, size):
    def loc(ent):
        e = ent.first(id)
        return None if e is None or len(e.data) < off + size else (e, off, size)

    return loc


def IT(off, size):
    def loc(ent):
        return (ent.evs[0], ent.x["off"] + off, size)

    return loc


u8, i8, u16, i16, u32, i32 = Int("B"), Int("b"), Int("H"), Int("h"), Int("I"), Int("i")
f32, f64 = F("f"), F("d")
flag, flag4 = Flag8(), Flag32()
rgba, text = Rgba(), Str()

K = {}


def E_(kind, name, ids, codec, **kw):
    K.setdefault(kind, {})[name] = Attr(name, EV(*ids) if isinstance(ids, tuple) else EV(ids), codec, **kw)


def S_(kind, name, id, off, codec, **kw):
    K.setdefault(kind, {})[name] = Attr(name, ST(id, off, codec.size), codec, **kw)


def I_(kind, name, off, codec, **kw):
    K.setdefault(kind, {})[name] = Attr(name, IT(off, codec.size), codec, **kw)


# project
for n, id, c in (("artists", 207, text), ("comments", (195, 198), text), ("genre", 206, text),
                 ("licensed", 28, flag), ("looped", 9, flag), ("main_pitch", 80, i16), ("main_volume", 12, u8),
                 ("pan_law", 23, u8), ("show_info", 10, flag), ("title", 194, text), ("url", 197, text)):
    E_("project", n, id, c)


class KW(Attr):
    """A field of the file header."""

    def __init__(self, name, field, gen, bad):
        self.name, self.field, self._gen, self._bad, self.ro = name, field, gen, bad, False
        self.codec = self
        self.enum = name == "format"

    def bad(self, r):
        return self._bad

    def loc(self, ent):
        return (None, self.field, 0)

    def read(self, ent, L):
        return getattr(ent.x["m"], self.field)

    def write(self, ent, L, v):
        setattr(ent.x["m"], self.field, v[1] if isinstance(v, list) else v)

    def cells(self, ent, L):
        return [(None, self.field, 0)]

    def gen(self, r, ent, L):
        return self._gen(r)


K["project"]["ppq"] = KW("ppq", "ppq", lambda r: r.choice(flp.VALID_PPQS), [0, 95, -1, 961, None, 96.5, "96", 97])
K["project"]["channel_count"] = KW("channel_count", "nch", lambda r: r.choice([0, 1, 65535, r.randint(0, 999)]), [-1, 65536, None, 1.5, "x", 1 << 40])
K["project"]["format"] = KW("format", "fmt", lambda r: ["enum", r.choice(flp.FORMATS)], ["x", 1 << 20, 99, 1, None, 5.5, -2])


TRICKY = [k for k in range(10000, 522001, 7) if int(k / 1000 * 1000) != k]  # computed carelessly, one thousandth less


class Tempo(Attr):
    def __init__(self):
        self.name, self.ro, self.codec = "tempo", False, self

    enum = False

    def bad(self, r):
        return [9.9, 0, -1, 1000.0, 99999, "x", None, 9.9996, 1e300, ["pair", 120]]

    def loc(self, ent):
        e = ent.first(156) or ent.first(66)
        return None if e is None else (e, 0, len(e.data))

    def cells(self, ent, L):
        return [(e, 0, len(e.data)) for e in (ent.first(156), ent.first(66), ent.first(93)) if e is not None]

    def read(self, ent, L):
        e = ent.first(156)
        if e is not None:
            return struct.unpack("<I", e.data)[0] / 1000
        c, f = ent.first(66), ent.first(93)
        if c is None:
            return None
        t = struct.unpack("<H", c.data)[0]
        return t + struct.unpack("<H", f.data)[0] / 1000 if f is not None else t

    def write(self, ent, L, v):
        k = v[1] if isinstance(v, list) else v * 1000
        for id, n, s in ((156, k, "<I"), (93, k % 1000, "<H"), (66, k // 1000, "<H")):
            e = ent.first(id)
            if e is not None:
                e.data = struct.pack(s, n)

    def gen(self, r, ent, L):
        # ["milli", k] is assigned as the float k / 1000
        fine = ent.first(156) is not None or ent.first(93) is not None
        if not fine or ent.x["m"].version() < (3, 4, 0) or r.random() < 0.3:
            return r.randint(10, 522)
        if r.random() < 0.2:  # finer than what is stored
            return ["milli", r.choice([r.randint(11, 522) * 1000, r.randint(11000, 522000)]), "less"]
        return ["milli", r.choice([10000, 522000, 123456, 130001, r.choice(TRICKY), r.choice(TRICKY), r.randint(10000, 522000), r.randint(10000, 522000)])]


K["project"]["tempo"] = Tempo()


class Licensee(Attr):
    enum = False

    def __init__(self):
        self.name, self.ro, self.codec = "licensee", False, self

    def bad(self, r):
        return [None, 5, "John Doe", "é", "a-b", "漢", "\x80", "0" * 100, " ", "a\0", ["bytes", "61"], "ª"]

    loc = staticmethod(EV(200))

    def read(self, ent, L):
        e = ent.first(200)
        if e is None:
            return None
        out = ""
        for i, ch in enumerate(flp.dec_str(e.data, L.uni)):
            for n in (ord(ch) - 26 + i, ord(ch) + 49 + i):
                if chr(n).isalnum():
                    out += chr(n)
                    break
        return out

    def write(self, ent, L, v):
        out = ""
        for i, ch in enumerate(v):
            n = ord(ch) + 26 - i
            out += chr(n if 0 < n <= 127 else ord(ch) - 49 - i)
        ent.first(200).data = (out + "\0").encode("utf-16-le" if L.uni else "ascii")

    def gen(self, r, ent, L):
        # only names which survive the scrambling are in the claim
        for _ in range(20):
            v = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(r.choice([0, 1, 5, 12, 30])))
            out, ok = "", True
            for i, ch in enumerate(v):
                n = ord(ch) + 26 - i
                n = n if 0 < n <= 127 else ord(ch) - 49 - i
                if not 0 < n <= 127:
                    ok = False
                    break
                c1 = n - 26 + i
                d = c1 if c1 >= 0 and chr(c1).isalnum() else n + 49 + i
                if chr(d) != ch or (i == len(v) - 1 and n == 0):
                    ok = False
                    break
            if ok:
                return v
        return "abc"


K["project"]["licensee"] = Licensee()


class PathAttr(Attr):
    enum = False

    def __init__(self, name, id):
        self.name, self.ro, self.codec, self.loc = name, False, self, EV(id)

    def bad(self, r):
        return [None, 5, ["bytes", "61"], ["surr"], ["path", "a\0"], ["path", "Ж.wav"], 1.5, ["pair", "a"]]

    def read(self, ent, L):
        c = self.loc(ent)
        return None if c is None else ["path", flp.dec_str(c[0].data, L.uni)]

    def write(self, ent, L, v):
        s = v[1] if isinstance(v, list) else v
        s = "" if s == "." else s
        self.loc(ent)[0].data = (s + "\0").encode("utf-16-le" if L.uni else "ascii")

    def gen(self, r, ent, L):
        pool = [".", "a", "a/b.wav", "/x/y z/k.wav", "..", "C:\\s\\k.wav", "dir/a.b.c", "%FL%/x" + str(r.randint(0, 999))]
        if L.uni:
            pool += ["ж/漢.wav"]
        return ["path", r.choice(pool)]


K["project"]["data_path"] = PathAttr("data_path", 202)


class Version(Attr):
    enum = False

    def __init__(self):
        self.name, self.ro, self.codec = "version", False, self

    def bad(self, r):
        return ["1.2", "1.2.3.4.5", "a.b.c", ["vtup", 1, 2], 5, ["vtup", 20, "a", 1], ["vtup", 20, 1.5, 3], ["vtup", 20, None, 1], ["ver", 20, "x", 1], "20..1", None]

    loc = staticmethod(EV(199))

    def cells(self, ent, L):
        four = ent.first(199).data.count(b".") == 3  # only then the build number is written as well
        return [(e, 0, len(e.data)) for e in (ent.first(199), ent.first(159) if four else None) if e is not None]

    def read(self, ent, L):
        v = list(ent.x["m"].version())
        return ["ver"] + v + [None] * (4 - len(v))

    def write(self, ent, L, v):
        parts = [p for p in v[1:] if p is not None]
        if isinstance(v, list) and v[0] == "vstr":
            parts = [int(x) for x in v[1].split(".")]
        ent.first(199).data = ".".join(str(p) for p in parts).encode() + b"\0"
        b = ent.first(159)
        if len(parts) == 4 and b is not None:
            b.data = struct.pack("<I", parts[3])

    def gen(self, r, ent, L):
        v = ent.x["m"].version()
        maj, mnr = v[0], v[1]
        parts = [maj, mnr, v[2] if (maj, mnr) == (12, 9) or maj < 5 else r.randint(0, 9), r.choice([None, 0, r.randint(1, 9999), r.randint(1, 9999)])]
        if maj < 5:
            parts[3] = v[3] if len(v) > 3 else None
        if maj >= 20:
            parts[0], parts[1] = r.choice([20, 21, 24]), r.randint(0, 9)
        form = r.choice(["ver", "vtup", "vstr"])
        if form == "vstr":
            return ["vstr", ".".join(str(p) for p in parts if p is not None)]
        return [form] + (parts if form == "ver" else [p for p in parts if p is not None])


K["project"]["version"] = Version()


class RO(Attr):
    """Derived, read-only property."""

    def __init__(self, name, fn):
        self.name, self.fn, self.ro, self.codec = name, fn, True, None

    def loc(self, ent):
        return None

    def read(self, ent, L):
        return self.fn(ent, L)

    def cells(self, ent, L):
        return []


def RO_(kind, name, fn):
    K.setdefault(kind, {})[name] = RO(name, fn)


def _stamp(which):
    def fn(ent, L):
        e = ent.first(237)
        return None if e is None else ["days", struct.unpack("<dd", e.data[:16])[which]]

    return fn


RO_("project", "created_on", _stamp(0))
RO_("project", "time_spent", _stamp(1))

# rack
E_("rack", "fit_to_steps", 13, u8)
E_("rack", "height", 133, u32)
E_("rack", "swing", 11, u8)
E_("group", "name", 231, text)


# channels
class Lev(Attr):
    """pan / volume: the levels struct wins over the legacy events."""

    enum = False

    def __init__(self, name, off, codec, ids):
        self.name, self.ro, self.off, self.c32, self.ids = name, False, off, codec, ids
        self.codec = self

    def bad(self, r):
        return [1 << 33, -(1 << 33), "x", 1.5]

    def _c(self, c):
        return self.c32 if c[2] == 4 else u16 if c[2] == 2 else u8

    def loc(self, ent):
        e = ent.first(219)
        if e is not None:
            return (e, self.off, 4) if len(e.data) >= self.off + 4 else None
        e = ent.first(*self.ids)
        return None if e is None else (e, 0, len(e.data))

    def cells(self, ent, L):
        if ent.first(219) is not None:
            c = self.loc(ent)
            return [c] if c else []
        return [(e, 0, len(e.data)) for e in (ent.first(i) for i in self.ids) if e is not None]

    def read(self, ent, L):
        c = self.loc(ent)
        return None if c is None else self._c(c).dec(c[0].data[c[1] : c[1] + c[2]])

    def write(self, ent, L, v):
        for ev, off, size in self.cells(ent, L):
            ev.data = ev.data[:off] + self._c((ev, off, size)).enc(v, None) + ev.data[off + size :]

    def gen(self, r, ent, L):
        c = min(self.cells(ent, L), key=lambda c: c[2])
        return self._c(c).gen(r, None)


CH = ("channel", "automation", "layer", "sampler", "instrument")
for k in CH:
    E_(k, "color", 128, rgba)
    E_(k, "internal_name", 201, text)
    E_(k, "enabled", 0, flag)
    E_(k, "icon", 155, u32)
    E_(k, "iid", 64, u16)
    E_(k, "locked", 32, flag)
    E_(k, "name", (203, 192), text)
    K[k]["pan"] = Lev("pan", 0, i32, (73, 3))
    K[k]["volume"] = Lev("volume", 4, u32, (72, 2))

    def _z(ent, L):
        e = ent.first(15)
        return e is not None and e.data != b"\0"

    RO_(k, "zipped", _z)

    def _dn(ent, L):
        n, i = ent.first(203, 192), ent.first(201)
        n = flp.dec_str(n.data, L.uni) if n is not None else None
        return n or (flp.dec_str(i.data, L.uni) if i is not None else None)

    RO_(k, "display_name", _dn)

    def _grp(ent, L):
        return ["group", flp.dec_str(L.ents[("groups", ent.x["group"])].evs[0].data, L.uni)]

    RO_(k, "group", _grp)

for k in ("sampler", "instrument"):
    E_(k, "cut_group", 132, Pair("HH"))
    E_(k, "insert", 22, i8)
    S_(k, "pitch_shift", 219, 8, i32)
E_("sampler", "au_sample_rate", 153, u32)
K["sampler"]["sample_path"] = PathAttr("sample_path", 196)
E_("layer", "crossfade", 144, Bit("I", 2))
E_("layer", "random", 144, Bit("I", 1))


def _children(ent, L):
    ids = [struct.unpack("<H", e.data)[0] for e in ent.all(94)]
    if not {*ids} <= {struct.unpack("<H", c.first(64).data)[0] for c in L.channels}:
        raise Undecodable("a child which does not exist")
    return ids


RO_("layer", "__children__", _children)

E_("keyboard", "fine_tune", 142, i32)
E_("keyboard", "root_note", 135, u32, default=60)
S_("keyboard", "main_pitch", 215, 11, flag)
S_("keyboard", "add_root", 215, 63, flag)
S_("keyboard", "key_region", 215, 68, Pair("II"))
S_("arp", "chord", 215, 48, u32)
S_("arp", "direction", 215, 40, Enum("I", range(6)))
S_("arp", "gate", 215, 56, f32)
S_("arp", "range", 215, 44, u32)
S_("arp", "repeat", 215, 92, u32)
S_("arp", "slide", 215, 60, flag)
S_("arp", "time", 215, 52, f32)
S_("delay", "echoes", 209, 12, u32)
S_("delay", "fat_mode", 215, 10, Bit("B", 4))
S_("delay", "feedback", 209, 0, u32)
S_("delay", "mod_x", 138, 0, u16)
S_("delay", "mod_y", 138, 2, u16)
S_("delay", "pan", 209, 4, i32)
S_("delay", "ping_pong", 215, 10, Bit("B", 2))
S_("delay", "pitch_shift", 209, 8, i32)
S_("delay", "time", 209, 16, u32)
S_("filter", "mod_x", 219, 12, u32)
S_("filter", "mod_y", 219, 16, u32)
S_("filter", "type", 219, 20, Enum("I", range(8)))
S_("leveladj", "mod_x", 229, 12, i32)
S_("leveladj", "mod_y", 229, 16, i32)
S_("leveladj", "pan", 229, 0, i32)
S_("leveladj", "volume", 229, 4, u32)
E_("time", "swing", 97, u16)
S_("time", "gate", 215, 64, u16)
E_("time", "shift", 89, u16)
S_("time", "full_porta", 215, 62, flag)


class ReverbAttr(Attr):
    def __init__(self, name):
        self.name, self.ro, self.codec = name, False, self
        self.enum = name == "type"

    loc = staticmethod(EV(139))

    def bad(self, r):
        return [1 << 33, 65536, 70000, -1, "x", None] if self.name == "mix" else ["x", None]

    def _v(self, ent):
        return struct.unpack("<I", ent.first(139).data)[0]

    def read(self, ent, L):
        if ent.first(139) is None:
            return None
        v = self._v(ent)
        t = 65536 if v >= 65536 else 0
        return t if self.name == "type" else v - t

    def write(self, ent, L, val):
        v = self._v(ent)
        t = 65536 if v >= 65536 else 0
        new = val[1] + (v - t) if self.name == "type" else t + val
        ent.first(139).data = struct.pack("<I", new)

    def gen(self, r, ent, L):
        return ["enum", r.choice([0, 65536])] if self.name == "type" else r.choice([0, 1, 255, 65535, r.randint(0, 65535)])


K["reverb"] = {"type": ReverbAttr("type"), "mix": ReverbAttr("mix")}

E_("fx", "boost", 74, u16)
E_("fx", "clip", 70, Bit("H", 4))
S_("fx", "crossfade", 215, 84, u32)
E_("fx", "cutoff", 71, u16)
E_("fx", "fade_in", 76, u16)
E_("fx", "fade_out", 75, u16)
E_("fx", "fade_stereo", 70, Bit("H", 1))
S_("fx", "fix_trim", 215, 157, flag)
E_("fx", "freq_tilt", 69, u16)
S_("fx", "inverted", 215, 81, flag)
S_("fx", "length", 215, 141, LogNormal())
S_("fx", "normalize", 215, 80, flag)
E_("fx", "pogo", 86, u16)
S_("fx", "remove_dc", 215, 9, flag)
E_("fx", "resonance", 83, u16)
E_("fx", "reverse", 70, Bit("H", 2))
E_("fx", "ringmod", 131, Pair("HH"))
S_("fx", "start", 215, 133, LogNormal())
E_("fx", "stereo_delay", 85, u16)
E_("fx", "swap_stereo", 70, Bit("H", 256))
S_("fx", "trim", 215, 88, u32)

for n, o in (("enabled", 4), ("predelay", 8), ("attack", 12), ("hold", 16), ("decay", 20), ("sustain", 24),
             ("release", 28), ("amount", 32), ("attack_tension", 56), ("decay_tension", 60), ("release_tension", 64)):
    S_("envelope", n, 218, o, i32)
S_("envelope", "synced", 218, 0, Bit("i", 1))
S_("lfo", "amount", 218, 44, i32)
S_("lfo", "attack", 218, 40, u32)
S_("lfo", "predelay", 218, 36, u32)
S_("lfo", "speed", 218, 48, u32)
S_("lfo", "synced", 218, 0, Bit("i", 2))
S_("lfo", "retrig", 218, 0, Bit("i", 32))
S_("lfo", "shape", 218, 52, Enum("i", range(3)))
S_("poly", "mono", 221, 8, Bit("B", 1))
S_("poly", "porta", 221, 8, Bit("B", 2))
S_("poly", "max", 221, 0, u32)
S_("poly", "slide", 221, 4, u32)
S_("tracking", "middle_value", 228, 0, u32)
S_("tracking", "mod_x", 228, 8, i32)
S_("tracking", "mod_y", 228, 12, i32)
S_("tracking", "pan", 228, 4, i32)
E_("playback", "ping_pong_loop", 20, flag)
S_("playback", "start_offset", 215, 148, u32)
E_("playback", "use_loop_points", 143, Bit("I", 8))
S_("stretching", "mode", 215, 108, Enum("i", range(-1, 10)))
S_("stretching", "multiplier", 215, 104, Log2())
S_("stretching", "pitch", 215, 100, i32)
S_("stretching", "time", 215, 96, Musical())
S_("content", "declick_mode", 215, 83, Enum("B", range(6)))
E_("content", "keep_on_disk", 143, Bit("I", 256))
E_("content", "load_regions", 143, Bit("I", 2))
E_("content", "load_slices", 143, Bit("I", 4))
E_("content", "resample", 143, Bit("I", 1))
S_("autolfo", "amount", 234, 4, i32)
I_("point", "tension", 16, f32)
I_("point", "value", 8, f64)


def _ppos(ent, L):
    d = ent.evs[0].data
    pos = 0.0
    for i in range(ent.x["j"] + 1):
        pos += struct.unpack("<d", d[21 + 24 * i : 29 + 24 * i])[0]
    return pos


RO_("point", "position", _ppos)

# patterns
E_("patterns", "play_cut_notes", 30, flag)
E_("pattern", "color", 150, rgba)
E_("pattern", "length", 164, u32)
E_("pattern", "looped", 26, flag, default=False)
E_("pattern", "name", 193, text)


class PatIID(Attr):
    enum = False

    def __init__(self):
        self.name, self.ro, self.codec = "iid", False, self

    loc = staticmethod(EV(65))

    def bad(self, r):
        return [65536, -1, "x", 1.5]

    def cells(self, ent, L):
        return [(e, 0, 2) for e in ent.all(65)]

    def read(self, ent, L):
        return struct.unpack("<H", ent.first(65).data)[0]

    def write(self, ent, L, v):
        for e in ent.all(65):
            e.data = struct.pack("<H", v)

    def gen(self, r, ent, L):
        return r.randint(1, 9000)


K["pattern"]["iid"] = PatIID()
for n, o, c in (("fine_pitch", 16, u8), ("group", 14, u16), ("key", 12, Key()), ("length", 8, u32), ("midi_channel", 19, u8),
                ("mod_x", 22, u8), ("mod_y", 23, u8), ("pan", 20, u8), ("position", 0, u32), ("rack_channel", 6, u16),
                ("release", 18, u8), ("slide", 4, Bit("H", 8)), ("velocity", 21, u8)):
    I_("note", n, o, c)
I_("ctrl", "channel", 6, u8)
I_("ctrl", "position", 0, u32)
I_("ctrl", "value", 8, f32)

# time markers
E_("marker", "denominator", 34, u8)
E_("marker", "name", 205, text)
E_("marker", "numerator", 33, u8)


def _mpos(ent, L):
    e = ent.first(148)
    if e is None:
        return None
    v = struct.unpack("<I", e.data)[0]
    return v if v < 0x8000000 else v - 0x8000000


def _mtype(ent, L):
    e = ent.first(148)
    return None if e is None else 0x8000000 if struct.unpack("<I", e.data)[0] >= 0x8000000 else 0


RO_("marker", "position", _mpos)
RO_("marker", "type", _mtype)


# arrangements
class LoopPos(Attr):
    enum = False

    def __init__(self):
        self.name, self.ro, self.codec = "loop_pos", False, self

    def bad(self, r):
        return [["pair", 1], 5, ["pair", 1 << 33, 0], ["pair", 0, -1], ["pair", "x", 1], ["pair", 1, None], ["pair", None, 1], ["pair", 1, 2, 3], None]

    def loc(self, ent):
        e = ent.first(217)
        if e is not None:
            return (e, 0, 8) if len(e.data) >= 8 else None
        e = ent.first(152)
        return None if e is None else (e, 0, 4)

    def read(self, ent, L):
        e = ent.first(217)
        if e is not None:
            d = e.data
            return ["pair"] + [struct.unpack("<I", d[o : o + 4])[0] if len(d) >= o + 4 else None for o in (0, 4)]
        e = ent.first(152)
        return None if e is None else ["pair"] + list(struct.unpack("<HH", e.data))

    def write(self, ent, L, v):
        ev, off, size = self.loc(ent)
        ev.data = struct.pack("<II" if size == 8 else "<HH", *v[1:]) + ev.data[size:]

    def gen(self, r, ent, L):
        hi = 0xFFFFFFFF if self.loc(ent)[2] == 8 else 0xFFFF
        return ["pair", r.choice([0, hi, r.randint(0, hi)]), r.choice([0, hi, r.randint(0, hi)])]


K["arrangements"] = {"loop_pos": LoopPos()}
RO_("arrangements", "max_tracks", lambda ent, L: 500 if L.ents[()].x["m"].version() >= (12, 9, 1) else 199)
E_("timesig", "num", 17, u8)
E_("timesig", "beat", 18, u8)
E_("arrangement", "iid", 99, u16)
E_("arrangement", "name", 241, text)
for n, o, c in (("iid", 0, u32), ("color", 4, Rgba32()), ("icon", 8, u32), ("enabled", 12, flag), ("height", 13, Height()),
                ("content_locked", 21, flag), ("motion", 22, Enum("I", range(7))), ("press", 26, Enum("I", range(4))),
                ("trigger_sync", 30, Enum("I", range(7))), ("queued", 34, flag4), ("tolerant", 38, flag4),
                ("position_sync", 42, Enum("I", range(7))), ("grouped", 46, flag), ("locked", 47, flag)):
    S_("track", n, 238, o, c)
E_("track", "name", 239, text)
RO_("track", "__len__", lambda ent, L: ent.x["n"])
for k in ("chitem", "patitem"):
    I_(k, "group", 14, u16)
    I_(k, "length", 8, u32)
    I_(k, "position", 0, u32)
    K[k]["offsets"] = Attr("offsets", IT(24, 8), Pair("ff"))


class Offs(Codec):
    size = 8

    def dec(self, b):
        return ["pair"] + list(struct.unpack("<ff", b))

    def enc(self, v, old):
        return struct.pack("<ff", *v[1:])

    def gen(self, r, old):
        return ["pair", f32.gen(r, None), f32.gen(r, None)]

    def bad(self, r):
        return [["pair", 1.0], ["pair", 1.0, 2.0, 3.0], 5, ["pair", "x", 1.0], ["pair", 1.0, 1e39]]


class ItemRef(Attr):
    enum = False

    def __init__(self, name):
        self.name, self.ro, self.codec = name, False, self
        self.loc = IT(6, 2)

    def bad(self, r):
        return [5, None, "x"]

    def read(self, ent, L):
        i = ent.x["idx"] if ent.kind == "chitem" else ent.x["idx"] - ent.x["base"]
        pool, id = (L.channels, 64) if ent.kind == "chitem" else (L.patterns, 65)
        if all(c.first(id) is None or struct.unpack("<H", c.first(id).data)[0] != i for c in pool):
            raise Undecodable("refers to nothing")
        return ["ref", i]

    def write(self, ent, L, v):
        ev, off, _ = self.loc(ent)
        n = v[1] if ent.kind == "chitem" else v[1] + ent.x["base"]
        ev.data = ev.data[:off] + struct.pack("<H", n) + ev.data[off + 2 :]
        ent.x["idx"] = n

    def gen(self, r, ent, L):
        if ent.kind == "chitem":
            pool = [struct.unpack("<H", c.first(64).data)[0] for c in L.channels]
            pool = [p for p in pool if p <= 20480]
        else:
            pool = [struct.unpack("<H", p.first(65).data)[0] for p in L.patterns if p.first(65) is not None]
            pool = [p for p in pool if p < 40000]
        return ["ref", r.choice(pool)]


for k in ("chitem", "patitem"):
    K[k]["offsets"] = Attr("offsets", IT(24, 8), Offs())
K["chitem"]["channel"] = ItemRef("channel")
K["patitem"]["pattern"] = ItemRef("pattern")

# mixer
E_("mixer", "apdc", 29, u8)


def _limit(table, last):
    def fn(ent, L):
        v = L.ents[()].x["m"].version()[:3]
        if v in dict(table):
            raise Undecodable("the limit of a version at the boundary")  # which side it is on is not documented
        return next((x for k, x in table if v <= k), last)

    return fn


RO_("mixer", "max_inserts", _limit(flp.MAX_INSERTS, 127))
RO_("mixer", "max_slots", _limit((((1, 6, 5), 4), ((3, 0, 0), 8)), 10))
for n, m, inv in (("bypassed", 4, True), ("channels_swapped", 2, False), ("enabled", 8, False), ("is_solo", 1 << 12, False),
                  ("locked", 1 << 11, False), ("polarity_reversed", 1, False), ("separator_shown", 1 << 10, False)):
    S_("insert", n, 236, 4, Bit("I", m, inv))
E_("insert", "color", 149, rgba)
E_("insert", "icon", 95, i16)
E_("insert", "input", 154, i32)
E_("insert", "name", 204, text)
E_("insert", "output", 147, i32)
RO_("insert", "iid", lambda ent, L: ent.x["iid"])


def _dock(ent, L):
    e = ent.first(236)
    if e is None or len(e.data) < 8:
        return None
    f = struct.unpack("<I", e.data[4:8])[0]
    return ["name", "Middle" if f & 64 else "Right" if f & 128 else "Left"]


RO_("insert", "dock", _dock)


def _routes(ent, L):
    r = ent.first(235)
    if r is None:
        return None
    it = iter(r.data)
    out = []
    for pid, o in ent.x["own"]:
        if pid >= 64:
            b = next(it, None)
            if b:
                out.append(struct.unpack("<i", ent.x["par"].data[o + 8 : o + 12])[0])
    return out


RO_("insert", "__routes__", _routes)


def _param(pid):
    def loc(ent):
        for p, o in ent.x["own"]:
            if p == pid:
                return (ent.x["par"], o + 8, 4)
        return None

    return loc


for n, p in (("pan", 193), ("stereo_separation", 194), ("volume", 192)):
    K["insert"][n] = Attr(n, _param(p), i32)
for n in ("freq", "gain", "reso"):
    K.setdefault("eqband", {})[n] = Attr(
        n, (lambda n: lambda ent: (ent.x["par"], ent.x["have"][n] + 8, 4) if n in ent.x["have"] else None)(n), i32)
E_("slot", "color", 128, rgba)
E_("slot", "icon", 155, u32)
E_("slot", "iid", 98, u16)
E_("slot", "index", 98, u16)
E_("slot", "internal_name", 201, text)
E_("slot", "name", 203, text)
for n, f in (("enabled", "en"), ("mix", "mix")):
    K["slot"][n] = Attr(n, (lambda f: lambda ent: None if ent.x[f] is None else (ent.x["par"], ent.x[f] + 8, 4))(f), i32)

# plugins
for k in ["native"] + sorted(set(flp.PLUGINS.values())):
    k = "plugin:" + k
    for n, m in (("compact", 256), ("demo_mode", 128), ("detached", 4), ("disabled", 2), ("generator", 16),
                 ("minimized", 512), ("multithreaded", 64), ("smart_disable", 32), ("visible", 1)):
        S_(k, n, 212, 16, Bit("H", m))
    S_(k, "width", 212, 44, u32)
    S_(k, "height", 212, 48, u32)
    S_(k, "page", 212, 20, Enum("B", [0, 1, 3, 4, 5]))


def P_(kind, *fields, opt=0):
    """opt: total length at which a 4 byte prefix is present"""
    for name, off, codec in fields:
        def loc(ent, off=off, size=codec.size):
            e = ent.first(213)
            if e is None:
                return None
            o = off + (4 if opt and len(e.data) == opt else 0)
            return (e, o, size) if len(e.data) >= o + size else None

        K["plugin:" + kind][name] = Attr(name, loc, codec)


P_("boobass", ("bass", 0, u32), ("mid", 4, u32), ("high", 8, u32), opt=16)
P_("fruitkick", ("max_freq", 4, i32), ("min_freq", 8, i32), ("freq_decay", 12, u32), ("amp_decay", 16, u32), ("click", 20, u32), ("distortion", 24, u32))
P_("balance", ("pan", 0, u32), ("volume", 4, u32))
P_("overdrive", ("pre_band", 0, u32), ("color", 4, u32), ("pre_amp", 8, u32), ("x100", 12, flag4), ("post_filter", 16, u32), ("post_gain", 20, u32), opt=36)
P_("center", ("enabled", 0, flag4), opt=8)
P_("fastdist", ("pre", 0, u32), ("threshold", 4, u32), ("kind", 8, CEnum("A", "B")), ("mix", 12, u32), ("post", 16, u32))
P_("send", ("pan", 0, i32), ("dry", 4, u32), ("volume", 8, u32), ("send_to", 12, i32))
P_("softclipper", ("threshold", 0, u32), ("post", 4, u32))
P_("stereoenh", ("pan", 0, i32), ("volume", 4, u32), ("stereo_separation", 8, u32), ("phase_offset", 12, u32),
   ("effect_position", 16, CEnum("pre", "post")), ("phase_inversion", 20, CEnum("none", "left", "right")))
P_("plucked", ("decay", 0, u32), ("color", 4, u32), ("normalize", 8, flag4), ("gate", 12, flag4), ("widen", 16, flag4))
P_("soundgood", ("mode", 0, CEnum("A", "B", "C", "D")), ("amount", 4, u32), opt=12)
P_("notebook2", ("active_page", 4, u32))


def _nb_editable(ent):
    e = ent.first(213)
    return (e, len(e.data) - 1, 1)


K["plugin:notebook2"]["editable"] = Attr("editable", _nb_editable, flag)


def nb_pages(d):
    """[(index, offset of the length, text)] and the offset behind the terminator"""
    o, out = 8, []
    while True:
        (idx,) = struct.unpack("<i", d[o : o + 4])
        if idx == -1:
            return out, o + 4
        at = o + 4
        n = sh = 0
        o += 4
        while True:
            b = d[o]
            o += 1
            n |= (b & 127) << sh
            sh += 7
            if b < 128:
                break
        out.append((idx, at, d[o : o + 2 * n].decode("utf-16-le").rstrip("\0")))
        o += 2 * n


RO_("plugin:notebook2", "pages", lambda ent, L: ["pages"] + [[i, t] for i, _, t in nb_pages(ent.first(213).data)[0]])


# VST
def _vst(ident, off=None, size=None):
    def loc(ent):
        e = ent.first(213)
        for i, o, n in flp.vst_items(e.data):
            if i == ident:
                if off is None:
                    return (e, o, n)
                return (e, o + off, size) if n >= off + size else None
        return None

    return loc


class VstStr(Attr):
    def __init__(self, name, ident, raw=False):
        self.name, self.ro, self.loc, self.raw, self.ident = name, False, _vst(ident), raw, ident
        self.codec = self
        self.enum = False

    def bad(self, r):
        return [5, "x"] if self.raw else [5, ["bytes", "61"], ["surr"]]

    def read(self, ent, L):
        c = self.loc(ent)
        if c is None:
            return None
        b = c[0].data[c[1] : c[1] + c[2]]
        return ["bytes", b.hex()] if self.raw else b.decode("utf8")

    def write(self, ent, L, v):
        ev, off, n = self.loc(ent)
        new = bytes.fromhex(v[1]) if self.raw else v.encode("utf8")
        ev.data = ev.data[: off - 8] + struct.pack("<Q", len(new)) + new + ev.data[off + n :]

    def cells(self, ent, L):
        c = self.loc(ent)
        return [] if c is None else [(c[0], c[1] - 8, c[2] + 8)]

    def gen(self, r, ent, L):
        if self.raw:
            return Bytes().gen(r, None)
        return text.gen_uni(r) if r.random() < 0.3 else text.gen(r, None)


class VstAttr(Attr):
    def read(self, ent, L):
        c = self.loc(ent)
        return None if c is None else self.codec.dec(c[0].data[c[1] : c[1] + c[2]])


for n, i, raw in (("fourcc", 51, 0), ("guid", 52, 1), ("name", 54, 0), ("plugin_path", 55, 0), ("state", 53, 1), ("vendor", 56, 0)):
    K["plugin:vst"][n] = VstStr(n, i, bool(raw))


def V_(kind, name, ident, off, codec):
    K.setdefault("vst." + kind, {})[name] = VstAttr(name, _vst(ident, off, codec.size), codec)


V_("automation", "notify_changes", 2, 9, Bit("I", 1 << 6, True))
for n, b, inv in (("fixed_buffers", 1, 0), ("reset_on_transport", 25, 1), ("send_loop", 11, 0), ("use_time_offset", 31, 1)):
    V_("compatibility", n, 2, 9, Bit("I", 1 << b, bool(inv)))
V_("compatibility", "buffers_maxsize", 2, 13, Bit("I", 2))
V_("compatibility", "process_maximum", 2, 13, Bit("I", 1))
V_("compatibility", "fast_idle", 2, 22, flag)
V_("midi", "input", 1, 0, i32)
V_("midi", "output", 1, 4, i32)
V_("midi", "pb_range", 1, 8, u32)
for n, b, inv in (("send_modx", 17, 0), ("send_pb", 0, 0), ("send_release", 5, 1)):
    V_("midi", n, 2, 9, Bit("I", 1 << b, bool(inv)))
for n, b, inv in (("allow_sd", 29, 0), ("bridged", 18, 0), ("external", 21, 0), ("keep_state", 16, 1), ("multithreaded", 12, 0),
                  ("notify_render", 2, 0), ("process_inactive", 3, 0)):
    V_("processing", n, 2, 9, Bit("I", 1 << b, bool(inv)))
for n, b in (("accept_drop", 28), ("always_update", 23), ("dpi_aware", 26), ("scale_editor", 30)):
    V_("ui", n, 2, 9, Bit("I", 1 << b))


# ---------------------------------------------------------------------------- sizes of collections
def _n(get):
    def f(ent, L):
        n = get(ent, L)
        return n if n else None  # len() of an empty collection raises

    return f


RO_("rack", "__count__", _n(lambda ent, L: len(L.channels)))
RO_("patterns", "__count__", _n(lambda ent, L: len({e.data for e in ent.evs if e.id == 65})))
RO_("mixer", "__count__", _n(lambda ent, L: sum(e.id == 236 for e in ent.evs)))
RO_("arrangements", "__count__", _n(lambda ent, L: sum(e.id == 99 for e in ent.evs)))
RO_("layer", "__count__", lambda ent, L: len(ent.all(94)))
RO_("track", "__count__", lambda ent, L: ent.x["n"])
RO_("insert", "__count__", lambda ent, L: sum(e.id == 98 for e in ent.evs))
