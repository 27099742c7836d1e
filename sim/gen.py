"""Seeded generator of synthetic projects (as reference models) and of edits to them."""
import random
import struct

from . import catalog, flp
from .flp import Ev, Flp

VERSIONS_A = ["3.3.0", "3.4.0", "4.5.1", "5.0.2", "7.0.0", "8.0.0", "9.0.3", "10.0.9", "11.0.4"]
VERSIONS_U = ["11.5.13", "12.3.1.51", "12.4.1", "12.9.0.20", "12.9.1.30", "12.9.2", "20.0.1.455", "20.8.4.2576", "20.9.2.2963", "21.0.3.3517", "21.2.0"]

# optional struct events: field boundaries at which a file of an older version may end
BOUNDS = {
    209: [0, 4, 8, 12, 16, 20],
    218: [4 * i for i in range(18)],
    229: [0, 4, 8, 12, 16, 20],
    219: [0, 4, 8, 12, 16, 20, 24],
    215: [0, 9, 10, 11, 12, 40, 44, 48, 52, 56, 60, 61, 62, 63, 64, 66, 68, 76, 80, 81, 82, 83, 84, 88, 92, 96, 100, 104, 108, 112, 133, 137, 141, 145, 148, 152, 157, 158],
    221: [0, 4, 8, 9],
    228: [0, 4, 8, 12, 16],
    238: [0, 4, 8, 12, 13, 17, 21, 22, 26, 30, 34, 38, 42, 46, 47, 48],
    236: [0, 4, 8, 12],
    217: [0, 4, 8],
    212: [0, 16, 18, 20, 21, 44, 48, 52],
    227: [0, 2, 3, 4, 6, 8, 16, 20],
}
UNKNOWN = [5, 8, 14, 19, 24, 31, 35, 37, 38, 39, 40, 63, 68, 77, 84, 90, 101, 110, 127, 134, 136, 151, 163, 170, 191, 208, 210, 214, 220, 222, 230, 232, 240, 242, 250, 255]


class G:
    def __init__(self, r, size=None, canon=False):
        self.r = r
        self.canon = canon
        self.out = []
        self.ver = r.choice(VERSIONS_U if r.random() < 0.72 else VERSIONS_A)
        self.uni = [int(x) for x in self.ver.split(".")][:2] >= [11, 5]
        self.size = size if size is not None else r.choice([0, 1, 1, 2, 2, 2, 3])
        self.p_opt = r.choice([0.15, 0.5, 0.85, 1.0])  # optional events present
        self.p_trunc = r.choice([0.0, 0.0, 0.2, 0.6])
        self.p_extra = r.choice([0.0, 0.1, 0.5])
        self.p_unk = r.choice([0.0, 0.02, 0.15])
        self.p_odd = r.choice([0.0, 0.0, 0.3])  # non canonical booleans
        if canon:
            self.p_odd = 0.0
        self.zero = r.random() < 0.15  # mostly zero payloads
        self.p_dangle = 0.0 if canon else r.choice([0.0] * 4 + [0.3])  # references to what is not there
        self.p_same = r.choice([0.0, 0.0, 0.2, 0.6])  # items equal to the one before
        # one dimension as large as in a finished song
        self.huge = r.choice(["text", "notes", "ctrls", "items", "points", "tracks", "markers", "state", "inserts", "channels"]) if r.random() < 0.09 else None

    # -- primitives
    def ev(self, id, data):
        if self.r.random() < self.p_unk:
            self.unknown()
        self.out.append(Ev(id, data))

    def unknown(self):
        r = self.r
        id = r.choice(UNKNOWN)
        n = 1 if id < 64 else 2 if id < 128 else 4 if id < 192 else r.choice([0, 1, 3, 126, 127, 128, 129, 300, r.randint(0, 40)] + ([16383, 16384, 20000] if r.random() < 0.05 else []))
        self.out.append(Ev(id, self.rb(n)))

    def many(self, what, few, lots):
        return self.r.choice(lots if self.huge == what else few)

    def same(self, d, size, new):
        """d and one more item"""
        if len(d) >= size and self.r.random() < self.p_same:
            new = d[-size:]
        return d + new

    def opt(self):
        return self.r.random() < self.p_opt

    def rb(self, n):
        if self.zero:
            return bytes(n)
        return self.r.getrandbits(8 * n).to_bytes(n, "little") if n else b""

    def b(self, id):
        r = self.r
        self.ev(id, bytes([r.randint(2, 255) if r.random() < self.p_odd else r.randint(0, 1)]))

    def u8(self, id):
        self.ev(id, self.rb(1))

    def u16(self, id, v=None):
        self.ev(id, self.rb(2) if v is None else struct.pack("<H", v))

    def u32(self, id, v=None):
        self.ev(id, self.rb(4) if v is None else struct.pack("<I", v))

    def text(self, n=None):
        r = self.r
        n = r.choice([0, 1, 4, 9, 20, 62, 63, 64, 130]) if n is None else n
        if self.huge == "text" and r.random() < 0.15:
            n = r.choice([255, 256, 2047, 2100, 4100])
        if self.uni and r.random() < 0.3:
            return "".join(r.choice(["é", "Ж", "漢", "😀", "a", "\u0100", "\uffff"]) for _ in range(n))
        return "".join(r.choice("abcdefXYZ 0123_./") for _ in range(n))

    def s(self, id, t=None):
        t = self.text() if t is None else t
        raw = (t + "\0").encode("utf-16-le" if self.uni else "ascii")
        if self.r.random() < 0.05 and t and not self.canon:  # unterminated / doubly terminated text occurs in old files
            raw = raw[: -2 if self.uni else -1] if self.r.random() < 0.5 else raw + raw[-2 if self.uni else -1 :]
        self.ev(id, raw)

    def struct_(self, id, data):
        r = self.r
        if id in BOUNDS and r.random() < self.p_trunc:
            data = data[: r.choice(BOUNDS[id]) if r.random() < 0.8 else r.randrange(len(data) + 1)]
        elif r.random() < self.p_extra:
            data = data + self.rb(r.choice([1, 2, 4, 7, 12, 12, 65, 200]))
        self.ev(id, data)

    # -- parts
    def params(self):
        r = self.r
        d = bytearray(self.rb(158))
        for o in (9, 11, 60, 62, 63, 80, 81, 157):
            if not (r.random() < self.p_odd):
                d[o] = r.randint(0, 1)
        for o, n in ((40, 6), (83, 6)):
            d[o] = r.randrange(n)
        d[41:44] = bytes(3)
        d[108:112] = struct.pack("<i", r.randint(-1, 9))
        d[104:108] = struct.pack("<i", r.randint(-40000, 40000))
        for o in (52, 56):
            d[o : o + 4] = struct.pack("<f", r.choice([0.0, 1.5, r.uniform(-3, 3)]))
        for o in (133, 141):
            k = r.choice([0, 1, 61440, r.randint(0, 61440)])
            d[o : o + 4] = struct.pack("<HH", k, 63 if k else 0)
        return bytes(d)

    def wrapper(self):
        d = bytearray(self.rb(52))
        d[20] = self.r.choice([0, 1, 3, 4, 5])
        self.struct_(212, bytes(d))

    def plugin_data(self, kind):
        r = self.r
        R = self.rb
        if kind == "native":
            return R(self.many("state", [0, 1, 12, 40], [255, 4096, 5000, 70000]))
        if kind == "boobass":
            return R(r.choice([12, 16]))
        if kind == "fruitkick":
            return R(32)
        if kind in ("balance", "softclipper"):
            return R(8)
        if kind == "overdrive":
            d = bytearray(R(32))
            d[12:16] = struct.pack("<I", r.randint(0, 1))
            return (R(4) if r.random() < 0.5 else b"") + bytes(d)
        if kind == "center":
            return (R(4) if r.random() < 0.5 else b"") + struct.pack("<I", r.randint(0, 1))
        if kind == "fastdist":
            return R(8) + struct.pack("<I", r.randint(0, 1)) + R(8)
        if kind == "send":
            return R(16)
        if kind == "stereoenh":
            return R(16) + struct.pack("<II", r.randint(0, 1), r.randint(0, 2))
        if kind == "plucked":
            return R(8) + struct.pack("<III", *(r.randint(0, 1) for _ in range(3)))
        if kind == "soundgood":
            return (R(4) if r.random() < 0.5 else b"") + struct.pack("<I", r.randint(0, 3)) + R(4)
        if kind == "notebook2":
            d = R(8)
            for i in range(r.choice([0, 1, 3])):
                t = "".join(r.choice("abЖ漢") for _ in range(r.choice([1, 5, 200])))
                d += struct.pack("<i", i + 1) + flp.varint(len(t)) + t.encode("utf-16-le")
            return d + b"\xff\xff\xff\xff" + bytes([r.randint(0, 1)])
        if kind == "vst":
            d = struct.pack("<I", r.choice([8, 10]))
            ids = [1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56, 57]
            for i in ids:
                if i not in (2,) and r.random() > max(self.p_opt, 0.4):
                    continue
                if i == 1:
                    p = R(r.choice([12, 12, 16, 21, 8, 4]))
                elif i == 2:
                    q = bytearray(R(r.choice([23, 23, 26, 13 if r.random() < 0.2 else 23])))
                    if len(q) > 22:
                        q[22] = r.randint(0, 1)
                    p = bytes(q)
                elif i in (51, 54, 55, 56):
                    p = self.text().encode("utf8")
                elif i == 52:
                    p = R(16)
                else:
                    p = R(self.many("state", [0, 4, 33, 150], [256, 4096, 20000]))
                d += struct.pack("<IQ", i, len(p)) + p
            return d
        raise AssertionError(kind)

    def plugin_events(self, kinds, allow_none=True):
        """[201][212][203][155][128][213] as in a channel or a slot"""
        r = self.r
        kind = r.choice(kinds)
        name = next((n for n, k in flp.PLUGINS.items() if k == kind), None)
        if kind == "native":
            name = r.choice(["3x Osc", "Fruity Limiter", "GMS"])
        if r.random() < 0.08 and not any(e.id == 201 for e in self.out):
            kind = "native"  # no name so far, so nobody knows which plugin this is
        else:
            self.s(201, name)
        self.wrapper()
        if self.opt():
            self.s(203)
        if self.opt():
            self.u32(155)
        if self.opt():
            self.ev(128, self.rb(4))
        return kind

    def channel(self, iid, ngroups, iids):
        r = self.r
        kind = r.choice(["sampler", "sampler", "instrument", "instrument", "layer", "automation", "other"])
        self.u16(64, iid)
        typ = {"sampler": 0, "instrument": r.choice([2, 4]), "layer": 3, "automation": 5, "other": r.choice([1, 6])}[kind]
        audio = kind == "instrument" and r.random() < 0.2  # audio clip: shown as a sampler
        self.ev(21, bytes([typ]))
        if kind == "instrument" and not audio:
            pk = self.plugin_events(["vst", "vst", "boobass", "fruitkick", "plucked", "native"])
            if r.random() < 0.9:
                self.ev(213, self.plugin_data(pk))
        else:
            if audio or self.opt():
                self.s(201, "")
            if self.opt():
                self.wrapper()
            if self.opt():
                self.s(r.choice([203, 192]))
            if self.opt():
                self.u32(155)
            if self.opt():
                self.ev(128, self.rb(4))
        for id in (0, 32):
            if self.opt():
                self.b(id)
        if self.opt():
            self.struct_(209, self.rb(20))
        for id in (138, 131, 132):
            if self.opt():
                self.ev(id, self.rb(4))
        if self.opt():
            self.u32(139, r.choice([0, 1, 65535, 65536, 65537, 131071, r.randint(0, 131071)]))
        for id in (89, 97, 69, 86, 71, 83, 74, 75, 76, 85, 70):
            if self.opt():
                self.u16(id)
        if self.opt():
            self.u8(22)
        if kind == "layer":
            for c in r.sample(iids, r.randint(0, len(iids))):
                self.u16(94, c if r.random() > self.p_dangle else r.choice([0, 7, 301, 65535]))
        if self.opt():
            self.b(15)
        if self.opt():
            self.struct_(219, self.rb(20) + struct.pack("<I", r.randrange(8)))
        else:
            for id in (72, 73):
                if self.opt():
                    self.u16(id)
            for id in (2, 3):
                if self.opt():
                    self.u8(id)
        if self.opt():
            self.struct_(229, self.rb(20))
        if self.opt():
            self.struct_(221, self.rb(9))
        if self.opt():
            self.struct_(215, self.params())
        for id in (135, 142, 143, 153):
            if self.opt():
                self.u32(id)
        if kind == "layer" or self.opt():
            self.u32(144)
        self.ev(145, struct.pack("<i", r.randrange(ngroups)))
        if kind == "automation" and self.opt():
            n = self.many("points", [0, 1, 2, 5], [100, 180])
            d = b""
            for _ in range(n):
                d = self.same(d, 24, struct.pack("<ddf", r.choice([0.0, 1.0, r.uniform(0, 9)]), r.uniform(0, 1), r.uniform(-1, 1)) + self.rb(4))
            self.ev(234, self.rb(17) + struct.pack("<I", n) + d + self.rb(r.choice([0, 8, 25])))
        for _ in range(r.choice([0, 1, 2, 2])):
            self.struct_(228, self.rb(16))
        for _ in range(r.choice([0, 2, 5, 5])):
            d = bytearray(self.rb(68))
            d[52:56] = struct.pack("<i", r.randrange(3))
            d[0:4] = struct.pack("<i", r.choice([0, 1, 2, 3, 32, 35, 4, 39, r.randint(-(1 << 31), (1 << 31) - 1)]))
            self.struct_(218, bytes(d))
        if self.opt():
            self.b(20)
        if audio or self.opt():
            p = r.choice(["a/b.wav", "/x y/z.wav", "k", "C:\\q\\r.wav"])
            self.s(196, p)

    def marker(self):
        self.u32(148, self.r.choice([0, 96, 0x8000000, 0x8000001, 0x7FFFFFF, self.r.randint(0, 1 << 27), self.r.randint(1 << 27, 1 << 28)]))
        self.u8(33)
        self.u8(34)
        self.s(205)

    def notes(self, n):
        d = b""
        for _ in range(n):
            q = bytearray(self.rb(24))
            q[12:14] = struct.pack("<H", self.r.randrange(132))
            d = self.same(d, 24, bytes(q))
        return d

    def slot(self, idx, params, I):
        r = self.r
        if r.random() < 0.55:
            kind = self.plugin_events(sorted(flp.EFFECTS) + ["native", "vst"])
            if r.random() < 0.92:
                self.ev(213, self.plugin_data(kind))
        elif self.opt():
            if r.random() < 0.3:
                self.ev(128, self.rb(4))
        self.u16(98, idx)
        for pid in (0, 1):
            if r.random() < 0.8:
                params.append((pid, I << 6 | idx))

    def insert(self, I, params):
        r = self.r
        for id, f in ((149, lambda: self.ev(149, self.rb(4))), (95, lambda: self.u16(95)), (204, lambda: self.s(204))):
            if self.opt():
                f()
        self.struct_(236, self.rb(12))
        for j in range(r.choice([0, 1, 2, 3, 10 if self.size > 2 else 2])):
            self.slot(j, params, I)
        if self.opt():
            self.ev(235, bytes(r.randint(0, 1) for _ in range(r.choice([0, 3, 127]))))
        self.ev(154, self.rb(4))
        self.ev(147, self.rb(4))
        for pid in [64 + k for k in range(r.choice([0, 2]))] + [192, 193, 194, 208, 209, 210, 216, 217, 218, 224, 225, 226]:
            if r.random() < 0.85:
                params.append((pid, I << 6))

    def build(self):
        r, n = self.r, self.size
        self.ev(199, self.ver.encode() + b"\0")
        v = self.ver.split(".")
        if self.opt():
            self.u32(159, int(v[3]) if len(v) == 4 else 0)
        for id in (28,):
            if self.opt():
                self.b(id)
        if self.opt():
            self.s(200, "".join(chr(r.randint(60, 100)) for _ in range(r.choice([0, 3, 9]))))
        legacy = int(v[0]) < 9 and r.random() < 0.7
        if self.opt() or n == 0:
            k = r.randint(10000, 522000)
            if not legacy or r.random() < 0.3:
                self.u32(156, k)
            if legacy:
                self.u16(66, k // 1000)
                if r.random() < 0.5:
                    self.u16(93, k % 1000)
        if self.opt():
            self.u16(67)
        if self.opt():
            self.b(9)
        for id in (11, 13, 12, 17, 18):
            if self.opt():
                self.u8(id)
        if self.opt():
            self.u16(80)
        if self.opt():
            self.struct_(217, self.rb(8))
        elif self.opt():
            self.ev(152, self.rb(4))
        if self.opt():
            self.ev(23, bytes([r.choice([0, 2])]))
        for id in (30, 10):
            if self.opt():
                self.b(id)
        for id in (194, 206, 207, 195, 198, 197):
            if self.opt():
                self.s(id)
        if self.opt():
            self.s(202, r.choice(["", "a/b", "/x/y", "C:\\d"]))
        if self.opt():
            self.ev(237, struct.pack("<dd", r.uniform(30000, 60000), r.uniform(0, 400)))
        nch = self.many("channels", [1, 1, 2, 3, 4][: n + 2], [12, 25]) if r.random() < 0.94 else 0
        ng = r.choice([1, 2, 3])
        for _ in range(ng):
            self.s(231)
        if self.opt():
            self.u32(146)
        iids = list(range(nch))
        if r.random() < 0.15:
            iids = r.sample(range(300), nch)
        pats = [] if n == 0 and r.random() < 0.5 else r.sample(range(1, 12), r.choice([1, 1, 2, 3]))
        if r.random() < 0.1 and pats:
            pats[-1] = r.randint(200, 9000)
        for p in pats:
            if r.random() < 0.8:
                self.u16(65, p)
                if self.opt():
                    self.ev(224, self.notes(self.many("notes", [0, 1, 2, 5, 11], [128, 172, 300])))
                if self.opt():
                    d = b""
                    for _ in range(self.many("ctrls", [0, 1, 3], [130, 350])):
                        d = self.same(d, 12, self.rb(8) + struct.pack("<f", r.uniform(-2, 2)))
                    if r.random() < 0.15:
                        self.u16(65, p)
                    self.ev(223, d)
        for _ in range(r.choice([0, 1, 3])):
            self.ev(226, self.rb(20))
        for _ in range(r.choice([0, 1])):
            self.struct_(227, self.rb(20))
        for k, iid in enumerate(iids):
            self.channel(iid, ng, iids)
            if k == 0:
                for p in pats:
                    self.u16(65, p)
                    if self.opt():
                        self.s(193)
                    if self.opt():
                        self.ev(150, self.rb(4))
                    for _ in range(r.choice([0, 0, 1, 2])):
                        self.marker()
                    if self.opt():
                        self.u32(164)
                    if self.opt():
                        self.b(26)
        if not iids:
            for p in pats:
                self.u16(65, p)
        narr = r.choice([0, 1, 1, 1, 2, 3][: n + 3])
        maxidx = 499 if tuple(int(x) for x in v) >= (12, 9, 1) else 198
        for a in range(narr):
            self.u16(99, a)
            if self.opt():
                self.s(241)
            self.b(36)
            ntr = self.many("tracks", [1, 2, 4], [30, 70])
            isz = 60 if int(v[0]) >= 21 else 32
            cnt = self.many("items", [0, 1, 2, 5, 9], [69, 140])
            if isz == 32 and cnt % 15 == 0 and cnt:
                cnt += 1
            d = b""
            for _ in range(cnt):
                refs = [("c", i) for i in iids if i <= 20480] + [("p", p) for p in pats]
                if not refs:
                    break
                t, x = r.choice(refs)
                if r.random() < self.p_dangle:
                    x = r.choice([0, 13, 302, 9001])
                q = self.rb(4) + struct.pack("<HH", 20480, x if t == "c" else 20480 + x) + self.rb(4)
                q += struct.pack("<H", maxidx - r.randrange(ntr)) + self.rb(2) + self.rb(8)
                q += struct.pack("<ff", r.uniform(-1, 99), r.uniform(-1, 99)) + self.rb(isz - 32)
                d = self.same(d, isz, q)
            if iids and self.opt():
                self.ev(233, d)
            for _ in range(self.many("markers", [0, 0, 1, 2], [10, 25])):
                self.marker()
            for k in range(ntr):
                q = bytearray(self.rb(66))
                q[0:4] = struct.pack("<I", k + 1)
                q[12] = r.randint(0, 1)
                q[13:17] = struct.pack("<f", r.choice([1.0, 0.5, 0.3, r.randint(1, 500) / 100]))
                for o in (21, 46, 47):
                    q[o] = r.randint(0, 1)
                for o, m in ((22, 7), (26, 4), (30, 7), (34, 2), (38, 2), (42, 7)):
                    q[o : o + 4] = struct.pack("<I", r.randrange(m))
                self.struct_(238, bytes(q))
                if self.opt():
                    self.s(239)
        if narr:
            self.u16(100, r.randrange(narr))
        if self.opt():
            self.u8(29)
        params = []
        for I in range(self.many("inserts", [0, 1, 2, 4][: n + 2], [20, 35])):
            self.insert(I, params)
        if params and self.opt():
            if r.random() < 0.3:
                r.shuffle(params)
            d = b""
            high = r.random() < 0.1  # bits of the address nobody knows
            for pid, cd in params:
                if high and r.random() < 0.3:
                    cd |= r.randrange(8) << 13
                d += self.rb(4) + bytes([pid]) + self.rb(1) + struct.pack("<H", cd) + self.rb(4)
            self.ev(225, d)
        if self.opt():
            self.u32(133)
        for e in self.out:
            if e.id == 67 and pats and r.random() < 0.7 - self.p_dangle:
                e.data = struct.pack("<H", r.choice(pats))
        fmt = 0 if r.random() < 0.75 else r.choice(flp.FORMATS)
        return Flp(fmt, nch if r.random() < 0.8 else r.randint(0, 400), r.choice(flp.VALID_PPQS), self.out)


def project(seed, size=None, canon=False):
    """canon: every value is spelled the way the library itself spells it (needed where edits are
    compared byte by byte: a neighbouring non-canonical boolean may legally be re-spelled)."""
    return G(random.Random("project:%s" % (seed,)), size, canon).build()


# ---------------------------------------------------------------------------- edits
def referenced_iids(L):
    refs = set()
    for e in L.ents.values():
        if e.kind == "chitem":
            refs.add(("c", e.x["idx"]))
        elif e.kind == "patitem":
            refs.add(("p", e.x["idx"] - e.x["base"]))
        elif e.kind == "layer":
            refs.update(("c", struct.unpack("<H", c.data)[0]) for c in e.all(94))
    return refs


def editable(ent, name, L):
    """Is assigning this property (with a value its `gen` makes) inside the claims?"""
    at = catalog.K[ent.kind].get(name)
    if at is None or at.ro or at.loc(ent) is None:
        return False
    try:
        at.read(ent, L)
    except catalog.Undecodable:
        return False
    if name == "internal_name" and (ent.first(213) is not None or ent.kind in ("instrument", "sampler")):
        return False
    if name == "pitch_shift" and ent.kind in ("sampler", "instrument"):
        return True
    if ent.kind in catalog.CH and name in ("pan", "volume") and ent.first(219) is None and not at.cells(ent, L):
        return False
    return True


def related(r, at, old, v, L):
    """A value close to the current one: what a comparison, a cache or a partial update may take for the same"""
    if isinstance(at.codec, catalog.Str) and isinstance(old, str) and len(old) < 5000:
        v = r.choice([old[:-1], old[:64], old[1:], old + " ", " " + old, old + "x", old.swapcase(), old.strip(), old + old, old.replace("/", "\\"), old])
        try:
            v.encode("utf-16-le" if L.uni else "ascii")
        except UnicodeError:
            return old[:0]
        return v.rstrip("\0")
    if type(at.codec) is catalog.Int and type(old) is int:
        v = r.choice([old + 1, old - 1, old ^ (1 << r.randrange(8 * at.codec.size)), -old, old & 0xFF, old & 0xFFFF, old])
        return min(max(v, at.codec.lo), at.codec.hi)
    return v


def gen_value(r, ent, name, L):
    at = catalog.K[ent.kind][name]
    v = at.gen(r, ent, L)
    if type(at) is catalog.Attr and r.random() < 0.15:
        v = related(r, at, at.read(ent, L), v, L)
    if name == "iid" and ent.kind in catalog.CH:
        used = {struct.unpack("<H", c.first(64).data)[0] for c in L.channels}
        own = struct.unpack("<H", ent.first(64).data)[0]
        if ("c", own) in referenced_iids(L):
            return None
        while v in used or v > 20480:
            v = r.randint(0, 20000)
    if name == "iid" and ent.kind == "pattern":
        used = {struct.unpack("<H", p.first(65).data)[0] for p in L.patterns if p.first(65) is not None}
        own = struct.unpack("<H", ent.first(65).data)[0]
        if ("p", own) in referenced_iids(L):
            return None
        while v in used:
            v = r.randint(1, 9000)
    return v


_special = {}


def special(kind):
    if kind not in _special:
        _special[kind] = sorted(n for n, a in catalog.K[kind].items() if not a.ro and type(a) is not catalog.Attr)
    return _special[kind]


def pick_edit(r, L, kinds=None, tries=200):
    """A random in-claim edit: (path, attribute, value) or None."""
    ents = [e for e in L.ents.values() if e.kind in catalog.K and (kinds is None or e.kind in kinds)]
    if not ents:
        return None
    bykind = {}
    for e in ents:
        bykind.setdefault(e.kind, []).append(e)
    ks = sorted(bykind)
    odd = {k: special(k) for k in ks}
    oks = [k for k in ks if odd[k]]
    lots = [k for k in ks if len(bykind[k]) > 60]
    for _ in range(tries):
        if oks and r.random() < 0.2:  # properties with a logic of their own
            k = r.choice(oks)
            ent = r.choice(bykind[k])
            name = r.choice(odd[k])
        else:
            ent = r.choice(bykind[r.choice(ks)]) if r.random() < 0.7 else r.choice(ents)
            if lots and r.random() < 0.4:
                ent = r.choice(bykind[r.choice(lots)][r.choice([0, 0, -40, -8]) :])
            names = sorted(n for n, a in catalog.K[ent.kind].items() if not a.ro)
            if not names:
                continue
            name = r.choice(names)
        if not editable(ent, name, L):
            continue
        v = gen_value(r, ent, name, L)
        if v is None:
            continue
        return ent.path, name, v
    return None
