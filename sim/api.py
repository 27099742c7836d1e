"""The seam to the code under test: paths -> live objects, plain vals <-> API values."""
import datetime
import os
import pathlib
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from . import sched  # noqa: E402

sched.install()

import pyflp  # noqa: E402
from pyflp.types import RGBA, FLVersion, MusicalTime  # noqa: E402

if pathlib.Path(pyflp.__file__).resolve().parent.parent != pathlib.Path(REPO).resolve():
    raise SystemExit("pyflp comes from %s" % pyflp.__file__)

PYFLP_DIR = os.path.dirname(os.path.abspath(pyflp.__file__))
EPOCH = datetime.datetime(1899, 12, 30)


class Nav:
    """Caches the collections of one project object while the object is navigated by path."""

    def __init__(self, project):
        self.p = project
        self.cache = {}

    def coll(self, key, fn):
        if key not in self.cache:
            self.cache[key] = list(fn())
        return self.cache[key]

    def get(self, path):
        path = tuple(path)
        if path in self.cache:
            return self.cache[path]
        obj = self._get(path)
        self.cache[path] = obj
        return obj

    def _get(self, path):
        p = self.p
        if not path:
            return p
        if len(path) == 1:
            return getattr(p, path[0])
        if path[0] == "groups":
            return self.coll("groups", lambda: self.get(("channels",)).groups)[path[1]]
        parent, last = path[:-1], path[-1]
        if len(path) == 2:
            if isinstance(last, str):
                return getattr(self.get(parent), last)
            return self.coll(("L",) + parent, lambda: iter(self.get(parent)))[last]
        if isinstance(last, int):
            owner = self.get(path[:-2])
            name = path[-2]
            if name in ("items", "points", "slots"):
                return self.coll(("L",) + parent, lambda: iter(owner))[last]
            return self.coll(("L",) + parent, lambda: getattr(owner, name))[last]
        if path[-2] in ("tracking", "envelopes", "lfos"):
            key = ("D",) + parent
            if key not in self.cache:
                self.cache[key] = getattr(self.get(path[:-2]), path[-2])
            return self.cache[key][last]
        if path[-2] == "eq":
            return getattr(self.get(path[:-2]).eq, last)
        return getattr(self.get(parent), last)


def norm(v):
    """API value -> plain val"""
    if v is None or isinstance(v, (bool, str)) and not hasattr(v, "value"):
        return str(v) if isinstance(v, str) else v
    if isinstance(v, RGBA):
        return ["frgba"] + [float(x) for x in v]
    if isinstance(v, MusicalTime):
        return ["mt"] + [int(x) for x in v]
    if isinstance(v, FLVersion):
        return ["ver", v.major, v.minor, v.patch, v.build]
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return v
    if isinstance(v, (bytes, bytearray)):
        return ["bytes", bytes(v).hex()]
    if isinstance(v, pathlib.PurePath):
        return ["path", str(v)]
    if isinstance(v, datetime.datetime):
        return ["days", (v - EPOCH) / datetime.timedelta(days=1)]
    if isinstance(v, datetime.timedelta):
        return ["days", v / datetime.timedelta(days=1)]
    if isinstance(v, tuple):
        return ["pair"] + [norm(x) for x in v]
    if isinstance(v, str):
        return str(v)
    if type(v).__name__ == "InsertDock":
        return ["name", v.name]
    return ["?", type(v).__name__]


ABSENT = (LookupError, AttributeError, TypeError, ValueError)


def read(obj, kind, name, strict=True):
    """Read a property through the API as a plain val."""
    if not strict:  # the property is absent from this object: None and an exception say the same
        try:
            return read(obj, kind, name)
        except ABSENT:
            return None
    if name == "__children__":
        return [int(c.iid) for c in obj]
    if name == "__len__":
        return len(list(obj))
    if name == "__count__":
        return len(obj)
    if name == "__routes__":
        return [int(x) for x in obj.routes]
    if name == "group" and kind in ("channel", "automation", "layer", "sampler", "instrument"):
        return ["group", str(obj.group.name)]
    if name in ("channel", "pattern") and kind in ("chitem", "patitem"):
        return ["ref", int(getattr(obj, name).iid)]
    if name == "pages":
        return ["pages"] + [[int(q["index"]), str(q["value"])] for q in obj.pages if q["index"] != -1]
    return norm(getattr(obj, name))


def native(v, obj, name, nav=None, kind=None):
    """plain val -> API value to assign"""
    if not isinstance(v, list):
        return v
    t = v[0]
    if t == "rgba":
        return RGBA(*(x / 255 for x in v[1:]))
    if t == "frgba":
        return RGBA(*v[1:])
    if t == "pair":
        return tuple(v[1:])
    if t == "mt":
        return MusicalTime(*v[1:])
    if t == "bytes":
        return bytes.fromhex(v[1])
    if t == "path":
        return pathlib.Path(v[1])
    if t == "enum":
        cur = getattr(obj, name)
        return type(cur)(v[1])
    if t == "milli":
        return v[1] / 1000 - (0.0004 if len(v) > 2 else 0)
    if t == "ver":
        return FLVersion(*v[1:])
    if t == "vtup":
        return tuple(v[1:])
    if t == "vstr":
        return v[1]
    if t == "log2":
        return 2 ** (v[1] / 10000)
    if t == "lognorm":
        return max(min(1.0, 2 ** (v[1] / 2**12) / 2**15), 0.0) if v[1] else 0.0
    if t == "surr":
        return "a\ud800b"
    if t == "ref":
        coll = nav.p.channels if kind == "chitem" else nav.p.patterns
        for x in coll:
            if x.iid == v[1]:
                return x
        raise LookupError(v)
    if t == 1 or t == 1.0:
        return list(v)
    raise AssertionError(v)


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1.0)


def same(api, model):
    """Does the API's val say the same as the model's?"""
    if isinstance(model, list) and model and model[0] == "rgba":
        return isinstance(api, list) and api[0] == "frgba" and all(abs(x * 255 - y) < 1e-6 for x, y in zip(api[1:], model[1:]))
    if isinstance(model, list) and model and model[0] == "mt":  # 0 bars, 20 beats are 1 bar, 4 beats
        return isinstance(api, list) and api[0] == "mt" and len(api) == 4 and all(type(x) is int for x in api[1:]) and sum(x * y for x, y in zip(api[1:], (3840, 240, 1))) == sum(x * y for x, y in zip(model[1:], (3840, 240, 1)))
    if isinstance(model, list) and model and model[0] == "path":
        return isinstance(api, list) and api[0] == "path" and api[1] == str(pathlib.Path(model[1]))
    if isinstance(model, list) and model and model[0] == "days":
        return isinstance(api, list) and api[0] == "days" and abs(api[1] - model[1]) < 1e-9 * max(1.0, abs(model[1])) + 1e-10
    if isinstance(model, list):
        return isinstance(api, list) and len(api) == len(model) and all(same(x, y) for x, y in zip(api, model))
    if isinstance(model, float) or isinstance(api, float):
        if isinstance(api, (str, list)) or isinstance(model, (str, list)) or api is None or model is None:
            return False
        return api == model or (api != api and model != model) or close(api, model)
    if isinstance(model, bool) or isinstance(api, bool):
        return isinstance(api, (bool, int)) and isinstance(model, (bool, int)) and int(api) == int(model)
    return type(api) is type(model) and api == model or api is None and model is None
