"""Runner.

  main.py check PROP [--tier T] [--runs N]   search, minimise, write evidence
  main.py replay FILE                        execute a replay file in a fresh process
  main.py selftest [PROP...]                 same seed, different workers / batches: same executions?
  main.py serve                              (internal) executes runs in forked children
"""
import collections
import gc
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
MODULES = {"C01": "edits", "C02": "edits", "C05": "edits", "C10": "edits", "C11": "edits",
           "C03": "disk", "C04": "disk", "C06": "disk", "C07": "disk", "C08": "disk", "C09": "disk",
           "C12": "live", "C14": "live", "C15": "live", "C13": "iso", "C16": "iso", "C17": "cost", "C18": "cost"}
QUICK = {"C01": 3200, "C02": 2000, "C03": 3000, "C04": 3000, "C05": 3000, "C06": 4000, "C07": 2000, "C08": 2400, "C09": 4000, "C10": 3200,
         "C11": 2600, "C12": 4600, "C13": 600, "C14": 4600, "C15": 3300, "C16": 2000, "C17": 1000, "C18": 500}
CAP = {"quick": 150, "thorough": 780}
FACTOR = {"quick": 1, "thorough": 25}
BATCH = {"C13": 1, "C16": 1}
HANG = 60


def prop_class(prop):
    m = importlib.import_module("sim.props." + MODULES[prop])
    return next(c for c in m.ALL if c.prop == prop)


def env():
    e = dict(os.environ)
    e.update(LD_PRELOAD=os.path.join(HERE, "build", "shim.so"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
    return e


def cmd(*a):
    import platform

    jit = ["--jit", "off"] if platform.python_implementation() == "PyPy" else []
    return [sys.executable] + jit + [os.path.join(HERE, "sim", "main.py")] + list(a)


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="pyflpsim_", dir=base)


# ---------------------------------------------------------------------------- executing runs
def execute(w, run):
    from sim import core

    t0 = time.time()
    out = {"verdict": "ok"}
    w.disk.use(run.get("files", 0))
    os.chdir(w.disk.root)
    try:
        prop_class(run["prop"])(w, run).play()
    except core.Violation as v:
        out = {"verdict": "violation", "cls": v.cls, "detail": v.detail}
    except core.Known as k:
        out = {"verdict": "known", "key": k.key, "detail": k.detail}
    except core.Abort as a:
        out = {"verdict": "abort", "detail": str(a)}
    except Exception:
        out = {"verdict": "error", "detail": traceback.format_exc()}
    if w.trace is not None:
        w.log(out["verdict"], out.get("cls", ""), out.get("detail", "") if out["verdict"] != "error" else "")
        out["digest"] = w.h.hexdigest()[:24]
        out["trace"] = w.trace
    out["wall"] = time.time() - t0
    return out


def make_run(prop, seed, i):
    run = prop_class(prop).gen(random.Random("%s:%s:%d" % (seed, prop, i)))
    run = json.loads(json.dumps(run))  # exactly what a replay file would say
    run["prop"] = prop
    r = random.Random("%s:%s:%d:files" % (seed, prop, i))
    if r.random() < 0.6:
        run["files"] = r.randrange(77)
        if prop == "C18":  # plain names: those which differ are remembered
            run["files"] -= run["files"] % 11
    return run


def child(req, fd):
    """runs in a forked, otherwise untouched process"""
    from sim import core

    root = os.path.join(os.environ["SIM_SCRATCH"], "w%d" % os.getpid())
    os.mkdir(root)
    out = os.fdopen(fd, "w")
    w = core.World(root)
    keep = req.get("trace")
    prop = req.get("prop") or (req["runs"] or [{}])[0].get("prop")
    if BATCH.get(prop) != 1:  # several runs share this process: let none depend on what the others saw first
        try:
            from pyflp._events import EventEnum

            for k in range(256):
                EventEnum(k)
        except Exception:
            pass

    if prop in ("C10", "C13", "C15"):
        w.addresses()

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    try:
        if "runs" in req:
            todo = [(None, r) for r in req["runs"]]
        else:
            todo = [(i, None) for i in range(*req["batch"])]
        for i, run in todo:
            if run is None:
                emit({"start": i})
                try:
                    run = make_run(req["prop"], req["seed"], i)
                except Exception:
                    emit({"r": {"i": i, "verdict": "error", "detail": "generator: " + traceback.format_exc()}})
                    continue
            else:
                emit({"start": -1})
            res = execute(w, run)
            res["i"] = i
            if not keep and res["verdict"] == "ok":
                res.pop("trace", None)
            if res["verdict"] != "ok" or keep:
                res["run"] = run
            emit({"r": res})
            if res["verdict"] in ("violation", "error") and "runs" not in req:
                break  # what follows in this process is not judged
        if w.addr is not None:
            w.stats["fault:address_reused"] += w.addr.reused
        emit({"end": {"stats": dict(w.stats), "probes": dict(w.probes), "states": [s.hex() for s in w.states]}})
    finally:
        w.disk.clear()
        os.rmdir(root)


def serve():
    sys.path.insert(0, HERE)
    from sim import api, core  # noqa: F401

    if not core.HAVE_SHIM:
        raise SystemExit("the simulated disk is not loaded")
    for m in sorted(set(MODULES.values())):
        importlib.import_module("sim.props." + m)
    gc.collect()
    inp = sys.stdin.buffer
    print(json.dumps({"ready": 1}), flush=True)
    while True:
        line = inp.readline()
        if not line:
            return
        req = json.loads(line)
        while True:
            r, wr = os.pipe()
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    os.close(r)
                    dn = os.open(os.devnull, os.O_RDWR)
                    for k in (0, 1):
                        os.dup2(dn, k)
                    signal.signal(signal.SIGINT, signal.default_int_handler)
                    child(req, wr)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wr)
            last = pump(r, pid, req.get("hang", HANG))
            os.close(r)
            if last is not None and "batch" in req and last + 1 < req["batch"][1]:
                req["batch"] = [last + 1, req["batch"][1]]  # go on after the run which hung
                continue
            break
        print(json.dumps({"done": 1}), flush=True)


def pump(fd, pid, hang):
    """forward a child's lines; a run that exceeds the limit is killed. Returns its index if so."""
    buf, cur, ended = b"", None, False
    while True:
        ok, _, _ = select.select([fd], [], [], hang)
        if not ok:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            print(json.dumps({"r": {"i": cur, "verdict": "hang", "detail": "no end within %d s" % hang}}), flush=True)
            return cur
        d = os.read(fd, 1 << 16)
        if not d:
            _, st = os.waitpid(pid, 0)
            if not ended:
                print(json.dumps({"r": {"i": cur, "verdict": "error", "detail": "the process of the run ended with status %d" % st}}), flush=True)
            return None
        buf += d
        *lines, buf = buf.split(b"\n")
        for ln in lines:
            o = json.loads(ln)
            if "start" in o:
                cur = o["start"]
                continue
            ended = ended or "end" in o
            sys.stdout.write(ln.decode() + "\n")
        sys.stdout.flush()


class Worker:
    def __init__(self, root):
        e = env()
        e["SIM_SCRATCH"] = root
        self.p = subprocess.Popen(cmd("serve"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)
        self.buf = b""
        self.job = None

    def send(self, req, job=None):
        self.job = job if job is not None else True
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()

    def lines(self):
        """what arrived (call when readable)"""
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            raise RuntimeError("worker ended with %r" % self.p.wait())
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in ls]

    def call(self, req):
        """synchronously; returns the results"""
        self.send(req)
        out = []
        while True:
            for o in self.lines():
                if "done" in o:
                    self.job = None
                    return out
                if "r" in o:
                    out.append(o["r"])

    def kill(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()


def fresh(runs, hang=HANG):
    """Execute runs, one after the other, in a fresh process."""
    root = os.environ.get("SIM_SCRATCH")
    own = None
    if root is None:
        root = own = scratch()
    w = Worker(root)
    try:
        return w.call({"runs": runs, "trace": 1, "hang": hang})
    finally:
        w.kill()
        if own:
            shutil.rmtree(own, ignore_errors=True)


# ---------------------------------------------------------------------------- minimising
def ddmin(items, test, deadline):
    n = 2
    while len(items) > 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        for k in range(0, len(items), size):
            if time.time() > deadline:
                return items
            c = items[:k] + items[k + size :]
            if test(c):
                items, n = c, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    if len(items) == 1 and test([]):
        items = []
    return items


def minimise(worker, runs, want, budget):
    """runs: prelude + failing run. Returns smaller runs with the same class of failure."""
    deadline = time.time() + budget

    def fails(rs):
        out = worker.call({"runs": rs, "hang": HANG})
        return bool(out) and len(out) == len(rs) and out[-1]["verdict"] == want["verdict"] and out[-1].get("cls") == want.get("cls")

    if not fails(runs):
        return None
    if len(runs) > 1:
        runs = [runs[-1]] if fails(runs[-1:]) else ddmin(runs[:-1], lambda p: fails(p + runs[-1:]), deadline) + runs[-1:]
    pre, run = runs[:-1], dict(runs[-1])
    run["steps"] = ddmin(run["steps"], lambda s: fails(pre + [dict(run, steps=s)]), deadline)
    if run.get("sched"):
        run["sched"] = ddmin(run["sched"], lambda s: bool(s) and fails(pre + [dict(run, sched=s)]), deadline)
    if run.get("hot"):
        seed, k, n = run["hot"]
        for i in range(n if n > 1 else 0):
            if time.time() < deadline and fails(pre + [dict(run, hot=[seed + i, k, 1])]):
                run["hot"] = [seed + i, k, 1]
                break
    # fewer faults per step, smaller project
    for k, st in enumerate(run["steps"]):
        for j, a in enumerate(st):
            if isinstance(a, list) and a and isinstance(a[0], list) and time.time() < deadline:
                def test(c, k=k, j=j):
                    s = [list(x) for x in run["steps"]]
                    s[k][j] = c
                    return fails(pre + [dict(run, steps=s)])

                a2 = ddmin(a, test, deadline)
                run["steps"] = [list(x) for x in run["steps"]]
                run["steps"][k][j] = a2
    return pre + [run]


# ---------------------------------------------------------------------------- check
def known_findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def check(prop, tier, seed, nruns=None):
    t0 = time.time()
    n = nruns or QUICK[prop] * FACTOR[tier]
    cap = CAP[tier]
    size = BATCH.get(prop, 25)
    batches = [[a, min(a + size, n)] for a in range(0, n, size)]
    root = scratch()
    nw = int(os.environ.get("VERIF_WORKERS") or os.cpu_count() or 4)
    agg = {"stats": collections.Counter(), "probes": collections.Counter(), "states": set(), "verdicts": collections.Counter(), "known": collections.Counter()}
    bad, errors, aborts, slow, samples, digests = [], [], [], 0.0, [], {}
    ws = []
    try:
        ws = [Worker(root) for _ in range(min(nw, len(batches)))]
        by = {w.p.stdout.fileno(): w for w in ws}
        for w in ws:
            w.job = "starting"
        nxt, stop = 0, False
        done_batches = 0
        again = [0] if len(batches) > 1 else []  # executed twice: same executions?
        while True:
            if time.time() - t0 > cap:
                stop = True
            if not any(w.job for w in ws) and (stop or nxt >= len(batches) and not again):
                break
            r, _, _ = select.select(list(by), [], [], 5)
            for fd in r:
                w = by[fd]
                for o in w.lines():
                    if "r" in o:
                        res = o["r"]
                        if w.job[0] == "again":
                            digests.setdefault(res["i"], []).append(res.get("digest"))
                            continue
                        if prop == "C18" and res["verdict"] == "hang":
                            res = dict(res, verdict="abort")  # it measures memory; a long measurement says nothing
                        agg["verdicts"][res["verdict"]] += 1
                        slow = max(slow, res.get("wall", 0))
                        if w.job[1][0] == 0:
                            digests.setdefault(res["i"], []).append(res.get("digest"))
                            if len(samples) < 3 and res.get("trace"):
                                samples.append({"run": res["i"], "verdict": res["verdict"], "trace": [t[:160] for t in res["trace"][:12]]})
                        if res["verdict"] in ("violation", "hang"):
                            bad.append((res, w.job[1][0]))
                            stop = True
                        elif res["verdict"] == "known":
                            agg["known"][res["key"]] += 1
                            if res["key"] not in listed(prop):
                                res = dict(res, verdict="violation", cls="known:" + res["key"])
                                bad.append((res, w.job[1][0]))
                                stop = True
                        elif res["verdict"] == "error":
                            errors.append(res)
                        elif res["verdict"] == "abort":
                            aborts.append(res)
                    elif "end" in o and w.job[0] != "again":
                        agg["stats"].update(o["end"]["stats"])
                        agg["probes"].update(o["end"]["probes"])
                        agg["states"].update(o["end"]["states"])
                    elif "done" in o or "ready" in o:
                        if "done" in o and w.job[0] != "again":
                            done_batches += 1
                        w.job = None
                if w.job is None and not stop:
                    if nxt < len(batches):
                        b = batches[nxt]
                        nxt += 1
                        w.send({"batch": b, "prop": prop, "seed": seed, "trace": b[0] == 0}, ("batch", b))
                    elif again:
                        again.pop()
                        b = batches[0]
                        w.send({"batch": b, "prop": prop, "seed": seed}, ("again", b))
        search_s = time.time() - t0
        findings = []
        for f in known_findings()["findings"]:
            if f["property"] == prop:
                out = fresh([dict(f["run"], prop=prop)])
                if out and out[-1]["verdict"] == "known" and out[-1]["key"] == f["key"]:
                    findings.append(f)
                elif out and out[-1]["verdict"] == "violation":
                    bad.append((dict(out[-1], i=-1), -1))
                else:
                    print("the finding %s does not show any more: %s" % (f["key"], out[-1]["verdict"] if out else None), file=sys.stderr)
        report = None
        if bad:
            bad.sort(key=lambda x: (x[0]["verdict"] == "hang", x[0]["i"]))
            for res, start in bad:
                report = investigate(prop, tier, seed, res, start, root)
                if report:
                    break
        evidence(prop, tier, seed, n, agg, errors, aborts, bad, report, slow, samples, digests, search_s, time.time() - t0, findings, done_batches, len(batches))
    finally:
        for w in ws:
            w.kill()
        shutil.rmtree(root, ignore_errors=True)
    v = agg["verdicts"]
    print("%s: %d runs (%s) in %.1f s, %d states, faults: %s" % (prop, sum(v.values()), ", ".join("%s %d" % x for x in sorted(v.items())), time.time() - t0, len(agg["states"]), {k[6:]: c for k, c in sorted(agg["stats"].items()) if k.startswith("fault:")}))
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if report:
        print("%s: %s" % (report["cls"], report["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, report["path"]))
        return 1
    if errors:
        print("harness errors: %d, first: %s" % (len(errors), errors[0]["detail"]), file=sys.stderr)
        if not v["ok"] and not v["abort"]:
            return 2
    return 0


def listed(prop):
    return {f["key"] for f in known_findings()["findings"] if f["property"] == prop}


def investigate(prop, tier, seed, res, start, root):
    """Confirm, minimise and write the replay file. None if it was not a violation after all (a slow machine)."""
    want = {"verdict": res["verdict"], "cls": res.get("cls")}
    unlisted = (want["cls"] or "").startswith("known:")
    if unlisted:
        want = {"verdict": "known"}
    if "run" not in res:
        res["run"] = make_here(prop, seed, res["i"], root)
    if want["verdict"] == "hang":
        out = fresh([res["run"]], hang=2 * HANG)
        if not out or out[-1]["verdict"] != "hang":
            return None
        runs = [res["run"]]
    else:
        w = Worker(root)
        try:
            w.call({"runs": []})
            runs = minimise(w, [res["run"]], want, 60)
            if runs is None and start >= 0:
                pre = [make_here(prop, seed, i, root) for i in range(start, res["i"])]
                runs = minimise(w, pre + [res["run"]], want, 90)
        finally:
            w.kill()
        if runs is None:
            runs = [res["run"]]
    out = fresh(runs, hang=2 * HANG)
    last = out[-1] if out else {"verdict": "none"}
    same = last["verdict"] == want["verdict"]
    final = last if same else res
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s_seed%s_run%s.json" % (prop, seed, res["i"]))
    rep = {"property": prop, "seed": seed, "run_index": res["i"], "verdict": want["verdict"], "cls": res.get("cls"), "detail": final.get("detail"), "reproduced": same,
           "digest": final.get("digest"), "runs": runs, "trace": final.get("trace")}
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return {"cls": res.get("cls") or want["verdict"], "detail": final.get("detail"), "path": path, "steps": len(runs[-1]["steps"]), "reproduced": same}


_gen = {}


def make_here(prop, seed, i, root):
    """generate a run (in a worker: generation needs the simulated library's version of things)"""
    e = env()
    e["SIM_SCRATCH"] = root
    o = subprocess.run(cmd("gen", prop, str(seed), str(i)), env=e, stdout=subprocess.PIPE, check=True).stdout
    return json.loads(o)


def evidence(prop, tier, seed, n, agg, errors, aborts, bad, report, slow, samples, digests, search_s, wall, findings, done, total):
    st = agg["stats"]
    v = agg["verdicts"]
    runs = sum(v.values())
    same = [i for i, d in digests.items() if len(d) == 2 and d[0] == d[1]]
    differ = [i for i, d in digests.items() if len(d) == 2 and d[0] != d[1]]
    from sim import describe

    d = describe.TEXT.get(prop, {})
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(agg["states"]),
        "rule": d.get("measure", "distinct digests of reached states"),
        "samples": samples,
        "runs_by_verdict": dict(v),
        "batches": [done, total],
        "runs_per_hour": int(runs / max(search_s, 0.001) * 3600),
        "seeds_per_hour": int(runs / max(search_s, 0.001) * 3600),
        "simulated_steps": st.get("steps", 0),
        "simulated_time": "the library has no clock: simulated time is counted in steps (%d operations, %d disk calls, %d scheduled lines)" % (st.get("steps", 0), st.get("io_calls", 0), st.get("lines", 0)),
        "faults_injected": {k[6:]: c for k, c in sorted(st.items()) if k.startswith("fault:")},
        "counters": {k: c for k, c in sorted(st.items()) if not k.startswith("fault:")},
        "properties_exercised": len(agg["probes"]),
        "real_components": d.get("real", "all of pyflp from /repo, construct, the interpreter's io stack, the kernel's file system below a scratch directory"),
        "stub_components": d.get("stub", "libc file calls below the scratch directory go through the fault-injecting shim"),
        "determinism": {"runs_executed_twice": len(same) + len(differ), "identical": len(same), "different": differ[:10]},
        "aborted_examples": [a["detail"][:200] for a in aborts[:3]],
        "harness_errors": [e["detail"][-400:] for e in errors[:3]],
        "slowest_run_s": round(slow, 2),
        "known_findings": [f["key"] for f in findings],
        "violation": {"replay": report["path"], "class": report["cls"], "detail": str(report["detail"])[:600], "reproduced": report["reproduced"]} if report else None,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
        "assumptions": d.get("assumptions", []) + describe.COMMON,
        "violations": 1 if report else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    out = fresh(rep["runs"], hang=2 * HANG)
    last = out[-1] if out else {"verdict": "none"}
    for t in last.get("trace") or []:
        print("  " + t)
    print("%s %s: %s" % (last["verdict"], last.get("cls", ""), last.get("detail", "")))
    if last["verdict"] == rep["verdict"]:
        print("reproduced%s" % (" exactly (digest %s)" % last["digest"] if last.get("digest") == rep.get("digest") else ""))
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 0


def selftest(props, seed):
    """Executes the same runs in different processes, with other neighbours: the digests have to agree."""
    root = scratch()
    bad = 0
    try:
        a, b = Worker(root), Worker(root)
        a.lines(), b.lines()
        for p in props:
            if BATCH.get(p) == 1:
                x = [r for k in range(12) for r in a.call({"batch": [k, k + 1], "prop": p, "seed": seed})]
                y = [r for k in range(11, 2, -1) for r in b.call({"batch": [k, k + 1], "prop": p, "seed": seed})]
            else:
                x = a.call({"batch": [0, 25], "prop": p, "seed": seed})
                y = b.call({"batch": [5, 10], "prop": p, "seed": seed}) + b.call({"batch": [13, 25], "prop": p, "seed": seed})
            dx = {r["i"]: r.get("digest") for r in x}
            d = [r["i"] for r in y if dx.get(r["i"]) != r.get("digest")]
            print(p, "%d of %d executions differ" % (len(d), len(y)), d)
            bad += len(d)
        a.kill(), b.kill()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k : k + 2]
    n = None
    if "--runs" in a:
        k = a.index("--runs")
        n = int(a[k + 1])
        del a[k : k + 2]
    if a[0] == "serve":
        serve()
    elif a[0] == "gen":
        sys.path.insert(0, HERE)
        from sim import api  # noqa: F401

        print(json.dumps(make_run(a[1], int(a[2]), int(a[3]))))
    elif a[0] == "check":
        sys.exit(check(a[1], tier, seed, n))
    elif a[0] == "replay":
        sys.exit(replay(a[1]))
    elif a[0] == "selftest":
        sys.exit(selftest(a[1:] or sorted(MODULES), seed))
    else:
        raise SystemExit(__doc__)


if __name__ == "__main__":
    main()
