"""Run one check: explore all harnesses of a property, replay, write evidence."""
from __future__ import annotations

import gc
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

_MOD = None
_FUNCS: set = set()


def _monitor():
    from . import rewrite

    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "symx")
    src = rewrite.SRC

    def start(code, off):
        if code.co_filename.startswith(src):
            _FUNCS.add(
                f"{os.path.relpath(code.co_filename, src)}:{code.co_qualname}"
            )
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def worker_init(prop):
    global _MOD
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)
    warnings.simplefilter("ignore")
    import resource

    lim = 6 * 2**30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    from . import rewrite

    rewrite.install()
    _monitor()
    _MOD = importlib.import_module(f"checks.{prop.lower()}")
    sys.setrecursionlimit(3000)
    gc.collect()
    gc.freeze()
    gc.disable()
    hook = getattr(_MOD, "unraisable", None)
    sys.unraisablehook = hook or (lambda *a: None)


def run_task(task):
    hname, params, prefix, slice_s, narrow = task
    if os.environ.get("SYMX_NONES"):
        params = {"nones": 1, **params}
    from .ctx import SymCtx, run_harness
    from .engine import Engine, Inconclusive, NeedNarrow

    h = next(h for h in _MOD.HARNESSES if h.name == hname)
    eng = Engine()
    eng.narrow = narrow
    eng.unbounded = set()
    eng.sample_cap = 6
    reset = getattr(_MOD, "reset", None)

    def body():
        eng.unbounded = set()
        if reset:
            reset()
        run_harness(h, SymCtx(eng), params)

    res = {"h": hname, "params": params, "error": None, "left": [], "narrow": narrow}
    t0 = time.perf_counter()
    try:
        res["left"] = eng.explore(body, prefix, slice_s)
        gc.collect()
    except NeedNarrow:
        if prefix:
            res["error"] = "narrowing needed inside a split task"
        else:
            return {"h": hname, "params": params, "renarrow": True}
    except Inconclusive as e:
        res["error"] = f"inconclusive: {e}"
    except BaseException as e:
        res["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    res.update(
        paths=eng.paths,
        aborted=eng.aborted_paths,
        decisions=eng.decisions,
        queries=eng.queries,
        solver_s=eng.solver_s,
        cc=eng.checks_concrete,
        cs=eng.checks_symbolic,
        covered=eng.covered,
        violations=eng.violations,
        known=eng.known_hits,
        samples=eng.model_paths,
        funcs=set(_FUNCS),
        wall=time.perf_counter() - t0,
        edges=eng.edges,
    )
    return res


def _worker(prop, inq, outq):
    try:
        worker_init(prop)
    except BaseException:
        outq.put((None, {"fatal": traceback.format_exc()}))
        return
    while True:
        item = inq.get()
        if item is None:
            return
        tid, task = item
        outq.put((tid, run_task(task)))


class Runner:
    def __init__(self, prop, tier, seed, jobs=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.jobs = jobs or min(8, os.cpu_count() or 1)
        self.t0 = time.time()
        self.budget = 600 if tier == "quick" else 3 * 3600
        self.incomplete = 0  # unexplored parts when the time was used up
        if os.environ.get("SYMX_BUDGET"):
            self.budget = float(os.environ["SYMX_BUDGET"])

    def info(self, *a):
        print(*a, flush=True)

    def load_meta(self):
        """Read the harness list in a subprocess-free way: through a worker-like import."""
        return None

    def run(self, only=None):
        ctx = mp.get_context("fork")
        # harness names/configs are needed in the parent: ask a forked child
        pr, pw = ctx.Pipe(False)

        def meta():
            try:
                worker_init(self.prop)
                pw.send(
                    {
                        "h": [
                            (h.name, h.config_list(self.tier), list(h.must_cover))
                            for h in _MOD.HARNESSES
                        ],
                        "bounds": getattr(_MOD, "BOUNDS", {}),
                        "assumptions": list(getattr(_MOD, "ASSUMPTIONS", [])),
                        "doc": (_MOD.__doc__ or "").strip(),
                    }
                )
            except BaseException:
                pw.send({"fatal": traceback.format_exc()})

        p = ctx.Process(target=meta)
        p.start()
        meta_info = pr.recv()
        p.join()
        if "fatal" in meta_info:
            self.info(meta_info["fatal"])
            self.info(f"ERROR property={self.prop}: harness could not be loaded")
            return 2
        self.meta = meta_info
        tasks = []
        for name, cfgs, _ in meta_info["h"]:
            if only and name not in only:
                continue
            for c in cfgs:
                tasks.append((name, c, [], 3.0, False))
        tasks.reverse()
        inq, outq = ctx.SimpleQueue(), ctx.SimpleQueue()
        procs = [
            ctx.Process(target=_worker, args=(self.prop, inq, outq), daemon=True)
            for _ in range(self.jobs)
        ]
        for q in procs:
            q.start()
        st = self.st = {
            "paths": 0, "aborted": 0, "decisions": 0, "queries": 0, "solver_s": 0.0,
            "cc": 0, "cs": 0, "edges": 0, "cpu": 0.0,
        }
        covered: dict = {}
        per_h: dict = {}
        funcs: set = set()
        samples: dict = {}
        known: dict = {}
        errors: list = []
        unreproduced: list = []
        violation = None
        narrowed = set()
        inflight = {}
        retries: dict = {}
        tid = 0
        rc = None
        try:
            while tasks or inflight:
                while tasks and len(inflight) < self.jobs + 2:
                    t = tasks.pop()
                    tid += 1
                    inflight[tid] = t
                    inq.put((tid, t))
                while outq.empty():
                    if time.time() - self.t0 > self.budget:
                        self.incomplete = len(tasks) + len(inflight)
                        break
                    if any(not q.is_alive() for q in procs):
                        errors.append("a worker died")
                        break
                    time.sleep(0.005)
                if (errors or self.incomplete) and outq.empty():
                    break
                i, r = outq.get()
                if i is None:
                    self.info(r["fatal"])
                    errors.append("worker failed to start")
                    break
                t = inflight.pop(i)
                if r.get("renarrow"):
                    narrowed.add(t[0])
                    tasks.append((t[0], t[1], [], t[3], True))
                    continue
                for k in ("paths", "aborted", "decisions", "queries", "solver_s",
                          "cc", "cs", "edges"):
                    st[k] += r[k]
                st["cpu"] += r["wall"]
                ph = per_h.setdefault(r["h"], {"paths": 0, "configs": set(), "wall": 0.0, "each": {}})
                ph["paths"] += r["paths"]
                ph["wall"] += r["wall"]
                cfg = json.dumps(r["params"], sort_keys=True, default=str)
                ph["configs"].add(cfg)
                each = ph["each"].setdefault(cfg, [0, 0.0])
                each[0] += r["paths"]
                each[1] += r["wall"]
                for k, n in r["covered"].items():
                    covered[(r["h"], k)] = covered.get((r["h"], k), 0) + n
                funcs |= r["funcs"]
                for kid, (label, asg) in r["known"].items():
                    known.setdefault(kid, (r["h"], r["params"], label, asg))
                sl = samples.setdefault(r["h"], [])
                for s in r["samples"]:
                    sl.append((r["params"], s))
                if r["error"] and "nondeterministic" in r["error"] and retries.get(
                    repr(t[:3]), 0
                ) < 2:
                    # (caches that were cold in the worker): once more
                    retries[repr(t[:3])] = retries.get(repr(t[:3]), 0) + 1
                    tasks.append(t)
                    r["error"] = None
                if r["error"]:
                    errors.append(f"{r['h']} {r['params']}: {r['error']}")
                    if len(errors) > 60:
                        break
                for pre in r["left"]:
                    tasks.append((t[0], t[1], pre, t[3], t[4]))
                for labels, asg in r["violations"]:
                    rec = {
                        "property": self.prop, "harness": r["h"], "params": r["params"],
                        "inputs": asg, "labels": labels,
                    }
                    ok, out, path = self.replay(rec)
                    if ok:
                        violation = (rec, path, out)
                        break
                    unreproduced.append((rec, out))
                if violation or len(unreproduced) >= 8:
                    break
        finally:
            for q in procs:
                q.terminate()
            for q in procs:
                q.join()
        self.per_h, self.covered, self.funcs = per_h, covered, funcs
        self.known, self.narrowed = known, narrowed
        validated, bad_sample = 0, None
        if not violation and not errors and not unreproduced:
            validated, bad_sample = self.validate(samples)
            if bad_sample:
                ok, out, path = self.replay(bad_sample)
                if ok:
                    violation = (bad_sample, path, out)
                else:
                    errors.append(f"sampled path differs on the plain code: {bad_sample}")
        self.validated = validated
        # vacuity
        if not violation and not errors and not unreproduced:
            for name, _c, must in meta_info["h"]:
                if only and name not in only:
                    continue
                if not self.incomplete and per_h.get(name, {}).get("paths", 0) == 0:
                    errors.append(f"vacuous: no feasible path in {name}")
                for m in must:
                    if not self.incomplete and not covered.get((name, m)):
                        errors.append(f"vacuous: {name} never reached {m!r}")
        self.sampleset = samples
        listed = self.known_findings()
        for kid, (h, params, label, asg) in sorted(known.items()):
            if kid not in listed:
                rec = {"property": self.prop, "harness": h, "params": params,
                       "inputs": asg, "labels": [label]}
                errors.append(f"known-finding id {kid} is not listed: {rec}")
            else:
                self.info(f"KNOWN-FINDING: property={self.prop} {listed[kid]}")
        self.evidence(violation, errors + [str(u[0]) for u in unreproduced])
        self.info(
            f"{self.prop} [{self.tier}] paths={st['paths']} queries={st['queries']} "
            f"solver={st['solver_s']:.1f}s cpu={st['cpu']:.1f}s "
            f"validated={validated} wall={time.time() - self.t0:.1f}s"
        )
        if self.incomplete:
            self.info(
                f"NOTE: the time budget of {self.budget:.0f} s was used up, "
                f"{self.incomplete} part(s) of the exploration are left out"
            )
        for name, ph in per_h.items():
            if os.environ.get("SYMX_VERBOSE"):
                for c, v in sorted(ph["each"].items(), key=lambda kv: -kv[1][1])[:40]:
                    self.info(f"      {v[1]:7.1f}s {v[0]:7d} {name} {c}")
            self.info(f"   {name}: paths={ph['paths']} configs={len(ph['configs'])} cpu={ph['wall']:.1f}s")
        if violation:
            rec, path, out = violation
            self.info(f"counterexample: {rec['harness']} {rec['params']} {rec['inputs']}")
            self.info("\n".join(out.strip().splitlines()[-12:]))
            self.info(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if unreproduced:
            for rec, out in unreproduced[:3]:
                self.info("counterexample that does not reproduce:", rec)
                self.info(out[-1500:])
        for e in errors[:6]:
            self.info("ERROR:", e)
        if errors or unreproduced:
            return 2
        self.info(f"OK property={self.prop}")
        return 0

    def replay(self, rec):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        import hashlib

        blob = json.dumps(rec, sort_keys=True, default=str)
        path = os.path.join(
            d, f"{self.prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json"
        )
        with open(path, "w") as f:
            f.write(blob)
        try:
            r = subprocess.run(
                [sys.executable, "-m", "symx.replay", path],
                cwd=ROOT, capture_output=True, text=True, timeout=120,
            )
        except subprocess.TimeoutExpired:
            return False, "replay timed out", path
        return r.returncode == 1, r.stdout + r.stderr[-3000:], path

    def validate(self, samples, per_harness=40):
        import random
        import tempfile

        rnd = random.Random(self.seed)
        recs = []
        for h, sl in samples.items():
            pick = sl if len(sl) <= per_harness else rnd.sample(sl, per_harness)
            for params, inputs in pick:
                recs.append({"harness": h, "params": params, "inputs": inputs,
                             "property": self.prop, "labels": ["sampled path"]})
        if not recs:
            return 0, None
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump({"property": self.prop, "records": recs}, f, default=str)
        try:
            r = subprocess.run(
                [sys.executable, "-m", "symx.replay", "--batch", f.name],
                cwd=ROOT, capture_output=True, text=True, timeout=300,
            )
        except subprocess.TimeoutExpired:
            return 0, recs[0]
        finally:
            os.unlink(f.name)
        line = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
        if not line:
            self.info(r.stdout[-2000:], r.stderr[-3000:])
            return 0, recs[0]
        out = json.loads(line[0][7:])
        for rec, o in zip(recs, out):
            if o["status"] == "failed":
                rec["labels"] = o["failed"]
                return 0, rec
        return sum(o["status"] == "ok" for o in out), None

    def known_findings(self):
        out = {}
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("known: ") and f"property={self.prop} " in line:
                    rest = line.split(f"property={self.prop} ", 1)[1]
                    kid, text = rest.split(" ", 1)
                    out[kid] = f"{kid} {text}"
        return out

    def evidence(self, violation, errors):
        st = self.st
        sm = []
        for h, sl in self.sampleset.items():
            if sl:
                sm.append({"harness": h, "config": sl[0][0], "path_model": sl[0][1]})
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": st["decisions"] + st["paths"],
                "transitions": st["edges"],
                "traces_validated_against_impl": self.validated,
                "samples": sm[:12] or [{"note": "no completed path"}],
                "exhaustive": not errors and not violation and not self.incomplete,
                "explanation": self.meta["doc"],
                "symbolic_paths": st["paths"],
                "infeasible_paths": st["aborted"],
                "solver_queries": st["queries"],
                "solver_s": round(st["solver_s"], 3),
                "assertions_folded": st["cc"],
                "assertions_to_solver": st["cs"],
                "functions_encoded": sorted(self.funcs),
                "bounds": self.meta["bounds"],
                "narrowed_harnesses": sorted(self.narrowed),
                "harnesses": {
                    k: {"paths": v["paths"], "configs": len(v["configs"])}
                    for k, v in self.per_h.items()
                },
                "labels_checked": sorted(
                    f"{h}: {l} x{n}" for (h, l), n in self.covered.items()
                ),
            },
            "assumptions": self.meta["assumptions"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": 1 if violation else 0,
        }
        if errors:
            ev["coverage"]["errors"] = errors[:10]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--only" in argv:
        only = argv[argv.index("--only") + 1].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return Runner(prop, tier, seed).run(only)
