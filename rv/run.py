"""Entry: python -m rv.run <ID> [--tier quick|thorough] [--replay FILE]"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

from . import core
from .core import Monitor, REPO, VERIF


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    sys.setrecursionlimit(30000)
    for m in ("packaging.version", "html", "json", "random", "tempfile", "shutil", "copy", "fractions", "decimal"):
        importlib.import_module(m)

    if not sys.flags.isolated:
        sys.path.insert(0, REPO)
    import htmltools

    if os.path.dirname(os.path.abspath(htmltools.__file__)) != os.path.join(REPO, "htmltools"):
        print("harness error: imported %s, not %s" % (htmltools.__file__, REPO))
        return 2
    mod = importlib.import_module("rv.props." + a.id.lower())

    if a.replay:
        return replay(mod, a.replay)

    t0 = time.time()
    quick = a.tier == "quick"
    soft = getattr(mod, "SOFT", {}).get(a.tier, 240 if quick else 700)
    deadline = t0 + soft
    tmp = core.make_scratch()
    nw = core.NWORKERS
    outs, pids = [], []
    if hasattr(mod, "prepare"):
        mod.prepare(a.tier, seed)
    outdir = core.SCRATCH
    for w in range(nw):
        out = os.path.join(outdir, "w%d.json" % w)
        outs.append(out)
        pids.append(core.spawn(
            lambda w=w, out=out: core.worker(mod, a.tier, seed, w, nw, deadline, out), out))
    core.wait_all(pids, deadline + 60)
    res, missing = [], []
    for w, o in enumerate(outs):
        if os.path.exists(o):
            res.append((w, json.load(open(o))))
        else:
            missing.append(w)
    rc = finish(mod, a.tier, seed, res, missing, nw, tmp, outdir, t0)
    shutil.rmtree(tmp, ignore_errors=True)
    return rc


def finish(mod, tier, seed, res, missing, nw, tmp, outdir, t0):
    events, streams, sigs, samples, cov = {}, {}, set(), [], set()
    planned = done = 0
    for w, r in res:
        planned += r["planned"]
        done += r["done"]
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["streams"].items():
            streams[k] = streams.get(k, 0) + v
        sigs.update(r["sigs"])
        samples += r["samples"][:1]
        cov.update(tuple(x) for x in r["cov"])
    errs = [(w, r["err"]) for w, r in res if r["err"]]
    viols = [(w, r["viol"]) for w, r in res if r["viol"]]

    exe = core.executable_lines()
    files = getattr(mod, "COV_FILES", ["_core.py", "_util.py"])
    covsum = {f: {"executed": len([1 for g, l in cov if g == f and l in exe.get(f, ())]),
                  "executable_in_functions": len(exe.get(f, ()))} for f in files}
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "planned": planned,
            "distinct_nontrivial": len(sigs), "rule": mod.RULE,
            "samples": samples[:6] or ["(none)"],
            "monitor_events": dict(sorted(events.items())),
            "cases_per_stream": dict(sorted(streams.items())),
            "lines_of_code_under_test_executed": covsum,
            "truncated_workers": sum(1 for _, r in res if r.get("truncated")),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": 0.0, "violations": 0,
    }
    rc = 0
    known = []
    if viols:
        viols.sort(key=lambda x: len(json.dumps(x[1]["case"])))
        w, v = viols[0]
        case, msg, standalone = v["case"], v["msg"], False

        def repro():
            if hasattr(mod, "worker_init"):
                mod.worker_init(0)
            try:
                r = core.run_check(mod, case, Monitor())
                if not r:
                    return {"ok": False}
                c, m, n = core.shrink(mod, case, r[0], 10.0)
            finally:
                if hasattr(mod, "worker_exit"):
                    mod.worker_exit()
            return {"ok": True, "case": c, "msg": m or r[1]}

        r = core.in_child(repro, outdir, 120)
        if r and r["ok"]:
            case, msg, standalone = r["case"], r["msg"], True
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (mod.ID, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "tier": tier, "seed": seed, "worker": w,
                       "nworkers": nw, "k": v["k"], "stream": v["stream"],
                       "index": v["index"], "standalone": standalone,
                       "case": case, "original_case": v["case"],
                       "kind": v["kind"], "message": msg}, f, indent=1)
        ev["violations"] = len(viols)
        print("--- %s violated: %s" % (mod.ID, v["kind"]))
        print(msg[:3000])
        print("case: " + json.dumps(case)[:3000])
        if not standalone:
            print("(needs the preceding history of the worker; the replay re-runs it)")
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        rc = 1
    elif errs:
        print("harness error in worker %d:\n%s" % errs[0])
        rc = 2
    elif missing:
        print("inconclusive: workers %s gave no result" % missing)
        rc = 2
    else:
        need = getattr(mod, "MIN_EVENTS", {})
        short = {k: (events.get(k, 0), n) for k, n in need.items() if events.get(k, 0) < n}
        if short or done < 0.1 * planned:
            print("inconclusive: too little observed: %s, cases %d of %d" % (short, done, planned))
            rc = 2
        else:
            print("%s held on %d executions (%d distinct non-trivial); events: %s" % (
                mod.ID, done, len(sigs), json.dumps(dict(sorted(events.items())))))
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


def replay(mod, path):
    d = json.load(open(path))
    tmp = core.make_scratch()
    if hasattr(mod, "prepare"):
        mod.prepare(d["tier"], d["seed"])
    try:
        if d["standalone"]:
            def one():
                if hasattr(mod, "worker_init"):
                    mod.worker_init(0)
                try:
                    r = core.run_check(mod, d["case"], Monitor())
                finally:
                    if hasattr(mod, "worker_exit"):
                        mod.worker_exit()
                return {"r": r}
            x = core.in_child(one, core.SCRATCH, 600, not getattr(mod, "KEEP_ROOT", False))
            if x is None:
                print("harness error: no result")
                return 2
            r = x["r"]
            if r:
                print(r[1])
        else:
            out = os.path.join(core.SCRATCH, "o.json")
            pid = core.spawn(lambda: core.worker(
                mod, d["tier"], d["seed"], d["worker"], d["nworkers"],
                time.time() + 3600, out, upto=d["k"]), out)
            core.wait_all([pid], time.time() + 3700)
            x = json.load(open(out)) if os.path.exists(out) else {"viol": None, "err": "no result"}
            if x["err"]:
                print(x["err"])
                return 2
            r = x["viol"]
            if r:
                print(r["msg"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r:
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    print("the recorded execution did not violate %s" % mod.ID)
    return 0


if __name__ == "__main__":
    sys.exit(main())
