"""python -m vp.main <property> --tier quick|thorough : run one check.

The parent process lists the check's units and runs each one (possibly split
into shards of its exploration tree) in its own child process, then merges the
children's statistics into the evidence file.
"""

from __future__ import annotations

import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from . import boot
from . import sym

MERGE_SUM = ("queries", "solver_s", "paths", "branches", "checks", "unsat", "replays")


def known_findings(pid):
    path = os.path.join(boot.ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out.append((key.removeprefix("key="), text))
    return out


def load(pid):
    name = [f for f in os.listdir(os.path.join(boot.ROOT, "checks")) if f.startswith(pid + "_") or f == pid + ".py"]
    if len(name) != 1:
        raise SystemExit(f"no check for {pid}")
    return importlib.import_module("checks." + name[0][:-3])


# --------------------------------------------------------------------------
# child: one unit (one shard)
# --------------------------------------------------------------------------


def child(pid, tier, unit, shard, out):
    sys.setrecursionlimit(20000)
    sym.SHARD = shard
    sym.KNOWN = {k for k, _ in known_findings(pid)}
    res = {"rc": 0, "note": "ok"}
    t0 = time.time()
    try:
        mod = load(pid)
        if not getattr(mod, "NO_MPLANG", False):
            boot.load_mplang()
        fn = [u[1] for u in mod.units(tier) if u[0] == unit][0]
        fn()
    except sym.Violation as v:
        res = {"rc": 1, "note": str(v), "v": sym.jsonable({"property": pid, "unit": v.unit, "label": v.label, "message": v.message,
                                                          "inputs": v.model, "observed": v.replayed})}
    except sym.Inconclusive as e:
        res = {"rc": 3, "note": f"inconclusive: {e}"}
    except BaseException as e:  # noqa: BLE001
        traceback.print_exc()
        res = {"rc": 3, "note": f"error: {type(e).__name__}: {e}"}
    s = sym.STATS
    res["stats"] = sym.jsonable({**{k: getattr(s, k) for k in MERGE_SUM}, "functions": sorted(s.functions), "bounds": s.bounds, "samples": s.samples,
                                 "labels": s.labels, "units": s.units, "extra": s.extra, "expect": s.expect, "unencodable": s.unencodable})
    res["wall"] = time.time() - t0
    res["hits"] = sorted(sym.HITS)
    with open(out, "w") as f:
        json.dump(res, f)
    return 0


# --------------------------------------------------------------------------
# parent
# --------------------------------------------------------------------------


def write_evidence(pid, tier, level, wall, violations, note, mod, agg):
    cov = {
        "states": agg["paths"],
        "transitions": agg["branches"] + agg["checks"],
        "traces_validated_against_impl": agg["replays"],
        "samples": agg["samples"][:12] or [{"note": "no path completed"}],
        "explanation": (mod.__doc__ or "").strip(),
        "meaning": "states = complete symbolic paths (each stands for every input satisfying its path condition); "
        "transitions = branch points decided + assertions; traces_validated_against_impl = path models / "
        "counterexamples re-executed on the real code with plain values",
        "functions_encoded": sorted(agg["functions"]),
        "bounds": sorted(agg["bounds"]),
        "queries": agg["queries"],
        "assertions": agg["checks"],
        "assertions_discharged": agg["unsat"],
        "solver_time_s": round(agg["solver_s"], 3),
        "units": agg["units"],
        "labels_reached": agg["labels"],
        "unencodable_paths": agg["unencodable"][:20],
        "result": note,
    }
    cov.update(agg["extra"])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": level,
        "coverage": cov,
        "assumptions": [x] if isinstance(x := getattr(mod, "ASSUMPTIONS", []), str) else list(x),
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    d = os.path.join(boot.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def save_replay(pid, v):
    d = os.path.join(boot.ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--unit", default=None, help="only units whose name contains this")
    ap.add_argument("--child", default=None)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--out", default=None)
    a = ap.parse_args()
    if a.child is not None:
        k, n = a.shard.split("/")
        return child(a.pid, a.tier, a.child, (int(k), int(n)), a.out)
    t0 = time.time()
    mod = load(a.pid)
    jobs = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)
    todo = []
    for u in mod.units(a.tier):
        name, shards = u[0], (u[2] if len(u) > 2 else 1)
        if a.unit and a.unit not in name:
            continue
        todo += [(name, k, shards, 0) for k in range(shards)]
    agg = {k: 0 for k in MERGE_SUM}
    agg.update(functions=set(), bounds=set(), samples=[], labels={}, units=[], extra={}, unencodable=[])
    expect: dict[str, dict] = {}
    known = known_findings(a.pid)
    hit, errors, viol = set(), [], None
    running = []

    def stop(signum, frame):  # the children are in sessions of their own: end them with us
        for q, *_ in running:
            try:
                os.killpg(q.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os._exit(3)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    outdir = boot.SCRATCH
    n = 0
    while (todo or running) and viol is None:
        while todo and len(running) < jobs:
            name, k, K, tries = todo.pop(0)
            n += 1
            out = os.path.join(outdir, f"unit{n}.json")
            log = open(os.path.join(outdir, f"unit{n}.log"), "w")
            sub = os.path.join(outdir, f"u{n}")
            os.makedirs(sub, exist_ok=True)
            env = dict(os.environ, VP_SCRATCH=sub, MPLANG_DATA_ROOT=sub + "/data")
            p = subprocess.Popen(
                [sys.executable, "-B", "-m", "vp.main", a.pid, "--tier", a.tier, "--child", name, "--shard", f"{k}/{K}", "--out", out],
                stdout=log, stderr=log, cwd=sub, env=env, start_new_session=True)
            running.append((p, name, k, K, out, log.name, time.time(), tries))
        time.sleep(0.02)
        for item in list(running):
            p, name, k, K, out, log, ts, tries = item
            if p.poll() is None:
                continue
            running.remove(item)
            try:
                r = json.load(open(out))
            except Exception:  # noqa: BLE001
                if p.returncode < 0 and tries < 1:  # killed by a signal: nothing was decided, run it again
                    print(f"[{a.pid}] {name}[{k + 1}/{K}]: died (rc {p.returncode}), run again", flush=True)
                    todo.append((name, k, K, tries + 1))
                    continue
                r = {"rc": 3, "note": f"error: unit {name} died (rc {p.returncode})", "stats": None}
            tag = name if K == 1 else f"{name}[{k + 1}/{K}]"
            st = r["stats"]
            if st:
                for key in MERGE_SUM:
                    agg[key] += st[key]
                agg["functions"].update(st["functions"])
                agg["bounds"].update(st["bounds"])
                agg["samples"] += st["samples"]
                agg["extra"].update(st["extra"])
                agg["unencodable"] += st["unencodable"]
                for key, v in st["labels"].items():
                    agg["labels"][key] = agg["labels"].get(key, 0) + v
                for uu in st["units"]:
                    if K > 1:
                        uu["shard"] = f"{k + 1}/{K}"
                    agg["units"].append(uu)
                for e in st["expect"]:
                    d = expect.setdefault(e["unit"], {"expect": set(), "seen": set(), "paths": 0, "found": 0})
                    d["expect"].update(e["expect"])
                    d["seen"].update(e["seen"])
                    d["paths"] += e["paths"]
                    d["found"] += e["found"]
            hit.update(r.get("hits", ()))
            print(f"[{a.pid}] {tag}: {r['note'][:300] if r['rc'] else 'ok'} ({time.time() - ts:.1f}s)", flush=True)
            if r["rc"] == 1:
                v = r["v"]
                viol = v
                break
            elif r["rc"]:
                errors.append(f"{tag}: {r['note']}")
                sys.stdout.write(open(log).read()[-3000:])
    for p, *_ in running:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    if viol is None and not errors:
        for unit, d in expect.items():
            miss = d["expect"] - d["seen"]
            if (miss or d["paths"] == 0) and not d["found"] and not any(h.startswith(unit + "/") for h in hit):
                if agg["paths"] and any(u.startswith(unit + ": ") for u in agg["unencodable"]):
                    print(f"NOTE unit {unit}: not encodable on this tree (nothing decided); the other units were")
                    continue
                errors.append(f"{unit}: vacuous, never reached {sorted(miss) or 'a complete path'}")
    rc, note = 0, "held on everything explored"
    if viol is not None:
        rc, note = 1, f"violated: {viol['unit']}: {viol['label']}: {viol['message']}"
        path = save_replay(a.pid, viol)
        print(f"unit {viol['unit']}: {viol['label']}: {viol['message']}")
        print("inputs:", sym.short(viol["inputs"], 2000))
        print(f"VIOLATION property={a.pid} replay={path}")
    elif errors:
        rc, note = 3, "inconclusive: " + "; ".join(errors)
        print("INCONCLUSIVE", note)
    else:
        for key, text in known:
            if key in hit:
                print(f"KNOWN-FINDING: property={a.pid} {text}")
    if agg["unencodable"]:
        print(f"NOTE {len(agg['unencodable'])} path(s) not encodable; first: {agg['unencodable'][0]}")
    wall = time.time() - t0
    agg["extra"].setdefault("known_findings_seen", sorted(hit))
    write_evidence(a.pid, a.tier, getattr(mod, "LEVEL", "model_checking"), wall, 1 if viol else 0, note, mod, agg)
    print(
        f"[{a.pid}] {a.tier}: rc={rc} paths={agg['paths']} queries={agg['queries']} assertions={agg['checks']} "
        f"solver={agg['solver_s']:.1f}s replays={agg['replays']} wall={wall:.1f}s"
    )
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
