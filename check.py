#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

  check.py ID               run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --setup          build everything once
  check.py --replay FILE    run a recorded counterexample natively
  check.py --dev ID...      run several checks in one go, reusing the build (development)

Exit 0: held on everything explored; 1: violation; anything else: error of the check.
See DESIGN.md.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from runs import CHECKS, CRATES

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
LIMIT = 820 if TIER == "quick" else 3 * 3600
HARNESS_FLAGS = "--emit=llvm-bc -Cno-vectorize-loops -Cno-vectorize-slp --cfg ginko_verif"


class Broken(Exception):
    """the check itself cannot give an answer"""


def cargo(cwd, target, rel, flags=""):
    env = dict(os.environ)
    env.update(CARGO_TARGET_DIR=os.path.join(BUILD, target), RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS=flags, CARGO_TERM_COLOR="never")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked"] + (["--release"] if rel else []), cwd=os.path.join(V, cwd), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken(f"build of {cwd} failed:\n{p.stderr[-6000:]}")


def build(crates):
    jobs = [("engine", "engine", True, "")]
    for c in crates:
        jobs.append((CRATES[c]["harness"], "h-" + c, True, HARNESS_FLAGS))
        jobs.append((CRATES[c]["replay"], "r-" + c, False, "--cfg ginko_verif"))
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(cargo, *j) for j in jobs]:
            f.result()


def bitcode(crate):
    return os.path.join(BUILD, "h-" + crate, "release", "deps", CRATES[crate]["lib"] + ".bc")


def symex(crate, entry, params, root, tier_opts, limit, grace=None):
    cmd = [os.path.join(BUILD, "engine", "release", "symex"), "--bc", bitcode(crate), "--entry", entry, "--threads", "8", "--time", str(limit), "--steps", str(tier_opts.get("steps", 40000000)), "--root", root, "--samples", str(tier_opts.get("samples", 6)), "--seed", str(SEED)]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    if grace:
        cmd += ["--grace", str(grace)]
    if tier_opts.get("z3all", True):
        cmd.append("--z3all")
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken(f"symex {entry} failed ({p.returncode}): {p.stderr[-3000:]}")
    return json.loads(p.stdout)


def native(crate, entry, params, model, root):
    """runs the entry natively on a model; returns the list of event lines"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    out = root + ".ev"
    exe = os.path.join(BUILD, "r-" + crate, "debug", CRATES[crate]["bin"])
    hexm = "".join("%02x" % b for _, bs in model for b in bs)
    try:
        subprocess.run([exe, out, root, entry, hexm] + [f"{k}={v}" for k, v in params.items()], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
    except subprocess.TimeoutExpired:
        ev = ["HANG"]
    else:
        ev = open(out, encoding="utf-8", errors="replace").read().split("\n")[:-1] if os.path.exists(out) else ["NOOUTPUT"]
    if os.path.exists(out):
        os.unlink(out)
    shutil.rmtree(root, ignore_errors=True)
    return ev


def crashed(ev):
    return not any(e.split(" ")[0] in ("END", "ASSUME", "UNDERRUN", "BADMODEL", "BADPATH", "NOOUTPUT") for e in ev)


def confirms(key, ev):
    """does the native run show the failure `key` the engine predicted?"""
    kind, msg = key.split(": ", 1)
    if kind == "check":
        return any(e == "FAIL " + msg.replace("\\", "\\\\").replace("\n", "\\n") for e in ev)
    if kind == "panic":
        return any(e.startswith("PANIC ") for e in ev)
    if kind == "budget":
        # it hangs, or it ends for lack of stack or memory
        return "HANG" in ev or crashed(ev)
    if kind == "stack":
        return crashed(ev)
    return False


def known(pid, entry, key, viol):
    for k in json.load(open(os.path.join(V, "known_findings.json")))["known"]:
        if k["property"] == pid and k["entry"] == entry and k["key"] == key:
            notes = dict((n, t) for n, t in viol["notes"])
            if all(notes.get(n) == t for n, t in k.get("notes", {}).items()):
                return k
    return None


def run_check(pid):
    t0 = time.time()
    spec = CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix="gv-")
    root = os.path.join(scratch, "r")
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], paths_completed=0, assumed_away=0, instructions=0, assertions_decided=0, z3_queries=0, z3_unsat=0, z3_sat=0, z3_seconds=0.0, domain_decisions=0, finite_domain_searches=0, crosschecked_with_z3=0, runs=[], functions_encoded={}, exhaustive=True)
    violations, knowns, errors = [], [], []
    try:
        for n, run in enumerate(spec["runs"][TIER] if TIER in spec["runs"] else spec["runs"]["quick"]):
            crate, entry, params = run.get("crate", "gh"), run["entry"], run.get("params", {})
            left = LIMIT - (time.time() - T0)
            if left < 20:
                errors.append(f"time is up before {entry} {params}")
                break
            # once something has failed, a quick check need not explore everything (unless it may be known)
            grace = 60 if TIER == "quick" and not any(k["property"] == pid for k in json.load(open(os.path.join(V, "known_findings.json")))["known"]) else None
            d = symex(crate, entry, params, root + "/w", run, left - 10, grace)
            label = entry + (" " + ",".join(f"{k}={v}" for k, v in params.items()) if params else "")
            cov["paths_completed"] += d["paths"]
            cov["assumed_away"] += d["assumed_away"]
            cov["states"] += d["paths"] + d["failed"]
            cov["transitions"] += d["forks"]
            cov["instructions"] += d["instructions"]
            cov["assertions_decided"] += d["checks"]
            cov["z3_queries"] += d["queries"]
            cov["z3_unsat"] += d["unsat"]
            cov["z3_sat"] += d["sat"]
            cov["z3_seconds"] = round(cov["z3_seconds"] + d["solver_seconds"], 3)
            cov["domain_decisions"] += d["domain_decisions"]
            cov["finite_domain_searches"] += d["finite_domain_searches"]
            cov["crosschecked_with_z3"] += d["crosschecked"]
            for f, k in d["functions"].items():
                if "ginko" in f or "3gls" in f or "4gcli" in f:
                    cov["functions_encoded"][f] = k
            cov["runs"].append({"entry": label, "crate": crate, "paths": d["paths"], "forks": d["forks"], "instructions": d["instructions"], "max_path_instructions": d["max_path_instructions"], "symbolic_bytes": d["max_symbolic_bytes"], "queries": d["queries"], "solver_seconds": d["solver_seconds"], "seconds": d["explore_seconds"], "reach": d["reach"], "complete": d["complete"], "z3": d["z3"]})
            print(f"  {label}: paths={d['paths']} assumed={d['assumed_away']} failed={d['failed']} checks={d['checks']} queries={d['queries']} solver={d['solver_seconds']:.1f}s explore={d['explore_seconds']:.1f}s load={d['load_seconds']:.1f}s reach={d['reach']}", flush=True)
            if d["crosscheck_bad"]:
                errors.append(f"{label}: {d['crosscheck_bad']} domain decisions contradicted by Z3")
            if d["timeout"] or d["pending"]:
                errors.append(f"{label}: not finished within the time limit ({d['pending']} states pending)")
            if d["unknown"]:
                errors.append(f"{label}: {d['unknown']} solver answers 'unknown'")
            for u in d["unsupported"]:
                errors.append(f"{label}: not encodable: {u['what']} ({u['count']} paths)")
            missing = [l for l in run.get("need", []) if not d["reach"].get(l)]
            # counterexamples
            for v in d["violations"]:
                done = False
                last = None
                fresh = []
                for x in v["examples"]:
                    kf = known(pid, entry, v["key"], x)
                    if kf:
                        if kf not in knowns:
                            knowns.append(kf)
                    else:
                        fresh.append(x)
                if not fresh:
                    continue
                for x in fresh[:4]:
                    ev = native(crate, entry, params, x["model"], root)
                    last = ev
                    if confirms(v["key"], ev):
                        violations.append({"property": pid, "crate": crate, "entry": entry, "params": params, "key": v["key"], "paths": v["count"], "model": x["model"], "notes": x["notes"], "stack": x["stack"], "native_events": ev})
                        done = True
                        break
                if not done:
                    errors.append(f"{label}: counterexample does not reproduce natively: {v['key']} {fresh[0]['model']} {last}")
            if missing and not d["violations"]:
                errors.append(f"{label}: vacuous, never reached {missing}")
            # sampled paths must behave natively as the encoding says
            for x in d["samples"]:
                ev = native(crate, entry, params, x["model"], root)
                want = x["msg"].split("|") if x["msg"] else []
                got = [e[6:] for e in ev if e.startswith("REACH ")]
                wn = [n + " " + t for n, t in x["notes"]]
                gn = [e[5:].replace("\\n", "\n").replace("\\\\", "\\") for e in ev if e.startswith("NOTE ")]
                bad = [e for e in ev if e.split(" ")[0] in ("PANIC", "HANG", "ASSUME", "UNDERRUN", "BADMODEL", "BADPATH", "NOOUTPUT")]
                if want != got or bad or (run.get("notes", True) and [a.replace("\\\\", "\\") for a in wn] != [a.replace("\\\\", "\\") for a in gn]):
                    errors.append(f"{label}: sampled path differs natively: model {x['model']} engine {want} {wn} native {ev}")
                else:
                    cov["traces_validated_against_impl"] += 1
            for x in d["samples"][:2]:
                cov["samples"].append({"entry": label, "model": " ".join(n + "=" + bytes(b).hex() for n, b in x["model"])[:400], "reach": x["msg"][:400], "notes": [list(t) for t in x["notes"]][:6]})
            if violations and TIER == "quick":
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov["exhaustive"] = not errors and not violations
    cov["bounds"] = spec["bounds"]
    cov["functions_encoded_count"] = len(cov["functions_encoded"])
    cov["instructions_encoded"] = sum(cov["functions_encoded"].values())
    cov["functions_encoded"] = sorted(cov["functions_encoded"])
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for i, v in enumerate(violations):
        p = os.path.join(EVID, "replay", f"{pid}-{i}.json")
        json.dump(v, open(p, "w"), indent=1)
        v["path"] = p
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assumptions", []) + ["rustc, LLVM, Z3 and the symbolic executor /verif/engine are trusted; sampled paths are re-run natively and must behave identically"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if errors:
        ev["coverage"]["errors"] = errors[:20]
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)
    for k in knowns:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in violations:
        print(f"  {v['entry']}: {v['key']} ({v['paths']} paths)")
        for n, t in v["notes"]:
            print(f"    {n}: {t!r}")
        print("    model: " + " ".join(n + "=" + repr(bytes(b))[1:] for n, b in v["model"]))
        print(f"VIOLATION property={pid} replay={v['path']}")
    for e in errors[:20]:
        print("ERROR", e[:2000], file=sys.stderr)
    if violations:
        return 1
    if errors:
        return 2
    print(f"{pid}: held on everything explored ({cov['states']} paths, {cov['assertions_decided']} assertions, {time.time() - t0:.0f} s)")
    return 0


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    try:
        if a[:1] == ["--setup"]:
            build(list(CRATES))
            print(f"built in {time.time() - T0:.0f} s")
            return 0
        if a[:1] == ["--replay"]:
            v = json.load(open(a[1]))
            build([v["crate"]])
            scratch = tempfile.mkdtemp(prefix="gv-")
            ev = native(v["crate"], v["entry"], v["params"], v["model"], os.path.join(scratch, "r"))
            shutil.rmtree(scratch, ignore_errors=True)
            print("\n".join(ev))
            ok = confirms(v["key"], ev)
            print(v["key"], "reproduced" if ok else "not reproduced")
            return 1 if ok else 0
        ids = a[1:] if a[:1] == ["--dev"] else a[:1]
        if ids == ["all"]:
            ids = list(CHECKS)
        crates = sorted({r.get("crate", "gh") for i in ids for t in CHECKS[i]["runs"].values() for r in t})
        build(crates)
        print(f"built in {time.time() - T0:.0f} s", flush=True)
        rc = 0
        for i in ids:
            r = run_check(i)
            rc = r if rc == 0 or r == 1 else rc
            if len(ids) > 1:
                print(f"{i}: exit {r}", flush=True)
        return rc
    except Broken as e:
        print("ERROR", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
