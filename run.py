#!/usr/bin/env python3
"""Runs the solver-based check of one property: run.py PROPERTY [--tier quick|thorough]

Rebuilds the LLVM IR of the crate in /repo (current working tree) together with
the scenarios in harness/, explores every scenario of the property with the
symbolic executor in engine/, replays what it finds against the natively built
crate, and writes evidence/<property>.json.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
REPO = os.environ.get("VERIF_REPO_FOR_DEV", "/repo")
sys.path.insert(0, HERE)
from scenarios import PROPERTIES  # noqa: E402

T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTUP_AUTO_INSTALL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)


def log(*a):
    print(*a, flush=True)


def files_under(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "test_data"))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def cargo(args, cwd, target, extra=None):
    env = dict(ENV, CARGO_TARGET_DIR=target, **(extra or {}))
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        log("BUILD-FAILED: cargo", " ".join(args), "in", cwd)
        sys.exit(3)


def sweep(prefix, keep):
    for d in os.listdir(WORK):
        if d.startswith(prefix) and d != keep:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)


def build(want_replay=True):
    """Builds into directories named by a digest of the sources, so that a
    stale build can never be used."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        eh = "engine-" + digest(files_under(os.path.join(HERE, "engine"), (".rs", ".toml", ".lock")))
        ed = os.path.join(WORK, eh)
        symex = os.path.join(ed, "release", "symex")
        rh = "crate-" + digest(
            files_under(os.path.join(HERE, "harness"), (".rs", ".toml", ".lock"))
            + [p for p in files_under(REPO, (".rs", ".toml", ".lock"))])
        rd = os.path.join(WORK, rh)
        ll = os.path.join(rd, "ir", "release", "deps", "fsharness.ll")
        rep = [os.path.join(rd, "native", p, "replay") for p in ("debug", "release")]
        jobs = []
        if not os.path.exists(os.path.join(ed, "ok")):
            sweep("engine-", eh)
            jobs.append((["build", "--release", "--offline", "--locked"], os.path.join(HERE, "engine"), ed, {}, ed))
        if not os.path.exists(os.path.join(rd, "ok")):
            sweep("crate-", rh)
            jobs.append((["rustc", "--offline", "--locked", "--release", "--", "--emit=llvm-ir"],
                         os.path.join(HERE, "harness"), os.path.join(rd, "ir"),
                         {"RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp"}, None))
            rp = os.path.join(HERE, "harness", "replay")
            nd = os.path.join(rd, "native")
            jobs.append((["build", "--offline", "--locked"], rp, nd, {}, None))
            jobs.append((["build", "--offline", "--locked", "--release"], rp, nd + "-r", {}, None))
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda j: cargo(j[0], j[1], j[2], j[3]), jobs))
        if os.path.isdir(os.path.join(rd, "native-r", "release")) and not os.path.isdir(os.path.join(rd, "native", "release")):
            os.rename(os.path.join(rd, "native-r", "release"), os.path.join(rd, "native", "release"))
        for d in (ed, rd):
            with open(os.path.join(d, "ok"), "w"):
                pass
        return symex, ll, rep


PROCS = set()
PLOCK = threading.Lock()


def limits():
    os.setsid()
    m = 9 << 30
    resource.setrlimit(resource.RLIMIT_AS, (m, m))
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))


def run_proc(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits,
                         stdin=subprocess.DEVNULL)
    with PLOCK:
        PROCS.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return p.returncode, out.decode(errors="replace"), True
    finally:
        with PLOCK:
            PROCS.discard(p)


def native(rep, entry, params, model, max_alloc, timeout=30):
    """Runs the natively built crate on one concrete assignment."""
    rc, out, hung = run_proc([rep, entry, ",".join(map(str, params)), model, str(max_alloc)], timeout)
    lines = out.splitlines()
    notes = [tuple(map(int, x.split()[1:3])) for x in lines if x.startswith("NOTE ")]
    last = next((x for x in reversed(lines) if x.startswith(("ASSERT", "PANIC", "ASSUME-FALSE", "DONE", "KILLED", "memory allocation"))), "")
    if hung:
        what = "hang"
    elif rc == 42:
        what = "assert"
    elif rc == 43:
        what = "panic"
    elif rc == 77:
        what = "assume-false"
    elif rc == 0:
        what = "ok"
    elif rc < 0:
        what = "signal %d" % -rc
    else:
        what = "exit %d" % rc
    return {"result": what, "line": last[:400], "notes": notes}


def violates(r):
    return r["result"] in ("hang", "assert", "panic") or r["result"].startswith("signal") or r["result"] == "exit 101"


def load_known():
    """known_findings.txt: `known: property=C11 entry=h_x assert=12 what ...`"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) params=(\S*) assert=(\d+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier == "quick"
    symex, ll, reps = build()
    t_build = time.time() - T0
    scen = [s for s in PROPERTIES[prop]["scenarios"] if (quick and s.get("tier") != "thorough") or not quick]
    if only:
        scen = [s for s in scen if s["entry"] == only]
    # Total time for exploration; the scenarios share 8 processes.
    total = 620 if quick else 5400
    deadline = T0 + t_build + total
    outdir = os.path.join(WORK, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    stop = threading.Event()
    results = [None] * len(scen)

    def explore(i):
        s = scen[i]
        if stop.is_set():
            return
        left = deadline - time.time()
        secs = min(s.get("secs", 300) * (1 if quick else 8), left)
        if secs <= 1:
            results[i] = {"skipped": True}
            return
        o = os.path.join(outdir, "%d.json" % i)
        cmd = [symex, "--ll", ll, "--entry", s["entry"], "--out", o,
               "--params", ",".join(map(str, s["params"])), "--max-secs", str(int(secs))]
        for k, v in s.get("opts", {}).items():
            cmd += ["--" + k, str(v)]
        rc, out, cut = run_proc(cmd, secs + 20)
        r = {"rc": rc, "cut": cut, "skipped": False}
        if os.path.exists(o):
            try:
                r["d"] = json.load(open(o))
            except ValueError:
                pass
        if "d" not in r and not cut:
            r["crash"] = out[-2000:]
        results[i] = r
        if r.get("d", {}).get("findings"):
            pass

    order = sorted(range(len(scen)), key=lambda i: -scen[i].get("cost", 1))
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        list(ex.map(explore, order))

    known = load_known()
    rdir = os.path.join(HERE, "evidence", "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    violations, known_seen, problems = [], [], []
    cov_scen, funcs, samples = [], {}, []
    tot = {"paths": 0, "forks": 0, "instructions": 0, "obligations": 0, "discharged": 0, "queries": 0,
           "sat": 0, "unsat": 0, "unknown": 0, "solver_s": 0.0, "linear_elim": 0, "model_hits": 0}
    traces = 0
    incomplete = []
    for i, s in enumerate(scen):
        r = results[i]
        tag = "%s(%s)" % (s["entry"], ",".join(map(str, s["params"])))
        max_alloc = s.get("opts", {}).get("max-alloc", 64 << 20)
        if r is None or r.get("skipped"):
            incomplete.append(tag + ": not started within the time of this tier")
            continue
        if "crash" in r:
            incomplete.append(tag + ": engine failed: " + r["crash"][-300:])
            log("ENGINE-FAILED", tag, r["crash"][-1500:])
            continue
        if "d" not in r:
            incomplete.append(tag + ": stopped by the time limit inside one query")
            continue
        d = r["d"]
        for k in ("paths", "forks", "instructions", "obligations", "discharged"):
            tot[k] += d[k]
        sv = d["solver"]
        for k in ("queries", "sat", "unsat", "unknown", "linear_elim", "model_hits"):
            tot[k] += sv.get(k, 0)
        tot["solver_s"] += sv["time_s"]
        for f in d["functions"]:
            if "ext4_view" in f[0]:
                funcs[f[0]] = f[2]
        why = list(d["incomplete"]) + ["unsupported: " + str(e) for e in d["errors"]]
        if why:
            incomplete.append(tag + ": " + "; ".join(map(str, why))[:400])
            log("INCOMPLETE", tag, "; ".join(map(str, why))[:300])
        # Vacuity: markers which some feasible path has to reach.
        if not why and not d["findings"]:
            missing = [m for m in s.get("reach", [0]) if not (d["reached"] >> m) & 1]
            if missing:
                problems.append(tag + ": markers not reached: %s" % missing)
        for f in d["findings"]:
            n = [native(rp, s["entry"], s["params"], f["model"], max_alloc) for rp in reps]
            kf = next((k for k in known if k[0] == prop and k[1] == s["entry"] and k[2] == ",".join(map(str, s["params"]))
                       and f["kind"] == "assert" and int(k[3]) == f["id"]), None)
            rec = {"property": prop, "scenario": s["entry"], "params": s["params"], "claim": s.get("what", ""),
                   "kind": f["kind"], "assert": f["id"], "message": f["msg"], "stack": f["stack"],
                   "model_hex": f["model"], "max_alloc": max_alloc,
                   "native": [{"build": b, **x} for b, x in zip(("debug", "release"), n)],
                   "command": "%s %s '%s' %s %s" % (reps[0], s["entry"], ",".join(map(str, s["params"])), f["model"], max_alloc)}
            if any(violates(x) for x in n):
                if kf:
                    known_seen.append(kf)
                else:
                    os.makedirs(rdir, exist_ok=True)
                    p = os.path.join(rdir, "%s-%d.json" % (s["entry"], len(violations)))
                    with open(p, "w") as fh:
                        json.dump(rec, fh, indent=1)
                    violations.append((tag, rec, p))
            elif f["kind"] == "hang":
                # Merely long: the scenario decides nothing.
                incomplete.append(tag + ": a path exceeds the step limit")
                why.append("step limit")
            else:
                problems.append("%s: finding (%s %s %s) not reproduced natively: %s" % (tag, f["kind"], f["id"], f["msg"][:200], [x["result"] for x in n]))
        # Translation validation of the engine: complete paths re-run natively.
        ok = 0
        for smp in d["samples"][:4]:
            x = native(reps[traces & 1], s["entry"], s["params"], smp["model"], max_alloc)
            en = [tuple(v) for v in smp["notes"]]
            if x["result"] == "ok" and x["notes"] == en:
                ok += 1
                traces += 1
                if len(samples) < 12:
                    m = smp["model"]
                    samples.append({"scenario": tag, "input_hex": m if len(m) <= 160 else m[:160] + "...", "input_bytes": len(m) // 2,
                                    "observed": en[:8], "native": "agrees"})
            else:
                problems.append("%s: engine and native run disagree: %s %s, engine %s, native %s" % (tag, x["result"], x["line"], en[:6], x["notes"][:6]))
        cov_scen.append({"scenario": tag, "claim": s.get("what", ""), "bounds": s.get("bounds", ""), "paths": d["paths"],
                         "symbolic_bytes": d["max_symbolic_bytes"], "instructions": d["instructions"],
                         "max_path_instructions": d["max_path_steps"], "obligations": d["obligations"],
                         "discharged": d["discharged"], "symbolic_obligations": d["asserts_symbolic"],
                         "queries": sv["queries"], "unsat": sv["unsat"], "solver_s": round(sv["time_s"], 3),
                         "wall_s": round(d["wall_s"], 3), "complete": not why, "native_traces": ok})
    for k in known_seen:
        log("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    P = PROPERTIES[prop]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["forks"],
            "traces_validated_against_impl": traces,
            "samples": samples,
            "states_are": "complete symbolic execution paths (each stands for all inputs satisfying its path condition)",
            "transitions_are": "solver-decided two-way branch splits",
            "instructions_executed_symbolically": tot["instructions"],
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
            "answered_by_earlier_model": tot["model_hits"], "solver_s": round(tot["solver_s"], 2),
            "checksum_constraints_eliminated": tot["linear_elim"],
            "solver": "Z3 via libz3",
            "functions_encoded": len(funcs),
            "functions": sorted(funcs)[:400],
            "scenarios": cov_scen,
            "incomplete": incomplete,
            "exhaustive": not incomplete,
            "outside_the_bounds": P.get("outside", ""),
            "build_s": round(t_build, 1),
        },
        "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    log("%s %s: %d scenarios, %d paths, %d obligations, %d queries, solver %.1f s, wall %.1f s (build %.1f s), %d native traces, %d incomplete"
        % (prop, tier, len(scen), tot["paths"], tot["obligations"], tot["queries"], tot["solver_s"], time.time() - T0, t_build, traces, len(incomplete)))
    if "-v" in sys.argv:
        for c in cov_scen:
            log("  %-46s paths %6d obl %6d q %6d solver %7.1f wall %7.1f %s" % (c["scenario"], c["paths"], c["obligations"], c["queries"], c["solver_s"], c["wall_s"], "" if c["complete"] else "INCOMPLETE"))
    for p in problems:
        log("PROBLEM", p)
    for tag, rec, p in violations:
        log("  %s: %s assert=%s %s" % (tag, rec["kind"], rec["assert"], rec["message"][:200]))
        log("VIOLATION property=%s replay=%s" % (prop, p))
    if violations:
        return 1
    if not any(c["complete"] for c in cov_scen):
        problems.append("nothing explored completely")
    return 2 if problems else 0


COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc emits for the crate (release, overflow checks on, LTO) and the executor's semantics of it; sampled complete paths are re-run natively on every run",
    "answers of Z3 (sat answers are replayed natively; unsat answers are trusted)",
    "the reference computations and image builder in /verif/harness follow the on-disk format documentation",
]

if __name__ == "__main__":
    try:
        rc = main()
    finally:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    sys.exit(rc)
