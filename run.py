#!/usr/bin/env python3
"""Runs one check:  run.py <PROPERTY> [quick|thorough]
Replay one case:    run.py <PROPERTY> --replay <job> <config> <case>

Builds the harnesses of a property from /repo's working tree (nothing is cached between runs), explores every case
within the bound, replays each violation found in a fresh process before reporting it, writes evidence/<PROPERTY>.json.
"""
import json, os, re, shutil, subprocess, sys, time, hashlib, shlex
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import PROPS, JOBS            # noqa: E402
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = {  # library sources a harness may ask for
    "dofmap": ["anifem++/fem/tetdofmap.cpp"],
    "space": ["anifem++/fem/tetdofmap.cpp", "anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"],
    "quad": ["anifem++/fem/quadrature_formulas.cpp"],
    "autodiff": ["anifem++/autodiff/autodiff.cpp"],
    "interval": ["anifem++/interval/interval.cpp"],
    "inmost": ["anifem++/inmost_interface/elemental_assembler.cpp", "anifem++/inmost_interface/global_enumerator.cpp"],
    "spaceonly": ["anifem++/fem/fem_space.cpp", "anifem++/fem/quadrature_formulas.cpp"],
    "utils": ["anifem++/utils/utils.cpp", "anifem++/utils/mesh_utils.cpp", "anifem++/utils/adapt_mesh.cpp"],
    "kinsol": ["anifem++/kinsol_interface/SUNNonlinearSolver.cpp"],
}
NCPU = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def cflags(job, cfg):
    f = ["-std=" + job.get("std", "gnu++14"), job.get("opt", "-O1"), "-g1", "-w", "-I" + REPO, "-I" + os.path.join(HERE, "harness")]
    if cfg.startswith("eigen"):
        f += ["-DWITH_EIGEN", "-isystem", "/usr/include/eigen3"]
    if "asan" in cfg:
        f += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if "ubsan" in cfg:
        f += ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]
    if "tsan" in cfg:
        f += ["-fsanitize=thread"]
    f += job.get("flags", [])
    return f


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(bdir, jobs):
    """compile all (job, config) pairs; returns {(job,cfg): exe} or exits 2"""
    objs, exes, cmds = {}, {}, []
    for jn, cfg in jobs:
        job = JOBS[jn]
        fl = cflags(job, cfg)
        tag = hashlib.md5(" ".join(fl).encode()).hexdigest()[:8]
        need = []
        units = [os.path.join(REPO, s) for g in job.get("libs", []) for s in SRC[g]]
        units = list(dict.fromkeys(units))
        for u in units:
            key = (u, tag)
            if key not in objs:
                o = os.path.join(bdir, os.path.basename(u) + "." + tag + ".o")
                objs[key] = o
                cmds.append(["g++"] + fl + ["-c", u, "-o", o])
            need.append(objs[key])
        o = None
        libs, need = need, []
        for xs, xf in [(job["src"], job.get("src_flags", []))] + job.get("extra", []):
            key = (xs, tag, " ".join(xf))
            if key not in objs:            # variants of a harness share its object
                objs[key] = os.path.join(bdir, "%s.%s.%d.o" % (xs, tag, len(objs)))
                cmds.append(["g++"] + fl + xf + ["-c", os.path.join(HERE, "harness", xs), "-o", objs[key]])
            if o is None:
                o = objs[key]
            else:
                need.append(objs[key])
        need += libs               # last: where the linker has to choose, it takes the harness's copy of an inline function
        exe = os.path.join(bdir, jn + "." + cfg)
        san = [x for x in fl if x.startswith("-fsanitize")]
        exes[(jn, cfg)] = (exe, ["g++"] + san + [o] + need + ["-o", exe, "-pthread"] + job.get("ldflags", []))
    def run1(c):
        r = sh(c)
        return (r.returncode, c, r.stdout)
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(run1, cmds))
        bad = [r for r in res if r[0]]
        if not bad:
            res = list(ex.map(run1, [e[1] for e in exes.values()]))
            bad = [r for r in res if r[0]]
    if bad:
        for rc, c, out in bad[:3]:
            log("BUILD FAILED:", " ".join(c))
            log(out[-4000:])
        sys.exit(2)
    return {k: v[0] for k, v in exes.items()}


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def parse(fn):
    recs = []
    try:
        for l in open(fn):
            l = l.strip()
            if l:
                recs.append(json.loads(l))
    except Exception as e:                                     # truncated line
        recs.append({"kind": "error", "text": "unreadable result file: %s" % e})
    return recs


def main():
    prop = sys.argv[1]
    if prop == "--setup":          # nothing is prebuilt: every check compiles what it needs from the working tree
        missing = [f for f in ("g++",) if not shutil.which(f)]
        log("setup: toolchain " + ("missing: " + ", ".join(missing) if missing else "present") + ", %d checks" % len(PROPS))
        sys.exit(1 if missing else 0)
    P = PROPS[prop]
    t0 = time.time()
    bdir = os.path.join(HERE, "_build", "%s.%d" % (prop, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        if len(sys.argv) > 2 and sys.argv[2] == "--replay":
            jn, cfg, case = sys.argv[3:6]
            tier = sys.argv[6] if len(sys.argv) > 6 else "quick"
            exe = build(bdir, [(jn, cfg)])[(jn, cfg)]
            r = subprocess.run([exe, "--tier", tier, "--only", case] + JOBS[jn].get("args", []))
            sys.exit(r.returncode)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(prop, P, tier, bdir, t0))
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def check(prop, P, tier, bdir, t0):
    jobs = [(jn, cfg) for jn in P["jobs"] for cfg in JOBS[jn].get("configs", ["eigen"]) if not (tier == "quick" and cfg in JOBS[jn].get("thorough_configs", []))]
    exes = build(bdir, jobs)
    tb = time.time() - t0
    budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    tasks = []
    for jn, cfg in jobs:
        ns = JOBS[jn].get("shards", 4)
        for s in range(ns):
            tasks.append((jn, cfg, s, ns))

    def run1(t):
        jn, cfg, s, ns = t
        out = os.path.join(bdir, "%s.%s.%d.out" % (jn, cfg, s))
        cmd = [exes[(jn, cfg)], "--tier", tier, "--shard", "%d/%d" % (s, ns), "--out", out, "--budget", str(budget)] + JOBS[jn].get("args", [])
        r = sh(cmd)
        recs = parse(out)
        if r.returncode not in (0, 1) or not any(x["kind"] == "total" for x in recs):
            recs.append({"kind": "error", "text": "harness exit %d: %s" % (r.returncode, r.stdout[-1500:])})
        return t, recs
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(run1, tasks))

    tot = dict(cases=0, states=0, transitions=0, checks=0, outcomes=0, fails=0)
    per, samples, errors, viols, capped = {}, [], [], {}, []
    for (jn, cfg, s, ns), recs in res:
        key = jn + "/" + cfg
        pj = per.setdefault(key, dict(cases=0, states=0, transitions=0, comparisons=0, distinct_outcomes=0))
        for x in recs:
            if x["kind"] == "total":
                for k in tot:
                    tot[k] += x[k]
                pj["cases"] += x["cases"]; pj["states"] += x["states"]; pj["transitions"] += x["transitions"]
                pj["comparisons"] += x["checks"]; pj["distinct_outcomes"] += x["outcomes"]
                if x["capped"]:
                    capped.append(key)
            elif x["kind"] == "sample":
                if sum(1 for y in samples if y["job"] == key) < 2:
                    samples.append({"job": key, "case": x["case"], "text": x["text"]})
            elif x["kind"] == "error":
                errors.append("%s: %s" % (key, x["text"]))
            elif x["kind"] == "viol":
                viols.setdefault(x["sig"], []).append((jn, cfg, s, ns, x["case"], x["text"]))
    if not tot["cases"]:
        errors.append("no case was run")
    known = dict(load_known(prop))
    new, seen_known = [], []
    for sig, lst in sorted(viols.items()):
        if sig in known:
            seen_known.append(sig)
        else:
            new.append((sig, lst))
    rc = 0
    rdir = os.path.join(HERE, "replays")
    nrep = 0
    for sig in seen_known:
        log("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[sig], sig))
    unconfirmed = []
    if new:
        os.makedirs(rdir, exist_ok=True)
    for sig, lst in new[:12]:
        jn, cfg, s, ns, case, text = lst[0]
        # replay the failing case alone, in a fresh process; it has to fail again
        ok, how = False, "case"
        for attempt in range(2):
            out = os.path.join(bdir, "replay.out")
            r = sh([exes[(jn, cfg)], "--tier", tier, "--only", case, "--out", out] + JOBS[jn].get("args", []))
            if any(x["kind"] == "viol" for x in parse(out)):
                ok = True
                break
        if not ok:   # maybe the failure needs the executions before it: rerun the whole shard
            how = "shard"
            out = os.path.join(bdir, "replay.out")
            r = sh([exes[(jn, cfg)], "--tier", tier, "--shard", "%d/%d" % (s, ns), "--out", out, "--budget", str(budget)] + JOBS[jn].get("args", []))
            ok = any(x["kind"] == "viol" and x["sig"] == sig for x in parse(out))
        if not ok:
            unconfirmed.append((sig, case, text))
            continue
        nrep += 1
        path = os.path.join(rdir, "%s_%d.sh" % (prop, nrep))
        with open(path, "w") as f:
            f.write("#!/bin/sh\n# property %s, failure class %s (replayed: %s)\n# %s\n" % (prop, sig, how, text.replace("\n", " ")))
            f.write("exec python3 %s %s --replay %s %s %s %s\n" % (shlex.quote(os.path.join(HERE, "run.py")), prop, jn, cfg, shlex.quote(case), tier))
        os.chmod(path, 0o755)
        log("  class=%s job=%s/%s case=%s : %s" % (sig, jn, cfg, case[:200], text[:500]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    for sig, case, text in unconfirmed:
        log("UNCONFIRMED (not reproduced on replay, not reported): class=%s case=%s %s" % (sig, case[:200], text[:300]))
    if len(new) > 12 and rc:
        log("  ... and %d further failure classes" % (len(new) - 12))
    if errors and rc == 0:
        for e in errors[:5]:
            log("ERROR", e[:2000])
        rc = 2
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["cases"],
            "comparisons_with_reference": tot["checks"], "distinct_outcomes": tot["outcomes"],
            "exhaustive": not capped and not errors, "bound": P["bound"][tier] if isinstance(P["bound"], dict) else P["bound"],
            "what_counts": P.get("counts", "states: states of the code under test compared with the reference; transitions: operations executed on the real code; traces: complete executions (cases) of the real code"),
            "per_harness": per, "samples": samples[:12],
            "stopped_early": sorted(set(capped)), "build_s": round(tb, 1),
            "known_findings_seen": seen_known,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new) if rc == 1 else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: cases=%d states=%d transitions=%d comparisons=%d outcomes=%d exhaustive=%s build=%.1fs wall=%.1fs -> %s" % (
        prop, tier, tot["cases"], tot["states"], tot["transitions"], tot["checks"], tot["outcomes"], not capped and not errors, tb, time.time() - t0,
        {0: "holds", 1: "VIOLATED", 2: "ERROR"}[rc]))
    return rc


main()
