#!/usr/bin/env python3
"""Runs one property's check: builds the library from /repo's working tree together with the property's
explorer, explores, compares with the known findings, writes the evidence file.

  check.py C01 [--tier quick|thorough]     check a property
  check.py C01 --replay FILE               re-execute one recorded case against /repo's current tree
"""
import argparse, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from props import PROPS                                             # noqa: E402

JOBS = os.cpu_count() or 4


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def build(spec, out):
    """Compile /repo/src/*.cpp and the explorer; return the path of the program."""
    flags = ["-std=" + spec.get("std", "c++11"), "-g1", "-w"] + spec.get("flags", ["-O1", "-D_GLIBCXX_ASSERTIONS"])
    # /repo/include/signal.h hides the system's <signal.h>: only the library itself is compiled with -I
    hinc = ["-I" + H, "-iquote", os.path.join(REPO, "include"), "-idirafter", os.path.join(REPO, "include")]
    inc = ["-I" + os.path.join(REPO, "include")]
    cxx = spec.get("cxx", "g++")
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if not srcs:
        die("no sources in %s/src" % REPO)
    hflags = [f for f in flags if f != "-O1"] + ([] if "-fsanitize" in " ".join(flags) else ["-O2"])
    jobs = [(os.path.join(H, spec["src"]), os.path.join(out, "explorer.o"),
             [cxx] + hflags + spec.get("defs", []) + hinc + spec.get("extra_flags", []))]
    for e in spec.get("extra", []):
        jobs.append((os.path.join(REPO, e), os.path.join(out, "extra%d.o" % len(jobs)), [cxx] + flags + ["-O1"] + inc + spec.get("extra_flags", [])))
    # big files first
    for s in sorted(srcs, key=os.path.getsize, reverse=True):
        jobs.append((s, os.path.join(out, os.path.basename(s)[:-4] + ".repo.o"), [cxx] + flags + inc + spec.get("libflags", [])))

    def one(j):
        r = run(j[2] + ["-c", j[0], "-o", j[1]])
        return j, r
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    for j, r in res:
        if r.returncode:
            die("cannot compile %s\n%s" % (j[0], r.stdout[-3000:]))
    prog = os.path.join(out, "explorer")
    r = run([cxx] + [f for f in flags if f.startswith("-fsan")] + [j[1] for j in jobs] + ["-o", prog] + spec.get("libs", []))
    if r.returncode:
        die("cannot link\n" + r.stdout[-3000:])
    return prog


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "known"]


def matches(k, case):
    return case == k["case"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="nothing to prepare: only says whether the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "python3"):
            if not shutil.which(t):
                die("no " + t)
        return
    pid = a.property
    spec = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    out = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(VERIF, "build"))
    try:
        code = check(pid, spec, a, out, t0)
    finally:
        if not a.keep:
            shutil.rmtree(out, ignore_errors=True)
    sys.exit(code)


def check(pid, spec, a, out, t0):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:malloc_context_size=3",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", VERIF_SCRATCH=out, LC_ALL="C")
    if spec.get("prepare"):
        spec["prepare"](REPO, out, env, die)
    prog = build(spec, out) if spec.get("src") else None
    tb = time.time() - t0
    res = os.path.join(out, "result.json")
    if a.replay:
        rep = json.load(open(a.replay))
        cmd = [prog, "--replay", str(rep["block"]), str(rep["idx"])] + (["--prefix"] if rep.get("replays") == "prefix" else []) + \
            (["--thorough"] if rep.get("tier") == "thorough" else [])
        return subprocess.run(cmd, env=env).returncode
    cmd = [prog, "--out", res, "--jobs", str(JOBS)]
    cap = spec.get("cap", {}).get(a.tier, 600 if a.tier == "quick" else 3000)
    cmd += ["--cap", str(cap)]
    if a.tier == "thorough":
        cmd.append("--thorough")
    r = run(cmd, env=env, cwd=out)
    if r.returncode not in (0, 1) or not os.path.exists(res):
        die("explorer ended with %s\n%s" % (r.returncode, r.stdout[-3000:]))
    d = json.load(open(res))
    known = known_findings(pid)
    new, seen = [], {}
    for v in d["violations"]:
        k = next((k for k in known if matches(k, v["case"])), None)
        if k:
            seen[k["case"]] = k
        else:
            new.append(v)
    confirmed = [v for v in new if v["replays"] in ("case", "prefix", "unchecked")]
    for k in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if a.tier == "quick":
        for k in known:
            if k["case"] not in seen:
                print("note: known finding no longer fails: %s" % k["what"])
    cov = {
        "states": d["states"], "transitions": d["transitions"], "traces_validated_against_impl": d["executions"],
        "distinct_nontrivial": d["nontrivial"], "distinct_observed_outcomes": d["distinct_outcomes"],
        "blocks": d["blocks"], "blocks_done": d["blocks_done"], "exhaustive": d["exhaustive"], "bounds": d["bounds"],
        "counts": spec["counts"], "samples": d["samples"], "build_s": round(tb, 1), "explore_s": round(d["wall_s"], 1),
    }
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ef = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(ef + ".tmp", "w"), indent=1)
    os.replace(ef + ".tmp", ef)
    print("%s %s: %d executions, %d states, %d transitions, %d/%d blocks, %d violations (%d known), %.0f s"
          % (pid, a.tier, d["executions"], d["states"], d["transitions"], d["blocks_done"], d["blocks"], len(d["violations"]), len(seen), time.time() - t0))
    if confirmed:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in confirmed[:5]:
            v = dict(v, property=pid, tier=a.tier, command="python3 /verif/check.py %s --replay <this file>" % pid)
            name = "%s-%s.json" % (pid, hashlib.sha1((v["case"] + v["message"]).encode()).hexdigest()[:10])
            json.dump(v, open(os.path.join(rd, name), "w"), indent=1)
            print("  case: %s\n  %s" % (v["case"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.join(rd, name)), flush=True)
        return 1
    if new:
        die("a violation was seen but does not replay: %s / %s" % (new[0]["case"], new[0]["message"]))
    if not d["exhaustive"] and not d["violations"]:
        print("note: time cap reached, %d of %d blocks explored" % (d["blocks_done"], d["blocks"]))
    return 0


if __name__ == "__main__":
    main()
