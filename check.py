#!/usr/bin/env python3
"""Runs one check against /repo's current working tree.

  check.py <property id> [quick|thorough]     decide a property, write evidence/<id>.json
  check.py --replay <file>                    re-run the one case a replay file describes

Exit 0: held on everything explored.  Exit 1 and VIOLATION lines: broken.  Anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
import build as B
from checks import CHECKS

KNOWN = os.path.join(HERE, "known-findings.txt")
LIMIT = 600  # seconds of exploration; a run cut short says so in its evidence ("exhaustive": false)

def known_table(work):
    """The engine's view of the committed findings: '<engine property>\t<text identifying the failing case>'."""
    path, n = os.path.join(work, "known.tsv"), []
    with open(path, "w") as o:
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) (.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) in CHECKS:
                o.write(CHECKS[m.group(1)]["engine"] + "\t" + m.group(2) + "\n")
                n.append((m.group(1), m.group(2), m.group(3)))
    return path, n

def engine(kind, work):
    e = os.path.join(HERE, "engine")
    out = os.path.join(work, "engine-" + kind)
    g = lambda *names: [os.path.join(e, n) for n in names]
    if kind == "run":
        src = g("engine_main.cpp", "ref_wide.cpp") + sorted(os.path.join(e, f) for f in os.listdir(e) if f.startswith("props_") and f.endswith(".cpp"))
        B.build(work, src, out, tag="run")
    elif kind == "asan":
        src = g("engine_main.cpp", "ref_wide.cpp") + sorted(os.path.join(e, f) for f in os.listdir(e) if f.startswith("props_") and f.endswith(".cpp"))
        san = ("-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS")
        B.build(work, src, out, flags=san, engine_flags=("-O2", "-DVP_ASAN"), tag="asan")
    elif kind == "sched":
        B.build(work, g("ref_wide.cpp", "sched/rt.cpp", "sched/explore.cpp"), out, flags=("-O1", "-g1"), panda_flags=("-fsanitize=thread", "-fno-inline-functions-called-once"), link_flags=("-ldl", "-rdynamic"), tag="sched")
    elif kind == "mpi":
        B.build(work, g("ref_wide.cpp", "sched/rt.cpp", "sched/explore.cpp", "mpi/mpi.cpp"), out, flags=("-O1", "-g1"), panda_flags=("-DMPI_SUPPORT", "-I" + os.path.join(e, "mpi")), link_flags=("-ldl", "-rdynamic"), tag="mpi")
    elif kind == "mpi-asan":
        B.build(work, g("ref_wide.cpp", "sched/rt.cpp", "sched/explore.cpp", "mpi/mpi.cpp"), out, flags=("-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"), engine_flags=("-O1", "-DVP_ASAN", "-fsanitize=address"), panda_flags=("-DMPI_SUPPORT", "-I" + os.path.join(e, "mpi")), link_flags=("-ldl", "-rdynamic"), tag="mpi-asan")
    elif kind == "api":
        B.build(work, g("api_main.cpp"), out, tag="run")
    else:
        raise SystemExit("unknown engine " + kind)
    return out

def symbolize(exe, text):
    def one(m):
        p = subprocess.run(["addr2line", "-Cfe", exe, hex(int(m.group(1), 16) - 1)], stdout=subprocess.PIPE, text=True)
        l = p.stdout.split("\n")
        return "pc 0x%s = %s (%s)" % (m.group(1), l[0][:160], l[1] if len(l) > 1 else "?")
    return re.sub(r"pc 0x([0-9a-f]+)", one, text)

def run_engine(kind, exe, name, tier, work, known, extra=(), spent=0):
    scratch = os.path.join(work, "scratch-" + kind)
    os.makedirs(scratch, exist_ok=True)
    res = os.path.join(work, "result-%s.json" % kind)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=8:detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_abort=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    limit = max(60, min(LIMIT, 760 - int(spent))) if tier == "quick" else 4 * 3600
    p = subprocess.run([exe, name, tier, scratch, res, known, str(limit)] + list(extra), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if extra:
        sys.stdout.write(symbolize(exe, p.stdout)); sys.stderr.write(p.stderr)
        return p.returncode, None
    if p.returncode not in (0, 1):
        raise RuntimeError("engine %s ended with %d\n%s" % (kind, p.returncode, p.stderr[-3000:]))
    with open(res, encoding="utf-8", errors="replace") as f:
        return p.returncode, json.load(f)

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        meta = json.loads(open(sys.argv[2]).readline())
        work = tempfile.mkdtemp(prefix="verif-")
        try:
            known, _ = known_table(work)
            open(known, "w").close()
            exe = engine(meta["kind"], work)
            rc, _ = run_engine(meta["kind"], exe, meta["engine"], meta["tier"], work, known, (meta["family"], meta["case"]))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return rc
    if sys.argv[1:] == ["--self-test"]:  # the framework needs nothing but a compiler: check that it is there
        work = tempfile.mkdtemp(prefix="verif-")
        try:
            open(os.path.join(work, "a.cpp"), "w").write("int main() { return 0; }\n")
            B.sh([B.CXX, "-pthread", os.path.join(work, "a.cpp"), "-o", os.path.join(work, "a")])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("ready: " + ", ".join(sorted(CHECKS)))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-")
    results, broken = [], []
    try:
        known, listed = known_table(work)
        for kind in c["kinds"]:
            try:
                exe = engine(kind, work)
            except B.BuildError as e:
                if kind != "api" or not results:
                    raise
                print("NOTE: %s: the interface of the number types has changed, operation sequences not explored: %s" % (prop, str(e)[:300].replace("\n", " ")))
                continue
            rc, r = run_engine(kind, exe, c["engine"], tier, work, known, spent=time.time() - t0)
            r["kind"] = kind
            results.append(r)
            for v in r["violations"]:
                broken.append((kind, symbolize(exe, v)))
            if r["violations"]:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    write_evidence(prop, tier, seed, c, results, len(broken), time.time() - t0)
    hits = {}
    for r in results:
        for h in r.get("known_hits", []):
            for p, needle, what in listed:
                if p == prop and needle in h:
                    hits[what] = hits.get(what, 0) + 1
        for u in r.get("unreproduced", []):
            print("NOTE: not reproducible, not counted: " + u.split("\n")[0] + " " + (u.split("\n") + [""])[1][:200])
    for p, needle, what in listed:
        if p == prop:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if what in hits else " (not reached in this run)"))
    for i, (kind, text) in enumerate(broken):
        path = os.path.join(rdir, "%s-%d.txt" % (prop, i + 1))
        head = text.split("\n")[0]
        m = re.match(r"family=(.*) index=(-?\d+)$", head) or re.match(r"case=(.*) schedule=(.*)$", head)
        with open(path, "w") as o:
            o.write(json.dumps({"kind": kind, "engine": c["engine"], "tier": tier, "family": m.group(1) if m else "", "case": m.group(2) if m else ""}) + "\n" + text + "\n")
        print("\n".join(text.split("\n")[:3])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not broken:
        print("%s held: %s" % (prop, "; ".join("%s: %s cases" % (r["kind"], r.get("cases", r.get("schedules"))) for r in results)))
    return 1 if broken else 0

def write_evidence(prop, tier, seed, c, results, nviol, wall):
    cov = {"exhaustive": all(r["exhaustive"] for r in results), "rule": c["rule"], "bounds": c["bounds"], "samples": [], "engines": []}
    tot = lambda k: sum(int(r.get(k, 0)) for r in results)
    if c["kinds"][0] in ("sched", "mpi"):
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("schedules"), decision_points=tot("decisions"), memory_accesses_checked=tot("memory_accesses_checked"), distinct_outputs=tot("distinct_outputs"), schedules_beyond_bound_not_run=tot("schedules_beyond_bound_not_run"))
        cov["meaning"] = "states: distinct scheduling points reached; transitions: synchronisation operations executed; traces: complete schedules, each one an execution of the real program under the controlled scheduler"
    else:
        cov.update(states=tot("distinct_inputs"), transitions=tot("program_runs"), traces_validated_against_impl=tot("cases"), distinct_outputs=tot("distinct_outputs"))
        cov["meaning"] = c.get("meaning", "states: distinct program inputs (argument vector and files) of the bounded space; transitions: executions of the real program; traces: cases whose observed behaviour was compared with the reference model's")
    for r in results:
        cov["samples"] += r.get("samples", [])[:5]
        cov["engines"].append({"build": r["kind"], "families": r["families"], "tags": r.get("tags", {}), "seconds": r.get("engine_seconds"), "unreproduced": len(r.get("unreproduced", [])), "known_finding_cases": len(r.get("known_hits", []))})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov, "assumptions": c["assumptions"], "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

if __name__ == "__main__":
    try:
        rc = main()
    except B.BuildError as e:
        sys.stderr.write("build failed\n" + str(e)[-4000:] + "\n"); rc = 3
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 3
    sys.exit(rc)
