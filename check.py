#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE] [--facet NAME] [--keep]

Decides one property: compiles its harness against /repo's current tree, explores
generated cases, prints VIOLATION lines, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION property=<ID> replay=<path>.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, HARNESS)

BASE = ["-std=c++17", "-fpermissive", "-w", "-g1", "-I" + HARNESS, "-I" + os.path.join(REPO, "src")]
VARIANTS = {
    "asan": ["g++", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all", "-fno-lifetime-dse"],
    "fast": ["g++", "-O2", "-fno-lifetime-dse"],
    "fuzz": ["clang++", "-O1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize=alignment,vptr,function",
             "-fno-sanitize-recover=all", "-DPBT_LIBFUZZER", "-Wno-everything"],
}


def source_of(pid):
    p = os.path.join(HARNESS, pid + ".cpp")
    return p if os.path.exists(p) else None


def source_hash(pid, variant):
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "src"), HARNESS):
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".cpp", ".c", ".inc")):
                    p = os.path.join(root, f)
                    if d == HARNESS and f.endswith(".cpp") and f != pid + ".cpp":
                        continue
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    with open(p, "rb") as fd:
                        h.update(fd.read())
    h.update(repr((VARIANTS[variant], pid, BASE)).encode())
    return h.hexdigest()[:24]


def compile_variant(pid, variant, extra=()):
    """Returns (binary or None, log, seconds)."""
    out = os.path.join(BUILD, "%s-%s-%s" % (pid, variant, source_hash(pid, variant)))
    t0 = time.time()
    if os.path.exists(out):
        return out, "", 0.0
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = VARIANTS[variant] + BASE + ["-DPBT_PROP_" + pid, "-DPBT_PROPERTY=\"%s\"" % pid] + list(extra) + [source_of(pid), "-o", tmp]
    r = None
    for _ in range(2):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            os.replace(tmp, out)
            return out, "", time.time() - t0
    return None, " ".join(cmd) + "\n" + r.stdout, time.time() - t0


def compiler_works(variant):
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "t.cpp")
        with open(src, "w") as f:
            f.write("#include <vector>\nint main(){std::vector<int> v(3); return v[0];}\n")
        flags = [x for x in VARIANTS[variant] if x not in ("-DPBT_LIBFUZZER",) and "fuzzer" not in x]
        return subprocess.run(flags + [src, "-o", os.path.join(d, "t")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def env_for_run():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    return e


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def write_evidence(pid, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(pid, path):
    with open(path) as f:
        r = json.load(f)
    if r.get("how") == "script":
        import importlib
        return importlib.import_module(pid).replay(r)
    binary, log, _ = compile_variant(pid, r["variant"])
    if r.get("how") == "compile":
        print(log or "compiles")
        return 0 if binary else 1
    if not binary:
        print(log)
        return 1
    with tempfile.TemporaryDirectory() as d:
        ch = os.path.join(d, "choices")
        with open(ch, "w") as f:
            f.write(" ".join(map(str, r["choices"])))
        return subprocess.run([binary, "--property", pid, "--facet", r["facet"], "--how", r["how"], "--choices", ch,
                               "--seed", str(r["seed"]), "--index", str(r["index"]), "--step", str(r["step"]), "--tmp", d],
                              env=env_for_run()).returncode


def fuzz(pid, seconds, seed, work, asan_bin):
    """Coverage-guided search of the same properties; returns (info, violation or None)."""
    binary, log, _ = compile_variant(pid, "fuzz")
    if not binary:
        return {"error": "the fuzz target does not compile: " + log[-500:]}, None
    corpus, art = os.path.join(work, "corpus"), os.path.join(work, "artifacts") + "/"
    os.makedirs(corpus), os.makedirs(art)
    procs = []
    for j in range(8):
        procs.append(subprocess.Popen([binary, corpus, "-seed=%d" % (seed * 8 + j + 1), "-max_total_time=%d" % seconds, "-timeout=60",
                                       "-max_len=4096", "-len_control=20", "-artifact_prefix=" + art, "-print_final_stats=1", "-reload=5"],
                                      env=env_for_run(), stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "fuzz%d.log" % j), "w")))
    for p in procs:
        p.wait()
    execs = 0
    for j in range(8):
        with open(os.path.join(work, "fuzz%d.log" % j), errors="replace") as f:
            for line in f:
                if "stat::number_of_executed_units" in line:
                    execs += int(line.split()[-1])
    info = {"executions": execs, "corpus": len(os.listdir(corpus)), "artifacts": len(os.listdir(art))}
    for a in sorted(os.listdir(art)):
        if not a.startswith(("crash-", "timeout-")):
            continue
        r = subprocess.run([asan_bin, "--property", pid, "--bytes", art + a, "--variant", "asan", "--replaydir", REPLAYS, "--tmp", work],
                           env=env_for_run(), stdout=subprocess.PIPE, text=True, errors="replace")
        if r.returncode == 1 and "VIOLATED" in r.stdout:
            first = r.stdout.splitlines()
            path = first[0].split(" ", 1)[1]
            return info, {"replay": path, "message": "\n".join(first[1:])}
    return info, None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--facet", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--fuzz-seconds", type=int, default=240)
    a = ap.parse_args()
    pid = a.property
    os.makedirs(REPLAYS, exist_ok=True)
    if a.replay:
        return replay(pid, a.replay)
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 62) - 1
    t0 = time.time()
    if os.path.exists(os.path.join(HARNESS, pid + ".py")):
        import importlib
        return importlib.import_module(pid).run(pid, tier, seed, sys.modules[__name__])

    with ThreadPoolExecutor(2) as ex:
        built = dict(zip(("asan", "fast"), ex.map(lambda v: compile_variant(pid, v), ("asan", "fast"))))
    for v, (b, log, _) in built.items():
        if not b:
            if not compiler_works(v):
                print("the compiler does not work here: no answer", file=sys.stderr)
                return 2
            path = os.path.join(REPLAYS, pid + "-compile.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "how": "compile", "variant": v, "message": log[-6000:]}, f)
            print("the harness, which only uses the public interface, no longer compiles:\n" + log[-3000:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            write_evidence(pid, tier, seed, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "harness did not compile", "samples": [log[-500:]]}, time.time() - t0, 1, [])
            return 1
    work = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    facets, violations = [], []
    fuzz_info = None
    try:
        for v in ("asan", "fast"):
            out = os.path.join(work, v + ".json")
            cmd = [built[v][0], "--property", pid, "--variant", v, "--out", out, "--replaydir", REPLAYS, "--tmp", work,
                   "--seed", str(seed), "--scale", str(a.scale), "--cap", "300" if tier == "quick" else "3600"]
            if tier == "thorough":
                cmd.append("--thorough")
            if a.facet:
                cmd += ["--facet", a.facet]
            r = subprocess.run(cmd, env=env_for_run(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode not in (0, 1):
                print("engine error %d\n%s" % (r.returncode, r.stdout[-2000:]), file=sys.stderr)
                return 2
            with open(out) as f:
                facets += json.load(f)
            violations = [x for x in facets if x["violated"]]
            if violations:
                break
        if tier == "thorough" and not violations and not a.facet:
            fuzz_info, v = fuzz(pid, a.fuzz_seconds, seed, work, built["asan"][0])
            if v:
                violations.append(dict(v, facet="fuzz", kind="fuzz", case=""))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    with open(os.path.join(VERIF, "harness", "assumptions.json")) as f:
        ass = json.load(f)
    coverage = {
        "evaluations": sum(x["evaluations"] for x in facets) + (fuzz_info or {}).get("executions", 0),
        "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in facets),
        "rule": "Cases are sequences of random choices, a pure function of the seed and the case number. Non-trivial: "
                + "; ".join(dict.fromkeys("%s: %s" % (x["facet"], x["rule"]) for x in facets)),
        "samples": [("[%s/%s] " % (x["facet"], x["variant"])) + s for x in facets for s in x["samples"]][:12],
        "facets": [{k: x[k] for k in ("facet", "variant", "planned", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s", "truncated", "inconclusive")} for x in facets],
        "exhaustive": False,
    }
    if fuzz_info:
        coverage["libfuzzer"] = fuzz_info
    write_evidence(pid, tier, seed, coverage, time.time() - t0, len(violations), ass.get(pid, []) + ass.get("*", []))
    known = [k for k in known_findings() if k.get("property") == pid]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k.get("what", "")))
    n = coverage["evaluations"]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (compiled in %.1f s)" % (pid, tier, seed, n, coverage["distinct_nontrivial"], time.time() - t0, max(built[v][2] for v in built)))
    for x in facets:
        print("  %-28s %-4s %9d cases %9d distinct non-trivial %6.1f s%s%s" % (x["facet"], x["variant"], x["evaluations"], x["distinct_nontrivial"], x["wall_s"], " TRUNCATED" if x["truncated"] else "", " INCONCLUSIVE " + x["message"][:300] if x["inconclusive"] else ""))
    for x in violations:
        print("facet %s (%s): %s\n%s" % (x["facet"], x["kind"], x["message"][:3000], x["case"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, x["replay"]))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never exit 1 by accident
        import traceback
        traceback.print_exc()
        sys.exit(2)
