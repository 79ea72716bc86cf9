"""X04: the headers can be combined in one program, in any order and any number of times, also
over several translation units. Programs are generated, compiled, linked and run."""
import json, os, random, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HEADERS = ["bloom_filter", "chained_reservoir", "cuckoo_filter", "hoeffding_tree", "ltc", "mc_nn", "metrics", "mondrian",
           "mondrian_coarse", "mondrian_unbound", "naive_bayes", "perceptron", "reservoir_sampling", "utils"]
PRELUDE = "#include <cassert>\n#include <cmath>\n#include <cstddef>\n#include <cstdlib>\n#include <iostream>\n#include <limits>\n#include <vector>\nusing namespace std;\n"
FUNC = """
struct XF {
	static double random(){ return 0.25; } static double rand_uniform(){ return 0.25; } static int floor(double x){ return (int)::floor(x); }
	static double log(double x){ return ::log(x); } static double log2(double x){ return ::log2(x); } static double exp(double x){ return ::exp(x); } static double sqrt(double x){ return ::sqrt(x); }
	static bool isnan(double x){ return x != x; } static void* malloc(unsigned n){ return ::malloc(n); }
	static double activation(double x){ return x; } static double derivative(double x){ return 1; }
	static unsigned char fingerprint(int const* e){ return (unsigned char)(*e & 7) + 1; } static unsigned int hash(int const* e){ return *e & 7; } static unsigned int hash(unsigned char fp){ return fp & 7; }
};
static double x_random(){ return 0.25; }
static unsigned int x_hash(int* e){ return (unsigned)*e % 50; }
"""
USE = {
 "bloom_filter": "{ unsigned int (*h[1])(int*) = {x_hash}; BloomFilter<int, 50, 1> f(h); f.add(7); if(!f.lookup(7)) return 1; if(f.lookup(8)) return 2; }",
 "chained_reservoir": "{ ChainedReservoirSampling<int, 3, XF> r; for(int i = 1; i < 20; ++i) r.add(i, i); r.obsolete(5); if(r[0] < 1) return 3; }",
 "cuckoo_filter": "{ CuckooFilter<int, 8, 4, 5, XF, x_random, 0> f; if(!f.add(3)) return 4; if(!f.lookup(3)) return 5; f.remove(3); if(f.lookup(3)) return 6; }",
 "hoeffding_tree": "{ int b[2] = {2, 2}; HoeffdingTree<double, 2, 2, 5000, XF> t(0.9, b); double x[2] = {1, 2}; t.train(x, 1); if(t.predict(x) != 1) return 7; }",
 "ltc": "{ LTC<int, int, 1> l; l.add(1, 1); l.add(2, 1); if(l.add(3, 100) != 1) return 8; int t, v; l.get_value_to_transmit(t, v); if(t != 1 || v != 1) return 9; }",
 "mc_nn": "{ MCNN<double, 2, 5, -1> m; double x[2] = {1, 2}; if(m.predict(x) != -1) return 10; m.train(x, 3); if(m.predict(x) != 3) return 11; }",
 "metrics": "{ ErrorMetrics<false> e; e.update(1, 1); e.update(1, 0); if(e.score() != 0.5) return 12; KappaMetrics<2> k; k.update(0, 0); k.update(1, 1); if(k.score() != 0) return 13; NoMetrics n; n.update(0, 1); ReservoirSamplingMetrics r; r.score(); }",
 "mondrian": "{ MondrianForest<double, XF, 1, 2, 2, 5000> f(1, 0.5, 0.1); double x[2] = {1, 2}; if(!f.train(x, 1)) return 14; if(f.predict(x) != 1) return 15; }",
 "mondrian_coarse": "{ CoarseMondrianForest<double, XF, ErrorMetrics<false>, 2, 2, 5000> f(1, 0.5, 0.1, 1); double x[2] = {1, 2}; if(!f.train(x, 1)) return 16; if(f.predict(x) != 1) return 17; }",
 "mondrian_unbound": "{ MondrianForestUnbound<double, XF, 2, 2> f(1, 0.5, 0.1, 1); double x[2] = {1, 2}; if(!f.train(x, 1)) return 18; if(f.predict(x) != 1) return 19; }",
 "naive_bayes": "{ NaiveBayes<double, 2, 2, XF> n; double x[2] = {1, 2}; n.train(x, 1); if(n.predict(x) != 1) return 20; }",
 "perceptron": "{ int s[2] = {1, 1}; MultiLayerPerceptron<2, 1000, XF> p(s); double w[2] = {2, 1}; p.set_weights(w); double x = 3, y = 0; p.feed_forward(&x, &y); if(y != 7) return 21; }",
 "reservoir_sampling": "{ ReservoirSampling<int, 2, XF> r; r.add(5); if(r[0] != 5) return 22; ExponentialReservoirSampling<int, 2, XF> e; e.add(6); if(e.count() != 1) return 23; }",
 "utils": "{ double v[3] = {6, 15, 9}; Utils::turn_array_into_probability(v, 3); if(v[2] != 1) return 24; if(Utils::pick_from_distribution<XF>(v, 3) != 1) return 25; if(Utils::rand_exponential<XF>(1) <= 0) return 26; }",
}
# the number of metrics started is one number for the whole program
SHARED = ["extern \"C\" int x_started%d(){ ReservoirSamplingMetrics a; return (int)(1 / [&]{ ReservoirSamplingMetrics b; return a.score(); }() + 0.5); }\n",
          "{ int n = 0; if((n = x_started%d()) <= last) return 30; last = n; }"]


def programs(case):
    """case: {"std", "units": [[header, ...], ...]} -> {file name: text}"""
    out = {}
    calls = []
    for u, hs in enumerate(case["units"]):
        lib = "".join('#include "%s.hpp"\n' % h for h in hs)
        inc = PRELUDE + FUNC + lib if case.get("after", True) else lib + PRELUDE + FUNC
        done = sorted(set(hs))
        body = "int x_unit%d(){ %s return 0; }\n" % (u, " ".join(USE[h] for h in done))
        shared = "metrics" in hs or "mondrian_coarse" in hs
        if shared:
            body += SHARED[0] % u
        calls.append((u, shared))
        out["unit%d.cpp" % u] = inc + body
    main = PRELUDE + "".join("int x_unit%d();\n" % u + ('extern "C" int x_started%d();\n' % u if s else "") for u, s in calls)
    main += "int main(){ int last = 0, r = 0; " + " ".join("if((r = x_unit%d())) return r;" % u for u, _ in calls)
    main += " ".join((SHARED[1] % u) for u, s in calls if s) + " return 0; }\n"
    out["main.cpp"] = main
    return out


def attempt(case, repo):
    """None when the program builds and its uses answer as they should, otherwise what fails."""
    with tempfile.TemporaryDirectory(prefix="x04-") as d:
        files = programs(case)
        for n, t in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        r = subprocess.run([case.get("cc", "g++"), "-std=" + case["std"], "-fpermissive", "-w", case["opt"]] + (["-DDEBUG"] if case.get("debug") else []) + [ "-I" + os.path.join(repo, "src")] + sorted(files) + ["-o", "p"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        if r.returncode:
            return "does not build: " + r.stdout[-1500:]
        try:
            r = subprocess.run([os.path.join(d, "p")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
        except subprocess.TimeoutExpired:
            return "does not end"
        return None if r.returncode == 0 else "answers wrongly (code %d)" % r.returncode


def show(case):
    return case.get("cc", "g++") + " " + case["std"] + " " + case["opt"] + (" -DDEBUG" if case.get("debug") else "") + (" after" if case.get("after", True) else " before") + " the standard headers: " + " | ".join(" ".join(u) for u in case["units"])


def generate(rng):
    units = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        k = rng.choice([1, 2, 2, 3, 4, 6, 14])
        hs = rng.sample(HEADERS, min(k, 14))
        if rng.random() < 0.5:
            hs += [rng.choice(hs) for _ in range(rng.randrange(1, 4))]
        units.append(hs)
    return {"std": rng.choice(["c++11", "c++14", "c++17"]), "opt": rng.choice(["-O0", "-O0", "-O1"]), "units": units,
            "cc": rng.choice(["g++", "g++", "clang++"]), "debug": rng.random() < 0.25, "after": rng.random() < 0.4}


def shrink(case, repo, message):
    changed = True
    while changed:
        changed = False
        for u in range(len(case["units"])):
            if len(case["units"]) > 1:
                c = dict(case, units=case["units"][:u] + case["units"][u + 1:])
                m = attempt(c, repo)
                if m:
                    case, message, changed = c, m, True
                    break
            for i in range(len(case["units"][u])):
                if len(case["units"][u]) < 2:
                    break
                c = dict(case, units=[h[:i] + h[i + 1:] if k == u else h for k, h in enumerate(case["units"])])
                m = attempt(c, repo)
                if m:
                    case, message, changed = c, m, True
                    break
            if changed:
                break
    return case, message


def run(pid, tier, seed, check):
    t0 = time.time()
    rng = random.Random("x04-%d" % seed)
    cases = [{"std": "c++11", "opt": "-O0", "units": [HEADERS]}, {"std": "c++17", "opt": "-O0", "units": [HEADERS[::-1], HEADERS]}]
    cases += [{"std": "c++11", "opt": "-O0", "units": [[h, h], [h]]} for h in HEADERS]
    cases += [{"std": rng.choice(["c++11", "c++17"]), "opt": "-O0", "units": [[h]], "cc": cc, "debug": debug, "after": False} for h in HEADERS for cc in ("g++", "clang++") for debug in (False, True)]
    cases += [generate(rng) for _ in range(200 if tier == "quick" else 3000)]
    unique, seen = [], set()
    for c in cases:
        if show(c) not in seen:
            seen.add(show(c))
            unique.append(c)
    if not check.compiler_works("fast"):
        return 2
    violations = []
    budget = 500 if tier == "quick" else 3600
    done = 0
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for c, m in zip(unique, ex.map(lambda c: attempt(c, check.REPO) if not violations and time.time() - t0 < budget else "skipped", unique)):
            if m == "skipped":
                continue
            done += 1
            if m and not violations:
                c, m = shrink(c, check.REPO, m)
                path = os.path.join(check.REPLAYS, pid + "-program.json")
                with open(path, "w") as f:
                    json.dump({"property": pid, "how": "script", "case": c, "programs": programs(c), "message": m}, f, indent=1)
                violations.append((c, m, path))
    nontrivial = sum(1 for c in unique[:done] if len(c["units"]) > 1 or len(c["units"][0]) > 1 or not c.get("after", True))
    check.write_evidence(pid, tier, seed, {"evaluations": done, "distinct_nontrivial": nontrivial,
        "rule": "Programs of one to three units that include a random list of headers (with repetitions) and use each of them; non-trivial: more than one inclusion, or a header on its own before any standard header.",
        "samples": [show(c) for c in unique[16:26]], "exhaustive": False}, time.time() - t0, len(violations), ["the C++ toolchain is trusted"])
    print("%s %s seed=%d: %d programs, %.1f s" % (pid, tier, seed, done, time.time() - t0))
    for c, m, path in violations:
        print("%s\n%s" % (show(c), m))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if violations else 0


def replay(r):
    m = attempt(r["case"], os.environ.get("VP_REPO", "/repo"))
    print(show(r["case"]), "->", m or "holds")
    return 1 if m else 0
