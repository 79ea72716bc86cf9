#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILE[,FILE...] [--n N] [--seed S] [--jobs J] [--scale X] [--lines A-B]

Sensitivity of the checks: makes small changes (mutants) to a header in scratch copies of the repository, keeps those that
build and pass the existing tests, runs the checks of that header on them (first alarm ends a mutant) and lists the survivors.
Nothing here is part of a check; scratch copies live in a temporary directory and are removed."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {"bloom_filter": "B02 B01", "cuckoo_filter": "C02 C01 C03", "ltc": "L02 L01 L03", "reservoir_sampling": "R01 R02 R03", "chained_reservoir": "K01 K03 K02 K04",
          "metrics": "E01 E02 E03 X04", "utils": "U01 U03 U02", "naive_bayes": "N01 N02", "perceptron": "P02 P01 P03", "hoeffding_tree": "H02 H01 H03 X01",
          "mc_nn": "M02 M01 M03 X01", "mondrian": "F03 F02 F08 F04 F07 X01 F12", "mondrian_unbound": "F03 F05 F08 F04 F07 X01 F12", "mondrian_coarse": "F01 F06 F09 F10 F08 F03 F04 F12 F11 X01"}
SWAPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*=")]


def mutants(text):
    out = []
    pos = 0
    comment = False
    for ln, line in enumerate(text.split("\n"), 1):
        start, pos = pos, pos + len(line) + 1
        s = line.strip()
        if s.startswith("/*"):
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if not s or s.startswith(("//", "#", "*", "assert", "template", "class", "struct", "public:", "private:", "static_assert", "typedef")):
            continue
        code = line.split("//")[0]
        code = re.sub(r'"[^"]*"', lambda m: " " * len(m.group()), code)
        def add(a, b, new):
            out.append((ln, start + a, start + b, new))
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=", code):
            for x, y in SWAPS:
                if x == m.group():
                    add(m.start(), m.end(), y)
        for m in re.finditer(r"(?<= )([<>])(?= )", code):
            add(m.start(), m.end(), m.group() + "=")
            add(m.start(), m.end(), "<" if m.group() == ">" else ">")
        for m in re.finditer(r"(?<=[\w\)\] ])([+\-*/%])(?=[ \w\(])(?![+=\-*/])", code):
            if code[m.start() - 1] in "+-*/&(,<" or (m.group() == "*" and re.search(r"(const|double|int|char|node|Node|type|void|bool|auto)\s*$", code[:m.start()])):
                continue
            add(m.start(), m.end(), {"+": "-", "-": "+", "*": "/", "/": "*", "%": "/"}[m.group()])
        for m in re.finditer(r"(?<![\w.])(\d+)(\.\d+)?(?![\w.])", code):
            if m.group(2):
                add(m.start(), m.end(), str(float(m.group()) + 1))
                continue
            n = int(m.group(1))
            add(m.start(), m.end(), str(n + 1))
            if n > 0:
                add(m.start(), m.end(), str(n - 1))
        for a, b in (("true", "false"), ("false", "true"), ("min", "max"), ("max", "min"), ("left", "right"), ("right", "left"), ("lower", "upper"), ("upper", "lower"), ("log", "exp")):
            for m in re.finditer(r"(?<![a-zA-Z])%s(?![a-zA-Z])" % a, code):
                add(m.start(), m.end(), b)
        if s.endswith(";") and not re.match(r"(return|break|continue|}|using|static|const|else|int|double|bool|unsigned|float|auto|node|Node|struct|feature_type|element_type|[A-Z]\w* )", s) and code.count("(") == code.count(")"):
            k = len(line) - len(line.lstrip())
            add(k, len(code.rstrip()), ";")
        if re.match(r"(\}\s*)?(else )?if\s*\(.*\)\s*\{?$", code.strip()):
            a = code.index("(", code.index("if"))
            b = code.rindex(")")
            add(a, b + 1, "(!(" + code[a + 1:b] + "))")
            add(a, b + 1, "(false)")
    return out


def narrowings(text):
    """A variable, a parameter or a cast of a smaller type."""
    out = []
    pos = 0
    for ln, line in enumerate(text.split("\n"), 1):
        start, pos = pos, pos + len(line) + 1
        s = line.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "template", "class", "typedef")):
            continue
        code = line.split("//")[0]
        for m in re.finditer(r"\b(unsigned int|int|double|auto)\b(?=(\s+const)?[&\s]+\w+)(?!\s+(\w+\(|operator))|(?<=static_cast<)(unsigned int|int|double)(?=>)|(?<=\()(int|double)(?=\))", code):
            for new in {"int": ["short"], "unsigned int": ["unsigned short"], "double": ["float"], "auto": ["float"]}[m.group()]:
                out.append((ln, start + m.start(), start + m.end(), new))
    return out


def run(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env, start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"), ap.add_argument("files"), ap.add_argument("--n", type=int, default=60), ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=2), ap.add_argument("--scale", default="0.2"), ap.add_argument("--lines", default=""), ap.add_argument("--checks", default=""), ap.add_argument("--kind", default="")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    todo = queue.Queue()
    for f in a.files.split(","):
        text = open("/repo/src/%s.hpp" % f).read()
        ms = narrowings(text) if a.kind == "narrow" else mutants(text)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            ms = [m for m in ms if lo <= m[0] <= hi]
        rng.shuffle(ms)
        print(f, len(ms), "mutants possible", flush=True)
        for m in ms[:a.n]:
            todo.put((f, text, m))
    lock = threading.Lock()

    def worker(k):
        d = tempfile.mkdtemp(prefix="mut-")
        repo, vv = d + "/repo", d + "/verif"
        subprocess.run(["cp", "-a", "/repo", repo])
        shutil.copytree(V, vv, ignore=shutil.ignore_patterns("build", "replays", "evidence", ".git", "seeded"))
        while True:
            try:
                f, text, (ln, s, e, new) = todo.get_nowait()
            except queue.Empty:
                break
            p = "%s/src/%s.hpp" % (repo, f)
            with open(p, "w") as fd:
                fd.write(text[:s] + new + text[e:])
            old = text.split("\n")[ln - 1].strip()
            now = (text[:s] + new + text[e:]).split("\n")[ln - 1].strip()
            res = {"file": f, "line": ln, "old": old, "new": now}
            rc, log = run(["make", "-f", "/opt/vp/orpaille/build.mk", "-j3", "build"], repo, 300)
            if rc:
                res["result"] = "does not build"
            else:
                rc, log = run(["./_build/main-test"], repo, 60)
                if rc:
                    res["result"] = "tests"
                else:
                    res["result"] = "SURVIVED"
                    for c in (a.checks or CHECKS[f]).split():
                        env = dict(os.environ, VP_REPO=repo, VERIF_SEED="1")
                        rc, log = run(["python3", "check.py", c, "--scale", a.scale], vv, 900, env)
                        if rc == 1:
                            res["result"] = "caught by " + c
                            break
                        if rc != 0:
                            res["result"] = "rc %d of %s: %s" % (rc, c, log[-300:])
                            break
                    shutil.rmtree(vv + "/build", ignore_errors=True)
            with open(p, "w") as fd:
                fd.write(text)
            with lock:
                with open(a.out, "a") as fd:
                    fd.write(json.dumps(res) + "\n")
                print("%-12s %s:%d  %s  ->  %s" % (res["result"][:14], f, ln, old, now), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
