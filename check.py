#!/usr/bin/env python3
"""Decides one property: compiles its harnesses against /repo's working tree,
explores them symbolically (engine/psym), replays counterexamples natively and
writes the evidence file.

usage: check.py ID [--keep]      (VERIF_TIER=quick|thorough, VERIF_SEED=n)
"""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VF_JOBS", "0")) or os.cpu_count() or 4
CLANG = next((c for c in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++") if os.path.exists(c)), "clang++")
GXX = "/usr/bin/g++-13" if os.path.exists("/usr/bin/g++-13") else "g++"
DEFS = ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + (["-DVF_DEEP=1"] if TIER == "thorough" else [])
COMMON = ["-w", "-std=gnu++20", "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src")] + DEFS
NPATHS = 400 if TIER == "quick" else 4000  # paths per entry whose input is also run natively
BUDGET = 480 if TIER == "quick" else 3000  # seconds of exploration per entry
GRACE = 20 if TIER == "quick" else 600  # seconds the other explorations get after a violation was confirmed
DEADLINE = 640 if TIER == "quick" else 12000  # seconds for all of the exploration

def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return -99, "", "timeout after %s s" % timeout

def engine():
    src = os.path.join(HERE, "engine", "psym.cpp")
    exe = os.path.join(HERE, "build", "psym")
    stamp = exe + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    rc, o, e = run([GXX, "-O2", "-std=c++17", "-w", src, "-I/usr/lib/llvm-18/include", "-L/usr/lib/llvm-18/lib",
                    "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-o", tmp])
    if rc:
        sys.stderr.write(o + e)
        sys.exit(3)
    os.rename(tmp, exe)
    open(stamp, "w").write(h)
    return exe

class Unit:
    """One harness source file."""
    def __init__(self, path, work):
        self.path, self.name = path, os.path.basename(path)[:-4]
        text = self.read(path)
        self.entries = ["h_" + m for m in re.findall(r"^HARNESS\((\w+)\)", text, re.M)]
        self.bounds = [m.strip() for m in re.findall(r"^// BOUNDS: (.*)$", text, re.M)]
        self.bc = os.path.join(work, self.name + ".bc")
        self.native = os.path.join(work, self.name + ".native")
        self.entdef = "-DVF_ENTRIES(X)=" + " ".join("X(%s)" % e for e in self.entries)
        self.work = work
        self.err = {}

    def read(self, path):
        text = open(path).read()
        for inc in re.findall(r'^#include "(common/[^"]*\.inc)"', text, re.M):
            text += self.read(os.path.join(HERE, "harness", inc))
        return text

    def to_bc(self):
        for std in ("-std=gnu++20", "-std=gnu++2b"):  # g++ accepts some of the latter in the former
            rc, o, e = run([CLANG] + COMMON + ["-DVF_SYMBOLIC=1", std, "-O1", "-Xclang", "-disable-llvm-passes", "-c", "-emit-llvm", self.path, "-o", self.bc], 600)
            if rc == 0:
                break
        if rc:
            self.err["clang"] = e
        return rc == 0

    def to_native(self, cc=GXX, flags=(), out=None):
        out = out or self.native
        rc, o, e = run([cc] + COMMON + list(flags) + [self.path, os.path.join(HERE, "engine", "replay_rt.cpp"), self.entdef, "-o", out], 600)
        if rc:
            self.err[os.path.basename(cc)] = e
        return rc == 0

def write_inputs(path, nondet, uf, hashed=False):
    with open(path, "w") as f:
        if hashed:
            f.write("hash\n")
        for _, v in nondet:
            f.write("n %d\n" % v)
        for i, args, res in uf:
            f.write("u %d %d %s\n" % (i, len(args), " ".join(map(str, args + [res]))))

VARIANTS = [
    ("g++-asan", GXX, ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,shift", "-fno-sanitize-recover=all"]),
    ("clang-asan", CLANG, ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,shift", "-fno-sanitize-recover=all"]),
    ("g++", GXX, ["-O1"]),
    ("clang-msan", CLANG, ["-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"]),
]
ENV = dict(os.environ, ASAN_OPTIONS="detect_stack_use_after_return=1:detect_leaks=0:exitcode=99", MSAN_OPTIONS="exitcode=98", UBSAN_OPTIONS="print_stacktrace=0")

def replay(unit, entry, v, n, outdir):
    """Runs the counterexample against the real code; returns what happened."""
    d = os.path.join(outdir, "%s-%s-%d" % (unit.name, entry, n))
    os.makedirs(d, exist_ok=True)
    inp = os.path.join(d, "input.txt")
    write_inputs(inp, v["nondet"], v["uf"])
    result = None
    for name, cc, flags in VARIANTS:
        exe = os.path.join(unit.work, unit.name + "." + name)
        if not os.path.exists(exe) and not unit.to_native(cc, flags, exe):
            continue
        rc, o, e = run([exe, entry, inp], 60, env=ENV)
        if rc != 0 and rc != 3 and "ASSUME-FAILED" not in o:
            result = {"variant": name, "exit": rc, "stdout": o[-2000:], "stderr": e[:4000]}
            cmd = " ".join("'%s'" % x for x in [cc] + COMMON + flags + [unit.path, os.path.join(HERE, "engine", "replay_rt.cpp"), unit.entdef, "-o", "$T/replay"]).replace("'$T/replay'", '"$T/replay"')
            with open(os.path.join(d, "replay.sh"), "w") as f:
                f.write("#!/bin/bash\n# %s: %s\n# %s\nT=$(mktemp -d); trap 'rm -rf \"$T\"' EXIT\n%s || exit 2\n"
                        "export ASAN_OPTIONS=%s\n\"$T/replay\" %s '%s'\n" % (v["kind"], v["id"], v["where"][:400], cmd, ENV["ASAN_OPTIONS"], entry, inp))
            break
    json.dump({"entry": entry, "unit": unit.path, "violation": v, "reproduced": result}, open(os.path.join(d, "violation.json"), "w"), indent=1)
    return d, result

def main():
    t0 = time.time()
    pid = sys.argv[1]
    files = sorted(glob.glob(os.path.join(HERE, "harness", pid, "*.cpp")))
    if not files:
        print("no harness for", pid)
        return 3
    exe = engine()
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    outdir = os.path.join(HERE, "replays", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    try:
        return decide(pid, files, exe, work, outdir, t0)
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)

def known_findings(pid):
    r = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) unit=(\S+) entry=(\S+) kind=(\S+) id=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                r.append(m.groups()[1:])
    return r

def decide(pid, files, exe, work, outdir, t0):
    units = [Unit(f, work) for f in files]
    pool = cf.ThreadPoolExecutor(JOBS)
    violations, unconfirmed, incomplete, notes = [], [], [], []
    results, samples = [], []
    validated = mismatched = 0

    compiled = {u: pool.submit(u.to_bc) for u in units}
    natives = {u: pool.submit(u.to_native) for u in units}

    stop = threading.Event()  # set some time after a violation was confirmed

    def stopped(entry):
        return {"entry": entry, "complete": False, "incomplete": ["stopped, since a violation was found elsewhere"], "violations": [], "crashed": True}

    def explore(u, entry):
        out = os.path.join(work, "%s.%s.json" % (u.name, entry))
        budget = max(5, min(BUDGET, int(t0 + DEADLINE - time.time())))
        if stop.is_set():
            return stopped(entry)
        p = subprocess.Popen([exe, u.bc, entry, out, "--time", str(budget), "--grace", str(GRACE), "--paths", out + ".paths", str(NPATHS)], stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))
        end = time.time() + budget + 60
        while True:
            try:
                rc = p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                if stop.is_set() or time.time() > end:
                    p.kill()
                    p.wait()
                    if stop.is_set():
                        return stopped(entry)
                    rc = -99
                    break
        e = open(out + ".err").read()
        if rc != 0 or not os.path.exists(out):
            return {"entry": entry, "complete": False, "incomplete": ["engine failed: %s %s" % (rc, e[-300:])], "violations": [], "crashed": True}
        return json.load(open(out))

    def validate(u, entry, k):
        """Same concrete inputs for the interpreter and for the compiled code."""
        rnd = random.Random("%s/%s/%s/%d" % (SEED, u.name, entry, k))
        vals = [rnd.choice([0, 0, 1, 1, 2, 3, rnd.randrange(8)]) for _ in range(400)]
        a = os.path.join(work, "%s.%s.%d.in" % (u.name, entry, k))
        open(a, "w").write("\n".join(map(str, vals)))
        b = a + ".n"
        write_inputs(b, [("", v) for v in vals], [], True)
        rc1, o1, e1 = run([exe, u.bc, entry, a + ".json", "--inputs", a], 120)
        rc2, o2, e2 = run([u.native, entry, b], 60)
        return o1.strip().splitlines(), o2.strip().splitlines(), rc1, rc2

    def native_paths(u, entry):
        """Runs one concrete input for each explored path in the compiled code."""
        f = os.path.join(work, "%s.%s.json.paths" % (u.name, entry))
        if not natives[u].result() or not os.path.exists(f):
            return 0, []
        rc, o, e = run([u.native, entry, f, "all"], 300)
        bad = [tuple(map(int, m)) for m in re.findall(r"^BAD (\d+) (\d+)", o, re.M)]
        m = re.search(r"^CASES (\d+)", o, re.M)
        return int(m.group(1)) if m else 0, bad

    jobs = {}
    for u in units:
        ok = compiled[u].result()
        if ok:
            for e in u.entries:
                jobs[pool.submit(explore, u, e)] = (u, e)
    for u in units:
        okc, okn = compiled[u].result(), natives[u].result()
        if not okn:
            # The documented usage does not compile with the project's compiler
            d = os.path.join(outdir, u.name + "-compile")
            os.makedirs(d, exist_ok=True)
            cmd = " ".join("'%s'" % x for x in [GXX] + COMMON + ["-fsyntax-only", u.path])
            open(os.path.join(d, "replay.sh"), "w").write("#!/bin/bash\n" + cmd + "\n")
            rc, o, e = run([GXX] + COMMON + ["-fsyntax-only", u.path], 600)
            open(os.path.join(d, "errors.txt"), "w").write(e[:20000])
            if rc != 0 and rc != -99 and "error" in e:
                violations.append((u, "-", {"kind": "compile", "id": "usage does not compile: " + next((l[:300] for l in e.splitlines() if "error" in l), ""), "where": u.path}, d))
            else:
                incomplete.append("%s: native build failed: %s" % (u.name, u.err.get("g++-13", "")[:200]))
        if not okc and okn:
            incomplete.append("%s: clang cannot compile it, so it cannot be encoded: %s" % (u.name, next((l[:300] for l in u.err.get("clang", "").splitlines() if "error" in l), "")))

    nval = 2 if TIER == "quick" else 20
    vjobs = {}
    for u in units:
        if compiled[u].result() and natives[u].result():
            for e in u.entries:
                for k in range(nval):
                    vjobs[pool.submit(validate, u, e, k)] = (u, e, k)

    raw = []
    known = known_findings(pid)
    is_known = lambda u, e, v: next((k for k in known if k[0] == u.name and k[1] == e and k[2] == v["kind"] and k[3] == v["id"]), None)
    confirmed = {}  # id(violation) -> (directory, replay result)
    for j in cf.as_completed(jobs):
        u, e = jobs[j]
        r = j.result()
        r["unit"] = u.name
        results.append(r)
        for x in r["incomplete"]:
            incomplete.append("%s/%s: %s" % (u.name, e, x))
        for v in r["violations"]:
            raw.append((u, e, v))
            if not is_known(u, e, v) and not stop.is_set() and not any(c[1] for c in confirmed.values()) and len(confirmed) < 20:
                confirmed[id(v)] = replay(u, e, v, len(confirmed), outdir)
                if confirmed[id(v)][1]:
                    threading.Timer(GRACE, stop.set).start()
        if r.get("missed_cover") and not r["violations"]:
            notes.append("%s/%s: not reached: %s" % (u.name, e, ", ".join(r["missed_cover"])))
    pjobs = {pool.submit(native_paths, u, e): (u, e) for u, e in jobs.values()}
    for j in cf.as_completed(pjobs):
        u, e = pjobs[j]
        n, bad = j.result()
        validated += n - len(bad)
        if bad and not any(x[0] is u and x[1] == e for x in raw):
            # all assertions hold in the encoding, but the project's compiler
            # makes a different (equally valid) choice, e.g. the evaluation order
            cases = open(os.path.join(work, "%s.%s.json.paths" % (u.name, e))).read().split("end\n")
            case = cases[bad[0][0]].split("\n")
            nd = [("input", int(l.split()[1])) for l in case if l.startswith("n ")]
            uf = [(int(l.split()[1]), list(map(int, l.split()[3:-1])), int(l.split()[-1])) for l in case if l.startswith("u ")]
            raw.append((u, e, {"kind": "native", "id": "fails in the native build for the inputs of an explored path", "where": "exit status %d" % bad[0][1], "nondet": nd, "uf": uf}))
    for j in cf.as_completed(vjobs):
        a, b, rc1, rc2 = j.result()
        u, e, k = vjobs[j]
        if rc1 != 0 or rc2 not in (0, 42):
            notes.append("%s/%s: validation run failed (%s, %s)" % (u.name, e, rc1, rc2))
            continue
        b = [l for l in b if not l.startswith("ASSERT-FAILED")]
        if a == b:
            validated += 1
            if len(samples) < 3 and len(a) > 2:
                samples.append({"unit": u.name, "entry": e, "seed": SEED, "case": k, "trace": a[:40]})
        else:
            mismatched += 1
            notes.append("%s/%s: interpreter and native run differ for validation case %d" % (u.name, e, k))

    seen = 0
    raw.sort(key=lambda x: id(x[2]) not in confirmed)
    for u, e, v in raw:
        k = is_known(u, e, v)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[4]))
            continue
        if seen >= 6 and violations:
            continue
        seen += 1
        d, rep = confirmed.get(id(v)) or replay(u, e, v, 100 + len(violations) + len(unconfirmed), outdir)
        if rep:
            violations.append((u, e, v, d))
        else:
            unconfirmed.append("%s/%s: %s: %s (%s)" % (u.name, e, v["kind"], v["id"], v["where"][:200]))

    tot = lambda k: sum(r.get(k, 0) for r in results)
    functions = sorted(set(f for r in results for f in r.get("functions", [])))
    asserts = {}
    for r in results:
        for k, n in r.get("asserts", {}).items():
            asserts[k] = asserts.get(k, 0) + n
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"entry": r["entry"], "asserts": r.get("asserts", {})} for r in results[:3]],
            "explanation": "states: complete feasible paths through the harnesses and the library code they call (each stands for all inputs satisfying its path condition); transitions: LLVM IR instructions executed symbolically; every assertion on every path is decided by Z3 for all inputs.",
            "harnesses": ["%s/%s" % (r["unit"], r["entry"]) for r in sorted(results, key=lambda r: (r["unit"], r["entry"]))],
            "bounds": sorted(set(b for u in units for b in u.bounds)),
            "pigro_functions_encoded": functions,
            "functions_executed_symbolically": tot("functions_executed"),
            "assertion_instances": tot("assert_checks"),
            "assertion_instances_discharged": tot("discharged"),
            "assertions": asserts,
            "solver_queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "solver_s": round(sum(r.get("solver_s", 0) for r in results), 3),
            "forks": tot("forks"),
            "cover_points_reached": sum(len(r.get("covered", [])) for r in results),
            "cover_points_missed": sum(len(r.get("missed_cover", [])) for r in results),
            "validation_mismatches": mismatched,
            "exhaustive": not incomplete,
            "incomplete": incomplete[:50],
            "unconfirmed_counterexamples": unconfirmed[:20],
            "notes": notes[:50],
        },
        "assumptions": [
            "clang 18's lowering to LLVM IR (-O1, no passes) and the interpreter's model of it; cross-checked by replaying the same inputs natively (g++ 13)",
            "external functions not modelled: " + (", ".join(sorted(set(x for r in results for x in r.get("unmodelled", [])))) or "none"),
            "results hold within the bounds listed, for the instantiations the harnesses contain",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

    print("%s: %d harnesses, %d paths, %d instructions, %d assertion instances, %d queries (%.1f s solver), %d traces validated, %.1f s" % (
        pid, len(results), tot("paths"), tot("instructions"), tot("assert_checks"), tot("queries"), ev["coverage"]["solver_s"], validated, time.time() - t0))
    for x in incomplete:
        print("INCOMPLETE", x[:400])
    for x in unconfirmed:
        print("UNCONFIRMED (not reproduced natively, not reported)", x[:400])
    for x in notes:
        print("NOTE", x[:300])
    for x in violations[:5]:
        u, e, v, d = x
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(os.path.join(d, "replay.sh"), HERE)))
        print("  %s/%s: %s: %s" % (u.name, e, v["kind"], v["id"][:300]))
        if v.get("nondet"):
            print("  inputs: " + ", ".join("%s=%d" % tuple(n) for n in v["nondet"][:20]))
    if not results and not violations:
        print("nothing could be explored")
        return 3
    return 1 if violations else 0

if __name__ == "__main__":
    sys.exit(main())
