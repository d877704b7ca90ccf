#!/usr/bin/env python3
"""check.py ID | --setup : decides property ID on /repo's current tree by symbolic execution of the real code (see DESIGN.md).

Every run compiles the harnesses with the current headers of /repo to LLVM IR, runs engine/symex (paths x Z3) on them, replays
every counterexample (and some ordinary paths) natively, and writes evidence/ID.json. Exit 0: held; 1: VIOLATION."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
T0 = time.time()
NCPU = min(8, os.cpu_count() or 8)

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")

def engine():
    """Path of the symbolic executor, built from engine/ if it is not there yet."""
    src = [os.path.join(HERE, "engine", f) for f in ("symex.cpp", "expr.hpp")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    exe = os.path.join(BUILD, "symex-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        flags = subprocess.check_output("llvm-config-18 --cxxflags", shell=True).decode().replace("-fno-exceptions", "")
        flags = re.sub(r"-std=\S+", "", flags)
        libs = subprocess.check_output("llvm-config-18 --ldflags --libs irreader linker core support demangle", shell=True).decode()
        rc, o, e = sh("g++ -O2 -std=c++17 -w %s -o %s %s %s -lz3" % (src[0], tmp, flags.replace("\n", " "), libs.replace("\n", " ")))
        if rc: print(e[-3000:]); print("cannot build the executor"); sys.exit(3)
        os.replace(tmp, exe)
    return exe

CLANG = "clang++ -std=c++17 -O1 -fno-pic -fno-pie -fno-vectorize -fno-slp-vectorize -fsized-deallocation -gline-tables-only -emit-llvm -c -w -ferror-limit=5 -I%s -I%s/harness" % (REPO, HERE)
GXX = "g++ -std=c++17 -O1 -g -fsized-deallocation -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -I%s -I%s/harness" % (REPO, HERE)
GXXP = "g++ -std=c++17 -O0 -g -fsized-deallocation -w -I%s -I%s/harness" % (REPO, HERE)

class Check:
    def __init__(self, pid, tier, seed):
        import jobs
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = jobs.PROPS[pid]
        self.jobs = self.spec["jobs"](tier)
        for j in self.jobs: j.setdefault("probe", False)
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.lock = threading.Lock()
        self.compiled, self.native = {}, {}
        self.violations, self.unconfirmed, self.known, self.notes = [], [], [], []
        self.stop = False
        self.budget = float(os.environ.get("VP_BUDGET", "700" if tier == "quick" else "7200"))
        self.traces = self.mismatch = 0
        self.sampletext = []

    # ---- compilation (each distinct source/definition pair once) ----
    def once(self, table, key, fn):
        with self.lock:
            ev = table.get(key)
            mine = ev is None
            if mine: ev = table[key] = {"ev": threading.Event()}
        if mine:
            try: ev["val"] = fn()
            finally: ev["ev"].set()
        ev["ev"].wait()
        return ev.get("val")
    def key(self, j): return (j["src"], j.get("defs", ""))
    def bitcode(self, j):
        def go():
            out = os.path.join(self.tmp, hashlib.md5(repr(self.key(j)).encode()).hexdigest()[:12] + ".bc")
            rc, o, e = sh("%s %s %s/harness/%s.cpp -o %s" % (CLANG, j.get("defs", ""), HERE, j["src"], out), timeout=300)
            return (out, "") if rc == 0 else (None, e[-3000:])
        return self.once(self.compiled, self.key(j), go)
    def nativebin(self, j, plain=False):
        def go():
            out = os.path.join(self.tmp, hashlib.md5(repr((self.key(j), plain)).encode()).hexdigest()[:12] + ".exe")
            rc, o, e = sh("%s %s %s/harness/%s.cpp %s/harness/native.cpp -o %s" % (GXXP if plain else GXX, j.get("defs", ""), HERE, j["src"], HERE, out), timeout=600)
            return (out, "") if rc == 0 else (None, e[-3000:])
        return self.once(self.native, (self.key(j), plain), go)

    # ---- native replay ----
    def write_replay(self, path, j, vals, head=()):
        with open(path, "w") as f:
            for h in head: f.write("# %s\n" % h)
            for k, v in j.get("params", {}).items(): f.write("param:%s %d\n" % (k, v))
            for k, v in vals: f.write("%s %s\n" % (k, v))
    def run_native(self, j, rfile, timeout=20, plain=False):
        exe, err = self.nativebin(j, plain)
        if exe is None: return "nobuild", err
        env = dict(os.environ, VP_REPLAY=rfile, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        cmd = [exe] if not plain else ["valgrind", "-q", "--error-exitcode=9", "--num-callers=12", exe]
        rc, o, e = sh("ulimit -v unlimited; exec " + " ".join(cmd), timeout=timeout * (10 if plain else 1), env=env)
        if rc == 124: return "timeout", o + e
        if rc == 0: return "ok", o + e
        if rc == 77: return "assume", o + e
        return "fail", o + e

    def confirm(self, j, err, n):
        """True when the counterexample fails against the real code as well."""
        d = os.path.join(BUILD, "replay", self.pid); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.txt" % (self.tier, re.sub(r"\W+", "_", j["name"]), n))
        self.write_replay(path, j, err["vals"], [
            "property %s, configuration %s" % (self.pid, j["name"]), "%s: %s" % (err["kind"], err["msg"]), "at %s" % err["loc"],
            "build: %s %s %s/harness/%s.cpp %s/harness/native.cpp -o replay" % (GXX, j.get("defs", ""), HERE, j["src"], HERE), "run: VP_REPLAY=%s ./replay" % path])
        st, out = self.run_native(j, path)
        ok = st == "fail" or (st == "timeout" and err["kind"] == "termination")
        if not ok and st == "ok" and err["kind"] in ("memory", "undefined"):
            st2, out2 = self.run_native(j, path, plain=True)
            if st2 == "fail": ok, st, out = True, st2, out2
        with open(path, "a") as f:
            f.write("# native result: %s\n" % st)
            for l in out.strip().splitlines()[:12]: f.write("# | %s\n" % l)
        return ok, path, st, out

    # ---- one job ----
    def run(self, j):
        r = {"name": j["name"], "src": j["src"], "defs": j.get("defs", ""), "params": j.get("params", {})}
        left = self.budget - (time.time() - T0)
        if self.stop or left < 5: r["skipped"] = "a violation was already found" if self.stop else "out of time"; return r
        bc, err = self.bitcode(j)
        if bc is None:
            exe, nerr = self.nativebin(j)
            r["compile_error"] = err
            if exe is None:
                d = os.path.join(BUILD, "replay", self.pid); os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-compile-%s.txt" % (self.tier, re.sub(r"\W+", "_", j["name"])))
                open(path, "w").write("# does not compile: %s %s %s/harness/%s.cpp\n%s" % (GXX, j.get("defs", ""), HERE, j["src"], nerr))
                with self.lock: self.violations.append((j["name"], "the code does not compile for this use", path)); self.stop = True
            return r
        out = os.path.join(self.tmp, re.sub(r"\W+", "_", j["name"]) + ".json")
        t = min(float(j.get("t", 60 if self.tier == "quick" else 900)), max(5.0, left - 5))
        cmd = [self.exe, "--out=" + out, "--timeout=%g" % t, "--max-steps=%d" % j.get("steps", 3000000)] + ["--param=%s=%d" % kv for kv in j.get("params", {}).items()] + j.get("args", []) + [bc, self.rt]
        rc, o, e = sh(cmd, timeout=t + 120)
        try: d = json.load(open(out))
        except Exception: r["engine_failure"] = "exit %d %s" % (rc, e[-300:]); return r
        for k in ("complete", "paths", "forks", "merges", "pending", "steps", "max_path_steps", "queries", "rewritten", "sat", "unsat", "unknown", "asserts", "asserts_symbolic", "solver_s", "wall_s", "reach", "unsupported", "ir_functions", "ir_instructions"): r[k] = d.get(k)
        r["functions"] = d.get("functions", []); r["_samples"] = d.get("samples", []); r["errors"] = []
        for n, er in enumerate(d["errors"][:6]):
            if self.stop: break
            ok, path, st, text = self.confirm(j, er, n)
            r["errors"].append({"kind": er["kind"], "msg": er["msg"], "loc": er["loc"], "confirmed": ok, "native": st})
            with self.lock:
                if j["probe"]:
                    if ok: self.known.append((j, er, path))
                elif ok:
                    self.violations.append((j["name"], "%s: %s (%s)" % (er["kind"], er["msg"], er["loc"]), path)); self.stop = True
                else:
                    self.unconfirmed.append({"configuration": j["name"], "kind": er["kind"], "msg": er["msg"], "loc": er["loc"], "native": st, "replay": path})
        return r

    # ---- ordinary paths replayed natively: the model and the real code must agree on what happens ----
    def validate(self, results):
        rng = random.Random(self.seed)
        good = [(j, r) for j, r in results if r.get("_samples") and not r.get("errors")]
        rng.shuffle(good)
        seen, pick = set(), []
        for j, r in good:
            if self.key(j) not in seen: seen.add(self.key(j)); pick.append((j, r))
            if len(pick) >= (4 if self.tier == "quick" else 8): break
        def go(jr):
            j, r = jr
            for n, s in enumerate(r["_samples"][:6]):
                path = os.path.join(self.tmp, "s%d-%d.txt" % (id(j), n))
                self.write_replay(path, j, [(k, v) for k, v in s.items() if not k.startswith("note:")])
                st, out = self.run_native(j, path)
                want = {k[5:]: v for k, v in s.items() if k.startswith("note:")}
                got = dict(re.findall(r"^note (.+?) = (\d+)$", out, re.M))
                agree = st == "ok" and all(got.get(k) == v for k, v in want.items())
                with self.lock:
                    if agree: self.traces += 1
                    else: self.mismatch += 1; self.notes.append("model and native run disagree: %s %s -> %s %s" % (j["name"], s, st, out[:300]))
                    if len(self.sampletext) < 8: self.sampletext.append({"configuration": j["name"], "input": {k: v for k, v in s.items()}, "native": st})
        with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(go, pick))

    def main(self):
        self.exe = engine()
        self.rt = os.path.join(self.tmp, "rt.bc")
        rc, o, e = sh("%s %s/harness/rt.cpp -o %s" % (CLANG, HERE, self.rt))
        if rc: print(e[-2000:]); return 3
        order = sorted(self.jobs, key=lambda j: -j.get("cost", 1))
        with cf.ThreadPoolExecutor(NCPU) as ex: results = list(zip(order, ex.map(self.run, order)))
        if not self.violations and self.budget - (time.time() - T0) > 60: self.validate(results)
        # known findings: probes must fail exactly as recorded; a probe failing otherwise is a new violation
        listed = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if os.path.exists(os.path.join(HERE, "known_findings.json")) else []
        shown = set()
        for j, er, path in self.known:
            f = next((f for f in listed if f["property"] == self.pid and f["configuration"] == j["name"] and f["fails"] in er["msg"]), None)
            if f is None: self.violations.append((j["name"], "%s: %s (%s)" % (er["kind"], er["msg"], er["loc"]), path))
            elif f["id"] not in shown: shown.add(f["id"]); print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        self.evidence(results)
        for u in self.unconfirmed: print("note: not reproduced natively, not reported: %s %s: %s (%s)" % (u["configuration"], u["kind"], u["msg"], u["native"]))
        for n in self.notes[:5]: print("note:", n)
        for j, r in results:
            if r.get("unsupported"): print("note: unsupported in %s: %s" % (r["name"], list(r["unsupported"].items())[:2])); break
        ran = [r for _, r in results if "paths" in r]
        print("%s %s: %d configurations, %d complete, %d paths, %d solver queries, %.1f s" % (self.pid, self.tier, len(results), sum(bool(r.get("complete")) and not r.get("unsupported") for r in ran), sum(r["paths"] for r in ran), sum(r["queries"] for r in ran), time.time() - T0))
        for n, m, p in self.violations[:3]:
            print("violated in configuration %s: %s" % (n, m)); print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1 if self.violations else 0

    def evidence(self, results):
        ran = [(j, r) for j, r in results if "paths" in r]
        tot = lambda k: sum((r.get(k) or 0) for _, r in ran)
        reach = {}
        for _, r in ran:
            for k, v in (r.get("reach") or {}).items(): reach[k] = reach.get(k, 0) + v
        fns = sorted({f for _, r in ran for f in r["functions"]})
        uns = {}
        for _, r in ran:
            for k, v in (r.get("unsupported") or {}).items(): uns[k] = uns.get(k, 0) + v
        incomplete = [{"configuration": r["name"], "why": r.get("skipped") or r.get("engine_failure") or r.get("compile_error") or ("time limit" if not r.get("complete") else "unsupported operations: %s" % r["unsupported"])}
                      for _, r in results if not r.get("complete") or r.get("unsupported")]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {
                  "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": self.traces,
                  "samples": self.sampletext or [{"configuration": r["name"], "input": s} for _, r in ran for s in r["_samples"][:1]][:5],
                  "explanation": "states = execution paths of the compiled code decided (each covers every input satisfying its path condition); transitions = IR instructions executed symbolically; traces = sampled path models replayed against a native build with the same observations",
                  "exhaustive": not incomplete and not self.violations,
                  "bounds": self.spec.get("bounds", ""), "outside_bounds": self.spec.get("outside", ""),
                  "configurations": [{k: r.get(k) for k in ("name", "defs", "params", "complete", "paths", "forks", "merges", "steps", "max_path_steps", "queries", "sat", "unsat", "unknown", "asserts", "asserts_symbolic", "solver_s", "wall_s", "errors") if r.get(k) is not None} for _, r in results],
                  "incomplete": incomplete, "functions_encoded": fns, "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
                  "assertions_checked": tot("asserts"), "assertions_decided_by_solver": tot("asserts_symbolic"), "solver_seconds": round(tot("solver_s"), 3), "reached": reach,
                  "unsupported": uns, "trace_mismatches": self.mismatch, "unconfirmed_reports": self.unconfirmed, "known_findings": [{"configuration": j["name"], "msg": er["msg"], "replay": p} for j, er, p in self.known]},
              "assumptions": self.spec.get("assumptions", []) + ["the symbolic executor (engine/), Z3, clang 18's lowering at -O1 and the libstdc++ routines modelled in harness/rt.cpp are trusted; every reported counterexample is replayed natively"],
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

def main():
    sys.path.insert(0, HERE); sys.dont_write_bytecode = True
    if sys.argv[1] == "--setup": print(engine()); return 0
    c = Check(sys.argv[1], os.environ.get("VERIF_TIER", "quick") if len(sys.argv) < 3 else sys.argv[2], int(os.environ.get("VERIF_SEED", "1") or 1))
    try: return c.main()
    finally: shutil.rmtree(c.tmp, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
