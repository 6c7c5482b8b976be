#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only QUERY] | --replay FILE | --build

Decides one property: builds bitcode from /repo's current working tree, runs the
symbolic executor on every query of the property, replays any counterexample
natively and writes evidence/<id>.json.  Exit 0: held on everything explored.
Exit 1: violation, confirmed by native replay.  Exit 3: no verdict.
"""
import sys, os, json, subprocess, shutil, tempfile, time, hashlib, glob, argparse, shlex
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
JOBS = int(os.environ.get("VP_JOBS", "8"))

class NoVerdict(Exception): pass

def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace", **kw)

class Skip(Exception): pass  # an optional query whose harness no longer fits the internals it drives

def must(cmd, what, q=None):
    r = run(cmd)
    if r.returncode != 0 and q and q.get("optional"): raise Skip(r.stderr.strip().splitlines()[0] if r.stderr.strip() else what)
    if r.returncode != 0: raise NoVerdict(f"{what} failed: {' '.join(cmd)}\n{r.stderr[-3000:]}")
    return r

def engine():
    """Path of the executor, built when missing or out of date."""
    d = os.path.join(VERIF, ".build"); os.makedirs(d, exist_ok=True)
    h = hashlib.sha256()
    for f in ("lsym.cpp", "expr.h", "build.sh"): h.update(open(os.path.join(VERIF, "engine", f), "rb").read())
    exe = os.path.join(d, "lsym-" + h.hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + f".{os.getpid()}"
        must(["bash", os.path.join(VERIF, "engine", "build.sh"), tmp], "building the executor")
        os.rename(tmp, exe)
        for old in glob.glob(os.path.join(d, "lsym-*")):
            if old != exe: os.unlink(old)
    return exe

class Tree:
    """Sources and build settings of the current tree."""
    def __init__(self, scratch):
        self.scratch = scratch
        b = os.path.join(scratch, "cm")
        r = run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                 "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_FLAGS=-Wno-error", "-DBUILD_RDIFF=ON", "-DBUILD_SHARED_LIBS=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
        self.lib = []; self.defs = []; self.rdiff = []
        cc = os.path.join(b, "compile_commands.json")
        if r.returncode == 0 and os.path.exists(cc) and os.path.exists(os.path.join(b, "src", "config.h")):
            self.inc = os.path.join(b, "src")
            for e in json.load(open(cc)):
                args = shlex.split(e["command"]); o = e.get("output") or args[args.index("-o") + 1]
                if "rsync.dir/" in o: self.lib.append(e["file"])
                elif "rdiff.dir/" in o and os.path.basename(e["file"]) != "isprefix.c": self.rdiff.append(e["file"])
        else:
            self.inc = os.path.join(H, "fallback")
        if not self.lib:
            self.lib = [f for f in sorted(glob.glob(REPO + "/src/*.c")) if os.path.basename(f) not in ("rdiff.c", "isprefix.c")] + glob.glob(REPO + "/src/blake2/*.c")
        self.lib = sorted(set(self.lib))
        self.cache = {}
    def incs(self): return ["-I" + H, "-I" + self.inc, "-I" + REPO + "/src", "-I" + REPO + "/src/blake2"]

    def libflags(self, q):
        f = ["-D" + d for d in q.get("lib_defs", [])] + [f"-D{s}=vp_{s}" for s in q.get("redirect", [])]
        f += ["-D" + d for d in q.get("src_defs", [])]
        if not q.get("asserts"): f.append("-DNDEBUG")
        return f
    def srcs(self, q):
        return self.lib + [s if os.path.isabs(s) else os.path.join(REPO, "src", s) for s in q.get("extra_src", [])]

    CLANG = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-std=gnu99", "-gline-tables-only", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c"]
    def bitcode(self, q, outdir):
        fl = self.libflags(q); key = json.dumps([fl, q.get("extra_src", [])])
        if key not in self.cache:
            d = tempfile.mkdtemp(dir=self.scratch)
            if not os.path.exists(self.scratch + "/libc.bc"): must(self.CLANG + [os.path.join(H, "libc.c"), "-o", self.scratch + "/libc.bc"], "compiling libc.c")
            def comp(s):
                o = os.path.join(d, os.path.basename(s) + ".bc"); must(self.CLANG + self.incs() + fl + [s, "-o", o], "compiling to bitcode"); return o
            with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, self.srcs(q)))
            must(["llvm-link-18"] + objs + ["-o", d + "/lib.bc"], "linking bitcode"); self.cache[key] = d + "/lib.bc"
        hs = []
        hfl = ["-D" + x for x in q.get("defs", [])] + ["-D" + d for d in q.get("lib_defs", [])]
        for s in [q["src"]] + q.get("stubs", []):
            o = os.path.join(outdir, os.path.basename(s) + ".bc"); must(self.CLANG + self.incs() + hfl + ["-DVP_SYM", os.path.join(H, s), "-o", o], "compiling harness", q); hs.append(o)
        must(["llvm-link-18", self.cache[key]] + ["--override=" + o for o in hs] + [self.scratch + "/libc.bc", "-o", outdir + "/all.bc"], "linking harness")
        must(["opt-18", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg)", "-internalize-public-api-list=vp_main", outdir + "/all.bc", "-o", outdir + "/q.bc"], "opt")
        return outdir + "/q.bc"

    def native(self, q, outdir, extra=()):
        fl = self.libflags(q) + ["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free"]
        cc = ["gcc", "-O0", "-g", "-w", "-std=gnu99", "-fno-builtin", "-fsanitize=address", "-fno-omit-frame-pointer"] + list(extra)
        d = tempfile.mkdtemp(dir=outdir)
        def comp(s):
            o = os.path.join(d, os.path.basename(s) + ".o"); must(cc + ["-c"] + self.incs() + fl + [s, "-o", o], "native compile"); must(["objcopy", "--weaken", o], "objcopy"); return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, self.srcs(q)))
        hfl = ["-D" + x for x in q.get("defs", [])] + ["-D" + x for x in q.get("lib_defs", [])]
        hs = []
        for s in [q["src"]] + q.get("stubs", []) + ["vp_native.c"]:
            o = os.path.join(d, "h_" + os.path.basename(s) + ".o"); must(cc + ["-c"] + self.incs() + hfl + [os.path.join(H, s), "-o", o], "native harness"); hs.append(o)
        exe = os.path.join(d, "replay")
        must(cc + hs + objs + ["-o", exe, "-lm"], "native link"); return exe

def native_run(exe, inputs, d, fill=None, timeout=20):
    f = os.path.join(d, "vals.txt"); open(f, "w").write("\n".join(str(v) for _, v in inputs) + "\n")
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1" + (f":max_malloc_fill_size=1000000:malloc_fill_byte={fill}" if fill is not None else "")
    try:
        r = subprocess.run(["bash", "-c", f"ulimit -c 0; ulimit -f 200000; exec {exe} {f}"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=d)
        out = r.stdout.decode("latin1"); err = r.stderr.decode("latin1")
        notes = [int(l.split()[1]) for l in out.splitlines() if l.startswith("VP_NOTE")]
        if r.returncode == 0 and "VP_OK" in out: return "ok", notes, ""
        if "VP_VIOLATION" in out: return "violation", notes, [l for l in out.splitlines() if l.startswith("VP_VIOLATION")][0]
        if r.returncode in (77, 78): return "infeasible", notes, out[-300:]
        if "AddressSanitizer" in err: return "violation", notes, [l for l in err.splitlines() if "AddressSanitizer" in l][0]
        return "violation", notes, f"exit status {r.returncode}: {err[-300:]}"
    except subprocess.TimeoutExpired:
        return "violation", [], f"no termination within {timeout}s"

def confirm(tree, q, rep, d):
    """Replay a counterexample; returns a description when reproduced."""
    last = ""
    for extra in ((), ("-ftrivial-auto-var-init=pattern",)):
        exe = tree.native(q, d, extra)
        for fill in (None, 0, 255, 1):
            st, _, msg = native_run(exe, rep["inputs"], d, fill)
            if st == "violation": return msg
            last = f"{st} {msg}"
    return None

def query(tree, eng, q, tier, d, log, deadline):
    od = os.path.join(d, q["name"]); os.makedirs(od, exist_ok=True)
    bc = tree.bitcode(q, od)
    lim = min(q.get("time", 300), max(20, deadline - time.time()))
    cmd = [eng, "-j", str(q.get("jobs", JOBS)), "-t", str(lim), "-s", str(q.get("steps", 2000000)), "-q", str(q.get("qms", 60000)), "-o", od + "/r", bc]
    for k in ("enum",):
        if k in q: cmd[1:1] = ["-n", str(q[k])]
    t0 = time.time()
    env = dict(os.environ); env.update(q.get("env", {}))
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=lim + 120, errors="replace", env=env)
    except subprocess.TimeoutExpired: raise NoVerdict(f"{q['name']}: executor did not stop")
    if os.environ.get("LSYM_PROF"): sys.stderr.write(r.stderr)
    if not os.path.exists(od + "/r.json"): raise NoVerdict(f"{q['name']}: executor failed: {r.stderr[-2000:]}")
    st = json.load(open(od + "/r.json")); reps = [json.loads(l) for l in open(od + "/r.reports")]
    viol = [x for x in reps if x["kind"] not in ("sample", "incomplete")]
    inc = [x for x in reps if x["kind"] == "incomplete"]; samples = [x for x in reps if x["kind"] == "sample"]
    log(f"{q['name']}: paths={st['paths']} pruned={st['killed']} steps={st['steps']} queries={st['queries']} solver={st['solver_s']:.1f}s wall={time.time()-t0:.1f}s witness={[i for i,w in enumerate(st['witness']) if w]}" + (f" VIOL={len(viol)}" if viol else "") + (f" INCOMPLETE={st['incomplete']}" if st["incomplete"] else ""))
    res = dict(st=st, viol=None, samples=samples, validated=0, q=q, nonverdict=None, wall=time.time() - t0)
    for v in viol[:5]:
        msg = confirm(tree, q, v, od)
        log(f"  counterexample ({v['kind']}): {v['msg']} at {v['where'][:160]} -> native replay: {msg}")
        if msg: res["viol"] = (v, msg); return res
    if viol: res["nonverdict"] = f"counterexample not reproduced natively: {viol[0]['msg']} at {viol[0]['where'][:200]}"; return res
    if st["errors"] and q.get("optional") and "undefined function" in r.stderr: raise Skip("a function the harness drives no longer exists")
    if st["errors"]: res["nonverdict"] = "executor error: " + r.stderr[-1500:]; return res
    if st["stop"] or st["incomplete"]: res["nonverdict"] = "exploration incomplete: " + (inc[0]["msg"] + " at " + inc[0]["where"][:200] if inc else "resource limit"); return res
    for w in q.get("wit", []):
        if not st["witness"][w]: res["nonverdict"] = f"witness {w} not reachable: the query would be vacuous"; return res
    if not st["paths"]: res["nonverdict"] = "no complete path"; return res
    # validate the encoding: sampled paths must behave the same natively
    n = q.get("validate", 4 if tier == "quick" else 16)
    if n and samples:
        exe = tree.native(q, od)
        for x in samples[-n:]:
            s, notes, msg = native_run(exe, x["inputs"], od)
            if s == "infeasible" or (s == "ok" and notes != x["notes"]) or s == "violation":
                res["nonverdict"] = f"native run of a sampled path disagrees ({s} {msg}) notes {notes[:20]} vs {x['notes'][:20]} inputs {x['inputs'][:60]}"; return res
            res["validated"] += 1
    return res

def check(pid, tier, only=None):
    import suite
    P = suite.PROPS[pid]; t0 = time.time(); deadline = t0 + (780 if tier == "quick" else 7200)
    scratch = tempfile.mkdtemp(prefix="vp-", dir=os.environ.get("VP_TMP", "/tmp")); lines = []
    def log(s): lines.append(s); print(s, flush=True)
    rc = 0; results = []; viol = None; problems = []; skipped = []
    try:
        eng = engine(); tree = Tree(scratch)
        for q in P["queries"]:
            if only and q["name"] != only: continue
            if not only and tier == "quick" and q.get("tier", "quick") != "quick": continue
            if q.get("tier") == "quick_only" and tier == "thorough": continue
            try: r = query(tree, eng, q, tier, scratch, log, deadline)
            except Skip as e: skipped.append(f"{q['name']}: {e}"); log(f"SKIPPED {q['name']}: {e}"); continue
            except NoVerdict as e: problems.append(f"{q['name']}: {e}"); log(f"NO VERDICT {q['name']}: {e}"); continue
            results.append(r)
            if r["viol"]:
                v, msg = r["viol"]; rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
                path = os.path.join(rd, f"{pid}-{q['name']}.json")
                json.dump(dict(property=pid, query=q["name"], kind=v["kind"], message=v["msg"], where=v["where"], native=msg, inputs=v["inputs"]), open(path, "w"), indent=1)
                viol = path; break
            if r["nonverdict"]: problems.append(f"{q['name']}: {r['nonverdict']}"); log(f"NO VERDICT {q['name']}: {r['nonverdict']}")
    except NoVerdict as e: problems.append(str(e)); log(f"NO VERDICT {e}")
    finally: shutil.rmtree(scratch, ignore_errors=True)
    fn = {}
    for r in results:
        for k, v in r["st"]["functions"].items():
            f = os.path.basename(v["file"])
            if "/verif/" in v["file"] or v["file"].startswith(H): continue
            a = fn.setdefault(f"{f}:{k}", [0, 0]); a[0] = max(a[0], v["blocks_reached"]); a[1] = v["blocks"]
    S = lambda k: sum(r["st"][k] for r in results)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=P.get("level", "model_checking"),
        coverage=dict(states=S("paths") + S("killed"), transitions=S("steps"), traces_validated_against_impl=sum(r["validated"] for r in results),
            samples=[dict(query=r["q"]["name"], inputs=x["inputs"][:80]) for r in results for x in r["samples"][-1:]] ,
            exhaustive=not problems and not viol,
            technique="symbolic execution of the LLVM IR compiled from /repo/src, branch feasibility and assertions decided by Z3 (QF_BV); one feasible path per state, one executed IR instruction per transition",
            queries=[dict(name=r["q"]["name"], bounds=r["q"].get("bounds", ""), paths=r["st"]["paths"], paths_pruned=r["st"]["killed"], ir_steps=r["st"]["steps"], solver_queries=r["st"]["queries"], sat=r["st"]["sat"], unsat=r["st"]["unsat"], byte_domain_queries=r["st"]["domain_queries"], cached_queries=r["st"]["cache_hits"], assertions_evaluated=r["st"]["asserts"], assertions_decided_by_solver=r["st"]["asserts_solver"], solver_s=r["st"]["solver_s"], wall_s=round(r["wall"], 2), no_verdict=r["nonverdict"]) for r in results],
            solver_queries=S("queries"), solver_s=round(S("solver_s"), 2), functions_encoded={k: f"{a[0]}/{a[1]} basic blocks reached" for k, a in sorted(fn.items())}),
        skipped_queries=skipped, assumptions=P.get("assumptions", []) + suite.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol: print(f"VIOLATION property={pid} replay={viol}"); return 1
    for k in open(os.path.join(VERIF, "known-findings.txt")).read().splitlines() if os.path.exists(os.path.join(VERIF, "known-findings.txt")) else []:
        if k.startswith("known: property=" + pid + " "): print("KNOWN-FINDING: " + k[len("known: "):])
    if problems: print(f"no verdict for {pid}: " + "; ".join(problems)[:2000]); return 3
    print(f"{pid} holds on everything explored ({len(results)} queries, {S('paths')} paths, {round(time.time()-t0,1)}s)"); return 0

def replay(path):
    import suite
    r = json.load(open(path)); q = [q for q in suite.PROPS[r["property"]]["queries"] if q["name"] == r["query"]][0]
    d = tempfile.mkdtemp(prefix="vp-")
    try: msg = confirm(Tree(d), q, r, d); print("reproduced: " + msg if msg else "not reproduced"); return 1 if msg else 0
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--replay"); ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build: print(engine()); sys.exit(0)
    if a.replay: sys.exit(replay(a.replay))
    sys.exit(check(a.prop, a.tier, a.only))
