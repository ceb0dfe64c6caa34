#!/usr/bin/env python3
"""Decide one property: symbolic execution of /repo's current source, replay of
every counterexample against the freshly built binaries, evidence.

usage: check.py PROPERTY            (VERIF_TIER, VERIF_SEED from the environment)
       check.py --setup             build the engine
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(HERE, "engine")
BUILD = os.path.join(HERE, "build")
CLANG = "/usr/bin/clang-18"
IRFLAGS = ("-O1 -g0 -fno-pie -fno-pic -fno-builtin -fwrapv -fno-strict-aliasing -fno-vectorize -fno-slp-vectorize -fno-unroll-loops "
           "-U_FORTIFY_SOURCE -U__OPTIMIZE__ -D__NO_CTYPE -w -Wno-error=implicit-function-declaration -Wno-error=implicit-int -Wno-error=int-conversion "
           "-Wno-error=incompatible-function-pointer-types -Wno-error=return-type -emit-llvm -c").split()
DEFAULT_OBJS = "main ops globals exp symbols mne6303 mne6502 mne65c02 mne68705 mne6811 mnef8 mne68908".split()
sys.path.insert(0, os.path.join(HERE, "harness"))


class Error(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise Error("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def setup():
    """Build symx unless the binary is already the one of these sources."""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ("symx.cpp", "expr.h"):
        h.update(open(os.path.join(ENG, f), "rb").read())
    exe = os.path.join(BUILD, "symx-" + h.hexdigest()[:16])
    if not os.path.exists(exe):
        cxx = sh(["llvm-config-18", "--cxxflags"]).split()
        tmp = exe + ".%d" % os.getpid()
        sh(["g++", "-O2", "-fno-rtti"] + cxx + ["-std=c++17", os.path.join(ENG, "symx.cpp"), "-o", tmp,
            "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lpthread"])
        os.replace(tmp, exe)
    return exe


def objs():
    """Names of dasm's translation units, from the Makefile of the current tree."""
    try:
        t = open(os.path.join(REPO, "src/Makefile")).read().replace("\\\n", " ")
        o = [x[:-2] for m in re.findall(r"^OBJS\s*[:+?]?=\s*(.*)$", t, re.M) for x in m.split() if x.endswith(".o")]
        if o and all(os.path.exists(os.path.join(REPO, "src", x + ".c")) for x in o):
            return o
    except Exception:
        pass
    return DEFAULT_OBJS


class Build:
    def __init__(self, work):
        self.work = work
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.lock = {}

    def program(self):
        w, src = self.work, os.path.join(REPO, "src")
        o = objs()
        jobs = []
        for x in o:
            jobs.append([CLANG] + IRFLAGS + ["-Dmain=dasm_main", os.path.join(src, x + ".c"), "-o", os.path.join(w, x + ".bc")])
            jobs.append(["gcc", "-w", "-c", os.path.join(src, x + ".c"), "-o", os.path.join(w, x + ".o")])
        jobs.append([CLANG] + IRFLAGS + ["-Dmain=ftohex_main", os.path.join(src, "ftohex.c"), "-o", os.path.join(w, "ftohex.bc")])
        jobs.append(["gcc", "-w", os.path.join(src, "ftohex.c"), "-o", os.path.join(w, "ftohex")])
        jobs.append([CLANG] + IRFLAGS + ["-ffreestanding", "-I" + ENG, os.path.join(ENG, "rt_sym.c"), "-o", os.path.join(w, "rt.bc")])
        list(self.pool.map(sh, jobs))
        list(self.pool.map(sh, [
            ["/usr/bin/llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"] + [os.path.join(w, x + ".bc") for x in o] + ["-o", os.path.join(w, "dasm.bc")],
            ["gcc"] + [os.path.join(w, x + ".o") for x in o] + ["-o", os.path.join(w, "dasm")]]))

    def machines(self):
        """The include files of /repo/machines as C arrays, for the harnesses that assemble them."""
        top, out = os.path.join(REPO, "machines"), []
        for d, _, fs in sorted(os.walk(top)):
            for f in sorted(fs):
                if f.endswith((".h", ".asm")):
                    data = open(os.path.join(d, f), "rb").read()
                    out.append('{"%s", "%s", (const unsigned char[]){%s}, %d},' % (os.path.basename(d), f, ",".join(map(str, data)) or "0", len(data)))
        with open(os.path.join(self.work, "machines.h"), "w") as f:
            f.write("static const struct { const char *dir, *name; const unsigned char *data; long len; } MACHINE[] = {\n" + "\n".join(out) + "\n{0, 0, 0, 0}};\n")

    def asan(self):
        w, src = self.work, os.path.join(REPO, "src")
        if not os.path.exists(os.path.join(w, "dasm-asan")):
            f = ["gcc", "-w", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
            list(self.pool.map(sh, [f + [os.path.join(src, x + ".c") for x in objs()] + ["-o", os.path.join(w, "dasm-asan")],
                                    f + [os.path.join(src, "ftohex.c"), "-o", os.path.join(w, "ftohex-asan")]]))

    def harness(self, name, defs):
        w = self.work
        tag = name + "".join("-" + re.sub(r"\W", "_", d) for d in defs)
        inc = ["-I" + w, "-I" + ENG, "-I" + os.path.join(HERE, "harness")] + ["-D" + d for d in defs]
        c = os.path.join(HERE, "harness", name + ".c")
        sh([CLANG] + IRFLAGS + ["-ffreestanding", "-DVP_NATIVE=0"] + inc + [c, "-o", os.path.join(w, tag + ".h.bc")])
        sh(["/usr/bin/llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link", os.path.join(w, "rt.bc"), os.path.join(w, tag + ".h.bc"), "-o", os.path.join(w, tag + ".rt.bc")])
        sh(["gcc", "-w", "-O1", "-fwrapv", "-DVP_NATIVE=1"] + inc + [c, os.path.join(ENG, "rt_native.c"), "-o", os.path.join(w, tag + ".native")])
        return tag


def replay(work, tag, params, inputs, outdir, asan, timeout=20):
    """Run one input vector natively. Returns (exit code, text)."""
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, "inputs.txt"), "w") as f:
        for n, v in inputs:
            f.write("%s %d\n" % (n, v))
    with open(os.path.join(outdir, "params.txt"), "w") as f:
        for k, v in params.items():
            if re.fullmatch(r"-?\d+", str(v)):
                f.write("%s %s\n" % (k, v))
    d = os.path.join(outdir, "files")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(os.environ, VP_INPUTS=os.path.join(outdir, "inputs.txt"), VP_PARAMS=os.path.join(outdir, "params.txt"), VP_DIR=d,
               VP_DASM=os.path.join(work, "dasm-asan" if asan else "dasm"), VP_FTOHEX=os.path.join(work, "ftohex-asan" if asan else "ftohex"),
               VP_TIMEOUT=str(timeout), ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_stack_use_after_return=1", LC_ALL="C")
    try:
        r = subprocess.run([os.path.join(work, tag + ".native")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout * 8)
    except subprocess.TimeoutExpired:
        return 13, "REPLAY HANG harness"
    return r.returncode, r.stdout.decode("latin-1")


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def run_job(exe, work, tag, job, tier, seed, idx, deadline, stop):
    out = os.path.join(work, "res-%d.json" % idx)
    limit = max(10, min(job.get("time", 500 if tier == "quick" else 3000), deadline - time.time()))
    cmd = [exe, "--prog", os.path.join(work, "dasm.bc"), "--prog", os.path.join(work, "ftohex.bc"), "--rt", os.path.join(work, tag + ".rt.bc"),
           "--out", out, "--time", str(int(limit)), "--seed", str(seed),
           "--samples", str(job.get("samples", 4 if tier == "quick" else 12)), "--steps", str(job.get("steps", 60000000))]
    if stop:
        cmd += ["--after", "40", "--stop", stop]
    for k, v in job.get("params", {}).items():
        cmd += ["--param", "%s=%s" % (k, v)]
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30)))
    if r.returncode or not os.path.exists(out):
        raise Error("symx failed (%d) on %s: %s" % (r.returncode, job, r.stdout[-1500:]))
    res = json.load(open(out))
    res["job_wall"] = time.time() - t
    if stop and res["violations"]:          # the other scenarios get a little longer
        timer = threading.Timer(20, lambda: os.path.isdir(work) and open(stop, "w").close())
        timer.daemon = True
        timer.start()
    return res


def main():
    if sys.argv[1:] == ["--setup"]:
        print(setup())
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in sys.argv
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    t0 = time.time()
    import jobs as J
    spec = J.PROPS[pid]
    exe = setup()
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    evdir = os.path.join(HERE, "evidence")
    rep_root = os.path.join(evdir, "replay", pid)
    shutil.rmtree(rep_root, ignore_errors=True)
    os.makedirs(evdir, exist_ok=True)
    try:
        return decide(pid, tier, seed, spec, exe, work, evdir, rep_root, t0, verbose, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, spec, exe, work, evdir, rep_root, t0, verbose, only):
    import jobs as J
    b = Build(work)
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough")]
    if only:
        jobs = [j for j in jobs if any(o in j["name"] for o in only)]
    hs = sorted({(j["harness"], tuple(j.get("defs", ()))) for j in jobs})
    b.machines()
    b.program()
    tags = dict(zip(hs, b.pool.map(lambda h: b.harness(h[0], list(h[1])), hs)))
    kf = known_findings()
    stop = None if any(p == pid for p, _, _ in kf) else os.path.join(work, "stop")
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(run_job, exe, work, tags[(j["harness"], tuple(j.get("defs", ())))], j, tier, seed, i, t0 + (720 if tier == "quick" else 6000), stop) for i, j in
                sorted(enumerate(jobs), key=lambda x: -x[1].get("weight", 1))]
        order = [i for i, j in sorted(enumerate(jobs), key=lambda x: -x[1].get("weight", 1))]
        results = [None] * len(jobs)
        for i, f in zip(order, futs):
            results[i] = f.result()
    problems, confirmed, unreproduced, known = [], [], [], {}
    validated, sample_out = 0, []
    replays = []
    n = 0
    for ji, (j, r) in enumerate(zip(jobs, results)):
        tag = tags[(j["harness"], tuple(j.get("defs", ())))]
        if r["incomplete"]:
            problems.append("%s: %s" % (j["name"], r["incomplete"]))
        for need in j.get("need", ()):
            if not r["check_stats"].get(need, [0])[0] and not r["witnesses"].get(need) and not r["violations"]:
                problems.append("%s: vacuous, %r never reached" % (j["name"], need))
        if not r["paths"] and not r["violations"]:
            problems.append("%s: no path finished" % j["name"])
        for v in r["violations"]:
            replays.append((j, tag, v))
        for s in r["samples"]:
            replays.append((j, tag, {"kind": "sample", "inputs": s, "label": "", "where": ""}))
    # group: try candidates until one of each (job, label) reproduces
    if any(v["kind"] in ("memory", "hang") for _, _, v in replays):
        b.asan()

    def one(k):
        j, tag, v = replays[k]
        out = os.path.join(work, "replay-%d" % k)
        rc, txt = replay(work, tag, j.get("params", {}), v["inputs"], out, False)
        if v["kind"] == "sample" and rc == 13:
            rc, txt = replay(work, tag, j.get("params", {}), v["inputs"], out, False, 60)
        if v["kind"] == "memory" and rc not in (10, 12, 13):
            rc, txt = replay(work, tag, j.get("params", {}), v["inputs"], out, True)
        return rc, txt, out

    outs = list(b.pool.map(one, range(len(replays))))
    os.makedirs(rep_root, exist_ok=True)
    for k, ((j, tag, v), (rc, txt, out)) in enumerate(zip(replays, outs)):
        if v["kind"] == "sample":
            if rc == 0:
                validated += 1
                if len(sample_out) < 6:
                    sample_out.append({"scenario": j["name"], "inputs": {"%d:%s" % (i, a): x for i, (a, x) in enumerate(v["inputs"][:24])}, "native": "all checks hold"})
                continue
            if rc in (11, 15):
                problems.append("%s: sampled path does not replay: %s" % (j["name"], txt[-300:]))
                continue
            v = dict(v, label="sampled path fails natively: " + txt.strip().splitlines()[-1])
        desc = "%s: %s [%s]%s" % (j["name"], v["label"], v["kind"], " in " + v["where"] if v["where"] else "")
        if rc in (10, 12, 13, 14):
            hit = [d for p, rx, d in kf if p == pid and rx.search(desc)]
            if hit:
                known.setdefault(hit[0], desc)
                continue
            dst = os.path.join(rep_root, "%d" % len(confirmed))
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst, symlinks=True)
            with open(os.path.join(dst, "report.txt"), "w") as f:
                f.write("property %s\nscenario %s\nparams %s\nharness harness/%s.c %s\n%s\n\nnative replay:\n%s\n" % (pid, j["name"], j.get("params", {}), j["harness"], j.get("defs", ""), desc, txt))
            confirmed.append((desc, dst, txt.strip().splitlines()[-1]))
        elif v["kind"] != "sample":
            unreproduced.append("%s -- replay: %s" % (desc, txt.strip().splitlines()[-1] if txt.strip() else rc))
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["instructions"] for r in results),
        "traces_validated_against_impl": validated,
        "samples": sample_out,
        "paths_completed": sum(r["paths"] for r in results),
        "paths_pruned_by_assumptions": sum(r["pruned"] for r in results),
        "assertions_evaluated": sum(r["checks"] for r in results),
        "assertions_with_symbolic_condition": sum(r["symbolic_checks"] for r in results),
        "solver_queries": sum(r["queries"] for r in results),
        "solver_sat": sum(r["sat"] for r in results),
        "solver_unsat": sum(r["unsat"] for r in results),
        "solver_unknown": sum(r["unknown"] for r in results),
        "queries_answered_by_cache_or_known_model": sum(r["cache_hits"] + r["model_hits"] for r in results),
        "solver_time_s": round(sum(r["solver_s"] for r in results), 2),
        "longest_query_s": max(r["max_query_s"] for r in results),
        "scenarios": [{"name": j["name"], "paths": r["paths"], "queries": r["queries"], "instructions": r["instructions"], "wall_s": round(r["job_wall"], 1)} for j, r in zip(jobs, results)],
        "bounds": spec["bounds"],
        "exhaustive": not problems,
    }
    fn = {}
    for r in results:
        for name, h, t in r["functions"]:
            a = fn.get(name, (0, t))
            fn[name] = (max(a[0], h), t)
    cov["functions_encoded"] = ["%s (%d/%d blocks)" % (k, v[0], v[1]) for k, v in sorted(fn.items())]
    labels = {}
    for r in results:
        for l, (e, s) in r["check_stats"].items():
            labels[l] = labels.get(l, 0) + e
    cov["assertions"] = labels
    if known:
        cov["known_findings"] = sorted(known)
    if unreproduced:
        cov["unreproduced_candidates"] = unreproduced[:20]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": J.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for d in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    for d, p, l in confirmed[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s\n  %s" % (d, l))
    if verbose:
        for j, r in zip(jobs, results):
            print("  %-28s %6.1fs paths %-6d err %-4d queries %-6d solver %.1fs max %.2fs insts %.1fM" % (j["name"], r["job_wall"], r["paths"], r["error_paths"], r["queries"], r["solver_s"], r["max_query_s"], r["instructions"] / 1e6))
        for u in unreproduced[:20]:
            print("  UNREPRODUCED " + u)
    if confirmed:
        return 1
    if unreproduced:
        print("INCONCLUSIVE property=%s counterexamples of the encoding that the real program does not show:" % pid)
        for u in unreproduced[:5]:
            print("  " + u)
        return 2
    if problems:
        print("INCONCLUSIVE property=%s" % pid)
        for p in problems[:10]:
            print("  " + p)
        return 2
    print("HELD property=%s scenarios=%d paths=%d assertions=%d queries=%d traces=%d wall=%.1fs" % (
        pid, len(jobs), cov["paths_completed"], cov["assertions_evaluated"], cov["solver_queries"], validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Error as e:
        print("ERROR %s" % e)
        sys.exit(2)
