#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the real headers (see DESIGN.md).
   run.py --setup | run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--keep] | run.py --replay FILE"""
import sys, os, json, time, subprocess, shutil, hashlib, random, glob, re, threading, copy
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SSX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
ENGINE = os.path.join(HERE, "engine")
HARN = os.path.join(HERE, "harness")
JOBS = int(os.environ.get("SSX_JOBS", str(os.cpu_count() or 8)))
sys.path.insert(0, HERE)
from checks import CHECKS, PROPS  # noqa: E402

CLANG = ["clang++", "-std=c++17", "-O1", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-gline-tables-only",
         "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DNDEBUG", "-Wno-everything", "-emit-llvm", "-c"]
GXX = ["g++", "-std=c++17", "-O1", "-w"]
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,bounds,float-cast-overflow,bool,null,vla-bound",
         "-fsanitize-trap=all"]
INC = ["-I", ENGINE, "-I", HARN]


def incs(job):
    if job.single == "alone":                      # the single header in place of the modular ones
        d = os.path.join(BUILD, "alone", "ss")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(os.path.join(REPO, "include", "ss")):
            p = os.path.join(d, f)
            if not os.path.exists(p):
                with open(p + ".%d.%d" % (os.getpid(), threading.get_ident()), "w") as g:
                    g.write("#include <ssp.hpp>\n")
                os.replace(g.name, p)
        return INC + ["-I", os.path.join(BUILD, "alone"), "-I", REPO]
    return INC + (["-I", REPO] if job.single else []) + ["-I", os.path.join(REPO, "include")]


def modular_too(job, viol, wd):
    """a counterexample found in the single header alone: do the modular headers behave in the same way?"""
    m = copy.copy(job)
    m.single, m.defs = False, dict(job.defs, SSP_DISABLE_FAST_FLOAT=None)
    wd = os.path.join(wd, "modular")
    os.makedirs(wd, exist_ok=True)
    return confirm(m, viol, wd)[0]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(ENGINE, x) for x in ("ssx.cpp", "expr.h", "rt.cpp", "strs.cpp")]
    stamp, d = os.path.join(BUILD, "engine.stamp"), digest(src)
    exe, rt, st = (os.path.join(BUILD, x) for x in ("ssx", "rt.bc", "strs.bc"))
    if os.path.exists(stamp) and open(stamp).read() == d and os.path.exists(exe) and os.path.exists(rt) and os.path.exists(st):
        return
    cxx = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    cxx = [x for x in cxx if not x.startswith("-std=") and x != "-fno-exceptions"]
    r = sh(["g++", "-std=c++17", "-O2", "-w", "-o", exe + ".tmp", src[0]] + cxx + ["-fexceptions", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    if r.returncode:
        die("engine build failed\n" + r.stdout)
    os.replace(exe + ".tmp", exe)
    r = sh(CLANG + ["-fno-builtin", "-fno-exceptions", "-o", rt, src[2]])
    if r.returncode:
        die("runtime build failed\n" + r.stdout)
    r = sh(CLANG + ["-o", st, src[3]])
    if r.returncode:
        die("runtime build failed\n" + r.stdout)
    with open(stamp, "w") as f:
        f.write(d)


def defs(job, out):
    """-D options; what is too long for a command line goes into a header"""
    far = {k: v for k, v in job.defs.items() if len(str(v)) > 2000}
    opts = ["-D%s=%s" % (k, v) if v is not None else "-D" + k for k, v in job.defs.items() if k not in far]
    if "NOUNIX" in job.defs:
        opts += ["-U__unix__"]
    if "UCHAR" in job.defs:
        opts += ["-funsigned-char"]
    if "CXX20" in job.defs:
        opts += ["-std=c++20"]
    if far:
        with open(out + ".hpp", "w") as f:
            f.writelines("#define %s %s\n" % kv for kv in far.items())
        opts += ["-include", out + ".hpp"]
    return opts


def compile_bc(job, out):
    r = sh(CLANG + (UBSAN if job.ubsan else []) + (["-I", os.path.join(ENGINE, "stub")] if job.stub else []) + incs(job) + defs(job, out) + ["-o", out, os.path.join(HARN, job.src)])
    return r.returncode, r.stdout


def compile_native(job, out, asan=False, dbg=False, tsan=False, count=False):
    cmd = GXX + ["-DSX_NATIVE"]
    if tsan:
        cmd += ["-g", "-O0", "-DTHREADS", "-pthread"] + (["-fsanitize=thread"] if tsan == 1 else [])
    if asan:
        cmd += ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    if dbg:
        cmd += ["-g", "-O0"]
    if count:
        cmd += ["-DSX_COUNT", "-fsanitize-coverage=trace-pc", "-static"] + ["-Wl,--wrap=" + f for f in "malloc calloc realloc free memcpy memmove memset memcmp memchr strlen".split()]
    if job.failalloc:
        cmd += ["-DSX_FAILALLOC", "-Wl,--wrap=malloc,--wrap=realloc,--wrap=getline,--wrap=__getdelim"]
    r = sh(cmd + incs(job) + defs(job, out) + ["-o", out, os.path.join(HARN, job.src), os.path.join(ENGINE, "native.cpp")])
    return r.returncode, r.stdout


def run_native(exe, models, scratch, valgrind=False, timeout=300, leaks=False):
    os.makedirs(scratch, exist_ok=True)
    mf = os.path.join(scratch, "models.txt")
    with open(mf, "w") as f:
        for m in models:
            f.write(m + "\n")
    cmd = (["valgrind", "-q", "--error-exitcode=79", "--exit-on-first-error=yes", "--trace-children=yes"] + (["--leak-check=full", "--errors-for-leak-kinds=definite"] if leaks else []) if valgrind else []) + [exe, mf]
    env = dict(os.environ, UBSAN_OPTIONS="halt_on_error=1:exitcode=78", ASAN_OPTIONS="detect_leaks=1:exitcode=77:allocator_may_return_null=1")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    res = {}
    for l in r.stdout.decode("latin-1").split("\n"):
        m = re.match(r"R (\d+) (\w+) ?([0-9a-f]*)\| ?(.*)", l)
        if m:
            res[int(m.group(1))] = (m.group(2), m.group(3), m.group(4))
    return res, r.stderr.decode("latin-1")


def describe(model, names):
    b = bytes.fromhex(model)
    out = []
    for i, (n, s) in enumerate(names):
        e = names[i + 1][1] if i + 1 < len(names) else len(b)
        out.append("%s=%s" % (n, b[s:e].decode("latin-1").encode("unicode_escape").decode() if e - s != 1 else
                               ("%d" % b[s] if not 32 <= b[s] < 127 else "%d(%s)" % (b[s], chr(b[s])))))
    return " ".join(out)


def confirm_shared(job, viol, wd):
    """a write to storage that all threads share: do two threads, each with its own objects, race?"""
    for tsan in (1, 2):
        exe = os.path.join(wd, "threads%d" % tsan)
        c, o = compile_native(job, exe, tsan=tsan)
        if c:
            return False, "native build failed: " + o[-2000:]
        mf = os.path.join(wd, "model.txt")
        with open(mf, "w") as f:
            f.write(viol["model"] + "\n")
        cmd = [exe, mf] if tsan == 1 else ["valgrind", "-q", "--tool=helgrind", "--error-exitcode=79", "--trace-children=yes", exe, mf]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=wd, timeout=120, env=dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66"))
        except subprocess.TimeoutExpired:
            continue
        m = re.search(r"(WARNING: ThreadSanitizer: data race|Possible data race).*", r.stdout)
        if m:
            return True, "two threads race: " + m.group(0)[:200]
    return False, "no race reported"


def confirm(job, viol, wd):
    """replay a counterexample natively; returns (confirmed, how)"""
    if viol["kind"] == "shared":
        return confirm_shared(job, viol, wd)
    if job.count and viol["kind"] in ("assert", "hang"):
        exe = os.path.join(wd, "count")
        if not os.path.exists(exe):
            c, o = compile_native(job, exe, count=True)
            if c:
                return False, "native build failed: " + o[-2000:]
        res, err = run_native(exe, [viol["model"]], os.path.join(wd, "scr"))
        st = (res or {}).get(0, ("TIMEOUT", "", "no output"))
        if st[0] in ("ASSERT", "TIMEOUT"):
            return True, "%s %s" % (st[0], st[2])
    asan, plain = os.path.join(wd, "asan"), os.path.join(wd, "plain_replay")
    if not os.path.exists(asan):
        c, o = compile_native(job, asan, asan=not job.failalloc)
        if c:
            return False, "native build failed: " + o[-2000:]
    want = {"assert": ("ASSERT",), "leak": ("LEAK",), "hang": ("TIMEOUT", "CRASH"), "exception": ("TERMINATE", "CRASH"), "terminate": ("TERMINATE", "CRASH")}
    res, err = run_native(asan, [viol["model"]], os.path.join(wd, "scr"))
    if res is None:
        return True, "native run did not terminate"
    st = res.get(0, ("CRASH", "", "no output"))
    if st[0] not in ("OK", "ASSUME"):
        return True, "%s %s %s" % (st[0], st[2], first_report(err))
    if not os.path.exists(plain):
        c, o = compile_native(job, plain, dbg=True)
        if c:
            return False, "native build failed"
    res, err = run_native(plain, [viol["model"]], os.path.join(wd, "scr"), valgrind=True, leaks=job.failalloc)
    st = (res or {}).get(0, ("CRASH", "", "no output"))
    if st[0] not in ("OK", "ASSUME"):
        return True, "%s %s (valgrind) %s" % (st[0], st[2], first_report(err))
    return False, st[0]


def first_report(err):
    for l in err.split("\n"):
        if "ERROR: " in l or "runtime error" in l or "==" in l and ("nvalid" in l or "ninitialised" in l or "depends" in l):
            return l.strip()[:300]
    return ""


def run_check(prop, tier, only=None, keep=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    build_engine()
    wd = os.path.join(BUILD, prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    jobs = [j for j in CHECKS[prop] if j.tier in (tier, "both")]
    if only:
        jobs = [j for j in jobs if only in j.name]
    budget = 780 if tier == "quick" else 10 ** 6
    ex = ThreadPoolExecutor(JOBS)
    bcf, natf = {}, {}
    for i, j in enumerate(jobs):
        j.dir = os.path.join(wd, "%02d_%s" % (i, re.sub(r"\W", "_", j.name)[:80]))
        os.makedirs(j.dir)
        bcf[i] = ex.submit(compile_bc, j, os.path.join(j.dir, "h.bc"))
    for i, j in enumerate(jobs):
        if j.native:
            natf[i] = ex.submit(compile_native, j, os.path.join(j.dir, "plain"))
    tot = dict(states=0, transitions=0, paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, instructions=0, assertions=0, forks=0, domain_decisions=0)
    cov, reports, errors, findings, unconfirmed, samples, validated, exhaustive = {}, [], [], [], [], [], 0, True
    jobreps = []
    for i, j in enumerate(jobs):
        rc, o = bcf[i].result()
        if rc:
            errors.append("%s: harness does not compile against the current headers:\n%s" % (j.name, o[-3000:]))
            continue
        left = budget - (time.time() - t0)
        if left < 20:
            exhaustive = False
            jobreps.append(dict(job=j.name, skipped="time budget exhausted"))
            continue
        lim = min(left - 10, j.time * (1 if tier == "quick" else 4))
        r = subprocess.run([os.path.join(BUILD, "ssx"), "-o", j.dir, "-j", str(JOBS), "-t", "%.0f" % lim, "--seed", str(seed), "--steps", str(j.steps),
                            "--samples", str(j.samples), "--repo", os.path.join(REPO, "") if True else ""] + ([] if not j.all else ["--all"]) + (["--shared"] if j.shared else []) +
                           [os.path.join(j.dir, "h.bc"), os.path.join(BUILD, "rt.bc"), os.path.join(BUILD, "strs.bc")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            errors.append("%s: engine: %s" % (j.name, r.stdout[-2000:]))
            continue
        s = json.load(open(os.path.join(j.dir, "summary.json")))
        viols, smp = [], []
        for f in sorted(glob.glob(os.path.join(j.dir, "w*.json"))):
            d = json.load(open(f))
            viols += d["violations"]
            smp += d["samples"]
            for k, ls in d["coverage"].items():
                cov.setdefault(k, set()).update(ls)
        tot["states"] += s["states_created"]
        tot["transitions"] += s["forks"] + s["paths"]
        tot["instructions"] += s["instructions"]
        tot["assertions"] += s["assertions_reached"]
        for k in ("paths", "queries", "sat", "unsat", "unknown", "solver_s", "forks", "domain_decisions"):
            tot[k] += s[k]
        complete = s["states_created"] == s["states_finished"] and s["unknown"] == 0 and s["timeouts"] == 0 and s["stop"] == 0
        if not complete and not viols:
            exhaustive = False
        miss = [x for x in j.reach if str(x) not in s["reach"]]
        rep = dict(job=j.name, harness=j.src, defines=j.defs, bounds=j.bounds, paths=s["paths"], states=s["states_created"], instructions=s["instructions"], queries=s["queries"],
                   solver_s=s["solver_s"], wall_s=s["wall_s"], symbolic_bytes=s["max_symbolic_bytes"], reach=s["reach"], complete=complete)
        jobreps.append(rep)
        print("  %-34s paths=%d queries=%d solver=%.1fs wall=%.1fs%s" % (j.name, s["paths"], s["queries"], s["solver_s"], s["wall_s"], "" if complete else " (stopped early)" if viols else " INCOMPLETE"))
        sys.stdout.flush()
        real = [v for v in viols if v["kind"] not in ("unknown", "external")]
        for v in viols:
            if v["kind"] in ("external", "unknown"):
                errors.append("%s: %s: %s at %s" % (j.name, v["kind"], v["msg"], v["where"]))
        done = 0
        for v in real[:6]:
            ok, how = confirm(j, v, j.dir)
            rec = dict(property=prop, job=j.name, harness=j.src, defines=j.defs, failalloc=j.failalloc, single=j.single, kind=v["kind"], message=v["msg"], where=v["where"], model=v["model"],
                       inputs=describe(v["model"], v["names"]), native=how)
            if ok and j.single == "alone" and modular_too(j, v, j.dir):
                rep["same_in_modular_headers"] = rep.get("same_in_modular_headers", 0) + 1
            elif ok:
                findings.append(rec)
                done += 1
                if done >= 2:
                    break
            else:
                unconfirmed.append(rec)
        if miss and not viols and complete:
            errors.append("%s: vacuous: witnesses %s never reached" % (j.name, miss))
        if not viols and j.native:
            rc, o = natf[i].result()
            if rc:
                errors.append("%s: native build failed: %s" % (j.name, o[-2000:]))
            else:
                random.Random(seed).shuffle(smp)
                smp = smp[:j.nval]
                res, err = run_native(os.path.join(j.dir, "plain"), [x["model"] for x in smp], os.path.join(j.dir, "scr"))
                for k, x in enumerate(smp):
                    st = (res or {}).get(k, ("NONE", "", ""))
                    if st[0] != "OK" or st[1] != x["obs"]:
                        errors.append("%s: the encoding and the compiled code disagree on %s: native %s %s" % (j.name, describe(x["model"], x["names"]), st[0], st[2]))
                        break
                    validated += 1
        if smp:
            samples.append("%s: %s" % (j.name, describe(smp[0]["model"], smp[0]["names"])))
        if findings and not j.all:
            break
    known = load_known(prop)
    fresh = []
    for f in findings:
        k = [x for x in known if x["id"] == finding_id(f)]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["text"]))
        else:
            fresh.append(f)
    fun = {}
    for k, ls in cov.items():
        f, n = k.split("|", 1)
        fun.setdefault(os.path.relpath(f, REPO), {})[n] = len(ls)
    names = sorted({n for d in fun.values() for n in d})
    dem = sh(["c++filt"], input="\n".join(names)).stdout.split("\n") if names else []
    short = sorted({re.sub(r"<.*", "", re.sub(r"\[abi:\w+\]", "", d)) for d in dem if d})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(fresh),
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=validated, samples=samples[:12], exhaustive=bool(exhaustive and not findings),
                            explanation="states: symbolic states created (one per feasible combination of branch outcomes); transitions: forks plus completed paths; every path covers all inputs of its class.",
                            paths=tot["paths"], instructions_interpreted=tot["instructions"], solver=dict(tool="z3 (libz3)", queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], seconds=round(tot["solver_s"], 2)),
                            assertions_reached=tot["assertions"], branch_decisions_on_byte_domains=tot["domain_decisions"],
                            functions_encoded=short, functions_encoded_count=len(names), lines_encoded={f: sum(len(v) for k, v in cov.items() if k.startswith(os.path.join(REPO, f) + "|")) for f in fun}, jobs=jobreps,
                            unconfirmed=unconfirmed, errors=errors),
              assumptions=PROPS[prop].get("assumptions", []) + COMMON_ASSUMPTIONS)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    code = 0
    for n, f in enumerate(fresh):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, n))
        with open(path, "w") as g:
            json.dump(f, g, indent=1)
        print("counterexample: %s | %s at %s | %s | native: %s" % (f["kind"], f["message"], f["where"], f["inputs"], f["native"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    if code == 0 and (errors or unconfirmed):
        for e in errors[:4]:
            print("ERROR:", e[:1500])
        if len(errors) > 4:
            print("ERROR: and %d more" % (len(errors) - 4))
        for u in unconfirmed:
            print("ERROR: not reproduced natively: %s | %s at %s | %s" % (u["kind"], u["message"], u["where"], u["inputs"]))
        code = 2
    if not keep and code != 2:
        shutil.rmtree(wd, ignore_errors=True)
    print("%s %s: %s paths=%d states=%d queries=%d solver=%.1fs validated=%d exhaustive=%s wall=%.1fs" % (prop, tier, {0: "held", 1: "VIOLATED", 2: "error"}[code], tot["paths"], tot["states"], tot["queries"], tot["solver_s"], validated, exhaustive, time.time() - t0))
    ex.shutdown(wait=False, cancel_futures=True)
    return code


COMMON_ASSUMPTIONS = [
    "clang 18 -O1 IR of the harness and headers is what is executed symbolically; sampled paths are compared with the g++ build",
    "libc pieces (malloc, realloc, getline, fopen, mem*, str*, strtod grammar) and the C++ exception runtime are the models in engine/rt.cpp and engine/ssx.cpp",
    "bounds of each job are listed under coverage.jobs[].bounds; inputs outside them are not covered"]


def finding_id(f):
    return "%s:%s:%s" % (f["job"], f["message"], f["inputs"])


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                d = json.loads(l.split(" ", 2)[2])
                out.append(d)
    return out


def replay(path):
    d = json.load(open(path))

    class J:
        pass
    j = J()
    j.src, j.defs, j.failalloc, j.single, j.ubsan = d["harness"], d["defines"], d["failalloc"], d["single"], False
    wd = os.path.join(BUILD, "replay")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    ok, how = confirm(j, d, wd)
    print("inputs:", d["inputs"])
    print("message:", d["message"], "at", d["where"])
    print("reproduced" if ok else "not reproduced", "|", how)
    return 1 if ok else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        sys.exit(0)
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    sys.exit(run_check(a[0], tier, only, "--keep" in a))
