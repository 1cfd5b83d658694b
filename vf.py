#!/usr/bin/env python3
"""Runner: decides one property by symbolic execution of the real code in /repo.

usage: vf.py <property> [--tier quick|thorough] [--job NAME] [--keep]
"""
import sys, os, json, re, subprocess, hashlib, tempfile, shutil, time, threading, fcntl, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
BUILD = os.path.join(VERIF, ".build")
DEFS = ["HAVE_GNUTLS", "HAVE_PAM", "HAVE_PTHREADS", "HAVE_REDIS", "HAVE_SQLITE3", "HAVE_SYSTEMD", "HAVE_WEBDAV",
        "JPEG_ENABLED", "PNG_ENABLED", 'ONION_VERSION="0.8.0.GIT"', "_BSD_SOURCE", "_DEFAULT_SOURCE",
        "_ISOC99_SOURCE", "_POSIX_C_SOURCE=200112L", "NDEBUG"]
# NDEBUG is what the release build uses; the code's own assert()s are internal hints, not the property
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


def must(cmd, what):
    rc, out, err = sh(cmd)
    if rc:
        raise CheckError("%s failed:\n%s\n%s" % (what, " ".join(cmd), (out + err)[-4000:]))


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ENG, "engine.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "osx-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            fl = lambda a: subprocess.check_output(["llvm-config-18", a]).decode().split()
            tmp = exe + ".tmp%d" % os.getpid()
            must(["g++", "-O2", "-std=c++17", "-w", src, "-o", tmp] + fl("--cflags") + fl("--ldflags") + ["-lLLVM-18", "-lz3"], "building the symbolic executor")
            os.rename(tmp, exe)
    return exe


class Ctx:
    def __init__(self, keep=False):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.keep = keep
        self.locks = {}
        self.lk = threading.Lock()
        inc = os.path.join(self.dir, "inc", "onion")
        os.makedirs(inc)
        vin = os.path.join(REPO, "src/onion/version.h.in")
        if os.path.exists(vin):
            t = open(vin).read()
            t = re.sub(r"@([A-Za-z_]*)@|\$\{([A-Za-z_]*)\}", lambda m: {"MAJOR": "2", "MINOR": "8", "PATCH": "3"}.get((m.group(1) or m.group(2)).split("_")[-1].upper(), "0.8.0.GIT"), t)
            t = t.replace("#cmakedefine", "#define")
            open(os.path.join(inc, "version.h"), "w").write(t)

    def close(self):
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def once(self, key, fn):
        with self.lk:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            path = os.path.join(self.dir, hashlib.sha256(repr(key).encode()).hexdigest()[:20] + key[0])
            if not os.path.exists(path):
                fn(path)
            return path

    def cflags(self, defs, native):
        f = ["-I" + os.path.join(self.dir, "inc"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(self.dir, "inc", "onion"),
             "-I" + os.path.join(REPO, "src/onion"), "-I" + os.path.join(REPO, "src/bindings/cpp"), "-I/usr/include/libxml2", "-I" + ENG, "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]
        f += ["-D" + d for d in DEFS] + ["-D" + d for d in defs] + ["-w", "-g"]
        return f

    def bc(self, src, defs):
        def go(path):
            must((["clang++-18", "-std=c++11", "-include", os.path.join(ENG, "cxxpre.h")] if src.endswith(".cpp") else ["clang-18"]) + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-fno-stack-protector", "-U_FORTIFY_SOURCE",
                  "-fsanitize=bounds", "-fsanitize-trap=bounds", "-emit-llvm", "-c", src, "-o", path + ".tmp"] + self.cflags(defs, False), "compiling " + src)
            os.rename(path + ".tmp", path)
        return self.once((".bc", src, tuple(defs)), go)

    def obj(self, src, defs, init=None):
        def go(path):
            must((["clang++-18", "-std=c++11", "-include", os.path.join(ENG, "cxxpre.h")] if src.endswith(".cpp") else ["clang-18"]) + ["-O1", "-fno-omit-frame-pointer", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds",
                  "-c", src, "-o", path + ".tmp"] + (["-ftrivial-auto-var-init=" + init] if init else []) + self.cflags(defs, True), "compiling natively " + src)
            os.rename(path + ".tmp", path)
        return self.once((".o", src, tuple(defs), init), go)


RT_WRAP = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "asprintf"]


def sources(job):
    return [os.path.join(REPO, s) for s in job["src"]]


def hfile(job):
    return os.path.join(VERIF, "harness", job["h"])


def build_bc(ctx, job, defs):
    srcdefs = job.get("srcdefs", [])
    parts = [ctx.bc(hfile(job), defs + srcdefs), ctx.bc(os.path.join(ENG, "common.c"), job.get("commondefs", [])), ctx.bc(os.path.join(ENG, "libc.c"), [])]
    parts += [ctx.bc(s, srcdefs) for s in sources(job)]
    if job["h"].endswith(".cpp"):
        parts.append(ctx.bc(os.path.join(ENG, "cxx.cpp"), []))
    out = os.path.join(ctx.dir, re.sub(r"\W", "_", job["name"]) + "-" + hashlib.sha256(repr((defs, job["h"])).encode()).hexdigest()[:8])
    must(["llvm-link-18", "-o", out + ".l.bc"] + parts, "linking " + job["name"])
    must(["opt-18", "-passes=function(mem2reg,simplifycfg)"] + (["-phi-node-folding-threshold=0", "-two-entry-phi-node-folding-threshold=0", "-speculate-one-expensive-inst=0"] if job["h"].endswith(".cpp") else []) + [out + ".l.bc", "-o", out + ".bc"], "opt")
    return out + ".bc"


def build_native(ctx, job, defs, init=None):
    key = (".exe", job["name"], tuple(defs), init)
    def go(path):
        srcdefs = job.get("srcdefs", [])
        h = ctx.obj(hfile(job), defs + srcdefs)
        com = ctx.obj(os.path.join(ENG, "common.c"), job.get("commondefs", []))
        rt = ctx.obj(os.path.join(ENG, "rt.c"), [])
        objs = [ctx.obj(s, srcdefs, init) for s in sources(job)]
        names = set()
        for o in (h, com):
            rc, out, err = sh(["nm", "--defined-only", o])
            for l in out.splitlines():
                m = re.search(r" [TDBRVW] (vf_\w+)$", l)
                if m:
                    names.add(m.group(1)[3:])
        mp = path + ".map"
        with open(mp, "w") as f:
            for n in names:
                f.write("%s vf_%s\n" % (n, n))
            for n in RT_WRAP:
                if n not in names:
                    f.write("%s rt_%s\n" % (n, n))
        ren = []
        for i, o in enumerate([h] + objs):
            r = "%s.%d.o" % (path, i)
            must(["objcopy", "--redefine-syms=" + mp, o, r], "objcopy")
            ren.append(r)
        link = ["clang++-18" if job["h"].endswith(".cpp") else "clang-18", "-fsanitize=address,bounds", "-o", path + ".tmp"] + ren + [com, rt] + ([ctx.obj(os.path.join(ENG, "rtcxx.cpp"), [])] if job["h"].endswith(".cpp") else []) + ["-lpthread", "-lm"] + job.get("libs", [])
        rc, out, err = sh(link)
        if rc:  # functions outside the encoded code: calling one ends the replay as "not reproduced"
            und = sorted(set(re.findall(r"undefined reference to `(\w+)'", out + err)))
            if not und:
                raise CheckError("linking natively %s failed:\n%s" % (job["name"], (out + err)[-3000:]))
            with open(path + ".und.c", "w") as f:
                f.write("#include <unistd.h>\n" + "".join("void %s(void){_exit(99);}\n" % u for u in und))
            must(["clang-18", "-w", "-c", path + ".und.c", "-o", path + ".und.o"], "stub")
            must(link + [path + ".und.o"], "linking natively " + job["name"])
        os.rename(path + ".tmp", path)
        for r in ren:
            os.unlink(r)
    return ctx.once(key, go)


def replay(exe, inputs, sched, path, timeout=20):
    """returns (failed, hang, output)"""
    with open(path, "w") as f:
        for n, hx in inputs:
            f.write("%s %s\n" % (re.sub(r"\s", "_", n) or "_", hx))
    with open(path + ".sched", "w") as f:
        f.write(" ".join(map(str, sched or [])))
    outs = []
    for fill in ("0", "255", "65"):
        env = dict(os.environ, SYM_INPUT=path, SYM_SCHED=path + ".sched",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=100000:malloc_fill_byte=%s:detect_stack_use_after_return=1:allocator_may_return_null=1" % fill,
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=67")
        try:
            p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
            o = p.stdout.decode("utf8", "replace")
            if p.returncode in (66, 67, 77, 78, 79) or p.returncode < 0:
                return True, False, o[-6000:]
            if p.returncode != 0:
                o += "\n(replay ended with %d: code outside the encoded functions)" % p.returncode
            outs.append(o)
        except subprocess.TimeoutExpired:
            return True, True, "TIMEOUT: still running after %d s" % timeout
    return False, False, (outs[-1] if outs else "")[-2000:]


def merge(doc):
    parts = doc["parts"] if "parts" in doc else [doc]
    bad = doc.get("bad", False)
    r = dict(paths=0, paths_ok=0, paths_err=0, paths_assume=0, instructions=0, forks=0, queries=0, cache_hits=0, model_hits=0, unknown=0, solver_s=0.0, vars=0, reached={}, incomplete={}, functions={}, errors=[], samples=[])
    seen = set()
    for p in parts:
        if not p:
            bad = True
            continue
        for k in ("paths", "paths_ok", "paths_err", "paths_assume", "instructions", "forks", "queries", "cache_hits", "model_hits", "unknown", "solver_s"):
            r[k] += p[k]
        r["vars"] = max(r["vars"], p["vars"])
        for k in ("reached", "incomplete"):
            for a, b in p[k].items():
                r[k][a] = r[k].get(a, 0) + b
        for n, f, c, t in p["functions"]:
            o = r["functions"].get(n, (f, 0, t))
            r["functions"][n] = (f, max(o[1], c), t)
        for e in p["errors"]:
            key = (e["kind"], e["msg"] if e["kind"] == "assert" else "" if e["kind"] in ("nonterm", "recursion") else e["where"])
            if key not in seen:
                seen.add(key)
                r["errors"].append(e)
        r["samples"] += p.get("samples", [])
    if bad:
        r["incomplete"]["worker died"] = 1
    return r


def defining(name):
    """Files of the tree that define the function."""
    rx = re.compile(r"^(?!\s)(?!extern\b)[\w\s\*]*?\b%s\s*\([^;{]*\)\s*\{" % re.escape(name), re.M)
    hit = []
    for d in ("src/onion", "tools/common"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                if f.endswith(".c"):
                    p = os.path.join(root, f)
                    if rx.search(open(p, errors="replace").read()):
                        hit.append(p)
    return hit[:1]


def run_job(ctx, engine, job, tier, jobs, seed, depth=0):
    t0 = time.time()
    b = job.get(tier, job.get("quick", {}))
    defs = list(job.get("defs", [])) + ["TIER_" + tier.upper()] + ["%s=%s" % kv for kv in b.items()]
    bc = build_bc(ctx, job, defs)
    out = bc + ".json"
    budget = job.get("budget", {}).get(tier, 150 if tier == "quick" else 1500)
    cmd = [engine, bc, "--out", out, "--jobs", str(jobs), "--max-time", str(budget), "--max-instr", str(job.get("max_instr", 3000000)), "--seed", str(seed)]
    if "preempt" in job:
        pe = job["preempt"]
        cmd += ["--preempt", str(pe[tier] if isinstance(pe, dict) else pe)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 2 + 120)
    except subprocess.TimeoutExpired:
        raise CheckError("engine timed out on " + job["name"])
    if p.returncode:
        raise CheckError("engine failed on %s: %s" % (job["name"], p.stderr.decode()[-2000:]))
    try:
        r = merge(json.load(open(out)))
    except ValueError:
        raise CheckError("engine output unreadable on " + job["name"])
    # a helper moved to a file the job does not list: find where the tree defines it now, add that file, start again
    more = [os.path.relpath(f, REPO) for k in r["incomplete"] for m in [re.match(r"call to unmodelled function (\w+)$", k)] if m for f in defining(m.group(1))]
    more = [f for f in more if f not in job["src"]]
    if more and depth < 4 and not job.get("nolink"):
        job["src"] = list(job["src"]) + sorted(set(more))
        return run_job(ctx, engine, job, tier, jobs, seed, depth + 1)
    if os.environ.get("VF_COV"):
        cov = {}
        raw = json.load(open(out))
        for part in raw.get("parts", [raw]):
            for f, l, c in part.get("lines", []):
                k = cov.setdefault(os.path.relpath(f, REPO) if f.startswith("/") else f, {})
                k[l] = k.get(l, 0) | c
        json.dump(cov, open(os.path.join(os.environ["VF_COV"], "%s.%s.json" % (job["p"], job["name"])), "w"))
    r["name"] = job["name"]
    r["defs"] = defs
    r["bounds"] = job.get("bounds", "")
    r["wall_s"] = time.time() - t0
    return r


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def known_match(k, pid, job, e):
    if k.get("property") != pid or (k.get("job") and k["job"] != job["name"]):
        return False
    if k.get("kind") and k["kind"] != e["kind"]:
        return False
    if k.get("msg") and not re.search(k["msg"], e["msg"]):
        return False
    if k.get("at") and not re.search(k["at"], e["stack"]):
        return False
    return True


def main():
    a = sys.argv[1:]
    pid = None; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False; verbose = False
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--job": only = a.pop(0)
        elif x == "--keep": keep = True
        elif x == "-v": verbose = True
        elif x == "--setup": build_engine(); return 0
        else: pid = x
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, VERIF)
    import checks
    jobs = [dict(j) for j in checks.JOBS if j["p"] == pid]
    if only:
        jobs = [j for j in jobs if re.search(only, j["name"])]
    if not jobs:
        print("no such property/job", pid); return 2
    if tier == "quick":
        jobs = [j for j in jobs if not j.get("thorough_only")]
    t0 = time.time()
    engine = build_engine()
    ctx = Ctx(keep)
    try:
        return decide(ctx, engine, pid, tier, seed, jobs, checks, t0, verbose, only)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e)); return 2
    finally:
        ctx.close()


def decide(ctx, engine, pid, tier, seed, jobs, checks, t0, verbose, only):
    # independent jobs run side by side, each with a share of the cores
    heavy = [j for j in jobs if j.get("heavy")]
    par = min(len(jobs), NCPU)
    share = 3 if len(jobs) > 2 else max(1, NCPU // max(1, len(jobs)))
    results = {}
    def go(j):
        return run_job(ctx, engine, j, tier, j.get("jobs", share), seed)
    with ThreadPoolExecutor(par) as ex:
        futs = [(j, ex.submit(go, j)) for j in jobs if not j.get("heavy")]
        for j, f in futs:
            results[j["name"]] = f.result()
    for j in heavy:
        results[j["name"]] = run_job(ctx, engine, j, tier, NCPU, seed)
    known = load_known()
    viol = []; knownhit = []; unconf = []; incons = []; validated = 0; samples = []
    rdir = os.path.join(VERIF, "evidence", "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    def post(j):
        nonlocal validated
        r = results[j["name"]]
        for lab in j.get("reach", []):
            if not r["reached"].get(lab) and not r["errors"]:
                incons.append("%s: witness '%s' was not reached (vacuous?)" % (j["name"], lab))
        for k in r["incomplete"]:
            incons.append("%s: %s" % (j["name"], k))
        if not r["errors"] and not r["samples"]:
            return
        exe = build_native(ctx, j, r["defs"])
        for n, e in enumerate(r["errors"]):
            path = os.path.join(rdir, "%s-%d" % (re.sub(r"\W", "_", j["name"]), n))
            for init in (None, "pattern", "zero"):  # variables without value: whatever was there, then two fixed fillings
                failed, hang, out = replay(exe if init is None else build_native(ctx, j, r["defs"], init), e["inputs"], e.get("sched"), path, 10 if e["kind"] in ("nonterm", "recursion", "deadlock") else 60)
                ok = failed and (not hang or e["kind"] in ("nonterm", "recursion", "deadlock"))
                if ok:
                    break
            e["replay"] = dict(confirmed=ok, output=out)
            json.dump(dict(property=pid, job=j["name"], error={k: e[k] for k in ("kind", "msg", "where", "stack", "inputs", "sched")}, defs=r["defs"], harness=j["h"], native_output=out, confirmed=ok,
                           rerun="python3 vf.py %s --job '^%s$' (rebuilds, re-derives and replays the counterexample)" % (pid, re.escape(j["name"]))), open(path + ".json", "w"), indent=1)
            if not ok:
                unconf.append((j, e, path)); continue
            for k in known["findings"]:
                if known_match(k, pid, j, e):
                    knownhit.append((k, j, e)); break
            else:
                viol.append((j, e, path + ".json"))
        for n, s in enumerate(r["samples"][:j.get("nsamples", 12)]):
            path = os.path.join(ctx.dir, "s-%s-%d" % (re.sub(r"\W", "_", j["name"]), n))
            failed, hang, out = replay(exe, s["inputs"], s.get("sched"), path, 60)
            if hang:
                incons.append("%s: a sample path ran out of time natively" % j["name"])
            elif failed:
                e = dict(kind="native", msg="a path the executor completed fails natively", where="?", stack="", inputs=s["inputs"], sched=s.get("sched"))
                p2 = os.path.join(rdir, "%s-native-%d" % (re.sub(r"\W", "_", j["name"]), n))
                shutil.copy(path, p2)
                json.dump(dict(property=pid, job=j["name"], error=e, defs=r["defs"], native_output=out), open(p2 + ".json", "w"), indent=1)
                viol.append((j, e, p2 + ".json"))
            else:
                validated += 1
                if len(samples) < 6:
                    samples.append(dict(job=j["name"], inputs=s["inputs"][:8]))
    with ThreadPoolExecutor(par) as ex:
        for f in [ex.submit(post, j) for j in jobs]:
            f.result()
    tot = lambda k: sum(r[k] for r in results.values())
    fnmap = {}
    for r in results.values():
        for n, (f, c, t) in r["functions"].items():
            if f.startswith("src/") or f.startswith("tools/"):
                o = fnmap.get(n, (f, 0, t)); fnmap[n] = (f, max(o[1], c), t)
    prop = checks.PROPS[pid]
    cov = dict(states=tot("paths"), transitions=tot("forks"), traces_validated_against_impl=validated,
               samples=samples or [dict(job=j["name"]) for j in jobs],
               exhaustive=not incons,
               explanation="Symbolic execution of the real functions: every path of each harness is explored, every branch on a symbolic byte and every assertion is decided by Z3 for all values; states=paths completed, transitions=forks on symbolic conditions.",
               solver="z3", queries_discharged=tot("queries"), query_cache_hits=tot("cache_hits"), answered_by_an_earlier_model=tot("model_hits"), solver_unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2), instructions=tot("instructions"),
               functions_encoded={n: "%s, %d/%d blocks" % v for n, v in sorted(fnmap.items())},
               jobs=[dict(job=r["name"], bounds=r["bounds"], defs=[d for d in r["defs"] if "=" in d], paths=r["paths"], pruned_by_assumptions=r["paths_assume"], queries=r["queries"], symbolic_bytes=r["vars"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall_s"], 1), witnesses=r["reached"], inconclusive=r["incomplete"]) for r in results.values()],
               inconclusive=sorted(set(incons)),
               unconfirmed_counterexamples=["%s: %s %s at %s" % (j["name"], e["kind"], e["msg"], e["where"]) for j, e, _ in unconf],
               known_findings=[k["what"] for k, _, _ in knownhit])
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=checks.COMMON_ASSUMPTIONS + prop.get("assume", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for r in results.values():
        print("  %-28s paths=%-7d ok=%-7d assume=%-5d queries=%-6d solver=%.1fs wall=%.1fs%s" % (r["name"], r["paths"], r["paths_ok"], r["paths_assume"], r["queries"], r["solver_s"], r["wall_s"], "  INCONCLUSIVE" if r["incomplete"] else ""))
    for s in sorted(set(incons)):
        print("INCONCLUSIVE property=%s %s" % (pid, s))
    for j, e, p in unconf:
        print("UNCONFIRMED property=%s job=%s %s: %s at %s [%s] (counterexample does not reproduce natively)" % (pid, j["name"], e["kind"], e["msg"], e["where"], e["stack"][:300]))
        if verbose: print("   inputs", e["inputs"])
    seen = set()
    for k, j, e in knownhit:
        if k["what"] not in seen:
            seen.add(k["what"]); print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for j, e, p in viol:
        print("  %s: %s: %s at %s\n    stack: %s\n    inputs: %s" % (j["name"], e["kind"], e["msg"], e["where"], e["stack"][:400], " ".join("%s=%s" % (n, h[:80]) for n, h in e["inputs"][:24])))
        if verbose: print(e["replay"]["output"] if "replay" in e else "")
    for j, e, p in viol:
        print("VIOLATION property=%s replay=%s" % (pid, p))
    print("property=%s tier=%s paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs violations=%d" % (pid, tier, cov["states"], cov["queries_discharged"], cov["solver_s"], validated, time.time() - t0, len(viol)))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
