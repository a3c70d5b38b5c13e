#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its real code.

  check.py <PROPERTY> [--tier quick|thorough] [--only RUN] [--keep] [-v]
  check.py --setup            build the executor and the library models
  check.py --list

Every invocation recompiles /repo's current sources to LLVM IR, links them with the
harness and the library models, runs the executor (engine/sxe: z3 decides every
branch, assertion and memory condition) and replays counterexamples and sample
witnesses on a native sanitizer build of the same sources.
exit 0: held on everything explored; 1: VIOLATION (replayed); 2: no verdict.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
B = os.path.join(V, "build")
CPUS = int(os.environ.get("SX_CPUS", "8"))
LL = "/usr/lib/llvm-18/bin/"
CLANGXX, CLANG = LL + "clang++", LL + "clang"
if not os.path.exists(CLANGXX):
    CLANGXX, CLANG, LL = "clang++-18", "clang-18", ""
sys.path.insert(0, V)
import plan

UB = "-fsanitize=signed-integer-overflow,shift-exponent,integer-divide-by-zero,return,unreachable -fsanitize-trap=all".split()
IRFLAGS = ("-O1 -gline-tables-only -fno-exceptions -fno-vectorize -fno-slp-vectorize -fno-unroll-loops "
           "-D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -w -emit-llvm -c -U__SSE2__ -U__SSE3__ -U__SSSE3__ -DNDEBUG_SX").split()
NATFLAGS = ("-O0 -gline-tables-only -w -fno-omit-frame-pointer -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS").split()
NATSAN = {
    "asan": ["-fsanitize=address,signed-integer-overflow,shift-exponent,integer-divide-by-zero,return,unreachable,null,bounds"],
    "tsan": ["-fsanitize=thread"],
}


class Fail(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise Fail("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd)[:600], (r.stderr or r.stdout)[-3000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ framework parts
def build_engine():
    src = [os.path.join(V, "engine", f) for f in ("expr.h", "expr.cc", "solver.h", "solver.cc", "interp.cc", "Makefile")]
    key = digest(*[rd(s) for s in src])
    exe = os.path.join(B, "sxe-" + key)
    if not os.path.exists(exe):
        d = os.path.join(B, "eng-%s-%d" % (key, os.getpid()))
        os.makedirs(d, exist_ok=True)
        sh(["make", "-s", "-j8", "-C", os.path.join(V, "engine"), "B=" + d])
        os.replace(os.path.join(d, "sxe"), exe)
        shutil.rmtree(d, ignore_errors=True)
    return exe


def shadow_headers():
    """absl's hash header with a constant mixer: hash values are a performance hint,
    a constant one makes every container lookup compare all members."""
    src = "/usr/include/absl/hash/internal/hash.h"
    txt = rd(src).decode()
    pat = re.compile(r"(ABSL_ATTRIBUTE_ALWAYS_INLINE static uint64_t Mix\(uint64_t state, uint64_t v\) \{)(.*?)(\n  \})", re.S)
    new, n = pat.subn(r"\1 (void)state; (void)v; return 1; }", txt, count=1)
    if n != 1:
        raise Fail("cannot shadow absl hash mixer")
    d = os.path.join(B, "shadow", "absl", "hash", "internal")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "hash.h")
    if not os.path.exists(p) or rd(p).decode() != new:
        t = p + ".%d" % os.getpid()
        open(t, "w").write(new)
        os.replace(t, p)
    return os.path.join(B, "shadow")


def incs(variant, native=False):
    r = []
    if not native:
        r += ["-I", shadow_headers()]
    r += ["-I", REPO, "-I", REPO + "/include", "-I", REPO + "/src/proto/upb-generated", "-I", V + "/shim"]
    if variant == "b":
        r += ["-isystem", "/usr/include/android"]
    return r


def cached_obj(src, flags, cc, tag):
    """compile a file of /verif (models, not code under test) with a content cache"""
    deps = [rd(src)] + [rd(h) for h in sorted(glob.glob(V + "/rt/*.h") + glob.glob(V + "/shim/upb/*"))]
    key = digest(tag, " ".join(flags), *deps)
    out = os.path.join(B, "rt", "%s-%s" % (os.path.basename(src), key) + (".bc" if "-emit-llvm" in flags else ".o"))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        sh([cc] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, out)
    return out


def std(cxx=True):
    return ["-std=c++14"] if cxx else []


def rt_ir(variant, cmdefs=()):
    inc = incs(variant) + ["-I", V + "/rt", "-I", V + "/harness"]
    vd = (["-DSX_BORING"] if variant == "b" else []) + ["-D" + d for d in cmdefs]
    jobs = [(V + "/rt/std_rt.cc", std() + IRFLAGS + inc + ["-fno-access-control"], CLANGXX),
            (V + "/rt/absl_rt.cc", std() + IRFLAGS + inc + ["-fno-access-control"], CLANGXX),
            (V + "/rt/crypto_model.cc", std() + IRFLAGS + inc + vd, CLANGXX),
            (V + "/rt/libc_rt.c", "-O1 -w -ffreestanding -emit-llvm -c".split(), CLANG),
            (V + "/shim/upb/upb_shim.c", IRFLAGS + ["-I", V + "/shim"], CLANG)]
    with cf.ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(lambda j: cached_obj(j[0], j[1], j[2], "ir" + variant), jobs))


def rt_native(variant, san, cmdefs=()):
    inc = incs(variant, True) + ["-I", V + "/rt", "-I", V + "/harness"]
    vd = (["-DSX_BORING"] if variant == "b" else []) + ["-D" + d for d in cmdefs]
    fl = NATFLAGS + NATSAN[san]
    jobs = [(V + "/rt/crypto_model.cc", std() + fl + inc + vd, CLANGXX),
            (V + "/rt/native_rt.cc", std() + (NATFLAGS + ["-DHAVE_TSAN"] if san == "tsan" else fl) + inc, CLANGXX),
            (V + "/rt/native_mutex.cc", std() + fl + inc + ["-fno-access-control"], CLANGXX),
            (V + "/shim/upb/upb_shim.c", fl + ["-I", V + "/shim"], CLANG)]
    with cf.ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(lambda j: cached_obj(j[0], j[1], j[2], san + variant), jobs))


# ------------------------------------------------------------------ code under test
def repo_sources(variant, tm):
    out = []
    for root in ("src",):
        for dp, dn, fn in os.walk(os.path.join(REPO, root)):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if not f.endswith((".cc", ".c", ".cpp")):
                    continue
                low = os.path.relpath(p, REPO).lower()
                if re.search(r"_test\.|test_util|/testing/|/tests?/|fuzz|benchmark|mock", low):
                    continue
                if variant == "o" and "boringssl" in low:
                    continue
                if variant == "b" and "openssl" in low:
                    continue
                if tm == "single" and "fake_access_token_manager" in low:
                    continue
                if tm == "fake" and "single_token_access_token_manager" in low:
                    continue
                out.append(p)
    return sorted(out)


def cmdefs(run):
    return tuple(d for d in run["defs"] if d.startswith("CM_"))


class Work:
    def __init__(self, prop):
        self.d = os.path.join(B, "work-" + prop)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.lock = threading.Lock()
        self.memo = {}

    def once(self, key, fn):
        with self.lock:
            f = self.memo.get(key)
            if f is None:
                f = self.memo[key] = cf.Future()
                own = True
            else:
                own = False
        if own:
            try:
                f.set_result(fn())
            except BaseException as e:
                f.set_exception(e)
        return f.result()

    def _objs(self, variant, tm, kind, flags, ext, extra=()):
        d = os.path.join(self.d, "%s-%s" % (kind, variant))
        os.makedirs(d, exist_ok=True)

        def comp(src):
            def go():
                o = os.path.join(d, os.path.relpath(src, REPO).replace("/", "_") + ext)
                c = src.endswith(".c")
                sh([CLANG if c else CLANGXX] + std(not c) + flags + incs(variant, kind != "ir") + list(extra) + ["-c", src, "-o", o])
                return o
            return self.once((kind, variant, src), go)
        with cf.ThreadPoolExecutor(CPUS) as ex:
            return list(ex.map(comp, repo_sources(variant, tm)))

    def repo_ir(self, variant, tm):
        def go():
            objs = self._objs(variant, tm, "ir", IRFLAGS + UB, ".bc")
            out = os.path.join(self.d, "repo-%s-%s.bc" % (variant, tm))
            # a definition that appears in several files (helper duplicated per variant) is a build error of /repo
            sh([LL + "llvm-link", "-o", out] + objs)
            return out
        return self.once(("repoir", variant, tm), go)

    def harness_ir(self, run):
        variant = run["variant"]
        name = run["name"]
        hb = os.path.join(self.d, name + ".h.bc")
        sh([CLANGXX] + std() + IRFLAGS + incs(variant) + ["-I", V + "/rt", "-I", V + "/harness", "-fno-access-control"] +
           ["-D" + d for d in run["defs"]] + ["-c", V + "/harness/" + run["src"], "-o", hb])
        repo = self.repo_ir(variant, run["tm"])
        cmd = cmdefs(run)
        rts = self.once(("rtir", variant, cmd), lambda: rt_ir(variant, cmd))
        out = os.path.join(self.d, name + ".bc")
        if run.get("override"):   # the harness replaces a function of /repo (observed boundary)
            sh([LL + "llvm-link", "-o", out + ".l", repo] + rts + ["--override=" + hb])
        else:
            sh([LL + "llvm-link", "-o", out + ".l", hb, repo] + rts)
        sh([LL + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=sx_main", out + ".l", "-o", out])
        os.unlink(out + ".l")
        return out

    def native(self, run, san):
        variant = run["variant"]
        flags = NATFLAGS + NATSAN[san]

        def go():
            objs = self._objs(variant, run["tm"], san, flags, ".o")
            cmd = cmdefs(run)
            rts = self.once(("rtn", variant, san, cmd), lambda: rt_native(variant, san, cmd))
            h = os.path.join(self.d, "%s.%s.o" % (run["name"], san))
            sh([CLANGXX] + std() + flags + incs(variant, True) + ["-I", V + "/rt", "-I", V + "/harness", "-fno-access-control"] +
               ["-D" + d for d in run["defs"]] + ["-c", V + "/harness/" + run["src"], "-o", h])
            exe = os.path.join(self.d, "%s.%s" % (run["name"], san))
            absl = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
            sh([CLANGXX] + flags + ["-o", exe, h] + rts + objs + ["-Wl,-z,muldefs", "-Wl,--wrap=getenv", "-Wl,--start-group"] + absl +
               ["-Wl,--end-group", "-lpthread"])
            return exe
        return self.once(("nat", run["name"], san), go)


REPRO = {99: "assertion of the property fails", 98: "sanitizer report", 97: "abort", 96: "deadlock or no termination", 66: "data race", 139: "crash", -11: "crash", 134: "abort", -6: "abort"}


def env_nat(run, free=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=98:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:hard_rss_limit_mb=6000"
    e["UBSAN_OPTIONS"] = "exitcode=98:halt_on_error=1:print_stacktrace=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:suppressions=" + V + "/rt/tsan.supp"
    e["SX_PREEMPT"] = str(run.get("preempt", 2))
    if free:
        e["SX_FREE_RUN"] = "1"
    return e


def replay(work, run, errfile, kind):
    """(confirmed, description, text)"""
    txt = ""
    exe = work.native(run, "asan")
    lim = 20 if kind == "hang" else 60
    try:
        r = subprocess.run([exe, errfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_nat(run), timeout=lim)
        txt = r.stdout.decode(errors="replace")
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc, txt = 96, "no termination within %d s\n" % lim
    if rc in REPRO:
        return True, REPRO[rc], txt
    if kind == "race":
        exe = work.native(run, "tsan")
        for k in range(20):   # the recorded schedule first, then free-running threads
            try:
                r = subprocess.run([exe, errfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_nat(run, k > 0), timeout=60)
            except subprocess.TimeoutExpired:
                continue
            txt = r.stdout.decode(errors="replace")
            if r.returncode in (66, 98) and "ThreadSanitizer: data race" in txt:
                return True, "data race (ThreadSanitizer)", txt
    if kind == "uninit":
        return False, "", txt
    return False, "native run ended with %d" % rc, txt


def parse_err(p):
    d = {"file": p, "in": []}
    for l in open(p, errors="replace"):
        l = l.rstrip("\n")
        if l.startswith("KIND "): d["kind"] = l[5:]
        elif l.startswith("MSG "): d["msg"] = l[4:]
        elif l.startswith("SITE "): d["site"] = l[5:]
        elif l.startswith("IN "): d["in"].append(l[3:])
    return d


def parse_wit(p):
    ins, obs = [], []
    for l in open(p):
        l = l.strip()
        if l.startswith("IN "): ins.append(l[3:])
        elif l.startswith("OBS "): obs.append(l[4:])
    return ins, obs


def run_one(work, engine, run, jobs, deadline, stop):
    res = {"name": run["name"], "bounds": run["bounds"], "variant": {"o": "OpenSSL", "b": "BoringSSL"}[run["variant"]]}
    t0 = time.time()
    bc = work.harness_ir(run)
    od = os.path.join(work.d, "out-" + run["name"])
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    pre = sh([CLANGXX] + std() + IRFLAGS + incs(run["variant"]) + ["-I", V + "/rt", "-I", V + "/harness", "-w"] + ["-D" + d for d in run["defs"]] +
             ["-E", "-P", "-o", "-", V + "/harness/" + run["src"]])
    labels = sorted(set(re.findall(r'sx_reach\(\s*"([^"]*)"\s*\)', pre)))
    tmo = min(run["timeout"], deadline - time.time())
    if tmo < 3:
        raise Fail("not started: out of time")
    cmd = [engine] + [x for l in labels for x in ("--reach", l)] + ["-o", od, "-j", str(jobs), "-t", str(int(tmo)), "--repo", REPO, "--preempt", str(run.get("preempt", 2)),
           "--max-errors", str(run.get("max_errors", 6))] + [str(x) for x in run.get("opts", [])] + [bc]
    lf = open(os.path.join(od, "log"), "wb")
    pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=lf, start_new_session=True)
    end = time.time() + tmo + 20
    rc = None
    while True:
        try:
            rc = pr.wait(0.5)
            break
        except subprocess.TimeoutExpired:
            if stop.is_set() or time.time() > end:
                try:
                    os.killpg(pr.pid, 9)
                except ProcessLookupError:
                    pass
                pr.wait()
                rc = 125 if stop.is_set() else 124
                break
    lf.close()
    log = {124: "executor did not stop", 125: "stopped: another run has a violation"}.get(rc) or open(lf.name, errors="replace").read()
    res["log"] = log[-4000:]
    res["out"] = od
    sj = os.path.join(od, "summary.json")
    res["summary"] = json.load(open(sj)) if os.path.exists(sj) else None
    res["rc"] = rc
    res["errors"] = [parse_err(p) for p in sorted(glob.glob(od + "/err_*.txt"))]
    res["seconds"] = time.time() - t0
    return res


def validate_witnesses(work, run, res, limit):
    """replay sample complete paths natively and compare every observation"""
    n = ok = 0
    bad = []
    samples = []
    wits = sorted(glob.glob(res["out"] + "/wit_*.txt"))[:limit]
    if not wits:
        return 0, [], []
    exe = work.native(run, "asan")
    for w in wits:
        ins, obs = parse_wit(w)
        of = w + ".obs"
        e = env_nat(run)
        e["SX_STRICT"] = "1"
        try:
            r = subprocess.run([exe, w, of], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=60)
        except subprocess.TimeoutExpired:
            bad.append((w, "timeout"))
            continue
        n += 1
        got = parse_wit(of)[1] if os.path.exists(of) else []
        if r.returncode != 0:
            bad.append((w, "exit %d: %s" % (r.returncode, r.stdout.decode(errors="replace")[-600:])))
        elif got != obs:
            d = next((i for i in range(max(len(got), len(obs))) if i >= len(got) or i >= len(obs) or got[i] != obs[i]), 0)
            bad.append((w, "observation %d differs: model %s native %s" % (d, obs[d:d + 1], got[d:d + 1])))
        else:
            ok += 1
        if len(samples) < 2:
            samples.append({"run": run["name"], "inputs": [x[:160] for x in ins[:12]], "observed": obs[:12]})
    return ok, bad, samples


def known_findings():
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) run=(\S+) kind=(\S+) msg=\[(.*?)\] where=\[(.*?)\]\s*(.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--no-witness", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    if a.list:
        for p in sorted(plan.PLAN):
            for r in plan.PLAN[p]["runs"]:
                print(p, r["name"], r["tier"], r["timeout"])
        return 0
    if a.setup:
        build_engine()
        for v in "ob":
            rt_ir(v)
            rt_native(v, "asan")
        print("setup done in %.1f s" % (time.time() - t0))
        return 0
    prop = a.prop
    spec = plan.PLAN[prop]
    tier = a.tier
    runs = [r for r in spec["runs"] if (r["tier"] == "quick" or tier == "thorough") and (not a.only or re.fullmatch(a.only, r["name"]))]
    if tier == "quick":
        runs = [r for r in runs if r["tier"] == "quick"]
    else:
        over = {r.get("replaces") for r in runs if r.get("replaces")}
        runs = [r for r in runs if r["name"] not in over]
    engine = build_engine()
    work = Work(prop)
    results = {}
    problems = []
    viol, known, unconf = [], [], []
    # weighted parallelism
    sem = threading.Semaphore(CPUS)
    kf = known_findings()
    stop = threading.Event()
    deadline = t0 + (640 if tier == "quick" else 6 * 3600)
    big = threading.Lock()

    def go(run):
        j = min(run.get("jobs", 1), CPUS)
        with big:
            for _ in range(j):
                sem.acquire()
        try:
            if stop.is_set():
                raise Fail("not started: another run has a violation")
            res = run_one(work, engine, run, j, deadline, stop)
        finally:
            for _ in range(j):
                sem.release()
        confirm(run, res)
        s = res["summary"]
        if s and s["complete"] and not res["errors"] and not a.no_witness and not run.get("no_witness") and not stop.is_set():
            try:
                res["wit"] = validate_witnesses(work, run, res, 4 if tier == "quick" else 16)
            except Fail as x:
                res["witfail"] = str(x)
        return res

    def confirm(run, res):
        """replays the counterexamples of a run against the real code"""
        hangs = 0
        for i, e in enumerate(res["errors"]):
            if e.get("kind") == "hang":
                hangs += 1
                if hangs > 1:
                    e["skip"] = True
                    continue
            try:
                okc, how, txt = replay(work, run, e["file"], e.get("kind", ""))
            except Fail as x:
                okc, how, txt = False, "native build failed: %s" % x, ""
            e["how"], e["txt"] = how, txt
            e["stack"] = open(e["file"], errors="replace").read()
            e["confirmed"] = okc
            e["known"] = [x for x in kf if x[0] == prop and re.fullmatch(x[1], run["name"]) and x[2] == e["kind"] and x[3] in e["msg"] and x[4] in e["stack"]]
            if okc and not e["known"]:
                stop.set()
    try:
        for v, tm in sorted({(r["variant"], r["tm"]) for r in runs}):
            work.repo_ir(v, tm)
    except Fail as e:
        print("NO-VERDICT property=%s /repo does not compile for the executor: %s" % (prop, e))
        return 2
    with cf.ThreadPoolExecutor(len(runs) or 1) as ex:
        futs = {ex.submit(go, r): r for r in sorted(runs, key=lambda r: -r["timeout"])}
        for f in cf.as_completed(futs):
            r = futs[f]
            try:
                results[r["name"]] = f.result()
            except Exception as e:
                problems.append("%s: %s" % (r["name"], e))
                results[r["name"]] = None
    validated = 0
    samples = []
    rdir = os.path.join(V, "evidence", "replay")
    for run in runs:
        res = results.get(run["name"])
        if not res:
            continue
        s = res["summary"]
        for i, e in enumerate(res["errors"]):
            if e.get("skip"):
                continue
            how, txt, stack = e["how"], e["txt"], e["stack"]
            if not e["confirmed"]:
                unconf.append((run, e, how))
                if a.v:
                    print(txt[-1500:])
                continue
            if e["known"]:
                known.append((run, e, e["known"][0][5]))
                continue
            os.makedirs(rdir, exist_ok=True)
            dst = os.path.join(rdir, "%s-%s-%d.txt" % (prop, run["name"], i))
            with open(dst, "w") as f:
                f.write("property %s run %s (%s)\nnative replay: %s\n" % (prop, run["name"], run["bounds"], how))
                f.write(stack)
                f.write("NATIVE OUTPUT\n" + txt[-6000:])
            viol.append((run, e, dst))
        if not s:
            problems.append("%s: executor gave no summary (rc %s) %s" % (run["name"], res["rc"], res["log"][-500:]))
        elif not s["complete"] and not res["errors"]:
            ee = os.path.join(res["out"], "engine_error.txt")
            problems.append("%s: not complete (timeout=%s limit=%s engine_errors=%s lost=%s) %s" % (
                run["name"], s["timeout"], s["limit"], s["engine_errors"], s["lost"], open(ee).read()[:1500] if os.path.exists(ee) else res["log"][-300:]))
        elif not res["errors"]:
            for l in run["reach"]:
                if not s["reach"].get(l):
                    problems.append("%s: vacuous, never reached '%s'" % (run["name"], l))
            miss = [l for l in s["reach"] if not s["reach"][l] and not l.startswith("opt:")]
            if miss and not run.get("reach_any"):
                problems.append("%s: vacuous, never reached %s" % (run["name"], miss))
        if "wit" in res:
            ok, bad, smp = res["wit"]
            validated += ok
            samples += smp
            for w, m in bad:
                problems.append("%s: witness %s does not replay natively: %s" % (run["name"], os.path.basename(w), m))
        if "witfail" in res:
            problems.append("%s: native build failed: %s" % (run["name"], res["witfail"]))
        if a.v and s:
            print("  %-28s %6.1fs paths=%d queries=%d asserts=%d errors=%d complete=%s solver=%.1fs instr<=%d" % (
                run["name"], res["seconds"], s["paths"], s["queries"], s["asserts_checked"], s["errors"], s["complete"], s["solver_seconds"], s["max_path_instructions"]))
    for run, e, how in unconf:
        problems.append("%s: counterexample not reproduced natively (%s): %s %s at %s" % (run["name"], how, e.get("kind"), e.get("msg"), e.get("site")))
    write_evidence(prop, spec, tier, runs, results, validated, samples, len(viol), known, problems, time.time() - t0)
    for run, e, txt in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    for run, e, dst in viol:
        print("violated in %s: %s: %s at %s" % (run["name"], e["kind"], e["msg"], e["site"]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    for p in problems:
        print("NO-VERDICT %s" % p if not viol else "note: %s" % p)
    if not a.keep:
        shutil.rmtree(work.d, ignore_errors=True)
    rc = 1 if viol else 2 if problems else 0
    print("%s %s: %s in %.1f s (%d runs)" % (prop, tier, {0: "held", 1: "VIOLATED", 2: "no verdict"}[rc], time.time() - t0, len(runs)))
    return rc


def write_evidence(prop, spec, tier, runs, results, validated, samples, nviol, known, problems, wall):
    tot = {}
    funcs = {}
    per = []
    for run in runs:
        r = results.get(run["name"])
        s = r and r["summary"]
        if not s:
            continue
        for k in ("paths", "infeasible_paths", "forks", "instructions", "queries", "sat", "unsat", "unknown", "asserts_checked", "memory_checks", "solver_seconds"):
            tot[k] = tot.get(k, 0) + s[k]
        for f, (c, t) in s["functions"].items():
            o = funcs.get(f, [0, 0])
            funcs[f] = [max(o[0], c), max(o[1], t)]
        per.append({"run": run["name"], "library": r["variant"], "bounds": run["bounds"], "complete": s["complete"], "paths": s["paths"],
                    "queries": s["queries"], "unsat": s["unsat"], "sat": s["sat"], "assertions_checked": s["asserts_checked"],
                    "memory_conditions_checked": s["memory_checks"], "solver_s": s["solver_seconds"], "wall_s": round(r["seconds"], 2), "reached": s["reach"]})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": int(tot.get("forks", 0)) + len(per), "transitions": int(tot.get("instructions", 0)), "traces_validated_against_impl": validated,
                       "samples": samples[:6], "exhaustive": not problems,
                       "paths_completed": int(tot.get("paths", 0)), "solver_queries": int(tot.get("queries", 0)), "queries_unsat": int(tot.get("unsat", 0)),
                       "queries_sat": int(tot.get("sat", 0)), "queries_unknown": int(tot.get("unknown", 0)), "assertions_checked": int(tot.get("asserts_checked", 0)),
                       "memory_conditions_checked": int(tot.get("memory_checks", 0)), "solver_seconds": round(tot.get("solver_seconds", 0), 3),
                       "functions_encoded": {k: "%d/%d lines" % tuple(v) for k, v in sorted(funcs.items())},
                       "runs": per, "outside_the_bounds": spec.get("outside", ""), "known_findings": [x[2] for x in known], "problems": problems},
          "assumptions": plan.ASSUME + spec.get("assume", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
