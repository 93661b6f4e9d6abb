#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo by symbolic execution.

Compiles /repo's current sources and the property's harness to LLVM IR, lets
engine/symx explore every path with an SMT solver, replays what it finds (and a
sample of the paths it proved) on a native build, and writes evidence/<id>.json.
Exit 0: holds within the bounds. Exit 1 + VIOLATION line: broken. 2: no answer.
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/harness")
import spec  # noqa: E402

REPO = os.environ.get("SX_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = "/usr/bin/clang++-18"
SYMX = V + "/build/symx"
T0 = time.time()
BUDGET = float(os.environ.get("SX_BUDGET", "0")) or None
CPUS = int(os.environ.get("SX_JOBS", "0")) or os.cpu_count() or 4
procs, plock, stop = set(), threading.Lock(), threading.Event()


class CheckError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    if stop.is_set():
        raise CheckError("stopped")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, **kw)
    with plock:
        procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        raise CheckError("timeout: " + " ".join(cmd)[:200])
    finally:
        with plock:
            procs.discard(p)
    return p.returncode, o, e


def kill_all():
    stop.set()
    with plock:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def must(cmd, what, **kw):
    rc, o, e = run(cmd, **kw)
    if rc:
        raise CheckError(f"{what} failed:\n{' '.join(cmd)[:400]}\n{(e or o)[-3000:]}")
    return o


def build_engine():
    rc, o, e = run(["make", "-s", "-C", V + "/engine", "-j4"], timeout=900)
    if rc:
        raise CheckError("engine build failed:\n" + (e or o)[-3000:])


COMMON = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-iquote", REPO, f"-I{V}/rt", f"-I{V}/harness"]
SYM = ["-O1", "-fno-exceptions", "-fno-threadsafe-statics", "-fno-vectorize", "-fno-slp-vectorize",
       "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", f"-I{V}/shim", "-w",
       "-emit-llvm", "-c"]
FILEFNS = "fopen fclose fseek fseeko rewind ftell ftello fread fwrite feof ferror fflush".split()


def sym_build(P, W):
    """-> linked bitcode"""
    flags = COMMON + SYM + (["-DSX_STUB_FORMAT"] if P.get("stub_format") else []) + P.get("defs", [])
    jobs = [(f"{V}/rt/rt.cc", ["-fno-builtin"]), (f"{V}/harness/{P['harness']}", P.get("harness_flags", []))]
    jobs += [(f"{REPO}/{s}", P.get("src_defs", {}).get(s, [])) for s in P["srcs"]]
    outs = []

    def one(j):
        src, extra = j
        out = f"{W}/{src.strip('/').replace('/', '_')}.bc"
        must([CLANG] + flags + extra + [src, "-o", out], "compiling " + src)
        return out

    with cf.ThreadPoolExecutor(CPUS) as ex:
        outs = list(ex.map(one, jobs))
    more = also_needed(P, outs, one)
    P["_more"].set_result(more)
    out = W + "/linked.bc"
    must([LLVM + "llvm-link"] + outs + ["-o", out], "llvm-link")
    return out


def symbols(f):
    und, dfn = set(), set()
    for l in must([LLVM + "llvm-nm", f], "llvm-nm").split("\n"):
        t = l.split()
        if len(t) >= 2:
            (und if t[-2] == "U" else dfn).add(t[-1])
    return und, dfn


def also_needed(P, outs, one):
    """Other sources of the repository that the encoded ones now call; their bitcode is added to `outs`."""
    import glob
    und, dfn = set(), set()

    def add(f):
        u, d = symbols(f)
        und.update(u)
        dfn.update(d)
    for f in outs:
        add(f)
    more, rest = [], None
    while True:
        want = {x for x in und - dfn if x.startswith("_Z") and "5nsasm" in x}
        if not want:
            return more
        if rest is None:
            rest = {}
            for f in sorted(glob.glob(REPO + "/nsasm/*.cc") + glob.glob(REPO + "/util/*.cc")):
                s = f[len(REPO) + 1:]
                if s in P["srcs"] or s.endswith("_test.cc"):
                    continue
                try:
                    if re.search(r"\bint\s+main\s*\(", open(f, errors="replace").read()):
                        continue
                    b = one((f, []))
                    rest[s] = (b, symbols(b)[1])
                except (CheckError, OSError):
                    continue
        found = [s for s in rest if rest[s][1] & want]
        if not found:
            return more  # what stays undefined is reported if it is ever called
        for s in found:
            more.append(s)
            outs.append(rest[s][0])
            add(rest[s][0])
            del rest[s]


def native_build(P, W):
    san = ["-fsanitize=address,unreachable,return,bounds", "-fno-sanitize-recover=all", "-g1", "-O0",
           "-fno-omit-frame-pointer", "-w"]
    real = P.get("native", "real") == "real"
    flags = COMMON + san + ["-DSX_NATIVE"] + P.get("defs", [])
    if not real:
        flags += [f"-I{V}/shim"] + (["-DSX_STUB_FORMAT"] if P.get("stub_format") else [])
    libs = []
    if real:
        mods = "absl_str_format absl_strings absl_optional absl_variant absl_flat_hash_map absl_flat_hash_set absl_span absl_memory"
        libs = must(["pkg-config", "--libs"] + mods.split(), "pkg-config").split()
    jobs = [(f"{V}/rt/native.cc", [], False), (f"{V}/harness/{P['harness']}", P.get("harness_flags", []), False)]
    jobs += [(f"{REPO}/{s}", P.get("src_defs", {}).get(s, []), True) for s in P["srcs"]]

    def one(j):
        src, extra, isrepo = j
        out = f"{W}/{src.strip('/').replace('/', '_')}.o"
        must(["g++"] + flags + extra + ["-c", src, "-o", out], "compiling natively " + src)
        names = FILEFNS + ["main"] if P.get("filemock") else ["main"] if P.get("tool_main") else []
        if isrepo and names:
            must(["objcopy"] + [x for n in names for x in ("--redefine-sym", f"{n}=" + ("tool_main" if n == "main" else f"sx_{n}"))] + [out], "objcopy")
        return out

    with cf.ThreadPoolExecutor(CPUS) as ex:
        outs = list(ex.map(one, jobs))
        outs += list(ex.map(one, [(f"{REPO}/{s}", [], True) for s in P["_more"].result()]))
    exe = W + "/native"
    must(["g++"] + san + outs + ["-o", exe] + libs, "native link")
    return exe


def case_name(c):
    return c.get("name") or ",".join(f"{k}={v}" for k, v in c["params"].items()) or "all"


def explore(P, bc, c, i, W, tier):
    out = f"{W}/case{i}.json"
    tmo = c.get("timeout", 240 if tier == "quick" else 1500)
    if BUDGET:
        tmo = min(tmo, max(5, BUDGET - (time.time() - T0)))
    cmd = [SYMX, "--bc", bc, "--out", out, "--src", REPO, "--timeout", str(int(tmo)), "--samples", str(c.get("samples", 12)),
           "--seed", os.environ.get("VERIF_SEED", "1")]
    if tier == "thorough":
        os.makedirs(f"{W}/dump{i}", exist_ok=True)
        cmd += ["--dump", f"{W}/dump{i}", "--dump-every", "37"]
    for k, v in c["params"].items():
        cmd += ["--param", f"{k}={v}"]
    rc, o, e = run(["prlimit", f"--as={c.get('mem', 8) << 30}"] + cmd, timeout=tmo + 60)
    if rc or not os.path.exists(out):
        raise CheckError(f"engine failed on {case_name(c)} (exit {rc}): {(e or o)[-1500:]}")
    return json.load(open(out))


def record(c, text, rid):
    r = f"record {rid}\n"
    r += "".join(f"param {k} {v}\n" for k, v in c["params"].items())
    return r + "\n".join(l for l in text.split("\n") if l and not l.startswith("record")) + "\n"


def replay(exe, f):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=86:allocator_may_return_null=1", UBSAN_OPTIONS="exitcode=86")
    rc, o, e = run([exe, f], timeout=600, env=env)
    res = {}
    for l in o.split("\n"):
        m = re.match(r"RESULT (\S+) (\d+) ?(.*)", l)
        if m:
            res[m[1]] = (int(m[2]), m[3])
    return res


def crosscheck(W, limit=240):
    """Thorough tier: sampled queries again with cvc5 and the older z3."""
    qs = []
    for d in sorted(os.listdir(W)):
        if d.startswith("dump"):
            qs += [f"{W}/{d}/{f}" for f in sorted(os.listdir(f"{W}/{d}")) if f.endswith(".smt2")]
    step = max(1, len(qs) // limit)
    qs = qs[::step][:limit]
    bad, done = [], 0

    def one(q):
        want = "unsat" if ".unsat." in q else "sat"
        r = []
        for cmd in (["cvc5", "--tlimit=20000", q], ["/usr/bin/z3", "-T:20", q]):
            try:
                _, o, e = run(cmd, timeout=40)
            except CheckError:
                continue
            a = o.strip().split("\n")[0] if o.strip() else ""
            if "error" in o or "error" in e:
                continue
            if a in ("sat", "unsat"):
                r.append((cmd[0], a == want))
        return q, r

    with cf.ThreadPoolExecutor(CPUS) as ex:
        for q, r in ex.map(one, qs):
            done += len(r)
            bad += [(q, s) for s, ok in r if not ok]
    return done, bad


def known(pid):
    ks = []
    f = V + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) label=(\S+) (.*)", l)
            if m and m[1] == pid:
                ks.append((m[2], m[3].strip()))
    return ks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = spec.PROPS[pid]
    cases = [c for c in P["cases"] if tier == "thorough" or c.get("tier", "quick") == "quick"]
    if tier == "quick":
        cases = [c for c in cases if c.get("tier") != "thorough"]
    W = f"{V}/build/work/{pid}.{os.getpid()}"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    RD = f"{V}/build/replay/{pid}"
    shutil.rmtree(RD, ignore_errors=True)
    os.makedirs(RD)
    errors, viols, notes, per = [], [], [], []
    agg = dict(states=0, steps=0, forks=0, paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    reach, checks, fns, samples = {}, {}, {}, []
    validated = 0
    found_known = {}
    fatal = None
    crossed = None
    try:
        build_engine()
        with cf.ThreadPoolExecutor(2) as ex:
            P["_more"] = cf.Future()
            fs = ex.submit(sym_build, P, W)
            fs.add_done_callback(lambda f: P["_more"].set_result([]) if not P["_more"].done() else None)
            fn = ex.submit(native_build, P, W)
            bc = fs.result()
            exe = fn.result()
        kn = known(pid)
        ex = cf.ThreadPoolExecutor(CPUS)
        order = sorted(range(len(cases)), key=lambda i: -cases[i].get("cost", 1))
        fut = {ex.submit(explore, P, bc, cases[i], i, W, tier): i for i in order}
        stop_early = False
        for f in cf.as_completed(fut):
            i = fut[f]
            c = cases[i]
            try:
                r = f.result()
            except (CheckError, cf.CancelledError) as e:
                if not stop_early:
                    (notes if c.get("soft") else errors).append(f"{case_name(c)}: {e}")
                continue
            done = not r["timed_out"] and not r["incomplete"] and not r["unknown"]
            per.append(dict(case=case_name(c), bounds=c.get("bounds", ""), complete=done, paths=r["paths"], queries=r["queries"],
                            solver_s=round(r["solver_s"], 3), wall_s=round(r["wall_s"], 2)))
            for k in agg:
                agg[k] += r.get(k, 0)
            for src, dst in ((r["reach"], reach), (r["checks"], checks)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            for k, v in r.get("checks_concrete", {}).items():
                checks[k] = checks.get(k, 0) + v
            for g in r["functions"]:
                o = fns.setdefault(g["fn"], (set(), set()))
                o[0].update(g["hit"])
                o[1].update(g["all"])
            if not done:
                msg = f"{case_name(c)}: " + ("timed out; " if r["timed_out"] else "") + "; ".join(r["incomplete"][:3]) + (f" {r['unknown']} unknown" if r["unknown"] else "")
                (notes if c.get("soft") else errors).append(msg)
            # replay violations
            for n, v in enumerate(r["violations"]):
                path = f"{RD}/{i}-{n}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', v['label'])[:60]}.txt"
                open(path, "w").write(record(c, v["inputs"], "v"))
                code, text = replay(exe, path).get("v", (1, "no result"))
                if code == 0 or code in (78, 79, 80):
                    errors.append(f"{case_name(c)}: counterexample for '{v['label']}' ({v['kind']}, {v['where']}) does not reproduce natively "
                                  f"(exit {code} {text[:300]}); inputs in {path}")
                    continue
                m = re.search(r"CHECK-FAILED ([^\s|]+)", text)
                label = m[1] if m else v["label"]
                k = [x for x in kn if x[0] == label]
                if k:
                    found_known[label] = k[0][1]
                    continue
                viols.append((label, path, f"{v['kind']} {v['label']} at {v['where']}; native: exit {code} {text[:300]}"))
            if viols and not stop_early:
                stop_early = True
                for g in fut:
                    g.cancel()
                kill_all()
                stop.clear()
            # replay sampled complete paths
            if r["samples"] and not stop_early:
                path = f"{W}/samples{i}.txt"
                open(path, "w").write("".join(record(c, s, f"s{n}") for n, s in enumerate(r["samples"])))
                res = replay(exe, path)
                for n in range(len(r["samples"])):
                    code, text = res.get(f"s{n}", (1, "no result"))
                    if code:
                        errors.append(f"{case_name(c)}: sampled path {n} disagrees with the native run: exit {code} {text[:300]}\n{r['samples'][n][:600]}")
                    else:
                        validated += 1
                if len(samples) < 6:
                    samples.append(f"[{case_name(c)}] " + r["samples"][0].replace("\n", "; ")[:700])
        ex.shutdown()
        if not viols:
            for l in P.get("reach", []):
                if not reach.get(l):
                    errors.append(f"vacuity: no path reaches '{l}'")
            if not sum(checks.values()):
                errors.append("vacuity: no check was evaluated")
        if tier == "thorough" and not viols:
            n, bad = crosscheck(W)
            crossed = n
            for q, s in bad:
                errors.append(f"solver disagreement: {s} on {q}")
    except CheckError as e:
        fatal = str(e)
    finally:
        kill_all()
    if fatal:
        errors.append(fatal)
    cov = dict(states=agg["states"], transitions=agg["steps"], traces_validated_against_impl=validated,
               samples=samples, paths=agg["paths"], forks=agg["forks"],
               queries=dict(total=agg["queries"], sat=agg["sat"], unsat=agg["unsat"], unknown=agg["unknown"], solver_s=round(agg["solver_s"], 2)),
               functions_encoded=[f"{k} ({len(a)}/{len(b)} lines)" for k, (a, b) in sorted(fns.items()) if a],
               checks_discharged=checks, reachability_witnesses=reach, cases=per, bounds=P.get("bounds", ""),
               outside_bounds=P.get("outside", ""), incomplete_optional_cases=notes, errors=errors)
    if crossed is not None:
        cov["queries_confirmed_by_other_solvers"] = crossed
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=P.get("assumptions", []) + spec.COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 2), violations=len(viols))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    if not os.environ.get("SX_KEEP"):
        shutil.rmtree(W, ignore_errors=True)
    for l, t in sorted(found_known.items()):
        print(f"KNOWN-FINDING: property={pid} {l}: {t}")
    for n in notes:
        print("note (optional case not completed):", n[:300])
    if viols:
        for label, path, text in viols:
            print(f"  {label}: {text}")
        print(f"VIOLATION property={pid} replay={viols[0][1]}")
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e[:1500])
        return 2
    print(f"{pid}: holds within bounds; {agg['paths']} paths, {agg['queries']} queries ({agg['solver_s']:.1f}s solver), "
          f"{validated} paths replayed natively, {time.time() - T0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        kill_all()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
