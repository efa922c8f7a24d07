#!/usr/bin/env python3
"""Driver: real sources + harness -> LLVM IR -> C -> CBMC; counterexamples replayed on the native build.

usage: vf.py check <PROPERTY> | setup | list | unit <PROPERTY> <unit-name>
exit 0 held, 1 violation (line "VIOLATION property=<id> replay=<path>"), 2 inconclusive/error of the check."""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

ENGINE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(ENGINE)
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ENGINE)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VF_JOBS", "8"))
MEM = int(os.environ.get("VF_MEM_GB", "12"))
log_lock = threading.Lock()
STRICT = os.environ.get("VF_STRICT")
DEADLINE = time.time() + (820 if os.environ.get("VERIF_TIER", "quick") == "quick" else 24 * 3600)   # a verdict is due by then
VERBOSE = os.environ.get("VF_VERBOSE")


def say(*a):
    with log_lock:
        print(*a, flush=True)


class Err(Exception):
    pass


def run(cmd, timeout=120, env=None, cwd=None, mem=None, ok=(0,)):
    def lim():
        os.setpgid(0, 0)
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=lim,
                         text=True, errors="replace")
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "", "timeout"
    if ok is not None and p.returncode not in ok:
        raise Err("command failed (%s): %s\n%s%s" % (p.returncode, " ".join(cmd), out[-2000:], err[-4000:]))
    return p.returncode, out, err


def build_ir2c():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ENGINE, "ir2c.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "ir2c-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        run(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
             "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"],
            timeout=600)
        os.rename(tmp, exe)
    return exe


class Unit:
    """One harness = one group of solver queries."""
    def __init__(self, name, src, repo=(), models=(), defs=(), unwind=8, unwind_max=0, inc=(), cxx=(), exc=False,
                 timeout=200, tier="qt", fallback=(), cbmc=(), link=(), objbits=10, note="", bounds="", hang=True,
                 solver="cadical", replay_cxx=(), slow=False, hk=64, unwindset=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def variant(self, defs, tag):
        d = dict(self.__dict__)
        d["defs"] = tuple(defs)
        d["name"] = self.name + tag
        d["fallback"] = ()
        return Unit(**d)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.ir2c = build_ir2c()
        self.cache = {}
        self.lock = threading.Lock()
        self.sem = threading.Semaphore(JOBS)

    def once(self, key, fn):
        with self.lock:
            if key not in self.cache:
                self.cache[key] = (threading.Lock(), [])
            lk, val = self.cache[key]
        with lk:
            if not val:
                try:
                    val.append((True, fn()))
                except Err as e:
                    val.append((False, e))
        okv, v = val[0]
        if not okv:
            raise v
        return v


def src_path(u, s):
    return s if s.startswith("/") else os.path.join(REPO, s)


def flags(u):
    f = ["-std=c++17", "-I" + os.path.join(ROOT, "harness"), "-I" + os.path.join(ROOT, "mocks")]
    for i in u.inc:
        f.append("-I" + (i if i.startswith("/") else os.path.join(ROOT, i)))
    f += ["-I" + REPO] + ["-D" + d for d in u.defs] + list(u.cxx)
    f += ["-fexceptions"] if u.exc else []
    return f


def compile_bc(ctx, u, path):
    fl = flags(u) + ([] if u.exc else ["-fno-exceptions"])
    key = hashlib.sha256((path + "\0" + "\0".join(fl)).encode()).hexdigest()[:20]
    out = os.path.join(ctx.dir, key + ".bc")

    def go():
        with ctx.sem:
            run(["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-w", "-DVF_SYMBOLIC"] + fl +
                [path, "-o", out])
        return out
    return ctx.once(("bc", key), go)


def harness_path(u):
    return os.path.join(ROOT, "harness", u.src)


def build_sym(ctx, u):
    srcs = [harness_path(u)] + [src_path(u, s) for s in u.repo]
    with cf.ThreadPoolExecutor(4) as ex:
        bcs = list(ex.map(lambda p: compile_bc(ctx, u, p), srcs))
        mds = list(ex.map(lambda p: compile_bc(ctx, u, os.path.join(ROOT, "models", p)), u.models))
    base = os.path.join(ctx.dir, "u-" + u.name)
    with ctx.sem:
        run(["llvm-link-18"] + bcs + ["--override=" + m for m in mds] + ["-o", base + ".l.bc"])
        run(["opt-18", "-passes=sroa,mem2reg", base + ".l.bc", "-o", base + ".bc"])
        run([ctx.ir2c, base + ".bc", base + ".c", base + ".json"])
    info = json.load(open(base + ".json"))
    enc = [f for f in info["encoded"] if os.path.realpath(f["file"]).startswith(os.path.realpath(REPO) + "/")]
    return base + ".c", info, enc


def build_native(ctx, u, variant="asan", outdir=None):
    """variants differ only in what uninitialised stack memory holds."""
    base = os.path.join(ctx.dir, "n-" + u.name + "-" + variant)

    def go():
        with ctx.sem:
            fl = flags(u) + ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,alignment,vptr,function",
                             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DVF_NATIVE"] + list(u.replay_cxx)
            if variant == "pattern":
                fl.append("-ftrivial-auto-var-init=pattern")
            if variant == "zero":
                fl.append("-ftrivial-auto-var-init=zero")
            run(["clang", "-c", "-O1", "-w", "-I" + ENGINE, os.path.join(ENGINE, "vf_native_impl.c"), "-o", base + ".rt.o"])
            run(["clang++"] + fl + [harness_path(u)] + [src_path(u, s) for s in u.repo] + [base + ".rt.o", "-o", base] +
                ["-l" + l for l in u.link], timeout=300)
        return base
    return ctx.once(("native", u.name, variant), go)


REPRO = {10: "assertion failed", 11: "undefined behaviour / memory error", "hang": "does not terminate", "crash": "crash"}


def replay(ctx, u, inputs, variant="asan", timeout=20):
    exe = build_native(ctx, u, variant)
    fd, path = tempfile.mkstemp(prefix="in-", dir=ctx.dir)
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(str(v) for v in inputs) + "\n")
    env = dict(os.environ, VF_INPUT=path, ASAN_OPTIONS="exitcode=11:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0",
               UBSAN_OPTIONS="exitcode=11:halt_on_error=1:print_stacktrace=1")
    rc, out, err = run([exe], timeout=timeout, env=env, ok=None)
    if rc is None:
        return "hang", out
    if rc < 0:
        return "crash", out + err
    return rc, out + err


INPUT_RE = re.compile(r"^  INPUT [^:]+: .*\(([01 ]+)\)\s*$")
STEP_RE = re.compile(r"^State \d+ .*function (\S+)")


def parse_inputs(lines):
    ins = []
    for l in lines:
        m = INPUT_RE.match(l)
        if m:
            ins.append(int(m.group(1).replace(" ", ""), 2))
    return ins


def loop_bounds(ctx, u, cfile, k):
    """Loops of the harness itself have constant bounds, so they get a bound of their own (u.hk)."""
    def go():
        with ctx.sem:
            _, out, _ = run(["cbmc", "-DVF_CBMC", "-I" + ENGINE, cfile, "--drop-unused-functions", "--show-loops"])
        return re.findall(r"^Loop (\S+):$", out, re.M)
    loops = ctx.once(("loops", cfile), go)
    mine = {"F_" + f["symbol"] for f in json.load(open(cfile[:-2] + ".json"))["encoded"]
            if os.path.realpath(f["file"]).startswith(os.path.realpath(ROOT) + "/")}
    r = []
    for l in loops:
        fn = l.rsplit(".", 1)[0]
        for pat, n in u.unwindset:
            if pat in fn:
                r.append("%s:%d" % (l, n))
                break
        else:
            if fn in mine:
                r.append("%s:%d" % (l, max(k, u.hk)))
    return ",".join(r)


def cbmc(ctx, u, cfile, k, witness, timeout):
    cmd = ["cbmc", "-DVF_CBMC", "-I" + ENGINE, cfile, "--no-malloc-may-fail", "--object-bits", str(u.objbits),
           "--trace", "--verbosity", "8", "--unwind", str(k), "--drop-unused-functions", "--slice-formula"]
    us = loop_bounds(ctx, u, cfile, k)
    if us:
        cmd += ["--unwindset", us]
    if u.solver in ("cadical", "minisat2"):
        cmd += ["--sat-solver", u.solver]
    elif u.solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    else:
        cmd += ["--" + u.solver]
    cmd += list(u.cbmc)
    if u.exc:
        cmd += ["-DVF_EXCEPTIONS"]
    if witness:
        cmd += ["-DVF_WITNESS", "--no-standard-checks", "--no-unwinding-assertions"]
    else:
        cmd += ["--unwinding-assertions", "--stop-on-fail", "--no-signed-overflow-check", "--no-div-by-zero-check", "--no-undefined-shift-check"]
    t0 = time.time()
    with ctx.sem:
        t1 = time.time()
        rc, out, err = run(cmd, timeout=max(1, min(timeout, DEADLINE - t1)), mem=MEM, ok=None)
    r = {"k": k, "wall": round(time.time() - t1, 2), "cmd": " ".join(cmd), "out": out}
    if rc is None:
        r["status"] = "timeout"
        return r

    def grab(rx, cast=float):
        m = re.findall(rx, out)
        return [cast(x) for x in m]
    r["solver_s"] = round(sum(grab(r"Runtime Solver: ([0-9.e+-]+)s")), 3)
    v = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", out)
    r["vccs"], r["vccs_solved"] = (int(v.group(1)), int(v.group(2))) if v else (0, 0)
    v = re.findall(r"(\d+) variables, (\d+) clauses", out)
    r["vars"], r["clauses"] = (max(int(a) for a, _ in v), max(int(b) for _, b in v)) if v else (0, 0)
    v = re.search(r"size of program expression: (\d+) steps", out)
    r["steps"] = int(v.group(1)) if v else 0
    v = re.search(r"\*\* (\d+) of (\d+) failed", out)
    r["props"] = int(v.group(2)) if v else 0
    lines = out.splitlines()
    if witness:
        if rc not in (0, 10):
            r["status"] = "error"
            r["err"] = (out[-1500:] + err[-1500:])
            return r
        names, failed = {}, []
        for l in lines:
            m = re.match(r"^\[(\S+)\] .*\[witness\] (.*): (SUCCESS|FAILURE)$", l)
            if m:
                names.setdefault(m.group(2), []).append(m.group(3))
        traces, cur, label = [], None, None
        for l in lines:
            if l.startswith("Trace for "):
                cur = []
            elif cur is not None:
                m = re.match(r"^  \[witness\] (.*)$", l)
                if m:
                    traces.append((m.group(1), parse_inputs(cur)))
                    cur = None
                else:
                    cur.append(l)
        r["labels"] = {n: ("FAILURE" in s) for n, s in names.items()}
        r["traces"] = traces
        r["status"] = "ok"
        return r
    if rc == 0 and "VERIFICATION SUCCESSFUL" in out:
        r["status"] = "ok"
        return r
    if rc == 10 and "VERIFICATION FAILED" in out:
        i = out.rfind("Violated property:")
        what = [x.strip() for x in out[i:].splitlines()[1:3]] if i >= 0 else ["?", "?"]
        r["where"], r["what"] = what[0], what[1]
        r["inputs"] = parse_inputs(lines)
        r["status"] = "unwind" if what[1].startswith("unwinding assertion") or what[1].startswith("recursion") else "fail"
        return r
    r["status"] = "error"
    r["err"] = (out[-1500:] + err[-1500:])
    return r


def concretely(ctx, u, inputs):
    """Run the counterexample on the real code; a dict when it reproduces."""
    last = None
    for variant in ("asan", "pattern", "zero"):
        rc, out = replay(ctx, u, inputs, variant)
        last = (rc, out)
        if rc in REPRO:
            if rc == "hang" and not u.hang:
                continue
            return {"rc": rc, "variant": variant, "kind": REPRO[rc], "out": out}
    return {"rc": last[0], "out": last[1], "kind": None}


def solve_unit(ctx, u):
    t0 = time.time()
    res = {"unit": u.name, "bounds": u.bounds, "note": u.note, "status": "?"}
    cfile, info, enc = build_sym(ctx, u)
    res["functions"] = sorted({"%s (%s:%d)" % (f["name"], os.path.relpath(os.path.realpath(f["file"]), os.path.realpath(REPO)), f["line"]) for f in enc})
    res["ir_functions"], res["ir_instructions"] = info["functions"], info["instructions"]
    tmo = u.timeout * (4 if TIER == "thorough" else 1)
    k = u.unwind
    kmax = u.unwind_max or max(4 * u.unwind, 40)
    res["queries"] = []
    with cf.ThreadPoolExecutor(1) as ex:
        wfut = ex.submit(cbmc, ctx, u, cfile, k, True, tmo)
        while True:
            r = cbmc(ctx, u, cfile, k, False, tmo)
            res["queries"].append({x: r.get(x) for x in ("k", "wall", "solver_s", "vccs", "vccs_solved", "vars", "clauses", "steps", "props", "status")})
            if r["status"] in ("ok", "timeout", "error"):
                break
            c = concretely(ctx, u, r["inputs"])
            if c["kind"]:
                res.update(status="violation", what=r["what"], where=r["where"], inputs=r["inputs"], concrete=c)
                break
            if r["status"] == "unwind" and k < kmax:
                k = min(2 * k, kmax)
                continue
            res.update(status="inconclusive", what="%s at %s; native replay: %s %s" % (r["what"], r["where"], c["rc"], c["out"][-1500:]), inputs=r["inputs"])
            break
        if r["status"] == "timeout":
            res.update(status="timeout", what="solver limit of %d s reached" % tmo)
        if r["status"] == "error":
            res.update(status="inconclusive", what="cbmc error: " + r["err"])
        w = wfut.result()
    if r["status"] == "ok":
        res["status"] = "ok"
        res["unwind"] = k
        if k != u.unwind:
            w = cbmc(ctx, u, cfile, k, True, tmo)
        if w["status"] != "ok":
            res.update(status="timeout" if w["status"] == "timeout" else "inconclusive", what="witness query: " + w.get("err", w["status"]))
        else:
            unreach = [n for n, f in w["labels"].items() if not f]
            if unreach or not w["labels"]:
                res.update(status="inconclusive", what="vacuous: not reachable within the bounds: %s" % unreach)
            res["witnesses"] = []
            for label, ins in w["traces"]:
                rc, out = replay(ctx, u, ins)
                agreed = rc in (0, 78) and ("VF: witness " + label) in out
                res["witnesses"].append({"label": label, "inputs": ins[:40], "native_agrees": agreed})
                if rc in REPRO:
                    # the encoding says this run is fine, the real code disagrees
                    res.update(status="violation", what="native run of a witness fails: " + REPRO[rc], where=label, inputs=ins,
                               concrete={"rc": rc, "variant": "asan", "kind": REPRO[rc], "out": out})
                elif not agreed and res["status"] == "ok":
                    res.update(status="inconclusive", what="translation disagrees with the native run on witness %s: rc %s %s" % (label, rc, out[-600:]))
    res["wall"] = round(time.time() - t0, 2)
    return res


def do_unit(ctx, u):
    """A unit, or its fallback with smaller bounds when the solver limit is reached."""
    try:
        r = solve_unit(ctx, u)
    except Err as e:
        return {"unit": u.name, "status": "inconclusive", "what": str(e), "queries": [], "functions": []}
    if r["status"] == "timeout" and u.fallback:
        subs = []
        for i, d in enumerate(u.fallback):
            f = u.variant(d, "_fb%d" % i)
            f.bounds = u.bounds + " [reduced to: %s]" % " ".join(d)
            try:
                subs.append(solve_unit(ctx, f))
            except Err as e:
                subs.append({"unit": f.name, "status": "inconclusive", "what": str(e), "queries": [], "functions": []})
            if subs[-1]["status"] == "violation":
                break
        for s in subs:
            s["unit_obj"] = None
        bad = [s for s in subs if s["status"] != "ok"]
        top = dict(bad[0] if bad else subs[0])
        top["queries"] = r["queries"] + [q for s in subs for q in s["queries"]]
        top["reduced"] = True
        if bad:
            top["fallback_defs"] = list(u.fallback[subs.index(bad[0])])
        return top
    return r


def load_known():
    known = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                known.append(json.loads(l))
    return known


def save_replay(ctx, u, r):
    base = os.path.join(BUILD, "replay", "%s-%s" % (ctx.prop, u.name))
    os.makedirs(base, exist_ok=True)
    uu = u
    if r.get("fallback_defs"):
        uu = u.variant(r["fallback_defs"], "_fb")
    exe = build_native(ctx, uu, r["concrete"].get("variant", "asan"))
    shutil.copy(exe, os.path.join(base, "harness"))
    with open(os.path.join(base, "input"), "w") as f:
        f.write("\n".join(str(v) for v in r["inputs"]) + "\n")
    with open(os.path.join(base, "what.txt"), "w") as f:
        f.write("property %s, harness %s (%s)\nsolver: %s at %s\nnative: %s\n\n%s\n" % (
            ctx.prop, u.name, u.src, r["what"], r["where"], r["concrete"]["kind"], r["concrete"]["out"]))
    with open(os.path.join(base, "replay.sh"), "w") as f:
        f.write("#!/bin/sh\n# native build of %s with /repo's sources (ASan+UBSan) on the solver's assignment\nd=$(dirname \"$0\")\n"
                "VF_TRACE=1 VF_INPUT=$d/input ASAN_OPTIONS=exitcode=11:detect_leaks=0 UBSAN_OPTIONS=exitcode=11 timeout 20 $d/harness\n" % u.src)
    os.chmod(os.path.join(base, "replay.sh"), 0o755)
    return os.path.join(base, "replay.sh")


def check(prop, only=None):
    import registry
    c = registry.CHECKS.get(prop)
    if c is None:
        say("no check for", prop)
        return 2
    t0 = time.time()
    ctx = Ctx(prop)
    try:
        units = [u for u in c["units"] if (only is None and (TIER[0] in u.tier)) or (only is not None and u.name == only)]
        if not units:
            raise Err("no such unit")
        units.sort(key=lambda u: -u.slow)
        with cf.ThreadPoolExecutor(max(1, JOBS)) as ex:
            futs = [(u, ex.submit(do_unit, ctx, u)) for u in units]
            results = [(u, f.result()) for u, f in futs]
        rc = 0
        nviol = 0
        known = [k for k in load_known() if k["property"] == prop]
        for u, r in results:
            q = r["queries"][-1] if r["queries"] else {}
            say("%-28s %-12s %6.1fs  k=%s vccs=%s vars=%s clauses=%s solver=%ss%s" % (
                r["unit"], r["status"], r.get("wall", 0), q.get("k"), q.get("vccs"), q.get("vars"), q.get("clauses"), q.get("solver_s"),
                "" if r["status"] == "ok" else "  " + r.get("what", "")[:1500]))
            if r["status"] == "violation":
                path = save_replay(ctx, u, r)
                say("  solver: %s  at %s\n  native replay: %s" % (r["what"], r["where"], r["concrete"]["kind"]))
                say("\n".join("    " + x for x in r["concrete"]["out"].splitlines()[:14]))
                hit = [k for k in known if k.get("unit") == r["unit"] and k.get("what") == r["what"]]
                if hit:
                    say("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["summary"]))
                else:
                    nviol += 1
                    say("VIOLATION property=%s replay=%s" % (prop, path))
        if nviol:
            rc = 1
        else:
            undecided = [r["unit"] for _, r in results if r["status"] not in ("ok", "violation")]
            if undecided:
                say("UNDECIDED (no verdict from the solver, not counted as explored): %s" % ", ".join(undecided))
                if STRICT or len(undecided) == len(results):
                    rc = 2
        if only is None:
            write_evidence(prop, c, results, time.time() - t0, nviol)
        say("%s: %s (%.1f s)" % (prop, {0: "held", 1: "VIOLATED", 2: "inconclusive"}[rc], time.time() - t0))
        return rc
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)


def write_evidence(prop, c, results, wall, nviol):
    qs = [q for _, r in results for q in r["queries"]]
    oblig = sum((r["queries"][-1].get("vccs") or 0) for _, r in results if r["queries"])
    disch = sum((r["queries"][-1].get("vccs") or 0) for _, r in results if r["queries"] and r["status"] == "ok")
    wit = [w for _, r in results for w in r.get("witnesses", [])]
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution: clang's IR of the sources in /repo (compiled on this run) is translated to C by "
                           "engine/ir2c and decided by CBMC 6.11 (SAT) for every value of the harness inputs within the bounds below, with "
                           "unwinding assertions on; each reachability witness is replayed on the native build. " + c.get("explain", ""),
            "obligations": oblig, "discharged": disch,
            "undecided_units": [r["unit"] for _, r in results if r["status"] not in ("ok", "violation")],
            "queries": len(qs), "solver_seconds": round(sum(q.get("solver_s") or 0 for q in qs), 2),
            "functions_encoded": sorted({f for _, r in results for f in r["functions"]}),
            "witnesses_reached": len(wit), "witnesses_confirmed_natively": sum(1 for w in wit if w["native_agrees"]),
            "units": [{"unit": r["unit"], "status": r["status"], "bounds": r.get("bounds", ""), "unwind": r.get("unwind"), "note": r.get("note", ""),
                       "reduced": r.get("reduced", False), "ir_functions": r.get("ir_functions"), "ir_instructions": r.get("ir_instructions"),
                       "queries": r["queries"], "what": r.get("what", "")[:400]} for _, r in results],
            "samples": wit[:6] if wit else [{"none": "no witness on this run"}],
            "outside_the_bounds": c.get("outside", ""),
        },
        "assumptions": c.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    "clang 18 front end (x86-64, C++17, -O1 without LLVM passes, then sroa+mem2reg) gives the meaning of the sources",
    "engine/ir2c translates that IR faithfully (checked on every run by replaying witnesses on the native build), CBMC 6.11 and its SAT solver are sound",
    "allocation does not fail; single thread",
]


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    if cmd == "setup":
        say(build_ir2c())
        return 0
    if cmd == "list":
        import registry
        for p, c in registry.CHECKS.items():
            print(p, [u.name for u in c["units"]])
        return 0
    if cmd == "check":
        return check(sys.argv[2])
    if cmd == "unit":
        return check(sys.argv[2], sys.argv[3])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Err as e:
        say("error:", e)
        sys.exit(2)
