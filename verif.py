#!/usr/bin/env python3
"""Solver-based checks of LAIK: driver.

  verif.py setup              build the symbolic execution engine (bin/symex)
  verif.py check <ID>         run all queries of property <ID> (tier from VERIF_TIER)
  verif.py query <ID> <name>  run one query, verbose
  verif.py replay <file>      run a reported counterexample on the native build
  verif.py list

Every query: the real sources (from /repo's working tree) and a harness are
translated (LLVM IR for symex, goto programs for CBMC), executed symbolically,
and decided by an SMT/SAT solver for all values within the stated bounds.
Counterexamples are replayed against a native (gcc, ASan+UBSan) build of the
same real sources; only what reproduces is reported as violation.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)

CFLAGS = ["-std=gnu99", "-DUSE_MPI", "-DUSE_TCP", "-DUSE_TCP2"]
GB = 1 << 30
EXIT_PROP, EXIT_ASSUME, EXIT_NOVAL = 42, 77, 78
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS_PER_QUERY = 8


def incs():
    return ["-I", f"{REPO}/include", "-I", f"{REPO}/src", "-I", REPO,
            "-I", f"{REPO}/_build", "-I", f"{VERIF}/harness", "-I", f"{VERIF}/harness/inc"]


def run(cmd, timeout, mem=6 * GB, env=None, cwd=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, preexec_fn=pre, env=env, cwd=cwd)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    return rc, out.decode(errors="replace"), err.decode(errors="replace"), time.time() - t


class Query:
    """one harness function with one configuration"""
    def __init__(self, name, harness, func, srcs=(), unwind=4, unwindset=(), defs=(),
                 stubs=("LOG", "QSORT", "REALLOC"), timeout=200, mem=6, tier="quick", args=(),
                 bounds="", what="", extra=(), nocheck=(), solver=None, objbits=None,
                 types=None, mpi=False, glib=False, slice=False, drop=True, replay_to=20, leak=False,
                 engine="symex", maxinst=3000000, reach=(), nsamples=12, conc=80, undef=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.srcs = list(srcs)


def defines(q):
    d = ["-D" + x for x in q.defs]
    d += ["-DSTUB_" + s for s in q.stubs]
    if q.types:
        d += [f'-DTYPES="{q.types}"']
    return d


_mpi = None


def mpi_flags():
    global _mpi
    if _mpi is None:
        rc, out, _, _ = run(["mpicc", "-show"], 20, mem=None)
        _mpi = [w for w in out.split() if w.startswith("-I")]
    return _mpi


_glib = None


def glib_flags():
    global _glib
    if _glib is None:
        rc, out, _, _ = run(["pkg-config", "--cflags", "glib-2.0"], 20, mem=None)
        _glib = out.split()
    return _glib


def xflags(q):
    f = []
    if q.mpi:
        f += mpi_flags()
    if q.glib:
        f += glib_flags()
    return f


def sources(q):
    s = [f"{VERIF}/harness/{q.harness}", f"{VERIF}/harness/rt.c"]
    s += [f"{VERIF}/harness/{e}" for e in q.extra]
    s += [f"{REPO}/src/{x}" for x in q.srcs]
    return s


class Infra(Exception):
    pass


_ccache = {}
_ccl = threading.Lock()


def cc_obj(src, flags, wd):
    """compile one source with goto-cc (shared between the queries of a run)"""
    key = (src, tuple(flags))
    with _ccl:
        if key not in _ccache:
            _ccache[key] = [threading.Lock(), None]
        ent = _ccache[key]
        idx = list(_ccache).index(key)
    with ent[0]:
        if ent[1] is None:
            o = f"{wd}/o{idx}.gb"
            rc, out, err, _ = run(["goto-cc", "-c", src, "-o", o] + flags, 120, mem=4 * GB)
            if rc != 0:
                ent[1] = ("err", out + err)
            else:
                ent[1] = ("ok", o)
    if ent[1][0] == "err":
        raise Infra(f"goto-cc failed on {src}:\n" + ent[1][1][-2000:])
    return ent[1][1]


def build_goto(q, wd):
    flags = CFLAGS + ["-DCBMC"] + (["-Dmalloc=verif_malloc"] if q.types else []) + defines(q) + incs() + xflags(q)
    # repo sources see only the flags of the real build (plus redirections of
    # libc calls to stand-ins, if the query asks for it: "REDIR:" defines)
    objs = []
    for s in sources(q):
        objs.append(cc_obj(s, flags, wd))
    gb = f"{wd}/{q.name}.gb"
    rc, out, err, _ = run(["goto-cc", "-o", gb, "--function", q.func] + objs, 120, mem=4 * GB)
    if rc != 0:
        raise Infra("goto-cc link failed:\n" + (out + err)[-2000:])
    if q.drop:
        gb2 = f"{wd}/{q.name}.d.gb"
        rc, out, err, _ = run(["goto-instrument", "--drop-unused-functions", gb, gb2], 120, mem=4 * GB)
        if rc == 0:
            gb = gb2
    return gb


def build_native(q, wd, extra_cflags=()):
    exe = f"{wd}/{q.name}.exe"
    main = f"{wd}/{q.name}.main.c"
    with open(main, "w") as f:
        f.write(f"void {q.func}(void);\nint main(void){{ {q.func}(); return 0; }}\n")
    cmd = ["gcc", "-g", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=shift,vla-bound,alignment,float-divide-by-zero,signed-integer-overflow",
           "-fno-builtin", "-fno-stack-protector", "-fno-pie", "-no-pie", "-ffunction-sections", "-fdata-sections"]
    cmd += CFLAGS + ["-DNATIVE"] + ["-D" + x for x in q.undef] + list(extra_cflags) + defines(q) + incs() + xflags(q)
    cmd += [main] + sources(q) + ["-o", exe, "-ldl", "-lm", "-Wl,--gc-sections",
            "-Wl,--unresolved-symbols=ignore-all"]
    if q.glib:
        cmd += ["-lglib-2.0"]
    rc, out, err, _ = run(cmd, 180, mem=None)
    if rc != 0:
        raise Infra("native build failed:\n" + (out + err)[-3000:])
    return exe


def replay(q, exe, values, wd, tag):
    vf = f"{wd}/{q.name}.{tag}.values"
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for v in values) + "\n")
    env = dict(os.environ)
    env.update(VERIF_VALUES=vf, ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0" % (1 if q.leak else 0),
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98")
    env.pop("LAIK_LOG", None)
    rc, out, err, _ = run([exe], q.replay_to, mem=None, env=env, cwd=wd)
    # 'real' outcome
    if rc == "timeout":
        return "hang", err
    if rc == EXIT_ASSUME:
        return "assume", err
    if rc == EXIT_NOVAL:
        return "noval", err
    if rc == 0:
        return "ok", err
    return "violated", f"exit status {rc}\n" + err[-3000:]


def trace_values(trace):
    vals = []
    for st in trace:
        if st.get("stepType") != "assignment":
            continue
        if st.get("lhs") != "verif_nd":
            continue
        v = st.get("value", {})
        if "function" not in st.get("sourceLocation", {}):
            continue
        if st["sourceLocation"].get("function") != "nd":
            continue
        b = v.get("binary")
        if b:
            n = int(b, 2)
            if n >= 1 << 63:
                n -= 1 << 64
        else:
            n = int(re.sub(r"[^0-9-].*$", "", v.get("data", "0")) or 0)
        vals.append(n)
    return vals


def cbmc_cmd(q, gb, unwind):
    cmd = ["cbmc", gb, "--json-ui", "--trace", "--unwind", str(unwind), "--unwinding-assertions",
           "--no-malloc-may-fail", "--no-standard-checks", "--bounds-check", "--pointer-check",
           "--div-by-zero-check", "--verbosity", "8"]
    if q.unwindset:
        cmd += ["--unwindset", ",".join(q.unwindset)]
    if q.solver:
        cmd += q.solver.split()
    else:
        cmd += ["--sat-solver", "cadical"] if HAVE_CADICAL else []
    if q.objbits:
        cmd += ["--object-bits", str(q.objbits)]
    if q.slice:
        cmd += ["--slice-formula"]
    for n in q.nocheck:
        cmd = [c for c in cmd if c != n]
    cmd += list(q.args)
    return cmd


HAVE_CADICAL = False


def parse(out):
    try:
        return json.loads(out)
    except json.JSONDecodeError:
        # killed: try to close
        try:
            return json.loads(out.rstrip().rstrip(",") + "]")
        except Exception:
            return None


CLANG, OPT, LINK = "/usr/bin/clang-18", "/usr/bin/opt-18", "/usr/bin/llvm-link-18"
SYMEX = f"{VERIF}/bin/symex"


def setup():
    srcs = [f"{VERIF}/symex/{f}" for f in ("symex.cpp", "expr.h", "code.h", "Makefile")]
    if os.path.exists(SYMEX) and all(os.path.getmtime(SYMEX) >= os.path.getmtime(f) for f in srcs):
        return
    import fcntl
    with open(f"{VERIF}/symex/.lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if os.path.exists(SYMEX) and all(os.path.getmtime(SYMEX) >= os.path.getmtime(f) for f in srcs):
            return
        rc, out, err, _ = run(["make", "-B", "-C", f"{VERIF}/symex"], 900, mem=None)
        if rc != 0:
            raise Infra("cannot build symex:\n" + (out + err)[-3000:])


_bccache = {}


def bc_obj(src, flags, wd):
    key = (src, tuple(flags))
    with _ccl:
        if key not in _bccache:
            _bccache[key] = [threading.Lock(), None, len(_bccache)]
        ent = _bccache[key]
    with ent[0]:
        if ent[1] is None:
            o = f"{wd}/b{ent[2]}.bc"
            rc, out, err, _ = run([CLANG, "-c", "-emit-llvm", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off",
                                   "-fno-delete-null-pointer-checks", "-fno-builtin", "-w", src, "-o", o] + flags, 120, mem=None)
            ent[1] = ("ok", o) if rc == 0 else ("err", out + err)
    if ent[1][0] == "err":
        raise Infra(f"clang failed on {src}:\n" + ent[1][1][-2000:])
    return ent[1][1]


def build_bc(q, wd):
    # sources of the repository see the flags of the real build only
    rflags = CFLAGS + ["-D" + x for x in q.undef] + incs() + xflags(q)
    hflags = rflags + ["-DSYMEX"] + defines(q)
    objs = []
    for s in sources(q) + [f"{VERIF}/harness/libc.c"]:
        if s.endswith("/libc.c"):
            objs.append(bc_obj(s, ["-std=gnu99"] + [d for d in defines(q) if d.startswith("-DFMT_")], wd))
        else:
            objs.append(bc_obj(s, rflags if s.startswith(REPO + "/") else hflags, wd))
    l = f"{wd}/{q.name}.l.bc"
    rc, out, err, _ = run([LINK, "-o", l] + objs, 120, mem=None)
    if rc != 0:
        raise Infra("llvm-link failed:\n" + (out + err)[-2000:])
    bc = f"{wd}/{q.name}.bc"
    rc, out, err, _ = run([OPT, "-passes=mem2reg,simplifycfg", l, "-o", bc], 120, mem=None)
    if rc != 0:
        raise Infra("opt failed:\n" + (out + err)[-2000:])
    os.unlink(l)
    return bc


def run_symex(q, wd, deadline, verbose=False):
    res = dict(query=q.name, engine="symex", harness=q.harness, func=q.func, sources=q.srcs, bounds=q.bounds,
               what=q.what, verdict=None, violations=[], notes=[])
    t0 = time.time()
    try:
        bc = build_bc(q, wd)
    except Infra as e:
        res.update(verdict="error", notes=[str(e)])
        return res
    left = deadline - time.time()
    if left < 5:
        res.update(verdict="timeout", notes=["no time left"])
        return res
    out = f"{wd}/{q.name}.out.json"
    to = min(q.timeout * (1 if TIER == "quick" else 6), left - 3)
    rc, so, se, dt = run([SYMEX, bc, "-f", q.func, "-o", out, "-j", str(JOBS_PER_QUERY), "-t", str(to), "-repo", REPO,
                          "-i", str(q.maxinst), "-conc", str(q.conc), "-mem", "900"] + list(q.args), to + 60, mem=None)
    try:
        j = json.load(open(out))
    except Exception:
        res.update(verdict="error", notes=[f"symex failed ({rc}): {so[-500:]} {se[-1500:]}"])
        return res
    res["checked"] = j["props"]
    res["discharged"] = j["discharged"]
    for k in ("paths", "paths_done", "paths_pruned", "decisions", "branches", "queries", "cached", "instructions",
              "functions", "branch_sides", "branch_sides_covered", "reached"):
        res[k] = j[k]
    res["decision_s"] = j["solver_s"]
    res["engine_wall"] = j["wall_s"]
    if j["errors"] or j["unknown"]:
        res["notes"] += j["error_list"][:4]
    try:
        need = bool(j["violations"]) or bool(j["samples"])
        exe = build_native(q, wd) if need else None
    except Infra as e:
        res["notes"].append(str(e))
        res["verdict"] = "error"
        return res
    if j["violations"]:
        v2 = sorted(j["violations"], key=lambda v: 0 if v["desc"].startswith("PROP") else 1)
        seen = {}
        with ThreadPoolExecutor(4) as ex:
            rep = list(ex.map(lambda t: replay(q, exe, t[1]["inputs"], wd, f"cex{t[0]}"), enumerate(v2)))
        for v, (o, txt) in zip(v2, rep):
            if verbose:
                print(f"  failing: {v['desc']} {v['stack']} inputs={v['inputs']} -> {o}\n{txt[-1500:]}")
            if o in ("violated", "hang"):
                if o == "hang":
                    txt = "REPLAY: PROP violated: call does not terminate\n" + txt
                key = (v["desc"], v["loc"])
                if seen.get(key, 0) < 1:
                    seen[key] = 1
                    addviol(q, res, dict(property=v["loc"], description=v["desc"] + " [" + v["stack"].strip() + "]"),
                            v["inputs"], txt, wd)
            else:
                res["notes"].append(f"not reproduced natively ({o}): {v['desc']} at {v['stack']} inputs {v['inputs'][:40]} {txt[-300:]}")
        if res["violations"]:
            res["verdict"] = "violated"
            res["wall"] = round(time.time() - t0, 2)
            # complete otherwise? (needed if all violations are known findings)
            res["explored_all"] = j["complete"]
            return res
        res["verdict"] = "unconfirmed"
        res["wall"] = round(time.time() - t0, 2)
        return res
    # validate: run sample paths on the native build, same outcome expected
    sm = j["samples"]
    n = q.nsamples * (1 if TIER == "quick" else 4)
    step = max(1, len(sm) // n)
    picks = sm[::step][:n]
    # one sample per marker
    for m in j["reached"]:
        if not any(m in s["reached"] for s in picks):
            picks += [s for s in sm if m in s["reached"]][:1]
    def val(t):
        return replay(q, exe, t[1]["inputs"], wd, f"s{t[0]}")
    with ThreadPoolExecutor(4) as ex:
        rep = list(ex.map(val, enumerate(picks)))
    ok = 0
    for s, (o, txt) in zip(picks, rep):
        got = re.findall(r"REPLAY: reached: (.*)", txt)
        if o == "ok" and got == s["reached"]:
            ok += 1
            res.setdefault("sample_inputs", []).append(dict(inputs=s["inputs"][:40], reached=s["reached"]))
        elif o in ("violated", "hang"):
            # the native run fails where the symbolic run did not: real memory error or difference
            res["notes"].append("native run of a path differs: " + o + " " + txt[-1200:])
            addviol(q, res, dict(property="native", description="native run of a completed path"), s["inputs"], txt, wd)
        else:
            res["notes"].append(f"native run of a path differs: {o} reached {got} expected {s['reached']} inputs {s['inputs'][:30]} {txt[-300:]}")
            res["differs"] = res.get("differs", 0) + 1
    res["witness_replayed"] = ok
    res["witnesses"] = len(picks)
    if res["violations"]:
        res["verdict"] = "violated"
    elif j["timeout"]:
        res["verdict"] = "timeout"
        res["notes"].append(f"{j['left']} path prefixes not explored after {j['wall_s']}s")
    elif not j["complete"]:
        res["verdict"] = "error"
    elif res.get("differs"):
        res["verdict"] = "differs"
    elif not j["reached"] or any(r not in j["reached"] for r in q.reach):
        res["verdict"] = "vacuous"
        res["notes"].append("expected marker not reached: " + str([r for r in q.reach if r not in j["reached"]]))
    else:
        res["verdict"] = "holds"
    res["wall"] = round(time.time() - t0, 2)
    return res


def run_query(q, wd, deadline, verbose=False):
    if q.engine == "symex":
        return run_symex(q, wd, deadline, verbose)
    return run_cbmc(q, wd, deadline, verbose)


def run_cbmc(q, wd, deadline, verbose=False):
    res = dict(query=q.name, engine="cbmc", harness=q.harness, func=q.func, sources=q.srcs, bounds=q.bounds,
               what=q.what, unwind=q.unwind, verdict=None, violations=[], notes=[])
    t0 = time.time()
    try:
        gb = build_goto(q, wd)
    except Infra as e:
        res.update(verdict="error", notes=[str(e)])
        return res
    unwind = q.unwind
    for attempt in range(3):
        left = deadline - time.time()
        if left < 5:
            res.update(verdict="timeout")
            break
        rc, out, err, dt = run(cbmc_cmd(q, gb, unwind), min(q.timeout, left), mem=q.mem * GB)
        res["solver_wall"] = round(dt, 2)
        if rc == "timeout":
            res.update(verdict="timeout")
            break
        js = parse(out)
        if js is None or rc not in (0, 10):
            msg = ""
            if js:
                msg = "\n".join(m.get("messageText", "") for m in js if m.get("messageType") == "ERROR")
            res.update(verdict="error", notes=[f"cbmc exit {rc}: {msg} {err[-1500:]} {out[-500:] if not js else ''}"])
            break
        stats(js, res)
        props = []
        for m in js:
            if "result" in m:
                props = m["result"]
        if not props:
            res.update(verdict="error", notes=["no properties"])
            break
        wit = [p for p in props if p.get("description", "").startswith("WITNESS")]
        fails = [p for p in props if p["status"] == "FAILURE" and p not in wit]
        unw = [p for p in fails if ".unwind." in p["property"] or ".recursion" in p["property"]]
        fails = [p for p in fails if p not in unw]
        res["checked"] = len(props) - len(wit)
        res["discharged"] = sum(1 for p in props if p["status"] == "SUCCESS" and p not in wit)
        unk = [p for p in props if p["status"] not in ("SUCCESS", "FAILURE")]
        if unk:
            res.update(verdict="error", notes=[f"undecided: {[p['property'] for p in unk][:5]}"])
            break
        miss = [p for p in wit if p["status"] != "FAILURE"]
        res["witnesses"] = len(wit)
        # counterexamples first
        if fails or unw:
            confirm(q, fails + unw, wd, res, verbose)
            if res["violations"]:
                res["verdict"] = "violated"
                break
        if unw and not fails:
            res["notes"].append(f"unwinding bound {unwind} too small at {[p['property'] for p in unw][:6]}")
            unwind *= 2
            res["unwind"] = unwind
            if attempt == 2:
                res["verdict"] = "unwind"
            continue
        if fails:
            res["verdict"] = "unconfirmed"
            break
        if not wit or miss:
            res["verdict"] = "vacuous"
            res["notes"].append("witness not reachable: " + "; ".join(p["description"] for p in miss))
            break
        # validate encoding: replay the witness input against the native build
        try:
            exe = build_native(q, wd)
            n = 0
            for w in wit:
                vals = trace_values(w.get("trace", []))
                o, txt = replay(q, exe, vals, wd, "witness")
                if o == "ok" and ("reached: " + w["description"][8:]) in txt:
                    n += 1
                    res.setdefault("sample_inputs", []).append(vals[:40])
                elif o == "violated" or o == "hang":
                    res["notes"].append("native run of witness differs: " + o + " " + txt[-1500:])
                    if o == "violated":
                        addviol(q, res, w, vals, txt, wd)
                else:
                    res["notes"].append("witness replay: " + o + " " + txt[-500:])
            res["witness_replayed"] = n
            if res["violations"]:
                res["verdict"] = "violated"
                break
        except Infra as e:
            res["notes"].append(str(e))
            res.update(verdict="error")
            break
        res["verdict"] = "holds"
        break
    res["wall"] = round(time.time() - t0, 2)
    return res


def addviol(q, res, p, vals, txt, wd):
    m = re.search(r"REPLAY: PROP violated: (.*)", txt)
    desc = m.group(1) if m else None
    if not desc:
        m = re.search(r"([\w./-]+:\d+: .*Assertion.*failed)|(ERROR: AddressSanitizer.*)|(runtime error: .*)|(REPLAY: panic.*)", txt)
        desc = m.group(0) if m else p.get("description", "?")
    res["violations"].append(dict(desc=desc, cbmc=p["property"] + ": " + p.get("description", ""),
                                  values=vals, output=txt[-3000:]))


def confirm(q, fails, wd, res, verbose):
    try:
        exe = build_native(q, wd)
    except Infra as e:
        res["notes"].append(str(e))
        return
    seen = set()
    # harness properties first, then asserts/memory checks of the code
    fails = sorted(fails, key=lambda p: 0 if p.get("description", "").startswith("PROP") else 1)
    for n, p in enumerate(fails[:12]):
        vals = trace_values(p.get("trace", []))
        o, txt = replay(q, exe, vals, wd, f"cex{n}")
        if verbose:
            print(f"  failing: {p['property']} {p.get('description','')} values={vals} -> {o}\n{txt[-1200:]}")
        if o in ("violated", "hang"):
            if o == "hang":
                txt = "REPLAY: PROP violated: call does not terminate\n" + txt
            addviol(q, res, p, vals, txt, wd)
            if len(res["violations"]) >= 4:
                break
        else:
            res["notes"].append(f"not reproduced natively ({o}): {p['property']} {p.get('description','')} "
                                f"at {p.get('trace',[{}])[-1].get('sourceLocation',{}) if p.get('trace') else ''} {txt[-300:]}")


def stats(js, res):
    txt = "\n".join(m.get("messageText", "") for m in js if "messageText" in m)
    def s(rx, key, f=int):
        v = [f(x) for x in re.findall(rx, txt)]
        if v:
            res[key] = res.get(key, 0) + sum(v)
    s(r"size of program expression: (\d+) steps", "ssa_steps")
    s(r"Generated (\d+) VCC", "vccs")
    s(r"VCC\(s\), (\d+) remaining", "vccs_remaining")
    s(r"(\d+) variables, \d+ clauses", "variables")
    s(r"\d+ variables, (\d+) clauses", "clauses")
    s(r"Runtime Solver: ([\d.e+-]+)s", "solver_s", float)
    s(r"Runtime decision procedure: ([\d.e+-]+)s", "decision_s", float)


def encoded_functions(gb):
    rc, out, err, _ = run(["goto-instrument", "--list-goto-functions", "--json-ui", gb], 60)
    names = []
    try:
        for m in json.loads(out):
            for f in m.get("functions", []):
                if f.get("isBodyAvailable") and not f.get("isInternal"):
                    names.append(f["name"])
    except Exception:
        pass
    return names


# ---------------------------------------------------------------- known findings
def known(pid):
    kf = []
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) query=(\S+) match=/(.*)/ :: (.*)$", l)
            if m and m.group(1) == pid:
                kf.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return kf


def check(pid, only=None, verbose=False):
    import queries
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    qs = [q for q in queries.PROPS[pid] if (tier == "thorough" or q.tier == "quick")]
    if only:
        qs = [q for q in queries.PROPS[pid] if re.fullmatch(only, q.name)]
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 3 * 3600)
    wd = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    results = []
    kf = known(pid)
    try:
        setup()
        jobs = int(os.environ.get("VERIF_JOBS", "4"))
        with ThreadPoolExecutor(jobs) as ex:
            futs = {ex.submit(run_query, q, wd, deadline, verbose): q
                    for q in sorted(qs, key=lambda q: -q.timeout)}
            for f in as_completed(futs):
                r = f.result()
                results.append(r)
                if verbose or os.environ.get("VERIF_VERBOSE"):
                    print(f"  [{r['verdict']}] {r['query']} wall={r.get('wall')} steps={r.get('ssa_steps')} "
                          f"vars={r.get('variables')} dec={r.get('decision_s')} checked={r.get('checked')} "
                          f"wit={r.get('witness_replayed')}/{r.get('witnesses')} paths={r.get('paths')} queries={r.get('queries')} cov={r.get('branch_sides_covered')}/{r.get('branch_sides')} reached={r.get('reached')} "
                          f"{' | '.join(r['notes'])[:1500]}", flush=True)
        fns = set()
        for q in qs:
            if q.engine != "cbmc":
                continue
            for cand in (f"{wd}/{q.name}.d.gb", f"{wd}/{q.name}.gb"):
                if os.path.exists(cand):
                    fns.update(encoded_functions(cand))
                    break
        fns = set(repo_functions(fns))
        for r in results:
            fns.update(re.sub(r"\.\d+$", "", f) for f in r.get("functions", []))
        rfns = sorted(fns)
        viol, finds, bad = [], [], []
        rdir = f"{VERIF}/evidence/replay/{pid}"
        if os.path.isdir(rdir):
            shutil.rmtree(rdir)
        for r in results:
            for v in r["violations"]:
                txt = v["desc"] + " | " + v["cbmc"]
                k = [x for x in kf if x[0] in (r["query"], "*") and x[1].search(txt)]
                if k:
                    finds.append(k[0][2])
                    v["known"] = True
                else:
                    viol.append((r, v))
            if r["verdict"] not in ("holds", "violated"):
                bad.append(r)
        for f in sorted(set(finds)):
            print(f"KNOWN-FINDING: property={pid} {f}")
        q_by = {q.name: q for q in qs}
        per = {}
        for n, (r, v) in enumerate(viol):
            key = (r["query"], v["desc"])
            per[key] = per.get(key, 0) + 1
            if per[key] > 1 or len(per) > 20:   # one report per query and kind
                continue
            os.makedirs(rdir, exist_ok=True)
            path = write_replay(rdir, pid, q_by[r["query"]], v, n)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  query {r['query']}: {v['desc']}  [{v['cbmc']}]")
        for r in bad:
            print(f"INCONCLUSIVE query {r['query']}: {r['verdict']}: " + " | ".join(r["notes"])[:1500])
        if not only:
            evidence(pid, tier, seed, results, rfns, len(viol), finds, time.time() - t0)
        ok = sum(1 for r in results if r["verdict"] == "holds")
        print(f"{pid}: {ok}/{len(results)} queries hold, {len(viol)} violating inputs, {len(set(finds))} known findings, "
              f"{len(bad)} inconclusive, {time.time()-t0:.1f}s")
        if viol:
            return 1
        if ok + sum(1 for r in results if r["verdict"] == "violated") < len(bad) or not results:
            return 2
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd)


def repo_functions(names):
    """which of the encoded functions are defined in /repo's sources"""
    import glob
    defs = set()
    for f in glob.glob(f"{REPO}/src/*.c") + glob.glob(f"{REPO}/src/backends/tcp/*.c"):
        for m in re.finditer(r"^[A-Za-z_][\w\s\*]*?\b(\w+)\s*\([^;{]*\)\s*\{", open(f, errors="replace").read(), re.M):
            defs.add(m.group(1))
    return sorted(n for n in names if n in defs)


def write_replay(rdir, pid, q, v, n):
    base = f"{rdir}/{q.name}-{n}"
    with open(base + ".json", "w") as f:
        json.dump(dict(property=pid, query=q.name, harness=q.harness, function=q.func, values=v["values"],
                       what=v["desc"], cbmc=v["cbmc"], native_output=v["output"],
                       rerun=f"python3 {VERIF}/verif.py replay {base}.json"), f, indent=1)
    return base + ".json"


def do_replay(path):
    import queries
    r = json.load(open(path))
    q = [q for q in queries.PROPS[r["property"]] if q.name == r["query"]][0]
    wd = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        exe = build_native(q, wd)
        o, txt = replay(q, exe, r["values"], wd, "replay")
        print(o)
        print(txt)
        return 1 if o in ("violated", "hang") else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def evidence(pid, tier, seed, results, fns, nviol, finds, wall):
    import queries
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    cb = [r for r in results if r["engine"] == "cbmc"]
    samples = []
    for r in results:
        for s in r.get("sample_inputs", [])[:2]:
            samples.append(dict(query=r["query"], solver_input=s))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths") + tot("ssa_steps"), transitions=tot("branches") + tot("clauses"),
            traces_validated_against_impl=tot("witness_replayed"),
            samples=samples[:30],
            meaning="states: symbolic paths of the real code explored to their end (symex), plus SSA steps of the unrolled real "
                    "code (CBMC); transitions: branch sides decided feasible/infeasible by the solver (symex), plus clauses of the "
                    "propositional encoding (CBMC); traces_validated_against_impl: solver-generated inputs of explored paths run on "
                    "the native build of the same sources with the same outcome",
            queries=len(results), queries_holding=sum(1 for r in results if r["verdict"] == "holds"),
            queries_inconclusive=[r["query"] for r in results if r["verdict"] not in ("holds", "violated")],
            assertions_checked=tot("checked"), assertions_discharged=tot("discharged"),
            paths=tot("paths"), decisions=tot("decisions"), instructions_executed_symbolically=tot("instructions"),
            solver_queries=tot("queries") + len(cb), solver_queries_answered_from_cache=tot("cached"),
            solver_time_s=round(tot("decision_s"), 2),
            functions_encoded=fns,
            per_query=[dict(query=r["query"], engine=r["engine"], verdict=r["verdict"], what=r["what"], bounds=r["bounds"],
                            unwind=r.get("unwind"), assertions=r.get("checked"), discharged=r.get("discharged"),
                            paths=r.get("paths"), solver_queries=r.get("queries"),
                            branch_sides=r.get("branch_sides"), branch_sides_covered=r.get("branch_sides_covered"),
                            ssa_steps=r.get("ssa_steps"), variables=r.get("variables"), clauses=r.get("clauses"),
                            reached=r.get("reached"), solver_s=round(r.get("decision_s", 0) or 0, 3), wall_s=r.get("wall"),
                            notes=[n[:400] for n in r["notes"][:3]]) for r in sorted(results, key=lambda r: r["query"])],
            known_findings=sorted(set(finds)),
        ),
        assumptions=queries.ASSUME_COMMON + queries.ASSUME.get(pid, []),
        wall_s=round(wall, 2), violations=nviol)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    c = sys.argv[1]
    if c == "setup":
        setup()
        return 0
    if c == "check":
        return check(sys.argv[2])
    if c == "query":
        return check(sys.argv[2], only=sys.argv[3] if len(sys.argv) > 3 else ".*", verbose=True)
    if c == "replay":
        return do_replay(sys.argv[2])
    if c == "list":
        import queries
        for p, qs in queries.PROPS.items():
            print(p, [q.name for q in qs])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
