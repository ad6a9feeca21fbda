"""Compile harnesses against /repo, run them symbolically in parallel, replay counterexamples, write evidence."""
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)

CXX = shutil.which("clang++-18") or "clang++"
INC = ["cstring", "algorithm", "memory", "variant", "filesystem", "stdexcept", "functional", "array"]
COMMON = ["-std=gnu++20", "-maes", "-mpclmul", "-w"]
for _i in INC:
    COMMON += ["-include", _i]
COMMON += ["-I" + REPO + "/include", "-I" + REPO, "-I" + VERIF + "/harness", "-I" + VERIF + "/ref", "-DVF_REPO_SRC=" + REPO + "/src"]
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-strict-aliasing", "-fno-unroll-loops", "-g0", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
           "-fno-discard-value-names", "-DVF_SYMBOLIC=1"]


class Job:
    def __init__(self, harness, fn, args=(), timeout=300, desc="", **opts):
        self.harness = harness      # file name below /verif/harness
        self.fn = fn
        self.args = tuple(args)
        self.timeout = timeout
        self.opts = opts
        self.desc = desc
        self.defs = tuple(opts.pop("defs", ()))
        self.flags = tuple(opts.pop("flags", ()))

    def key(self):
        return (self.harness, self.defs, self.flags)

    def name(self):
        return "%s(%s)" % (self.fn, ",".join(map(str, self.args)))


LINK = shutil.which("llvm-link-18") or "llvm-link"
SANITIZE = ["-fsanitize=address,bounds,unreachable,return,integer-divide-by-zero", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]


def repo_sources():
    d = os.path.join(REPO, "src")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".cc", ".cxx")))


def run_cmd(cmd, timeout=400):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return p.returncode == 0, p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return False, "timeout"


def par(tasks, n=8):
    """tasks: list of (key, callable) -> dict"""
    out = {}
    lock = threading.Lock()

    def one(k, f):
        r = f()
        with lock:
            out[k] = r
    sem_run([threading.Thread(target=one, args=t) for t in tasks], n)
    return out


def build_ir(keys, scratch):
    """-> ({key: ll path or None}, errors).  The repository's sources are compiled as they are and linked to each harness."""
    tasks = []
    srcs = repo_sources()
    rflags = sorted({tuple(f for f in k[2] if not f.startswith("-D")) for k in keys})
    for fl in rflags:
        for src in srcs:
            o = os.path.join(scratch, "r%d_%s.bc" % (rflags.index(fl), os.path.basename(src)))
            tasks.append((("repo", fl, src), lambda src=src, o=o, fl=fl: run_cmd([CXX] + COMMON + IRFLAGS + list(fl) + ["-c", "-emit-llvm", src, "-o", o]) + (o,)))
    for i, k in enumerate(keys):
        o = os.path.join(scratch, "h%d.bc" % i)
        tasks.append((("har", k), lambda k=k, o=o: run_cmd([CXX] + COMMON + IRFLAGS + list(k[2]) + ["-D" + d for d in k[1]] + ["-c", "-emit-llvm", os.path.join(VERIF, "harness", k[0]), "-o", o]) + (o,)))
    r = par(tasks)
    errs = {}
    lls = {}
    for k, v in r.items():
        if not v[0]:
            errs[str(k[2] if k[0] == "repo" else k[1][0])] = v[1]

    def link(i, k):
        h = r[("har", k)]
        if not h[0]:
            return None
        fl = tuple(f for f in k[2] if not f.startswith("-D"))
        objs = [r[("repo", fl, x)][2] for x in srcs if r[("repo", fl, x)][0]]
        o = os.path.join(scratch, "l%d.ll" % i)
        ok, e = run_cmd([LINK, "-S", "-o", o, h[2]] + objs)
        if not ok:
            errs["link " + k[0]] = e
            return None
        return o
    lls = par([(k, lambda i=i, k=k: link(i, k)) for i, k in enumerate(keys)])
    return lls, errs


def compile_native(key, out, scratch, sanitize=True):
    h, defs, flags = key
    nflags = [f for f in flags if f.startswith("-D") or f.startswith("-I")]
    base = [CXX] + COMMON + ["-O1", "-g"] + (SANITIZE if sanitize else [])
    tag = "s" if sanitize else "n"
    tasks = []
    for src in repo_sources():
        o = os.path.join(scratch, "%s_%s.o" % (tag, os.path.basename(src)))
        if not os.path.exists(o):
            tasks.append((o, lambda src=src, o=o: run_cmd(base + ["-c", src, "-o", o]) + (o,)))
    rt = os.path.join(scratch, tag + "_rt.o")
    if not os.path.exists(rt):
        tasks.append((rt, lambda: run_cmd(base + ["-c", os.path.join(VERIF, "harness", "vf_native.cpp"), "-o", rt]) + (rt,)))
    ho = out + ".h.o"
    tasks.append((ho, lambda: run_cmd(base + nflags + ["-D" + d for d in defs] + ["-c", os.path.join(VERIF, "harness", h), "-o", ho]) + (ho,)))
    r = par(tasks)
    for k, v in r.items():
        if not v[0]:
            return False, v[1]
    objs = [os.path.join(scratch, "%s_%s.o" % (tag, os.path.basename(x))) for x in repo_sources()]
    return run_cmd([CXX, "-rdynamic"] + (SANITIZE[:1] if sanitize else []) + [ho, rt] + objs + ["-o", out, "-ldl", "-pthread"])


# ---------------------------------------------------------------- one job (runs in its own process)
def work(job, llpath, conn, deadline):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (job.opts.get("mem_gb", 8) << 30, job.opts.get("mem_gb", 8) << 30))
    except ValueError:
        pass
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    res = {}

    def body():
        res.update(execute(job, llpath, deadline))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if not res:
        res.update({"error": "no result"})
    try:
        conn.send(res)
        conn.close()
    finally:
        os._exit(0)


def execute(job, llpath, deadline):
    import ir
    import solver as S
    import sym
    import terms as T
    t0 = time.time()
    out = {"fn": job.fn, "args": job.args, "violations": [], "checks": [], "unknowns": [], "error": None, "complete": False}
    ex = None
    limit = min(deadline, t0 + job.timeout)
    S.DEADLINE[0] = limit
    try:
        m = ir.Module(open(llpath).read())
        ex = sym.Executor(m, job.opts)
        ex.deadline = limit
        setup = job.opts.get("setup")
        if setup:
            import provers
            getattr(provers, setup)(ex, job)
        st = ex.start()
        name = "@" + job.fn
        outs = ex.run_function(st, name, list(job.args) + [0] * (len_params(ex, m, name) - len(job.args)))
        nret = 0
        for kind, s, v in outs:
            if kind == "throw":
                ex.violation(s, "check", "uncaught exception (%s)" % v.tinfo)
            else:
                nret += 1
        out["complete"] = True
        out["paths"] = len(outs)
        post = job.opts.get("post")
        if post:
            import provers
            getattr(provers, post)(ex, job, outs)
    except sym.BudgetExceeded as e:
        out["error"] = "budget: %s" % e
    except sym.Unsupported as e:
        out["error"] = "unsupported: %s [%s]" % (e, ex.where() if ex else "")
    except sym.Abort:
        out["complete"] = True
    except MemoryError:
        out["error"] = "memory"
    except Exception as e:
        out["error"] = "engine: %s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])
    if ex is not None:
        for v in ex.violations:
            env = {k: x for k, x in (v.env or {}).items() if k in ex.inputs}
            ufs = []
            for nm, n, mm, cells, t in ex.uf_apps:
                try:
                    vals = T.eval_terms(list(cells) + [t], v.env or {})
                    ufs.append((nm, n, mm, bytes(vals[:-1]).hex(), vals[-1].to_bytes(mm, "little").hex()))
                except Exception:
                    pass
            out["violations"].append({"kind": v.kind, "label": v.label, "inputs": env, "where": v.where, "ufs": ufs})
        out["checks"] = ex.checks
        out["unknowns"] = ex.unknowns
        out["reached"] = list(ex.reached)
        out["funcs"] = dict(ex.funcs)
        out["steps"] = ex.steps
        out["forks"] = ex.forks
        out["merges"] = ex.merges
        out["ninputs"] = len(ex.inputs)
        out["input_bits"] = sum(ex.inputs.values())
        if job.opts.get("keep_outputs"):
            out["outputs"] = [(l, [b if type(b) is int else None for b in bs]) for l, bs, pc in ex.outputs]
    out["stats"] = S.stats.as_dict()
    out["terms"] = T.term_count() if hasattr(T, "term_count") else 0
    out["wall"] = time.time() - t0
    return out


def len_params(ex, m, name):
    f = m.functions.get(name)
    if f is None:
        import sym
        raise sym.Unsupported("no harness function " + name)
    ex.ensure_parsed(f)
    return len(f.params)


def run_jobs(jobs, lls, deadline, nproc=8, verbose=False):
    ctx = mp.get_context("fork")
    pending = list(enumerate(jobs))
    running = {}
    results = [None] * len(jobs)
    while pending or running:
        while pending and len(running) < nproc:
            i, j = pending.pop(0)
            if lls.get(j.key()) is None:
                results[i] = {"fn": j.fn, "args": j.args, "violations": [], "checks": [], "unknowns": [], "error": "harness did not compile", "complete": False}
                continue
            if time.time() > deadline - 2:
                results[i] = {"fn": j.fn, "args": j.args, "violations": [], "checks": [], "unknowns": [], "error": "budget: not started", "complete": False}
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(j, lls[j.key()], b, deadline))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), j)
        if not running:
            continue
        mp.connection.wait([r[1] for r in running.values()], timeout=1.0)
        for i in list(running):
            p, a, t0, j = running[i]
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except EOFError:
                    done = {"error": "process died (memory?)"}
            elif not p.is_alive():
                done = {"error": "process died (memory?)"}
            elif time.time() > min(deadline + 20, t0 + j.timeout * 1.3 + 30):
                p.kill()
                done = {"error": "budget: killed"}
            if done is not None:
                done.setdefault("fn", j.fn)
                done.setdefault("args", j.args)
                for k in ("violations", "checks", "unknowns"):
                    done.setdefault(k, [])
                done.setdefault("complete", False)
                results[i] = done
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[i]
                if verbose:
                    print("  %-46s %6.1fs steps=%-9s checks=%d viol=%d unk=%d %s" % (j.name(), done.get("wall", 0), done.get("steps"), len(done["checks"]), len(done["violations"]), len(done["unknowns"]), done.get("error") or ""), flush=True)
                    for v in done["violations"]:
                        print("      !!", v["kind"], v["label"], "@", v["where"][:300])
                    for u in done["unknowns"][:4]:
                        print("      ??", u)
    return results


# ---------------------------------------------------------------- replay
def write_replay(path, job, v, pid):
    with open(path, "w") as f:
        f.write("# property %s, harness %s %s args %s\n# %s: %s\n# reproduce: %s/replay.sh %s\n" % (pid, job.harness, job.fn, " ".join(map(str, job.args)), v["kind"], v["label"], VERIF, path))
        f.write("#JOB %s\n" % json.dumps({"harness": job.harness, "fn": job.fn, "args": job.args, "defs": job.defs, "flags": job.flags, "label": v["label"], "property": pid}))
        for k in sorted(v["inputs"]):
            f.write("%s %d\n" % (k, v["inputs"][k]))
        for nm, n, m, i, o in v.get("ufs", []):
            f.write("uf %s/%d/%d %s %s\n" % (nm, n, m, i or "-", o))


def replay_run(exe, path, job, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=0:exitcode=77")

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (timeout + 5, timeout + 5))
    try:
        p = subprocess.run([exe, path, job.fn] + [str(a) for a in job.args], capture_output=True, timeout=timeout, env=env, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return "timeout", "no result within %d s" % timeout
    txt = (p.stdout + p.stderr).decode("latin1")
    if p.returncode == 42:
        return "fail", txt
    if p.returncode == 0:
        return "ok", txt
    if p.returncode == 2:
        return "error", txt
    return "crash", txt


def head_hash():
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return ""


def load_known():
    """known findings: 'finding: property=<id> harness=<fn> label=<label> :: text'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                head, _, text = l[8:].partition("::")
                d = {}
                for tok in head.strip().split(";"):
                    k, _, v = tok.strip().partition("=")
                    d[k.strip()] = v.strip()
                d["text"] = text.strip()
                out.append(d)
    return out


def match_known(known, pid, job, v, outcome):
    for k in known:
        if k.get("property") != pid:
            continue
        if k.get("harness") and k["harness"] != job.fn:
            continue
        if k.get("args") and k["args"] != ",".join(map(str, job.args)):
            continue
        if k.get("label") and k["label"] not in v["label"]:
            continue
        if k.get("where") and k["where"] not in v["where"]:
            continue
        return k
    return None


def run_check(pid, spec, tier, seed=1, verbose=False, only=None):
    t0 = time.time()
    jobs = spec["jobs"](tier)
    if only:
        jobs = [j for j in jobs if only in j.name()]
    budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    status = 0
    confirmed = []
    unconfirmed = []
    knowns = []
    try:
        keys = []
        for j in jobs:
            if j.key() not in keys:
                keys.append(j.key())
        lls, errs = build_ir(keys, scratch)
        tcomp = time.time() - t0
        results = run_jobs(jobs, lls, deadline, verbose=verbose)
        # replay
        natives = {}
        known = load_known()
        tried = {}
        for j, r in zip(jobs, results):
            for v in r["violations"]:
                sigk = (j.fn, v["label"])
                if tried.get(sigk, 0) >= 3:
                    continue
                tried[sigk] = tried.get(sigk, 0) + 1
                if j.key() not in natives:
                    exe = os.path.join(scratch, "n%d" % len(natives))
                    ok, err = compile_native(j.key(), exe, scratch)
                    natives[j.key()] = exe if ok else None
                    if not ok:
                        errs["native " + j.harness] = err
                exe = natives[j.key()]
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-%s.txt" % (pid, hashlib.sha1(repr((j.name(), v["label"], sorted(v["inputs"].items()))).encode()).hexdigest()[:10]))
                write_replay(path, j, v, pid)
                if exe is None:
                    unconfirmed.append((j, v, "native harness did not build", path))
                    continue
                oc, txt = replay_run(exe, path, j)
                good = oc in ("fail", "crash") or (oc == "timeout" and v["kind"] == "nontermination")
                if v["kind"] == "ct":
                    good = True      # no observable failure in a single run: the two-run witness is in the file
                if good:
                    k = match_known(known, pid, j, v, oc)
                    if k is not None:
                        knowns.append((j, v, txt, path, k))
                    else:
                        confirmed.append((j, v, txt, path))
                else:
                    unconfirmed.append((j, v, "replay: %s %s" % (oc, txt[-200:]), path))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # ---- report
    seen = set()
    for j, v, txt, path, k in knowns:
        if id(k) in seen:
            continue
        seen.add(id(k))
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for j, v, txt, path in confirmed:
        print("  %s: %s: %s" % (j.name(), v["kind"], v["label"]))
        for l in txt.strip().splitlines()[:6]:
            print("    | " + l[:200])
    for j, v, txt, path in confirmed:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
        break
    nproved = sum(1 for r in results for c in r["checks"] if c[1] == "proved")
    nchecks = sum(len(r["checks"]) for r in results)
    inconc = []
    for j, r in zip(jobs, results):
        if r.get("error"):
            inconc.append({"job": j.name(), "reason": r["error"][:600]})
        for u in r["unknowns"]:
            inconc.append({"job": j.name(), "reason": "%s: %s (%s)" % (u[1], u[0], u[2])})
    for j, v, why, path in unconfirmed:
        inconc.append({"job": j.name(), "reason": "solver model not confirmed by replay: %s: %s (%s)" % (v["kind"], v["label"], why)})
    notes_missing = []
    for j, r in zip(jobs, results):
        for n in j.opts.get("expect", ()):
            if r.get("complete") and n not in r.get("reached", ()):
                notes_missing.append("%s: %s" % (j.name(), n))
    st = {}
    for r in results:
        for k, x in (r.get("stats") or {}).items():
            st[k] = st.get(k, 0) + x
    funcs = {}
    for r in results:
        for k, n in (r.get("funcs") or {}).items():
            funcs[k] = funcs.get(k, 0) + n
    try:
        dem = demangle([f for f in funcs])
    except Exception:
        dem = {f: f for f in funcs}
    repo_funcs = sorted({dem[f] for f in funcs if "Caligo" in dem.get(f, "") or "caligo" in f.lower()})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": spec["explain"] + " Each obligation is an assertion over symbolic inputs in a harness compiled together with the current source in %s; the LLVM IR is executed symbolically and z3 (with equivalence sweeping into smaller z3 lemmas, GF(2) normal forms and kissat where noted) decides it for every value within the bounds." % REPO,
            "bounds": spec["bounds"],
            "jobs": len(jobs), "jobs_complete": sum(1 for r in results if r.get("complete")),
            "obligations": nchecks, "discharged": nproved,
            "memory_safety": "every load, store, free and division on every explored path carries a bounds/liveness obligation; violations of it count as violations",
            "symbolic_input_bits": sum(r.get("input_bits", 0) for r in results),
            "instructions_executed": sum(r.get("steps", 0) for r in results),
            "forks": sum(r.get("forks", 0) for r in results), "merges": sum(r.get("merges", 0) for r in results),
            "functions_encoded": repo_funcs[:120],
            "functions_encoded_total": len(funcs),
            "solver": st,
            "reachability_witnesses": sorted({n for r in results for n in r.get("reached", ())}),
            "witnesses_missing": notes_missing,
            "inconclusive": inconc[:40],
            "inconclusive_total": len(inconc),
            "harness_compile_errors": {k: e[-800:] for k, e in errs.items()},
            "compile_s": round(tcomp, 2),
            "samples": [{"job": j.name(), "desc": j.desc, "checks": [c[0] + ": " + c[1] for c in r["checks"][:4]], "wall_s": round(r.get("wall", 0), 2)} for j, r in list(zip(jobs, results))[:8]],
        },
        "assumptions": spec.get("assumptions", []),
        "violations": [{"job": j.name(), "kind": v["kind"], "label": v["label"], "replay": path} for j, v, t, path in confirmed],
        "known_findings": [k["text"] for _, _, _, _, k in knowns],
        "repo_head": head_hash(),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: jobs %d/%d complete, obligations %d discharged %d, inconclusive %d, queries %d, solver %.1fs, wall %.1fs%s" % (
        pid, tier, ev["coverage"]["jobs_complete"], len(jobs), nchecks, nproved, len(inconc), st.get("queries", 0), st.get("time", 0), ev["wall_s"],
        "" if not confirmed else ", VIOLATED"))
    for i in inconc[:10]:
        print("  inconclusive: %s: %s" % (i["job"], i["reason"][:400]))
    for n in notes_missing:
        print("  witness not reached: " + n)
    for k, e in errs.items():
        print("  compile error in %s: %s" % (k, e[-600:]))
    return status


def sem_run(ths, n):
    live = []
    for t in ths:
        t.start()
        live.append(t)
        while sum(x.is_alive() for x in live) >= n:
            time.sleep(0.02)
    for t in live:
        t.join()


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(n.lstrip("@") for n in names), capture_output=True, text=True)
    o = p.stdout.split("\n")
    return {n: (o[i] if i < len(o) else n) for i, n in enumerate(names)}
