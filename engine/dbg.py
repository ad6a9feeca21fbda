"""dbg.py harness fn args... : run one job in-process"""
import cProfile, sys, os, tempfile, shutil, threading, faulthandler
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
if os.environ.get("DUMP"): faulthandler.dump_traceback_later(int(os.environ["DUMP"]), repeat=True)
h, fn = sys.argv[1:3]
opts = {}
args = []
for a in sys.argv[3:]:
    if "=" in a:
        k, v = a.split("=")
        opts[k] = int(v) if v.isdigit() else v
    else:
        args.append(int(a))
sc = tempfile.mkdtemp(prefix="vfdbg-")
try:
    tm = opts.pop("timeout", 100)
    if os.environ.get("FLAGS"): opts["flags"] = tuple(os.environ["FLAGS"].split())
    j = runner.Job(h, fn, args, timeout=tm, **opts)
    lls, errs = runner.build_ir([j.key()], sc)
    if errs: print(errs)
    import time
    r = runner.run_jobs([j], lls, time.time() + tm + 5, verbose=True)[0] if not os.environ.get("INPROC") else None
    if r is None:
        sys.setrecursionlimit(1000000); threading.stack_size(512 << 20)
        def b():
            global r
            if os.environ.get("PROF"):
                pr = cProfile.Profile(); pr.enable()
            r = runner.execute(j, lls[j.key()], time.time() + tm)
            if os.environ.get("PROF"):
                pr.disable()
                import pstats; pstats.Stats(pr).sort_stats("cumtime").print_stats(25)
        t = threading.Thread(target=b); t.start(); t.join()
    for k in ("error", "steps", "forks", "merges", "wall", "stats", "reached"):
        print(k, r.get(k))
    for v in r["violations"]: print(v["kind"], v["label"], v["where"][:400], dict(list(v["inputs"].items())[:8]))
    print(r["unknowns"][:5])
finally:
    shutil.rmtree(sc)
