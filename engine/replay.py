import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
path = sys.argv[1]
d = None
for l in open(path):
    if l.startswith("#JOB "):
        d = json.loads(l[5:])
j = runner.Job(d["harness"], d["fn"], d["args"], defs=d["defs"], flags=d["flags"])
sc = tempfile.mkdtemp(prefix="vfreplay-")
try:
    exe = os.path.join(sc, "n")
    ok, err = runner.compile_native(j.key(), exe, sc)[:2]
    if not ok:
        print(err); sys.exit(2)
    oc, txt = runner.replay_run(exe, path, j)
    print(txt)
    print("outcome:", oc)
    sys.exit(0 if oc == "ok" else 1)
finally:
    shutil.rmtree(sc)
