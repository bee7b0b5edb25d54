"""Run the checks against the planted bugs in scratch copies.
usage: recheck.py [--seed N] [--also Cxx,...] [ID ...]   (no ID: all of /verif/seeded)"""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
seed = "1"
if "--seed" in a:
    i = a.index("--seed"); seed = a[i + 1]; del a[i:i + 2]
also = []
if "--also" in a:
    i = a.index("--also"); also = a[i + 1].split(","); del a[i:i + 2]
miss = 0
for b in a or sorted(os.listdir(VERIF + "/seeded")):
    s = VERIF + "/seeded/" + b
    meta = json.load(open(s + "/meta.json"))
    d = "/tmp/pb/" + b
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/pb", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    p = subprocess.run(["git", "apply", s + "/patch.diff"], cwd=d)
    line = ""
    if p.returncode:
        line = "DOES NOT APPLY"
    else:
        for c in [meta["property"]] + also:
            t = time.time()
            r = subprocess.run(["./run.sh", c], cwd=VERIF, env=dict(os.environ, RV_REPO=d, VERIF_SEED=seed, VERIF_TIER="quick"), text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            k = [l[4:] for l in r.stdout.splitlines() if l.startswith("---")]
            if r.returncode != 1 and c == meta["property"]:
                miss += 1
            line += " %s %s %s %.0fs" % (c, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode), k[:1], time.time() - t)
    print(b, line, flush=True)
    shutil.rmtree(d)
print("missed:", miss)
