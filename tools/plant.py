"""Plant bugs in scratch copies of /repo, confirm them, and see which checks notice.

usage: plant.py DEFS.py [ID ...] [--checks]
DEFS.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)].
A confirmed bug is written to /verif/seeded/<id>/.
"""
import importlib.util, json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = "/tmp/pb"
DEMO_SH = '''#!/bin/bash
# cwd: the repository.  Exit 0: behaves as the property says.
cd "${REPO_DIR:-$PWD}" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -X utf8 "$(dirname "$(readlink -f "$0")")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def passed(d):
    x = d + ".xml"
    rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                  "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], cwd=d,
                 env={"PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0"})
    ok = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not list(tc):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    os.unlink(x)
    return ok, out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("defs", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    os.makedirs(PB, exist_ok=True)
    for b in m.BUGS:
        if args[1:] and b["id"] not in args[1:]:
            continue
        d = os.path.join(PB, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        sh(["cp", "-a", "/repo", d])
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                bad = "edit matches %d times: %r" % (s.count(old), old[:80])
                break
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        if bad:
            print(b["id"], "BAD", bad)
            shutil.rmtree(d)
            continue
        _, diff = sh(["git", "diff"], cwd=d)
        s = os.path.join(PB, b["id"] + ".seed")
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        open(s + "/patch.diff", "w").write(diff)
        open(s + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(s + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(s + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(s + "/meta.json", "w"), indent=1)
        r0, o0 = sh(["bash", s + "/demo.sh"], cwd="/repo", timeout=300)
        r1, o1 = sh(["bash", s + "/demo.sh"], cwd=d, timeout=300)
        ok, tout = passed(d)
        fails = sorted(t for t in stable if t not in ok)
        if r0 != 0 or r1 == 0 or fails:
            print(b["id"], "REJECTED demo clean=%d patched=%d tests failing=%s" % (r0, r1, fails[:3]))
            print(o0[-600:] if r0 else "", o1[-300:] if r1 == 0 else "")
            shutil.rmtree(d)
            shutil.rmtree(s)
            continue
        dst = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.move(s, dst)
        line = ""
        if "--checks" in sys.argv:
            ids = [b["prop"]] + b.get("also", [])
            for i in ids:
                rc, out = sh(["./run.sh", i], cwd=VERIF, env={"RV_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                kind = [l for l in out.splitlines() if l.startswith("---")]
                line += " %s:%s%s" % (i, {0: "MISSED", 1: "caught"}.get(rc, "rc%d" % rc), (" " + kind[0]) if kind else "")
        print(b["id"], "ok", line, flush=True)
        shutil.rmtree(d)


main()
