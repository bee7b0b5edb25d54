"""Child interpreter for C18: runs a battery of constructions and reports the outputs.

stdin: one JSON job {repo, scratch, items, order, hist, fork}; the result goes to job["out"].
"""
import json
import os
import sys


def main():
    job = json.loads(sys.stdin.buffer.read().decode())
    sys.path.insert(0, job["verif"])
    os.environ["RV_REPO"] = job["repo"]
    sys.setrecursionlimit(30000)
    import importlib

    for m in ("packaging.version", "html", "json", "random", "tempfile", "shutil", "copy", "fractions", "decimal", "encodings.utf_8", "encodings.ascii"):
        importlib.import_module(m)
    sys.path.insert(0, job["repo"])
    import htmltools  # noqa: F401

    from rv import c18items, core

    core.SCRATCH = job["scratch"]
    cwd = os.getcwd()
    core.drop_privileges()
    os.chdir(cwd if job.get("cwd") else core.SCRATCH)
    c18items.setup()
    res = c18items.run(job)
    with open(job["out"] + ".tmp", "w", encoding="utf-8") as f:
        json.dump(res, f)
    os.rename(job["out"] + ".tmp", job["out"])


if __name__ == "__main__":
    sys.stdout.flush()
    main()
