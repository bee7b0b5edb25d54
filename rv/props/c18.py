"""C18: output is deterministic across processes and independent of history."""
import json
import os
import random
import subprocess
import sys
import html
import re
import unicodedata as ud

from .. import c18items, core, spec, strings
from ..core import REPO, VERIF, Skip, Stream, Violation

ID = "C18"
KEEP_ROOT = True    # the code under test runs only in child interpreters, which give up their privileges themselves
RULE = ("batteries of constructions (trees, documents, text documents, saved documents, JSX, dependency lists, head_content families, near-identical "
        "siblings) run in several interpreter processes which differ in hash seed, order, earlier history (each alone in a forked process; "
        "interleaved noise; repeated; objects kept alive), working directory, locale, optimisation level; all outputs compared byte for byte with the run in which each "
        "construction is alone in its process; head_content names checked to be a one-to-one function of the content over everything seen; "
        "non-trivial: an output compared across all processes, distinct by construction")
ASSUMPTIONS = ["Linux; interpreter processes of the same Python", "rendered content means the string the payload renders to"]
MIN_EVENTS = {"outputs_compared": 8000, "processes": 40, "hash_seeds": 20, "head_content_names": 500, "many_names": 500000, "long_contents": 4000, "reduced_pairs": 200000, "names_documents": 200, "documents": 300}
SOFT = {"quick": 300, "thorough": 800}


def g_battery(n):
    def g(i, rng):
        return {"seed": rng.randrange(1 << 60), "n": n, "envs": mkenvs(rng)}
    return g


def mkenvs(rng):
    hs = lambda: str(rng.randrange(1, 4294967295))
    envs = [{"hashseed": "0", "order": "fwd", "hist": "fork"},
            {"hashseed": "1", "order": "fwd", "hist": "plain"},
            {"hashseed": hs(), "order": "rev", "hist": "noise", "cwd": "/"},
            {"hashseed": hs(), "order": "shuffle", "hist": "twice", "env": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "TZ": "Asia/Tokyo"}},
            {"hashseed": hs(), "order": rng.choice(["rev", "shuffle"]), "hist": "keep", "flags": [rng.choice(["-O", "-OO", "-Xdev"])],
             "env": {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}}]
    for i, e in enumerate(envs):
        e["oseed"] = rng.randrange(1 << 40)
    return envs


def streams(tier):
    q = tier == "quick"
    return [Stream("batteries", 16 if q else 160, g_battery(160 if q else 250)), Stream("short", 16 if q else 200, g_battery(12)),
            Stream("reduced", 8 if q else 64, lambda i, rng: {"reduced": rng.randrange(1 << 60), "n": 6000 if q else 20000}),
            Stream("many_names", 8 if q else 64, lambda i, rng: {"many": rng.randrange(1 << 60), "n": 120000 if q else 300000})]


def _drop(f):
    return lambda s, rng: "".join(c for c in s if not f(c))


def _edit(s, rng):
    j = rng.randrange(len(s) + 1)
    k = rng.randrange(4)
    if k == 0:
        return s[:j] + s[j + 1:]
    if k == 1:
        return s[:j] + s[j:j + 1] * 2 + s[j + 1:]
    if k == 2:
        return s[:j] + s[j + 1:j + 2] + s[j:j + 1] + s[j + 2:]
    return s[:j] + rng.choice(strings.WS + strings.UNI + list(strings.META)) + s[j + 1:]


def _digit(c):
    d = ud.digit(c, None)
    return c if d is None else str(d)


# What a text may be reduced to before it is compared, hashed or stored
REDUCE = [lambda s, rng: ud.normalize(rng.choice(["NFC", "NFD", "NFKC", "NFKD"]), s), lambda s, rng: s.casefold(), lambda s, rng: s.lower(), lambda s, rng: s.upper(),
          lambda s, rng: s.swapcase(), lambda s, rng: s.title(), lambda s, rng: s.strip(), lambda s, rng: s.lstrip(), lambda s, rng: s.rstrip(),
          lambda s, rng: s.strip("\u200b\ufeff"), lambda s, rng: s.strip(s[:1]), lambda s, rng: s.rstrip(s[-1:]), lambda s, rng: s[1:], lambda s, rng: s[:-1],
          lambda s, rng: s.expandtabs(rng.choice([1, 2, 4, 8])), lambda s, rng: rng.choice(["\n", "", " "]).join(s.splitlines()), lambda s, rng: s + rng.choice(strings.WS),
          lambda s, rng: rng.choice(strings.WS) + s, lambda s, rng: s.replace("\r\n", "\n"), lambda s, rng: s.replace("\r", "\n"), lambda s, rng: s.replace("\n", "\r\n"),
          lambda s, rng: re.sub(r"\s+", " ", s), lambda s, rng: re.sub(r"\s+", "", s), lambda s, rng: re.sub(r"[^\S ]", " ", s), lambda s, rng: re.sub(r">\s+<", "><", s),
          lambda s, rng: re.sub(r"\W", "", s), lambda s, rng: re.sub(r"[ \t]+$", "", s, flags=re.M), lambda s, rng: re.sub(r"(?m)^[ \t]+", "", s),
          lambda s, rng: re.sub("(?s)<!--.*?-->", "", s), lambda s, rng: re.sub("(?s)/\\*.*?\\*/", "", s), lambda s, rng: re.sub("/>", ">", s),
          lambda s, rng: html.unescape(s), lambda s, rng: html.escape(s), lambda s, rng: html.escape(html.unescape(s)), lambda s, rng: html.escape(s, False),
          lambda s, rng: s.replace('"', "'"), lambda s, rng: s.replace("'", '"'), lambda s, rng: s.replace("\\", ""), lambda s, rng: s.rstrip("\\"), lambda s, rng: s.replace("\\", "/"),
          lambda s, rng: s.rstrip(";"), lambda s, rng: s.rstrip("/"), lambda s, rng: s.replace("_", "-"), lambda s, rng: s.replace("--", "-"),
          lambda s, rng: s.encode("ascii", "ignore").decode(), lambda s, rng: s.encode("ascii", "replace").decode(), lambda s, rng: s.encode("ascii", "xmlcharrefreplace").decode(),
          lambda s, rng: s.encode("ascii", "backslashreplace").decode(), lambda s, rng: s.encode("latin-1", "ignore").decode("latin-1"),
          lambda s, rng: s.encode("latin-1", "replace").decode("latin-1"), lambda s, rng: s.encode("utf-8").decode("latin-1"), lambda s, rng: s.encode("cp1252", "replace").decode("cp1252"),
          lambda s, rng: "".join(chr(ord(c) & 0xffff) if not 0xD800 <= ord(c) & 0xffff < 0xE000 else "" for c in s), lambda s, rng: "".join(chr(ord(c) & 0xff) for c in s),
          lambda s, rng: "".join(chr(ord(c) & 0x7f) for c in s), lambda s, rng: "".join(c.casefold() if ord(c) > 127 else c for c in s), lambda s, rng: "".join(map(_digit, s)),
          lambda s, rng: "".join(sorted(s)), lambda s, rng: s[::-1], lambda s, rng: " ".join(sorted(s.split(" "))), lambda s, rng: "\n".join(sorted(s.split("\n"))),
          lambda s, rng: "\n".join(dict.fromkeys(s.split("\n"))), lambda s, rng: repr(s), lambda s, rng: json.dumps(s)[1:-1], lambda s, rng: s.split("\0")[0],
          lambda s, rng: s.removesuffix("\n"), lambda s, rng: s.removeprefix("\ufeff"), lambda s, rng: s * 2, lambda s, rng: s.replace(s[:1], "") if s else "",
          _drop(lambda c: not c.isprintable()), _drop(lambda c: not c.isprintable() and c not in "\n\t\r"), _drop(lambda c: ud.category(c) == "Cf"), _drop(lambda c: ud.category(c) == "Cc"),
          _drop(lambda c: ud.category(c) in ("Cc", "Cf", "Co", "Cn")), _drop(lambda c: ud.category(c) in ("Co", "Cn")), _drop(lambda c: ud.combining(c)), _drop(lambda c: ord(c) > 0xffff),
          _drop(lambda c: ord(c) > 0xff), _drop(lambda c: 0x7f <= ord(c) <= 0x9f), _drop(lambda c: c == "\0"), _drop(lambda c: c in "\u2028\u2029\x85"),
          _drop(lambda c: 0xfe00 <= ord(c) <= 0xfe0f or 0x1f3fb <= ord(c) <= 0x1f3ff), _edit, _edit, _edit, _edit]
SPECIAL = strings.WS + strings.UNI + ["\u0661", "\uff11", "\ue000", "\U000f0000", "\ufe0f", "\U0001f3fd", "\u0130", "\u1e9e", "\t", "\r", "\\", "\x08", "\x9b", "A\u030a", "\u0378",
                                      "&amp;", "&lt;", "&#39;", "&nbsp;", "'", '"', "<!-- c -->", "/* c */", "> <", "/>", "_", "--", "ab ab", "1.0", "1.00", "TRUE", "\u2028", "b\na\na"]


def reduced(case, M):
    """Contents and what they may be reduced to: they differ, so do their names."""
    ht = spec.H()
    rng = random.Random(case["reduced"])
    seen = {}
    pairs = 0

    def name(c):
        nm = ht.head_content(ht.HTML(c)).name
        if seen.setdefault(nm, c) != c:
            raise Violation("names", "different contents share the name %s: %r and %r" % (nm, c[:1500], seen[nm][:1500]))

    for _ in range(case["n"]):
        if rng.random() < 0.5:
            s = strings.text(rng, None, 200)
        else:
            s = "".join(rng.choice(rng.choice((SPECIAL, SPECIAL, strings.WORDS, strings.MARK))) for _ in range(rng.choice([1, 2, 3, 6])))
        if rng.random() < 0.3:
            s = rng.choice(["<style>%s</style>", "<meta content=\"%s\"/>", "<script>\n%s\n</script>", " %s ", "%s\n"]) % s
        name(s)
        for f in rng.sample(REDUCE, 20):
            t = f(s, rng)
            if t != s:
                name(t)
                pairs += 1
    M.ev("reduced_pairs", pairs)
    M.distinct(case)


def many(case, M):
    """Very many different contents, most of them nearly equal: no two may share a name, and equal ones share it."""
    ht = spec.H()
    rng = random.Random(case["many"])
    pres = ["", "<style>", "<meta name=\"viewport\" content=\"", "/* " + "p" * rng.choice([10, 60, 300, 1100]), "\n" * 5, "\u00e9\u6f22"]
    posts = ["", "</style>", "\"/>", " " * 9, "q" * rng.choice([10, 60, 300, 1100]), "\n"]
    seen = {}
    n = case["n"]
    fam = 0
    k = 0
    while len(seen) < n:
        if k % 2000 == 0:
            pre, post, fam = rng.choice(pres), rng.choice(posts), rng.randrange(7)
            off = rng.randrange(10 ** 9)
        k += 1
        if fam == 0:
            mid = str(off + k)
        elif fam == 1:
            mid = "%x" % rng.getrandbits(64)
        elif fam == 2:      # the same characters, in other orders
            mid = "".join(rng.sample("abcdefghijkl", 12))
        elif fam == 3:      # differing in case or white space
            mid = "".join(rng.choice("aA \t\n") for _ in range(16))
        elif fam == 4:
            mid = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0x2fff), rng.randrange(0x1f300, 0x1f600)])) for _ in range(6))
        elif fam == 5:
            mid = "".join(rng.choice("01") for _ in range(40))
        else:
            mid = "\u00e9" * rng.randrange(4) + rng.choice("xyz") * rng.randrange(1, 300) + str(k % 7)
        c = pre + mid + post
        nm = ht.head_content(ht.HTML(c)).name
        if seen.setdefault(nm, c) != c:
            raise Violation("names", "different contents share the name %s: %r and %r" % (nm, c[:1500], seen[nm][:1500]))
    # long contents that differ in one place
    for _ in range(30):
        unit = rng.choice(["a", "word ", "<meta name=\"x\"/>\n", "\u00e9\u6f22", "line\n", " ", "0123456789abcdef", "</p><p>"])
        size = rng.choice([1100, 2100, 4200, 8200, 17000, 33000, 66000, 140000])
        base = (unit * (size // len(unit) + 1))[:size]
        vs = [base, base + "x", base + "y", "x" + base, base[:-1], base + unit, unit + base + "z"]
        for _ in range(12):
            j = rng.choice([0, size - 1, size // 2, rng.randrange(size), rng.randrange(size)])
            vs.append(base[:j] + rng.choice("xyzXYZ") + base[j + 1:])
        for c in vs:
            nm = ht.head_content(ht.HTML(c)).name
            if seen.setdefault(nm, c) != c:
                j = next((j for j, (a, b) in enumerate(zip(c, seen[nm])) if a != b), -1)
                raise Violation("names", "contents of %d and %d characters share the name %s; first difference at %d: %r, %r" % (
                    len(c), len(seen[nm]), nm, j, c[:200], seen[nm][:200]))
            M.ev("long_contents")
    M.ev("many_names", len(seen))
    for c in seen.values():
        M.distinct(c)
        break
    some = rng.sample(sorted(seen), 200)
    for nm in some:
        d = ht.head_content(ht.HTML(seen[nm]))
        if d.name != nm:
            raise Violation("names", "the content %r is named %s and %s" % (seen[nm][:500], nm, d.name))


CPU_LIMIT = 600


def run_env(e, items, tag):
    scratch = core.SCRATCH
    out = os.path.join(scratch, "c18-%d-%s-%d.json" % (os.getpid(), tag, random.SystemRandom().randrange(1 << 50)))
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k not in ("LC_ALL", "LANG")}
    env.update({"PYTHONHASHSEED": e["hashseed"], "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8"})
    for k in ("PYTHONPYCACHEPREFIX",):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(e.get("env", {}))
    job = dict(e, verif=VERIF, repo=REPO, scratch=scratch, items=items, out=out)
    p = subprocess.Popen([sys.executable, "-B"] + e.get("flags", []) + [os.path.join(VERIF, "rv", "c18child.py")], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=e.get("cwd") or scratch)
    return p, job, out


def check(case, M):
    if "reduced" in case:
        return reduced(case, M)
    if "many" in case:
        return many(case, M)
    items = case.get("items")
    if items is None:
        items = c18items.gen_battery(random.Random(case["seed"]), case["n"])
    if not items or len(case["envs"]) < 2:
        raise Skip()
    res = []
    for k, e in enumerate(case["envs"]):
        p, job, out = run_env(e, items, str(k))
        log, _ = p.communicate(json.dumps(job).encode())
        if not os.path.exists(out):
            raise RuntimeError("child interpreter %r gave no result:\n%s" % (e, log.decode(errors="replace")[-3000:]))
        with open(out, encoding="utf-8") as f:
            res.append(json.load(f))
        os.unlink(out)
        M.ev("processes")
    M.ev("hash_seeds", len({r["probe"] for r in res}))
    base = res[0]
    for i, it in enumerate(items):
        b = base["outs"][i]
        if b == ["FORK FAILED"]:
            raise RuntimeError("a forked construction gave no result: %r" % (it,))
        for k, r in enumerate(res):
            o = r["outs"][i]
            if o and o[0].startswith("VIOL "):
                raise Violation("merged", "%s\nconstruction %d: %s\nprocess: %s" % (o[0][5:], i, json.dumps(it)[:800], json.dumps(case["envs"][k])))
            if o and o[0].startswith("EXC UnicodeEncodeError") and it["t"] != "save" and case["envs"][k].get("env", {}).get("LC_ALL") == "C":
                # a file name which this process cannot pass to the system
                M.ev("unencodable_file_names")
                continue
            if o != b:
                raise Violation("differs", "construction %d gives another output\nalone in a process: %s\nin process %s: %s\nconstruction: %s" % (
                    i, show(b, o), json.dumps(case["envs"][k]), show(o, b), json.dumps(it)[:1500]))
            M.ev("outputs_compared", len(o))
        M.ev({"names": "names_documents", "doc": "documents", "save": "saved_documents"}.get(it["t"], it["t"] + "_constructions"))
        if b and b[0].startswith("EXC"):
            M.ev("raising_constructions")
        else:
            M.distinct(it)
    for k, r in enumerate(res):
        for j, o in r["again"]:
            if o and o[0].startswith("EXC UnicodeEncodeError"):
                continue
            raise Violation("differs", "construction %d repeated in the same process gives another output\nfirst: %s\nagain: %s\nconstruction: %s" % (
                j, show(r["outs"][j], o), show(o, r["outs"][j]), json.dumps(items[j])[:1500]))
    # names are a one-to-one function of the content
    byc, byn = {}, {}
    for r in res:
        for c, nm in r["names"]:
            if byc.setdefault(c, nm) != nm:
                raise Violation("names", "the content %r is named %s and %s" % (c[:500], byc[c], nm))
            if byn.setdefault(nm, c) != c:
                raise Violation("names", "different contents share the name %s: %r and %r" % (nm, c[:500], byn[nm][:500]))
    M.ev("head_content_names", len(byn))
    M.sample({"env": case["envs"][2], "item": json.dumps(items[0])[:300], "output": (base["outs"][0] or [""])[0][:200]})


def show(a, b):
    for x, y in zip(a, b):
        if x != y:
            i = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return "...%r" % x[max(0, i - 150):i + 250]
    return "%d outputs" % len(a)
