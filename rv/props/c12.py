"""C12: dependency URLs and copied files agree."""
import importlib
import json
import os
import random
import re
import shutil
import sys
import urllib.parse

from packaging.version import Version

from .. import core, fsmon, shapes, spec, strings, tok
from ..core import Stream, Violation

ID = "C12"
RULE = ("real save_html()/copy_to() runs on generated source directories (hostile file names, nested, binary contents), package / "
        "directory / URL / no source, all_files, pre-existing destination states, missing files at every place, prefixes and "
        "flags; the written file's URLs are followed to the copied files and compared byte by byte; an audit hook records every "
        "file-system change; non-trivial: at least one local file copied or a missing file, distinct by case")
ASSUMPTIONS = ["dependency names and lib prefixes contain no '%', '?', '#'", "listed paths are relative and do not climb out with '..'",
               "an existing destination is a directory", "the source directory is not the destination",
               "URL-source paths need no encoding"]
MIN_EVENTS = {"saves_observed": 1200, "urls_followed": 3000, "files_compared": 3000, "stale_targets_seen": 400, "missing_file_raises": 500,
              "as_dict_urls": 8000, "fs_events_observed": 10000}
COV_FILES = ["_core.py", "_util.py"]

FILES = ["f.js", "g.css", "a b.js", "100%.js", "a#b.css", "q?r.js", "é.js", "日本/ü.css", "n/e/s/t/x.js", "%20.js", "%2e.js", "a&b.js",
         "a'b\".js", "a+b.js", "a;b,c.js", "a:b.js", ".hid.js", "..x.js", "back\\slash.js", "e\u0301.js", "d/f.js", "d/g.css", "D/f.js",
         "<x>.js", "a=b&c=d.js", " lead.js", "trail .js", "~t.js", "sp ace/x y.js", "a%2Fb.js", "x.min.js", "(1)[2]{3}.js", "!@$^*.js",
         "no_ext", "\U0001F600.js", "new\nline.js", "a|b.js", "`.js", "d/.h/i.js", "tab\tx.js", "%.js", "%zz.css", "a%23b.js", "-d.js",
         "index.html", "d.js/x.js", "100%25.js", "q%3Fr.js"]
NAMES = ["a", "b", "lib-x", "my lib", "é", "foo.bar", "A", "x_y", "@scope", "a+b", "a&b", "@s/pkg", "q\"x", "lib", "a-1", "日本", "f.js",
         "n;m", "~", "<n>", "index.html.d"]
LIBDIRS = ["lib", "lib", "lib", None, None, "", "a/b", "a/b/c", "lib/", "x y", "é", "./lib", "../up", "a//b", "l.d", "A+B", "."]
SRCS = ["srcs", "srcs/$HOME", "~", "~root", "srcs/${HOME}/x", "srcs/a%20b", "srcs/a#b?c", "srcs/[x]*?", "srcs/\u00e9\u65e5", "-s", "srcs/a;b&c", "srcs/back\\s",
        "srcs/{a,b}", "srcs/..x", "srcs/a\nb", " srcs ", "srcs/%HOME%", "srcs/A.B.C", "http:", "file:", "C:"]
VERS = ["1", "1.0", "1.10.2", "1.0a1", "1.0-1", "2.0+loc.1", "01.2", "1!2.0", "0.0"]


def harvest_names():
    return [s for s in strings.harvest()[0] if len(s) < 30 and not any(c in s for c in "%?#/:\\\0<") and s.strip(". ") == s and s and not s.startswith("react")]


FCH = "abcXYZ019._-+ %#?&=;,:@!$'()*[]{}^`~|<>\"\\é日\U0001F600\u00a0\x01\x7f" + "Éßİ\u00ad\u200d\u202e\ufeff\u0301\u0661\uff21\ue000\u0378\U000f0000\u2028\x85\x9b\u212b\ufb01"


OURS = ("sub", "dir", "stale.txt", "stale.js", "was-a-dir", "o ut", "outer", "ln d", "up", "ed-", "n-", "in side")       # names with a meaning in the set-up


def fname(rng):
    """A relative path: pool, word of the code, or random characters; never '.', '..' or empty parts."""
    r = rng.random()
    if r < 0.7:
        return rng.choice(FILES)
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < 0.4:
            f = strings.derived(rng).replace("react", "reakt") + rng.choice([".js", ".css", ".min.js", "", ".JS", ".tar.gz", "~", ".html", ".map", ".tmp", ".bak"])
        else:
            f = "".join(rng.choice(FCH) for _ in range(rng.choice([1, 2, 3, 5, 8, 30])))
        parts.append(f if f.strip(".") and f not in OURS else "q" + f)
    return "/".join(parts)


def files(rng):
    if rng.random() < 0.012:        # very many
        n = min(strings.sizes(rng, 300), 300)
        return ["m%d%s" % (j, rng.choice(["", ".js", ".css", " x"])) for j in range(max(n, 1))]
    n = rng.choice([1, 1, 2, 3, 4, 6]) if rng.random() < 0.98 else rng.choice([12, 33, 70])
    out = []
    for f in dict.fromkeys(fname(rng) for _ in range(n)):
        if not any(f.startswith(g + "/") or g.startswith(f + "/") for g in out):
            out.append(f)
    return out


def gen_dep(rng, i, missing=False):
    d = {"k": "dep", "name": rng.choice(NAMES) if rng.random() < 0.9 else rng.choice((harvest_names() or NAMES) + ["d" + strings.derived(rng)]), "ver": rng.choice(VERS)}
    r = rng.random()
    kind = "dir" if r < 0.5 else "pkg" if r < 0.7 else "url" if r < 0.85 else "none"
    if missing:
        kind = rng.choice(["dir", "dir", "pkg"])
    d["kind"] = kind
    if kind == "url":
        d["href"] = rng.choice(["https://x.org/lib", "https://x.org/lib/", "//cdn.x/y", "/abs/p", "rel/p", "http://h:8080/a b/", "https://x.org/a?b=c", "/", "", "//", ".", "./", "..", "https://x.org",
                               "https://x.org//", "https://x.org/a//", "x.org/l", "file:///x/"])
        fs = rng.sample(["f.js", "d/g.js", "a-b_c.min.js"], rng.choice([1, 2]))
    elif kind == "none":
        fs = []
    else:
        fs = files(rng)
        d["src"] = i
        if rng.random() < 0.3:
            d["sn"] = rng.randrange(len(SRCS))
        d["rel"] = rng.choice([0, 0, 1, 2, 3])     # how the subdir is written
        extra = [f for f in files(rng) if not any(f == g or f.startswith(g + "/") or g.startswith(f + "/") for g in fs)]
        d["files"] = [[f, content(rng)] for f in fs + extra]
        if not missing and rng.random() < 0.3:
            d["all"] = True
        if rng.random() < 0.15:
            d["empty"] = rng.sample(["ed-", "n-/ed", ".ed-", "e d-/x"], rng.choice([1, 2]))     # directories without files
        if rng.random() < 0.1:
            d["links"] = [[rng.choice(["", "", "ln d/", "ln d/e/"]) + "ln-%d.js" % j, rng.choice(d["files"])[0], rng.randrange(4)] for j in range(rng.choice([1, 2]))]
            if not missing:
                fs = fs + [f for f, _, k in d["links"] if k < 3 and rng.random() < 0.3]
    items = []
    for f in fs:
        if rng.random() < 0.85 or kind in ("url",) or missing:
            items.append([rng.choice("sc"), f, rng.choice([{}, {}, {"integrity": "x", "type": "module"}, {"media": "a\"b"}])])
    if items and rng.random() < 0.1:
        items.append([rng.choice("sc"), rng.choice(items)[1], {}])
    if items and kind in ("dir", "pkg") and rng.random() < 0.06:
        items[0][1] = "./" + items[0][1]
    d["items"] = items
    if rng.random() < 0.15:
        d["hd"] = "<title>h</title>"
    return d


def content(rng):
    r = rng.random()
    if r < 0.006:
        return ["big", rng.choice([65536, 65537, 131073, 1048576, 1048577, 2500000]), rng.choice(["x", "\x00", "a\r\n", "\u00e9"])]
    if r < 0.6:
        return "c%d" % rng.randrange(1 << 30)
    return rng.choice(["", "\r\n\r\n", "\x00\x01\xff", "é\n", "x" * 5000, "A", "\r", "\ufeff"])


def full(c):
    return c if isinstance(c, str) else (c[2] * (c[1] // len(c[2]) + 1))[:c[1]]


def twin(d, rng):
    """Another dependency on the same source directory."""
    e = {k: v for k, v in d.items() if k not in ("all", "empty")}
    e["name"] = d["name"] + rng.choice(["x", "-2", "2", ".y"]) if rng.random() < 0.8 else rng.choice(NAMES)
    e["items"] = [[rng.choice("sc"), f, {}] for f, _ in d["files"] if rng.random() < 0.7]
    if rng.random() < 0.3:
        e["all"] = True
    if rng.random() < 0.5 and d["kind"] == "dir":
        e["rel"] = rng.randrange(4)
    return e


def g_save(i, rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    deps = [gen_dep(rng, j) for j in range(n)]
    loc = [d for d in deps if d["kind"] in ("dir", "pkg") and not d.get("links")]
    if loc and rng.random() < 0.3:
        deps.insert(rng.randrange(len(deps) + 1), twin(rng.choice(loc), rng))
    return {"t": "save", "deps": deps, "on": rng.choice(["doc", "doc", "tag", "list", "html", "jsx"]), "libdir": rng.choice(LIBDIRS),
            "iv": rng.random() < 0.6, "file": rng.choice(["index.html", "p.html", "a b.html", "é.htm", "x/index.html", "noext"]),
            "abs": rng.random() < 0.6, "pre": [rng.choice(["none", "none", "stale", "stale", "old", "dir", "empty"]) for _ in deps],
            "defaults": rng.random() < 0.1, "again": rng.choice([0, 0, 1, 2, 3]), "seed": rng.randrange(1 << 30), "pos": rng.randrange(3),
            "old": rng.choice(["long", "same", "part", "empty", "ro"]) if rng.random() < 0.25 else None,
            "below": rng.randrange(4) if rng.random() < 0.12 else None}


def g_missing(i, rng):
    deps = [gen_dep(rng, 0, True)]
    deps[0]["items"] = deps[0]["items"] or [["s", deps[0]["files"][0][0], {}]]
    if rng.random() < 0.3:
        deps.insert(rng.randrange(2), gen_dep(rng, 1))
        if deps[0]["name"] == deps[1]["name"]:
            deps[0]["name"] += "x"
    return {"t": "missing", "deps": deps, "libdir": rng.choice(LIBDIRS), "iv": rng.random() < 0.6, "via": rng.choice(["copy", "copy", "save"]),
            "which": rng.randrange(8), "how": rng.choice(["file", "file", "file", "dir", "link"]), "pre": rng.choice(["none", "stale", "stale", "old"]),
            "file": "index.html", "abs": True, "seed": rng.randrange(1 << 30)}


def g_nocopy(i, rng):
    d = gen_dep(rng, 0)
    while d["kind"] in ("dir", "pkg"):
        d = gen_dep(rng, 0)
    d["all"] = rng.random() < 0.5
    if d["kind"] == "none" and rng.random() < 0.5:
        d["items"] = [["s", "f.js", {}]]
    return {"t": "nocopy", "deps": [d], "libdir": rng.choice(LIBDIRS), "iv": rng.random() < 0.6, "pre": rng.choice(["none", "stale"]),
            "seed": rng.randrange(1 << 30)}


def g_urls(i, rng):
    d = gen_dep(rng, 0)
    return {"t": "urls", "deps": [d], "cfg": [[rng.choice(LIBDIRS + ["../..", "/abs/l", "https://x.org/l"]), rng.random() < 0.5] for _ in range(4)]}


def streams(tier):
    q = tier == "quick"
    return [Stream("save", 7500 if q else 100000, g_save), Stream("missing", 4000 if q else 50000, g_missing),
            Stream("nocopy", 1250 if q else 10000, g_nocopy), Stream("urls", 10000 if q else 100000, g_urls)]


# ------------------------------------------------------------------------- set up
NCASE = 0
PKGS = {}


class Env:
    def __init__(self, case, mkfiles=True):
        global NCASE
        NCASE += 1
        self.root = os.path.realpath(os.path.join(core.SCRATCH, "c%d-%d" % (os.getpid(), NCASE)))
        os.mkdir(self.root)
        self.pk = []
        self.case = case
        self.srcs = {}

    def __enter__(self):
        self.cwd = os.getcwd()
        os.chdir(self.root)
        sys.path.insert(0, self.root)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        sys.path.remove(self.root)
        for p in self.pk:
            for m in [m for m in sys.modules if m == p or m.startswith(p + ".")]:
                del sys.modules[m]
        assert self.root.startswith(os.path.realpath(core.SCRATCH) + os.sep)
        shutil.rmtree(self.root, ignore_errors=True)

    def write(self, path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(full(data).encode("utf-8", "surrogatepass"))

    def dep(self, d):
        ht = spec.H()
        kw = {"script": [{"src": f, **x} for k, f, x in d["items"] if k == "s"],
              "stylesheet": [{"href": f, **x} for k, f, x in d["items"] if k == "c"]}
        if d["kind"] == "url":
            kw["source"] = {"href": d["href"]}
        elif d["kind"] == "dir":
            sub = SRCS[d.get("sn", 0)] + "/s p%d" % d["src"]
            src = os.path.join(self.root, sub)
            os.makedirs(src, exist_ok=True)
            kw["source"] = {"subdir": [src, sub, "./" + sub + "/", src + "/"][d["rel"]]}
            self.srcs[id(d)] = src
        elif d["kind"] == "pkg":
            p = "rvpkg_%d_%d_%d" % (os.getpid(), NCASE, d["src"])
            self.pk.append(p)
            mod = p if d["rel"] % 2 else p + ".inner"
            self.write(os.path.join(self.root, p, "__init__.py"), "")
            self.write(os.path.join(self.root, p, "inner", "__init__.py"), "")
            base = os.path.join(self.root, mod.replace(".", os.sep))
            sub = ["lib", "li b/deep", "lib/", "."][d["rel"]]
            if sub == ".":
                sub = "dd"
            if d.get("sn"):
                sub = SRCS[d["sn"]].lstrip("/") + "/" + sub
            src = os.path.join(base, sub)
            os.makedirs(src, exist_ok=True)
            kw["source"] = {"package": mod, "subdir": sub}
            self.srcs[id(d)] = src
        if d.get("all"):
            kw["all_files"] = True
        if d.get("hd"):
            kw["head"] = d["hd"]
        for f, c in d.get("files", ()):
            self.write(os.path.join(self.srcs[id(d)], f), c)
        for f in d.get("empty", ()):
            os.makedirs(os.path.join(self.srcs[id(d)], f), exist_ok=True)
        for f, t, kind in d.get("links", ()):
            p = os.path.join(self.srcs[id(d)], f)
            t = os.path.join(self.srcs[id(d)], t)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind >= 2:               # to a file or directory elsewhere
                t = os.path.join(self.root, "outer", str(len(self.srcs)), f)
                self.write(t if kind == 2 else os.path.join(t, "in side/x.js"), "outer " + f)
            os.symlink(t if kind == 0 else os.path.relpath(os.path.realpath(t), os.path.realpath(os.path.dirname(p))), p)
        return ht.HTMLDependency(d["name"], d["ver"], **kw)

    def dest(self, libdir, file):
        base = os.path.dirname(os.path.join(self.root, file))
        return os.path.join(base, libdir) if libdir else base


def dirname_of(d, iv):
    return d["name"] + ("-" + str(Version(d["ver"])) if iv else "")


def make_pre(env, target, how, d, rng):
    if how == "none":
        return
    os.makedirs(target, exist_ok=True)
    if how == "empty":
        return
    env.write(os.path.join(target, "stale.txt"), "STALE")
    if how in ("stale", "old"):
        env.write(os.path.join(target, "sub/dir/stale.js"), "STALE2")
        fs = [f for f, _ in d.get("files", ())]
        for f in fs[:3] if how == "old" else ():
            p = os.path.join(target, f)
            env.write(p, "OLD CONTENT")
            st = os.stat(os.path.join(env.srcs[id(d)], f))
            if rng.random() < 0.5:
                os.utime(p, ns=(st.st_atime_ns + 10 ** 12, st.st_mtime_ns + 10 ** 12))     # newer than the source
            else:
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    if how == "dir":
        fs = [f for f, _ in d.get("files", ())]
        if fs:
            env.write(os.path.join(target, fs[0], "was-a-dir"), "STALE")


def resolved(deps):
    best, order = {}, []
    for d in deps:
        if d["name"] not in best:
            order.append(d["name"])
            best[d["name"]] = d
        elif Version(d["ver"]) > Version(best[d["name"]]["ver"]):
            best[d["name"]] = d
    return [best[n] for n in order]


# ---------------------------------------------------------------------------- URLs
OKURL = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@/%")


def join(a, b):
    return b if not a else a + b if a.endswith("/") else a + "/" + b


def check_url(url, d, path, prefix, iv, M):
    if d["kind"] == "url":
        base, rest = d["href"], None
    else:
        base = join(prefix, dirname_of(d, iv)) if prefix else dirname_of(d, iv)
    start = join(base, "")
    if not url.startswith(start):
        raise Violation("url", "URL %r of %r (lib_prefix=%r, include_version=%r) does not start with %r" % (url, path, prefix, iv, start))
    rest = url[len(start):]
    if d["kind"] == "url":
        if rest not in (path, urllib.parse.quote(path)):
            raise Violation("url", "URL %r: expected %s" % (url, start + path))
    else:
        bad = [c for c in rest if c not in OKURL]
        if bad:
            raise Violation("encoding", "URL %r: %r is not percent-encoded" % (url, bad[0]))
        if urllib.parse.unquote(rest) != path:
            raise Violation("encoding", "URL %r decodes to %r, the file is %r" % (url, urllib.parse.unquote(rest), path))
    M.ev("as_dict_urls")


def check(case, M):
    {"save": check_save, "missing": check_missing, "nocopy": check_nocopy, "urls": check_urls}[case["t"]](case, M)


def check_urls(case, M):
    d = case["deps"][0]
    with Env(case) as env:
        x = env.dep(d)
        for prefix, iv in case["cfg"]:
            kw = spec.render_kw(prefix, iv, d["name"] < "b" or len(d["items"]) % 2)
            o = x.as_dict(**kw)
            s = [f for k, f, _ in d["items"] if k == "s"]
            c = [f for k, f, _ in d["items"] if k == "c"]
            if len(o["script"]) != len(s) or len(o["stylesheet"]) != len(c):
                raise Violation("items", "%d scripts and %d stylesheets became %r" % (len(s), len(c), o))
            if d["kind"] == "none":
                continue
            for it, f in zip(o["script"], s):
                check_url(it["src"], d, f, prefix, iv, M)
            for it, f in zip(o["stylesheet"], c):
                check_url(it["href"], d, f, prefix, iv, M)
            html = x.as_html_tags(**kw).get_html_string()
            follow(html, [d], prefix, iv, M, None)
    M.distinct(d, case["cfg"])


def follow(html, deps, prefix, iv, M, base):
    """The script/link URLs in the markup, in order, against the dependencies."""
    urls = {"s": [], "c": []}
    html = re.sub('(?s)<script type="application/html-dependencies">.*?</script>', "", html)     # raw text
    try:
        toks = tok.tokens(html[len("<!DOCTYPE html>"):] if html.startswith("<!DOCTYPE html>") else html)
    except tok.ParseError as e:
        raise Violation("markup", "%s in %r" % (e, html[:600]))
    for t in toks:
        if t[0] == "start" and t[1] in ("script", "link"):
            for n, v in t[2]:
                if t[1] == "script" and n == "src":
                    urls["s"].append(tok.decode(v))
                if t[1] == "link" and n == "href":
                    urls["c"].append(tok.decode(v))
    out = []
    for kind in "sc":
        want = [(d, f) for d in deps for k, f, _ in d["items"] if k == kind]
        if len(want) != len(urls[kind]):
            raise Violation("items", "the markup has %d %s URLs, expected %d: %r" % (len(urls[kind]), kind, len(want), urls[kind]))
        for u, (d, f) in zip(urls[kind], want):
            if d["kind"] == "none":
                continue
            check_url(u, d, f, prefix, iv, M)
            out.append((u, d, f))
    return out


# ---------------------------------------------------------------------------- saving
def content_of(ht, case, objs):
    Tag, TL = ht.Tag, ht.TagList
    pos = case.get("pos", 0)
    if case.get("on") == "html":
        return Tag("html", Tag("head", *objs[:pos]), Tag("body", "é & x", Tag("div", *objs[pos:])), lang="x")
    if case.get("on") == "jsx":
        return Tag("div", "t", *objs, importlib.import_module("htmltools._jsx").jsx_tag_create("Foo")("x"))
    if pos == 0:
        return Tag("div", Tag("p", "é <x>"), *objs)
    if pos == 1:
        return TL("text", Tag("span", [objs[:1]]), objs[1:])
    return Tag("section", *[Tag("i", o) for o in objs], _add_ws=False)


REACT = [{"kind": "lib", "name": "react", "items": []}, {"kind": "lib", "name": "react-dom", "items": []}]


def save(ht, case, content, file):
    kw = {} if case["defaults"] else {"libdir": case["libdir"], "include_version": case["iv"]}
    on = case["on"]
    if on in ("doc", "html", "jsx"):
        x = ht.HTMLDocument(content)
    elif on == "tag":
        x = content if isinstance(content, ht.Tag) else ht.Tag("div", content)
    else:
        x = ht.TagList(content)
    return x, x.save_html(file, **kw)


def check_save(case, M):
    ht = spec.H()
    libdir, iv = ("lib", True) if case["defaults"] else (case["libdir"], case["iv"])
    rng = random.Random(case["seed"])
    with Env(case) as env:
        deps = case["deps"]
        seen = set()
        for j, d in enumerate(deps):        # targets must not nest in one another
            while any(dirname_of(d, iv) != n and (dirname_of(d, iv).startswith(n + "/") or n.startswith(dirname_of(d, iv) + "/")) for n in seen):
                d["name"] += "z"
            seen.add(dirname_of(d, iv))
        objs = [env.dep(d) for d in deps]
        base = env.root
        if case.get("below") is not None and deps:      # the site is written below a source directory
            d = deps[case["below"] % len(deps)]
            if d["kind"] == "dir" and not any(e.get("all") and env.srcs[id(e)] == env.srcs[id(d)] for e in deps if id(e) in env.srcs):
                base = env.srcs[id(d)]
                M.ev("saved_below_source")
        file = os.path.join(base, "o ut", case["file"])
        os.makedirs(os.path.dirname(file))
        farg = file if case["abs"] else os.path.relpath(file, os.getcwd())
        dest = env.dest(libdir, file)
        res = resolved(deps)
        local = [d for d in res if d["kind"] in ("dir", "pkg")]
        targets = {id(d): os.path.join(dest, dirname_of(d, iv)) for d in local}
        if any(os.path.realpath(t) == os.path.realpath(file) for t in targets.values()):
            return
        for d, how in zip(deps, case["pre"]):
            if id(d) in targets:
                make_pre(env, targets[id(d)], how, d, rng)
                if how in ("stale", "old", "dir"):
                    M.ev("stale_targets_seen")
        # a neighbour that is nobody's target
        env.write(os.path.join(dest, "zz-other-9.9", "keep.js"), "KEEP")
        content = content_of(ht, case, objs)
        if case.get("old"):
            # the file is there already: longer, of the same length, the beginning of it, read-only
            kw = {} if case["defaults"] else {"lib_prefix": libdir, "include_version": iv}
            h = (content if case["on"] == "tag" and isinstance(content, ht.Tag) else ht.TagList(content))
            h = ht.HTMLDocument(h).render(**kw)["html"]
            env.write(file, {"long": "<script src=\"old.js\"></script>\n" * 400 + h, "same": h.replace("e", "a"), "part": h[:len(h) // 2], "empty": "", "ro": "old"}[case["old"]])
            if case["old"] == "same" and rng.random() < 0.5:
                os.utime(file, (4 * 10 ** 9, 4 * 10 ** 9))
            M.ev("saved_over_old_file")
        for rnd in range(1 + (case["again"] > 0)):
            if rnd:
                change_sources(env, local, case["again"], rng)
            with fsmon.watch(env.root) as ev:
                x, ret = save(ht, case, content, farg)
                M.ev("fs_events_observed", len(ev))
                blocked = list(fsmon.BLOCKED)
                evs = list(ev)
            if blocked:
                raise Violation("escape", "save_html() tried %r outside the destination" % (blocked[:3],))
            M.ev("saves_observed")
            if ret != farg or not isinstance(ret, str):
                raise Violation("returned", "save_html(%r) returned %r" % (farg, ret))
            okdirs = [os.path.realpath(t) for t in targets.values()]
            if case["on"] == "jsx":
                for p in os.listdir(dest):
                    if p.startswith("react"):
                        okdirs.append(os.path.realpath(os.path.join(dest, p)))
            for e, p in evs:
                if e in ("os.utime", "os.chmod", "os.mkdir") or p == os.path.realpath(file):
                    continue
                if not any(p == t or p.startswith(t + os.sep) for t in okdirs):
                    raise Violation("elsewhere", "save_html() did %s on %s, which is neither the file nor a dependency's directory" % (e, p))
            check_written(ht, case, env, file, x, res, local, targets, libdir, iv, M)
            with open(os.path.join(dest, "zz-other-9.9", "keep.js")) as f:
                if f.read() != "KEEP":
                    raise Violation("elsewhere", "an unrelated file changed")
    if local:
        M.distinct(case)
        M.sample({"libdir": libdir, "deps": [[d["name"], d["kind"], [i[1] for i in d["items"]]] for d in deps], "fs_events": len(evs)})


def change_sources(env, local, how, rng):
    """Between two saves the sources change: the copies have to follow."""
    done = set()
    for d in local:
        src = env.srcs[id(d)]
        if os.path.realpath(src) in done:       # shared with another one
            continue
        done.add(os.path.realpath(src))
        listed = {os.path.normpath(f) for e in local if os.path.realpath(env.srcs[id(e)]) == os.path.realpath(src) for _, f, _ in e["items"]}
        for f, c in d["files"]:
            c = full(c)
            p = os.path.join(src, f)
            st = os.stat(p)
            if how == 1:
                env.write(p, c[::-1] + "Z")
            elif how == 2:       # same size, same time stamps
                env.write(p, "".join(chr((ord(ch) + 1) % 128) if ord(ch) < 128 else ch for ch in c))
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            elif f not in listed and f not in [t for _, t, _ in d.get("links", ())]:
                os.unlink(p)


def check_written(ht, case, env, file, x, res, local, targets, libdir, iv, M):
    with open(file, encoding="utf-8", newline="") as f:
        html = f.read()
    doc = x if isinstance(x, ht.HTMLDocument) else ht.HTMLDocument(x)
    r = doc.render(lib_prefix=libdir, include_version=iv)
    if html != r["html"]:
        raise Violation("written", "the file is not the rendering: %r\n%r" % (html[:400], r["html"][:400]))
    if case["on"] == "jsx":
        for d in r["dependencies"]:
            if d.name in ("react", "react-dom"):
                for s in d.as_dict(lib_prefix=libdir, include_version=iv)["script"]:
                    p = os.path.join(os.path.dirname(file), urllib.parse.unquote(s["src"]))
                    same_bytes(p, os.path.join(core.REPO, "htmltools", "lib", d.name, [i["src"] for i in d.script][0]), s["src"], M)
    out = []
    urls = follow(strip_jsx(html) if case["on"] == "jsx" else html, res, libdir, iv, M, None)
    for u, d, f in urls:
        if d["kind"] not in ("dir", "pkg"):
            continue
        p = os.path.join(os.path.dirname(file), urllib.parse.unquote(u))
        same_bytes(p, os.path.join(env.srcs[id(d)], f), u, M)
        M.ev("urls_followed")
    for d in local:
        t, src = targets[id(d)], env.srcs[id(d)]
        got = fsmon.tree(t)
        if got is None:
            raise Violation("target", "%s was not created" % t)
        have, want = contents(got, t), contents(fsmon.tree(src), src)
        for k, v in have.items():
            if want.get(k) != v:
                raise Violation("stale", "%s in the target of %s is %s" % (k, d["name"], "not in the source directory" if k not in want else
                                                                            "not the source's content: %r vs %r" % (v[:80], want[k][:80])))
        if d.get("all"):
            for k in want:
                if k not in have:
                    raise Violation("all_files", "%s was not copied" % k)
                M.ev("files_compared")
            for k, v in fsmon.tree(src).items():
                if v[0] == "dir" and got.get(k, ("",))[0] != "dir":
                    raise Violation("all_files", "the directory %s was not copied" % k)
        for _, f, _ in d["items"]:
            if os.path.normpath(f) not in have:
                raise Violation("missing", "%s was not copied" % f)
            M.ev("files_compared")


def contents(tr, root):
    out = {}
    for k, v in tr.items():
        if v[0] == "file":
            out[k] = v[1]
        elif v[0] == "link" and os.path.isfile(os.path.join(root, k)):
            with open(os.path.join(root, k), "rb") as f:
                out[k] = f.read()
        elif v[0] == "link" and os.path.isdir(os.path.join(root, k)):
            r = os.path.realpath(os.path.join(root, k))
            out.update((os.path.join(k, a), b) for a, b in contents(fsmon.tree(r), r).items())
    return out


def strip_jsx(html):
    """Drops the react dependencies' tags and the component's script."""
    html = re.sub(r'<script src="[^"]*react[^"]*"[^>]*></script>', "", html)
    return re.sub(r'(?s)<script type="text/javascript">.*?</script>', "", html)


def same_bytes(p, src, url, M):
    if not os.path.isfile(p):
        raise Violation("dangling", "URL %r names no file (%s)" % (url, p))
    with open(p, "rb") as a, open(src, "rb") as b:
        if a.read() != b.read():
            raise Violation("content", "the file at URL %r is not identical to its source" % url)
    M.ev("files_compared")


def check_missing(case, M):
    ht = spec.H()
    libdir, iv = case["libdir"], case["iv"]
    rng = random.Random(case["seed"])
    with Env(case) as env:
        deps = case["deps"]
        objs = [env.dep(d) for d in deps]
        k = next(j for j, d in enumerate(deps) if d.get("src") == 0)
        d, x = deps[k], objs[k]
        src = env.srcs[id(d)]
        if not d["items"] or d.get("all"):
            return
        file = os.path.join(env.root, "out", case["file"])
        os.makedirs(os.path.dirname(file))
        dest = env.dest(libdir, file)
        target = os.path.join(dest, dirname_of(d, iv))
        make_pre(env, target, case["pre"], d, rng)
        gone = d["items"][case["which"] % len(d["items"])][1]
        p = os.path.join(src, gone)
        if case["how"] == "dir":
            shutil.rmtree(src)
        else:
            os.unlink(p)
            if case["how"] == "link":
                os.symlink("nowhere", p)
        before = fsmon.tree(target)
        with fsmon.watch(env.root) as ev:
            try:
                if case["via"] == "copy":
                    x.copy_to(dest, **({} if iv and len(objs) % 2 else {"include_version": iv}))
                else:
                    ht.HTMLDocument(ht.Tag("div", *objs)).save_html(file, libdir=libdir, include_version=iv)
                raised = False
            except Exception:
                raised = True
            evs, blocked = list(ev), list(fsmon.BLOCKED)
        M.ev("fs_events_observed", len(evs))
        if blocked:
            raise Violation("escape", "tried %r outside the destination" % (blocked[:3],))
        if not raised:
            raise Violation("not_raised", "%s with missing %r (%s) did not raise" % (case["via"], gone, case["how"]))
        M.ev("missing_file_raises")
        after = fsmon.tree(target)
        if before != after:
            raise Violation("touched", "the target directory changed although %r is missing: %s -> %s" % (
                gone, sorted(before) if before is not None else None, sorted(after) if after is not None else None))
        rt = os.path.realpath(target)
        for e, p in evs:
            if p == rt or p.startswith(rt + os.sep):
                raise Violation("touched", "%s on %s before raising" % (e, p))
    M.distinct(case)


def check_nocopy(case, M):
    d = case["deps"][0]
    with Env(case) as env:
        x = env.dep(d)
        dest = os.path.join(env.root, "out")
        os.mkdir(dest)
        make_pre(env, os.path.join(dest, dirname_of(d, case["iv"])), case["pre"], d, random.Random(1))
        before = fsmon.tree(env.root)
        with fsmon.watch(env.root) as ev:
            x.copy_to(os.path.join(dest, case["libdir"] or ""), include_version=case["iv"])
            evs = list(ev)
        if fsmon.tree(env.root) != before or evs:
            raise Violation("copied", "copying a dependency with source %r changed the file system: %r" % (x.source, evs[:5]))
        M.ev("nothing_copied")
    M.distinct(case)
