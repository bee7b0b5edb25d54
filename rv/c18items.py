"""The constructions of C18: generation (parent) and execution (child interpreters)."""
from __future__ import annotations

import contextlib
import io
import json
import os
import random
import shutil
import tempfile
import traceback

from . import jsxspec, spec, strings
from .core import Skip

PKGDEPS = [{"k": "dep", "name": "react", "ver": "17.0", "src": {"package": "htmltools", "subdir": "lib/react"}, "script": [{"src": "react.production.min.js"}]},
           {"k": "dep", "name": "rd", "ver": "1.2", "src": {"package": "htmltools", "subdir": "lib/react-dom"}, "all": True}]


def setup():
    from .props import c11

    c11.worker_init(0)


# ------------------------------------------------------------------ generation
def gen_battery(rng, n):
    from .props import c11, c13

    pool = []
    items = []
    while len(items) < n:
        k = rng.choice(["tree"] * 5 + ["doc"] * 4 + ["names"] * 3 + ["text"] * 2 + ["jsx", "save", "deps", "css"])
        if k == "tree":
            dup = c11.Dup()
            g = spec.Gen(rng, spec.Opts(depgen=dup, w=dict(tfy=1, dep=2), max_text=300))
            g.pool = pool
            if g.p in ("wide", "deep") and rng.random() < 0.5:
                continue
            it = {"t": "tree", "node": g.root()}
        elif k == "doc":
            it = {"t": "doc", "case": c11.g_doc(0, rng)}
        elif k == "names":
            it = gen_names(rng, pool)
        elif k == "text":
            it = {"t": "text", "case": c13.g_round(0, rng)}
        elif k == "jsx":
            it = {"t": "jsx", "comp": jsxspec.Gen(rng).comp()}
        elif k == "save":
            it = {"t": "save", "case": c11.g_doc(0, rng), "deps": rng.sample(PKGDEPS, rng.choice([0, 1, 2])), "libdir": rng.choice(["lib", "a/b", None]),
                  "iv": rng.random() < 0.5}
            it["case"]["items"] = [x for x in strip_local(it["case"]["items"])]
        elif k == "deps":
            it = {"t": "deps", "deps": [spec.gen_dep(rng) for _ in range(rng.choice([2, 5, 12, 40]))]}
            for d in it["deps"]:
                if rng.random() < 0.4:      # a folder that is there
                    d["src"] = {"subdir": rng.choice(["/usr", "/usr/share", "/tmp", "@PKG", "@PKG/lib/react", "@PKG/lib/react/"])}
        else:
            it = {"t": "css", "kw": [[nm, rng.choice(["1", 1, 1.0, True, "a", None])] for nm in rng.sample(["a", "b", "font_size", "fontSize", "zIndex", "c"], 3)],
                  "cls": [rng.choice(["a", "b", "a b", "c"]) for _ in range(4)]}
        try:
            json.dumps(it).encode()
            json.dumps(it, ensure_ascii=False).encode()
        except UnicodeEncodeError:
            continue
        items.append(it)
        if rng.random() < 0.35:
            # a sibling which a careless cache would confuse with it
            s = sibling(rng, it)
            if s is not None:
                items.append(s)
    return items[:n]


def strip_local(nodes):
    """Documents to be saved: dependencies without local files other than the package's own."""
    out = []
    for n in nodes:
        n = dict(n)
        if n["k"] == "dep" and "subdir" in (n.get("src") or {}):
            n["src"] = {"href": "https://x.org/u"}
        if "c" in n:
            n["c"] = strip_local(n["c"])
        h = n.get("head")
        if h and "nodes" in h and "hc" not in n:
            n["head"] = {"nodes": strip_local(h["nodes"])}
        out.append(n)
    return out


def sibling(rng, it):
    it = json.loads(json.dumps(it))
    spots = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") in ("text", "html"):
                spots.append((x, "swap"))
            if x.get("k") == "num" or x.get("t") == "num":
                spots.append((x, "num"))
            if x.get("k") == "tag" and "ws" in x:
                spots.append((x, "ws"))
                spots.append((x, "name"))
            if x.get("k") == "dep":
                spots.append((x, "ver"))
            if x.get("t") == "str" and "s" in x:
                spots.append((x, "attr"))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(it)
    spots = [(x, w) for x, w in spots if "share" not in x]
    if not spots:
        return None
    for x, w in rng.sample(spots, min(len(spots), rng.choice([1, 1, 2, 4]))):
        if w == "swap":
            x["k"] = "html" if x["k"] == "text" else "text"
            x.pop("sub", None)
        elif w == "num":
            x["s"] = {"1": "1.0", "1.0": "True", "0": "False", "True": "1", "False": "0", "0.0": "-0.0", "-0.0": "0"}.get(x["s"], rng.choice(["1", "1.0", "0", "-0.0"]))
        elif w == "ws":
            x["ws"] = not x["ws"]
        elif w == "name":
            if x["n"] not in ("html", "head", "body", "script", "style"):
                x["n"] = rng.choice(["div", "span", "p", "x-y", "pre"])
        elif w == "ver":
            x["ver"] = rng.choice(spec.VERSIONS)
        elif w == "attr":
            x["s"] = rng.choice([x["s"].upper(), x["s"] + " ", x["s"].strip(), x["s"][:-1]])
    return it


NEAR = [lambda r, s: s + " ", lambda r, s: " " + s, lambda r, s: s + "\n", lambda r, s: s.upper(), lambda r, s: s.swapcase(), lambda r, s: s[:-1], lambda r, s: s + s,
        lambda r, s: s + "\x00", lambda r, s: s.replace("e", "e\u0301"), lambda r, s: s + "\u00e9", lambda r, s: s + "e\u0301", lambda r, s: s.replace(" ", "  "), lambda r, s: s[::-1],
        lambda r, s: s + "0", lambda r, s: s.replace("'", "\""), lambda r, s: "<!-- -->" + s, lambda r, s: s + "\u200b", lambda r, s: s.replace("\n", " "),
        lambda r, s: s.replace("/", ""), lambda r, s: s + "/", lambda r, s: s[1:], lambda r, s: s.replace("a", "b", 1), lambda r, s: s.replace("1", "2"), lambda r, s: s + "-",
        lambda r, s: s.lower()]


def gen_names(rng, pool):
    """Payloads for head_content(): equal, nearly equal and unrelated ones; where they go in a document."""
    base = rng.choice(["v", "", "T", "a e 1/2", "x y", "a" * strings.sizes(rng, 9000), "ab" * strings.sizes(rng, 2500), strings.text(rng, pool, 400)])
    vs = [base]
    for _ in range(rng.choice([1, 2, 3, 5])):
        v = rng.choice(vs)
        if rng.random() < 0.8:
            v = rng.choice(NEAR)(rng, v)
        else:
            # the difference far inside
            k = rng.randrange(len(v) + 1)
            v = v[:k] + rng.choice("xyz\u00e9\"&<") + v[k + rng.randrange(2):]
        vs.append(v)
    form = rng.choice(["meta", "meta", "title", "html", "text", "two"])
    order = [rng.randrange(len(vs)) for _ in range(rng.choice([2, 3, 4, 8]))]
    return {"t": "names", "vs": vs, "form": form, "order": order, "ret": rng.random() < 0.5}


# ------------------------------------------------------------------ execution
def payload(v, form, ht, alt=0):
    if form == "meta":
        return [ht.Tag("meta", name="m", content=v)]
    if form == "title":
        return [ht.tags.title(v)] if alt else [ht.Tag("title", v)]
    if form == "html":
        return [ht.HTML("<!--" + v + "-->")]
    if form == "text":
        return [v]
    return [ht.Tag("meta", name="m", content=v), ht.Tag("link", href=v)]


def run_item(it, ht, names):
    """-> [output texts]; head_content names seen go to `names` as [content, name]."""
    from .props import c11, c13

    out = []
    t = it["t"]

    def dep_list(ds):
        out.append(json.dumps([[d.name, str(d.version), d.script, d.stylesheet, d.meta, d.source, str(d.head.get_html_string() if d.head is not None else None)] for d in ds], default=str))
        for d in ds:
            if d.name.startswith("headcontent_") and d.head is not None and len(d.name) > 40:
                pass

    if t == "tree":
        ctx = spec.Ctx()
        x = spec.build(it["node"], ctx)
        x = x.tagify()
        out.append(str(x))
        r = x.render()
        out.append(r["html"])
        dep_list(r["dependencies"])
        out.append(x.get_html_string(3, "\r\n"))
        out.append(repr(x))
        for d in x.get_dependencies():
            out.append(str(d.as_html_tags()))
    elif t == "doc":
        c = it["case"]
        for n in c11.walk(c["items"]):
            if n["k"] == "dep" and "hc" in n:
                d = ht.head_content(*[spec.build(x, spec.Ctx()) for x in n["hc"]])
                names.append([ht.TagList(*[spec.build(x, spec.Ctx()) for x in n["hc"]]).get_html_string(), d.name])
        kwargs = {n: spec.val(v) for n, v in c["kw"]}
        doc = c11.make(ht, c["items"], c, kwargs, spec.Ctx())
        for prefix, iv in c["cfg"]:
            r = doc.render(lib_prefix=prefix, include_version=iv)
            out.append(r["html"])
            dep_list(r["dependencies"])
    elif t == "text":
        c = it["case"]
        deps = [spec.build_dep(d) for d in c["deps"]]
        given = [spec.build_dep(d) for d in c["given"]]
        ser = [d.serialize_to_script_json(i).get_html_string() if i is not None else d.serialize_to_script_json().get_html_string() for d, i in zip(deps, c["indent"])]
        out += ser
        full = c["nodes"][0] + "".join(s + x for s, x in zip(ser, c["nodes"][1:]))
        doc = ht.HTMLTextDocument(full, deps=given, deps_replace_pattern=c["pat"])
        r = doc.render()
        out.append(r["html"])
        dep_list(r["dependencies"])
        # other ways to give none, and long texts
        for n in (0, 2500, 70000)[:1 + len(full) % 3]:
            r = ht.HTMLTextDocument(full + "~" * n, deps_replace_pattern=c["pat"]).render()
            out.append(r["html"])
            dep_list(r["dependencies"])
            doc = ht.HTMLTextDocument("~" * n + full)
            doc = ht.HTMLTextDocument("~" * n + c["pat"], deps=[], deps_replace_pattern=c["pat"])
            dep_list(doc.render()["dependencies"])
            r = ht.HTMLTextDocument("~" * n + c["pat"], deps_replace_pattern=c["pat"]).render()
            out.append(r["html"])
            dep_list(r["dependencies"])
    elif t == "jsx":
        x = jsxspec.build(it["comp"], spec.Ctx())
        out.append(str(x))
        dep_list(x.tagify().get_dependencies())
    elif t == "deps":
        pkg = os.path.dirname(ht.__file__)
        ds = [spec.build_dep(dict(d, src={"subdir": d["src"]["subdir"].replace("@PKG", pkg)}) if "@PKG" in (d.get("src") or {}).get("subdir", "") else d) for d in it["deps"]]
        for d in ds:
            for prefix in ("lib", None, "", "p/q"):
                for iv in (True, False):
                    out.append(str(d.as_html_tags(lib_prefix=prefix, include_version=iv)))
                    out.append(json.dumps([d.as_dict(lib_prefix=prefix, include_version=iv), d.source_path_map(lib_prefix=prefix, include_version=iv)["href"]], default=str))
            out.append(str(d.serialize_to_script_json()))
        r = ht.TagList(*ds).render()
        dep_list(r["dependencies"])
        r = ht.HTMLDocument(ht.div(*ds)).render()
        out.append(r["html"])
        out.append(repr(ds[0]))
    elif t == "css":
        out.append(str(ht.css(**{k: v for k, v in it["kw"]})))
        x = ht.div(class_="z")
        for k in it["cls"]:
            x.add_class(k)
        x.remove_class("a")
        out.append(str(x))
    elif t == "names":
        kids, seen = [], {}
        contents = []
        for j, v in enumerate(it["vs"]):
            d = ht.head_content(*payload(v, it["form"], ht))
            content = ht.TagList(*payload(v, it["form"], ht, 1)).get_html_string()
            contents.append(str(content))
            names.append([str(content), d.name])
            out.append(d.name)
        for j in it["order"]:
            kids.append(ht.Tag("div", ht.head_content(*payload(it["vs"][j], it["form"], ht))) if j % 2 else ht.head_content(*payload(it["vs"][j], it["form"], ht)))
        r = ht.HTMLDocument(*kids, "body").render()
        out.append(r["html"])
        dep_list(r["dependencies"])
        want = list(dict.fromkeys(contents[j] for j in it["order"]))
        got = [str(d.head.get_html_string()) for d in r["dependencies"]]
        if got != want:
            return ["VIOL head contents of the document: %r, expected %r" % ([x[:200] for x in got], [x[:200] for x in want])]
        if it["form"] in ("meta", "title"):
            for w in want:
                if it["form"] == "meta" and r["html"].count(w) != 1:
                    return ["VIOL %r appears %d times in %r" % (w[:200], r["html"].count(w), r["html"][:1500])]
    elif t == "save":
        c = it["case"]
        kwargs = {n: spec.val(v) for n, v in c["kw"]}
        doc = c11.make(ht, c["items"], c, kwargs, spec.Ctx())
        if it["deps"]:
            doc.append(*[spec.build_dep(d) for d in it["deps"]])
        d = tempfile.mkdtemp()
        try:
            f = os.path.join(d, "o.html")
            doc.save_html(f, libdir=it["libdir"], include_version=it["iv"])
            for root, dirs, files in os.walk(d):
                dirs.sort()
                for x in sorted(files):
                    p = os.path.join(root, x)
                    with open(p, "rb") as fh:
                        b = fh.read()
                    out.append(os.path.relpath(p, d) + ":" + (b.decode("utf-8") if x.endswith(".html") else str(len(b)) + ":" + str(sum(b[::97]))))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out


def guarded(it, ht, names):
    try:
        return run_item(it, ht, names)
    except Skip:
        return ["skip"]
    except Exception as e:
        # deterministic failures are outputs too (e.g. a case that is not valid)
        return ["EXC %s: %s" % (type(e).__name__, str(e)[:300] if "0x" not in str(e) else ""), "".join(traceback.format_exception(e)[-3:])[:0]]


def noise(rng, ht):
    """Unrelated things that happened earlier in the process."""
    k = rng.randrange(8)
    try:
        if k == 0:
            spec.build(spec.gen_tree(rng, profile="small"), spec.Ctx()).tagify().render()
        elif k == 1:
            ht.TagList("a", object())
        elif k == 2:
            with contextlib.suppress(ValueError):
                with spec.hook(lambda v: None):
                    with ht.div():
                        raise ValueError
        elif k == 3:
            old = ht.html_dependency_render_mode
            ht.html_dependency_render_mode = "json"
            try:
                str(ht.TagList(spec.build_dep(spec.gen_dep(rng)), "x"))
            finally:
                ht.html_dependency_render_mode = old
        elif k == 4:
            ht.HTMLDocument(ht.div(*[spec.build_dep(spec.gen_dep(rng)) for _ in range(5)])).render()
        elif k == 5:
            for _ in range(5):
                ht.head_content(strings.text(rng, None, 100))
        elif k == 6:
            ht.html_escape(strings.text(rng, None, 100), attr=rng.random() < 0.5)
            ht.css(a=1, b=True)
        else:
            str(jsxspec.build(jsxspec.Gen(rng, 5).comp(), spec.Ctx()))
    except Exception:
        pass


def run(job):
    import htmltools as ht

    items = job["items"]
    n = len(items)
    order = list(range(n))
    rng = random.Random(job["oseed"])
    if job["order"] == "rev":
        order.reverse()
    elif job["order"] == "shuffle":
        rng.shuffle(order)
    outs, names, again = [None] * n, [], []
    keep = []
    for i in order:
        if job["hist"] == "noise":
            for _ in range(rng.choice([0, 1, 1, 2])):
                noise(rng, ht)
        if job["hist"] == "fork":
            outs[i], nm = forked(items[i], ht)
            names += nm
            continue
        o = guarded(items[i], ht, names)
        outs[i] = o
        if job["hist"] == "keep":
            keep.append((spec.build(items[i]["node"], spec.Ctx()) if items[i]["t"] == "tree" else None, o))
        if job["hist"] == "twice":
            j = rng.choice(order[:order.index(i) + 1]) if rng.random() < 0.5 else i
            if outs[j] is not None:
                o2 = guarded(items[j], ht, names)
                if o2 != outs[j]:
                    again.append([j, o2])
    u = {}
    for c, nm in names:
        u.setdefault((c, nm), 1)
    return {"outs": outs, "names": [list(k) for k in u], "again": again, "hashseed": os.environ.get("PYTHONHASHSEED"), "probe": hash("probe")}


def forked(it, ht):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            nm = []
            o = guarded(it, ht, nm)
            with os.fdopen(w, "w", encoding="utf-8") as f:
                json.dump([o, nm], f)
        except BaseException:
            code = 9
        os._exit(code)
    os.close(w)
    with os.fdopen(r, encoding="utf-8") as f:
        s = f.read()
    os.waitpid(pid, 0)
    if not s:
        return ["FORK FAILED"], []
    return json.loads(s)
