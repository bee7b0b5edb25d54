"""C11: one <html> with one <head>; every resolved dependency hoisted exactly once."""
import copy
import json
import random

from packaging.version import Version

from .. import attrmodel, model, shapes, spec, strings
from ..core import Stream, Violation
from ..model import E, Leaf
from . import c07

ID = "C11"
CONCURRENT = 400
RULE = ("documents (fragments, lists, a sole <body>, a sole <html> with/without <head> in any position, expanding objects, "
        "head_content, dependencies everywhere, content appended later, repeated renders under different settings); the markup "
        "is matched against an expected document derived from the case alone, and compared with the rendering of that expected "
        "tree; the returned list with the resolved list; non-trivial: at least one dependency or user head, distinct by case")
ASSUMPTIONS = ["at most one <head> directly under a user <html>", "a sole <html>/<body> has no sibling nodes",
               "file names of URL and source-less dependencies need no percent-encoding"]
MIN_EVENTS = {"documents_matched": 6000, "dependency_lists_compared": 6000, "hoisted_dependencies": 8000, "user_heads": 1000}

NAMES = ["a", "b", "lib-x", "A", "jquery", "d_3", "foo.bar"]


def gen_dep(rng, depth=0):
    r = rng.random()
    if r < 0.25:
        return head_content(rng)
    d = spec.gen_dep(rng, NAMES if rng.random() < 0.7 else ["n%d" % rng.randrange(40)], depth=1)
    local = d.get("src") and "subdir" in d["src"]
    for k in ("script", "css"):
        for it in d.get(k, ()):
            f = "src" if k == "script" else "href"
            if not local:
                it[f] = rng.choice(["f.x", "d/g.x", "a-b_c.1.x"])
            elif rng.random() < 0.2:
                it[f] = rng.choice(["x y/z.js", "100%.js", "a#b.js", "q?r.js", "a+b.js", "~u.js", "'q'.js", "\".js", "日本.js", "(1).js", "a=b;c,d.js"])
    if d.get("src") and "href" in d["src"] and rng.random() < 0.3:
        d["src"]["href"] = rng.choice(["https://x.org/a?b=1&c=2", "http://h:80/p/", "", "."])
    if rng.random() < 0.15 and depth < 2:
        g = spec.Gen(rng, spec.Opts(profile="tiny", w=dict(meta=0.3, dep=0.7, tfy=0.5, repr=0.5), share=0, max_text=60,
                                    depgen=lambda r: gen_dep(r, depth + 1)))
        d["head"] = {"nodes": g.children(2)}
    return d


def head_content(rng):
    r = rng.random()
    if r < 0.5:
        nodes = rng.choice([[shapes.tag("title", True, [shapes.T("T")])], [shapes.T("raw <x>")], [{"k": "html", "s": "<!-- c -->"}],
                            [shapes.tag("script", True, [shapes.T("x()")]), shapes.T("t")], [],
                            [shapes.tag("style", True, [shapes.T("a{}")])], [shapes.tag("b", False, [shapes.T("T")])]])
    else:
        g = spec.Gen(rng, spec.Opts(profile="tiny", w=dict(meta=0, dep=0, tfy=0, repr=0.5), share=0, max_text=60))
        nodes = g.children(2)
    return {"k": "dep", "hc": nodes, "name": "?", "ver": "0.0", "head": {"nodes": nodes}}


class Dup:
    """Dependencies recur within a case."""

    def __init__(self):
        self.pool = []

    def __call__(self, rng):
        if self.pool and rng.random() < 0.25:
            d = json.loads(json.dumps(rng.choice(self.pool)))
            d.pop("share", None)
            if "hc" not in d and rng.random() < 0.5:
                d["ver"] = rng.choice(spec.VERSIONS)
            return d
        d = gen_dep(rng)
        self.pool.append(d)
        return d


OKTAG = [n for n in ("div", "span", "p", "b", "ul", "section", "x-y", "br", "script", "pre", "header", "thead", "table", "main")]


def tagname(rng):
    if rng.random() < 0.02:
        return rng.choice(["head", "html", "body", "title", "meta", "link"])
    return rng.choice(OKTAG)


def W(rng):
    return dict(tag=8, text=5, html=1, num=0.5, repr=0.7, meta=0.4, dep=rng.choice([0, 1, 3, 6]), tfy=rng.choice([0, 0, 0.8]), nest=1, none=0.4)


def gkids(rng, dup, w, lo=0):
    g = spec.Gen(rng, spec.Opts(profile=rng.choice(["tiny", "small", "small"]), w=w, max_text=60, share=0.03, depgen=dup, tagname=tagname))
    k = g.children(1)
    return k


def ws(rng):
    return rng.random() < 0.85


def attrs(rng):
    if rng.random() < 0.5:
        return []
    return [[n, val(rng)] for n in rng.sample(["lang", "class", "id", "data-x", "dir", "xmlns"], rng.choice([1, 1, 2, 3]))]


def val(rng):
    r = rng.random()
    if r < 0.7:
        return {"t": "str", "s": strings.text(rng, None, 40)}
    return rng.choice([{"t": "none"}, {"t": "true"}, {"t": "false"}, {"t": "num", "s": "3"}, {"t": "html", "s": "&x"}])


def fill(items, rng, dup):
    """Many children or dependencies in one place."""
    places = [items] if len(items) != 1 else []
    for n in spec.iter_nodes(items):
        if n["k"] == "tag" and n["n"] in ("head", "body", "div"):
            places += [n["c"]] * (3 if n["n"] == "head" else 1)
    if not places:
        return
    c = rng.choice(places)
    kind = rng.randrange(4)
    for j in range(strings.sizes(rng, 60)):
        if kind == 0:
            x = shapes.tag("meta", True, [], [["name", {"t": "str", "s": "n%d" % j}]])
        elif kind == 1:
            x = dict(gen_dep(rng, 2))
            if "hc" not in x:
                x["name"] = "n%d" % (j % 50)
        elif kind == 2:
            x = shapes.T("t%d" % j)
        else:
            x = rng.choice([{"k": "meta"}, shapes.tag("b", False, []), {"k": "html", "s": "<!-- %d -->" % j}])
        c.insert(rng.randrange(len(c) + 1), x)


def fragname(rng):
    n = rng.choice(strings.tag_names() + ("frameset", "frame", "noframes", "HTML", "BODY", "Body", "Head", "svg:html", "x-html", "html5", "bodies"))
    return n if n not in ("html", "body") else "div"


def g_doc(i, rng):
    dup, w = Dup(), W(rng)
    shape = rng.choice(["frag", "frag", "list", "body", "html", "html", "html", "empty"])
    if shape == "empty":
        items = [] if rng.random() < 0.6 else [{"k": "none"}]
    elif shape == "frag":
        items = [shapes.tag(rng.choice(OKTAG) if rng.random() < 0.5 else fragname(rng), ws(rng), gkids(rng, dup, w))]
    elif shape == "list":
        items = gkids(rng, dup, w)
        if len(items) == 1 and items[0].get("n") in ("body", "html"):
            items = []
    elif shape == "body":
        items = [shapes.tag("body", ws(rng), gkids(rng, dup, w), attrs(rng))]
    else:
        kids = []
        r = rng.random()
        if r < 0.8:
            kids.append(shapes.tag("body", ws(rng), gkids(rng, dup, w), attrs(rng)))
        elif r < 0.9:
            kids = [k for k in gkids(rng, dup, w) if k.get("n") != "head"]
        if rng.random() < 0.65:
            hk = [] if rng.random() < 0.25 else gkids(rng, dup, w)
            if rng.random() < 0.4:
                hk.insert(rng.randrange(len(hk) + 1), shapes.tag("title", True, [shapes.T("T & t")]))
            if rng.random() < 0.2:
                hk.insert(rng.randrange(len(hk) + 1), shapes.tag("meta", True, [], [["charset", {"t": "str", "s": rng.choice(["utf-8", "x"])}]]))
            kids.insert(rng.randrange(len(kids) + 1), shapes.tag("head", ws(rng), hk, attrs(rng)))
        for _ in range(rng.choice([0, 0, 1, 2])):
            x = rng.choice([dup(rng), dup(rng), {"k": "meta"}, shapes.T("t"), {"k": "none"}])
            kids.insert(rng.randrange(len(kids) + 1), x)
        if rng.random() < 0.12 and kids:
            j = rng.randrange(len(kids))
            kids[j] = {"k": "nest", "t": rng.choice(["list", "taglist"]), "c": [kids[j]]}
        elif rng.random() < 0.1 and kids:
            j = rng.randrange(len(kids))
            kids[j] = {"k": "tfy", "m": "list", "c": [kids[j]]}
        if heads(kids) > 1:
            kids = [k for k in kids if k.get("n") == "head"][:1]
        items = [shapes.tag("html", ws(rng), kids, attrs(rng))]
    if rng.random() < 0.12:
        fill(items, rng, dup)
    if len(items) == 1 and items[0].get("n") in ("html", "body") and rng.random() < 0.08:
        # next to something, however small, it is not the sole content
        x = rng.choice([shapes.T(""), shapes.T(" "), shapes.T("\n"), shapes.T("x"), {"k": "html", "s": "\n"}, {"k": "html", "s": "<!-- c -->"}, {"k": "html", "s": ""}])
        items.insert(rng.randrange(2), x)
    if len(items) == 1 and shape != "list":
        r = rng.random()
        if r < 0.08:
            items = [{"k": "tfy", "m": "list", "c": items}]
        elif r < 0.12 and items[0]["k"] == "tag":
            items = [{"k": "tfy", "m": "tag", "c": items}]
        elif r < 0.2:
            items = [{"k": "nest", "t": rng.choice(["list", "tuple", "taglist"]), "c": items}]
        if rng.random() < 0.1:
            items.insert(rng.randrange(2), {"k": "none"})
        if items and items[0].get("k") == "tag" and rng.random() < 0.3:
            items[0]["h"] = rng.randrange(1 << 30)
    return {"items": items, "shape": shape, "cut": rng.randrange(len(items) + 1), "mode": rng.randrange(6),
            "kw": kw(rng), "cfg": [[rng.choice(["lib", None, "", "a/b", "lib/", "/abs", "é", "a b", ".", "../up"]), rng.random() < 0.6]
                                   for _ in range(rng.choice([1, 1, 2, 3]))], "seed": rng.randrange(1 << 30), "edits": spec.gen_edits(rng, 0.25)}


def kw(rng):
    r = rng.random()
    if r < 0.5:
        return []
    return [[n, val(rng)] for n in rng.sample(["lang", "class_", "id", "data_x", "dir", "xmlns", "data_foo_bar_", "Class"], rng.choice([1, 1, 2, 3]))]


def heads(kids):
    n = 0
    for k in kids:
        if k["k"] in ("nest", "tfy"):
            n += heads(k["c"])
        elif k.get("n") == "head":
            n += 1
    return n


def g_small(i, rng):
    """Every small arrangement of head/body/dependencies under <html>, and of dependencies in fragments."""
    d1 = {"k": "dep", "name": "a", "ver": "1.9", "src": {"href": "u"}, "script": [{"src": "f.js"}]}
    d2 = {"k": "dep", "name": "a", "ver": "1.10", "src": {"subdir": "x"}, "css": [{"href": "f.css"}], "meta": [{"name": "m", "content": "c"}]}
    d3 = {"k": "dep", "hc": [shapes.tag("title", True, [])], "name": "?", "ver": "0.0", "head": {"nodes": [shapes.tag("title", True, [])]}}
    opts = [[], [d1], [d2], [d3], [d1, d2], [d2, d1], [d3, d1, d3], [shapes.T("t"), d1]]
    j = i
    def pick():
        nonlocal j
        o = opts[j % len(opts)]
        j //= len(opts)
        return json.loads(json.dumps(o))
    arr = i % 7
    j = i // 7
    A, B, C = pick(), pick(), pick()
    head, body = shapes.tag("head", True, A), shapes.tag("body", True, B)
    if arr == 0:
        items = [shapes.tag("html", True, [head, body] + C)]
    elif arr == 1:
        items = [shapes.tag("html", True, C + [body, head])]
    elif arr == 2:
        items = [shapes.tag("html", True, C + [head])]
    elif arr == 3:
        items = [shapes.tag("html", True, A + [body] + C)]
    elif arr == 4:
        items = [shapes.tag("body", True, A + [shapes.tag("div", True, B)] + C)]
    elif arr == 5:
        items = A + [shapes.tag("p", True, B)] + C
    else:
        items = [shapes.tag("html", True, [shapes.tag("body", True, [shapes.tag("head", True, B)] + C)] + ([head] if A else []))]
    return {"items": items, "shape": "small%d" % arr, "cut": i % (len(items) + 1), "mode": i % 6, "kw": [], "cfg": [["lib", True]], "seed": i}


N_SMALL = 7 * 512


def streams(tier):
    q = tier == "quick"
    return [Stream("documents", 18000 if q else 300000, g_doc), Stream("small", N_SMALL, g_small)]


# --------------------------------------------------------------------- expected
SAFE = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/")


def quote(s):
    return "".join(chr(b) if b in SAFE else "%%%02X" % b for b in s.encode("utf-8"))


def join(a, b):
    return b if not a else a + b if a.endswith("/") else a + "/" + b


def base_url(d, prefix, iv):
    src = d.get("src")
    if not src:
        return ""
    if "href" in src:
        return src["href"]
    x = d["name"] + ("-" + str(Version(d["ver"])) if iv else "")
    return join(prefix, x) if prefix else x


def amap(item):
    out = {}
    for k, v in item.items():
        if v is None or v is False:
            continue
        out[attrmodel.norm_name(k)] = [("A", "" if v is True else str(v))]
    return list(out.items())


def dep_tags(d, prefix, iv):
    """The expected markup of one dependency."""
    out = [E("meta", True, amap(m), []) for m in d.get("meta", ())]
    u = base_url(d, prefix, iv)
    enc = quote if d.get("src") and "subdir" in d["src"] else (lambda s: s)
    for k, key, tag in (("css", "href", "link"), ("script", "src", "script")):
        for it in d.get(k, ()):
            a = {**it, key: join(u, enc(it[key]))}
            if k == "css":
                a.setdefault("rel", "stylesheet")
            out.append(E(tag, True, amap(a), []))
    return out + dep_head(d)


def dep_head(d):
    h = d.get("head")
    if h is None:
        return []
    if "s" in h:
        return [Leaf("H", h["s"])]
    return model.visible(model.norm(h["nodes"], True))


def expected(items, kwargs, prefix, iv):
    kids = model.norm(items, True)
    if len(kids) == 1 and isinstance(kids[0], E) and kids[0].name == "html":
        html = kids[0]
        a = dict(html.attrs)
    else:
        if not (len(kids) == 1 and isinstance(kids[0], E) and kids[0].name == "body"):
            kids = [E("body", True, [], kids)]
        html = E("html", True, [], kids)
        a = {}
    a.update(attrmodel.merge(attrmodel.pairs_of(kwargs)))
    html.attrs = list(a.items())
    deps = model.resolve(model.collect_deps(html.kids))
    head = next((k for k in html.kids if isinstance(k, E) and k.name == "head"), None)
    if head is None:
        head = E("head", True, [], [])
        html.kids.insert(0, head)
    head.kids = list(head.kids)
    head.kids.insert(0, E("meta", True, [("charset", [("A", "utf-8")])], []))
    if deps:
        text = ";".join("%s[%s]" % (d["name"], Version(d["ver"])) for d in deps)
        head.kids.append(E("script", True, [("type", [("A", "application/html-dependencies")])], [Leaf("T", text)]))
    for d in deps:
        head.kids += dep_tags(d, prefix, iv)
    return html, deps


def to_ht(ht, e):
    """The expected tree as a tree of the library, to be rendered ordinarily."""
    if not isinstance(e, E):
        return {"T": lambda: e.s, "H": lambda: ht.HTML(e.s), "R": lambda: spec.ReprObj(e.s, spec.Ctx())}[e.kind]()
    t = ht.Tag(e.name, *[to_ht(ht, k) for k in model.visible(e.kids)], _add_ws=e.ws)
    for n, segs in e.attrs:
        if len(segs) == 1:
            t.attrs[n] = segs[0][1] if segs[0][0] == "A" else ht.HTML(segs[0][1])
        else:
            t.attrs[n] = ht.HTML("".join(s[1] if s[0] == "L" else ht.html_escape(s[1]) for s in segs))
    return t


def name_hc(items, ht):
    """head_content() items: build once to learn the name it gives them."""
    ctx = spec.Ctx()
    for n in walk(items):
        if n["k"] == "dep" and "hc" in n:
            n["name"] = ht.head_content(*[spec.build(c, ctx) for c in n["hc"]]).name


def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(n.get("c", ()))
        h = n.get("head")
        if h and "nodes" in h and "hc" not in n:
            yield from walk(h["nodes"])


_real = spec.build_dep


def build_dep(d, ctx=None):
    if "hc" in d:
        return spec.H().head_content(*[spec.build(c, ctx or spec.Ctx()) for c in d["hc"]])
    return _real(d, ctx)


def worker_init(w):
    spec.build_dep = build_dep


def worker_exit():
    spec.build_dep = _real


def make(ht, items, case, kwargs, ctx):
    objs = [spec.build(n, ctx) for n in items]
    cut, mode = case["cut"], case["mode"]
    if mode == 0:
        return ht.HTMLDocument(*objs, **kwargs)
    doc = ht.HTMLDocument(*objs[:cut], **kwargs)
    if mode == 2:
        doc.render()
    if mode == 3:
        doc = copy.copy(doc)
    if mode == 5:
        for o in objs[cut:]:
            doc.append(o)
            doc.render()
    else:
        if objs[cut:]:
            doc.append(*objs[cut:])
    if mode == 4:
        d2 = copy.copy(doc)
        d2.append("OTHER", ht.HTMLDependency("other", "1", head="<o>"))
        d2.render()
    return doc


def check(case, M):
    ht = spec.H()
    items = case["items"]
    edits = case.get("edits") or []
    name_hc(items, ht)
    if edits:
        items = json.loads(json.dumps(items))
    kwargs = {n: spec.val(v) for n, v in case["kw"]}
    ctx = spec.Ctx()
    doc = make(ht, items, case, kwargs, ctx)
    for k, (prefix, iv) in enumerate(case["cfg"] + case["cfg"][:1 + len(edits)] * (len(edits) + 1)):
        if k > 0 and k <= len(edits):
            # something in the content changes between two renderings
            if not spec.edit(random.Random(edits[k - 1]), items, ctx):
                continue
            M.ev("in_place_edits")
        want, deps = expected(items, case["kw"], prefix, iv)
        r = doc.render(lib_prefix=prefix, include_version=iv) if k or [prefix, iv] != ["lib", True] else doc.render()
        html = r["html"]
        head = "<!DOCTYPE html>"
        if not html.startswith(head):
            raise Violation("doctype", "the document starts %r" % html[:60])
        m = model.match(html[len(head):], [("W",)] + model.flow([want]))
        if m:
            raise Violation("structure", "(lib_prefix=%r include_version=%r) %s\ndocument: %s" % (prefix, iv, m, html[:1500]))
        ref = head + "\n" + to_ht(ht, want).render()["html"]
        if html != ref:
            raise Violation("ordinary", "not the ordinary rendering of the expected tree\ngot:      %r\nexpected: %r" % (html[:1500], ref[:1500]))
        M.ev("documents_matched")
        got = [c07.dep_view(d) for d in r["dependencies"]]
        exp = [c07.dep_view(y) for y in (t for d in deps for t in ht.TagList(spec.build_dep(d)).tagify())]
        if got != exp:
            raise Violation("dependencies", "returned %r\nexpected %r" % (got[:10], exp[:10]))
        M.ev("dependency_lists_compared")
        M.ev("hoisted_dependencies", len(deps))
    M.ev("shape_" + case["shape"].rstrip("0123456789"))
    uh = [n for n in items if n["k"] == "tag" and n["n"] == "html" and any(c.get("n") == "head" and c["c"] for c in n["c"])]
    if uh:
        M.ev("user_heads")
    if deps or uh:
        M.distinct(items, case["mode"])
        M.sample({"document": html[:600]})
