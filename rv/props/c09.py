"""C09: tagifiable objects render as their expansion, spliced in place."""
import itertools
import json

from .. import model, shapes, snap as S, spec, strings
from ..core import Stream, Violation
from . import c07, c08

ID = "C09"
CONCURRENT = 250
RULE = ("trees with expanding objects at random and at all small positions (adjacent, first, last, nested in expansions, in "
        "dependency heads, as document roots) compared with the tree where each is replaced by its expansion; asking an "
        "un-expanded tree for markup must raise; non-trivial: at least one expanding object, distinct by tree")
ASSUMPTIONS = ["tagify() returns fresh, fully tagified content, as the protocol's documentation requires"]
MIN_EVENTS = {"renders_compared": 4000, "expansions_performed": 8000, "unexpanded_rejected": 1000, "documents_compared": 1500}


def g_random(i, rng):
    t = spec.gen_tree(rng, w=dict(tfy=5, dep=1.2, meta=0.3, repr=0.7, html=1), max_text=60, depgen=dep_tfy)
    r = rng.random()
    if r < 0.25:
        t = c08.docroot(rng, t)
        wrap_some(t, rng)
    if r < 0.1 or 0.25 < r < 0.35:
        t = wrap(t, rng)
        t = {"k": "list", "c": [t] if rng.random() < 0.8 else [{"k": "none"}, {"k": "nest", "t": "list", "c": [t]}], "h": 0}
    return {"tree": t, "kw": [["lang", {"t": "str", "s": "fr"}]][:rng.randrange(2)],
            "prefix": rng.choice(["lib", None, "a/b"]), "iv": rng.random() < 0.7, "edits": spec.gen_edits(rng)}


def dep_tfy(rng):
    d = c08.dep_href(rng)
    if rng.random() < 0.15:
        g = spec.Gen(rng, spec.Opts(profile="tiny", w=dict(meta=0, dep=0.6, tfy=3, repr=0), share=0, depgen=c08.dep_href))
        d["head"] = {"nodes": g.children(2)}
    return d


def wrap(t, rng):
    if t["k"] == "list":
        return {"k": "tfy", "m": "list", "c": t["c"]}
    if rng.random() < 0.5:
        return {"k": "tfy", "m": "tag", "c": [t]}
    return {"k": "tfy", "m": "list", "c": [t]}


def wrap_some(t, rng):
    for n in list(spec.iter_nodes([t])):
        if n["k"] == "tag":
            for i, c in enumerate(n["c"]):
                if c["k"] == "tag" and c["n"] not in ("head", "body") and rng.random() < 0.1:
                    n["c"][i] = wrap(c, rng)


RES = [("list", []), ("list", [shapes.T("x")]), ("list", [shapes.tag("div", True, []), shapes.T("y"), shapes.tag("b", False, [])]),
       ("tag", [shapes.tag("div", True, [shapes.T("z")])]), ("tag", [shapes.tag("b", False, [])]), ("str", [shapes.T("<s>")]),
       ("html", [{"k": "html", "s": "<h>"}]), ("dep", [shapes.DEP]),
       ("list", [{"k": "tfy", "m": "list", "c": [shapes.T("n"), {"k": "tfy", "m": "list", "c": []}]}, shapes.T("m")]),
       ("tag", [shapes.tag("p", True, [{"k": "tfy", "m": "str", "c": [shapes.T("q")]}])]), ("list", [shapes.DEP, shapes.META]),
       ("list", [shapes.T("a"), shapes.T("b")]), ("list", [{"k": "repr", "s": "<r>"}])]
SIB = [None, shapes.T("t"), shapes.tag("i", False, []), shapes.tag("ul", True, [])]
PAR = ["list", ("div", True), ("span", False), ("br", True), ("script", True)]
GRID = [(p, a, r1, r2, b) for p in range(len(PAR)) for a in range(len(SIB)) for r1 in range(len(RES))
        for r2 in [None] + list(range(len(RES))) for b in range(len(SIB))]


def g_grid(i, rng):
    p, a, r1, r2, b = GRID[(i * 7919) % len(GRID)]
    mk = lambda r: {"k": "tfy", "m": RES[r][0], "c": RES[r][1]}
    kids = [SIB[a]] if a else []
    kids.append(mk(r1))
    if r2 is not None:
        kids.append(mk(r2))
    if b:
        kids.append(SIB[b])
    t = {"k": "list", "c": kids, "h": 0} if PAR[p] == "list" else shapes.tag(PAR[p][0], PAR[p][1], kids)
    if PAR[p] != "list" and i % 3 == 0:
        t = shapes.tag("section", True, [t, shapes.T("end")])
    return {"tree": t, "kw": [], "prefix": "lib", "iv": True}


def g_special(i, rng):
    return {"special": i % 8, "n": rng.choice([1, 2, 3]), "ctx": rng.randrange(5), "s": strings.text(rng, None, 30)}


def streams(tier):
    q = tier == "quick"
    return [Stream("random", 6000 if q else 300000, g_random),
            Stream("grid", 5000 if q else len(GRID), g_grid),
            Stream("special", 800 if q else 8000, g_special)]


def replaced(t):
    """The spec with each expanding object replaced by its expansion."""
    t = dict(t)
    t.pop("share", None)
    if t["k"] == "tfy":
        return {"k": "nest", "t": "taglist", "c": [replaced(c) for c in t["c"]]}
    if "c" in t:
        t["c"] = [replaced(c) for c in t["c"]]
    if t["k"] == "dep" and t.get("head") and "nodes" in t["head"]:
        t["head"] = {"nodes": [replaced(c) for c in t["head"]["nodes"]]}
    if "h" in t:
        t["h"] = 0
    return t


def view(r):
    return r["html"], [c07.dep_view(d) for d in r["dependencies"]]


def same(a, b, what):
    if a != b:
        k = "dependencies" if a[0] == b[0] else "html"
        raise Violation("expansion", "%s: %s differs\nwith expanding objects:   %r\nwith expansions in place: %r" % (
            what, k, a if k == "dependencies" else a[0][:700], b if k == "dependencies" else b[0][:700]))


def unexpanded(nodes):
    """Is there an un-expanded, not self-rendering object at a place that is rendered?"""
    return any(n["k"] == "tfy" and "sr" not in n for n in reach(nodes))


def reach(nodes):
    for n in nodes:
        yield n
        if n["k"] != "tfy":
            yield from reach(n.get("c", ()))


def must_raise(f, M, what):
    try:
        out = f()
    except Exception:
        M.ev("unexpanded_rejected")
        return
    raise Violation("unexpanded", "%s of a tree with an un-expanded object gave %r" % (what, out[:500]))


def check(case, M):
    ht = spec.H()
    if "special" in case:
        return check_special(ht, case, M)
    for tree, x, ctx in spec.versions(case, M):
        judge(ht, case, tree, x, ctx, M)


def judge(ht, case, tree, x, ctx, M):
    y = spec.build(replaced(tree), spec.Ctx())
    same(view(x.render()), view(y.render()), "render()")
    M.ev("renders_compared")
    same((str(x), []), (str(y), []), "str()")
    t = x.tagify()
    same((t.get_html_string(2, "\r\n"), [c07.dep_view(d) for d in t.get_dependencies()]),
         (y.get_html_string(2, "\r\n"), [c07.dep_view(d) for d in y.get_dependencies()]), "tagify()")
    kw = {n: spec.val(v) for n, v in case["kw"]}
    da, db = ht.HTMLDocument(x, **kw), ht.HTMLDocument(y, **kw)
    o = dict(lib_prefix=case["prefix"], include_version=case["iv"])
    same(view(da.render(**o)), view(db.render(**o)), "HTMLDocument.render()")
    if tree["k"] == "list":
        dc = ht.HTMLDocument(**kw)
        for c in tree["c"]:
            dc.append(spec.build(c, spec.Ctx()))
        same(view(dc.render(**o)), view(db.render(**o)), "HTMLDocument.append(); render()")
    M.ev("documents_compared")
    if unexpanded([tree]):
        must_raise(lambda: x.get_html_string(), M, "get_html_string()")
        must_raise(lambda: x.get_html_string(1, ""), M, "get_html_string(1, '')")
        if isinstance(x, ht.TagList):
            must_raise(lambda: x.get_html_string(add_ws=False), M, "get_html_string(add_ws=False)")
        must_raise(lambda: ht.Tag("div", "t", x).get_html_string(), M, "a parent's get_html_string()")
        must_raise(lambda: ht.Tag("script", x, "t").get_html_string(), M, "a <script> parent's get_html_string()")
    M.ev("expansions_performed", ctx.tfy_calls)
    if any(n["k"] == "tfy" for n in c08.nodes_deep(tree)):
        M.distinct(tree)
        M.sample({"rendered": str(x)[:300]})


def check_special(ht, case, M):
    k, s, n = case["special"], case["s"], case["n"]
    Tag, TL = ht.Tag, ht.TagList

    class SubTag(Tag):
        """A Tag whose expansion is something else."""

        def tagify(self):
            return Tag("em", s)

    class Both:
        def tagify(self):
            return Tag("em", s)

        def _repr_html_(self):
            return "<u>SELF</u>"

    class Stored:
        def __init__(self):
            self.t = Tag("em", s)

        def tagify(self):
            return self.t

    class StoredList:
        def __init__(self):
            self.t = TL(Tag("em", s), "q")

        def tagify(self):
            return self.t

    class Slots:
        __slots__ = ("tagify",)

        def __init__(self):
            self.tagify = lambda: Tag("em", s)

    class SubList(TL):
        def tagify(self):
            return TL(Tag("em", s))

    class Docroot:
        def tagify(self):
            return Tag("html", Tag("head", Tag("title", s)), Tag("body", "b"), lang="x")

    class Lone:
        def tagify(self):
            return TL(Tag("body", s, class_="k"))

    cls = [lambda: SubTag("zz", "no"), Both, Stored, StoredList, Slots, Both, Docroot, Lone][k]
    mk = [lambda: [Tag("em", s)], lambda: [Tag("em", s)], lambda: [Tag("em", s)], lambda: [Tag("em", s), "q"], lambda: [Tag("em", s)],
          lambda: [Tag("em", s)], lambda: [Docroot().tagify()], lambda: [Tag("body", s, class_="k")]][k]
    objs = [cls() for _ in range(n)]
    exp = [c for _ in range(n) for c in mk()]
    W = [lambda c: TL(*c), lambda c: Tag("div", *c), lambda c: Tag("b", "x", *c, "y", _add_ws=False),
         lambda c: TL("a", Tag("p", Tag("i", *c)), *c), lambda c: Tag("body", *c)][case["ctx"]]
    x, y = W(objs), W(exp)
    for _ in range(2):
        same(view(x.render()), view(y.render()), "render() of %s" % type(objs[0]).__name__)
        same((str(x), []), (str(y), []), "str()")
        same(view(ht.HTMLDocument(x, id="1").render()), view(ht.HTMLDocument(y, id="1").render()), "HTMLDocument.render()")
        M.ev("renders_compared")
        M.ev("documents_compared")
        M.ev("expansions_performed", 3 * n)
    if k in (2, 3, 4, 6, 7):
        must_raise(lambda: x.get_html_string(), M, "get_html_string()")
    M.distinct(case)
