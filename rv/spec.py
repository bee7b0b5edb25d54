"""JSON specs of trees, their random generation, and building them through the public
API with varied construction histories.

Node specs:
  {"k":"tag","n":name,"ws":bool,"a":[[name,val],...],"c":[...],"h":int}
  {"k":"text","s":str[,"sub":1]}   plain string child (sub: a str subclass)
  {"k":"html","s":str}             HTML()
  {"k":"num","s":str}              a number (see strings.mknum)
  {"k":"repr","s":str}             object with _repr_html_
  {"k":"meta"}                     plain MetadataNode
  {"k":"dep",...}                  HTMLDependency
  {"k":"tfy","m":mode,"c":[...]}   object with tagify(); "sr":str also self-rendering
  {"k":"nest","t":"list"|"tuple"|"taglist"|"listsub"|"pair"|"tlsub","c":[...]}
  {"k":"none"}
  {"k":"list","c":[...],"h":int}   a TagList (roots only)
Any node may carry "share": N - all nodes with the same N are one object.
"""
from __future__ import annotations

import collections
import contextlib
import copy
import functools
import json
import random
import sys
import threading

from . import strings
from .core import BUSY, Skip
from .strings import mknum, num, text


def H():
    import htmltools

    return htmltools


class StrSub(str):
    """Has what enumerations of strings have besides."""
    value = "STRSUB"
    _value_ = "STRSUB"
    data = "STRSUB"


class ListSub(list):
    pass


class Pair(tuple):
    pass


@functools.lru_cache(None)
def html_sub():
    class HTMLSub(H().HTML):
        pass

    return HTMLSub


@functools.lru_cache(None)
def dep_sub():
    class DepSub(H().HTMLDependency):
        pass

    return DepSub


@functools.lru_cache(None)
def dep_shown():
    class DepShown(H().HTMLDependency):
        """Has a representation of its own, for notebooks."""

        def _repr_html_(self):
            return "<DEP>"

    return DepShown


@functools.lru_cache(None)
def tag_sub():
    class TagSub(H().Tag):
        pass

    return TagSub


@functools.lru_cache(None)
def taglist_sub():
    class TagListSub(H().TagList):
        pass

    return TagListSub


# ------------------------------------------------------------------ generation
class Opts:
    def __init__(self, **kw):
        self.w = dict(tag=10, text=8, html=2, num=1, repr=1, meta=1, dep=1, tfy=0, nest=1, none=0.5)
        self.w.update(kw.pop("w", {}))
        self.valid_nest = False      # inline tags contain no block tags
        self.noescape = False        # script/style tags (any text)
        self.html_attrs = True
        self.subclasses = True
        self.attrs = True
        self.history = True
        self.share = 0.06
        self.inline = 0.5
        self.max_text = 4000
        self.profile = None
        self.tagname = strings.tag_name
        self.depgen = gen_dep
        self.__dict__.update(kw)


PROFILES = [("tiny", 38), ("small", 45), ("medium", 12), ("deep", 2.5), ("wide", 2.5)]


class Gen:
    def __init__(self, rng, opts):
        self.rng, self.o, self.pool, self.shared, self.nshare = rng, opts, [], [], rng.randrange(1 << 40)
        p = opts.profile or rng.choices([p for p, _ in PROFILES], [w for _, w in PROFILES])[0]
        self.p = p
        self.budget = {"tiny": 5, "small": 14, "medium": 50, "deep": 70, "wide": 100}[p]
        self.maxdepth = {"tiny": 3, "small": 5, "medium": 8, "deep": 60, "wide": 3}[p]
        self.kinds = [k for k, w in opts.w.items() if w > 0]
        self.kw = [opts.w[k] for k in self.kinds]
        if rng.random() < 0.5:
            # swarm: per case, a random subset of the kinds
            self.kw = [w if (k == "tag" or rng.random() < 0.6) else 0 for k, w in zip(self.kinds, self.kw)]
            if not any(self.kw):
                self.kw = [1] * len(self.kw)
        self.inl = rng.choice([opts.inline, 0.1, 0.5, 0.9])

    def h(self):
        return self.rng.randrange(1, 1 << 30) if self.o.history and self.rng.random() < 0.35 else 0

    def attrs(self):
        rng = self.rng
        if not self.o.attrs or rng.random() < 0.45:
            return []
        n = rng.choice([1, 1, 1, 2, 2, 3, 4, 6]) if rng.random() < 0.96 else rng.choice([7, 9, 10, 12, 17, 33, min(200, strings.sizes(rng, 200))])
        if n <= 8:
            names = strings.attr_sample(rng, n)
        else:
            names = strings.attr_sample(rng, n) if n < 80 and rng.random() < 0.7 else ["a%d" % i for i in range(n)]
        return [[nm, self.val()] for nm in names]

    def val(self):
        rng = self.rng
        r = rng.random()
        if r < 0.72:
            v = {"t": "str", "s": text(rng, self.pool, self.o.max_text)}
            if rng.random() < 0.04:
                v["sub"] = 1
            return v
        if r < 0.80:
            return {"t": "num", "s": rng.choice(strings.ATTRNUMS)}
        if r < 0.86:
            return {"t": "true"}
        if r < 0.90:
            return {"t": "none"}
        if r < 0.93:
            return {"t": "false"}
        if self.o.html_attrs:
            return {"t": "html", "s": html_val(rng)}
        return {"t": "str", "s": text(rng, self.pool, 50)}

    def tag(self, depth, inline=False):
        rng = self.rng
        n = self.o.tagname(rng)
        ws = False if (inline and self.o.valid_nest) else rng.random() >= self.inl
        t = {"k": "tag", "n": n, "ws": ws, "a": self.attrs(), "c": [], "h": self.h()}
        if self.o.subclasses and rng.random() < 0.03:
            t["cls"] = 1
        if depth < self.maxdepth and not (n in strings.VOID and rng.random() < 0.8):
            t["c"] = self.children(depth + 1, inline or not ws)
        if n in ("script", "style") and not self.o.noescape:
            for c in list(iter_nodes(t["c"])):
                if c["k"] == "text" and any(ch in c["s"] for ch in "&<>"):
                    c["s"] = "x"
                elif c["k"] == "num" and c["s"].startswith("shown"):
                    c["s"] = "7"
        return t

    def children(self, depth, inline=False):
        rng = self.rng
        r = rng.random()
        if self.p == "deep":
            n = rng.choice([1, 1, 1, 2]) if depth < self.maxdepth else 1
        elif self.p == "wide" and depth <= 1:
            n = min(300, strings.sizes(rng, 120))
        elif r < 0.13:
            n = 0
        elif r < 0.35:
            n = 1
        else:
            n = rng.choice([2, 2, 3, 3, 4, 5, 7])
        out = []
        for _ in range(n):
            if self.budget <= 0 and self.p != "wide":
                break
            out.append(self.node(depth, inline))
        if self.p == "deep" and depth < self.maxdepth and not any(c["k"] == "tag" for c in out):
            out.insert(rng.randrange(len(out) + 1), self.tag(depth, inline))
        return out

    def node(self, depth, inline=False):
        rng = self.rng
        self.budget -= 1
        if self.shared and rng.random() < self.o.share * 2:
            c = rng.choice(self.shared)
            if not (inline and self.o.valid_nest and has_block(c)):
                return c
        k = rng.choices(self.kinds, self.kw)[0]
        if k == "tag" and self.p == "wide" and depth > 1 and rng.random() < 0.7:
            k = "text"
        if k == "tag":
            t = self.tag(depth, inline)
        elif k == "text":
            t = {"k": "text", "s": text(rng, self.pool, self.o.max_text)}
            if rng.random() < 0.03:
                t["sub"] = 1
        elif k == "html":
            t = {"k": "html", "s": html_val(rng)}
        elif k == "num":
            t = {"k": "num", "s": num(rng)}
        elif k == "repr":
            t = {"k": "repr", "s": html_val(rng)}
        elif k == "meta":
            t = {"k": "meta"}
        elif k == "dep":
            t = self.o.depgen(rng)
            if self.o.subclasses and rng.random() < 0.03:
                t["sub"] = 1
        elif k == "tfy":
            t = self.tfy(depth, inline)
        elif k == "nest":
            t = {"k": "nest", "t": rng.choice(("list", "tuple", "taglist", "list", "taglist", "listsub", "pair", "tlsub")),
                 "c": [self.node(depth, inline) for _ in range(rng.choice([0, 1, 2, 3]))]}
        else:
            t = {"k": "none"}
        if k in ("repr", "tfy") and rng.random() < 0.15:
            t["odd"] = rng.choice([1, 1, 2, 3, 4, 5, 6, 6])
        if k in ("tag", "text", "html", "repr", "dep", "tfy") and rng.random() < self.o.share and "share" not in t:
            self.nshare += 1
            t["share"] = self.nshare
            self.shared.append(t)
        return t

    def tfy(self, depth, inline=False):
        rng = self.rng
        m = rng.choice(("list", "list", "list", "tag", "tag", "str", "html", "dep"))
        t = {"k": "tfy", "m": m, "c": []}
        if m == "list":
            n = rng.choice([0, 0, 1, 1, 2, 3, 4])
            if self.o.subclasses and rng.random() < 0.08:
                t["lsub"] = 1
            t["c"] = [self.node(depth + 1, inline) for _ in range(n if depth < self.maxdepth else min(n, 1))]
        elif m == "tag":
            t["c"] = [self.tag(depth + 1, inline)]
        elif m == "str":
            t["c"] = [{"k": "text", "s": text(rng, self.pool, 60)}]
        elif m == "html":
            t["c"] = [{"k": "html", "s": html_val(rng)}]
        else:
            t["c"] = [self.o.depgen(rng)]
        if rng.random() < 0.08:
            t["sr"] = html_val(rng)
        if rng.random() < 0.08:
            t["attr"] = 1   # tagify is an instance attribute rather than a method
        return t

    def root(self):
        if self.rng.random() < 0.35:
            return {"k": "list", "c": self.children(0), "h": self.h()}
        return self.tag(0)


def html_val(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(strings.MARK + strings.ENT + strings.UNI)
    if r < 0.7:
        return rng.choice(["<b>bold</b>", "<br>", "<p>one</p>\n<p>two</p>", "&lt;b&gt; &amp; \"q\"", "x < y && z > w",
                           "<!-- c -->", "", " ", "\n", "  <i>x</i>  ", "'\"", "a\r\nb", "&#10;", "<ul>\n  <li>1</li>\n</ul>"])
    return text(rng, None, 300)


def gen_tree(rng, **kw):
    t = Gen(rng, Opts(**kw)).root()
    r = rng.random()
    if r < 0.015:
        stretch(rng, t)
    elif r < 0.019:
        multiply(rng, t)
    return t


def multiply(rng, t):
    """Give one tag or list of the tree very many children."""
    cs = [n for n in iter_nodes([t]) if n["k"] in ("tag", "list", "nest") and 0 < len(n["c"]) < 50 and sum(1 for _ in iter_nodes(n["c"])) < 30]
    if cs:
        c = rng.choice(cs)
        m = rng.choice([130, 260, 300, 520, 600, 1030, 1100, 2060])
        kids = c["c"]
        c["c"] = [kids[j % len(kids)] for j in range(m)]
        if rng.random() < 0.5:
            c["c"].append(kids[0])


def stretch(rng, t):
    """Make one text or attribute value of the tree very long (its end stays as it is)."""
    cs = [n for n in iter_nodes([t]) if n["k"] in ("text", "html", "repr")]
    cs += [v for n in iter_nodes([t]) if n["k"] == "tag" for _, v in n["a"] if v["t"] in ("str", "html")]
    if cs:
        c = rng.choice(cs)
        n = rng.choice([1030, 2050, 2600, 4100, 5001, 9000, strings.big(rng)])
        c["s"] = (rng.choice(["x", "ab ", "\u00e9"]) * n)[:n] + c["s"]


def iter_nodes(nodes):
    for n in nodes:
        yield n
        yield from iter_nodes(n.get("c", ()))


def has_block(n):
    return any(x["k"] == "tag" and x["ws"] for x in iter_nodes([n]))


# ------------------------------------------------------------------ dependencies
DEP_NAMES = ["a", "b", "c", "jquery", "lib-x", "A", "react", "d_3", "foo.bar", "headcontent_x", "b2"]
VERSIONS = ["1", "1.0", "1.0.0", "1.9", "1.10", "1.10.0", "2.0", "10.0", "0.0", "0.1", "1.2.3", "1.2.10", "3.11.1", "1.0a1",
            "1.0b2", "1.0rc1", "1.0.post1", "1.0.dev3", "1!0.5", "1.0+local.1", "2024.01.02", "2024.1.2", "0.0.1", "9", "09",
            "1.2.3.4", "1.2.3.4.5", "100.0", "99.99", "1.09", "1.1"]


FIELD = [" x ", "x\n", "\tx", " ", "", "a  b", "width=device-width, initial-scale=1", "a,b", "X", "0", "\u00a0x", "x;", "'x'"]


def gen_dep(rng, names=DEP_NAMES, depth=0):
    d = {"k": "dep", "name": rng.choice(names), "ver": rng.choice(VERSIONS)}
    if rng.random() < 0.15:
        d["verobj"] = 1
    r = rng.random()
    if r < 0.35:
        d["src"] = {"href": rng.choice(["https://x.org/lib", "https://x.org/lib/", "/abs", "rel/path", "//cdn/x"])}
    elif r < 0.6:
        d["src"] = {"subdir": rng.choice(["lib/a", "/opt/x", ".", "lib/a/", "lib//a/../b", "./c", "é/x y"])}
    elif r < 0.66:
        d["src"] = {"package": rng.choice(["htmltools", "json", None]), "subdir": rng.choice(["lib", "lib/", "lib/react", "", "."])}
    if rng.random() < 0.5:
        d["script"] = [_item(rng, "src", "js") for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.4:
        d["css"] = [_item(rng, "href", "css") for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.2:
        d["meta"] = [{"name": rng.choice(["viewport", "m&m"]), "content": rng.choice(["x", "a\"b<c"] + FIELD)}]
    if rng.random() < 0.3:
        d["all"] = True
    if rng.random() < 0.3:
        d["single"] = 1
    if rng.random() < 0.2:
        d["mcls"] = rng.randrange(1, 4)
    r = rng.random()
    if r < 0.12:
        d["head"] = {"s": rng.choice(["<title>t</title>", "<!-- h -->", "x & y", "<script>1<2</script>"])}
    elif r < 0.25 and depth == 0:
        d["head"] = {"nodes": Gen(rng, Opts(profile="tiny", w=dict(meta=0, dep=0, tfy=0, repr=0), share=0)).children(2)}
    return d


def _item(rng, key, ext):
    it = {key: rng.choice(["f.%s" % ext, "d/g.%s" % ext, "a b.%s" % ext, "é.%s" % ext, "x&y.%s" % ext])}
    if rng.random() < 0.3:
        it[rng.choice(["integrity", "crossorigin", "type", "data-x", "title", "async", "media"])] = rng.choice(["v", "a\"b", "<&>", "", " v ", "a\nb"] + FIELD)
    return it


# ------------------------------------------------------------------ building
class Ctx:
    def __init__(self):
        self.shared = {}
        self.objs = {}          # id of a tag or list node -> the object built for it
        self.tfy_calls = 0
        self.repr_calls = 0


class ReprObj:
    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx

    def _repr_html_(self):
        self.ctx.repr_calls += 1
        return self.s

    def __eq__(self, o):
        return isinstance(o, ReprObj) and o.s == self.s


class Tfy:
    """Honours the contract: returns fresh, fully tagified content."""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx

    def tagify(self):
        return expand(self.spec, self.ctx)

    def __eq__(self, o):
        return isinstance(o, Tfy) and o.spec == self.spec


class TfyAttr:
    def __init__(self, spec, ctx):
        self.spec = spec
        self.tagify = lambda: expand(spec, ctx)

    def __eq__(self, o):
        return isinstance(o, TfyAttr) and o.spec == self.spec


class TfyRepr(Tfy):
    def _repr_html_(self):
        return self.spec["sr"]


def disturb():
    """Unrelated work with the library, whose results nobody looks at."""
    BUSY[0] += 1
    if BUSY[0] > 30 and BUSY[0] % 100:
        return
    ht = H()
    d = ht.HTMLDependency("disturb", "1.0", source={"href": "/d"}, script={"src": "d.js"}, head=ht.TagList("<d>"))
    x = ht.Tag("u", {"class": "d<"}, "d&", ht.HTML("<d>"), [1, None, ["d2", d]], ht.Tag("s", "<", ht.Tag("br"), "t"), ht.Tag("p", _add_ws=False), id="d'")
    x.add_class("d2").add_style("d:1;").remove_class("nope")
    x.render()
    x.get_html_string(3, "\r\n")
    ht.TagList("a", x, ht.Tag("script", "<&", "d")).get_html_string(1)
    ht.HTMLDocument(x, lang="d").render(lib_prefix="disturb", include_version=False)
    ht.HTMLTextDocument("d" + str(d.serialize_to_script_json()) + "<dd/>", deps_replace_pattern="<dd/>").render()
    ht.consolidate_attrs({"class": "d", "x_y": True}, "k", z=1)
    ht.css(d=1)
    x == ht.TagList(x)


ODD_EQ = True       # C08 compares objects and sets it to False
_odd = {}


def odd(x, n):
    """The same object with unusual members: falsy and empty, equal to anything, like a string, iterable, or like a tag."""
    o = n.get("odd")
    if o == 2 and not ODD_EQ:
        o = 1
    if not o:
        return x
    c = type(x)
    if (c, o) not in _odd:
        d = {"__bool__": lambda self: False, "__len__": lambda self: 0} if o == 1 else \
            {"__eq__": lambda self, o: True, "__ne__": lambda self, o: False, "__hash__": lambda self: 1}
        if o == 3:
            d = {"__str__": lambda self: "ODDSTR", "__html__": lambda self: "ODDHTML", "__radd__": lambda self, o: str(o) + "ODDADD",
                 "__add__": lambda self, o: "ODDADD" + str(o), "as_string": lambda self: "ODD", "__format__": lambda self, f: "ODDFORMAT"}
        elif o == 4:
            d = {"__iter__": lambda self: iter(["ODD1", "ODD2"]), "__len__": lambda self: 2, "__getitem__": lambda self, i: ["ODD1", "ODD2"][i],
                 "__contains__": lambda self, o: True}
        elif o == 5:
            d = {"name": "b", "attrs": {"class": "ODD"}, "children": ("ODD",), "add_ws": True, "data": ["ODD"], "head": None, "version": "1",
                 "get_html_string": lambda self, *a, **k: "ODDMARKUP", "get_dependencies": lambda self, *a, **k: [], "render": lambda self: {"html": "ODD", "dependencies": []}}
        elif o == 6:
            # uses the library while the library is using it
            def wrap(f):
                def g(self):
                    disturb()
                    r = f(self)
                    disturb()
                    return r
                return g
            d = {k: wrap(getattr(c, k)) for k in ("_repr_html_", "tagify") if hasattr(c, k)}
        if o == 1:
            d["__hash__"] = None
        _odd[c, o] = type(c.__name__, (c,), d)
    x.__class__ = _odd[c, o]
    return x


def expand(spec, ctx):
    ht = H()
    ctx.tfy_calls += 1
    sub = Ctx()     # fresh objects on every call
    m = spec["m"]
    if m != "list" and not spec["c"]:
        raise Skip()    # only after shrinking
    if m == "list":
        return (taglist_sub() if spec.get("lsub") else ht.TagList)(*[build(c, sub) for c in spec["c"]]).tagify()
    x = build(spec["c"][0], sub)
    if m == "tag":
        return x.tagify()
    if m == "dep":
        return ht.TagList(x).tagify()[0]
    return x


def val(v):
    ht = H()
    t = v["t"]
    if t == "str":
        return StrSub(v["s"]) if v.get("sub") else v["s"]
    if t == "html":
        return html_sub()(v["s"]) if v.get("sub") else ht.HTML(v["s"])
    if t == "num":
        return mknum(v["s"])
    return {"true": True, "false": False, "none": None}[t]


class DictSub(dict):
    pass


def mapping(x, k):
    """A dict, or one of its subclasses, with the items of x."""
    return [dict, collections.OrderedDict, DictSub, lambda y: collections.defaultdict(str, y)][k % 4](x)


def render_kw(prefix, iv, defaults):
    """lib_prefix= and include_version=, left out where they say what the default is."""
    kw = {"lib_prefix": prefix, "include_version": iv}
    if defaults:
        if prefix == "lib":
            del kw["lib_prefix"]
        if iv is True:
            del kw["include_version"]
    return kw


def head_arg(h, nodes):
    """The head content as one of the things a tag child may be."""
    ht = H()
    k = (len(nodes) * 7 + sum(len(str(n)) for n in h)) % 6
    if k == 1:
        return nodes
    if k == 2:
        return tuple(nodes)
    if k == 3:
        return [None, [nodes[:1]], tuple(nodes[1:])]
    if k == 4 and len(nodes) == 1 and not isinstance(nodes[0], str):
        return nodes[0]
    return ht.TagList(*nodes)


def build_dep(d, ctx=None):
    ht = H()
    kw = {}
    mc = d.get("mcls", 0)
    for key, nm in (("script", "script"), ("css", "stylesheet"), ("meta", "meta")):
        if key in d:
            items = [mapping(x, mc) for x in d[key]]
            kw[nm] = items[0] if len(items) == 1 and d.get("single") else items
    if "src" in d:
        kw["source"] = mapping(d["src"], mc) if d["src"] is not None else None
    if "all" in d:
        kw["all_files"] = d["all"]
    if d.get("head") is not None:
        h = d["head"]
        if "s" in h:
            kw["head"] = h["s"]
        else:
            kw["head"] = head_arg(h["nodes"], [build(c, ctx or Ctx()) for c in h["nodes"]])
    v = d["ver"]
    if d.get("verobj"):
        from packaging.version import Version

        v = Version(v)
    return (dep_shown() if d.get("sub") == 2 else dep_sub() if d.get("sub") else ht.HTMLDependency)(d["name"], v, **kw)


def build(n, ctx):
    s = n.get("share")
    if s is not None and s in ctx.shared:
        return ctx.shared[s]
    x = _build(n, ctx)
    if s is not None:
        ctx.shared[s] = x
    if n["k"] in ("tag", "list"):
        ctx.objs[id(n)] = x
    return x


def gen_edits(rng, p=0.2):
    return [rng.randrange(1 << 30) for _ in range(rng.choice([1, 1, 2, 3]))] if rng.random() < p else []


def editable(nodes, ctx):
    for n in nodes:
        if "share" in n or n["k"] not in ("tag", "list", "nest"):
            continue
        if id(n) in ctx.objs:
            yield n
        yield from editable(n["c"], ctx)


def edit(rng, nodes, ctx, html=True):
    """Change one object of the tree in place, and its spec."""
    ns = list(editable(nodes, ctx))
    if not ns:
        return False
    n = rng.choice(ns) if rng.random() < 0.7 else ns[0]
    x = ctx.objs[id(n)]
    kids = x.children if n["k"] == "tag" else x
    new = rng.choice([{"k": "text", "s": "late"}, {"k": "text", "s": "l&t<"}, {"k": "html", "s": "<late>"}, {"k": "tag", "n": "i", "ws": False, "a": [], "c": []}])
    if n.get("n") in ("script", "style"):
        new = {"k": "text", "s": "late"}
    if n.get("n") in ("html", "head") or new["k"] == "html" and not html:
        new = {"k": "tag", "n": "i", "ws": False, "a": [], "c": []}
    r = rng.randrange(8 if n["k"] == "tag" else 5)
    if r < 2:
        o = build(new, ctx)
        x.append(o)
        n["c"].append(new)
    elif r == 2:
        o = build(new, ctx)
        x.insert(0, o)
        n["c"].insert(0, new)
    elif r == 3:
        two = json.loads(json.dumps(new))
        x.extend([build(new, ctx), build(two, ctx)])
        n["c"] += [new, two]
    elif r == 4:
        kids.clear()
        n["c"][:] = []
    else:
        v = str(rng.randrange(100))
        if r == 5 and not any(a == "data-late" for a, _ in n["a"]):
            x.attrs["data-late"] = v
            n["a"].append(["data-late", {"t": "str", "s": v}])
        elif r == 6 and n["a"]:
            x.attrs.clear()
            n["a"][:] = []
        else:
            for it in n["a"]:
                if it[0] == "data-late":
                    it[1] = {"t": "str", "s": v}
                    break
            else:
                n["a"].append(["data-late", {"t": "str", "s": v}])
            x.attrs.update(data_late=v)
    return True


def versions(case, M=None, tree=None, html=True):
    """The tree of the case as built, then after each of its edits: (spec, object, ctx)."""
    tree = case["tree"] if tree is None else tree
    es = case.get("edits") or ()
    if es:
        tree = json.loads(json.dumps(tree))
    ctx = Ctx()
    x = build(tree, ctx)
    yield tree, x, ctx
    for e in es:
        if edit(random.Random(e), [tree], ctx, html):
            if M is not None:
                M.ev("in_place_edits")
            yield tree, x, ctx


def _build(n, ctx):
    ht = H()
    k = n["k"]
    if k == "text":
        return StrSub(n["s"]) if n.get("sub") else n["s"]
    if k == "html":
        return html_sub()(n["s"]) if n.get("sub") else ht.HTML(n["s"])
    if k == "num":
        return mknum(n["s"])
    if k == "repr":
        return odd(ReprObj(n["s"], ctx), n)
    if k == "meta":
        if n.get("sub"):
            from .props.c07 import sub_meta

            return sub_meta(n["sub"])
        return ht.MetadataNode()
    if k == "dep":
        return build_dep(n, ctx)
    if k == "tfy":
        if "sr" in n:
            return odd(TfyRepr(n, ctx), n)
        if n.get("attr"):
            return odd(TfyAttr(n, ctx), n)
        return odd(Tfy(n, ctx), n)
    if k == "none":
        return None
    if k == "nest":
        kids = [build(c, ctx) for c in n["c"]]
        return {"list": list, "tuple": tuple, "taglist": lambda x: ht.TagList(*x), "listsub": ListSub, "pair": Pair,
                "tlsub": lambda x: taglist_sub()(*x)}[n["t"]](kids)
    if k == "tag":
        return build_tag(n, ctx)
    if k == "list":
        return build_list(n, ctx)
    raise KeyError(k)


def look(x, r):
    """A read-only call in the middle of the construction (a stale cache would show)."""
    ht = H()
    try:
        k = r.randrange(7)
        if k == 0:
            str(x)
        elif k == 1:
            x.render()
        elif k == 2:
            x.get_html_string()
        elif k == 3:
            x.get_dependencies()
        elif k == 4:
            x.tagify()
        elif k == 5:
            x.get_html_string(3, "\r\n")
        else:
            repr(x)
    except RuntimeError:
        pass    # contains something un-tagified


def split_attrs(attrs, r):
    """Positional dicts and keywords which together give the attributes in order."""
    if r is None:
        return [], {a: val(v) for a, v in attrs}
    k = r.randrange(4)
    cut = {0: 0, 1: len(attrs), 2: r.randrange(len(attrs) + 1), 3: r.randrange(len(attrs) + 1)}[k]
    pos, kw = attrs[:cut], attrs[cut:]
    dicts = []
    i = 0
    while i < len(pos):
        j = i + 1 + r.randrange(3)
        d = {raw_name(a, r): val(v) for a, v in pos[i:j]}
        q = r.randrange(8)
        if q == 0:
            d = collections.OrderedDict(d)
        elif q == 1:
            d = H().Tag("x", d).attrs           # another tag's attribute map
        dicts.append(d)
        i = j
    return dicts, {raw_name(a, r): val(v) for a, v in kw}


def raw_name(a, r):
    if "_" in a:
        return a
    if r.random() < 0.3:
        a = a.replace("-", "_")
    if r.random() < 0.3 or a.endswith("_") or a == "self":
        a = a + "_"
    return a


def build_tag(n, ctx):
    ht = H()
    Tag = tag_sub() if n.get("cls") else ht.Tag
    kids = [build(c, ctx) for c in n["c"]]
    h = n.get("h", 0)
    if not h:
        return Tag(n["n"], *kids, _add_ws=n["ws"], **{a: val(v) for a, v in n["a"]})
    r = random.Random(h)
    late = r.random() < 0.3
    dicts, kw = split_attrs([] if late else n["a"], r)
    mode = r.randrange(9)
    cut = r.randrange(len(kids) + 1)
    first, rest = kids[:cut], kids[cut:]
    if mode == 5 and any(x["k"] in ("repr",) or x.get("sub") == 2 for x in iter_nodes(n["c"])):
        mode = 1
    if mode == 0:
        args = list(dicts) + kids if r.random() < 0.5 else kids + list(dicts)
        t = Tag(n["n"], *args, _add_ws=n["ws"], **kw)
    else:
        t = Tag(n["n"], *dicts, *first, _add_ws=n["ws"], **kw)
        if r.random() < 0.4:
            look(t, r)
        if mode in (1, 7):
            for x in rest:
                t.append(x)
                if r.random() < 0.2:
                    look(t, r)
        elif mode == 2:
            t.extend(rest)
        elif mode == 3:
            at = len(t.children)
            for x in reversed(rest):
                t.insert(at, x)
                if r.random() < 0.2:
                    look(t, r)
        elif mode == 4:
            for x in rest:
                t.insert(len(t.children) + r.choice([0, 0, 5, 1000]), x)
        elif mode == 5:
            with hook(lambda v: None):
                with t:
                    for x in rest:
                        sys.displayhook(x)
        elif mode == 6:
            k = r.randrange(4)
            if k == 0:
                t.children += rest
            elif k == 1:
                t.children.extend(tuple(rest))
            elif k == 2:
                t.children = t.children + rest
            else:
                t.append(*rest) if rest else None
        else:
            i = 0
            while i < len(rest):
                j = i + 1 + r.randrange(3)
                ch = rest[i:j]
                q = r.randrange(4)
                if q == 0:
                    t.append(*ch)
                elif q == 1:
                    t.extend(ch)
                elif q == 2:
                    t.append(ch)
                else:
                    t.children.append(*ch)
                i = j
    if late:
        for a, v in n["a"]:
            if r.random() < 0.5:
                t.attrs[raw_name(a, r)] = val(v)
            else:
                t.attrs.update({raw_name(a, r): val(v)})
            if r.random() < 0.1:
                look(t, r)
    if mode == 7 or r.random() < 0.1:
        t2 = copy.copy(t)
        if r.random() < 0.5:
            # whatever is done to the original afterwards must not show in the copy
            t.append("OTHER")
            t.attrs["id"] = "OTHER"
            look(t, r)
        t = t2
    return t


def build_list(n, ctx):
    ht = H()
    TL = ht.TagList
    kids = [build(c, ctx) for c in n["c"]]
    h = n.get("h", 0)
    if not h:
        return TL(*kids)
    r = random.Random(h)
    cut = r.randrange(len(kids) + 1)
    first, rest = kids[:cut], kids[cut:]
    mode = r.randrange(9)
    if mode == 0:
        return TL(*kids)
    if mode == 1:
        return TL(*first) + rest
    if mode == 2:
        return first + TL(*rest)
    t = TL(*first)
    if r.random() < 0.4:
        look(t, r)
    if mode == 3:
        for x in rest:
            t.append(x)
            if r.random() < 0.2:
                look(t, r)
    elif mode == 4:
        t.extend(rest)
    elif mode == 5:
        t += rest
    elif mode == 6:
        at = len(t)
        for x in reversed(rest):
            t.insert(at, x)
    elif mode == 7:
        t = TL(first, tuple(rest))
    else:
        t = copy.copy(t)
        t.append(*rest) if rest else None
    return t


HOOK = threading.RLock()


@contextlib.contextmanager
def hook(fn):
    with HOOK:      # the hook is the process's, not the thread's
        old = sys.displayhook
        sys.displayhook = fn
        try:
            yield
        finally:
            sys.displayhook = old
