"""JSX component trees: generation, building through the public API, expected expression.

  {"k":"jsx","n":name,"a":[[rawname,pv],...],"c":[...],"h":int}
  {"k":"tag","n":name,"a":[[name,val],...],"c":[...],"ws":bool,"h":0}
  {"k":"text"|"num"|"jx"|"meta"|"dep"|"none"|"nest", ...}
  {"k":"tfy","m":"list"|"tag"|"str"|"dep","c":[...],"stored":0|1,"done":0|1}
prop values: {"t":"none"|"true"|"false"|"num"|"str"|"jx"|"list"|"tuple"|"dict"|"node"|"style", ...}
"""
from __future__ import annotations

import keyword
import random

from . import attrmodel, spec, strings

COMP = ["Foo", "Bar", "FooBar", "Foo.Bar", "A", "Window1", "$X", "_X", "Ns.Sub.Comp", "É", "Span", "Div"]
PROPS = ["a", "b", "x_", "class_", "for_", "data_foo", "dataFoo", "onClick", "on_click_", "id", "key", "value", "x", "aria_label", "z__", "children_",
         "dangerous", "ref_", "name", "allowed", "props"]
EXPR = [("1 + 1", 2), ("{q: 1}", {"q": 1}), ("[1,\n 2]", [1, 2]), ("`t\\n`", "t\n"), ("'s'", "s"), ("\"d\\\"q\"", "d\"q"), ("(1, 2)", 2), ("true", True),
        ("() => console.log('here')", None), ("function(x) {\n  return x < 1 && x > 0;\n}", None), ("null", None), ("a.b", None), ("<", None)]
JSEXPR = [e for e in EXPR if e[0] not in ("<", "a.b")]
JSVAL = dict((e, v) for e, v in JSEXPR)
FUNCS = {e for e, _ in JSEXPR if "=>" in e or "function" in e}
CSSKEYS = ["color", "font-size", "a", "b", "--v", "background", "margin-top", "x", "Color", "--myVar", "WebkitX", "-moz-x", "border-Top"]
CSSVALS = ["red", "12px", "url(http://x/y)", "a:b:c", "'q'", "\"q\"", "1", "rgba(1, 2, 3)", "data:image/png", "", "Arial", "A", "url(HTTP://X/Y.PNG)", "\"Times New Roman\", Serif", "#FFF", "1.5EM", "!important", "red !important",
           "calc(1px + 2px)", "var(--A)", "0"]


def propname(rng):
    nm = strings.derived(rng)
    r = rng.random()
    if r < 0.15:
        nm += "_"
    elif r < 0.3:
        nm += "_" + strings.derived(rng)
    return "k" + nm if keyword.iskeyword(nm) else nm


_META = None


def meta_class():
    global _META
    if _META is None:
        class LabelledMeta(spec.H().MetadataNode):
            def __init__(self, label):
                self.label = label

        class OddMeta(LabelledMeta):
            """Equal to, and hashed as, any other."""
            def __eq__(self, o):
                return True

            def __hash__(self):
                return 1

        LabelledMeta.odd = OddMeta
        _META = LabelledMeta
    return _META


def text(rng, cap=300):
    s = strings.text(rng, None, cap)
    if rng.random() < 0.04:
        j = rng.randrange(len(s) + 1)
        s = s[:j] + rng.choice(["</script>", "</SCRIPT >", "</", "<!--", "<!-- <script>", "-->", "<", "<\"/", "<!-"]) + s[j:]
    return "".join(c for c in s if c not in "\\\n\r\u2028\u2029")


class Gen:
    def __init__(self, rng, budget=None, tfy=True):
        self.rng = rng
        self.budget = budget or rng.choice([3, 6, 12, 25])
        self.maxd = rng.choice([2, 3, 4, 6]) if rng.random() < 0.97 else 40
        self.tfy = tfy and rng.random() < 0.6
        self.nmeta = 0
        self.pool, self.nshare = [], rng.randrange(1 << 40)
        self.w = {k: (w if rng.random() < 0.75 else 0) for k, w in
                  dict(jsx=5, tag=5, text=4, num=1, jx=1, meta=1.5, dep=2, tfy=2.5 if self.tfy else 0, nest=0.8, none=0.5).items()}
        if not any(self.w.values()):
            self.w["tag"] = 1

    def comp(self, d=0):
        rng = self.rng
        names, a = [], []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5]) if rng.random() < 0.99 else min(80, strings.sizes(rng, 80))):
            r = rng.random()
            nm = rng.choice(PROPS) if r < 0.75 else "p%d" % rng.randrange(100) if r < 0.8 else propname(rng)
            if nm in names or nm in ("self", "allowedProps") or attrmodel.norm_name(nm) == "style":
                continue
            names.append(nm)
            a.append([nm, self.prop(d + 1)])
        if rng.random() < 0.25:
            a.insert(rng.randrange(len(a) + 1), ["style", self.style()])
        return {"k": "jsx", "n": rng.choice(COMP), "a": a, "c": self.kids(d + 1), "h": rng.randrange(1 << 30) if rng.random() < 0.5 else 0}

    def tag(self, d):
        rng = self.rng
        a = []
        if rng.random() < 0.5:
            names = ["id", "class", "href", "data-x", "for", "title", "hidden"]
            if rng.random() < 0.02:
                names += ["data-%d" % j for j in range(min(150, strings.sizes(rng, 150)))]
            for nm in rng.sample(names, rng.choice([1, 1, 2, len(names)])):
                v = rng.choice([{"t": "str", "s": text(rng, 60)}, {"t": "str", "s": text(rng, 60)}, {"t": "true"}, {"t": "num", "s": "3"}])
                a.append([nm, v])
        if rng.random() < 0.15:
            a.append(["style", {"t": "str", "s": self.css()}])
        return {"k": "tag", "n": rng.choice(["div", "span", "p", "br", "h1", "svg", "x-y", "script", "style", "input", "linearGradient", "H2", "Foo"]) if rng.random() < 0.85
                else strings.tag_name(rng), "ws": rng.random() < 0.6, "a": a,
                "c": self.kids(d + 1), "h": 0}

    def css(self):
        rng = self.rng
        ks = rng.sample(CSSKEYS, rng.choice([0, 1, 1, 2, 3]))
        if rng.random() < 0.01:
            ks += ["q%d" % j for j in range(min(100, strings.sizes(rng, 100)))]
        sp = lambda: rng.choice(["", "", " "])
        s = ";".join(sp() + k + sp() + ":" + sp() + rng.choice(CSSVALS) + sp() for k in ks)
        return s + rng.choice(["", ";", "; "]) if ks else s

    def style(self):
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            return {"t": "style", "s": self.css()}
        if r < 0.5:
            return {"t": "none"}
        if r < 0.58:
            return {"t": "jx", "s": rng.choice(JSEXPR)[0]}
        return {"t": "dict", "items": [[k, self.scalar()] for k in rng.sample(CSSKEYS + ["fontSize", "z_i"], rng.choice([0, 1, 2, 3]))]}

    def scalar(self):
        rng = self.rng
        r = rng.random()
        if r < 0.35:
            return {"t": "str", "s": text(rng)}
        if r < 0.6:
            return {"t": "num", "s": strings.num(rng, False)}
        if r < 0.75:
            return {"t": "jx", "s": rng.choice(JSEXPR)[0]}
        return {"t": rng.choice(["none", "true", "false"])}

    def prop(self, d, inlist=False):
        rng = self.rng
        self.budget -= 0.4
        r = rng.random()
        if rng.random() < 0.008:
            n = min(300, strings.sizes(rng, 300))
            if rng.random() < 0.6:
                vs = [self.scalar() for _ in range(rng.choice([1, 2, 5, n]))]
                return {"t": rng.choice(["list", "list", "tuple", "sublist"]), "items": [rng.choice(vs) for _ in range(n)]}
            return {"t": "dict", "items": [["k%d" % j if rng.random() < 0.7 else propname(rng) + str(j), self.scalar()] for j in range(n)]}
        if r < 0.5 or self.budget <= 0 or d > self.maxd + 2:
            return self.scalar()
        if r < 0.62:
            return {"t": rng.choice(["list", "list", "tuple", "sublist"]), "items": [self.prop(d + 1, True) for _ in range(rng.choice([0, 1, 2, 3]))]}
        if r < 0.74:
            keys = rng.sample(["a", "b", "style", "class_", "x y", "a-b", "a\"b", "é", "1", "", "None", "data_foo", "default"], rng.choice([0, 1, 2, 3]))
            items = [[k, self.prop(d + 1, True)] for k in keys]
            if items and rng.random() < 0.1:
                items[0][0] = 7
            return {"t": "dict", "items": items}
        tfy = self.w["tfy"]
        if inlist:
            self.w["tfy"] = 0
        q = rng.random()
        if q < 0.4:
            n = self.comp(d)
        elif q < 0.85 or not self.w["tfy"]:
            n = self.tag(d)
        else:
            n = self.mk_tfy(d, ("tag", "str"))
        self.w["tfy"] = tfy
        return {"t": "node", "n": n}

    def kids(self, d):
        rng = self.rng
        if d > self.maxd:
            return []
        n = rng.choice([0, 1, 1, 2, 3, 4, 6]) if rng.random() < 0.98 else min(150, strings.sizes(rng, 150))
        if self.maxd >= 40 and d < self.maxd:
            n = max(1, min(n, 2))
            self.budget = max(self.budget, 1) if d < 30 else self.budget
        out = []
        lead = n >= 4 and rng.random() < 0.3      # several leaves before anything else
        for j in range(n):
            if lead and j < n - 1:
                out.append({"k": "text", "s": text(rng, 20)} if rng.random() < 0.7 else {"k": "none"})
                continue
            if self.budget <= 0:
                break
            out.append(self.node(d))
        again = [c for c in out if c["k"] in ("jsx", "tag", "dep", "meta", "tfy")]
        if again and rng.random() < 0.07:         # the same object once more, under the same parent
            c = rng.choice(again)
            if "share" not in c:
                self.nshare += 1
                c["share"] = self.nshare
            out.insert(rng.randrange(len(out) + 1), c)
        return out

    def node(self, d):
        rng = self.rng
        self.budget -= 1
        if self.pool and rng.random() < 0.1:
            c = rng.choice(self.pool)
            if self.w["tfy"] or not any(x["k"] == "tfy" for x in walk(c)):
                return c
        k = rng.choices(list(self.w), [w for w in self.w.values()])[0] if any(self.w.values()) else "text"
        if k == "jsx":
            t = self.comp(d)
        elif k == "tag":
            t = self.tag(d)
        elif k == "text":
            t = {"k": "text", "s": text(rng)}
            if rng.random() < 0.05:
                t["sub"] = 1
        elif k == "num":
            t = {"k": "num", "s": strings.num(rng, False)}
        elif k == "jx":
            t = {"k": "jx", "s": rng.choice(["1 + 1", "x => y", "'s'"])}
        elif k == "meta":
            self.nmeta += 1
            t = {"k": "meta", "l": self.nmeta}
            if rng.random() < 0.3:
                t["odd"] = 1
        elif k == "dep":
            t = {"k": "dep", "name": rng.choice(["a", "b", "c", "react", "react-dom", "jquery", "reactx"]), "ver": rng.choice(["1.0", "1.9", "1.10", "99.0"])}
            if rng.random() < 0.5:
                t["src"] = {"href": "u"}
                t["script"] = [{"src": "f.js"}]
            if rng.random() < 0.2:
                t["head"] = {"s": "<t>"}
        elif k == "tfy":
            t = self.mk_tfy(d, ("list", "list", "tag", "str", "dep"))
        elif k == "nest":
            t = {"k": "nest", "t": rng.choice(["list", "tuple", "taglist"]), "c": [self.node(d) for _ in range(rng.choice([0, 1, 2]))]}
        else:
            t = {"k": "none"}
        if k in ("jsx", "tag", "dep", "meta", "tfy") and rng.random() < 0.1:
            self.nshare += 1
            t["share"] = self.nshare
            self.pool.append(t)
        return t

    def mk_tfy(self, d, modes):
        rng = self.rng
        m = rng.choice(modes)
        t = {"k": "tfy", "m": m, "stored": int(rng.random() < 0.4), "done": int(rng.random() < 0.3), "busy": int(rng.random() < 0.08), "c": []}
        if m == "list":
            t["c"] = [self.node(d + 1) for _ in range(rng.choice([0, 1, 2, 3]))]
            if t["c"] and rng.random() < 0.02:
                m = rng.choice([9, 17, 33, 65, 70, 130, 260, 520])
                t["c"] = t["c"] + [{"k": "text", "s": "n%d" % j} for j in range(m)] + [self.node(d + 2)]
        elif m == "tag":
            t["c"] = [self.tag(d + 1) if rng.random() < 0.6 else self.comp(d + 1)]
        elif m == "str":
            t["c"] = [{"k": "text", "s": text(rng, 50)}]
        else:
            self.nmeta += 1
            t["c"] = [{"k": "dep", "name": "t%d" % rng.randrange(3), "ver": "1.0"}]
        if any(x["k"] in ("jsx",) for x in walk(t)):
            t["done"] = 0
        return t


def walk(n):
    yield n
    for c in n.get("c", ()):
        yield from walk(c)
    if n["k"] == "jsx":
        for _, v in n["a"]:
            yield from walk_pv(v)


def walk_pv(v):
    if v["t"] == "node":
        yield from walk(v["n"])
    elif v["t"] in ("list", "tuple", "sublist"):
        for x in v["items"]:
            yield from walk_pv(x)
    elif v["t"] == "dict":
        for _, x in v["items"]:
            yield from walk_pv(x)


# ------------------------------------------------------------------ building
def busy():
    """Unrelated conversions, in the middle of one."""
    from htmltools import _jsx

    spec.disturb()
    f = _jsx.jsx_tag_create("Disturb")
    str(f("d", spec.H().Tag("b", "e", style="a:b"), f(q=[1, spec.H().Tag("i")], style={"d": 1}), p={"a": None}, r=f("x"), s="d"))


class Expander:
    """tagify() gives raw content: fresh each time, or always the same stored object."""

    def __init__(self, n, ctx):
        self.spec, self.ctx, self.stored, self.calls = n, ctx, None, 0
        if n.get("stored"):
            self.stored = self.make()

    def make(self):
        n = self.spec
        sub = spec.Ctx()
        if n["m"] == "list":
            x = spec.H().TagList(*[build(c, sub) for c in n["c"]])
        else:
            if not n["c"]:
                raise spec.Skip()
            x = build(n["c"][0], sub)
        if n.get("done") and hasattr(x, "tagify"):
            x = x.tagify()
        return x

    def tagify(self):
        self.calls += 1
        if self.spec.get("busy"):
            busy()
        return self.stored if self.stored is not None else self.make()


class SubL(list):
    pass


def build_pv(v, ctx):
    t = v["t"]
    if t in ("none", "true", "false"):
        return {"none": None, "true": True, "false": False}[t]
    if t in ("str", "style"):
        return v["s"]
    if t == "num":
        return strings.mknum(v["s"])
    if t == "jx":
        from htmltools._jsx import jsx

        return jsx(v["s"])
    if t == "node":
        return build(v["n"], ctx)
    if t == "dict":
        return {k: build_pv(x, ctx) for k, x in v["items"]}
    xs = [build_pv(x, ctx) for x in v["items"]]
    return {"list": list, "tuple": tuple, "sublist": SubL}[t](xs)


def build(n, ctx):
    s = n.get("share")
    if s is not None and s in ctx.shared:
        return ctx.shared[s]
    x = _build(n, ctx)
    if s is not None:
        ctx.shared[s] = x
    if n["k"] in ("tag", "jsx"):
        ctx.objs[id(n)] = x
    return x


def editable(n, ctx):
    """Tags and components of the tree that are not shared, props included."""
    if "share" in n or n["k"] not in ("tag", "jsx", "nest"):
        return
    if id(n) in ctx.objs:
        yield n
    for c in n["c"]:
        yield from editable(c, ctx)
    if n["k"] == "jsx":
        for _, v in n["a"]:
            yield from editable_pv(v, ctx)


def editable_pv(v, ctx):
    if v["t"] == "node":
        yield from editable(v["n"], ctx)
    elif v["t"] in ("list", "tuple", "sublist"):
        for x in v["items"]:
            yield from editable_pv(x, ctx)
    elif v["t"] == "dict":
        for _, x in v["items"]:
            yield from editable_pv(x, ctx)


def edit(rng, root, ctx):
    """Change one tag or component of the tree in place, and its spec."""
    ns = list(editable(root, ctx))
    if not ns:
        return False
    n = rng.choice(ns)
    x = ctx.objs[id(n)]
    new = rng.choice([{"k": "text", "s": "late"}, {"k": "tag", "n": "i", "ws": True, "a": [], "c": []}, {"k": "dep", "name": "late", "ver": "1"},
                      {"k": "jsx", "n": "Late", "a": [], "c": [{"k": "text", "s": "y"}]}])
    r = rng.randrange(6)
    if r < 2:
        x.append(build(new, ctx))
        n["c"].append(new)
    elif r == 2:
        x.children.insert(0, build(new, ctx))
        n["c"].insert(0, new)
    elif r == 3 and n["c"]:
        x.children.clear()
        n["c"][:] = []
    else:
        v = str(rng.randrange(100))
        x.attrs["late"] = v
        for it in n["a"]:
            if it[0] == "late":
                it[1] = {"t": "str", "s": v}
                break
        else:
            n["a"].append(["late", {"t": "str", "s": v}])
    return True


def _build(n, ctx):
    ht = spec.H()
    k = n["k"]
    if k == "jx":
        from htmltools._jsx import jsx

        return jsx(n["s"])
    if k == "meta":
        c = meta_class()
        return (c.odd if n.get("odd") else c)(n["l"])
    if k == "tfy":
        return Expander(n, ctx)
    if k == "tag":
        return ht.Tag(n["n"], *[build(c, ctx) for c in n["c"]], _add_ws=n["ws"], **{a: spec.val(v) for a, v in n["a"]})
    if k == "nest":
        kids = [build(c, ctx) for c in n["c"]]
        return {"list": list, "tuple": tuple, "taglist": lambda x: ht.TagList(*x)}[n["t"]](kids)
    if k == "jsx":
        return build_comp(n, ctx)
    return spec._build(n, ctx)


def build_comp(n, ctx):
    from htmltools._jsx import JSXTag, jsx_tag_create

    ht = spec.H()
    kids = [build(c, ctx) for c in n["c"]]
    props = [(a, build_pv(v, ctx)) for a, v in n["a"]]
    h = n.get("h", 0)
    if not h:
        return JSXTag(n["n"], *kids, **dict(props))
    r = random.Random(h)
    make = jsx_tag_create(n["n"]) if r.random() < 0.5 else (lambda *a, **k: JSXTag(n["n"], *a, **k))
    cut, pcut = r.randrange(len(kids) + 1), r.randrange(len(props) + 1)
    c = make(*kids[:cut], **dict(props[:pcut]))
    if r.random() < 0.2:
        look(c)
    rest = kids[cut:]
    mode = r.randrange(8)
    if mode == 0:
        for x in rest:
            c.append(x)
    elif mode == 1:
        c.extend(rest)
    elif mode == 2 and rest:
        c.append(*rest)
    elif mode == 3:
        at = len(c.children)
        for x in reversed(rest):
            c.children.insert(at, x)
    elif mode == 4:
        c.children += rest
    elif mode == 5:
        c.children.extend(tuple(rest))
    elif mode == 6:
        c.children = c.children + rest
    elif rest:
        c.append(rest)
    for a, v in props[pcut:]:
        q = r.randrange(3)
        if q == 0:
            c.attrs[a] = v
        elif q == 1:
            c.attrs.update({a: v})
        else:
            c.attrs.update(**{a: v})
    if r.random() < 0.15:
        look(c)
    return c


def look(c):
    """A conversion in the middle of the construction."""
    c.tagify()
    str(c)


# ------------------------------------------------------------------ expectation
def exp_pv(v, name=None):
    """A description of the JavaScript value."""
    t = v["t"]
    if name == "style":
        if t == "none":
            return ("style0",)
        if t == "style" or t == "str":
            out = []
            for d in v["s"].split(";"):
                if ":" in d:
                    k, x = d.split(":", 1)
                    out.append((k.strip(), ("sstr", x.strip())))
            return ("dict", out, True)
    if t in ("str", "style"):
        return ("str", v["s"])
    if t in ("none", "true", "false"):
        return ("lit", {"none": "null", "true": "true", "false": "false"}[t])
    if t == "num":
        n = strings.mknum(v["s"])
        if isinstance(n, bool):
            return ("lit", "true" if n else "false")
        return ("num", n)
    if t == "jx":
        return ("raw", v["s"])
    if t == "dict":
        return ("dict", [(str(k), exp_pv(x)) for k, x in v["items"]], name == "style")
    if t == "node":
        xs = exp_node(v["n"])
        return xs[0] if len(xs) == 1 else ("?",)
    return ("list", [exp_pv(x) for x in v["items"]])


def exp_node(n):
    """The createElement arguments this child contributes."""
    k = n["k"]
    if k == "text" or k == "jx":
        return [("str", n["s"])]
    if k == "num":
        return [("str", str(strings.mknum(n["s"])))]
    if k in ("meta", "dep", "none"):
        return []
    if k in ("nest", "tfy"):
        return [x for c in n["c"] for x in exp_node(c)]
    kids = [x for c in n["c"] for x in exp_node(c)]
    if k == "jsx":
        props = {}
        for a, v in n["a"]:
            nm = attrmodel.norm_name(a)
            props.pop(nm, None)
            props[nm] = exp_pv(v, nm)
        return [("el", "comp", n["n"], props, kids)]
    props = {}
    for nm, segs in attrmodel.merge(attrmodel.pairs_of(n["a"])).items():
        s = "".join(x for _, x in segs)
        props[nm] = exp_pv({"t": "style", "s": s}, "style") if nm == "style" else ("str", s)
    return [("el", "tag", n["n"], props, kids)]


def final_props(n):
    """Props by normalised name: the last given wins."""
    out = {}
    for a, v in n["a"]:
        out[attrmodel.norm_name(a)] = v
    return out.values()


def metas(n, must=True, out=None):
    """[(spec, must be surfaced)] of the metadata nodes reachable from the component."""
    out = [] if out is None else out
    k = n["k"]
    if k in ("meta", "dep"):
        out.append((n, must))
    for c in n.get("c", ()):
        metas(c, must, out)
    if k == "jsx":
        for v in final_props(n):
            if v["t"] == "node":
                metas(v["n"], must, out)
            else:
                for x in walk_pv(v):
                    if x["k"] in ("meta", "dep"):
                        out.append((x, False))
    return out
