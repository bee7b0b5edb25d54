"""C08: rendering and tagify are pure; tagify returns an independent copy; equality."""
import copy
import json
import os
import random
import threading

from .. import core, model, shapes, snap as S, spec, strings
from ..core import Stream, Violation

ID = "C08"
CONCURRENT = 200
RULE = ("random object graphs (tags, lists, dependencies with heads, html/body/head roots, expanding and failing objects); "
        "snapshots of the whole graph before and after every read-only call in random interleavings, results of repeated "
        "calls compared; identity sets of tagify() results; random mutations of copy/original; equality on rebuilt and on "
        "minimally altered trees; non-trivial: graphs with 3+ nodes, distinct by (tree, operation order)")
ASSUMPTIONS = ["objects with tagify() return fresh, fully tagified content", "HTML-vs-str of equal text is "
               "not compared by the equality check", "metadata nodes compare by value where equality is checked"]
MIN_EVENTS = {"read_only_calls_observed": 5000, "independence_checks": 1000, "equal_pairs": 1000, "unequal_pairs": 1000,
              "mutations_after_tagify": 1000}


def worker_init(w):
    spec.ODD_EQ = False      # objects are compared here


class VMeta:
    cls = None


def vmeta(payload="p"):
    ht = spec.H()
    if VMeta.cls is None:
        class ValueMeta(ht.MetadataNode):
            def __init__(self, p):
                self.payload = [p]

            def __copy__(self):
                return ValueMeta(self.payload[0])

            def __eq__(self, o):
                return type(o) is ValueMeta and o.payload == self.payload
        VMeta.cls = ValueMeta
    return VMeta.cls(payload)


def dep_href(rng):
    d = spec.gen_dep(rng)
    if d.get("src") and "subdir" in d["src"]:
        d["src"] = {"href": "u"}
    return d


KW = dict(w=dict(dep=2.5, meta=0.5, tfy=1.0, html=1.5, repr=1), max_text=120)


def gen(rng, **k):
    kw = dict(KW)
    kw.update(k)
    t = spec.gen_tree(rng, depgen=dep_href, **kw)
    r = rng.random()
    if r < 0.25:
        t = docroot(rng, t)
    return t


def docroot(rng, t):
    kids = [t] if t["k"] == "tag" else t["c"]
    head = shapes.tag("head", True, [shapes.tag("title", True, [shapes.T("T")])] + ([dep_href(rng)] if rng.random() < 0.5 else []))
    body = shapes.tag("body", True, kids)
    r = rng.random()
    if r < 0.3:
        return body
    c = [body]
    if rng.random() < 0.6:
        c.insert(rng.randrange(2), head)
    if rng.random() < 0.4:
        c.insert(rng.randrange(len(c) + 1), dep_href(rng))
    return shapes.tag("html", True, c, [["lang", {"t": "str", "s": "en"}]] if rng.random() < 0.5 else [])


OPS = ["tagify", "render", "str", "repr", "_repr_html_", "html", "html3", "deps", "deps_nodedup", "copy", "doc.render",
       "doc.render2", "doc.save", "eq_self", "save", "fresh_doc", "kids", "depcalls", "doc.copy"]


def g_pure(i, rng):
    return {"t": "pure", "tree": gen(rng), "ops": [rng.choice(OPS) for _ in range(rng.choice([3, 5, 8, 12]))] , "seed": rng.randrange(1 << 30),
            "kw": [["lang", {"t": "str", "s": "fr"}], ["class", {"t": "str", "s": "k"}]][:rng.randrange(3)],
            "fault": rng.choice([None, None, None, "tagify", "repr"])}


def g_indep(i, rng):
    return {"t": "indep", "tree": gen(rng), "seed": rng.randrange(1 << 30), "n": rng.choice([1, 1, 2, 4])}


def g_eq(i, rng):
    return {"t": "eq", "tree": gen(rng, w=dict(dep=2.5, meta=0, tfy=0, html=1.5, repr=0.7)), "seed": rng.randrange(1 << 30)}


def g_dep(i, rng):
    d = spec.gen_dep(rng)
    return {"t": "dep", "dep": d, "ops": [rng.choice(DEPOPS) for _ in range(6)], "seed": rng.randrange(1 << 30)}


def streams(tier):
    q = tier == "quick"
    return [Stream("purity", 6000 if q else 300000, g_pure),
            Stream("independence", 6000 if q else 300000, g_indep),
            Stream("equality", 6000 if q else 300000, g_eq),
            Stream("dependency", 4000 if q else 150000, g_dep)]


class Fault(Exception):
    pass


class FaultTfy:
    def __init__(self):
        self.on = False

    def tagify(self):
        if self.on:
            raise Fault("tagify")
        return spec.H().Tag("ins", "ok")


class FaultRepr:
    def __init__(self):
        self.on = False

    def _repr_html_(self):
        if self.on:
            raise Fault("repr")
        return "<ins>ok</ins>"


DEPOPS = ["as_html_tags", "as_html_tags2", "as_dict", "as_dict2", "spm", "spm2", "ser", "ser2", "str", "repr", "copy", "eq"]


def depcall(d, op):
    if op == "as_html_tags":
        return S.snap(d.as_html_tags())
    if op == "as_html_tags2":
        return S.snap(d.as_html_tags(lib_prefix=None, include_version=False))
    if op == "as_dict":
        return S.dumps(d.as_dict())
    if op == "as_dict2":
        return S.dumps(d.as_dict(lib_prefix="p/q", include_version=False))
    if op == "spm":
        return S.dumps(d.source_path_map())
    if op == "spm2":
        return S.dumps(d.source_path_map(lib_prefix=None, include_version=False))
    if op == "ser":
        return S.snap(d.serialize_to_script_json())
    if op == "ser2":
        return str(d.serialize_to_script_json(indent=2))
    if op == "str":
        return str(d)
    if op == "repr":
        return repr(d)
    if op == "copy":
        return S.snap(copy.copy(d))
    if op == "eq":
        return d == d
    raise KeyError(op)


def check(case, M):
    ht = spec.H()
    t = case["t"]
    if t == "dep":
        return check_dep(ht, case, M)
    if t == "pure":
        return check_pure(ht, case, M)
    if t == "indep":
        return check_indep(ht, case, M)
    return check_eq(ht, case, M)


def check_dep(ht, case, M):
    d = spec.build_dep(case["dep"])
    before = S.snap(d)
    seen = {}
    for op in case["ops"] + case["ops"][:3]:
        r = depcall(d, op)
        M.ev("read_only_calls_observed")
        now = S.snap(d)
        if now != before:
            raise Violation("purity", "HTMLDependency.%s altered the dependency: %s" % (op, S.diff(before, now)))
        if op in seen and seen[op] != r:
            raise Violation("repeat", "HTMLDependency.%s gave a different result: %r then %r" % (op, S.short(seen[op]), S.short(r)))
        seen[op] = r
    # a tree's copy of the dependency, and copy.copy() itself
    x = ht.Tag("div", d)
    y = x.tagify()
    e = y.children[0]
    independent(x, y, M, "dependency in a tree")
    rng = random.Random(case["seed"])
    mutate_dep(e, rng, ht)
    if S.snap(d) != before:
        raise Violation("independence", "altering the tagified copy of a dependency changed the original: %s" % S.diff(before, S.snap(d)))
    if not (d == spec.build_dep(case["dep"])) or d != spec.build_dep(case["dep"]):
        raise Violation("equality", "a dependency is not equal to an identical one: %r" % case["dep"])
    M.ev("equal_pairs")
    M.distinct(case["dep"], case["ops"])


def mutate_dep(d, rng, ht):
    for k in rng.sample(range(7), 3):
        if k == 0:
            d.script.append({"src": "MUT.js"})
        elif k == 1:
            for it in d.script + d.stylesheet + d.meta:
                it["mut"] = "MUT"
        elif k == 2:
            if d.source is not None:
                d.source["mut"] = "MUT"
        elif k == 3:
            if d.head is not None:
                d.head.append("MUT")
                for c in d.head:
                    if isinstance(c, ht.Tag):
                        c.attrs["mut"] = "MUT"
                        c.append("MUT")
        elif k == 4:
            d.meta.append({"name": "MUT", "content": "MUT"})
        elif k == 5:
            d.stylesheet[:] = []
        else:
            d.name = "MUT"
            d.all_files = not d.all_files


def norm_result(r):
    return r


def check_pure(ht, case, M):
    rng = random.Random(case["seed"])
    ctx = spec.Ctx()
    x = spec.build(case["tree"], ctx)
    fault = None
    if case["fault"]:
        fault = FaultTfy() if case["fault"] == "tagify" else FaultRepr()
        tags = list(walk_tags(x, ht))
        host = rng.choice(tags).children if tags else None
        if host is None or isinstance(x, ht.TagList) and rng.random() < 0.3:
            host = x if isinstance(x, ht.TagList) else x.children
        host.insert(rng.randrange(len(host) + 1), fault)
    kw = {n: spec.val(v) for n, v in case["kw"]}
    doc = ht.HTMLDocument(x, **kw)
    roots = [x, kw]
    before = S.snap(roots)
    seen = {}
    d = os.path.join(core.SCRATCH, "c08-%d-%d" % (os.getpid(), threading.get_ident()))
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "o.html")

    def once(op):
        if op == "tagify":
            return S.snap(strip_ids(x.tagify()))
        if op == "render":
            r = x.render()
            return r["html"], S.snap(r["dependencies"])
        if op == "str":
            return str(x)
        if op == "repr":
            return repr(x)
        if op == "_repr_html_":
            return x._repr_html_()
        if op == "html":
            return x.get_html_string()
        if op == "html3":
            return x.get_html_string(3, "\r\n")
        if op == "deps":
            return S.snap(x.get_dependencies())
        if op == "deps_nodedup":
            return S.snap(x.get_dependencies(dedup=False))
        if op == "copy":
            return S.snap(copy.copy(x))
        if op == "doc.render":
            r = doc.render()
            return r["html"], S.snap(r["dependencies"])
        if op == "doc.render2":
            r = doc.render(lib_prefix=None, include_version=False)
            return r["html"], S.snap(r["dependencies"])
        if op == "doc.save":
            doc.save_html(f, libdir="L")
            with open(f, newline="") as h:
                return h.read()
        if op == "save":
            x.save_html(f)
            with open(f, newline="") as h:
                return h.read()
        if op == "fresh_doc":
            r = ht.HTMLDocument(x, **kw).render()
            return r["html"], S.snap(r["dependencies"])
        if op == "doc.copy":
            r = copy.copy(doc).render()
            return r["html"], S.snap(r["dependencies"])
        if op == "eq_self":
            return (x == x, x == copy.copy(x), x == "s", x == None)
        if op == "kids":
            o = []
            for c in (x if isinstance(x, ht.TagList) else x.children):
                if isinstance(c, (ht.Tag,)):
                    o.append(c.render()["html"])
            return o
        if op == "depcalls":
            o = []
            for q in x.get_dependencies(dedup=False):
                o.append([depcall(q, p) for p in ("as_html_tags", "as_dict", "ser", "spm")])
            return o
        raise KeyError(op)

    unpure = 0
    for k, op in enumerate(case["ops"] + case["ops"][:4]):
        if fault is not None:
            fault.on = rng.random() < 0.4
        try:
            r = once(op)
            failed = False
        except Fault:
            failed = True
        except RuntimeError as e:
            # markup was asked from a tree with un-expanded objects
            if op not in ("html", "html3") or not any(n["k"] == "tfy" for n in spec.iter_nodes([case["tree"]])) and not fault:
                raise
            r, failed = ("RuntimeError",), False
        M.ev("read_only_calls_observed")
        if failed:
            M.ev("read_only_calls_that_raised")
        now = S.snap(roots)
        if now != before:
            raise Violation("purity", "%s%s altered its receiver: %s" % (op, " (raising)" if failed else "", S.diff(before, now)))
        if failed or fault is not None and fault.on:
            continue
        key = {"repr": "str", "_repr_html_": "str", "fresh_doc": "doc.render", "doc.copy": "doc.render"}.get(op, op)
        if key in seen and seen[key] != r:
            raise Violation("repeat", "%s gave a different result than before: %s" % (op, S.diff(seen[key], r) or (S.short(seen[key]), S.short(r))))
        seen[key] = r
        if key == "render":
            if seen.setdefault("str", r[0]) != r[0]:
                raise Violation("consistency", "str() and render()['html'] differ: %r / %r" % (seen["str"][:300], r[0][:300]))
    if fault is not None:
        fault.on = False
    a = (str(x), repr(x), x._repr_html_(), x.render()["html"])
    if len(set(a)) != 1:
        raise Violation("consistency", "str/repr/_repr_html_/render differ: %r" % (a,))
    M.distinct(case["tree"], case["ops"])
    M.sample({"ops": case["ops"], "rendered": a[0][:200]})


def walk_tags(x, ht):
    if isinstance(x, ht.Tag):
        yield x
        x = x.children
    if isinstance(x, ht.TagList):
        for c in x:
            yield from walk_tags(c, ht)


def strip_ids(x):
    return x


def independent(x, y, M, label):
    a, b = S.objects(x), S.objects(y)
    both = set(a) & set(b)
    if both:
        k = sorted(both, key=lambda i: a[i])[0]
        raise Violation("sharing", "%s: tagify() shares %s with the original (as %s)" % (label, a[k], b[k]))
    M.ev("independence_checks")
    M.ev("objects_compared", len(a) + len(b))


def check_indep(ht, case, M):
    rng = random.Random(case["seed"])
    tree = case["tree"]
    x = spec.build(tree, spec.Ctx())
    extra = None
    if isinstance(x, ht.Tag) and rng.random() < 0.3:
        extra = vmeta()
        x.insert(rng.randrange(len(x.children) + 1), extra)
    before = S.snap(x)
    y = x.tagify()
    if S.snap(x) != before:
        raise Violation("purity", "tagify() altered its receiver: %s" % S.diff(before, S.snap(x)))
    independent(x, y, M, "tree")
    has_tfy = any(n["k"] == "tfy" for n in nodes_deep(tree))
    ysnap = S.snap(y)
    if not has_tfy:
        if ysnap != before:
            raise Violation("tagify", "nothing needed expansion, but tagify() gave a different tree: %s" % S.diff(before, ysnap))
        if not any(n["k"] == "meta" for n in spec.iter_nodes([tree])) and not (y == x and x == y):
            raise Violation("tagify", "tagify() result is not equal to the original")
    z = y.tagify()
    if S.snap(z) != ysnap:
        raise Violation("tagify", "tagify() is not a fixed point: %s" % S.diff(ysnap, S.snap(z)))
    if not any(n["k"] == "meta" for n in nodes_deep(tree)) and not (z == y and y == z):
        raise Violation("tagify", "y.tagify() == y is false for a tagified y")
    M.ev("fixed_points")
    independent(y, z, M, "second tagify")
    xs, ys = (str(x), str(y))
    if xs != ys:
        raise Violation("tagify", "str() of the tagify() result differs: %r / %r" % (xs[:400], ys[:400]))
    # mutate one, watch the other
    for k in range(case["n"]):
        if rng.random() < 0.5:
            mutate(y, rng, ht)
            M.ev("mutations_after_tagify")
            if S.snap(x) != before or str(x) != xs:
                raise Violation("independence", "altering the tagify() result changed the original: %s" % (
                    S.diff(before, S.snap(x)) or (xs[:300], str(x)[:300])))
        else:
            w = x.tagify()
            ws, wr = S.snap(w), str(w)
            mutate(x, rng, ht)
            M.ev("mutations_after_tagify")
            if S.snap(w) != ws or str(w) != wr:
                raise Violation("independence", "altering the original changed an earlier tagify() result: %s" % (
                    S.diff(ws, S.snap(w)) or (wr[:300], str(w)[:300])))
            before, xs = S.snap(x), str(x)
    M.distinct(tree, case["seed"])


def nodes_deep(tree):
    for n in spec.iter_nodes([tree]):
        yield n
        h = n.get("head") if n["k"] == "dep" else None
        if h and "nodes" in h:
            for c in h["nodes"]:
                yield from nodes_deep(c)


def mutate(x, rng, ht):
    tags = list(walk_tags(x, ht))
    lists = [t.children for t in tags] + ([x] if isinstance(x, ht.TagList) else [])
    deps = [c for l in lists for c in l if isinstance(c, ht.HTMLDependency)]
    k = rng.randrange(8)
    if k == 0 and deps:
        return mutate_dep(rng.choice(deps), rng, ht)
    if k in (1, 2, 3) and tags:
        t = rng.choice(tags)
        if k == 1:
            t.attrs["mut"] = "MUT"
            t.attrs.update(id="MUT")
        elif k == 2:
            t.add_class("MUT").add_style("mut:1;")
            t.remove_class("k")
        else:
            t.name = t.name + "x"
            t.attrs.clear()
        return
    if lists:
        l = rng.choice(lists)
        if k == 4:
            l.append("MUT", ht.Tag("mut"))
        elif k == 5:
            l.insert(0, ["MUT"])
        elif k == 6 and len(l):
            l.pop(rng.randrange(len(l)))
        elif k == 7 and len(l):
            l.reverse()
            l.extend(["MUT"])
        else:
            l += ["MUT"]


# ------------------------------------------------------------------ equality
def alter(tree, rng):
    """(altered tree, description) differing in exactly one respect, or None."""
    t = json.loads(json.dumps(tree))
    for n in spec.iter_nodes([t]):
        n.pop("share", None)
    cands = []

    def nodes(lst):
        for i, n in enumerate(lst):
            cands.append((lst, i))
            nodes(n.get("c", []))

    box = [t]
    nodes(box)
    rng.shuffle(cands)
    for lst, i in cands:
        n = lst[i]
        k = n["k"]
        r = rng.random()
        if k == "tag":
            vis = [a for a in n["a"] if a[1]["t"] not in ("none", "false")]
            if r < 0.15:
                n["n"] += "x"
                return t, "tag name"
            if r < 0.3:
                n["ws"] = not n["ws"]
                return t, "whitespace flag"
            if r < 0.45:
                n["a"].append(["data-zz", {"t": "str", "s": ""}])
                return t, "an added attribute"
            if r < 0.6 and vis:
                n["a"].remove(rng.choice(vis))
                return t, "a removed attribute"
            if r < 0.75 and vis:
                a = rng.choice(vis)
                if a[1]["t"] in ("str", "html"):
                    a[1]["s"] = bump(a[1]["s"], rng)
                else:
                    a[1] = {"t": "str", "s": "QQ"}
                return t, "an attribute value"
            if r < 0.9:
                n["c"].insert(rng.randrange(len(n["c"]) + 1), rng.choice([shapes.T(""), shapes.T("x"), shapes.tag("b", False, []), shapes.DEP]))
                return t, "an added child"
            real = [j for j, c in enumerate(n["c"]) if c["k"] in ("tag", "text", "html", "num", "dep", "repr")]
            if real:
                del n["c"][rng.choice(real)]
                return t, "a removed child"
        elif k in ("text", "html") and r < 0.7:
            n["s"] = bump(n["s"], rng)
            return t, "the text of a child"
        elif k == "text" and len(n["s"]) > 1 and r < 0.85 and lst is not box:
            lst[i:i + 1] = [shapes.T(n["s"][:1]), shapes.T(n["s"][1:])]
            return t, "text split into two children"
        elif k == "text" and lst is not box:
            lst[i] = shapes.tag("b", False, [n])
            return t, "a text wrapped in a tag"
        elif k == "dep":
            q = rng.randrange(8)
            if q == 0:
                n["name"] += "x"
            elif q == 1:
                n["ver"] = "77.7"
            elif q == 2:
                n["all"] = not n.get("all", False)
            elif q == 3:
                n["script"] = n.get("script", []) + [{"src": "zz.js"}]
            elif q == 4:
                n["meta"] = n.get("meta", []) + [{"name": "zz", "content": ""}]
            elif q == 5:
                n["src"] = {"href": "zz"}
            elif q == 6:
                n["css"] = [{"href": "zz.css"}] + n.get("css", [])
            else:
                n["head"] = {"s": "ZZ"}
            return t, "dependency field %d" % q
        elif k == "list" and r < 0.5:
            n["c"].append(shapes.T("x"))
            return t, "an added list item"
    return None


def bump(s, rng):
    r = rng.random()
    if r < 0.3:
        return s + " "
    if r < 0.6:
        return s + "x"
    if r < 0.8 and s and s.swapcase() != s:
        return s.swapcase()
    if s:
        return s[:-1] if r < 0.9 else "x" + s
    return "x"


def no_share(t):
    t = json.loads(json.dumps(t))
    for n in spec.iter_nodes([t]):
        n.pop("share", None)
    return t


def plain(t):
    t = no_share(t)
    for n in spec.iter_nodes([t]):
        if "h" in n:
            n["h"] = 0
    return t


def reshuffled(t, rng):
    """Other construction histories of the same tree, attributes given in another order."""
    t = no_share(t)
    for n in spec.iter_nodes([t]):
        if n.get("a") and rng.random() < 0.5:
            rng.shuffle(n["a"])
        if "h" in n:
            n["h"] = rng.randrange(1, 1 << 30)
    return t


def check_eq(ht, case, M):
    rng = random.Random(case["seed"])
    tree = case["tree"]
    x = spec.build(tree, spec.Ctx())
    for other in (plain(tree), reshuffled(tree, rng)):
        y = spec.build(other, spec.Ctx())
        if not (x == y) or not (y == x) or x != y or y != x:
            raise Violation("equality", "identically structured objects are not equal (==: %s/%s)\n%s" % (
                x == y, y == x, S.diff(S.snap(x), S.snap(y))))
        M.ev("equal_pairs")
    str(x)
    x.render()
    if not (x == y and y == x):
        raise Violation("equality", "equality changed after rendering")
    a = alter(tree, rng)
    if a:
        z = spec.build(a[0], spec.Ctx())
        if S.snap(z) != S.snap(x):
            if x == z or z == x or not (x != z):
                raise Violation("equality", "objects differing in %s compare equal: %s" % (a[1], S.diff(S.snap(x), S.snap(z))))
            M.ev("unequal_pairs")
            w = ht.Tag("div", x), ht.Tag("div", z)
            if w[0] == w[1]:
                raise Violation("equality", "parents of objects differing in %s compare equal" % a[1])
    kinds = [x, str(x), None, 0, [], {}, x.children if isinstance(x, ht.Tag) else ht.Tag("div", x), ht.HTML(str(x)),
             ht.HTMLDependency("d", "1"), ht.HTMLDocument(x)]
    if isinstance(x, ht.Tag):
        kinds.append(ht.TagList(x))
    for k in kinds[1:]:
        if x == k or k == x:
            raise Violation("equality", "%s equals an object of another kind: %r" % (type(x).__name__, type(k)))
        M.ev("unequal_pairs")
    M.distinct(tree, case["seed"])
