"""C07: metadata nodes leave no trace in the markup."""
import copy
import functools
import itertools
import json

from .. import model, shapes, spec, strings
from ..core import Stream, Violation
from . import c05

ID = "C07"
CONCURRENT = 150
RULE = ("the same tree with and without metadata nodes (plain, subclassed, dependencies with heads) at random and at all "
        "single positions, incl. inside expansions and nested lists, must render to the identical string under every entry "
        "point and indent/eol; the dependency list must be exactly the inserted dependencies, resolved; non-trivial: at least "
        "one metadata node inserted, distinct by (tree, positions)")
ASSUMPTIONS = ["metadata nodes are MetadataNode objects without a tagify() of their own"]
MIN_EVENTS = {"pairs_compared": 5000, "metadata_nodes_inserted": 5000, "dependency_lists_compared": 3000}


def metas(rng):
    r = rng.random()
    if r < 0.4:
        return {"k": "meta"}
    if r < 0.5:
        return {"k": "meta", "sub": rng.choice([1, 2])}
    d = spec.gen_dep(rng)
    if rng.random() < 0.1:
        d["sub"] = 2
    return d


def g_random(i, rng):
    t = spec.gen_tree(rng, w=dict(meta=0, dep=0, tfy=0.6, repr=2, html=2, text=8), max_text=100)
    return {"tree": t, "seed": rng.randrange(1 << 30), "p": rng.choice([0.05, 0.2, 0.5, 1.0]),
            "indent": rng.choice([0, 0, 1, 3]), "eol": rng.choice(c05.EOLS)}


_F = {}


def forest():
    if "f" not in _F:
        leaves = [shapes.T("x"), {"k": "html", "s": "&"}, {"k": "repr", "s": "R"}, shapes.T("")]
        tags = [("div", True), ("b", False), ("br", False), ("hr", True)]
        _F["f"] = shapes.forests(leaves, tags)
    return _F["f"]


def g_forest(i, rng):
    """All positions, one after another, of a small forest."""
    f = forest()[i]
    return {"tree": {"k": "list", "c": f, "h": 0}, "all": 1, "indent": i % 2, "eol": c05.EOLS[i % len(c05.EOLS)],
            "seed": i}


def streams(tier):
    q = tier == "quick"
    n = len(forest())
    return [Stream("random", 6000 if q else 300000, g_random),
            Stream("forest", min(n, 1200) if q else n, (lambda i, rng: g_forest((i * 7919) % n, rng)) if q else g_forest)]


@functools.lru_cache(None)
def shown_meta():
    class Shown(spec.H().MetadataNode):
        """Has a representation of its own, for notebooks."""

        def _repr_html_(self):
            return "<META>"

    return Shown


class SubMeta:
    cls = None


def sub_meta(kind=1):
    ht = spec.H()
    if kind == 2:
        return shown_meta()()
    if SubMeta.cls is None or not issubclass(SubMeta.cls, ht.MetadataNode):
        class MyMeta(ht.MetadataNode):
            def __init__(self):
                self.payload = ["<b>&"]

            def __str__(self):
                return "<META>"
        SubMeta.cls = MyMeta
    return SubMeta.cls()


def insert_at(tree, where, node):
    """where: path of child lists indices."""
    t = json.loads(json.dumps(tree))
    x = t
    for i in where[:-1]:
        x = x["c"][i]
    x["c"].insert(where[-1], node)
    return t


def positions(tree, pre=()):
    if tree["k"] in ("tag", "list", "nest") or tree["k"] == "tfy" and tree["m"] == "list":
        for i in range(len(tree["c"]) + 1):
            yield pre + (i,)
    for i, c in enumerate(tree.get("c", ())):
        yield from positions(c, pre + (i,))


def unshare(t):
    t = json.loads(json.dumps(t))
    for n in spec.iter_nodes([t]):
        n.pop("share", None)
    return t


def outputs(x, ht, ind, eol):
    y = x.tagify()
    o = {"tagify().get_html_string()": y.get_html_string(ind, eol), "render()": x.render()["html"], "str()": str(x),
         "repr()": repr(x), "_repr_html_()": x._repr_html_(), "nested": ht.Tag("u", "a", x, "b").render()["html"],
         "nested inline": ht.Tag("u", x, x, _add_ws=False).tagify().get_html_string(2)}
    if isinstance(x, ht.TagList):
        o["add_ws=False"] = y.get_html_string(ind, eol, add_ws=False)
    return o


def build(tree):
    real = spec._build
    return spec.build(tree, spec.Ctx())


def dep_view(d):
    return (d.name, str(d.version), json.dumps([d.source, d.script, d.stylesheet, d.meta, d.all_files], sort_keys=True),
            d.head.get_html_string() if d.head is not None else None)


def compare(base, tree, case, M, ht, base_out=None):
    x = build(tree)
    ind, eol = case["indent"], case["eol"]
    if base_out is None:
        base_out = outputs(build(base), ht, ind, eol)
    o = outputs(x, ht, ind, eol)
    for k in base_out:
        if o[k] != base_out[k]:
            raise Violation("trace", "%s differs when metadata is inserted\nwithout: %r\nwith:    %r" % (
                k, base_out[k][:500], o[k][:500]))
        M.ev("pairs_compared")
    want = model.resolve(model.collect_deps(model.norm([tree], True)))
    got = x.render()["dependencies"]
    if [dep_view(d) for d in got] != [dep_view(spec.build_dep(d)) for d in want]:
        raise Violation("dependencies", "reported %r, expected %r" % (got, [(d["name"], d["ver"]) for d in want]))
    M.ev("dependency_lists_compared")
    return base_out


def check(case, M):
    import random

    ht = spec.H()
    base = unshare(case["tree"])
    rng = random.Random(case["seed"])
    if case.get("all"):
        bo = None
        for p in positions(base):
            node = rng.choice([{"k": "meta"}, {"k": "meta", "sub": 1}, {"k": "meta", "sub": 2}, shapes.DEP, dict(shapes.DEP, sub=2)])
            t = insert_at(base, p, node)
            bo = compare(base, t, case, M, ht, bo)
            M.ev("metadata_nodes_inserted")
            M.distinct(base, p)
        return
    t = json.loads(json.dumps(base))
    n = 0

    def go(x):
        nonlocal n
        for c in x.get("c", ()):
            go(c)
        if x["k"] in ("tag", "list", "nest") or x["k"] == "tfy" and x["m"] == "list":
            out = []
            for c in x["c"] + [None]:
                while rng.random() < case["p"] * 0.7:
                    out.append(metas(rng))
                    n += 1
                if c is not None:
                    out.append(c)
            x["c"] = out

    go(t)
    M.ev("metadata_nodes_inserted", n)
    compare(base, t, case, M, ht)
    if n:
        M.distinct(t)
        M.sample({"rendered": str(build(t))[:300], "metadata_nodes": n})
