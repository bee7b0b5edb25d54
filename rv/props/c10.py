"""C10: dependencies are validated, collected in document order, resolved per name."""
import collections
import copy
import functools
import json
import random
import types

from .. import shapes, spec, strings
from ..core import Stream, Violation
from . import c07

ID = "C10"
CONCURRENT = 800
RULE = ("multisets of dependencies (names, PEP 440 versions, equal versions with different content) placed at random and in all "
        "short sequences into trees; the reported objects compared by identity with a shadow resolution, under dedup on/off, "
        "several tree shapes, after mutations of the tree; constructor inputs valid/invalid in one place; non-trivial: at least "
        "two dependencies sharing a name, or a rejected definition")
ASSUMPTIONS = ["release-only versions are ordered by an own numeric comparison, others by packaging.version.Version"]
MIN_EVENTS = {"resolutions_compared": 8000, "dedup_off_compared": 4000, "replaced_by_higher": 2000, "ties_seen": 2000,
              "rejections_observed": 1500, "single_vs_list": 500}

NAMES = ["a", "b", "A", "a-b", "a.b", "jquery", "é", "1", "a b", "headcontent_0", "react", "", "a1", "a10"]


@functools.lru_cache(None)
def names():
    hs = [s for s in strings.harvest()[0] if s.isidentifier() and len(s) < 20]
    return NAMES + hs


def version(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(["1.9", "1.10", "1.10.0", "1.9.0", "2", "10", "1.2", "1.12", "1.02", "1.2.0", "0.9", "0.10", "9", "9.9.9",
                           "1", "1.0", "1.0.0", "0", "0.0", "100", "99", "1.0.10", "1.0.9", "1.0.0.1"])
    if r < 0.75:
        return ".".join(str(rng.choice([0, 0, 1, 1, 2, 3, 9, 10, 11, 19, 20, 99, 100, 101, 2023, 12345678901234567890]))
                        for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5])))
    return rng.choice(spec.VERSIONS + ["1.0a2", "1.0a10", "1.0.dev1", "1.0.dev10", "1.0.post2", "1.0.post10", "1!0", "2!0.1",
                                       "1.0rc2", "1.0rc10", "1.0+a.2", "1.0+a.10", "1.0+1", "v1.0", "1.0-1", "1.0alpha"])


def vkey(v):
    """Own ordering for plain releases; None for the others."""
    parts = str(v).split(".")
    if all(p.isdigit() for p in parts):
        n = [int(p) for p in parts]
        while n and n[-1] == 0:
            n.pop()
        return n
    return None


def higher(a, b):
    ka, kb = vkey(a), vkey(b)
    if ka is not None and kb is not None:
        return ka > kb
    from packaging.version import Version

    return Version(str(a)) > Version(str(b))


def equalv(a, b):
    return not higher(a, b) and not higher(b, a)


def resolve(deps):
    """deps: [(name, version, uid)] -> winning entries in order."""
    best, order = {}, []
    for d in deps:
        if d[0] not in best:
            order.append(d[0])
            best[d[0]] = d
        elif higher(d[1], best[d[0]][1]):
            best[d[0]] = d
    return [best[n] for n in order]


def dep(i, name, ver, rng=None):
    d = {"k": "dep", "name": name, "ver": ver, "meta": [{"name": "uid", "content": str(i)}], "share": i}
    if rng is not None:
        r = rng.random()
        if r < 0.2:
            d["verobj"] = 1
        if r < 0.1 or r > 0.9:
            d["src"] = {"href": "u%d" % rng.randrange(3)}
            d["script"] = [{"src": "f.js"}]
        if 0.4 < r < 0.45:
            d["head"] = {"s": "<title>h</title>"}
        if 0.45 < r < 0.6:
            # nothing of this has a say in which one is kept
            f = spec.gen_dep(rng)
            for k in ("src", "script", "css", "all", "single", "mcls"):
                if k in f:
                    d[k] = f[k]
            d["meta"] = d["meta"] + [{"name": "n", "content": "x" * rng.randrange(3)} for _ in range(rng.randrange(3))]
    return d


def place(items, rng, tfy, depth=0):
    """A random nesting with the items in document order."""
    out, i = [], 0
    while i < len(items):
        r = rng.random()
        if r < 0.45 or depth > 5:
            out.append(items[i])
            i += 1
            continue
        j = min(len(items), i + rng.choice([0, 1, 1, 2, 2, 3, 5, 9]))
        kids = place(items[i:j], rng, tfy, depth + 1)
        i = j
        r = rng.random()
        if r < 0.55:
            out.append(shapes.tag(rng.choice(["div", "p", "span", "head", "body", "html", "script", "br", "ul", "title", "x-y"]),
                                  rng.random() < 0.6, kids))
        elif r < 0.85 or not tfy:
            out.append({"k": "nest", "t": rng.choice(["list", "tuple", "taglist"]), "c": kids})
        else:
            out.append({"k": "tfy", "m": "list", "c": kids})
        if rng.random() < 0.4:
            out.append(rng.choice([shapes.T("x"), {"k": "none"}, {"k": "meta"}, {"k": "html", "s": "<b>"}, shapes.tag("i", False, []),
                                   {"k": "num", "s": "3"}, {"k": "repr", "s": "r"}]))
    return out


def g_resolve(i, rng):
    nm = rng.sample(names(), min(len(names()), rng.choice([1, 2, 2, 3, 5]) if rng.random() < 0.9 else rng.choice([9, 12, 20, 50])))
    if rng.random() < 0.1:
        nm += [strings.derived(rng) for _ in range(rng.choice([1, 5, 20]))]
        nm = list(dict.fromkeys(nm))
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12] if len(nm) < 9 else [9, 15, 30, 60]) if rng.random() < 0.97 else min(400, strings.sizes(rng, 400))
    vs = [version(rng) for _ in range(rng.choice([1, 2, 3, 8]))]
    deps = []
    for j in range(n):
        if deps and rng.random() < 0.1:
            deps.append(rng.choice(deps))       # one object at several places
        else:
            deps.append(dep(j, rng.choice(nm), rng.choice(vs), rng))
    tfy = rng.random() < 0.3
    kids = place(deps, rng, tfy)
    t = {"k": "list", "c": kids, "h": rng.randrange(1 << 30) if rng.random() < 0.4 else 0}
    if rng.random() < 0.5:
        t = shapes.tag(rng.choice(["div", "span", "html", "body"]), rng.random() < 0.5, kids)
        t["h"] = rng.randrange(1 << 30) if rng.random() < 0.4 else 0
    return {"tree": t, "seed": rng.randrange(1 << 30)}


ALPHA = [(n, v) for n in "ab" for v in ("1.9", "1.10", "1.10.0")]
SEQS = [[]]
for _k in range(5):
    SEQS += [s + [x] for s in SEQS if len(s) == _k for x in ALPHA]


def g_seq(i, rng):
    items = [dep(j, n, v) for j, (n, v) in enumerate(SEQS[i % len(SEQS)])]
    kids = items if i % 3 == 0 else place(items, rng, False)
    return {"tree": {"k": "list", "c": kids, "h": 0}, "seed": i}


def g_history(i, rng):
    n = rng.choice([2, 3, 4, 6])
    deps = [dep(j, rng.choice("ab"), rng.choice(["1.9", "1.10", "1.10.0", "2"])) for j in range(n)]
    ops = []
    for j in range(rng.choice([3, 6, 10])):
        ops.append([rng.choice(["append", "insert", "del", "nest", "deps", "render", "ver", "name", "extend", "copyuse"]),
                    rng.randrange(1 << 16), rng.choice("ab"), rng.choice(["1.9", "1.10", "2.0", "1.11"])])
    return {"t": "history", "tree": shapes.tag("div", True, place(deps, rng, False)), "ops": ops, "n": n}


BADS = [["str", "f.js"], ["int", 5], ["true", 0], ["list", 0], ["tuple", 0], ["obj", 0], ["pairs", 0], ["float", 0], ["set", 0], ["proxy", 0], ["userdict", 0],
        ["chain", 0], ["items", 0], ["bytes", 0], ["duck", 0]]


def g_valid(i, rng):
    kind = rng.choice(["script", "css", "meta", "source", "ok", "ok"])
    d = spec.gen_dep(rng)
    d.setdefault("script", [])
    c = {"t": "valid", "dep": d, "kind": kind, "bad": None}
    if kind == "source":
        c["bad"] = rng.choice(BADS + [["dict", {}], ["dict", {"package": "htmltools"}], ["dict", {"src": "x"}], ["dict", {"HREF": "x"}],
                                      ["dict", {"path": "x", "package": None}]])
    elif kind != "ok":
        req = {"script": ["src"], "css": ["href"], "meta": ["name", "content"]}[kind]
        good = {"script": {"src": "a.js", "type": "t"}, "css": {"href": "a.css", "media": "m"}, "meta": {"name": "n", "content": "c"}}[kind]
        r = rng.random()
        if r < 0.5:
            bad = dict(good)
            del bad[rng.choice(req)]
            if rng.random() < 0.4:
                bad[rng.choice([s for s in strings.harvest()[0] if s.isidentifier()] or ["x"]) if rng.random() < 0.3 else rng.choice(["href", "src", "name", "content", "charset", "http-equiv", "SRC", "data", "property", "itemprop", "url", "path", "file", "Name", "value", "id", "rel", "src_", "async", "text", "inline", "link"])] = "x"
                if all(k in bad for k in req):
                    bad.pop(req[0])
            if rng.random() < 0.15:
                bad = {}
            c["bad"] = ["dict", bad]
        else:
            c["bad"] = rng.choice(BADS + [["none", 0]])
        n = rng.choice([1, 1, 2, 3, 5])
        c["good"] = [dict(good) for _ in range(n - 1)]
        c["at"] = rng.randrange(n)
        c["single"] = n == 1 and c["bad"][0] != "none" and rng.random() < 0.6
        c["n"] = n
    else:
        for k, it in (("script", {"src": "a.js"}), ("css", {"href": "b/c.css"}), ("meta", {"name": "n", "content": "c&"})):
            if rng.random() < 0.7:
                d[k] = [dict(it)]
                if rng.random() < 0.4:
                    d[k][0]["data-x"] = "1"
    return c


def streams(tier):
    q = tier == "quick"
    return [Stream("resolve", 27000 if q else 400000, g_resolve),
            Stream("sequences", 4800 if q else len(SEQS), g_seq),
            Stream("history", 7500 if q else 100000, g_history),
            Stream("definitions", 15000 if q else 150000, g_valid)]


def uid(d):
    for m in d.meta:
        if m["name"] == "uid":
            return int(m["content"])
    raise Violation("content", "a reported dependency %r has lost its content: meta=%r" % (d, d.meta))


def entries(nodes, out):
    for n in nodes:
        if n["k"] == "dep":
            out.append((n["name"], n["ver"], n["share"]))
        entries(n.get("c", ()), out)
    return out


def cmp_uids(got, want, what):
    g = [uid(d) for d in got]
    w = [e[2] for e in want]
    if g != w:
        raise Violation("resolution", "%s\nreported: %s\nexpected: %s" % (
            what, ["%s-%s #%s" % (d.name, d.version, u) for d, u in zip(got, g)][:40], ["%s-%s #%d" % e for e in want][:40]))


def cmp_same(got, want, objs, what):
    cmp_uids(got, want, what)
    for d, e in zip(got, want):
        if d is not objs[e[2]]:
            raise Violation("identity", "%s: %s-%s #%d is not the object in the tree" % (what, e[0], e[1], e[2]))


def check(case, M):
    if case.get("t") == "valid":
        return check_valid(case, M)
    if case.get("t") == "history":
        return check_history(case, M)
    ht = spec.H()
    tree = case["tree"]
    ctx = spec.Ctx()
    x = spec.build(tree, ctx)
    all_ = entries([tree], [])
    want = resolve(all_)
    has_tfy = any(n["k"] == "tfy" for n in spec.iter_nodes([tree]))
    if has_tfy:
        t = x.tagify()
        cmp_uids(t.get_dependencies(), want, "get_dependencies() after tagify()")
        cmp_uids(t.get_dependencies(dedup=False), all_, "get_dependencies(dedup=False) after tagify()")
    else:
        for _ in range(2):
            cmp_same(x.get_dependencies(), want, ctx.shared, "get_dependencies()")
        cmp_same(x.get_dependencies(dedup=False), all_, ctx.shared, "get_dependencies(dedup=False)")
        cmp_same(x.get_dependencies(dedup=True), want, ctx.shared, "get_dependencies(dedup=True)")
    M.ev("dedup_off_compared")
    cmp_uids(x.render()["dependencies"], want, "render()['dependencies']")
    cmp_uids(ht.HTMLDocument(x).render()["dependencies"], want, "HTMLDocument.render()['dependencies']")
    if not has_tfy:
        # resolving what was resolved, and the flat list, give the same
        r = x.get_dependencies()
        cmp_same(ht.TagList(*r).get_dependencies(), want, ctx.shared, "resolving the resolved list again")
        cmp_same(ht.Tag("p", ht.Tag("b", *r)).get_dependencies(), want, ctx.shared, "resolving the resolved list again, nested")
        objs = [ctx.shared[e[2]] for e in all_]
        cmp_same(ht.TagList(objs).get_dependencies(), want, ctx.shared, "the same dependencies in a flat list")
        # the reversed sequence is a different problem with its own answer
        rev = all_[::-1]
        cmp_same(ht.Tag("div", *[ctx.shared[e[2]] for e in rev]).get_dependencies(), resolve(rev), ctx.shared, "the reversed sequence")
        p = list(all_)
        random.Random(case["seed"]).shuffle(p)
        y = ht.Tag("div")
        for e in p:
            y.append(ht.Tag("i", ctx.shared[e[2]]) if e[2] % 2 else ctx.shared[e[2]])
        cmp_same(y.get_dependencies(), resolve(p), ctx.shared, "a shuffled sequence")
    M.ev("resolutions_compared", 7)
    by = collections.defaultdict(list)
    for e in all_:
        by[e[0]].append(e)
    for es in by.values():
        if len(es) > 1:
            if any(higher(e[1], es[0][1]) for e in es):
                M.ev("replaced_by_higher")
            if any(equalv(a[1], b[1]) and a[2] != b[2] for a in es[:8] for b in es[:8] if a is not b):
                M.ev("ties_seen")
    if any(len(es) > 1 for es in by.values()):
        M.distinct([(e[0], e[1]) for e in all_], shape(tree))
        M.sample({"collected": ["%s-%s" % e[:2] for e in all_][:12], "resolved": ["%s-%s" % (d.name, d.version) for d in x.tagify().get_dependencies()][:12]})


def shape(n):
    return (n["k"], [shape(c) for c in n.get("c", ())])


def check_history(case, M):
    ht = spec.H()
    ctx = spec.Ctx()
    root = spec.build(case["tree"], ctx)
    objs = dict(ctx.shared)
    nxt = case["n"] + 100

    def mk(name, ver):
        nonlocal nxt
        nxt += 1
        objs[nxt] = spec.build_dep(dep(nxt, name, ver))
        return objs[nxt]

    def lists(t, out):
        out.append(t.children)
        for c in t.children:
            if isinstance(c, ht.Tag):
                lists(c, out)
        return out

    def walk(cl):
        out = []
        for c in cl:
            if isinstance(c, ht.HTMLDependency):
                out.append((c.name, str(c.version), uid(c)))
            elif isinstance(c, ht.Tag):
                out += walk(c.children)
        return out

    for op, k, name, ver in case["ops"]:
        ls = lists(root, [])
        cl = ls[k % len(ls)]
        if op == "append":
            cl.append(mk(name, ver))
        elif op == "insert":
            cl.insert(k % (len(cl) + 1), mk(name, ver))
        elif op == "extend":
            cl.extend([mk(name, ver), None, [mk(name, "1.10")]])
        elif op == "nest":
            cl.append(ht.Tag("b", mk(name, ver), "t"))
        elif op == "del" and len(cl):
            del cl[k % len(cl)]
        elif op == "copyuse":
            c2 = copy.copy(root)
            c2.append(mk(name, "99"))
            c2.get_dependencies()
        elif op == "render":
            cmp_uids(root.render()["dependencies"], resolve(walk(root.children)), "render() after %s" % op)
        elif op in ("ver", "name"):
            ds = [d for d in objs.values() if any(e[2] == uid(d) for e in walk(root.children))]
            if ds:
                d = ds[k % len(ds)]
                if op == "ver":
                    from packaging.version import Version

                    d.version = Version(ver)
                else:
                    d.name = name
        all_ = walk(root.children)
        cmp_same(root.get_dependencies(dedup=False), all_, objs, "dedup=False after %s" % op)
        cmp_same(root.get_dependencies(), resolve(all_), objs, "get_dependencies() after %s" % op)
        cmp_same(cl.get_dependencies(), resolve(walk(cl)), objs, "a child list's get_dependencies() after %s" % op)
        M.ev("resolutions_compared", 2)
        M.ev("dedup_off_compared")
    M.distinct(case)


class Obj:
    pass


FULL = {"href": "x", "src": "y", "name": "n", "content": "c", "subdir": "s"}


class Duck:
    """Looks like a mapping in every respect, but is no dict."""

    def keys(self):
        return FULL.keys()

    def __getitem__(self, k):
        return FULL[k]

    def __contains__(self, k):
        return k in FULL

    def __iter__(self):
        return iter(FULL)

    def get(self, k, d=None):
        return FULL.get(k, d)

    def items(self):
        return FULL.items()


def badval(b):
    k, v = b
    return {"proxy": lambda: types.MappingProxyType(dict(FULL)), "userdict": lambda: collections.UserDict(FULL),
            "chain": lambda: collections.ChainMap(dict(FULL)), "items": lambda: dict(FULL).items(), "bytes": lambda: b"src", "duck": Duck,
            "str": lambda: v, "int": lambda: 5, "true": lambda: True, "list": lambda: ["x"], "tuple": lambda: ("src", "x"), "obj": Obj,
            "pairs": lambda: [("href", "x"), ("src", "y"), ("name", "n"), ("content", "c"), ("subdir", "s")], "float": lambda: 1.5,
            "set": lambda: {"href", "src", "subdir", "name", "content"}, "dict": lambda: copy.deepcopy(v), "none": lambda: None}[k]()


def view(d):
    return (d.name, str(d.version), json.dumps(d.source), json.dumps(d.script), json.dumps(d.stylesheet), json.dumps(d.meta), d.all_files,
            d.head.get_html_string() if d.head is not None else None, str(d), json.dumps(d.as_dict(lib_prefix="p", include_version=False)),
            str(d.serialize_to_script_json()))


def check_valid(case, M):
    ht = spec.H()
    d = case["dep"]
    key = {"script": "script", "css": "stylesheet", "meta": "meta"}
    kw = {}
    for k, nm in key.items():
        if k in d:
            kw[nm] = [spec.mapping(copy.deepcopy(x), d.get("mcls", 0)) for x in d[k]]
    if "src" in d:
        kw["source"] = spec.mapping(copy.deepcopy(d["src"]), d.get("mcls", 0))
    kw["all_files"] = bool(d.get("all"))
    if d.get("head"):
        kw["head"] = "<title>x</title>"
    mk = lambda **k: ht.HTMLDependency(d["name"], d["ver"], **k)
    if case["kind"] == "ok":
        a = mk(**copy.deepcopy(kw))
        one = copy.deepcopy(kw)
        n = 0
        for nm in key.values():
            if len(one.get(nm, ())) == 1:
                one[nm] = one[nm][0]
                n += 1
        b = mk(**one)
        if view(a) != view(b) or not (a == b):
            raise Violation("single_vs_list", "given as lists and as single items differ:\n%r\n%r" % (view(a), view(b)))
        if n:
            M.ev("single_vs_list")
        for nm in key.values():
            want = kw.get(nm, [])
            got = [dict(i) for i in getattr(a, nm)]
            if nm == "stylesheet":
                want = [dict(w, rel=w.get("rel", "stylesheet")) for w in want]
                got = [dict(g, rel=g.get("rel", "stylesheet")) for g in got]
            if got != [dict(w) for w in want]:
                raise Violation("definition", "%s given as %r is stored as %r" % (nm, want, getattr(a, nm)))
        if a.source != kw.get("source") or a.name != d["name"]:
            raise Violation("definition", "source %r stored as %r" % (kw.get("source"), a.source))
        M.distinct(view(a))
        return
    bad = badval(case["bad"])
    if case["kind"] == "source":
        kw["source"] = bad
    else:
        items = copy.deepcopy(case["good"])
        items.insert(case["at"], bad)
        kw[key[case["kind"]]] = bad if case["single"] else items
    try:
        x = mk(**kw)
    except Exception:
        M.ev("rejections_observed")
        M.distinct(case["kind"], case["bad"], case.get("at"), case.get("n"))
        return
    raise Violation("not_rejected", "%s %r was accepted: script=%r stylesheet=%r meta=%r source=%r" % (
        case["kind"], kw.get("source") if case["kind"] == "source" else kw[key[case["kind"]]], x.script, x.stylesheet, x.meta, x.source))
