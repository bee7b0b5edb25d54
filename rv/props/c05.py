"""C05: no whitespace is ever injected into inline content."""
from .. import model, shapes, spec, strings
from ..core import Stream, Violation

ID = "C05"
CONCURRENT = 400
RULE = ("random trees (block inside inline included) and all small forests over block/inline/void tags, text, HTML(), "
        "self-rendering objects and metadata; the output must be the exact concatenation of the pieces with layout blanks "
        "only next to the tags of block elements, and every inline subtree's exact string must appear; non-trivial: an "
        "inline tag or text with a sibling, distinct by tree")
ASSUMPTIONS = ["an indent argument may prefix the first line of the whole output"]
MIN_EVENTS = {"renders_matched": 5000, "inline_subtrees": 2000}
EOLS = ["\n", "\r\n", "", "\x02eol\x03", "\x02eol\x03", "  \n", "<!-- -->"]
WT = dict(html=3, repr=3, meta=1.5, dep=0.7, text=9, num=1, none=0.4, nest=0.8, tfy=0)


def safe_text(rng, pool, cap):
    return rng.choice(["a", "b", "x", "", " ", " a", "a ", "\n", "a\nb", "\t", "  ", "word", "z z", "é", "0", "<", "&",
                       strings._text(rng, 60)])


def g_random(i, rng):
    return {"tree": gen(rng), "indent": rng.choice([0, 0, 0, 1, 2, 5]), "eol": rng.choice(EOLS), "edits": spec.gen_edits(rng)}


def gen(rng, **kw):
    return spec.gen_tree(rng, w=WT, max_text=200, **kw)


_F = {}


def forest():
    if "f" not in _F:
        leaves = [shapes.T("x"), {"k": "html", "s": "&"}, {"k": "repr", "s": "R"}, shapes.META, shapes.T("")]
        tags = [("div", True), ("b", False), ("br", False), ("hr", True)]
        _F["f"] = shapes.forests(leaves, tags)
    return _F["f"]


def g_forest(i, rng):
    f = forest()[i]
    r = i % 4
    if r == 1:
        f = [shapes.tag("span", False, f)]
    elif r == 2:
        f = [shapes.tag("p", True, f)]
    return {"tree": {"k": "list", "c": f, "h": 0} if r != 3 or len(f) != 1 or f[0]["k"] != "tag" else f[0],
            "indent": i % 3 // 2, "eol": EOLS[i % len(EOLS)]}


def streams(tier):
    q = tier == "quick"
    n = len(forest())
    return [Stream("forest", n if not q else min(n, 12000), g_forest if not q else lambda i, rng: g_forest((i * 7919) % n, rng)),
            Stream("random", 14000 if q else 700000, g_random),
            Stream("inline_in_context", 5000 if q else 200000, g_ctx)]


def g_ctx(i, rng):
    """An inline subtree placed in random surroundings, found through a marker."""
    sub = {"k": "tag", "n": "span", "ws": False, "a": [["id", {"t": "str", "s": "MARK"}]],
           "c": [inline(rng, 3) for _ in range(rng.choice([0, 1, 2, 3, 4]))], "h": rng.choice([0, rng.randrange(1 << 20)])}
    ctx = [sub]
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        around = [inline(rng, 2) if rng.random() < 0.5 else blk(rng) for _ in range(rng.choice([0, 1, 2]))]
        k = rng.randrange(len(around) + 1)
        around[k:k] = ctx
        n, ws = rng.choice([("div", True), ("ul", True), ("b", False), ("a", False), ("x-y", True)])
        ctx = [{"k": "tag", "n": n, "ws": ws, "a": [], "c": around, "h": 0}]
    return {"tree": ctx[0], "mark": sub, "indent": rng.choice([0, 0, 3]), "eol": rng.choice(EOLS),
            "doc": rng.random() < 0.3}


def blk(rng):
    return shapes.tag(rng.choice(["div", "hr", "p"]), True, [inline(rng, 1) for _ in range(rng.randrange(3))])


def inline(rng, d):
    k = rng.choice(["text", "text", "html", "repr", "meta", "tag", "tag", "void", "num", "none"])
    if k == "tag" and d:
        return {"k": "tag", "n": rng.choice(["b", "i", "a", "x-i", "div"]), "ws": False, "a": [],
                "c": [inline(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))], "h": rng.choice([0, rng.randrange(1 << 20)])}
    if k == "void":
        return shapes.tag(rng.choice(["br", "img", "input"]), False, [])
    if k in ("html", "repr"):
        return {"k": k, "s": rng.choice(["H", "<u>h</u>", " ", "", "a\nb"])}
    if k == "meta":
        return shapes.META
    if k == "num":
        return {"k": "num", "s": "3"}
    if k == "none":
        return {"k": "none"}
    return shapes.T(rng.choice(["t", " t", "t ", "", "t\nt", " "]))


def check_flow(out, kids, eol, indent, M, label):
    segs = model.flow(kids)
    if indent:
        segs = [("W",)] + segs
    r = model.match(out, segs, eol, units=(" ",))
    if r:
        raise Violation("whitespace", "%s: %s\nexpected (\u00b7 = optional layout whitespace) %s\noutput: %r" % (
            label, r, model.canon(segs)[:600], out[:600]))
    M.ev("renders_matched")


def tops(kids):
    """Maximal inline-only elements."""
    for c in model.visible(kids):
        if isinstance(c, model.E):
            if model.inline_only(c):
                yield c
            else:
                yield from tops(c.kids)


def check(case, M):
    ht = spec.H()
    for tree, x, _ in spec.versions(case, M):
        judge(ht, case, tree, x, M)


def judge(ht, case, tree, x, M):
    ind, eol = case["indent"], case["eol"]
    kids = model.norm([tree], expand=True)
    check_flow(x.get_html_string(ind, eol), kids, eol, ind, M, "get_html_string(%d, %r)" % (ind, eol))
    check_flow(x.render()["html"], kids, "\n", 0, M, "render()")
    out = str(x)
    check_flow(out, kids, "\n", 0, M, "str()")
    if isinstance(x, ht.TagList):
        check_flow(x.get_html_string(ind, eol, add_ws=False), kids, eol, ind, M, "get_html_string(add_ws=False)")
    for e in tops(kids):
        s = model.flow([e])
        if not _found(out, s):
            raise Violation("whitespace", "inline subtree %r does not appear contiguously in %r" % (
                model.canon(s)[:300], out[:600]))
        M.ev("inline_subtrees")
    if case.get("doc"):
        html = ht.HTMLDocument(x).render()["html"]
        s = model.flow(model.norm([case["mark"]], expand=True))
        if not _found(html, s):
            raise Violation("whitespace", "inline subtree %r does not appear contiguously in the document %r" % (
                model.canon(s)[:300], html[:900]))
        M.ev("inline_subtrees_in_documents")
    vis = [n for n in spec.iter_nodes([tree]) if n["k"] not in ("meta", "dep", "none")]
    if len(vis) > 2:
        M.distinct(tree, ind, eol)
        M.sample({"rendered": out[:300]})


def _found(out, segs):
    first = segs[0][1] if segs and segs[0][0] == "L" else ""
    i = out.find(first)
    n = 0
    while i >= 0 and n < 3000:
        if model.match(out, segs, i=i, end=False) is None:
            return True
        i = out.find(first, i + 1)
        n += 1
    return n >= 3000
