"""C04: trusted markup is emitted verbatim and escaping happens exactly once."""
import copy
import itertools

from .. import model, onestring, shapes, spec, strings
from ..core import Stream, Violation

ID = "C04"
CONCURRENT = 1200
RULE = ("random trees with HTML(), self-rendering objects and script/style text in every position; expression trees over "
        "+, reflected + and += of HTML, str, numbers and objects in every grouping (exhaustive for short chains); outputs "
        "are matched verbatim / escaped-once; non-trivial: markup with metacharacters or a chain of 2+, distinct by case")
ASSUMPTIONS = ["self-rendering objects are not str subclasses", "plain text around trusted markup is matched by the C02 rule"]
MIN_EVENTS = {"roles_observed": 5000, "trusted_leaves_matched": 3000, "concat_results": 3000, "script_text_matched": 300}
SENT = "\x02eol\x03"


class Obj:
    """An ordinary object with a str()."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


MK = ["&", "<", "<b>", "&amp;", "a", "", "\"'", "x>y", "&lt;", "\n", " ", "<br/>", "&&", "é<", "</script>", "<!--"]


def g_tree(i, rng):
    return {"t": "tree", "tree": spec.gen_tree(rng, w=dict(html=6, repr=4, text=4, tag=9, tfy=1, num=0.5), noescape=True,
                                               tagname=tagname, max_text=300), "indent": rng.choice([0, 0, 2]), "edits": spec.gen_edits(rng)}


def tagname(rng):
    return rng.choice(["script", "style"]) if rng.random() < 0.25 else strings.tag_name(rng)


SIB = [None, shapes.T("p"), {"k": "html", "s": "<h>"}, {"k": "repr", "s": "<r>&"}, shapes.tag("b", False, []),
       shapes.tag("div", True, []), shapes.META, {"k": "num", "s": "1"}]
PAR = [("div", True), ("span", False), ("script", True), ("style", True), ("script", False), ("br", True), ("pre", False),
       (None, True), ("title", True), ("style", False), ("textarea", True), ("body", True)]
MID = ["html", "repr", "text", "htmlhtml", "reprrepr", "texttext", "htmltext", "tfy_html", "tfyrepr", "html_sub"]
GRID = list(itertools.product(range(len(PAR)), range(len(SIB)), range(len(SIB)), range(len(MID)), range(len(MK))))


def g_grid(i, rng):
    a = GRID[(i * 7919) % len(GRID)]
    return {"t": "grid", "cell": list(a)}


def leafexpr(rng, pool):
    r = rng.random()
    s = rng.choice(MK) if rng.random() < 0.6 else strings.text(rng, pool, 200)
    if r < 0.45:
        return {"e": "html", "s": s}
    if r < 0.8:
        return {"e": "str", "s": s}
    if r < 0.87:
        return {"e": "num", "s": rng.choice(["1", "2.5", "-3"])}
    if r < 0.94:
        return {"e": "obj", "s": s}
    return {"e": "sub", "s": s}


def gexpr(rng, n, pool):
    if n == 1:
        return leafexpr(rng, pool)
    k = rng.randrange(1, n)
    return {"e": "+", "l": gexpr(rng, k, pool), "r": gexpr(rng, n - k, pool), "i": rng.random() < 0.3}


def g_concat(i, rng):
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 12]) if rng.random() < 0.98 else rng.randrange(13, 60)
    return {"t": "concat", "x": gexpr(rng, n, []), "attr": rng.random() < 0.3}


KINDS3 = ["html", "str", "num", "obj", "sub"]
CHAINS = [(ks, g) for k in (2, 3, 4) for ks in itertools.product(KINDS3, repeat=k) for g in range({2: 1, 3: 2, 4: 5}[k])]


def g_chains(i, rng):
    ks, g = CHAINS[i % len(CHAINS)]
    ls = [{"e": k, "s": "&%d<" % j if k != "num" else str(j)} for j, k in enumerate(ks)]
    p = lambda l, r: {"e": "+", "l": l, "r": r, "i": False}
    if len(ls) == 2:
        x = p(*ls)
    elif len(ls) == 3:
        x = p(p(ls[0], ls[1]), ls[2]) if g == 0 else p(ls[0], p(ls[1], ls[2]))
    else:
        a, b, c, d = ls
        x = [p(p(p(a, b), c), d), p(p(a, p(b, c)), d), p(p(a, b), p(c, d)), p(a, p(p(b, c), d)), p(a, p(b, p(c, d)))][g]
    return {"t": "concat", "x": x, "attr": False}


def g_acc(i, rng):
    """Accumulating loops (x += piece) with aliases kept of intermediate values."""
    return {"t": "acc", "items": [leafexpr(rng, []) for _ in range(rng.choice([2, 3, 5, 9, 20]))],
            "start": leafexpr(rng, []), "left": rng.random() < 0.5}


CH = 512


def g_cps(i, rng):
    a = i * CH
    return {"t": "cps", "s": "".join(chr(c) for c in range(a, a + CH))}


def streams(tier):
    q = tier == "quick"
    return [Stream("tree", 12000 if q else 500000, g_tree),
            Stream("grid", 20000 if q else len(GRID), g_grid),
            Stream("concat", 40000 if q else 1500000, g_concat),
            Stream("chains", len(CHAINS), g_chains),
            Stream("acc", 8000 if q else 200000, g_acc),
            Stream("codepoints", (0x110000 + CH - 1) // CH, g_cps),
            Stream("roles", 12000 if q else 400000, lambda i, rng: onestring.gen(rng))]


def trusted(kids, noesc=False):
    """W everywhere between nodes; trusted leaves exact, script/style text exact."""
    return model.loose(kids, noesc)


def expect(out, segs, eol, M, label):
    r = model.match(out, segs, eol, units=(" ",))
    if r:
        raise Violation("verbatim", "%s: %s\noutput: %r" % (label, r, out[:600]))
    M.ev("renders_matched")


def count(kids, M, noesc=False):
    for c in model.visible(kids):
        if isinstance(c, model.E):
            count(c.kids, M, c.name in model.NOESC)
        elif c.kind in "HR":
            M.ev("trusted_leaves_matched")
        elif noesc:
            M.ev("script_text_matched")


def full(kids, noesc=False):
    """As loose(), with attributes matched too (HTML() attribute values verbatim)."""
    out = [("W",)]
    for c in model.visible(kids):
        if isinstance(c, model.E):
            v = model.is_void(c)
            out.extend(model.open_segs(c, v))
            if not v:
                out.extend(full(c.kids, c.name in model.NOESC))
                out.append(("L", "</" + c.name + ">"))
        else:
            out.extend(model.leaf_segs(c, noesc))
        out.append(("W",))
    return out


def check(case, M):
    ht = spec.H()
    t = case["t"]
    if t == "one":
        return onestring.run(case, M, ID)
    if t == "tree":
        # the attribute markup is part of the observation only through HTML() values
        for tree, x, _ in spec.versions(case, M):
            check_tree(ht, case, tree, x, M)
        return
    if t == "grid":
        return check_grid(ht, case["cell"], M)
    return check_rest(ht, case, M)


def check_tree(ht, case, tree, x, M):
    kids = model.norm([tree], expand=True)
    segs = full(kids)
    expect(x.tagify().get_html_string(case["indent"], SENT), segs, SENT, M, "tagify().get_html_string()")
    expect(x.render()["html"], segs, "\n", M, "render()")
    expect(str(x), segs, "\n", M, "str()")
    check_doc(ht, x, tree, segs, M)
    count(kids, M)
    if any(n["k"] in ("html", "repr") for n in spec.iter_nodes([tree])):
        M.distinct(tree)
        M.sample({"rendered": str(x)[:300]})


def check_rest(ht, case, M):
    t = case["t"]
    if t == "cps":
        return check_cps(ht, case["s"], M)
    if t == "acc":
        return check_acc(ht, case, M)
    x = case["x"]
    made = []
    val, is_html, segs = ev(ht, x, made)
    if not any_html(x):
        return
    if not isinstance(val, ht.HTML):
        raise Violation("concat", "result of %s is %r, not HTML()" % (show(x), type(val)))
    verify_html(ht, val, segs, M, show(x))
    for obj, s in made:
        if str(obj) != s:
            raise Violation("concat", "an operand changed: was %r, is %r, in %s" % (s, str(obj), show(x)))
    # adjacent children render the same
    leaves = list(leafs(x))
    if all(l["e"] in ("html", "str", "num") for l in leaves):
        # plain groups are concatenated first, as the expression does
        sep = ht.TagList(*[mk(ht, l) for l in leaves]).get_html_string()
        if grouped_plain(x) and ht.TagList(val).get_html_string() != sep:
            raise Violation("concat", "%s renders as %r, operands as adjacent children %r" % (
                show(x), ht.TagList(val).get_html_string()[:300], sep[:300]))
        M.ev("compared_with_adjacent_children")
    if case["attr"]:
        out = ht.Tag("i", title=val).get_html_string()
        expect(out, [("L", '<i title="')] + segs + [("L", '"></i>')], "\n", M, "as an attribute value")
    M.distinct(x)


def check_doc(ht, x, tree, segs, M):
    """The same content in the body of a document, and in the file written for it."""
    if any(c.get("n") in ("html", "body", "head") for c in spec.iter_nodes([tree])) or any(n["k"] == "tfy" for n in spec.iter_nodes([tree])):
        return
    doc = ht.HTMLDocument(x, lang="en").render()["html"]
    want = segs + [("W",), ("L", "</body>"), ("W",), ("L", "</html>"), ("W",)]
    i, r = -1, "no <body>"
    while True:
        i = doc.find("<body>", i + 1)
        if i < 0:
            raise Violation("verbatim", "HTMLDocument.render(): %s\noutput: %r" % (r, doc[-600:]))
        r = model.match(doc, [("L", "<body>"), ("W",)] + want, "\n", i=i, units=(" ",))
        if r is None:
            break
    M.ev("documents_matched")


def mk(ht, l):
    e = l["e"]
    return {"html": lambda: ht.HTML(l["s"]), "str": lambda: l["s"], "num": lambda: strings.mknum(l["s"]),
            "obj": lambda: Obj(l["s"]), "sub": lambda: spec.StrSub(l["s"])}[e]()


def leafs(x):
    if x["e"] == "+":
        yield from leafs(x["l"])
        yield from leafs(x["r"])
    else:
        yield x


def any_html(x):
    return any(l["e"] == "html" for l in leafs(x))


def grouped_plain(x):
    """No two numbers are added to each other arithmetically, etc."""
    if x["e"] != "+":
        return True
    if not any_html(x):
        return all(l["e"] == "str" for l in leafs(x))
    return grouped_plain(x["l"]) and grouped_plain(x["r"])


def show(x):
    if x["e"] == "+":
        return "(%s %s %s)" % (show(x["l"]), "+=" if x["i"] else "+", show(x["r"]))
    return "%s(%r)" % (x["e"], x["s"][:40])


def ev(ht, x, made):
    """(value, is_html, segments)"""
    if x["e"] != "+":
        v = mk(ht, x)
        made.append((v, str(v)))
        if x["e"] == "html":
            return v, True, [("L", x["s"])]
        return v, False, [("T", str(v))]
    l, lh, ls = ev(ht, x["l"], made)
    r, rh, rs = ev(ht, x["r"], made)
    if not lh and not rh:
        # plain + plain is Python's business: use a str
        v = (l if isinstance(l, str) else str(l)) + (r if isinstance(r, str) else str(r))
        return v, False, [("T", v)]
    if x["i"]:
        v = l
        v += r
    else:
        v = l + r
    made.append((v, str(v)))
    return v, True, ls + rs


def verify_html(ht, val, segs, M, label):
    M.ev("concat_results")
    r = model.match(str(val), segs)
    if r:
        raise Violation("concat", "%s: str() of the result: %s\nresult: %r" % (label, r, str(val)[:400]))
    for out, a, b in ((ht.Tag("div", val).get_html_string(), "<div>", "</div>"),
                      (ht.TagList(val).get_html_string(), "", ""),
                      (ht.Tag("b", "x", val, val, _add_ws=False).get_html_string(), "<b>x", None)):
        if b is None:
            exp = [("L", a)] + segs + segs + [("L", "</b>")]
        else:
            exp = [("L", a)] + segs + [("L", b)]
        r = model.match(out, exp)
        if r:
            raise Violation("concat", "%s rendered as a child: %s\noutput: %r" % (label, r, out[:400]))


def check_acc(ht, case, M):
    acc = mk(ht, case["start"])
    segs = [("L" if case["start"]["e"] == "html" else "T", str(acc))]
    is_html = case["start"]["e"] == "html"
    if not is_html:
        acc = str(acc)
    keep = []
    for it in case["items"]:
        v = mk(ht, it)
        h = it["e"] == "html"
        if not h and not is_html:
            v = str(v)
            acc = v + acc if case["left"] else acc + v
            segs = [("T", acc)]
            continue
        one = [("L" if h else "T", str(v))]
        keep.append((acc, str(acc)))
        if case["left"]:
            acc = v + acc
            segs = one + segs
        else:
            acc += v
            segs = segs + one
        is_html = True
        if not isinstance(acc, ht.HTML):
            raise Violation("concat", "accumulated value lost the HTML mark: %r" % (acc,))
    for v, s in keep:
        if str(v) != s:
            raise Violation("concat", "an earlier accumulated value changed from %r to %r" % (s[:200], str(v)[:200]))
    if is_html:
        verify_html(ht, acc, segs, M, "accumulation")
        M.distinct(case)


def check_cps(ht, s, M):
    h = ht.HTML(s)
    R = spec.ReprObj(s, spec.Ctx())
    for out, a, b in ((ht.Tag("div", h).get_html_string(), "<div>", "</div>"),
                      (ht.Tag("b", R, _add_ws=False).get_html_string(), "<b>", "</b>"),
                      (ht.Tag("script", s).get_html_string(), "<script>", "</script>"),
                      (ht.Tag("style", s).get_html_string(), "<style>", "</style>"),
                      (ht.Tag("i", title=h).get_html_string(), '<i title="', '"></i>'),
                      (str(h), "", ""), (h.as_string(), "", ""), (ht.TagList(h, R, h).get_html_string(), s, s)):
        if out != a + s + b:
            raise Violation("verbatim", "code points %r..%r: expected %r, got %r" % (s[0], s[-1], (a + s + b)[:50], out[:80]))
        M.ev("trusted_leaves_matched")
    for v, segs in ((h + s, [("L", s), ("T", s)]), (s + h, [("T", s), ("L", s)]), (h + h, [("L", s), ("L", s)])):
        verify_html(ht, v, segs, M, "code points")
    M.distinct(s)


def check_grid(ht, cell, M):
    p, a, b, m, k = cell
    name, ws = PAR[p]
    A, B, mid, s = SIB[a], SIB[b], MID[m], MK[k]
    ctx = spec.Ctx()
    Hs, Rs, Ts = {"k": "html", "s": s}, {"k": "repr", "s": s}, {"k": "text", "s": s}
    items = {"html": [Hs], "repr": [Rs], "text": [Ts], "htmlhtml": [Hs, Hs], "reprrepr": [Rs, Rs], "texttext": [Ts, Ts],
             "htmltext": [Hs, Ts], "tfy_html": [{"k": "tfy", "m": "html", "c": [Hs]}],
             "tfyrepr": [{"k": "tfy", "m": "list", "c": [Rs, Hs]}], "html_sub": [Hs]}[mid]
    kids = ([A] if A else []) + items + ([B] if B else [])
    tree = shapes.tag(name, ws, kids) if name else {"k": "list", "c": kids, "h": 0}
    if mid == "html_sub":
        class Sub(ht.HTML):
            pass
        objs = [spec.build(c, ctx) for c in kids]
        objs[1 if A else 0] = Sub(s)
        x = ht.Tag(name, *objs, _add_ws=ws) if name else ht.TagList(*objs)
    else:
        x = spec.build(tree, ctx)
    nk = model.norm([tree], expand=True)
    segs = full(nk)
    expect(x.tagify().get_html_string(1, SENT), segs, SENT, M, "grid %s in %s" % (mid, name))
    expect(x.render()["html"], segs, "\n", M, "grid render() %s in %s" % (mid, name))
    count(nk, M)
    M.distinct(cell)
