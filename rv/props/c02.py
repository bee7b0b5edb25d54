"""C02: plain-text children are inert data."""
import itertools

from .. import model, onestring, shapes, spec, strings
from ..core import Stream, Violation

ID = "C02"
CONCURRENT = 800
RULE = ("every Unicode scalar value, every string up to length 4 (5 thorough) over the metacharacter alphabet, every "
        "(parent, previous, next, adding method) position, and random trees/histories; rendered text runs are matched "
        "character by character against the supplied strings; non-trivial: the text has a metacharacter, distinct by tree")
ASSUMPTIONS = ["blanks at the ends of a run may be layout (exact in inline positions)"]
MIN_EVENTS = {"roles_observed": 5000, "leaves_matched": 5000, "renders_matched": 2000, "html_escape_calls": 500}
SENT = "\x02eol\x03"
KINDS = dict(html=0.5, repr=0.5, tfy=1.0, dep=0.5, meta=0.7, num=2, text=12)


CH = 512


def g_cps(i, rng):
    a = i * CH
    s = "".join(chr(c) for c in range(a, a + CH))
    return {"t": "strs", "vals": [{"s": s}]}


def g_cps1(i, rng):
    """Single characters alone (each its own string)."""
    base = i * 64
    return {"t": "strs", "vals": [{"s": chr(c)} for c in range(base, base + 64)]}


ALPHA = "&<>\"'a;#\n"


def short_strings(n):
    for k in range(1, n + 1):
        for p in itertools.product(ALPHA, repeat=k):
            yield "".join(p)


_S = {}


def g_short(n):
    def g(i, rng):
        if n not in _S:
            _S[n] = list(short_strings(n))
        return {"t": "strs", "vals": [{"s": s} for s in _S[n][i * 64:(i + 1) * 64]]}
    return g


SIBS = [None, shapes.T("p"), shapes.T("<"), shapes.tag("b", False, []), shapes.tag("div", True, [shapes.T("q")]),
        {"k": "html", "s": "<h>"}, {"k": "repr", "s": "<r>"}, shapes.META, shapes.DEP,
        shapes.tag("br", False, []), shapes.tag("script", True, [shapes.T("a<b")])]
ADD = ["ctor", "append", "extend", "insert", "nest", "tuple", "with", "tfy_str", "tfy_list", "tfy_tag", "iadd", "cappend",
       "add", "radd", "setchildren", "append2", "num"]
PARENTS = [("div", True), ("div", False), ("span", False), ("br", True), ("input", False), ("x-y", True), ("pre", True),
           ("textarea", True), ("title", True), ("html", True), ("body", True), (None, True)]
GRID = list(itertools.product(range(len(PARENTS)), range(len(SIBS)), range(len(SIBS)), range(len(ADD))))


def g_pos(i, rng):
    # GRID is 12*11*11*17; stride so that a partial run still spreads over it
    p, a, b, m = GRID[(i * 7919) % len(GRID)]
    s = strings.text(rng, None, 40)
    if not any(c in s for c in "&<>"):
        s = s + rng.choice(["&", "<", ">", "<i>", "&lt;"])
    return {"t": "pos", "p": p, "a": a, "b": b, "m": m, "s": s, "n": rng.choice([1, 1, 2, 3])}


def g_random(i, rng):
    return {"t": "tree", "tree": spec.gen_tree(rng, w=KINDS, html_attrs=False), "indent": rng.choice([0, 0, 1, 3]),
            "warm": rng.random() < 0.3, "edits": spec.gen_edits(rng)}


def g_names(i, rng):
    names = strings.tag_names()
    n = names[i % len(names)]
    if n in ("script", "style"):
        n = "div"
    s = ["<&>", "a&b", "x < y > z", "&lt;"][i % 4]
    return {"t": "tree", "tree": shapes.tag(n, bool(i & 1), [shapes.T(s)] * (1 + i % 3)), "indent": 0, "warm": False}


def streams(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [Stream("codepoints", (0x110000 + CH - 1) // CH, g_cps),
            Stream("single_codepoints", (0x3000 if q else 0x110000) // 64, g_cps1),
            Stream("short_strings", (sum(9 ** k for k in range(1, n + 1)) + 63) // 64, g_short(n)),
            Stream("positions", 6000 if q else len(GRID), g_pos),
            Stream("names", len(strings.tag_names()) * 2, g_names),
            Stream("random", 9000 if q else 400000, g_random),
            Stream("roles", 12000 if q else 400000, lambda i, rng: onestring.gen(rng))]


def expect(out, segs, eol, M, label):
    r = model.match(out, segs, eol, units=(" ",))
    if r:
        raise Violation("text", "%s: %s\noutput: %r" % (label, r, out[:600]))
    M.ev("renders_matched")
    M.ev("leaves_matched", sum(1 for s in segs if s[0] == "T"))


def esc_check(f, s, M):
    out = f(s)
    M.ev("html_escape_calls")
    if not isinstance(out, str) or model.match_esc(out, 0, s, model.ESC_T) != len(out):
        raise Violation("html_escape", "html_escape(%r) gave %r" % (s[:200], out[:300]))


def check(case, M):
    ht = spec.H()
    t = case["t"]
    if t == "one":
        return onestring.run(case, M, ID)
    if t == "strs":
        for v in case["vals"]:
            s = v["s"]
            esc_check(ht.html_escape, s, M)
            T = ("T", s)
            out = ht.Tag("div", s).get_html_string()
            expect(out, [("L", "<div>"), T, ("L", "</div>")], "\n", M, "sole child of a block tag")
            out = ht.Tag("b", ht.Tag("i"), s, ht.Tag("i"), s, _add_ws=False)
            for x in (out, ht.Tag("b", ht.Tag("i", _add_ws=False), s, ht.Tag("i", _add_ws=False), s, _add_ws=False)):
                W = ("W",)
                expect(x.get_html_string(0, SENT), [("L", "<b>"), W, ("L", "<i></i>"), W, T, W, ("L", "<i></i>"), W, T, W,
                                                    ("L", "</b>")], SENT, M, "among inline siblings")
            out = ht.TagList(s, s).get_html_string()
            expect(out, [T, T], "\n", M, "two strings in a list")
            out = ht.TagList(ht.Tag("p"), s, ht.Tag("p", s, s)).get_html_string(0, SENT)
            expect(out, [("L", "<p></p>" + SENT), T, ("L", SENT + "<p>" + SENT + "  "), T, T, ("L", SENT + "</p>")][:2] +
                   [("W",), ("L", "<p>"), ("W",), T, T, ("W",), ("L", "</p>")], SENT, M, "between block siblings")
            if any(c in s for c in "&<>"):
                M.distinct(s)
        return
    if t == "pos":
        return check_pos(ht, case, M)
    for tree, x, _ in spec.versions(case, M):
        judge(ht, case, tree, x, M)


def judge(ht, case, tree, x, M):
    kids = model.norm([tree], expand=True)
    if case["warm"]:
        for c in spec.iter_nodes([tree]):
            if c["k"] == "text":
                str(ht.Tag("i", title=c["s"]))
                str(ht.TagList(ht.HTML(c["s"])))
    segs = model.loose(kids)
    y = x.tagify()
    expect(y.get_html_string(case["indent"], SENT), segs, SENT, M, "tagify().get_html_string()")
    expect(x.render()["html"], segs, "\n", M, "render()")
    expect(str(x), segs, "\n", M, "str()")
    if any(c["k"] == "text" and set(c["s"]) & set("&<>") for c in spec.iter_nodes([tree])):
        M.distinct(tree)
        M.sample({"rendered": str(x)[:300]})


def check_pos(ht, case, M):
    name, ws = PARENTS[case["p"]]
    a, b, m = SIBS[case["a"]], SIBS[case["b"]], ADD[case["m"]]
    s, n = case["s"], case["n"]
    ctx = spec.Ctx()
    before = [spec.build(a, ctx)] if a else []
    after = [spec.build(b, ctx)] if b else []
    P = (lambda *c: ht.Tag(name, *c, _add_ws=ws)) if name else ht.TagList
    items = [s] * n
    exp = s
    if m == "num":
        items = [-1.5] * n
        exp = "-1.5"
    d = {"k": "text", "s": s}
    if m.startswith("tfy"):
        mode = m[4:]
        c = {"str": [d], "list": [d] * 2, "tag": [shapes.tag("u", False, [d])]}[mode]
        items = [spec.Tfy({"k": "tfy", "m": mode, "c": c}, ctx) for _ in range(n)]
        mid = [x for _ in range(n) for x in c]
    else:
        mid = [{"k": "text", "s": exp}] * n
    x = P(*before)
    if m in ("ctor", "num") or m.startswith("tfy"):
        x = P(*before, *items, *after)
        after = []
    elif m == "append":
        for i in items:
            x.append(i)
    elif m == "append2":
        x.append(*items)
    elif m == "extend":
        x.extend(items)
    elif m == "insert":
        for i in items:
            x.insert(len(before), i)
    elif m == "nest":
        x.append([[items[0]], items[1:]])
    elif m == "tuple":
        x.append(tuple(items))
    elif m == "with":
        if name:
            with spec.hook(lambda v: None):
                import sys
                with x:
                    for i in items:
                        sys.displayhook(i)
        else:
            x.extend(items)
    elif m in ("iadd", "cappend", "add", "radd", "setchildren"):
        tl = x.children if name else x
        if m == "iadd":
            tl += items
        elif m == "cappend":
            for i in items:
                tl.append(i)
        elif m == "add":
            tl = tl + items
        elif m == "radd":
            tl = before + ht.TagList(items)
        else:
            tl = ht.TagList(tl, items)
        if name:
            x.children = tl
        else:
            x = tl
    if after:
        x.append(*after)
    kids = ([a] if a else []) + mid + ([b] if b else [])
    tree = shapes.tag(name, ws, kids) if name else {"k": "list", "c": kids, "h": 0}
    segs = model.loose(model.norm([tree], expand=True))
    expect(x.tagify().get_html_string(1, SENT), segs, SENT, M, "position grid %s" % m)
    expect(x.render()["html"], segs, "\n", M, "position grid %s render()" % m)
    M.ev("positions")
    M.distinct(case["p"], case["a"], case["b"], case["m"], n)
