"""C03: attribute values are inert, single-line, and decode to the original."""
import copy
import itertools

from .. import model, onestring, shapes, spec, strings
from ..attrmodel import AttrModel, norm_name, pairs_of, segs_of
from ..core import Stream, Violation

ID = "C03"
CONCURRENT = 1500
RULE = ("every Unicode scalar value, all strings up to length 4 (5 thorough) over the metacharacter alphabet, and random "
        "sequences of attribute operations (keywords, dicts, several values per name, update, item assignment, add_class, "
        "add_style, HTML() and plain mixed) compared with a shadow attribute map; the opening tag is matched character by "
        "character; non-trivial: a metacharacter value or a merge, distinct by operation list")
ASSUMPTIONS = ["attribute names are valid", "HTML() values are the caller's and appear verbatim"]
MIN_EVENTS = {"roles_observed": 5000, "opening_tags_matched": 5000, "merged_values": 300, "mixed_html_plain_merges": 100}
CH = 512


def g_cps(i, rng):
    a = i * CH
    s = "".join(chr(c) for c in range(a, a + CH))
    return {"t": "strs", "vals": [{"s": s}]}


def g_cps1(i, rng):
    base = i * 64
    return {"t": "strs", "vals": [{"s": chr(c)} for c in range(base, base + 64)]}


ALPHA = "&<>\"'\r\na;"
_S = {}


def g_short(n):
    def g(i, rng):
        if n not in _S:
            _S[n] = ["".join(p) for k in range(1, n + 1) for p in itertools.product(ALPHA, repeat=k)]
        return {"t": "strs", "vals": [{"s": s} for s in _S[n][i * 64:(i + 1) * 64]]}
    return g


NAMES = ["class", "style", "id", "title", "data_x", "data-x", "x", "x_", "x__", "a_b", "a-b", "class_", "style_", "for_",
         "href", "value", "onclick", "_x", "X", "charset"]


def gval(rng, pool):
    r = rng.random()
    if r < 0.6:
        v = {"t": "str", "s": strings.text(rng, pool, 4000)}
        if rng.random() < 0.002:
            v["s"] = rng.choice("a\u00e9 ") * strings.big(rng) + v["s"]
        if rng.random() < 0.05:
            v["sub"] = 1        # a str subclass
        return v
    if r < 0.82:
        return {"t": "html", "s": hv(rng)}
    if r < 0.88:
        return {"t": "num", "s": rng.choice(strings.ATTRNUMS)}
    return {"t": rng.choice(["true", "none", "false"])}


def hv(rng):
    return rng.choice(["&amp;", "&lt;b&gt;", "a", "", " ", "x y", "&quot;", "<b>", "&", "a'b", "&#39;", "é", "1 < 2", "&copy;", "c1;"])


def gname(rng):
    return rng.choice(NAMES) if rng.random() < 0.85 else strings.attr_name(rng)


def gitems(rng, pool, k=None):
    n = rng.choice([0, 1, 1, 2, 3]) if k is None else k
    seen, out = set(), []
    for _ in range(n):
        nm = gname(rng)
        if nm not in seen:          # keys of one dict are distinct
            seen.add(nm)
            out.append([nm, gval(rng, pool)])
    return out


TAGS = ["div", "span", "br", "input", "script", "style", "img", "html", "meta", "a", "x-y", "link", "svg", "option"]


def g_ops(i, rng):
    pool = []
    ops = [["ctor", [gitems(rng, pool) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))], gitems(rng, pool)]]
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        k = rng.choice(["update", "update", "setitem", "add_class", "add_class", "add_style", "look", "copy", "child", "pop",
                        "tagify"])
        if k == "update":
            ops.append([k, [gitems(rng, pool) for _ in range(rng.choice([0, 1, 1, 2]))], gitems(rng, pool)])
        elif k == "setitem":
            ops.append([k, gname(rng), gval(rng, pool)])
        elif k == "add_class":
            v = {"t": "html", "s": hv(rng)} if rng.random() < 0.25 else {"t": "str", "s": strings.text(rng, pool, 300)}
            ops.append([k, v, rng.random() < 0.4])
        elif k == "add_style":
            v = {"t": "html", "s": hv(rng) + ";"} if rng.random() < 0.25 else {"t": "str", "s": strings.text(rng, pool, 300) + ";"}
            ops.append([k, v, rng.random() < 0.4])
        elif k == "pop":
            ops.append([k, rng.choice(["class", "style", "id", "x"])])
        else:
            ops.append([k, rng.randrange(100)])
    return {"t": "ops", "tag": rng.choice(TAGS) if rng.random() < 0.8 else strings.tag_name(rng), "ops": ops,
            "kids": rng.choice([0, 0, 1, 2]), "ctx": rng.randrange(6), "ws": rng.random() < 0.5,
            "warm": [strings.text(rng, pool, 100) for _ in range(2)] if rng.random() < 0.3 else []}


PLACE = ["kw", "dict", "dicts2", "kw2", "update", "setitem", "update2", "add_class", "add_style", "html_before", "html_after",
         "html_both", "cls_html_pre", "cls_html_post", "attrs_ctor", "style_html_pre", "style_html_post", "consolidate", "ninth"]
METAS = ["&", "<", ">", '"', "'", "\r", "\n", "\r\n", "\"'\"", "&amp;", "a\nb\nc", "''", '""', "\n\n", "x\" y=\"z", "x' y='z", "/>",
         "--><b>", "", " ", "&&", "<<>>", "\t", "\x0b", "\u2028"]
GRID = list(itertools.product(range(len(PLACE)), range(len(METAS)), range(len(TAGS))))


def g_grid(i, rng):
    p, v, t = GRID[(i * 7919) % len(GRID)]
    return {"t": "grid", "p": p, "s": METAS[v], "tag": TAGS[t], "sub": rng.random() < 0.15}


def g_names(i, rng):
    names = strings.tag_names()
    an = strings.attr_names()
    return {"t": "ops", "tag": names[i % len(names)], "kids": i % 3, "ctx": i % 6, "ws": bool(i & 1), "warm": [],
            "ops": [["ctor", [], [[an[i % len(an)], {"t": "str", "s": strings.text(rng, None, 20) + rng.choice("&<>\"'\r\n")}]]]]}


VALUES = strings.STRUCT + METAS + strings.WORDS


def g_named(i, rng):
    an = strings.attr_names()
    j = i * 7919
    return {"t": "named", "n": an[j % len(an)], "vals": [VALUES[(i * 13 + k * 29) % len(VALUES)] for k in range(24)], "tag": strings.tag_name(rng),
            "how": rng.randrange(4)}


def streams(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [Stream("codepoints", (0x110000 + CH - 1) // CH, g_cps),
            Stream("single_codepoints", (0x3000 if q else 0x110000) // 64, g_cps1),
            Stream("short_strings", (sum(9 ** k for k in range(1, n + 1)) + 63) // 64, g_short(n)),
            Stream("grid", len(GRID), g_grid),
            Stream("names", 2000, g_names),
            Stream("names_values", 9000 if q else 120000, g_named),
            Stream("ops", 135000 if q else 2500000, g_ops),
            Stream("roles", 12000 if q else 400000, lambda i, rng: onestring.gen(rng))]


def expect_open(out, tag, am, M, label, at=0):
    """The opening tag at out[at:] carries exactly the model's attributes."""
    segs = am.open_segs(tag)
    while at and out[at:at + 1] in (" ", "\n", "\r"):
        at += 1
    r1 = model.match(out, segs + [("L", ">")], i=at, end=False)
    r2 = r1 and model.match(out, segs + [("L", "/>")], i=at, end=False)
    if r1 and r2:
        raise Violation("attribute", "%s: %s\nexpected %s\noutput: %r" % (label, r1, model.canon(segs)[:400], out[at:at + 600]))
    M.ev("opening_tags_matched")


def raw(v):
    return spec.val(v)


def check(case, M):
    ht = spec.H()
    t = case["t"]
    if t == "one":
        return onestring.run(case, M, ID)
    if t == "strs":
        for v in case["vals"]:
            s = v["s"]
            am = AttrModel()
            am.call([("title", [("A", s)]), ("data-x", [("A", s)])])
            expect_open(ht.Tag("div", title=s, data_x=s).get_html_string(), "div", am, M, "keyword")
            am = AttrModel()
            am.call([("a", [("A", s)]), ("a", [("A", s)]), ("c", [("L", "&amp;")]), ("c", [("A", s)]), ("b", [("A", s)]),
                     ("b", [("L", "&lt;")])])
            x = ht.Tag("br", {"a": s, "c": ht.HTML("&amp;"), "b": s}, {"a": s, "c": s, "b": ht.HTML("&lt;")})
            am2 = AttrModel()
            am2.call([("a", [("A", s)]), ("c", [("L", "&amp;")]), ("b", [("A", s)]), ("a", [("A", s)]), ("c", [("A", s)]),
                      ("b", [("L", "&lt;")])])
            expect_open(str(x), "br", am2, M, "merged")
            M.ev("merged_values", 3)
            M.ev("mixed_html_plain_merges", 2)
            if set(s) & set(model.ESC_A):
                M.distinct(s)
        return
    if t == "named":
        n = case["n"]
        for k, s in enumerate(case["vals"]):
            am = AttrModel()
            am.call([(n, [("A", s)])])
            how = (case["how"] + k) % 4
            if how == 0 or how == 1 and n == "self":
                x = ht.Tag(case["tag"], {n: s})
            elif how == 1:
                x = ht.Tag(case["tag"], **{n: s})
            elif how == 2:
                x = ht.Tag(case["tag"])
                x.attrs[n] = s
            else:
                x = ht.Tag(case["tag"])
                x.attrs.update({n: s})
            expect_open(x.get_html_string(), case["tag"], am, M, "%s=%r" % (n, s))
            M.ev("named_values")
        M.distinct(n, case["tag"], case["vals"])
        return
    if t == "grid":
        return check_grid(ht, case, M)
    name = case["tag"]
    am = AttrModel()
    x = None
    for w in case["warm"]:
        ht.TagList(w, ht.Tag("i", w)).get_html_string()
        ht.html_escape(w)
    for op in case["ops"]:
        k = op[0]
        if k == "ctor":
            dicts = [{n: raw(v) for n, v in d} for d in op[1]]
            kw = {n: raw(v) for n, v in op[2]}
            if "self" in kw:
                dicts.append({"self": kw.pop("self")})
            x = ht.Tag(name, *dicts, _add_ws=case["ws"], **kw)
            am.call([p for d in op[1] for p in pairs_of(d)] + pairs_of(op[2]))
        elif k == "update":
            dicts = [{n: raw(v) for n, v in d} for d in op[1]]
            kw = {n: raw(v) for n, v in op[2]}
            if "self" in kw:
                dicts.append({"self": kw.pop("self")})
            x.attrs.update(*dicts, **kw)
            am.call([p for d in op[1] for p in pairs_of(d)] + pairs_of(op[2]))
        elif k == "setitem":
            x.attrs[op[1]] = raw(op[2])
            am.setitem(op[1], op[2])
        elif k == "add_class":
            x.add_class(raw(op[1]), prepend=op[2])
            am.join_existing("class", segs_of(op[1]), op[2])
        elif k == "add_style":
            x.add_style(raw(op[1]), prepend=op[2])
            am.join_existing("style", segs_of(op[1]), op[2])
        elif k == "look":
            expect_open(x.get_html_string(), name, am, M, "between operations")
        elif k == "copy":
            x = copy.copy(x)
        elif k == "tagify":
            x = x.tagify()
        elif k == "child":
            x.append("t")
        elif k == "pop":
            x.attrs.pop(op[1], None)
            am.d.pop(op[1], None)
    if case["kids"]:
        x.append(*(["t", ht.Tag("i", _add_ws=False)][:case["kids"]]))
    for segs in am.d.values():
        if len(segs) > 1:
            M.ev("merged_values")
            ks = {s[0] for s in segs if s != ("L", " ")}
            if len(ks) > 1:
                M.ev("mixed_html_plain_merges")
    expect_open(x.get_html_string(), name, am, M, "get_html_string()")
    expect_open(str(x), name, am, M, "str()")
    expect_open(x.get_html_string(2, "\r\n"), name, am, M, "get_html_string(2)", at=4)
    c = case["ctx"]
    # nested in another element; found by its position after a known prefix
    pre = {0: None, 1: "", 2: "p", 3: None, 4: "", 5: None}[c]
    if c == 1:
        expect_open(ht.Tag("u", x, _add_ws=False).get_html_string(0, ""), name, am, M, "nested", at=3)
    elif c == 2:
        out = ht.Tag("u", "p", x, ht.Tag("u", x, _add_ws=False), _add_ws=False).get_html_string(0, "")
        expect_open(out, name, am, M, "nested after text", at=4)
    elif c == 4:
        out = ht.TagList(ht.Tag("u"), x).render()["html"]
        expect_open(out, name, am, M, "in a list", at=len("<u></u>\n"))
    elif c == 3:
        kw = [[n, v] for n, v in case["ops"][0][2] if n != "self"]
        am2 = AttrModel()
        am2.call(pairs_of(kw))
        doc = ht.HTMLDocument("t", **{n: raw(v) for n, v in kw})
        expect_open(doc.render()["html"], "html", am2, M, "HTMLDocument(**kw)", at=len("<!DOCTYPE html>\n"))
    elif c == 5:
        kw = {n: v for n, v in case["ops"][0][2] if n not in ("self", "name", "content")}
        kw = {n: v for n, v in kw.items() if v["t"] == "str"}
        if len({norm_name(n) for n in kw}) == len(kw):
            am2 = AttrModel()
            am2.call([("name", [("A", "n")]), ("content", [("A", "c")])] + pairs_of(kw.items()))
            d = ht.HTMLDependency("n", "1", meta={"name": "n", "content": "c", **{n: raw(v) for n, v in kw.items()}})
            expect_open(d.as_html_tags().get_html_string(), "meta", am2, M, "HTMLDependency(meta=)")
    if len(case["ops"]) > 1 or any(set(s[1]) & set(model.ESC_A) for g in am.d.values() for s in g if s[0] == "A"):
        M.distinct(case["tag"], case["ops"])
        M.sample({"opening": x.get_html_string()[:300]})


def check_grid(ht, case, M):
    s, name, p = case["s"], case["tag"], PLACE[case["p"]]
    if case.get("sub"):
        s = spec.StrSub(s)
    HT = ht.HTML
    A, L = ("A", s), ("L", "&amp;'x'")
    h = HT("&amp;'x'")
    am = AttrModel()
    T = lambda *a, **k: ht.Tag(name, *a, **k)
    if p == "kw":
        x = T(title=s); am.call([("title", [A])])
    elif p == "dict":
        x = T({"title": s}); am.call([("title", [A])])
    elif p == "dicts2":
        x = T({"title": s}, {"title": "b"}, {"id": s}); am.call([("title", [A]), ("title", [("A", "b")]), ("id", [A])])
    elif p == "kw2":
        x = T({"title_": s}, title=s); am.call([("title", [A]), ("title", [A])])
    elif p == "update":
        x = T(id="1"); x.attrs.update({"title": s}); am.call([("id", [("A", "1")]), ("title", [A])])
    elif p == "update2":
        x = T(id="1"); x.attrs.update({"title": "q"}, {"title": s}, title=s)
        am.call([("id", [("A", "1")]), ("title", [("A", "q")]), ("title", [A]), ("title", [A])])
    elif p == "setitem":
        x = T(title="z"); x.attrs["title"] = s; am.call([("title", [A])])
    elif p == "add_class":
        x = T(class_="c").add_class(s); am.call([("class", [("A", "c")]), ("class", [A])])
    elif p == "add_style":
        x = T(style="c;").add_style(s + ";"); am.call([("style", [("A", "c;")]), ("style", [("A", s + ";")])])
    elif p == "html_before":
        x = T({"title": h}, title=s); am.call([("title", [L]), ("title", [A])])
    elif p == "html_after":
        x = T({"title": s}, title=h); am.call([("title", [A]), ("title", [L])])
    elif p == "html_both":
        x = T({"title": s}, {"title": h}, title=s); am.call([("title", [A]), ("title", [L]), ("title", [A])])
    elif p == "cls_html_pre":
        x = T(class_=s).add_class(h, prepend=True); am.call([("class", [L]), ("class", [A])])
    elif p == "cls_html_post":
        x = T(class_=h).add_class(s).add_class(s, prepend=True); am.call([("class", [A]), ("class", [L]), ("class", [A])])
    elif p == "style_html_pre":
        x = T(style=s).add_style(HT("&amp;;"), prepend=True); am.call([("style", [("L", "&amp;;")]), ("style", [A])])
    elif p == "style_html_post":
        x = T(style=h).add_style(s + ";"); am.call([("style", [L]), ("style", [("A", s + ";")])])
    elif p == "attrs_ctor":
        x = T(); x.attrs = type(x.attrs)({"title": s}, id=s); am.call([("title", [A]), ("id", [A])])
    elif p == "consolidate":
        at, ch = ht.consolidate_attrs({"title": s}, "k", title=h, id=s)
        x = T(at, *ch); am.call([("title", [A]), ("title", [L]), ("id", [A])])
    else:
        x = T(**{"a%d" % i: s for i in range(9)}); am.call([("a%d" % i, [A]) for i in range(9)])
    expect_open(x.get_html_string(), name, am, M, p)
    expect_open(ht.TagList(x).render()["html"], name, am, M, p)
    M.ev("grid_cells")
    if p != "kw":
        M.ev("merged_values")
    if "html" in p:
        M.ev("mixed_html_plain_merges")
    M.distinct(case)
