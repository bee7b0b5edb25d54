"""C01: rendered markup parses back to the same element tree."""
import html as _html
import itertools

from .. import model, spec, strings, tok
from ..core import Stream, Violation

ID = "C01"
CONCURRENT = 300
RULE = ("random and enumerated trees (all catalogue names, custom names, deep/wide/shared shapes, varied construction "
        "histories) are rendered by every entry point with several indent/eol arguments and fed to an independent "
        "tokenizer; non-trivial: at least one element besides the root, distinct by normalised tree")
ASSUMPTIONS = ["the tokenizer in rv/tok.py (data state only; script/style get no markup-like text here)",
               "text, attribute values without lone surrogates; eol strings are whitespace"]
MIN_EVENTS = {"elements_matched": 2000, "renders_tokenized": 1000}

KINDS = dict(html=0, repr=0, tfy=0, dep=1.0, meta=1.0)
EOLS = ["\n", "", "\r\n", " ", "\n\n", "\t", "\r", "   \n"]


def g_random(i, rng):
    t = spec.gen_tree(rng, w=KINDS, html_attrs=False)
    return {"tree": t, "indent": rng.choice([0, 0, 1, 2, 3, 7, 40, -1]), "eol": rng.choice(EOLS), "edits": spec.gen_edits(rng)}


def g_names(i, rng):
    names = list(dict.fromkeys(strings.tag_names() + tuple(TAGFN())))
    n = names[i % len(names)]
    v = (i // len(names)) % 6
    ws = bool(i & 1)
    x = {"k": "text", "s": "a<b"} if n not in ("script", "style") else {"k": "text", "s": "x"}
    br = {"k": "tag", "n": "br", "ws": False, "a": [], "c": [], "h": 0}
    c = [[], [{"k": "meta"}], [x], [br], [x, br, x], [{"k": "text", "s": ""}]][v]
    t = {"k": "tag", "n": n, "ws": ws, "a": [["id", {"t": "str", "s": "\"'<&>\r\n"}]] if v % 2 else [], "c": c, "h": 0}
    return {"tree": {"k": "tag", "n": "div", "ws": not ws, "a": [], "c": [t, x if v > 2 else {"k": "none"}, t], "h": 0},
            "indent": v, "eol": EOLS[i % len(EOLS)]}


def TAGFN():
    import htmltools

    out = []
    for m in (htmltools.tags, htmltools.svg):
        for k in dir(m):
            f = getattr(m, k)
            if callable(f) and k[:1].islower() and getattr(f, "__module__", "") == m.__name__:
                try:
                    nm = f().name
                except Exception:
                    continue
                if nm in strings.VOID or nm.lower() not in strings.VOID:
                    out.append(nm)
    return out


def g_shapes(i, rng):
    """All small shapes over {block, inline, void, text, blank text, metadata}."""
    import functools
    forests = _forests()
    f = forests[i % len(forests)]
    return {"tree": {"k": "list", "c": f, "h": 0}, "indent": 0, "eol": "\n"}


_F = None


def _forests():
    global _F
    if _F is None:
        leaf = [{"k": "text", "s": "<"}, {"k": "text", "s": ""}, {"k": "meta"}, _t("br", False, []), _t("br", True, [])]
        lvl1 = leaf + [_t(n, ws, c) for n, ws in (("div", True), ("b", False)) for k in range(0, 3)
                       for c in itertools.product(leaf[:3] + leaf[3:4], repeat=k)]
        small = [x for x in lvl1 if len(x.get("c", ())) <= 1]
        out = [[x] for x in lvl1]
        out += [list(p) for p in itertools.product(small, repeat=2)]
        out += [[_t(n, ws, list(p))] for n, ws in (("div", True), ("b", False), ("br", True)) for p in
                itertools.product(small, repeat=2)]
        _F = out
    return _F


def _t(n, ws, c):
    return {"k": "tag", "n": n, "ws": ws, "a": [], "c": list(c), "h": 0}


def streams(tier):
    q = tier == "quick"
    return [Stream("random", 14000 if q else 700000, g_random),
            Stream("names", 6 * 260 if q else 6 * 260, g_names),
            Stream("shapes", len(_forests()), g_shapes)]


WSCH = None


def check_markup(out, kids, M, label):
    try:
        toks = tok.tokens(out)
    except tok.ParseError as e:
        raise Violation("parse", "%s: output does not tokenize: %s\noutput: %r" % (label, e, out[:600]))
    M.ev("renders_tokenized")
    pos = [0]

    def bad(msg):
        raise Violation("structure", "%s: %s\nnext tokens: %r\noutput: %r" % (label, msg, toks[pos[0]:pos[0] + 3], out[:800]))

    def text_run(exp):
        raw = ""
        if pos[0] < len(toks) and toks[pos[0]][0] == "text":
            raw = toks[pos[0]][1]
            pos[0] += 1
        got = _html.unescape(raw)
        if got.strip() != exp.strip():
            bad("text run: expected %r, got %r" % (exp[:200], got[:200]))
        if exp.strip():
            M.ev("text_runs_matched")

    def walk(kids, depth):
        buf = ""
        for c in model.visible(kids):
            if isinstance(c, model.E):
                text_run(buf)
                buf = ""
                elem(c, depth)
            else:
                buf += c.s
        text_run(buf)

    def elem(e, depth):
        if pos[0] >= len(toks):
            bad("missing element <%s>" % e.name)
        t = toks[pos[0]]
        if t[0] != "start" or t[1] != e.name:
            bad("expected start of <%s>" % e.name)
        got = [a for a, _ in t[2]]
        exp = [a for a, _ in e.attrs]
        if got != exp:
            bad("attributes of <%s>: expected %r, got %r" % (e.name, exp, got))
        for (a, segs), (_, raw) in zip(e.attrs, t[2]):
            v = "".join(s[1] for s in segs)
            if _html.unescape(raw) != v:
                bad("attribute %s of <%s>: expected %r, got raw %r" % (a, e.name, v[:200], raw[:200]))
            M.ev("attribute_values_matched")
        M.ev("elements_matched")
        void = model.is_void(e)
        if void != t[3]:
            bad("<%s>: self-closed form is %s, should be %s" % (e.name, t[3], void))
        pos[0] += 1
        if void:
            M.ev("void_elements")
            return
        walk(e.kids, depth + 1)
        if pos[0] >= len(toks) or toks[pos[0]] != ("end", e.name):
            bad("<%s> is not closed by its own end tag" % e.name)
        pos[0] += 1

    walk(kids, 0)
    if pos[0] != len(toks):
        bad("extra output after the tree")


def check(case, M):
    ht = spec.H()
    for t, x, _ in spec.versions(case, M, html=False):
        judge(ht, case, t, x, M)


def judge(ht, case, t, x, M):
    kids = model.norm([t])
    ind, eol = case["indent"], case["eol"]
    check_markup(x.get_html_string(), kids, M, "get_html_string()")
    check_markup(x.get_html_string(ind, eol), kids, M, "get_html_string(%r, %r)" % (ind, eol))
    check_markup(str(x), kids, M, "str()")
    check_markup(x.render()["html"], kids, M, "render()")
    if isinstance(x, ht.TagList):
        check_markup(x.get_html_string(ind, eol, add_ws=False), kids, M, "get_html_string(add_ws=False)")
    els = [n for n in spec.iter_nodes([t]) if n["k"] == "tag"]
    if len(els) > 1:
        M.distinct(t)
        M.sample({"rendered": str(x)[:400]})
