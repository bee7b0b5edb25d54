"""C06: block layout follows the documented line and indentation rules."""
from .. import model, shapes, spec, strings
from ..core import Stream, Violation
from . import c05

ID = "C06"
CONCURRENT = 400
RULE = ("random validly nested trees and all small valid forests, rendered with many indent/eol arguments and compared with a "
        "reference line layout; indent shift and eol replacement are also checked as relations between renderings; "
        "non-trivial: a block tag with something other than one text child, distinct by tree and arguments")
ASSUMPTIONS = ["inline tags contain no block tags", "a list rendered with add_ws=False starts its first inline run unindented"]
MIN_EVENTS = {"layouts_matched": 5000, "lines": 10000, "shift_relations": 1000}
EOLS = ["\n", "\r\n", "", "\x02eol\x03", "  \n", "<!-- -->", "\n\n", "\\n", "\r", "x", "\\g<0>"]


def g_random(i, rng):
    return {"tree": c05.gen(rng, valid_nest=True), "indent": rng.choice([0, 0, 1, 2, 3, 5, 17, 50]), "eol": rng.choice(EOLS),
            "edits": spec.gen_edits(rng)}


_F = {}


def forest():
    if "f" not in _F:
        leaves = [shapes.T("x"), {"k": "html", "s": "&"}, {"k": "repr", "s": "R"}, shapes.META, shapes.T("a\nb"), shapes.T("")]
        tags = [("div", True), ("b", False), ("br", False), ("hr", True)]
        _F["f"] = shapes.forests(leaves, tags, valid=True)
    return _F["f"]


def g_forest(i, rng):
    f = forest()[i]
    r = i % 4
    if r == 1:
        f = [shapes.tag("span", False, f)] if not any(spec.has_block(c) for c in f) else [shapes.tag("ul", True, f)]
    elif r == 2:
        f = [shapes.tag("p", True, f)]
    return {"tree": {"k": "list", "c": f, "h": 0} if r != 3 or len(f) != 1 or f[0]["k"] != "tag" else f[0],
            "indent": i % 3, "eol": EOLS[i % len(EOLS)]}


def g_names(i, rng):
    """Every element name in the layout-relevant forms."""
    names = strings.tag_names()
    n = names[i % len(names)]
    v = i // len(names)
    kids = [[], [shapes.T("x")], [shapes.T("x"), shapes.T("y")], [shapes.tag("p", True, [])], [shapes.tag("b", False, [])],
            [{"k": "repr", "s": "R"}]][v % 6]
    t = shapes.tag(n, v % 2 == 0, kids) if not any(k.get("ws") for k in kids) else shapes.tag(n, True, kids)
    return {"tree": shapes.tag("div", True, [shapes.T("a"), t, shapes.T("b"), t, t]), "indent": v % 3, "eol": "\n"}


def streams(tier):
    q = tier == "quick"
    n = len(forest())
    return [Stream("forest", n if not q else min(n, 14000), g_forest if not q else lambda i, rng: g_forest((i * 7919) % n, rng)),
            Stream("names", len(strings.tag_names()) * 6, g_names),
            Stream("random", 16000 if q else 800000, g_random)]


def expect(out, segs, M, label):
    r = model.match(out, segs)
    if r:
        raise Violation("layout", "%s: %s\nexpected: %r\noutput:   %r" % (label, r, model.canon(segs)[:700], out[:700]))
    M.ev("layouts_matched")


def check(case, M):
    ht = spec.H()
    for tree, x, _ in spec.versions(case, M):
        judge(ht, case, tree, x, M)


def judge(ht, case, tree, x, M):
    ind, eol = case["indent"], case["eol"]
    kids = model.norm([tree], expand=True)
    s0 = model.layout(kids)
    out0 = x.get_html_string()
    expect(out0, s0, M, "get_html_string()")
    expect(x.get_html_string(ind, eol), model.layout(kids, ind, eol), M, "get_html_string(%d, %r)" % (ind, eol))
    expect(x.get_html_string(indent=ind), model.layout(kids, ind), M, "get_html_string(indent=%d)" % ind)
    expect(x.get_html_string(eol=eol), model.layout(kids, 0, eol), M, "get_html_string(eol=%r)" % eol)
    expect(str(x), s0, M, "str()")
    expect(x.render()["html"], s0, M, "render()")
    if isinstance(x, ht.TagList):
        expect(x.get_html_string(ind, eol, add_ws=False), model.layout(kids, ind, eol, False), M, "add_ws=False")
    # relations between two renderings of the real code
    SEP = "\x02eol\x03"
    a = x.get_html_string(0, SEP).split(SEP)
    b = x.get_html_string(ind, SEP).split(SEP)
    if kids and model.visible(kids) and b != ["  " * ind + l for l in a]:
        raise Violation("layout", "indent=%d does not shift every layout line by %d blanks:\n%r\n%r" % (ind, 2 * ind, a[:30], b[:30]))
    if eol.join(a) != x.get_html_string(0, eol):
        raise Violation("layout", "eol=%r does not just replace the line separator" % eol)
    M.ev("shift_relations")
    M.ev("lines", len(a))
    if any(n["k"] == "tag" and n["ws"] and len(n["c"]) > 1 for n in spec.iter_nodes([tree])):
        M.distinct(tree, ind, eol)
        M.sample({"rendered": out0[:300]})
