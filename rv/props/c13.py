"""C13: serialised dependencies round-trip through HTML text."""
import copy
import json
import random
import re

from packaging.version import Version

from .. import model, shapes, spec, strings
from ..core import Stream, Violation
from ..model import E, Leaf
from . import c07, c11

ID = "C13"
CONCURRENT = 800
PROCESS_WIDE = ("json_mode",)
RULE = ("dependencies with hostile strings in every field serialised (any indent), embedded 0-8 times in hostile text and read "
        "back; placeholders at any position and multiplicity; JSON-mode rendering post-processed vs. direct rendering; "
        "non-trivial: at least one dependency recovered, distinct by (fields, text, placeholder)")
ASSUMPTIONS = ["surrounding text contains neither the opening tag of a serialised dependency nor a placeholder spread over a removed "
               "script", "the equivalence with HTMLDocument is checked for distinct dependency names"]
MIN_EVENTS = {"dependencies_recovered": 6000, "serialised_elements_scanned": 8000, "texts_compared": 4000, "json_mode_equivalences": 1500,
              "placeholders_replaced": 2500, "duplicates_dropped": 500, "changed_and_serialised_again": 1500}

OPEN = '<script type="application/json" data-html-dependency="">'
HOSTILE = ["</script>", "</SCRIPT>", "</ScRiPt >", "</script", "</script\n", "</script/", "<script>", "<!--", "-->", "<!-- <script>", "]]>",
           OPEN, OPEN + "{}</script>", "\\", "\\\\", "\"", "\\\"", "'", "\n", "\r\n", "\r", "\u2028", "\u2029", "\x00", "\x1f", "\x7f", "é", "日本",
           "\U0001F600", "\ud800", "<\\/script>", "\\u003c/script>", "&lt;/script&gt;", "</\\script>", "</ſcript>", "</scrıpt>", "<//script>",
           "</ script>", "</</script>", "</script></script>", "</s", "</SCRIPT\t>", "{{ }}", "null", "{\"a\":1}", ",", "]", "}", "\\g<0>", "\\1", "$1",
           "</style>", "</sCript\r\n>", "<\\/", "\\/", "/", "%s", "\t", "</scripT<", "</script\x0c>", "<\\/SCRIPT>", "</\nscript>", "\\n"]


def hs(rng, cap=60):
    r = rng.random()
    if r < 0.35:
        return rng.choice(HOSTILE)
    if r < 0.6:
        return "".join(rng.choice(HOSTILE + ["a", "b ", "x"]) for _ in range(rng.randrange(1, 5)))
    if r < 0.8:
        return strings.text(rng, None, cap)
    return rng.choice(["a", "lib", "x.js", "d/e f.css", "1", "", "https://x.org/a"])


def hp(rng):
    """A path: rendering resolves and encodes it."""
    return hs(rng).replace("\x00", "").replace("\ud800", "")


def key(rng):
    return "k" + hs(rng)


def hdep(rng, names=None):
    d = {"k": "dep", "name": hs(rng) if names is None else rng.choice(names), "ver": rng.choice(spec.VERSIONS)}
    r = rng.random()
    if r < 0.4:
        d["src"] = {"subdir": hp(rng)}
        if rng.random() < 0.4:
            d["src"]["package"] = rng.choice([None, "htmltools"])
        if rng.random() < 0.1:
            d["src"][key(rng)] = hs(rng)
    elif r < 0.75:
        d["src"] = {"href": hs(rng)}
    elif r < 0.8:
        d["src"] = None
    for k, f in (("script", "src"), ("css", "href")):
        if rng.random() < 0.5:
            d[k] = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                it = {f: hp(rng)}
                if rng.random() < 0.4:
                    it = {**({key(rng): hs(rng)} if rng.random() < 0.5 else {}), **it, rng.choice(["type", "rel", "integrity", "x y", key(rng)]): hs(rng)}
                    it.setdefault(f, "z")
                d[k].append(it)
    if rng.random() < 0.3:
        d["meta"] = [{"name": hs(rng), "content": hs(rng)} for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.3:
            d["meta"][0][key(rng)] = hs(rng)
    if rng.random() < 0.3:
        d["all"] = rng.random() < 0.8
    r = rng.random()
    if rng.random() < 0.01:
        d["head"] = {"s": (rng.choice(["x", "é", "\\", "<", "\n", "a b", "</p>"]) * strings.big(rng))[:strings.big(rng)] + hs(rng)}
    elif r < 0.3:
        d["head"] = {"s": hs(rng)}
    elif r < 0.45:
        g = spec.Gen(rng, spec.Opts(profile="tiny", w=dict(meta=0, dep=0, tfy=0, repr=0.6), share=0, max_text=60))
        d["head"] = {"nodes": g.children(2)}
    return d


def surrounding(rng):
    r = rng.random()
    if r < 0.3:
        s = ""
    elif r < 0.5:
        s = rng.choice(["\n", "<p>x</p>", "</div>\n", "<html><head></head><body>", '<script type="application/json">{}</script>',
                        '<script type="application/json" data-html-dependency>{}</script>', "</script>", '<script data-html-dependency="" type="x">',
                        "<script type='application/json'>", "\r\n", " ", '<script type="application/json" data-for="x">{"name":"y"}</script>',
                        "<!-- c -->", "{", "}", '"'])
    else:
        s = "".join(hs(rng, 300) for _ in range(rng.choice([1, 1, 2])))
    return "" if OPEN in s or 'data-html-dependency=""' in s else s


PATS = ["<meta name=\"ph\">", "PLACEHOLDER", "{{ deps }}", "\\g<0>", ".*", "$1", "<!-- HEAD -->", "a", "\\", "^", "(", "[x]", "+", "日本", "\n", "<head>",
        "%s", "{}", "  ", "&amp;", "<script", "lib", "</head>", "aa", "aba"]


def g_round(i, rng):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6])
    pool = [hdep(rng) for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < 0.3:                      # nearly equal ones
        d = json.loads(json.dumps(pool[0]))
        k = rng.choice(["ver", "name", "all", "meta", "head"])
        d[k] = {"ver": "7.7", "name": d["name"] + " ", "all": not d.get("all"), "meta": [{"name": "q", "content": "q"}], "head": {"s": "<q>"}}[k]
        pool.append(d)
    deps = [rng.choice(pool) for _ in range(n)]
    pat = rng.choice(PATS) if rng.random() < 0.8 else (hs(rng) or "X")
    texts = [surrounding(rng) for _ in range(n + 1)]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        j = rng.randrange(n + 1)
        k = rng.randrange(len(texts[j]) + 1)
        texts[j] = texts[j][:k] + pat + texts[j][k:]
    ind = [rng.choice([None, None, None, 0, 1, 2, 4])] * n
    if rng.random() < 0.2:
        ind = [rng.choice([None, 0, 2]) for _ in range(n)]
    return {"t": "round", "deps": deps, "nodes": texts, "pat": pat, "indent": ind,
            "change": rng.randrange(1, 1 << 30) if rng.random() < 0.25 else 0, "given": [rng.choice(pool) if rng.random() < 0.3 else hdep(rng) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))],
            "gtimes": strings.sizes(rng, 300) if rng.random() < 0.01 else 1, "none": rng.random() < 0.5}


def simple_dep(rng, name):
    d = c11.gen_dep(rng)
    while "hc" in d or "nodes" in (d.get("head") or {}) and any(n["k"] in ("dep", "tfy") for n in c11.walk(d["head"]["nodes"])):
        d = c11.gen_dep(rng)
    d["name"] = name
    d.pop("share", None)
    if rng.random() < 0.3:
        d["head"] = {"s": rng.choice(HOSTILE + ["<title>PH</title>", "PH"])}
    return d


def g_place(i, rng):
    """Distinct, well-behaved dependencies: the inserted markup is checked in full."""
    n = rng.choice([0, 1, 1, 2, 3, 4])
    names = rng.sample(["a", "b", "c", "jquery", "x-y", "N.1", "react"], n)
    deps = [simple_dep(rng, x) for x in names]
    given = rng.randrange(n + 1)
    pat = rng.choice(PATS + ["PH", "PH"])
    texts = [surrounding(rng) for _ in range(rng.choice([2, 3, 4]) + n - given)]
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        j = rng.randrange(len(texts))
        k = rng.randrange(len(texts[j]) + 1)
        texts[j] = texts[j][:k] + pat + texts[j][k:]
    return {"t": "place", "deps": deps, "ngiven": given, "nodes": texts, "pat": pat,
            "cfg": [[rng.choice(["lib", None, "", "a/b"]), rng.random() < 0.6] for _ in range(2)], "indent": rng.choice([None, None, 0, 2])}


def g_json(i, rng):
    """Trees rendered in JSON mode and post-processed."""
    names = ["a", "b", "c", "jquery", "x-y"]
    dup = {}

    def dep(r):
        n = r.choice(names)
        if n not in dup:
            dup[n] = simple_dep(r, n)
        d = json.loads(json.dumps(dup[n]))
        return d

    t = spec.gen_tree(rng, w=dict(dep=3, meta=0.4, tfy=0.6, html=1, repr=0.5), max_text=60, depgen=dep, profile=rng.choice(["tiny", "small", "small"]))
    for n in spec.iter_nodes([t]):
        if n["k"] in ("text", "html", "repr") and 'data-html-dependency=""' in n["s"]:
            n["s"] = "x"
    frags = [t]
    if rng.random() < 0.3:
        frags.append(spec.gen_tree(rng, w=dict(dep=3, meta=0, tfy=0, repr=0), max_text=20, depgen=dep, profile="tiny"))
    return {"t": "json", "items": frags, "texts": ["<html><head>PH</head><body>", "</body></html>"], "cfg": [rng.choice(["lib", None, "a/b"]), rng.random() < 0.6],
            "how": rng.randrange(4)}


def streams(tier):
    q = tier == "quick"
    return [Stream("roundtrip", 18000 if q else 300000, g_round), Stream("placeholder", 12000 if q else 200000, g_place),
            Stream("json_mode", 9000 if q else 150000, g_json)]


# ----------------------------------------------------------------------------------
def head_markup(d):
    return None if d.head is None else d.head.get_html_string()


def fields(d):
    return (d.name, str(d.version), json.dumps(d.source), json.dumps(d.script), json.dumps(d.stylesheet), json.dumps(d.meta), bool(d.all_files),
            head_markup(d))


NAMES = ["name", "version", "source", "script", "stylesheet", "meta", "all_files", "head"]


def same_dep(got, orig, what):
    a, b = fields(got), fields(orig)
    if a != b:
        k = next(i for i in range(8) if a[i] != b[i])
        raise Violation("roundtrip", "%s: %s came back as %r, was %r" % (what, NAMES[k], a[k], b[k]))
    if orig.version != got.version:
        raise Violation("roundtrip", "%s: version %r != %r" % (what, got.version, orig.version))
    if orig.head is None and not got == orig:
        raise Violation("roundtrip", "%s: not equal to the original %r" % (what, a))


def serialise(dep, indent, M):
    t = dep.serialize_to_script_json(indent) if indent is not None else dep.serialize_to_script_json()
    s = t.get_html_string()
    hits = [m.start() for m in re.finditer("(?i)</script", s)]
    if not s.endswith("</script>") or hits != [len(s) - 9]:
        raise Violation("end_tag", "an end tag inside the serialised element: %r" % s[:1500])
    payload = s[s.index(">") + 1:-9]
    try:
        j = json.loads(payload)
    except ValueError as e:
        raise Violation("json", "the payload is not JSON (%s): %r" % (e, payload[:600]))
    want = {"name": dep.name, "version": str(dep.version), "source": dep.source, "script": dep.script, "stylesheet": dep.stylesheet, "meta": dep.meta,
            "all_files": dep.all_files, "head": head_markup(dep)}
    for k, v in want.items():
        if j.get(k) != v:
            raise Violation("json", "field %s is serialised as %r, is %r" % (k, j.get(k), v))
    M.ev("serialised_elements_scanned")
    return s


def check(case, M):
    {"round": check_round, "place": check_place, "json": check_json}[case["t"]](case, M)


def check_round(case, M):
    ht = spec.H()
    deps = [spec.build_dep(d) for d in case["deps"]]
    given = [spec.build_dep(d) for d in case["given"]]
    given = given * max(1, min(case.get("gtimes", 1), 300 // max(1, len(given))))
    texts, pat = case["nodes"], case["pat"]
    if len(texts) != len(deps) + 1 or not pat:
        return      # only after shrinking
    ser = [serialise(d, ind, M) for d, ind in zip(deps, case["indent"])]
    full = texts[0] + "".join(s + t for s, t in zip(ser, texts[1:]))
    bare = "".join(texts)
    if full.count(OPEN) != len(ser) or bare.count(pat) != sum(t.count(pat) for t in texts):
        return
    if case.get("change"):
        # the dependency is changed between two serialisations
        rng = random.Random(case["change"])
        d = rng.choice(deps)
        for _ in range(rng.choice([1, 2])):
            change(d, rng)
            s = serialise(d, case["indent"][0], M)
            back = ht.HTMLTextDocument("x" + s, deps_replace_pattern=pat).render()["dependencies"]
            if len(back) != 1:
                raise Violation("count", "a changed dependency came back as %r" % back)
            same_dep(back[0], d, "changed dependency")
            change(back[0], rng)
            again = ht.HTMLTextDocument("x" + s, deps_replace_pattern=pat).render()["dependencies"]
            if len(again) != 1:
                raise Violation("count", "a changed dependency, read a second time, came back as %r" % again)
            same_dep(again[0], d, "read again")
            M.ev("changed_and_serialised_again")
        # the ones already in the text are as they were
        deps = [spec.build_dep(d) for d in case["deps"]]
    distinct, seen = [], set()
    for d, s in zip(deps, ser):
        if s not in seen:
            seen.add(s)
            distinct.append(d)
    before = [fields(d) for d in given]
    glist = list(given)
    doc = ht.HTMLTextDocument(full, deps=glist if (given or not case["none"]) else None, deps_replace_pattern=pat)
    if pat not in bare:
        r = doc.render()
        if r["html"] != bare:
            raise Violation("text", "the text without its serialised dependencies should be\n%r\ngot\n%r" % (bare[:800], r["html"][:800]))
    else:
        i = bare.index(pat)
        r = safe_render(doc, deps + given)
        if r is None:
            return
        h = r["html"]
        pre, post = bare[:i], bare[i + len(pat):]
        if not (h.startswith(pre) and h.endswith(post) and len(h) >= len(pre) + len(post)):
            raise Violation("text", "text outside the first placeholder %r changed\nbefore: %r\nafter:  %r\ngot: %r" % (pat, pre[-200:], post[:200], h[:800]))
        M.ev("placeholders_replaced")
    M.ev("texts_compared")
    got = r["dependencies"]
    want = given + distinct
    if len(got) != len(want):
        raise Violation("count", "recovered %r, expected %r" % ([d.name for d in got], [d.name for d in want]))
    for g, w in zip(got, want):
        same_dep(g, w, "recovered dependency")
    if [fields(d) for d in given] != before or len(glist) != len(given):
        raise Violation("caller", "the caller's dependencies changed")
    M.ev("dependencies_recovered", len(distinct))
    M.ev("duplicates_dropped", len(deps) - len(distinct))
    M.distinct(case)
    M.sample({"serialised": ser[0][:400], "text": bare[:200], "placeholder": pat})


def change(d, rng):
    k = rng.randrange(8)
    s = hs(rng)
    if k == 0:
        d.name += s or "x"
    elif k == 1:
        d.version = Version("9.%d" % rng.randrange(99))
    elif k == 2:
        d.script = d.script + [{"src": hp(rng)}]
    elif k == 3:
        d.script.append({"src": hp(rng), "type": s})
    elif k == 4:
        d.stylesheet.append({"href": hp(rng), "rel": "stylesheet"})
    elif k == 5:
        d.meta.append({"name": s, "content": s})
    elif k == 6:
        d.all_files = not d.all_files
    else:
        if d.head is None:
            d.head = spec.H().TagList(s)
        else:
            d.head.append(s)


def safe_render(doc, deps):
    return doc.render()


def listing(deps):
    if not deps:
        return []
    return [E("script", True, [("type", [("A", "application/html-dependencies")])],
              [Leaf("T", ";".join("%s[%s]" % (d["name"], Version(d["ver"])) for d in deps))])]


def check_markup(got, deps, prefix, iv, what, ht, exact=True):
    kids = listing(deps) + [t for d in deps for t in c11.dep_tags(d, prefix, iv)]
    m = model.match(got, [("W",)] + model.flow(kids) + [("W",)])
    if m:
        raise Violation("markup", "%s (lib_prefix=%r include_version=%r): %s\ninserted: %r" % (what, prefix, iv, m, got[:1200]))


def check_place(case, M):
    ht = spec.H()
    deps, texts, pat = case["deps"], case["nodes"], case["pat"]
    ng = case["ngiven"]
    if not pat or len(texts) < 1 + len(deps) - ng:
        return
    ser = [serialise(spec.build_dep(d), case["indent"], M) for d in deps[ng:]]
    full = texts[0]
    for k, t in enumerate(texts[1:]):
        full += (ser[k] if k < len(ser) else "") + t
    bare = "".join(texts)
    if full.count(OPEN) != len(ser) or bare.count(pat) != sum(t.count(pat) for t in texts):
        return
    doc = ht.HTMLTextDocument(full, deps=[spec.build_dep(d) for d in deps[:ng]], deps_replace_pattern=pat)
    for k, (prefix, iv) in enumerate(case["cfg"] + case["cfg"][:1]):
        r = doc.render(**spec.render_kw(prefix, iv, (k + len(bare)) % 2))
        h = r["html"]
        r["dependencies"].clear()           # the caller's own list
        i = bare.find(pat)
        if i < 0:
            if h != bare:
                raise Violation("text", "no placeholder, but the text changed: %r -> %r" % (bare[:500], h[:500]))
            M.ev("texts_compared")
            continue
        pre, post = bare[:i], bare[i + len(pat):]
        if not (h.startswith(pre) and h.endswith(post) and len(h) >= len(pre) + len(post)):
            raise Violation("text", "text outside the first placeholder %r changed\nbefore: %r\nafter:  %r\ngot: %r" % (pat, pre[-200:], post[:200], h[:800]))
        ins = h[len(pre):len(h) - len(post)]
        check_markup(ins, deps, prefix, iv, "inserted markup", ht)
        # the same that HTMLDocument puts into <head>
        dh = ht.HTMLDocument("x", *[spec.build_dep(d) for d in deps]).render(**spec.render_kw(prefix, iv, (k + len(bare)) % 2))["html"]
        start = '<meta charset="utf-8"/>'
        a = dh.index(start) + len(start)
        b = dh.rindex("</head>")
        if squeeze(dh[a:b]) != squeeze(ins):
            raise Violation("same_markup", "HTMLDocument's head has\n%s\ninserted:\n%s" % (dh[a:b][:800], ins[:800]))
        M.ev("placeholders_replaced")
        M.ev("texts_compared")
    M.ev("dependencies_recovered", len(ser))
    M.distinct(case)


def squeeze(s):
    """Ignores layout (the exact content is matched by check_markup)."""
    return s.replace(" ", "").replace("\n", "")


def check_json(case, M):
    ht = spec.H()
    frags = [spec.build(t, spec.Ctx()) for t in case["items"]]
    if not frags:
        return
    plain = [str(f) for f in frags]
    how = case["how"]
    show = [str, repr, lambda x: x._repr_html_(), str][how]
    old = ht.html_dependency_render_mode
    ht.html_dependency_render_mode = "json"
    try:
        out = [show(f) for f in frags]
        out2 = [show(f) for f in frags]
        rendered = [f.render()["html"] for f in frags]
    finally:
        ht.html_dependency_render_mode = old
    if [str(f) for f in frags] != plain:
        raise Violation("mode", "rendering in JSON mode changed a later rendering")
    if out2 != out:
        raise Violation("mode", "two renderings in JSON mode differ")
    resolved = [model.resolve(model.collect_deps(model.norm([t], True))) for t in case["items"]]
    deps, seen = [], set()
    for r in resolved:
        for d in r:
            k = json.dumps(d, sort_keys=True)
            if d["name"] not in seen:
                seen.add(d["name"])
                deps.append(d)
    a, b = case["texts"]
    if any("PH" in p for p in plain) or any('data-html-dependency=""' in p for p in plain):
        return
    doc = ht.HTMLTextDocument(a + "\n".join(out) + b, deps_replace_pattern="PH")
    prefix, iv = case["cfg"]
    r = doc.render(**spec.render_kw(prefix, iv, len(plain[0]) % 2))
    h = r["html"]
    pa, pb = a.split("PH")
    if not h.startswith(pa):
        raise Violation("text", "text before the placeholder changed: %r" % h[:200])
    # body: each fragment's direct rendering, with nothing but layout whitespace where the scripts were
    segs = []
    for p in plain:
        segs += [("L", p), ("W",)]
    ins_end = None
    kids = listing(deps) + [t for d in deps for t in c11.dep_tags(d, prefix, iv)]
    m = model.match(h, [("L", pa), ("W",)] + model.flow(kids) + [("W",), ("L", pb)] + segs + [("L", b)])
    if m:
        raise Violation("json_mode", "JSON mode + HTMLTextDocument differs from direct rendering: %s\n%r" % (m, h[:1500]))
    got = [c07.dep_view(x) for x in r["dependencies"]]
    want = [c07.dep_view(spec.build_dep(d)) for d in deps]
    if got != want:
        raise Violation("json_mode", "dependencies %r, expected %r" % (got[:5], want[:5]))
    # the same through HTMLDocument
    dr = ht.HTMLDocument(*frags).render(**spec.render_kw(prefix, iv, len(plain[0]) % 2))
    if [c07.dep_view(x) for x in dr["dependencies"]] != got:
        raise Violation("json_mode", "HTMLDocument reports other dependencies: %r" % dr["dependencies"])
    M.ev("json_mode_equivalences")
    M.ev("dependencies_recovered", len(deps))
    if deps:
        M.distinct(case)
