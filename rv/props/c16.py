"""C16: class/style helpers and css() as a token/declaration algebra."""
import copy
import json

from .. import spec, strings, tok
from ..core import Stream, Violation

ID = "C16"
CONCURRENT = 1500
RULE = ("histories of add_class / remove_class / has_class / add_style, mixed with other attribute changes and copies, on tags with "
        "any initial class/style value, in lockstep with a shadow token list and a shadow declaration string (read from tag.attrs "
        "and back from the rendered HTML); every sequence of length <= 3 (4) over a small token alphabet; css() against a "
        "per-character model, its output given to add_style; non-trivial: at least one change observed, distinct by case")
ASSUMPTIONS = ["tokens contain no whitespace except (add/remove) around them", "queries have no whitespace around the token",
               "css names are ASCII; an upper-case letter directly after an underscore is not tested; css values are strings, numbers or None",
               "after remove_class on an attribute which had no token, its presence is unspecified",
               "HTML() class values have no markup characters; tokens queried are not themselves escaped forms of others when HTML() is involved"]
MIN_EVENTS = {"class_states_compared": 40000, "has_class_queries": 100000, "tokens_removed": 8000, "attribute_dropped": 1500,
              "styles_added": 8000, "styles_rejected": 4000, "css_compared": 10000, "css_accepted_by_add_style": 2500}

TOK = ["foo", "foobar", "foo-x", "-foo", "barfoo", "fo", "o", "f", "Foo", "FOO", "foo_", "foo.", "foo*", "a", "aa", "aaa", "ab", "ba", "b",
       "a-b", "a:b", "md:w-1/2", "x[1]", "(x)", "a+b", "a|b", "\\d", "^a", "a$", ".", "*", "?", "é", "e\u0301", "漢", "0", "1", "None", "True",
       "class", "a&b", "a&amp;b", "<b>", "\"q\"", "'q'", "&", "&amp;", "a,b", "a;b", "{}", "%s", "{0}", "--x", "_", "__x", "a\u200bb"]
META = set("&<>\"'")
WSP = [" ", "  ", "\t", "\n", "\r\n", "\f", " \n "]


def alphabet(rng, html):
    n = rng.choice([1, 2, 3, 4, 6])
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.75 or not out:
            t = rng.choice(TOK)
        elif r < 0.85:
            t = "".join(strings.text(rng, None, 12).split()) or "k"
        elif r < 0.9:
            t = rng.choice(out) + rng.choice(["x", "-", "1", "o"])
        elif r < 0.94:
            t = strings.derived(rng) + (rng.choice(["-", "_", ":", ".", "--"]) + strings.derived(rng) if rng.random() < 0.5 else "")
        else:
            t = "k" * max(1, strings.sizes(rng, 400))
        if "".join(t.split()) != t:
            t = "k"
        if html and "&" in t and ";" in t:
            t = "am"
        if t not in out:
            out.append(t)
    return out


def cls_text(rng, al):
    n = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.97 else min(200, strings.sizes(rng, 200))
    s = rng.choice(["", "", "", " ", "\n"])
    for i in range(n):
        s += (rng.choice([" ", " ", " "] + WSP) if i else "") + rng.choice(al)
    return s + rng.choice(["", "", "", " ", "\t "])


DECL = ["color:red;", "a:b;", "width:100%;height:1px;", ";", "x:'y';", "b:url(\"q\");", "--v:1;", "font-family:\"A\", 'B';", "content:'<';",
        "a:b; ", "a:b", "", " ", "a:b;\n", "a:b;c", "red", "a:b;\u00a0", "a:b;&", "x:é;", "\n;", "  a:1;", "a:b&amp;", "a;b", ":;"]


def g_hist(i, rng):
    html = rng.random() < 0.3
    al = alphabet(rng, html)
    plain = [t for t in al if not META & set(t)]
    init = []
    r = rng.random()
    if r < 0.75:
        k = rng.random()
        if k < 0.7 or not html:
            init.append(["class", {"t": "str", "s": cls_text(rng, al)}])
        else:
            init.append(["class", {"t": "html", "s": cls_text(rng, plain or ["p"])}])
        if rng.random() < 0.1:
            init[-1] = ["class", rng.choice([{"t": "none"}, {"t": "true"}, {"t": "false"}, {"t": "num", "s": "12"}])]
    if rng.random() < 0.5:
        init.append(["style", {"t": "str", "s": rng.choice(DECL)}])
        if html and rng.random() < 0.4:
            init[-1][1] = {"t": "html", "s": rng.choice([d for d in DECL if not META & set(d) or d == "a:b&amp;"])}
        if rng.random() < 0.06:
            init[-1] = ["style", rng.choice([{"t": "true"}, {"t": "none"}])]
    if rng.random() < 0.4:
        init.append(["id", {"t": "str", "s": "i"}])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
        r = rng.random()
        t = rng.choice(al)
        if r < 0.35:
            if rng.random() < 0.12:
                t = rng.choice(WSP) + t + rng.choice(WSP + [""])
            op = ["add", t, rng.choice([0, 0, 1, 2])]
            if html and rng.random() < 0.3 and not META & set(t):
                op.append(1)
        elif r < 0.6:
            op = ["rm", t if rng.random() < 0.85 else rng.choice([" ", "\n", ""]) + t + rng.choice([" ", "\t"])]
            if rng.random() < 0.03:
                op = ["rm", ""]
        elif r < 0.84:
            s = rng.choice(DECL) if rng.random() < 0.7 else strings.text(rng, None, 60) + rng.choice([";", ";", ""])
            op = ["style", s, rng.choice([0, 0, 1, 2])]
            if html and rng.random() < 0.3 and not META & set(s):
                op.append(1)
        elif r < 0.88:
            op = ["set", rng.choice(["class", "class_"]), {"t": "str", "s": cls_text(rng, al)}]
        elif r < 0.90:
            op = ["del", rng.choice(["class", "style"])]
        elif r < 0.93:
            op = ["id", rng.choice(["p", "q"])]
        elif r < 0.96:
            op = ["copy"]
        else:
            op = ["css", gcss(rng)]
        ops.append(op)
    return {"al": al, "init": init, "ops": ops, "n": rng.choice(["div", "span", "br", "script", "x-y"])}


SMALL_T = ["a", "ab", "b"]
SMALL_OPS = [[k, t] + x for t in SMALL_T for k, x in (("add", [0]), ("add", [1]), ("rm", []))]
SMALL_I = [[], [["class", {"t": "str", "s": "a ab a b"}]], [["class", {"t": "str", "s": " ab\tba  a"}]], [["class", {"t": "html", "s": "b ab"}]]]
N3 = len(SMALL_OPS) ** 3 * len(SMALL_I)
N4 = len(SMALL_OPS) ** 4 * len(SMALL_I)


def g_small(i, rng, n):
    init = SMALL_I[i % len(SMALL_I)]
    i //= len(SMALL_I)
    ops = []
    for _ in range(n):
        ops.append(SMALL_OPS[i % len(SMALL_OPS)])
        i //= len(SMALL_OPS)
    return {"al": SMALL_T + ["ba"], "init": init, "ops": ops, "n": "div"}


NAMES = ["color", "font_size", "fontSize", "backgroundColor", "WebkitTransition", "_webkit_box", "__var", "__my_Var", "a", "A", "aB", "aBC", "XMLHttp",
         "margin_top", "marginTop", "z_index", "x1", "x1Y2", "a__b", "a_", "aB_", "border_top_left_radius", "borderTopLeftRadius", "msFilter",
         "class_", "self", "k", "v", "res", "kwargs", "collapse", "value", "None_", "float_", "azAZ", "yZ", "mozM", "zZ", "qA"]


def gname(rng):
    if rng.random() < 0.7:
        n = rng.choice(NAMES)
    else:
        n = "".join(rng.choice("abcxyzABCMNXYZ_019") for _ in range(rng.randrange(1, 14)))
        if n[0].isdigit():
            n = "a" + n
    # an upper-case letter directly after an underscore: unspecified
    o = ""
    for c in n:
        o += c.lower() if o.endswith("_") else c
    return o if o != "collapse_" else "c"


def gcss(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.98 else min(200, strings.sizes(rng, 200))
    kw, seen = [], set()
    for j in range(n):
        nm = gname(rng)
        if nm in seen:
            nm += str(j)
        if nm in seen:
            continue
        seen.add(nm)
        r = rng.random()
        if r < 0.2:
            v = {"t": "none"}
        elif r < 0.4:
            v = {"t": "num", "s": rng.choice([x for x in strings.NUMS if x not in ("True", "False")] + ["0", "0", "0.0"])}
        elif r < 0.5:
            v = {"t": "str", "s": ""}
        else:
            v = {"t": "str", "s": rng.choice(["red", "12px", "url(x;y)", "a b", "'q'", "1;", ";", "{}", "é"]) if rng.random() < 0.6 else strings.text(rng, None, 80)}
        kw.append([nm, v])
    return {"kw": kw, "sep": rng.choice([None, None, "", "\n", " ", ";", "x", "\n  "])}


def g_css(i, rng):
    return {"css": gcss(rng), "style": rng.choice([None, "x:y;", "z"]), "pre": rng.randrange(2)}


def streams(tier):
    q = tier == "quick"
    return [Stream("histories", 70000 if q else 500000, g_hist),
            Stream("small3", N3, lambda i, rng: g_small(i, rng, 3)),
            Stream("small4", 20000 if q else N4, lambda i, rng: g_small(i * 7919 % N4, rng, 4)),
            Stream("css", 70000 if q else 500000, g_css)]


# ----------------------------------------------------------------------------
def css_name(k):
    o = ""
    for c in k:
        o += "-" if c == "_" else ("-" + chr(ord(c) + 32) if "A" <= c <= "Z" else c)
    return o


def css_model(d):
    sep = d["sep"] or ""
    out = ""
    for k, v in d["kw"]:
        if v["t"] == "none":
            continue
        out += css_name(k) + ":" + (v["s"] if v["t"] == "str" else str(strings.mknum(v["s"]))) + ";" + sep
    return out or None


def run_css(d, M):
    ht = spec.H()
    kw = {k: spec.val(v) for k, v in d["kw"]}
    want = css_model(d)
    got = ht.css(**kw) if d["sep"] is None else ht.css(d["sep"], **kw) if len(d["kw"]) % 2 else ht.css(collapse_=d["sep"], **kw)
    if got != want or (got is not None and type(got) is not str):
        raise Violation("css", "css(%r, sep=%r) gave %r, expected %r" % (kw, d["sep"], got, want))
    M.ev("css_compared")
    M.distinct(d)
    return got


def cls_tokens(v):
    """What the attribute's initial value says (plain tokens)."""
    t = v["t"]
    if t in ("str", "html"):
        return v["s"].split()
    if t == "num":
        return [str(strings.mknum(v["s"]))]
    return []


def value_of(t, name):
    """The attribute's value as a browser reads it, or None."""
    if name not in t.attrs:
        return None
    v = t.attrs[name]
    s = str(v)
    return tok.decode(s) if isinstance(v, spec.H().HTML) else s


def check(case, M):
    ht = spec.H()
    if "css" in case:
        s = run_css(case["css"], M)
        if s is not None and not case["css"]["sep"]:
            t = ht.Tag("div", style=case["style"])
            r = t.add_style(s, prepend=bool(case["pre"]))
            if r is not t:
                raise Violation("self", "add_style did not return the tag")
            st = [x for x in ([s, case["style"]] if case["pre"] else [case["style"], s]) if x is not None]
            v = value_of(t, "style")
            if not is_join(v, st):
                raise Violation("style", "%r added to %r gave %r" % (s, case["style"], v))
            M.ev("css_accepted_by_add_style")
        return
    t = ht.Tag(case["n"], **{n: spec.val(v) for n, v in case["init"]}, lang="l")
    init = dict((n, v) for n, v in case["init"])
    toks, had = [], False
    if "class" in init:
        toks, had = cls_tokens(init["class"]), init["class"]["t"] not in ("none", "false")
    present = had            # True / False / None (unspecified)
    style = None
    if "style" in init and init["style"]["t"] not in ("none", "false"):
        style = "" if init["style"]["t"] == "true" else (tok.decode(init["style"]["s"]) if init["style"]["t"] == "html" else init["style"]["s"])
    ident = "i" if "id" in init else None
    state = {"copies": []}
    observe(t, toks, present, style, ident, case, "initially", M)
    for op in case["ops"]:
        k = op[0]
        what = "after %s" % json.dumps(op)[:300]
        if k == "add":
            x = op[1]
            if len(op) > 3:
                x = ht.HTML(x)
            r = t.add_class(x) if op[2] == 2 else t.add_class(x, prepend=bool(op[2]))
            if r is not t:
                raise Violation("self", "add_class did not return the tag")
            tk = op[1].split()
            toks = tk + toks if op[2] == 1 else toks + tk
            present = True
            if not has(t, op[1].strip(), M):
                raise Violation("has", "has_class(%r) is false %s; class=%r" % (op[1].strip(), what, t.attrs.get("class")))
        elif k == "rm":
            r = t.remove_class(op[1])
            if r is not t:
                raise Violation("self", "remove_class did not return the tag")
            x = op[1].strip()
            new = [y for y in toks if y != x]
            M.ev("tokens_removed", len(toks) - len(new))
            if not new:
                if toks:
                    present = False
                    M.ev("attribute_dropped")
                elif present:
                    present = None
            toks = new
        elif k == "style":
            s = ht.HTML(op[1]) if len(op) > 3 else op[1]
            ok = op[1].endswith(";")
            before = repr([(n, type(v).__name__, str(v)) for n, v in t.attrs.items()])
            try:
                r = t.add_style(s) if op[2] == 2 else t.add_style(s, prepend=bool(op[2]))
            except Exception as e:
                if ok:
                    raise Violation("style", "add_style(%r) raised %s: %s" % (op[1], type(e).__name__, e))
                after = repr([(n, type(v).__name__, str(v)) for n, v in t.attrs.items()])
                if after != before:
                    raise Violation("atomic", "the rejected add_style(%r) changed %s to %s" % (op[1], before, after))
                M.ev("styles_rejected")
            else:
                if not ok:
                    raise Violation("style", "add_style(%r) was accepted" % op[1])
                if r is not t:
                    raise Violation("self", "add_style did not return the tag")
                parts = [y for y in ([op[1], style] if op[2] == 1 else [style, op[1]]) if y is not None]
                v = value_of(t, "style")
                if not is_join(v, parts):
                    raise Violation("style", "%s the style is %r, was %r" % (what, v, style))
                style = v
                M.ev("styles_added")
        elif k == "set":
            t.attrs[op[1]] = op[2]["s"]
            toks, present = op[2]["s"].split(), True
        elif k == "del":
            t.attrs.pop(op[1], None)
            if op[1] == "class":
                toks, present = [], False
            else:
                style = None
        elif k == "id":
            t.attrs["id"] = op[1]
            ident = op[1]
        elif k == "css":
            s = run_css(op[1], M)
            if s is not None and not op[1]["sep"]:
                t.add_style(s)
                v = value_of(t, "style")
                if not is_join(v, [y for y in (style, s) if y is not None]):
                    raise Violation("style", "%s the style is %r, was %r" % (what, v, style))
                style = v
                M.ev("css_accepted_by_add_style")
        elif k == "copy":
            state["copies"].append((t, list(toks), present, style, ident))
            t = copy.copy(t)
        observe(t, toks, present, style, ident, case, what, M)
    for c in state["copies"]:
        observe(*c, case, "the tag which was copied", M)
    M.distinct(case)
    M.sample({"init": case["init"], "ops": case["ops"][:5], "class": str(t.attrs.get("class")), "style": str(t.attrs.get("style"))})


def is_join(v, parts):
    """The declaration strings in order, separated by whitespace at most."""
    if v is None:
        return False
    if len(parts) == 1:
        return v == parts[0]
    a, b = parts
    return v.startswith(a) and v.endswith(b) and len(v) >= len(a) + len(b) and v[len(a):len(v) - len(b)].strip(" ") == ""


def has(t, x, M):
    r = t.has_class(x)
    if r is not True and r is not False:
        raise Violation("has", "has_class(%r) returned %r" % (x, r))
    M.ev("has_class_queries")
    return r


def observe(t, toks, present, style, ident, case, what, M):
    v = value_of(t, "class")
    if (v is not None) != present and present is not None:
        raise Violation("present", "%s: class is %r, expected tokens %r%s" % (what, v, toks, "" if present else " and no attribute"))
    if (v or "").split() != toks:
        raise Violation("tokens", "%s: class tokens %r, expected %r" % (what, (v or "").split(), toks))
    for x in case["al"] + ["nope", "", "class"]:
        if has(t, x, M) != (x in toks):
            raise Violation("has", "%s: has_class(%r) is %r; class=%r, tokens %r" % (what, x, x not in toks, t.attrs.get("class"), toks))
    s = value_of(t, "style")
    if s != style:
        raise Violation("style", "%s: style is %r, expected %r" % (what, s, style))
    if t.attrs.get("id") != ident or t.attrs.get("lang") != "l" or set(t.attrs) - {"class", "style", "id", "lang"}:
        raise Violation("others", "%s: other attributes changed: %r" % (what, t.attrs))
    # as written
    html = str(t)
    try:
        at = [(n, tok.decode(r)) for n, r in tok.tokens(html)[0][2]]
    except tok.ParseError as e:
        raise Violation("written", "%s: %s: %r" % (what, e, html[:300]))
    w = dict(at)
    if w.get("class") != v or w.get("style") != s or len(at) != len(w):
        raise Violation("written", "%s: written as %r with class %r, style %r" % (what, html[:300], v, s))
    M.ev("class_states_compared")
