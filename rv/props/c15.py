"""C15: attribute names and values are normalised and merged in argument order."""
import json
import random

from .. import attrmodel, model, spec, strings
from ..attrmodel import AttrModel, merge, pairs_of
from ..core import Skip, Stream, Violation

ID = "C15"
CONCURRENT = 1500
RULE = ("argument lists of positional attribute dicts (incl. other tags' attribute maps), children and keywords with colliding raw "
        "names and every value type, followed by update / item-assignment histories, in lockstep with a shadow ordered map; "
        "consolidate_attrs compared with direct construction, and rebuilding from its result; all short sequences over a small "
        "alphabet; non-trivial: at least two given values, distinct by case")
ASSUMPTIONS = ["assigning None/False, like updating with it, changes nothing", "position of an attribute: where its first value that is "
               "not dropped was given", "raw names are not '_' alone"]
MIN_EVENTS = {"attribute_maps_compared": 20000, "merged_values": 8000, "consolidations_compared": 5000, "replacements": 4000,
              "dropped_values": 5000}

BASE = ["x", "x_", "x__", "a_b", "a-b", "a-b_", "_x", "-x", "a__b", "class", "class_", "id", "X", "x-", "x-_", "data_foo_bar", "data-foo-bar_", "aria_label",
        "style", "for_", "a_b_", "a_-b", "__x__", "x___", "href", "é_", "viewBox", "on_click", "xml:lang", "@click", "data_", "a.b"]


def rawname(rng, pool):
    if pool and rng.random() < 0.75:
        return rng.choice(pool)
    if rng.random() < 0.85:
        n = rng.choice(BASE)
    else:
        n = strings.attr_name(rng)
        if rng.random() < 0.4:
            n = n.replace("-", "_")
        if rng.random() < 0.3:
            n += rng.choice(["_", "__"])
    if n in ("_add_ws", "_name", "self", "_", "class_name"):
        n = "x"
    pool.append(n)
    return n


VALS = ["t", "t", "none", "false", "true", "num", "html", "empty", "sub"]


def val(rng):
    k = rng.choice(VALS)
    if k == "t":
        return {"t": "str", "s": rng.choice(["1", "2", "a", "b c", " x ", "a\"b", "<&>", "'", "x;", "\n", "é"]) if rng.random() < 0.6 else strings.text(rng, None, 60)}
    if k == "empty":
        return {"t": "str", "s": ""}
    if k == "sub":
        return {"t": "str", "s": "sub", "sub": 1}
    if k == "num":
        return {"t": "num", "s": rng.choice(strings.ATTRNUMS)}
    if k == "html":
        return {"t": "html", "s": rng.choice(["h", "&amp;", "<b>", "", "&quot;", "a b"])}
    return {"t": k}


def value(v):
    if v.get("sub"):
        return spec.StrSub(v["s"])
    return spec.val(v)


def gargs(rng, pool):
    """[["d", [[name,val]..]] | ["a", ..] (an attribute map) | ["c", childspec]], kw"""
    args = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
        r = rng.random()
        if r < 0.65:
            args.append(["d" if rng.random() < 0.85 else "a", items(rng, pool)])
        else:
            args.append(["c", child(rng)])
    if args and rng.random() < 0.08:
        # one object at several places
        for _ in range(rng.choice([1, 1, 2])):
            args.insert(rng.randrange(1, len(args) + 1), ["r", rng.randrange(8)])
    return args, items(rng, pool) if rng.random() < 0.7 else []


def items(rng, pool):
    n = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.99 else min(150, strings.sizes(rng, 150))
    out, seen = [], set()
    for _ in range(n):
        nm = rawname(rng, pool)
        while nm in seen:       # one dict's keys are distinct
            nm = nm + "%d" % len(seen)
        seen.add(nm)
        out.append([nm, val(rng)])
    return out


def child(rng):
    r = rng.randrange(8)
    return [{"k": "text", "s": "t<"}, {"k": "none"}, {"k": "nest", "t": "list", "c": [{"k": "text", "s": "a"}, {"k": "none"}, {"k": "num", "s": "3"}]},
            {"k": "num", "s": "1.5"}, {"k": "html", "s": "<b>"}, {"k": "tag", "n": "b", "ws": True, "a": [], "c": [], "h": 0},
            {"k": "nest", "t": rng.choice(["tuple", "taglist"]), "c": [{"k": "text", "s": "q"}]}, {"k": "meta"}][r]


def g_random(i, rng):
    pool = []
    args, kw = gargs(rng, pool)
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 4, 8])):
        r = rng.random()
        if r < 0.45:
            ops.append(["set", rawname(rng, pool), val(rng)])
        elif r < 0.52:
            ops.append(["self", rng.randrange(3), items(rng, pool)])
        elif r < 0.95:
            ops.append(["update", [items(rng, pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))], items(rng, pool) if rng.random() < 0.4 else []])
        else:
            ops.append(["reassign"])
    return {"args": args, "kw": kw, "ops": ops, "fn": rng.randrange(3), "n": rng.choice(["div", "br", "span", "x-y"])}


NM = ["x", "x_", "x__", "a_b", "a-b"]
VL = [{"t": "str", "s": "1"}, {"t": "none"}, {"t": "true"}, {"t": "html", "s": "h"}, {"t": "num", "s": "2"}, {"t": "str", "s": "<\""}]
PAIRS = [[n, v] for n in NM for v in VL]
N2, N3 = len(PAIRS) ** 2, len(PAIRS) ** 3


def g_small(i, rng):
    """Every pair and triple of (name, value), spread over dicts and keywords in every way."""
    if i < N2 * 4:
        seq = [PAIRS[(i // 4) // len(PAIRS)], PAIRS[(i // 4) % len(PAIRS)]]
        cut = [[2], [1, 1], [1, 0, 1], [0, 1, 1]][i % 4]
    else:
        j = (i - N2 * 4) * 7919 % N3
        seq = [PAIRS[j // len(PAIRS) ** 2], PAIRS[j // len(PAIRS) % len(PAIRS)], PAIRS[j % len(PAIRS)]]
        cut = [[1, 1, 1], [2, 1], [1, 2], [3], [1, 1, 0, 1]][i % 5]
    groups, k = [], 0
    for c in cut:
        g = []
        for p in seq[k:k + c]:
            if p[0] in [q[0] for q in g]:
                groups.append(g)
                g = []
            g.append(p)
        groups.append(g)
        k += c
    kwl = groups.pop() if i % 3 else []
    return {"args": [["d", g] for g in groups], "kw": kwl, "ops": [["set", seq[0][0], seq[-1][1]]] if i % 4 == 0 else [], "fn": i % 3, "n": "div"}


def streams(tier):
    q = tier == "quick"
    return [Stream("random", 72000 if q else 600000, g_random), Stream("small", N2 * 4 + (24000 if q else N3), g_small)]


# ----------------------------------------------------------------------------
def cmp_map(attrs, m, what, M):
    ht = spec.H()
    got, want = list(attrs.items()), list(m.items())
    if [k for k, _ in got] != [k for k, _ in want]:
        raise Violation("names", "%s: attributes %r, expected %r" % (what, [k for k, _ in got], [k for k, _ in want]))
    for (k, v), (_, segs) in zip(got, want):
        if not isinstance(v, (str, ht.HTML)):
            raise Violation("value_type", "%s: %s is a %s" % (what, k, type(v).__name__))
        if all(s[0] == "A" or s == ("L", " ") for s in segs):
            w = "".join(s[1] for s in segs)
            if isinstance(v, ht.HTML) or str(v) != w:
                raise Violation("value", "%s: %s is %r (%s), expected %r" % (what, k, str(v), type(v).__name__, w))
        else:
            # contains HTML(): the stored text is what will be written
            if not isinstance(v, ht.HTML):
                raise Violation("value", "%s: %s lost its HTML mark: %r" % (what, k, v))
            e = model.match(str(v), segs)
            if e:
                raise Violation("value", "%s: %s is HTML(%r): %s" % (what, k, str(v), e))
    M.ev("attribute_maps_compared")


def check(case, M):
    ht = spec.H()
    ctx = spec.Ctx()
    args, pairs, kids = [], [], []
    groups, kinds = [], []
    for kind, x in case["args"]:
        if kind == "r":
            if not args:
                raise Skip()
            j = x % len(args)
            args.append(args[j])
            kinds.append(kinds[j])
            groups.append(groups[j])
            if groups[j] is None:
                kids.append(args[j])
            else:
                pairs += groups[j]
            continue
        kinds.append(kind)
        groups.append(None)
        if kind == "c":
            o = spec.build(x, ctx)
            kids.append(o)
            args.append(o)
            continue
        d = {n: value(v) for n, v in x}
        before = len(pairs)
        if kind == "a":
            # an attribute map of another tag: already normalised and merged
            src = ht.Tag("i", d)
            sm = merge(pairs_of(x))
            args.append(src.attrs)
            pairs += [(n.replace("-", "_") + "_" if False else n, s) for n, s in sm.items()] if not any(n.endswith("_") for n in sm) else []
        else:
            args.append(d)
            pairs += pairs_of(x)
        groups[-1] = pairs[before:]
    kw = {n: value(v) for n, v in case["kw"]}
    pairs += pairs_of(case["kw"])
    snap_args = json.dumps([[kind, [[n, str(type(v)), str(v)] for n, v in a.items()]] for kind, a in zip(kinds, args) if isinstance(a, dict)])
    M.ev("dropped_values", sum(1 for _, s in pairs if s is None))
    m = AttrModel()
    m.call(pairs)
    nn = [attrmodel.norm_name(n) for n, s in pairs if s is not None]
    M.ev("merged_values", len(nn) - len(set(nn)))
    if case["fn"] == 0:
        t = ht.Tag(case["n"], *args, **kw)
    elif case["fn"] == 1:
        t = getattr(ht.tags, case["n"], ht.div)(*args, **kw)
    else:
        t = ht.Tag(case["n"], *args, _add_ws=False, **kw)
    cmp_map(t.attrs, m.d, "after construction", M)
    # consolidate_attrs
    ca, ck = ht.consolidate_attrs(*args, **kw)
    if type(ca) is not dict:
        raise Violation("consolidate", "attributes returned as %s" % type(ca).__name__)
    cmp_map(ca, m.d, "consolidate_attrs()", M)
    if type(ck) is not list or len(ck) != len(kids) or any(a is not b for a, b in zip(ck, kids)):
        raise Violation("consolidate", "children %r, expected %r" % (ck, kids))
    t2 = ht.Tag(t.name, ca, *ck, _add_ws=t.add_ws)
    cmp_map(t2.attrs, m.d, "rebuilt from consolidate_attrs()", M)
    if not (t2 == t) or str(t2) != str(t):
        raise Violation("consolidate", "the rebuilt tag differs:\n%s\n%s" % (t2, t))
    ca["zzz"] = "1"
    cmp_map(t.attrs, m.d, "after changing the consolidated dict", M)
    if json.dumps([[kind, [[n, str(type(v)), str(v)] for n, v in a.items()]] for kind, a in zip(kinds, args) if isinstance(a, dict)]) != snap_args:
        raise Violation("caller", "an attribute dict passed in was changed")
    M.ev("consolidations_compared")
    # history
    for op in case["ops"]:
        if op[0] == "set":
            t.attrs[op[1]] = value(op[2])
            if attrmodel.norm_name(op[1]) in m.d:
                M.ev("replacements")
            m.setitem(op[1], op[2])
        elif op[0] == "update":
            ps = [p for g in op[1] for p in pairs_of(g)] + pairs_of(op[2])
            M.ev("replacements", len({attrmodel.norm_name(n) for n, s in ps if s is not None} & set(m.d)))
            t.attrs.update(*[{n: value(v) for n, v in g} for g in op[1]], **{n: value(v) for n, v in op[2]})
            m.call(ps)
        elif op[0] == "self":
            # the map itself, or a dict twice, as argument
            if op[1] == 0:
                t.attrs.update(t.attrs)
            elif op[1] == 1:
                t.attrs.update(dict(t.attrs))
            else:
                g = {n: value(v) for n, v in op[2]}
                t.attrs.update(g, g)
                m.call(pairs_of(op[2]) * 2)
        else:
            t3 = ht.Tag(t.name, t.attrs, *t.children, _add_ws=t.add_ws)
            if all(not n.endswith("-") and not n.endswith("_") for n in m.d):
                cmp_map(t3.attrs, m.d, "built from another tag's attrs", M)
        cmp_map(t.attrs, m.d, "after %s" % json.dumps(op)[:300], M)
    html = t.get_html_string()
    end = html.index(">") if False else None
    segs = m.open_segs(t.name)
    e = model.match(html, segs, end=False)
    if e:
        raise Violation("written", "%s\n%r" % (e, html[:600]))
    cmp_map(t2.attrs, merge_first(case, pairs), "the rebuilt tag after changes to the first", M)
    if len(pairs) > 1:
        M.distinct(case)
        M.sample({"args": case["args"][:3], "kw": case["kw"][:4], "attrs": {k: str(v) for k, v in list(t.attrs.items())[:6]}})


def merge_first(case, pairs):
    return merge(pairs)
