"""C14: child lists are the flattening of what was supplied, after any history."""
import collections
import copy
import decimal
import fractions
import json
import random
import types

from .. import spec, strings
from ..core import Stream, Violation

ID = "C14"
CONCURRENT = 600
RULE = ("random operation histories over several child lists and tags (construction, append, extend, insert, +, reflected +, +=, "
        "slicing, repetition, list reads/removals) run in lockstep with a shadow list that holds the depth-first flattening by "
        "identity; all lists compared after every operation; arguments of unsupported type at any depth must raise TypeError and "
        "change nothing; non-trivial: a history with at least three mutations, distinct by operations")
ASSUMPTIONS = ["operands of + and extend are lists, tuples, TagLists, strings, HTML or (extend) iterators", "Python's list semantics define "
               "slicing, insertion indices, repetition"]
MIN_EVENTS = {"operations_compared": 30000, "lists_compared": 60000, "rejections_observed": 3000, "is_tag_child_checked": 10000,
              "elements_checked": 100000}


def value(rng, depth=0, bad=0.0):
    r = rng.random()
    if bad and r < bad:
        return {"k": "bad", "b": rng.choice(BAD_KINDS)}
    r = rng.random()
    if r < 0.28 and depth < 5:
        return nest(rng, depth, bad)
    if r < 0.30 and depth < 3:
        v = {"k": "text", "s": rng.choice(["x", "", "y z"])}
        for _ in range(min(60, strings.sizes(rng, 60))):
            v = {"k": "nest", "t": rng.choice(["list", "tuple"]), "c": [v]}
        return v
    k = rng.choice(["text", "text", "text", "html", "num", "num", "repr", "meta", "dep", "tfy", "tag", "none", "none", "ref", "old", "sub", "bool", "reprhtml",
                    "jsx"])
    if k in ("text", "html"):
        return {"k": k, "s": strings.text(rng, None, 60)}
    if k == "num":
        return {"k": "num", "s": strings.num(rng)}
    if k == "bool":
        return {"k": "num", "s": rng.choice(["True", "False"])}
    if k == "sub":
        return {"k": "text", "s": strings.text(rng, None, 20), "sub": 1}
    if k == "repr" or k == "reprhtml":
        return {"k": "repr", "s": "<r>"}
    if k == "dep":
        return {"k": "dep", "name": "d", "ver": "1"}
    if k == "tfy":
        return {"k": "tfy", "m": "list", "c": []}
    if k == "tag":
        return {"k": "tag", "n": "b", "ws": True, "a": [], "c": [], "h": 0}
    if k in ("ref", "old"):
        return {"k": k, "i": rng.randrange(100)}
    return {"k": k}


def nest(rng, depth, bad):
    n = rng.choice([0, 0, 1, 2, 3, 3, 5]) if rng.random() < 0.99 else min(300, strings.sizes(rng, 300))
    return {"k": "nest", "t": rng.choice(["list", "list", "tuple", "tuple", "taglist", "ntuple", "sublist"]),
            "c": [value(rng, depth + 1, bad) for _ in range(n)]}


def busy(objs):
    """The library is used for something else while it takes in these."""
    for x in objs:
        spec.disturb()
        yield x
    spec.disturb()


BAD_KINDS = ["object", "dict", "set", "bytes", "gen", "range", "complex", "decimal", "fraction", "func", "cls", "ellipsis", "frozenset", "iter", "bytearray",
             "deque", "strdict", "map", "memoryview", "module", "emptydict", "emptyset", "zero_decimal", "zero_complex", "emptydeque", "emptymap", "notimpl"]


def badval(b):
    return {"object": object, "dict": lambda: {"a": 1}, "set": lambda: {1}, "bytes": lambda: b"abc", "gen": lambda: (x for x in ["a"]),
            "range": lambda: range(2), "complex": lambda: 1j, "decimal": lambda: decimal.Decimal("1"), "fraction": lambda: fractions.Fraction(1, 2),
            "func": lambda: (lambda: None), "cls": lambda: int, "ellipsis": lambda: ..., "frozenset": frozenset, "iter": lambda: iter(["a"]),
            "bytearray": lambda: bytearray(b"x"), "deque": lambda: collections.deque(["a"]), "strdict": lambda: {"class": "x"},
            "map": lambda: map(str, [1]), "memoryview": lambda: memoryview(b"x"), "emptydict": dict, "emptyset": set, "zero_decimal": lambda: decimal.Decimal(0), "zero_complex": lambda: 0j,
            "emptydeque": collections.deque, "emptymap": lambda: types.MappingProxyType({}), "module": lambda: json, "notimpl": lambda: NotImplemented}[b]()


class SubL(list):
    pass


NT = collections.namedtuple("NT", "a b")

OPS = ["append", "append", "append", "appendn", "extend", "extend", "insert", "insert", "insert", "add", "radd", "iadd", "iadd", "new", "slice", "mul",
       "imul", "rmul", "copy", "del", "pop", "reverse", "clear", "addstr", "raddstr", "extstr", "extiter", "delslice", "remove0", "tag", "tappend", "textend",
       "tinsert", "tnew", "self", "read", "iaddstr", "attrlist"]


def strarg(ht, o):
    return [str, ht.HTML, spec.StrSub, spec.html_sub()][int(o["h"])](o["s"])


def g_history(i, rng):
    bad = rng.choice([0, 0, 0.03, 0.15])
    ops = []
    for _ in range(rng.choice([3, 6, 10, 15, 25]) if rng.random() < 0.98 else 80):
        op = rng.choice(OPS)
        o = {"op": op, "l": rng.randrange(100)}
        n = rng.choice([0, 1, 1, 2, 3]) if op in ("new", "extend", "add", "radd", "iadd", "extiter", "textend", "tnew", "tag") else \
            rng.choice([1, 1, 2, 3]) if op in ("appendn", "tappend") else 1
        if op in ("append", "appendn", "extend", "insert", "add", "radd", "iadd", "new", "extiter", "tag", "tappend", "textend", "tinsert", "tnew"):
            o["vals"] = [value(rng, 0, bad) for _ in range(n)]
        if op in ("add", "radd", "iadd", "extend", "textend"):
            o["t"] = rng.choice(["list", "list", "tuple", "taglist", "sublist"])
        if op in ("insert", "tinsert"):
            o["i"] = rng.choice([0, 0, 1, 2, -1, -2, 3, 100, -100, 5, rng.randrange(-10, 20)])
        if op in ("slice", "delslice"):
            o["sl"] = [rng.choice([None, 0, 1, 2, -1, -2, 5, 100, -100]) for _ in range(2)] + [rng.choice([None, None, 1, 2, -1, 3])]
        if op in ("mul", "imul", "rmul"):
            o["n"] = rng.choice([0, 1, 2, 3, -1, 2, 4, 5, 7]) if rng.random() < 0.9 else strings.sizes(rng, 70)
        if op in ("addstr", "raddstr", "extstr", "iaddstr"):
            o["s"] = rng.choice(["", "abc", "<b>", strings.text(rng, None, 20)])
            o["h"] = rng.choice([0, 0, 0, 1, 1, 2, 3])
        if op in ("del", "pop", "read"):
            o["i"] = rng.randrange(-3, 6)
        ops.append(o)
    return {"ops": ops}


def g_single(i, rng):
    """One operation on a short list: every kind of argument at every place."""
    op = OPS_SINGLE[i % len(OPS_SINGLE)]
    j = i // len(OPS_SINGLE)
    kinds = [{"k": "text", "s": "x"}, {"k": "html", "s": "x y"}, {"k": "num", "s": "1"}, {"k": "num", "s": "1.0"}, {"k": "none"}, {"k": "repr", "s": "r"}, {"k": "meta"},
             {"k": "tag", "n": "b", "ws": True, "a": [], "c": [], "h": 0}, {"k": "nest", "t": "list", "c": []}, {"k": "text", "s": ""}, {"k": "num", "s": "True"},
             {"k": "nest", "t": "taglist", "c": [{"k": "text", "s": "q"}, {"k": "none"}]}] + [{"k": "bad", "b": b} for b in BAD_KINDS]
    v = kinds[j % len(kinds)]
    j //= len(kinds)
    for _ in range(j % 4):
        v = {"k": "nest", "t": ["list", "tuple", "taglist"][j % 3], "c": [{"k": "text", "s": "a"}, v, {"k": "num", "s": "7"}][(j // 4) % 2:]}
    base = [{"k": "text", "s": "0"}, {"k": "num", "s": "1"}, {"k": "text", "s": "2"}]
    o = {"op": op, "l": 0, "vals": [v], "t": ["list", "tuple", "taglist"][(j // 8) % 3], "i": [0, 1, -1, 3, 9][(j // 8) % 5]}
    return {"ops": [{"op": "new", "l": 0, "vals": base}, o, {"op": "append", "l": 0, "vals": [{"k": "text", "s": "end"}]}]}


OPS_SINGLE = ["append", "extend", "insert", "add", "radd", "iadd", "new", "tappend", "textend", "tinsert", "tnew", "tag"]


def streams(tier):
    q = tier == "quick"
    return [Stream("histories", 21000 if q else 400000, g_history), Stream("single", 12000 if q else 60000, g_single)]


# --------------------------------------------------------------------------------
class Invalid(Exception):
    pass


class World:
    def __init__(self, M):
        self.ht = spec.H()
        self.lists = []         # (TagList, shadow)
        self.tags = []          # Tag objects whose .children is in lists
        self.olds = []          # objects seen before, to be supplied again
        self.M = M

    def mk(self, v):
        """-> (object, flat expectation); the flat part raises Invalid lazily via None."""
        ht = self.ht
        k = v["k"]
        if k == "none":
            return None, []
        if k == "bad":
            return badval(v["b"]), None
        if k == "ref":
            if not self.lists:
                return None, []
            t, sh = self.lists[v["i"] % len(self.lists)]
            return t, list(sh)
        if k == "old":
            if not self.olds:
                return "old", [("s", "old")]
            o = self.olds[v["i"] % len(self.olds)]
            return o, [("o", o)]
        if k == "jsx":
            from htmltools._jsx import jsx

            o = jsx("a")
            return o, [("o", o)]
        if k == "nest":
            kids = [self.mk(c) for c in v["c"]]
            flat = []
            for _, f in kids:
                if f is None or flat is None:
                    flat = None
                else:
                    flat += f
            objs = [o for o, _ in kids]
            t = v["t"]
            if t == "taglist":
                if flat is None:
                    t = "list"          # cannot be built
                else:
                    return self.ht.TagList(*objs), flat
            if t == "ntuple":
                return NT(objs, None), flat
            return {"list": list, "tuple": tuple, "sublist": SubL}[t](objs), flat
        x = spec._build(v, spec.Ctx())
        if k == "num":
            return x, [("s", str(x))]
        if k == "text" and type(x) is str:
            return x, [("s", x)]
        self.olds.append(x)
        return x, [("o", x)]

    def mks(self, vs):
        ms = [self.mk(v) for v in vs]
        flat = []
        for _, f in ms:
            if f is None:
                return [o for o, _ in ms], None
            flat += f
        for (o, f), v in zip(ms, vs):
            if not self.ht.is_tag_child(o):
                raise Violation("is_tag_child", "is_tag_child(%r) is False, yet the operation accepts it" % (o,))
            self.M.ev("is_tag_child_checked")
        return [o for o, _ in ms], flat

    def compare(self, what):
        for t, sh in self.lists:
            els = list(t)
            ok = len(els) == len(sh) == len(t)
            if ok:
                for e, (k, w) in zip(els, sh):
                    if (k == "o" and e is not w) or (k == "s" and not (isinstance(e, str) and str(e) == w)):
                        ok = False
                        break
                    if not self.ht.is_tag_node(e):
                        raise Violation("not_a_node", "after %s: stored element %r is no tag node" % (what, e))
            if not ok:
                raise Violation("children", "after %s\nchildren: %s\nexpected: %s" % (what, desc(els), desc([w for _, w in sh])))
            self.M.ev("lists_compared")
            self.M.ev("elements_checked", len(els))
        for tag, i in self.tags:
            if tag.children is not self.lists[i][0]:
                raise Violation("children", "after %s: the tag's child list was replaced" % what)


def desc(els):
    s = repr([e if isinstance(e, (str, int, float)) else "%s@%x" % (type(e).__name__, id(e)) for e in els])
    return s[:900]


def container(t, objs, ht):
    if t == "taglist":
        return ht.TagList(*objs)
    return {"list": list, "tuple": tuple, "sublist": SubL}[t](objs)


def check(case, M):
    W = World(M)
    ht = W.ht
    muts = 0
    for o in case["ops"]:
        op = o["op"]
        if not W.lists:
            W.lists.append((ht.TagList(), []))
        li = o["l"] % len(W.lists)
        t, sh = W.lists[li]
        if len(sh) > 3000:
            sh = None
        vals = o.get("vals")
        what = json.dumps(o)[:600]
        if sh is None:
            continue
        if vals is not None:
            objs, flat = W.mks(vals)
        tag = None
        if op in ("tappend", "textend", "tinsert"):
            if not W.tags:
                x = ht.Tag("div", "seed")
                W.tags.append((x, len(W.lists)))
                W.lists.append((x.children, [("s", "seed")]))
            tag, ti = W.tags[o["l"] % len(W.tags)]
            t, sh = W.lists[ti]
        if vals is not None and flat is None:
            # an unsupported value somewhere: TypeError and nothing changes
            def go():
                if op in ("append", "appendn"):
                    t.append(*objs)
                elif op in ("extend",):
                    t.extend(container("tuple" if o["t"] == "tuple" else "list", objs, ht))
                elif op == "extiter":
                    t.extend(iter(objs))
                elif op == "insert":
                    t.insert(o["i"], objs[0])
                elif op == "add":
                    t + objs
                elif op == "radd":
                    objs + t
                elif op == "iadd":
                    u = t
                    u += tuple(objs) if o["t"] == "tuple" else objs
                elif op in ("new", "tnew", "tag"):
                    if op == "new" or any(isinstance(x, dict) for x in objs):
                        ht.TagList(*objs)
                    else:
                        ht.Tag("p", *objs)
                elif op == "tappend":
                    tag.append(*objs)
                elif op == "textend":
                    tag.extend(objs)
                elif op == "tinsert":
                    tag.insert(o["i"], objs[0])
            try:
                go()
            except TypeError:
                M.ev("rejections_observed")
            except Exception as e:
                raise Violation("wrong_exception", "%s raised %r rather than TypeError" % (what, e))
            else:
                raise Violation("not_rejected", "%s accepted an invalid value" % what)
            W.compare("the rejected " + what)
            continue
        if op in ("append", "appendn"):
            t.append(*objs)
            sh += flat
            muts += 1
        elif op == "extend":
            t.extend(container(o["t"], objs, ht))
            sh += flat
            muts += 1
        elif op == "extiter":
            t.extend(iter(objs) if o["l"] % 3 == 0 else (x for x in objs) if o["l"] % 3 == 1 else busy(objs))
            sh += flat
            muts += 1
        elif op in ("extstr", "iaddstr"):
            s = strarg(ht, o)
            if op == "extstr":
                t.extend(s)
            else:
                u = t
                u += s
                if u is not t:
                    raise Violation("identity", "+= made a new list")
            sh += [("o", s) if o["h"] % 2 else ("s", s)]
        elif op == "insert":
            t.insert(o["i"], objs[0])
            sh[o["i"]:o["i"]] = flat
            muts += 1
        elif op == "add":
            new(W, t + container(o["t"], objs, ht), sh + flat, what)
        elif op == "radd":
            c = container(o["t"], objs, ht)
            new(W, c + t, flat + sh, what)
        elif op == "addstr":
            s = strarg(ht, o)
            new(W, t + s, sh + [("o", s) if o["h"] % 2 else ("s", s)], what)
        elif op == "raddstr":
            s = strarg(ht, o) if o["h"] == 2 else o["s"]
            new(W, s + t, [("s", s)] + sh, what)
        elif op == "iadd":
            u = t
            u += container(o["t"], objs, ht)
            if u is not t:
                raise Violation("identity", "+= made a new list")
            sh += flat
            muts += 1
        elif op == "new":
            new(W, ht.TagList(*objs), flat, what)
        elif op in ("tnew", "tag"):
            x = ht.Tag("div", *objs) if op == "tnew" else ht.div(*objs)
            W.tags.append((x, len(W.lists)))
            W.lists.append((x.children, flat))
        elif op == "tappend":
            tag.append(*objs)
            sh += flat
            muts += 1
        elif op == "textend":
            tag.extend(container(o["t"], objs, ht))
            sh += flat
            muts += 1
        elif op == "tinsert":
            tag.insert(o["i"], objs[0])
            sh[o["i"]:o["i"]] = flat
            muts += 1
        elif op == "slice":
            new(W, t[slice(*o["sl"])], sh[slice(*o["sl"])], what)
        elif op == "delslice":
            del t[slice(*o["sl"])]
            del sh[slice(*o["sl"])]
        elif op in ("mul", "rmul", "imul") and len(sh) * o["n"] > 600:
            continue
        elif op == "mul":
            new(W, t * o["n"], sh * o["n"], what)
        elif op == "rmul":
            new(W, o["n"] * t, o["n"] * sh, what)
        elif op == "imul":
            u = t
            u *= o["n"]
            if u is not t:
                raise Violation("identity", "*= made a new list")
            sh *= o["n"]
        elif op == "copy":
            new(W, copy.copy(t), list(sh), what)
        elif op == "self":
            k = o["l"] % 4
            if k == 0:
                t.append(t)
            elif k == 1:
                t.extend(t)
            elif k == 2:
                t.insert(1, t)
                sh[1:1] = list(sh)
            else:
                t += t
            if k != 2:
                sh += list(sh)
        elif op == "del" and -len(sh) <= o["i"] < len(sh):
            del t[o["i"]]
            del sh[o["i"]]
        elif op == "pop" and -len(sh) <= o["i"] < len(sh):
            t.pop(o["i"])
            sh.pop(o["i"])
        elif op == "remove0" and sh:
            t.pop()
            sh.pop()
        elif op == "reverse":
            t.reverse()
            sh.reverse()
        elif op == "clear":
            if o["l"] % 3 == 0:
                t.clear()
                sh.clear()
        elif op == "read":
            [str(y) if isinstance(y, str) else y for y in t]
            repr(len(t))
            if -len(sh) <= o["i"] < len(sh):
                k, w = sh[o["i"]]
                if not (t[o["i"]] is w if k == "o" else t[o["i"]] == w):
                    raise Violation("children", "element %d is %r" % (o["i"], t[o["i"]]))
        elif op == "attrlist":
            x = ht.Tag("div", list(t), {"class": "k"}, id="x")
            W.tags.append((x, len(W.lists)))
            W.lists.append((x.children, list(sh)))
        M.ev("operations_compared")
        if len(W.lists) > 12:
            drop = [j for j in range(len(W.lists)) if j not in {i for _, i in W.tags}][:1]
            if drop:
                j = drop[0]
                W.lists.pop(j)
                W.tags = [(x, i - (i > j)) for x, i in W.tags]
            else:
                x, i = W.tags.pop(0)
                W.lists.pop(i)
                W.tags = [(y, k - (k > i)) for y, k in W.tags]
        W.compare(what)
    if muts >= 3 or len(case["ops"]) <= 3:
        M.distinct(case)
        M.sample({"ops": [o["op"] for o in case["ops"]], "final_lengths": [len(s) for _, s in W.lists]})


def new(W, t, sh, what):
    if not isinstance(t, W.ht.TagList):
        raise Violation("type", "%s gave a %s" % (what, type(t).__name__))
    if any(t is x for x, _ in W.lists):
        raise Violation("identity", "%s returned an existing list" % what)
    W.lists.append((t, list(sh)))
