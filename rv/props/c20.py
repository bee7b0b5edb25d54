"""C20: JSX components convert purely and surface all dependencies."""
import copy
import json
import os
import random
import re
import subprocess
import threading

from .. import attrmodel, jsxspec, snap, spec, strings
from ..core import Skip, Stream, Violation

ID = "C20"
CONCURRENT = 300
RULE = ("random component trees (components, tags, strings, numbers, jsx(), tagifiables with fresh or stored content, dependencies and "
        "other metadata, shared objects, scalars/lists/dicts/tags/components as props; built by every mutation route), converted repeatedly by "
        "tagify/str/repr/embedding: the object graph compared before/after, the JavaScript matched against the tree by an expression "
        "matcher and evaluated by node with recording stubs, metadata compared with the tree's; allow-lists; non-trivial: more than one "
        "element, distinct by tree")
ASSUMPTIONS = ["strings contain no backslash or line break", "HTML() and self-rendering children, metadata or lists of tags as a prop's direct value "
               "are not used", "metadata inside list/dict props may or may not be surfaced", "jsx() children are text", "a tagifiable descendant's tagify() "
               "returns raw or tagified content without further conversion of its own", "style None may be {} or null; style keys and values compared "
               "without surrounding space", "order of props is free"]
COV_FILES = ["_jsx.py", "_core.py", "_util.py"]
MIN_EVENTS = {"purity_snapshots_compared": 20000, "expressions_matched": 8000, "elements_matched": 30000, "metadata_found": 10000,
              "react_files_seen": 10000, "in_place_edits": 2000, "props_rejected": 3000, "props_allowed": 1500}


def g_tree(i, rng):
    g = jsxspec.Gen(rng)
    c = g.comp()
    return {"comp": c, "where": rng.randrange(6), "seq": [rng.randrange(7) for _ in range(3)], "edits": spec.gen_edits(rng, 0.25)}


SC = [{"t": "none"}, {"t": "true"}, {"t": "false"}, {"t": "num", "s": "1"}, {"t": "num", "s": "1.5"}, {"t": "num", "s": "nan"}, {"t": "str", "s": ""},
      {"t": "str", "s": "a\"b"}, {"t": "str", "s": "</script>"}, {"t": "jx", "s": "1 + 1"}, {"t": "list", "items": []}, {"t": "dict", "items": []},
      {"t": "list", "items": [{"t": "none"}, {"t": "str", "s": "'"}]}, {"t": "dict", "items": [["a b", {"t": "true"}]]},
      {"t": "node", "n": {"k": "tag", "n": "b", "ws": True, "a": [], "c": [{"k": "dep", "name": "p", "ver": "1"}, {"k": "text", "s": "t"}], "h": 0}},
      {"t": "node", "n": {"k": "jsx", "n": "P", "a": [], "c": [{"k": "meta", "l": 9}], "h": 0}}]
KID = [{"k": "text", "s": ""}, {"k": "text", "s": "x\"<"}, {"k": "text", "s": "<!--<script></script>"}, {"k": "num", "s": "1"}, {"k": "none"}, {"k": "meta", "l": 1}, {"k": "dep", "name": "d", "ver": "1"},
       {"k": "jx", "s": "f"}, {"k": "tag", "n": "br", "ws": True, "a": [], "c": [], "h": 0},
       {"k": "jsx", "n": "K", "a": [], "c": [], "h": 0}, {"k": "tfy", "m": "list", "c": [{"k": "text", "s": "1"}, {"k": "dep", "name": "e", "ver": "1"}, {"k": "jsx", "n": "T", "a": [], "c": [], "h": 0}], "stored": 1},
       {"k": "tfy", "m": "tag", "c": [{"k": "tag", "n": "i", "ws": False, "a": [["id", {"t": "str", "s": "q"}]], "c": [{"k": "meta", "l": 2}], "h": 0}], "stored": 1},
       {"k": "nest", "t": "list", "c": []}]


def g_small(i, rng):
    """Every pair (prop value, child), at three positions: the component, a nested tag or component."""
    p = SC[i % len(SC)]
    k = KID[i // len(SC) % len(KID)]
    j = i // len(SC) // len(KID)
    a = [] if j % 2 else [[["x_", "data_y", "z"][i % 3], p]]
    inner = {"k": "jsx", "n": "Foo", "a": a, "c": [k] * (1 + i % 2), "h": 0 if i % 5 else 1 + i}
    j //= 2
    if j % 3 == 1:
        inner = {"k": "jsx", "n": "Out", "a": [], "c": [{"k": "tag", "n": "div", "ws": True, "a": [], "c": [inner, k], "h": 0}], "h": 0}
    elif j % 3 == 2:
        inner = {"k": "jsx", "n": "Out", "a": [["q", {"t": "node", "n": {"k": "tag", "n": "div", "ws": True, "a": [], "c": [inner, k], "h": 0}}]], "c": [k], "h": 0}
    return {"comp": inner, "where": i % 6, "seq": [i % 7, (i // 7) % 7, 0]}


COMMON = ["data_x", "dataX", "data", "aria_label", "ariaLabel", "key", "ref", "id", "className", "class_", "children", "for_", "htmlFor", "on_click",
          "onclick", "style_", "role", "title", "value", "default_value", "dangerouslySetInnerHTML", "name", "args", "kwargs", "props"]


def g_allow(i, rng):
    names = ["a", "b", "cc", "onClick", "A", "abc", "x1"]
    names += [strings.derived(rng) for _ in range(rng.choice([0, 2, 4]))]
    names += rng.sample(COMMON, rng.choice([0, 1, 3]))
    if rng.random() < 0.3:
        names += [rng.choice(["data", "data_", "aria_", "on", "_", "x"]) + rng.choice(names) for _ in range(3)]
    names = list(dict.fromkeys(n for n in names if n not in ("self", "_name", "allowedProps", "style", "class")))
    if rng.random() < 0.5:
        names = [rng.choice([n, n + rng.choice("sX1_"), n.capitalize(), n.upper(), n.lower()]) for n in names]
        names = list(dict.fromkeys(n for n in names if n not in ("self", "_name", "allowedProps", "style", "class")))
    rng.shuffle(names)
    allowed = rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2, 4, 7]))) if rng.random() < 0.9 else None
    props = rng.sample(names + ["ab", "style", "class"], rng.choice([0, 1, 1, 2, 3]))
    return {"allow": allowed, "props": props, "via": rng.randrange(2), "vals": [rng.randrange(5) for _ in props]}


NSMALL = len(SC) * len(KID) * 6


def streams(tier):
    q = tier == "quick"
    return [Stream("trees", 16000 if q else 400000, g_tree), Stream("small", NSMALL, g_small), Stream("allow", 8000 if q else 80000, g_allow)]


# ------------------------------------------------------------------ node
NODE_JS = r"""
const vm = require('vm'), rl = require('readline').createInterface({input: process.stdin});
function desc(v) {
  if (v === null) return ['null'];
  if (v === undefined) return ['undefined'];
  if (typeof v === 'string') return ['str', v];
  if (typeof v === 'number') return ['num', Object.is(v, -0) ? '0' : String(v)];
  if (typeof v === 'boolean') return ['bool', v];
  if (typeof v === 'function') return v.__el ? v.__el : ['func'];
  if (Array.isArray(v)) return ['list', v.map(desc)];
  if (v.__el) return v.__el;
  if (v.__id) return ['id', v.__id];
  return ['dict', Object.entries(v).map(([k, x]) => [k, desc(x)])];
}
function ident(name) {
  return new Proxy(function(){}, {get(t, p) { if (p === '__id') return name; if (p === '__el') return ['id', name]; if (typeof p !== 'string') return undefined; return ident(name + '.' + p); }});
}
rl.on('line', (line) => {
  const job = JSON.parse(line);
  let got = [], out;
  const sandbox = {};
  const React = {createElement(t, p, ...c) {
    return {__el: ['el', desc(t), p === undefined || p === null ? [] : desc(p)[1], c.map(desc)]}; }};
  let attached = 0, removed = 0;
  const base = {React, ReactDOM: {render(c, where) { got.push(desc(c)); }}, DocumentFragment: function() {}, Error: Error, console: console, NaN: NaN,
    Infinity: Infinity, undefined: undefined,
    document: {querySelector(q) { return {after() { attached++; }, removeAttribute(n) { removed++; }}; }, createDocumentFragment() { return {}; }}};
  const ctx = vm.createContext(new Proxy(base, {has() { return true; }, get(t, p) { if (p in t) return t[p]; if (typeof p !== 'string') return undefined; return ident(p); }}));
  try {
    vm.runInContext(job.js, ctx, {timeout: 20000});
    out = {got, attached, removed};
  } catch (e) { out = {err: String(e)}; }
  process.stdout.write(JSON.stringify(out) + '\n');
});
"""
_node = None


def worker_init(w):
    global _node
    try:
        _node = subprocess.Popen(["node", "--stack-size=4000", "-e", NODE_JS], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    except OSError:
        _node = None


def worker_exit():
    global _node
    if _node:
        _node.stdin.close()
        _node.kill()
        _node.wait()
        _node = None


_lock = threading.Lock()


def node_eval(js):
    with _lock:
        return _node_eval(js)


def _node_eval(js):
    global _node
    if _node is None:
        return None
    try:
        _node.stdin.write(json.dumps({"js": js}).encode() + b"\n")
        _node.stdin.flush()
        line = _node.stdout.readline()
        return json.loads(line)
    except (OSError, ValueError):
        _node = None
        return None


# ------------------------------------------------------------------ matching the text
class Mismatch(Exception):
    pass


WS = re.compile(r"[ \t\r\n]*")
NUM = re.compile(r"-?(?:Infinity|NaN|\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)")
IDENT = re.compile(r"[A-Za-z_$][\w$]*")


class Cur:
    def __init__(self, s, i, M):
        self.s, self.i, self.M = s, i, M

    def ws(self):
        self.i = WS.match(self.s, self.i).end()

    def fail(self, want):
        raise Mismatch("expected %s at %d: ...%r >>> %r" % (want, self.i, self.s[max(0, self.i - 60):self.i], self.s[self.i:self.i + 80]))

    def eat(self, lit):
        self.ws()
        if not self.s.startswith(lit, self.i):
            self.fail(repr(lit)[:200])
        self.i += len(lit)

    def peek(self, lit):
        self.ws()
        return self.s.startswith(lit, self.i)

    def string(self, quotes='"'):
        self.ws()
        q = self.s[self.i:self.i + 1]
        if not q or q not in quotes:
            self.fail("a string")
        i, o = self.i + 1, []
        while True:
            c = self.s[i:i + 1]
            if not c or c in "\n\r":
                self.fail("a terminated string")
            if c == q:
                break
            if c == "\\":
                e = self.s[i + 1:i + 2]
                if e == "u":
                    m = re.compile(r"\{([0-9a-fA-F]+)\}|([0-9a-fA-F]{4})").match(self.s, i + 2)
                    if not m:
                        self.fail("an escape")
                    o.append(chr(int(m.group(1) or m.group(2), 16)))
                    i = m.end()
                    continue
                if e == "x":
                    o.append(chr(int(self.s[i + 2:i + 4], 16)))
                    i += 4
                    continue
                o.append({"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}.get(e, e))
                i += 2
                continue
            o.append(c)
            i += 1
        self.i = i + 1
        return "".join(o).encode("utf-16", "surrogatepass").decode("utf-16")

    def value(self, e):
        k = e[0]
        if k == "str" or k == "sstr":
            s = self.string()
            if (s.strip() if k == "sstr" else s) != e[1]:
                raise Mismatch("string %r, expected %r" % (s, e[1]))
        elif k == "lit":
            self.eat(e[1])
            if self.s[self.i:self.i + 1].isalnum():
                self.fail(e[1])
        elif k == "num":
            self.ws()
            m = NUM.match(self.s, self.i)
            if not m:
                self.fail("the number %r" % (e[1],))
            t = m.group()
            got = float(t.replace("Infinity", "inf").replace("NaN", "nan"))
            want = float(e[1])
            if not (got == want or (got != got and want != want)):
                raise Mismatch("number %s, expected %r" % (t, e[1]))
            self.i = m.end()
        elif k == "raw":
            self.eat(e[1])
        elif k == "style0":
            if self.peek("null"):
                self.eat("null")
            else:
                self.eat("{")
                self.eat("}")
        elif k == "list":
            self.eat("[")
            for j, x in enumerate(e[1]):
                if j:
                    self.eat(",")
                self.value(x)
            self.eat("]")
        elif k == "dict":
            self.obj(dict(e[1]), e[2])
        elif k == "el":
            self.element(e)
        else:
            raise Skip()
        self.ws()

    def obj(self, want, strip=False):
        self.eat("{")
        want = dict(want)
        first = True
        while not self.peek("}"):
            if not first:
                self.eat(",")
            first = False
            self.ws()
            if self.s[self.i:self.i + 1] in ("\"", "'"):
                key = self.string("\"'")
            else:
                m = IDENT.match(self.s, self.i)
                if not m:
                    self.fail("a key")
                key = m.group()
                self.i = m.end()
            if strip:
                key = key.strip()
            if key not in want:
                raise Mismatch("property %r not expected (or twice); remaining %r" % (key, list(want)))
            self.eat(":")
            self.value(want.pop(key))
        self.eat("}")
        if want:
            raise Mismatch("properties missing: %r" % list(want))

    def element(self, e):
        _, kind, name, props, kids = e
        self.eat("React.createElement")
        self.eat("(")
        if kind == "tag":
            n = self.string("'\"")
            if n != name:
                raise Mismatch("element %r, expected %r" % (n, name))
        else:
            self.eat(name)
            c = self.s[self.i:self.i + 1]
            if c.isalnum() or c in "_$.":
                self.fail("the end of the name " + name)
        if self.peek(")"):
            if props or kids:
                raise Mismatch("<%s> has no props and children, expected %r, %d children" % (name, list(props), len(kids)))
            self.eat(")")
            self.M.ev("elements_matched")
            return
        self.eat(",")
        if not props and self.peek("null"):
            self.eat("null")
        else:
            self.obj(props)
        for x in kids:
            if not self.peek(","):
                self.fail("another child of <%s>" % name)
            self.eat(",")
            self.value(x)
        if not self.peek(")"):
            self.fail("the end of <%s> (after %d children)" % (name, len(kids)))
        self.eat(")")
        self.M.ev("elements_matched")


# ------------------------------------------------------------------ what node should see
def nexp(e):
    k = e[0]
    if k in ("str", "sstr"):
        return ["str", e[1]]
    if k == "lit":
        return ["null"] if e[1] == "null" else ["bool", e[1] == "true"]
    if k == "num":
        return ["num", float(e[1])]
    if k == "raw":
        return ["func"] if e[1] in jsxspec.FUNCS else nval(jsxspec.JSVAL[e[1]])
    if k == "style0":
        return ["style0"]
    if k == "list":
        return ["list", [nexp(x) for x in e[1]]]
    if k == "dict":
        return ["dict", dict((a, nexp(x)) for a, x in e[1])]
    if k == "el":
        return ["el", ["str", e[2]] if e[1] == "tag" else ["id", e[2]], {a: nexp(x) for a, x in e[3].items()}, [nexp(x) for x in e[4]]]
    raise Skip()


def nval(v):
    if v is None:
        return ["null"]
    if isinstance(v, bool):
        return ["bool", v]
    if isinstance(v, (int, float)):
        return ["num", float(v)]
    if isinstance(v, str):
        return ["str", v]
    if isinstance(v, list):
        return ["list", [nval(x) for x in v]]
    return ["dict", {k: nval(x) for k, x in v.items()}]


def ncmp(got, want, path, strip=False):
    k = want[0]
    if k == "style0":
        return None if got == ["null"] or got == ["dict", []] else "%s: %r for style None" % (path, got)
    if got[0] != k:
        return "%s: %r, expected %r" % (path, got, want)
    if k == "num":
        g = float(got[1].replace("Infinity", "inf").replace("NaN", "nan"))
        return None if g == want[1] or (g != g and want[1] != want[1]) else "%s: %r, expected %r" % (path, got, want)
    if k == "str":
        return None if (got[1].strip() == want[1].strip() if strip else got[1] == want[1]) else "%s: %r, expected %r" % (path, got[1], want[1])
    if k in ("list",):
        return clist(got[1], want[1], path)
    if k == "dict":
        return cdict(got[1], want[1], path, strip)
    if k == "el":
        if got[1] != want[1]:
            return "%s: element %r, expected %r" % (path, got[1], want[1])
        p = path + "/" + str(want[1][1])
        return cdict(got[2], want[2], p) or clist(got[3], want[3], p)
    return None if got == want else "%s: %r, expected %r" % (path, got, want)


def clist(got, want, path):
    if len(got) != len(want):
        return "%s: %d items, expected %d" % (path, len(got), len(want))
    for j, (g, w) in enumerate(zip(got, want)):
        e = ncmp(g, w, path + "[%d]" % j)
        if e:
            return e
    return None


def cdict(got, want, path, strip=False):
    got = {(k.strip() if strip else k): v for k, v in got}
    if set(got) != set(want):
        return "%s: properties %r, expected %r" % (path, list(got), list(want))
    for k in want:
        # style keys/values are compared without surrounding space
        st = k == "style" or strip
        e = ncmp(got[k], want[k], path + "." + k, st)
        if e:
            return e
    return None


# ------------------------------------------------------------------ purity
def state(x, seen=None):
    """Identity and content of everything reachable from the component."""
    from htmltools._jsx import JSXTag

    ht = spec.H()
    if isinstance(x, JSXTag):
        d = dict(vars(x))
        return ("jsx", id(x), x.name, id(x.attrs), type(x.attrs).__name__, [(k, state(v)) for k, v in x.attrs.items()], state(x.children),
                sorted((k, repr(v)) for k, v in d.items() if k not in ("name", "attrs", "children")))
    if isinstance(x, ht.Tag):
        return ("tag", id(x), x.name, x.add_ws, id(x.attrs), [(k, type(v).__name__, str(v)) for k, v in x.attrs.items()], state(x.children))
    if isinstance(x, ht.TagList):
        return ("list", id(x), [state(c) for c in x])
    if isinstance(x, jsxspec.Expander):
        return ("exp", id(x), None if x.stored is None else state(x.stored))
    if isinstance(x, dict):
        return ("dict", id(x), [(k, state(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), [state(v) for v in x])
    if isinstance(x, ht.MetadataNode):
        return ("meta", id(x), snap.snap(x))
    if isinstance(x, str) or x is None or isinstance(x, (int, float)):
        return (type(x).__name__, repr(x))
    return ("object", id(x))


def same_state(a, b, what):
    if a != b:
        raise Violation("purity", "%s changed the component: %s" % (what, snap.diff(a, b)))


def view(d):
    return snap.snap(d)


# ------------------------------------------------------------------ check
def check(case, M):
    if "allow" in case:
        return check_allow(case, M)
    ht = spec.H()
    sp = case["comp"]
    if sp["k"] != "jsx":
        raise Skip()
    ctx = spec.Ctx()
    if case.get("edits"):
        sp = json.loads(json.dumps(sp))
    comp = jsxspec.build(sp, ctx)
    judge(ht, case, sp, comp, M)
    for e in case.get("edits") or ():
        # the owner changes something in the tree, after conversions
        if jsxspec.edit(random.Random(e), sp, ctx):
            M.ev("in_place_edits")
            judge(ht, case, sp, comp, M)


def judge(ht, case, sp, comp, M):
    st = state(comp)
    script = comp.tagify()
    same_state(st, state(comp), "tagify()")
    M.ev("purity_snapshots_compared")
    js = check_script(script, sp, comp, M)
    first = (str(script), [view(c) for c in script.children if not isinstance(c, str)])
    for k in case["seq"]:
        if k == 0:
            t = comp.tagify()
            r = str(t)
            if [view(c) for c in t.children if not isinstance(c, str)] != first[1]:
                raise Violation("repeat", "converting again gave other metadata")
        elif k == 1:
            r = str(comp)
        elif k == 2:
            r = repr(comp)
        elif k == 3:
            r = comp._repr_html_()
        elif k == 4:
            r = ht.TagList(comp).render()["html"]
        elif k == 5:
            r = str(copy.copy(comp))
        else:
            # what the caller does with the result is no business of the component
            t = comp.tagify()
            r = str(t)
            t.append("zzz", ht.HTMLDependency("zzz", "1"))
            t.attrs["id"] = "zzz"
        if r != first[0]:
            raise Violation("repeat", "conversion %d differs from the first\n%s\n%s" % (k, r[:1500], first[0][:1500]))
        same_state(st, state(comp), "conversion %d" % k)
        M.ev("purity_snapshots_compared")
    embed(case, comp, first, script, ht, M)
    same_state(st, state(comp), "embedding")
    M.ev("purity_snapshots_compared")
    # a component built anew from the same description gives the same text
    ctx2 = spec.Ctx()
    r = str(jsxspec.build(sp, ctx2))
    if r != first[0]:
        raise Violation("repeat", "an equal component gave another text\n%s\n%s" % (r[:1500], first[0][:1500]))
    if len(first[1]) > 2 or js.count("createElement") > 1:
        M.distinct(sp)
        M.sample({"js": js[:600]})


def check_script(script, sp, comp, M):
    ht = spec.H()
    if not isinstance(script, ht.Tag) or script.name != "script":
        raise Violation("script", "tagify() gave %r" % (script,))
    texts = [c for c in script.children if isinstance(c, (str, ht.HTML))]
    rest = [c for c in script.children if not isinstance(c, (str, ht.HTML))]
    if any(not isinstance(c, ht.MetadataNode) for c in rest):
        raise Violation("script", "children of the script: %r" % [type(c).__name__ for c in rest])
    html = script.get_html_string()
    m = re.match(r"<script( [^<>]*)?>", html)
    if not m or not html.endswith("</script>"):
        raise Violation("script", "not one script element: %r" % html[:300])
    js = html[m.end():-9]
    if "".join(str(t) for t in texts).strip() != js.strip() or re.search("(?i)</script|<!--", js):
        raise Violation("script", "the code is not written as it is: %r" % html[:600])
    # the expression
    want = jsxspec.exp_node(sp)[0]
    at = js.find("ReactDOM.render")
    if at < 0:
        raise Violation("script", "no ReactDOM.render: %r" % js[:600])
    cur = Cur(js, at + len("ReactDOM.render"), M)
    try:
        cur.eat("(")
        cur.value(want)
        cur.eat(",")
    except Mismatch as e:
        raise Violation("expression", "%s\n%s" % (e, js[:2500]))
    M.ev("expressions_matched")
    if M.events.get("expressions_matched", 0) % 2 == 0:
        r = node_eval(js)
        if r is not None:
            if "err" in r:
                if "call stack" not in r["err"]:
                    raise Violation("evaluate", "node: %s\n%s" % (r["err"], js[:2500]))
            else:
                if len(r["got"]) != 1:
                    raise Violation("evaluate", "rendered %d times\n%s" % (len(r["got"]), js[:1500]))
                e = ncmp(r["got"][0], nexp(want), "")
                if e:
                    raise Violation("evaluate", "%s\n%s" % (e, js[:2500]))
                M.ev("evaluated_by_node")
    # metadata
    check_metadata(rest, sp, M)
    react_files(rest, M)
    return js


def check_metadata(rest, sp, M):
    ht = spec.H()
    LM = jsxspec.meta_class()
    must, may = [], []
    for n, m in jsxspec.metas(sp):
        (must if m else may).append(("meta", n["l"]) if n["k"] == "meta" else ("dep", view(spec.build_dep(n))))
    got = []
    for d in rest:
        got.append(("meta", d.label) if isinstance(d, LM) else ("dep", view(d)))
    for w in must:
        if w not in got:
            raise Violation("metadata", "not surfaced: %r; got %r" % (w[1], [g[1] if g[0] == "meta" else g[1][1:3] for g in got]))
        M.ev("metadata_found")
    extra = [g for g in got if g not in must and g not in may]
    names = sorted((g[1][1] if g[0] == "dep" else "meta") for g in extra)
    if not set(names) <= {"react", "react-dom"}:
        raise Violation("metadata", "surfaced from nowhere: %r" % names)


def react_files(rest, M):
    from packaging.version import Version

    for name in ("react", "react-dom"):
        ds = [d for d in rest if getattr(d, "name", None) == name and d.script and "subdir" in (d.source or {})]
        if not ds:
            raise Violation("react", "no %s dependency with a local script file" % name)
        for d in ds:
            src = d.source_path_map(lib_prefix=None)["source"]
            for s in d.script:
                p = os.path.join(src, s["src"])
                if not os.path.isfile(p) or os.path.getsize(p) < 1000:
                    raise Violation("react", "%s is missing" % p)
                M.ev("react_files_seen")


def embed(case, comp, first, script, ht, M):
    w = case["where"]
    names = {d.name for d in script.children if isinstance(d, ht.HTMLDependency)}
    if w == 0:
        x = ht.TagList(comp, "t")
    elif w == 1:
        x = ht.div(ht.span(comp))
    elif w == 2:
        x = ht.TagList(ht.div([comp]), comp)
    elif w == 3:
        x = ht.HTMLDocument(comp, "x")
    elif w == 4:
        x = ht.HTMLDocument(ht.tags.body(comp))
    else:
        x = ht.TagList(comp)
    r = x.render()
    code = first[0][first[0].index("(function"):first[0].rindex("})();")]
    n = r["html"].count(code)
    if n != (2 if w == 2 else 1):
        raise Violation("embedded", "the component's code appears %d times in\n%s" % (n, r["html"][:1500]))
    got = [d.name for d in r["dependencies"]]
    if len(got) != len(set(got)) or not names <= set(got):
        raise Violation("embedded", "dependencies %r, the component has %r" % (got, sorted(names)))
    M.ev("embeddings_compared")


def check_allow(case, M):
    from htmltools._jsx import JSXTag, jsx_tag_create

    vals = [1, "s", None, True, [1]]
    kw = {p: vals[v] for p, v in zip(case["props"], case["vals"])}
    if "style" in kw:
        kw["style"] = "a:b"
    al = case["allow"]
    ok = al is None or all(p in al for p in kw)
    before = None if al is None else list(al)
    try:
        if case["via"]:
            c = jsx_tag_create("Foo", allowedProps=al)("kid", **kw)
        else:
            c = JSXTag("Foo", "kid", allowedProps=al, **kw)
    except Exception as e:
        if ok:
            raise Violation("allowed", "props %r with allowedProps=%r were rejected: %r" % (list(kw), al, e))
        M.ev("props_rejected")
    else:
        if not ok:
            raise Violation("allowed", "props %r with allowedProps=%r were accepted" % (list(kw), al))
        want = {attrmodel.norm_name(k): v for k, v in kw.items()}
        if len(want) == len(kw) and dict(c.attrs) != want:
            raise Violation("allowed", "props %r stored as %r" % (kw, dict(c.attrs)))
        M.ev("props_allowed")
    if al != before:
        raise Violation("allowed", "the allow-list was changed")
    M.distinct(case)
