"""Reference models: normalised tree, markup as segments, layout, dependencies."""
from __future__ import annotations

import functools
import re

from .strings import VOID, mknum

NOESC = ("script", "style")


class E:        # element
    __slots__ = ("name", "ws", "attrs", "kids")

    def __init__(self, name, ws, attrs, kids):
        self.name, self.ws, self.attrs, self.kids = name, ws, attrs, kids


class Leaf:
    """kind: T plain text, H HTML(), R self-rendering, M metadata, D dependency, F un-expanded."""
    __slots__ = ("kind", "s", "spec")

    def __init__(self, kind, s="", spec=None):
        self.kind, self.s, self.spec = kind, s, spec


def attr_model(attrs):
    out = []
    for a, v in attrs:
        t = v["t"]
        if t in ("none", "false"):
            continue
        if t == "true":
            out.append((a, [("A", "")]))
        elif t == "html":
            out.append((a, [("L", v["s"])]))
        elif t == "num":
            out.append((a, [("A", str(mknum(v["s"])))]))
        else:
            out.append((a, [("A", v["s"])]))
    return out


def norm(specs, expand=False):
    """Flattened, normalised children of a list of specs."""
    out = []
    for n in specs:
        k = n["k"]
        if k == "tag":
            out.append(E(n["n"], n["ws"], attr_model(n["a"]), norm(n["c"], expand)))
        elif k == "text":
            out.append(Leaf("T", n["s"]))
        elif k == "html":
            out.append(Leaf("H", n["s"]))
        elif k == "num":
            out.append(Leaf("T", str(mknum(n["s"]))))
        elif k == "repr":
            out.append(Leaf("R", n["s"]))
        elif k == "meta":
            out.append(Leaf("M"))
        elif k == "dep":
            out.append(Leaf("D", spec=n))
        elif k == "tfy":
            if expand:
                out.extend(norm(n["c"], True))
            else:
                out.append(Leaf("F", n.get("sr", ""), n))
        elif k in ("nest", "list"):
            out.extend(norm(n["c"], expand))
        elif k == "none":
            pass
        else:
            raise KeyError(k)
    return out


def visible(kids):
    return [c for c in kids if isinstance(c, E) or c.kind not in "MD"]


# ---------------------------------------------------------------- segments
# ("L", s) literal   ("T", s) escaped text   ("A", s) escaped attribute text
# ("W",)   optional layout whitespace
def open_segs(e, void):
    out = [("L", "<" + e.name)]
    for a, segs in e.attrs:
        out.append(("L", " %s=\"" % a))
        out.extend(segs)
        out.append(("L", '"'))
    out.append(("L", "/>" if void else ">"))
    return out


def leaf_segs(c, noesc):
    if c.kind == "T" and not noesc:
        return [("T", c.s)]
    return [("L", c.s)]


def is_void(e):
    return not visible(e.kids) and e.name in VOID


def flow(kids, noesc=False):
    """Concatenation with layout whitespace allowed only at block-tag boundaries."""
    out = []
    for c in visible(kids):
        if isinstance(c, E):
            v = is_void(c)
            if c.ws:
                out.append(("W",))
            out.extend(open_segs(c, v))
            if not v:
                vis = visible(c.kids)
                if c.ws and vis:
                    out.append(("W",))
                out.extend(flow(c.kids, c.name in NOESC))
                if c.ws and vis:
                    out.append(("W",))
                out.append(("L", "</" + c.name + ">"))
            if c.ws:
                out.append(("W",))
        else:
            out.extend(leaf_segs(c, noesc))
    return out


def loose(kids, noesc=False):
    """Leaf content exact; opening tags by name only; layout whitespace anywhere between."""
    out = [("W",)]
    for c in visible(kids):
        if isinstance(c, E):
            out.append(("O", c.name))
            if not is_void(c):
                out.extend(loose(c.kids, c.name in NOESC))
                out.append(("L", "</" + c.name + ">"))
        else:
            out.extend(leaf_segs(c, noesc))
        out.append(("W",))
    return out


def inline_only(c):
    return not isinstance(c, E) or (not c.ws and all(inline_only(x) for x in visible(c.kids)))


def layout_tag(e, indent, eol, out):
    """Reference layout of a block tag, or of an inline tag without block descendants."""
    out.append(("L", "  " * indent))
    v = is_void(e)
    out.extend(open_segs(e, v))
    if v:
        return
    vis = visible(e.kids)
    noesc = e.name in NOESC
    close = ("L", "</" + e.name + ">")
    if not e.ws or not vis:
        out.extend(flow(e.kids, noesc))
        out.append(close)
        return
    if len(vis) == 1 and not isinstance(vis[0], E) and vis[0].kind in "TH":
        out.extend(leaf_segs(vis[0], noesc))
        out.append(close)
        return
    out.append(("L", eol))
    layout_list(vis, indent + 1, eol, out, True, noesc)
    out.append(("L", eol + "  " * indent))
    out.append(close)


def layout_list(kids, indent, eol, out, ws=True, noesc=False):
    """Lines: each block child, and each maximal run of non-block children."""
    first = True
    prev_block = ws
    for c in visible(kids):
        block = isinstance(c, E) and c.ws
        newline = prev_block or block
        if not first and newline:
            out.append(("L", eol))
        if isinstance(c, E):
            layout_tag(c, indent if newline else 0, eol, out)
        else:
            if newline:
                out.append(("L", "  " * indent))
            out.extend(leaf_segs(c, noesc))
        prev_block = block
        first = False


def layout(kids, indent=0, eol="\n", ws=True):
    out = []
    layout_list(kids, indent, eol, out, ws)
    return out


# ---------------------------------------------------------------- matching
REFS = {}
for _c, _names in {"&": ("amp", "AMP"), "<": ("lt", "LT"), ">": ("gt", "GT"), '"': ("quot", "QUOT"),
                   "'": ("apos",), "\n": ("NewLine",), "\r": ()}.items():
    for _n in _names:
        REFS["&%s;" % _n] = _c

_REF = re.compile(r"&(?:#([0-9]{1,7})|#[xX]([0-9a-fA-F]{1,6})|([A-Za-z][A-Za-z0-9]*));")


def ref_at(raw, i):
    """(char, length) of the character reference at raw[i], or None."""
    m = _REF.match(raw, i)
    if not m:
        return None
    if m[1] or m[2]:
        n = int(m[1]) if m[1] else int(m[2], 16)
        if n > 0x10FFFF or n == 0 or (0x80 <= n <= 0x9F):
            return None
        return chr(n), m.end() - i
    c = REFS.get(m[0])
    return (c, m.end() - i) if c else None


ESC_T = "&<>"
ESC_A = "&<>\"'\r\n"


def match_esc(raw, i, s, table):
    """Position after `s` escaped per `table` at raw[i], or None."""
    for plain, ch in _runs(s, table):
        if plain:
            if not raw.startswith(plain, i):
                return None
            i += len(plain)
        if ch:
            r = ref_at(raw, i)
            if r is None or r[0] != ch:
                return None
            i += r[1]
    return i


@functools.lru_cache(64)
def _runs(s, table):
    """s as pairs (run without characters of the table, character of the table)."""
    parts = re.split("([" + re.escape(table) + "])", s)
    return tuple(zip(parts[::2], parts[1::2] + [""]))


class Mismatch(Exception):
    pass


def canon(segs):
    """A readable rendering of what was expected."""
    o = []
    for s in segs:
        if s[0] == "W":
            o.append("\u00b7")
        elif s[0] == "O":
            o.append("<%s ...>" % s[1])
        elif s[0] == "L":
            o.append(s[1])
        else:
            t = s[1].replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
            if s[0] == "A":
                t = t.replace('"', "&quot;").replace("'", "&apos;").replace("\r", "&#13;").replace("\n", "&#10;")
            o.append(t)
    return "".join(o)




@functools.lru_cache(500)
def _open_re(name):
    return re.compile("<" + re.escape(name) + r"(?:[ \t][^>\"]*(?:\"[^\"]*\"[^>\"]*)*)?/?>")


def match(raw, segs, eol="\n", i=0, end=True, units=(" ", "\n", "\r", "\t")):
    """None if raw matches the segments, else a message.  W matches any layout
    whitespace: blanks and copies of eol, in any amount."""
    units = tuple(dict.fromkeys((eol,) + tuple(units)))
    pos = {i}
    far = i
    for k, s in enumerate(segs):
        nxt = set()
        if s[0] == "W":
            todo = list(pos)
            nxt = set(pos)
            while todo:
                p = todo.pop()
                for u in units:
                    if u and raw.startswith(u, p) and p + len(u) not in nxt:
                        nxt.add(p + len(u))
                        todo.append(p + len(u))
        elif s[0] == "L":
            for p in pos:
                if raw.startswith(s[1], p):
                    nxt.add(p + len(s[1]))
        elif s[0] == "O":       # an opening tag, whatever its attributes
            for p in pos:
                m = _open_re(s[1]).match(raw, p)
                if m:
                    nxt.add(m.end())
        else:
            tab = ESC_T if s[0] == "T" else ESC_A
            for p in pos:
                q = match_esc(raw, p, s[1], tab)
                if q is not None:
                    nxt.add(q)
        if not nxt:
            return "at offset ~%d expected %r, found %r (segment %d %s)" % (
                max(pos), canon(segs[k:k + 4])[:200], raw[max(pos):max(pos) + 120], k, s[0])
        pos = nxt
        far = max(pos)
    if end and len(raw) not in pos:
        return "trailing output %r" % raw[far:far + 200]
    return None


# ---------------------------------------------------------------- dependencies
def collect_deps(kids):
    """Dependency specs in document order, including those in another's head markup."""
    out = []
    for c in kids:
        if isinstance(c, E):
            out.extend(collect_deps(c.kids))
        elif c.kind == "D":
            out.append(c.spec)
            h = c.spec.get("head")
            if h and "nodes" in h:
                out.extend(collect_deps(norm(h["nodes"], True)))
    return out


def resolve(deps, key=lambda d: d["name"], ver=None):
    from packaging.version import Version

    ver = ver or (lambda d: Version(d["ver"]))
    best, order = {}, []
    for d in deps:
        n = key(d)
        if n not in best:
            best[n] = d
            order.append(n)
        elif ver(d) > ver(best[n]):
            best[n] = d
    return [best[n] for n in order]
