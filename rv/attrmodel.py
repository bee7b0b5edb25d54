"""Shadow model of a tag's attribute map: name -> list of segments ("A" plain, "L" HTML)."""
from __future__ import annotations

from .strings import mknum


def norm_name(n):
    if n.endswith("_"):
        n = n[:-1]
    return n.replace("_", "-")


def segs_of(v):
    """Segments of a value spec, or None when the value is dropped."""
    t = v["t"]
    if t in ("none", "false"):
        return None
    if t == "true":
        return [("A", "")]
    if t == "num":
        return [("A", str(mknum(v["s"])))]
    if t == "html":
        return [("L", v["s"])]
    return [("A", v["s"])]


def merge(pairs):
    """[(raw name, segs|None)] given in one call -> ordered {name: segs}."""
    out = {}
    for n, s in pairs:
        if s is None:
            continue
        n = norm_name(n)
        out[n] = out[n] + [("L", " ")] + s if n in out else list(s)
    return out


class AttrModel:
    def __init__(self):
        self.d = {}

    def call(self, pairs):
        self.d.update(merge(pairs))

    def setitem(self, n, v):
        s = segs_of(v)
        if s is not None:
            self.d[norm_name(n)] = list(s)

    def join_existing(self, name, segs, prepend):
        old = self.d.get(name)
        if segs is None:
            return
        if old is None:
            self.d[name] = list(segs)
        elif prepend:
            self.d[name] = list(segs) + [("L", " ")] + old
        else:
            self.d[name] = old + [("L", " ")] + list(segs)

    def stored(self, n):
        """The stored value as (is_html, decoded plain text) for all-plain values."""
        return self.d[n]

    def open_segs(self, name, end=(">", "/>")):
        out = [("L", "<" + name)]
        for a, segs in self.d.items():
            out.append(("L", " %s=\"" % a))
            out.extend(segs)
            out.append(("L", '"'))
        return out


def pairs_of(items):
    return [(n, segs_of(v)) for n, v in items]
