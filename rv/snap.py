"""Structural snapshots of object graphs, through public attributes only."""
from __future__ import annotations

import copy
import json

from . import spec


def snap(x, ids=False):
    """A comparable description of everything reachable from x."""
    ht = spec.H()
    if isinstance(x, ht.Tag):
        return ("tag", type(x).__name__, x.name, x.add_ws, [(k, type(v).__name__, str(v)) for k, v in x.attrs.items()],
                snap(x.children))
    if isinstance(x, ht.TagList):
        return ("list", [snap(c) for c in x])
    if isinstance(x, ht.HTML):
        return ("html", type(x).__name__, str(x))
    if isinstance(x, str):
        return ("str", type(x).__name__, str(x))
    if isinstance(x, ht.HTMLDependency):
        return ("dep", x.name, str(x.version), dumps(x.source), dumps(x.script), dumps(x.stylesheet), dumps(x.meta), x.all_files,
                None if x.head is None else snap(x.head))
    if isinstance(x, ht.MetadataNode):
        return ("meta", type(x).__name__, sorted((k, repr(v)) for k, v in vars(x).items()))
    if isinstance(x, spec.Tfy) or isinstance(x, spec.TfyAttr):
        return ("tfy", id(x), json.dumps(x.spec, sort_keys=True), [snap(s) for s in getattr(x, "stored", ())])
    if isinstance(x, spec.ReprObj):
        return ("repr", x.s)
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if x is None or isinstance(x, (int, float)):
        return ("scalar", repr(x))
    return ("object", type(x).__name__, id(x))


def dumps(x):
    return json.dumps(x, default=lambda o: [type(o).__name__, str(o)])


def objects(x, out=None, path=""):
    """id -> path of every tag, child list, attribute map and metadata node."""
    ht = spec.H()
    if out is None:
        out = {}
    if isinstance(x, ht.Tag):
        out[id(x)] = path + "<%s>" % x.name
        out[id(x.attrs)] = path + "<%s>.attrs" % x.name
        objects(x.children, out, path + "<%s>" % x.name)
    elif isinstance(x, ht.TagList):
        out[id(x)] = path + ".children"
        for i, c in enumerate(x):
            objects(c, out, path + "[%d]" % i)
    elif isinstance(x, ht.MetadataNode):
        out[id(x)] = path + "(%s)" % type(x).__name__
        h = getattr(x, "head", None)
        if h is not None:
            objects(h, out, path + ".head")
    return out


def diff(a, b, path=""):
    """The first difference between two snapshots."""
    if type(a) != type(b):
        return "%s: %r -> %r" % (path, short(a), short(b))
    if isinstance(a, (list, tuple)):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                return diff(p, q, path + "/%d" % i)
        if len(a) != len(b):
            return "%s: length %d -> %d" % (path, len(a), len(b))
        return None
    return None if a == b else "%s: %r -> %r" % (path, short(a), short(b))


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."
