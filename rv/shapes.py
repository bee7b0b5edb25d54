"""Exhaustive small forests."""
from __future__ import annotations

import itertools


def tag(n, ws, c, a=()):
    return {"k": "tag", "n": n, "ws": ws, "a": list(a), "c": list(c), "h": 0}


def T(s):
    return {"k": "text", "s": s}


META = {"k": "meta"}
DEP = {"k": "dep", "name": "d", "ver": "1", "src": {"href": "u"}, "script": [{"src": "a.js"}], "head": {"s": "<title>H</title>"}}


def forests(leaves, tags, valid=False):
    """Lists of up to 4 siblings, three levels deep at the narrow end.

    leaves: leaf specs; tags: (name, ws) pairs; valid: no block inside inline."""
    def ok(ws, kids):
        return ws or not valid or not any(k.get("ws") for k in kids)

    l0 = list(leaves) + [tag(n, ws, []) for n, ws in tags]
    core = l0[:]
    l1 = [tag(n, ws, c) for n, ws in tags for k in (1, 2) for c in itertools.product(core, repeat=k) if ok(ws, c)]
    l1s = [t for t in l1 if len(t["c"]) == 1]
    l2 = [tag(n, ws, [c]) for n, ws in tags for c in l1s if ok(ws, [c])]
    three = [tag(n, ws, c) for n, ws in tags for c in itertools.product(core, repeat=3) if ok(ws, c)]
    out = [[x] for x in l0 + l1 + l2 + three]
    out += [list(p) for p in itertools.product(core, repeat=2)]
    out += [list(p) for p in itertools.product(core, repeat=3)]
    out += [[a, b] for a in l1s for b in core] + [[b, a] for a in l1s for b in core]
    out += [[b, a, c] for a in l1s[::3] for b in core for c in core[::2]]
    out += [[tag(n, ws, [a, b])] for n, ws in tags for a in l1s for b in core if ok(ws, [a, b])]
    out += [[tag(n, ws, [b, a])] for n, ws in tags for a in l1s for b in core if ok(ws, [a, b])]
    return out
