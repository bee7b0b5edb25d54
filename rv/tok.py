"""A strict HTML tokenizer (plain data state: no raw-text elements)."""
from __future__ import annotations

from .model import ref_at


class ParseError(Exception):
    pass


WS = " \t\n\r\f"


def tokens(s):
    """[("start",name,[(attr,rawvalue)],selfclosed) | ("end",name) | ("text",raw)]"""
    out = []
    i, n = 0, len(s)
    while i < n:
        j = s.find("<", i)
        if j < 0:
            j = n
        if j > i:
            out.append(("text", s[i:j]))
        if j >= n:
            break
        i = j + 1
        if s[i:i + 1] == "/":
            k = s.find(">", i)
            if k < 0 or not s[i + 1:i + 2].isalpha():
                raise ParseError("bad end tag at %d: %r" % (j, s[j:j + 40]))
            name = s[i + 1:k].rstrip(WS)
            if not name or any(c in name for c in WS + "/<\"'="):
                raise ParseError("bad end tag at %d: %r" % (j, s[j:j + 40]))
            out.append(("end", name))
            i = k + 1
            continue
        if not ("a" <= s[i:i + 1].lower() <= "z"):
            raise ParseError("stray '<' at %d: %r" % (j, s[j:j + 40]))
        k = i
        while k < n and s[k] not in WS + "/>":
            k += 1
        name = s[i:k]
        attrs, selfc = [], False
        i = k
        while True:
            k = i
            while k < n and s[k] in WS:
                k += 1
            if k >= n:
                raise ParseError("unterminated tag at %d: %r" % (j, s[j:j + 60]))
            if s[k] == ">":
                i = k + 1
                break
            if s[k] == "/":
                if s[k + 1:k + 2] != ">":
                    raise ParseError("stray '/' in tag at %d: %r" % (j, s[j:j + 60]))
                selfc = True
                i = k + 2
                break
            if k == i:
                raise ParseError("no space before attribute at %d: %r" % (k, s[j:j + 80]))
            m = k
            while m < n and s[m] not in WS + "=>/":
                m += 1
            an = s[k:m]
            if not an or any(c in an for c in "\"'<"):
                raise ParseError("bad attribute name at %d: %r" % (k, s[j:j + 80]))
            if s[m:m + 1] != "=":
                attrs.append((an, ""))
                i = m
                continue
            q = s[m + 1:m + 2]
            if q in ('"', "'") and q:
                e = s.find(q, m + 2)
                if e < 0:
                    raise ParseError("unterminated value at %d: %r" % (m, s[j:j + 80]))
                attrs.append((an, s[m + 2:e]))
                i = e + 1
            else:
                e = m + 1
                while e < n and s[e] not in WS + ">":
                    e += 1
                attrs.append((an, s[m + 1:e]))
                i = e
        out.append(("start", name, attrs, selfc))
    return out


def decode(raw):
    """Decode character references; a bare '&' is an error."""
    if "&" not in raw:
        return raw
    o, i = [], 0
    while i < len(raw):
        j = raw.find("&", i)
        if j < 0:
            o.append(raw[i:])
            break
        o.append(raw[i:j])
        r = ref_at(raw, j)
        if r is None:
            raise ParseError("not a character reference: %r" % raw[j:j + 20])
        o.append(r[0])
        i = j + r[1]
    return "".join(o)
