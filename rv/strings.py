"""Hostile string/number pools.  Constants found in the code under test are used as
inputs too (names, texts, sizes): inputs that the code treats specially are exactly
those it mentions."""
from __future__ import annotations

import ast
import enum
import functools
import os
import re

from .core import REPO


def _small(n):
    return all(isinstance(x, (ast.BinOp, ast.operator, ast.Constant)) and (not isinstance(x, ast.Constant) or isinstance(x.value, int) and x.value < 10 ** 5)
               for x in ast.walk(n)) and isinstance(n.right, ast.Constant) and (n.right.value < 20 or isinstance(n.op, (ast.Mult, ast.Add, ast.Sub)))


@functools.lru_cache(None)
def harvest():
    strs, ints = set(), set()
    d = os.path.join(REPO, "htmltools")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f in ("tags.py", "svg.py"):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
        except Exception:
            continue
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 200:
                    if len(v) <= 60:
                        strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 60:
                    strs.add(v.decode("latin-1"))
                    if v.isascii():
                        # repetition counts of regular expressions
                        ints.update(x for g in re.findall(r"\{(\d{0,6}),?(\d{0,6})\}", v) for x in (int(y) for y in g if y) if 1 < x <= 200000)
                elif isinstance(v, int) and not isinstance(v, bool) and 1 < v <= 200000:
                    ints.add(v)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.LShift, ast.Pow, ast.Add, ast.Sub)):
                # 1 << 16, 64 * 1024
                try:
                    v = eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}}) if _small(n) else None
                except Exception:
                    v = None
                if isinstance(v, int) and 1 < v <= 200000:
                    ints.add(v)
    return tuple(sorted(strs)), tuple(sorted(ints))


@functools.lru_cache(None)
def wrapper_words():
    """Constants in the tag functions, by file and function; those outside of functions under None."""
    out = {}
    for f in ("tags.py", "svg.py"):
        try:
            tree = ast.parse(open(os.path.join(REPO, "htmltools", f), encoding="utf-8").read())
        except Exception:
            continue
        for st in tree.body:
            if isinstance(st, (ast.Import, ast.ImportFrom)) or isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets):
                continue
            fn = st.name if isinstance(st, ast.FunctionDef) else None
            if fn:
                # parameters: names which the function may take out of its keywords
                for a in st.args.args + st.args.kwonlyargs + st.args.posonlyargs:
                    if a.arg != "_add_ws":
                        out.setdefault((f[:-3], fn), {})[a.arg] = 1
            doc = {id(n.value) for n in ast.walk(st) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
            for n in ast.walk(st):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc and 0 < len(n.value) < 60 and n.value not in (fn, " | "):
                    out.setdefault((f[:-3], fn), {})[n.value] = 1
    return {k: tuple(v) for k, v in out.items()}


def wrapper_word(rng, mod, fn):
    w = wrapper_words()
    c = w.get((mod, fn), ()) or (w.get((mod, None), ()) if rng.random() < 0.5 else ())
    c = [x for x in c if x.strip()]
    return rng.choice(c) if c else None


@functools.lru_cache(None)
def regexes():
    """String constants of the code that are regular expressions: their matches (and
    near misses) are inputs which the code singles out."""
    out = []
    d = os.path.join(REPO, "htmltools")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f in ("tags.py", "svg.py"):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 200 and re.search(r"[\[\]*+?|\\{}()]", n.value):
                try:
                    import warnings

                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        p = _sre().parse(n.value)
                except Exception:
                    continue
                if not any(ch.isspace() and ch != "\n" for ch in n.value) or len(n.value) < 60:
                    out.append(p)
    return tuple(out)


def _sre():
    try:
        from re import _parser
    except ImportError:
        import sre_parse as _parser
    return _parser


CATS = {"CATEGORY_DIGIT": "0179", "CATEGORY_SPACE": " \n\t\r\x0b", "CATEGORY_WORD": "azAZ_09\u00e9"}


def _rx(rng, p):
    out = []
    for op, av in p:
        o = str(op)
        if o == "LITERAL":
            c = chr(av)
            out.append(c if rng.random() < 0.95 else c.swapcase())
        elif o == "NOT_LITERAL":
            out.append(rng.choice([c for c in "a<&\"' \n;" if ord(c) != av]))
        elif o == "ANY":
            out.append(rng.choice("a<&\"'; x"))
        elif o == "IN":
            out.append(_in(rng, av))
        elif o == "BRANCH":
            out.append(_rx(rng, rng.choice(av[1])))
        elif o == "SUBPATTERN":
            out.append(_rx(rng, av[-1]))
        elif o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, sub = av
            n = min(int(hi), lo + rng.choice([0, 0, 1, 2, 5]))
            if rng.random() < 0.1:
                n = max(0, lo - 1)
            out.extend(_rx(rng, sub) for _ in range(n))
        elif o in ("ASSERT", "ASSERT_NOT"):
            if rng.random() < 0.5:
                out.append(_rx(rng, av[1]))
        elif o == "ATOMIC_GROUP":
            out.append(_rx(rng, av))
    return "".join(out)


def _in(rng, items):
    neg = any(str(o) == "NEGATE" for o, _ in items)
    if neg:
        return rng.choice("a<&\"' \n;x0")
    o, av = rng.choice(items)
    o = str(o)
    if o == "LITERAL":
        return chr(av)
    if o == "RANGE":
        return chr(rng.randint(av[0], av[1]))
    if o == "CATEGORY":
        return rng.choice(CATS.get(str(av), "-<&a"))
    return "a"


def regex_text(rng):
    rs = regexes()
    if not rs:
        return "x"
    s = _rx(rng, rng.choice(rs))[:400]
    return "".join(c for c in s if not 0xD800 <= ord(c) < 0xE000)


META = "&<>\"'\r\n"
ENT = ["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#39;", "&#x27;", "&#13;", "&#10;", "&#38;",
       "&", "&&", "&amp", "&lt", "&;", "&#", "&#x", "&amp;amp;", "&notit;", "&copy", "&nbsp;",
       "&AMP;", "&#60;", "&#x3c;", "&#0;", "&lt;b&gt;"]
MARK = ["<", ">", "<<", ">>", "<>", "</", "/>", "<b>", "</b>", "<br/>", "</div>", "<!--", "-->", "<!-- x -->",
        "<!DOCTYPE html>", "<?php ?>", "]]>", "<![CDATA[", "<script>alert(1)</script>", "</script>", "</SCRIPT >",
        "<style>", "</style>", "<a href='x'>", '<a href="x">', '" onload="x', "' onload='x", "='", '="',
        "\"", "'", "\"'", "''", '""', "a\"b'c", "<a&b>", "a<b && c>d", "x = 'y'", "{{x}}", "${x}", "%s", "%d", "{0}", "{}",
        "\\", "\\\\", "\\n", "\\\"", "\\g<0>", "\\1", "$1", "`", "=", "/", "*/", "/*", "//", ";", ":", "#", "?", "@", "_", "-", "--"]
WS = [" ", "  ", "\n", "\r", "\r\n", "\t", "\n\n", " \n ", "\x0b", "\x0c", "\x1c", "\x85", "\u00a0", "\u2003", "\u2028",
      "\u2029", "\u3000", "\u200b", "\ufeff"]
UNI = ["é", "ß", "İ", "ı", "ſ", "K", "漢字", "\U0001F600", "👨‍👩‍👧", "e\u0301", "\u202e", "\x00", "\x01", "\x7f", "\x1b[0m",
       "\ufffd", "\uffff", "\U0010ffff", "﹤", "＜", "＞", "＆", "＂", "‘’“”", "ﬁ", "א", "ｱ", "\u0600", "<\u0338", "&\u0301",
       "ÅÅ", "\xad", "\x80", "\x9f", "\u1680"]
STRUCT = ["a,b", "a, b", "a,  b ,c", ",a", "a,", "a;b", "a; b ;", "a  b", " a", "a ", " a b ", "a b a", "b a b", "1,2", "0, 0", "a:b", "a: b;c:d",
          "x.png 1x, y.png 2x", "x.png 1x,y.png 2x", "a?b=1&c=2", "a?b=1&amp;c=2", "http://e.x/?q=a b", "HTTP://E.X/%7Ea/../b", "javascript:f()",
          "JavaScript: f()", "data:text/html,<b>", "#", "#a", "/", "//x", "a//b", "./a", "../a", "a/", "%41", "%", "mailto:a@b", "text/HTML; charset=UTF-8",
          "UTF-8", "utf-8", "nofollow  noopener", "Stylesheet", "en_US", "EN-us", "_blank", "TRUE", "true", "false", "yes", "no", "on", "off", "auto",
          "none", "NaN", "undefined", "01", "+1", "1e3", "1.50", ".5", "0x1F", "#FFF", "#ffffff", "RGB(1, 2, 3)", "translate( 1 , 2 )", "M0 0 L 1 1",
          "{\"a\": 1}", "{a: 'b'}", "[1, 2]", "return false;", "return  false", "if (a < b && c) { }", "color:red;;", "color : red", ";", "; ;",
          "1px", "100 %", "12:00", "2020-1-2", "a\tb", "a\u00a0b", "A a", "hidden", "name", "class", "é,è", "a|b", "a=b", "a = b", "(max-width: 1px) 2px, 3px",
          "^[a-z]+$", "\\d{3}", "*", "*/*", ".png,.jpg", "x y", "x  y", "-", "--", "--x", "!important", "x !important", "'a'", "`a`", "a'b", "\u200bx"]
WORDS = ["a", "b", "x", "foo", "bar", "Hello", "hello world", "foo bar", "None", "True", "False", "0", "1", "-1", "1.0", "nan",
         "null", "div", "span", "br", "script", "style", "lib", "class", "text", "html", "body", "head", "data", "id",
         "a b c", " lead", "trail ", " both ", "lead\n", "\ntrail", "a\nb", "line1\nline2\n", "  x  ", "a\tb"]


def sizes(rng, cap=4000):
    """A length/count: small, around power-of-two boundaries, or a constant of the code."""
    ints = harvest()[1]
    r = rng.random()
    if r < 0.5 or not ints:
        base = rng.choice([0, 1, 2, 3, 4, 5, 8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 200, 255, 256, 500, 512, 1000,
                           1024, 2000, 2048, 4000, 4096])
    else:
        base = rng.choice(ints)
    n = base + rng.choice([-1, 0, 0, 1])
    return max(0, min(n, cap))


def big(rng):
    """A size far beyond the usual ones."""
    ints = [x for x in harvest()[1] if 4000 <= x <= 200000]
    return rng.choice([8192, 10000, 16384, 32768, 65535, 65536, 100000] + ints) + rng.choice([-1, 0, 1, 7])


def text(rng, pool=None, cap=4000):
    """One hostile string.  `pool` (a per-case list) makes strings recur within a case."""
    if pool and rng.random() < 0.3:
        s = rng.choice(pool)
        if rng.random() < 0.2:
            s = s + rng.choice(META) if rng.random() < 0.5 else rng.choice(META) + s
    else:
        s = _text(rng, cap)
    if pool is not None and len(pool) < 40:
        pool.append(s)
    return s


def _text(rng, cap):
    r = rng.random()
    if r < 0.11:
        return rng.choice(WORDS)
    if r < 0.14:
        return rng.choice(STRUCT)
    if r < 0.26:
        return rng.choice(MARK)
    if r < 0.34:
        return rng.choice(ENT)
    if r < 0.38:
        return rng.choice(WS)
    if r < 0.43:
        return rng.choice(UNI)
    if r < 0.47:
        return ""
    if r < 0.58:
        return "".join(rng.choice("&<>\"'\r\n ab;#x") for _ in range(rng.randrange(1, 9)))
    if r < 0.84:
        n = rng.randrange(2, 5)
        return "".join(rng.choice(rng.choice((WORDS, MARK, ENT, WS, UNI, META, MARK, META))) for _ in range(n))
    if r < 0.90:
        hs = harvest()[0]
        s = rng.choice(hs) if hs else "x"
        if rng.random() < 0.4:
            s = regex_text(rng)
        if rng.random() < 0.4:
            s = rng.choice(WORDS) + s
        if rng.random() < 0.4:
            s = s + rng.choice(MARK)
        return s
    if r < 0.95:
        return "".join(cp(rng) for _ in range(rng.randrange(1, 12)))
    # long
    n = sizes(rng, cap)
    if cap >= 4000 and rng.random() < 0.01:
        n = big(rng)
    unit = rng.choice(["a", "&", "<", "ab", "x ", "\"", "'", "\n", "é", "a&", "<b>", "&amp;"])
    s = (unit * (n // len(unit) + 1))[:n]
    k = rng.random()
    if k < 0.4:
        s += rng.choice(META)
    elif k < 0.6 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(META) + s[i:]
    elif k < 0.7:
        s = rng.choice(META) + s
    return s


def cp(rng):
    r = rng.random()
    if r < 0.3:
        return chr(rng.randrange(0, 0x80))
    if r < 0.5:
        return chr(rng.randrange(0x80, 0x300))
    if r < 0.8:
        c = rng.randrange(0x300, 0x10000)
        return chr(c) if not 0xD800 <= c < 0xE000 else "\u2000"
    return chr(rng.randrange(0x10000, 0x110000))


ATTR_NAME = re.compile(r"[^\s\"'<>/=\x00-\x1f\x7f&_]+\Z")
TAG_NAME = re.compile(r"[a-zA-Z][a-zA-Z0-9:.\-]*\Z")

ATTRS = ["class", "style", "id", "href", "src", "title", "alt", "value", "name", "type", "for", "data-x", "data-foo-bar",
         "aria-label", "aria-hidden", "role", "lang", "hidden", "checked", "disabled", "selected", "readonly", "async",
         "defer", "onclick", "onload", "viewBox", "xml:lang", "xlink:href", "@click", ":bind", "v-on:click.prevent",
         "x", "y", "a", "b", "z1", "data-html-dependency", "charset", "content", "rel", "integrity", "é", "データ", "A",
         "Class", "ID", "placeholder", "width", "height", "colspan", "tabindex", "srcset", "loop", "muted", "open"]


HTML_ATTRS = tuple("""abbr accept accept-charset accesskey action align allow allowfullscreen alt as async autocapitalize autocomplete
autofocus autoplay background bgcolor border cellpadding cellspacing challenge charset checked cite class code codebase color cols colspan
content contenteditable controls coords crossorigin data datetime decoding default defer dir dirname disabled download draggable enctype
enterkeyhint for form formaction formenctype formmethod formnovalidate formtarget frame frameborder headers height hidden high href
hreflang http-equiv icon id imagesizes imagesrcset inert inputmode integrity is ismap itemid itemprop itemref itemscope itemtype keytype
kind label lang list loading longdesc loop low manifest marginheight max maxlength media method min minlength multiple muted name
nomodule nonce noshade novalidate nowrap object onblur onchange onclick onerror onfocus onload onsubmit open optimum part pattern ping
placeholder playsinline poster preload profile property radiogroup readonly referrerpolicy rel required rev reversed role rows rowspan
rules sandbox scope scrolling selected shape size sizes slot span spellcheck src srcdoc srclang srcset standby start step style summary
tabindex target text title translate type typemustmatch usemap valign value valuetype vlink width wrap xmlns xmlns:xlink xml:space
viewBox fill stroke d points transform x1 y1 cx cy r rx ry dx dy offset gradientUnits clip-path stroke-width font-size preserveAspectRatio
aria-label aria-hidden aria-describedby data-toggle data-target data-bs-toggle data-options hx-get x-data v-if""".split())


@functools.lru_cache(None)
def attr_names():
    hs = [s for s in harvest()[0] if ATTR_NAME.match(s)]
    return tuple(dict.fromkeys(ATTRS + hs + list(HTML_ATTRS)))


IDENT = re.compile(r"[A-Za-z][A-Za-z0-9]*")


@functools.lru_cache(None)
def stems():
    """Words occurring in the code's constants: a name may be singled out by its beginning, end or middle."""
    out = {}
    for s in harvest()[0]:
        for w in IDENT.findall(s):
            if len(w) <= 20:
                out[w] = 1
    for w in ("data", "aria", "on", "default", "style", "class", "html", "x", "child", "children", "key", "ref", "is", "no", "src", "href"):
        out[w] = 1
    return tuple(out)


TAILS = ["Value", "s", "x", "1", "A", "base", "Name", "ing", "er", "Foo", "set", "2b", "Key"]


def derived(rng):
    """An identifier (letters and digits) made of a word of the code and something else."""
    w = rng.choice(stems())
    r = rng.random()
    if r < 0.2:
        return w
    if r < 0.6:
        return w + (rng.choice(TAILS) if rng.random() < 0.7 else rng.choice(stems()).capitalize())
    if r < 0.75:
        return rng.choice(["x", "my", "re", "sub", "on", "a", "no", "pre"]) + (w.capitalize() if rng.random() < 0.5 else w)
    if r < 0.85:
        return w.upper() if rng.random() < 0.5 else w.capitalize()
    if r < 0.93:
        return w[:rng.randrange(1, len(w) + 1)]
    return "".join(rng.choice("abcxyzABCXYZ019") for _ in range(rng.choice([1, 2, 3, 6, 12, 30]))).lstrip("019") or "q"


def attr_name(rng):
    if rng.random() < 0.85:
        return rng.choice(attr_names())
    n = derived(rng)
    r = rng.random()
    return n if r < 0.5 else n + "-" + derived(rng) if r < 0.8 else n.lower() + rng.choice(":.@-") + derived(rng)


def attr_sample(rng, k):
    out = {}
    while len(out) < k:
        out[attr_name(rng)] = 1
    return list(out)


VOID = frozenset("area base br col command embed hr img input keygen link meta param source track wbr".split())

HTML_TAGS = tuple("""a abbr address area article aside audio b base bdi bdo blockquote body br button canvas caption cite
code col colgroup command data datalist dd del_ details dfn dialog div dl dt em embed fieldset figcaption figure footer form
h1 h2 h3 h4 h5 h6 head header hgroup hr html i iframe img input ins kbd keygen label legend li link main map_ mark menu meta
meter nav noscript object_ ol optgroup option output p param picture pre progress q rp rt ruby s samp script section select
slot small source span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr track u ul
var video wbr""".replace("del_", "del").replace("map_", "map").replace("object_", "object").split())
CUSTOM_TAGS = ("x-foo", "my-element", "my:el", "svg:rect", "foo.bar", "H1x", "customTag", "linearGradient", "foreignObject",
               "textPath", "svg", "g", "path", "text", "a1", "z", "math", "x-script", "script-x", "brx", "xbr", "hr2", "linked",
               "metadata", "sourced", "stylez", "bodyx", "html5", "headx", "DIV", "Span", "colx", "inputs", "feGaussianBlur")


@functools.lru_cache(None)
def tag_names():
    hs = [s for s in harvest()[0] if TAG_NAME.match(s) and len(s) < 30]
    al = dict.fromkeys(HTML_TAGS + CUSTOM_TAGS + tuple(hs))
    return tuple(n for n in al if n in VOID or n.lower() not in VOID)


def tag_name(rng):
    r = rng.random()
    if r < 0.45:
        return rng.choice(("div", "span", "p", "b", "a", "ul", "li", "i", "em", "section", "x-y"))
    if r < 0.55:
        return rng.choice(sorted(VOID))
    if r < 0.95:
        return rng.choice(tag_names())
    if rng.random() < 0.5:
        n = derived(rng) + (rng.choice("-:.") + derived(rng) if rng.random() < 0.3 else "")
        return n if n.lower() not in VOID and n.lower() not in ("script", "style") and TAG_NAME.match(n) else "x-d"
    n = rng.choice("abcdxyzXYZ") + "".join(rng.choice("abcz019-:.ABZ") for _ in range(rng.randrange(0, 12)))
    return n if n in VOID or n.lower() not in VOID and n.lower() not in ("script", "style") else "x-n"


NUMS = ["0", "1", "-1", "2", "10", "255", "12345678901234567890", "-0.0", "0.0", "1.0", "1.5", "-2.25", "1e22", "1e-7", "1e16",
        "0.1", "3.141592653589793", "1e308", "nan", "inf", "-inf", "True", "False", "100000000000000000000000", "5e-324",
        "123456.789", "1e15", "1e100"]


NUMSUB = ["sub:1", "sub:-3", "sub:2.5", "sub:1e22", "sub:nan", "shown:7", "shown:0", "shown:1.5", "enum:2"]   # subclasses of int and float


ATTRNUMS = [x for x in NUMS if x not in ("True", "False")] + NUMSUB


class IntSub(int):
    def __repr__(self):
        return "<IntSub>"

    __str__ = int.__repr__


class FloatSub(float):
    def __repr__(self):
        return "<FloatSub>"

    __str__ = float.__repr__


class IntShown(int):
    def __str__(self):
        return "n<%s>&" % int.__repr__(self)


class FloatShown(float):
    def __str__(self):
        return "x<%s>\"" % float.__repr__(self)


class Choice(enum.IntEnum):
    A = 1
    B = 2


def num(rng, sub=True):
    r = rng.random()
    if sub and r < 0.04:
        return rng.choice(NUMSUB)
    if r < 0.6:
        return rng.choice(NUMS)
    if r < 0.8:
        return str(rng.randrange(-10 ** 6, 10 ** 6))
    return repr(rng.uniform(-1e6, 1e6) * 10 ** rng.randrange(-9, 12))


def mknum(s):
    if s in ("True", "False"):
        return s == "True"
    if ":" in s:
        k, s = s.split(":")
        x = mknum(s)
        if k == "enum":
            return Choice(x)
        return {"sub": (IntSub, FloatSub), "shown": (IntShown, FloatShown)}[k][isinstance(x, float)](x)
    try:
        return int(s)
    except ValueError:
        return float(s)
