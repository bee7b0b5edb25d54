"""C19: every tag function creates its own element with the documented default."""
import json

from .. import attrmodel, snap, spec, strings
from ..core import Stream, Violation
from . import c14, c15

ID = "C19"
CONCURRENT = 200
RULE = ("every function of htmltools.tags (113) and htmltools.svg (66) and the 17 top-level shortcuts, each with every kind of argument list "
        "(none, children, dicts, keywords incl. names the wrappers might use themselves, invalid values), default and explicit and non-boolean "
        "_add_ws, alone and in random call sequences whose results are mutated; compared with a frozen table of names and defaults, with the "
        "Tag constructor given the same arguments, and with the shadow models of children and attributes; distinct by function and arguments")
ASSUMPTIONS = ["the classification is the one of scripts/generate_tags.py at the pinned commit", "functions beyond the listed ones are not judged"]
COV_FILES = ["tags.py", "svg.py", "_core.py"]
MIN_EVENTS = {"functions_seen": 196, "calls_compared": 30000, "defaults_checked": 10000, "explicit_add_ws": 5000, "non_bool_rejected": 3000,
              "invalid_args_rejected": 800}

TAGS = """a abbr address area article aside audio b base bdi bdo blockquote body br button canvas caption cite code col colgroup data datalist dd
details dfn dialog div dl dt em embed fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hr html i iframe img input ins
kbd label legend li link main map mark math menu meta meter nav noscript object ol optgroup option output p param picture portal pre
progress q rp rt ruby s samp script section select slot small source span strong style sub summary sup svg table tbody td template textarea
tfoot th thead time title tr track u ul var video wbr""".split()
SVG = """a animate animateMotion animateTransform circle clipPath defs desc discard ellipse feBlend feColorMatrix feComponentTransfer feComposite
feConvolveMatrix feDiffuseLighting feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR feGaussianBlur
feImage feMerge feMergeNode feMorphology feOffset fePointLight feSpecularLighting feSpotLight feTile feTurbulence filter foreignObject g
hatch hatchpath image line linearGradient marker mask metadata mpath path pattern polygon polyline radialGradient rect script set stop style
svg switch symbol text textPath title tspan use view""".split()
INLINE = frozenset("""a abbr acronym audio b bdi bdo big br button canvas cite code data datalist del dfn em embed i iframe img input ins kbd label map mark meter
noscript object output picture pre progress q ruby s samp select slot small span strong sub sup svg template textarea time tt u var video
wbr""".split())
SHORT = "a br code div em h1 h2 h3 h4 h5 h6 hr img p pre span strong".split()
FUNCS = [["tags", n] for n in TAGS] + [["svg", n] for n in SVG] + [["top", n] for n in SHORT]
KW = ["name", "args", "kwargs", "cls", "tag", "children", "attrs", "add_ws", "type", "_name_", "x", "class_", "id", "style", "text", "content",
      "title", "value", "data_x", "for_", "href", "src", "_add_ws_", "prev_displayhook", "html", "a", "p", "fn", "inline", "void"]
BADWS = [0, 1, None, "True", "False", "", 1.0, 0.0, [], [True], {}, -1, 2, "yes"]


def gargs(rng, f=("tags", None)):
    r = rng.random()
    mod = "tags" if f[0] == "top" else f[0]
    word = strings.wrapper_word(rng, mod, f[1]) if rng.random() < 0.5 else None
    if r < 0.15:
        return [], []
    args = []
    pool = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        if rng.random() < 0.7:
            args.append(["c", c14.value(rng, 0, 0.02)])
        else:
            args.append(["d", c15.items(rng, pool)])
            if word and rng.random() < 0.3 and all(n != word for n, _ in args[-1][1]):
                args[-1][1].append([word, c15.val(rng)])
    kw, seen = [], set()
    if rng.random() < 0.12:
        # names that are parameters in places, as keys of a dict
        n = rng.choice(["_name", "_add_ws", "self", "args", "kwargs", "name", "add_ws", "attrs", "children", "cls", "_add_ws_"])
        d = next((x for k, x in args if k == "d"), None)
        if d is None or rng.random() < 0.3:
            d = []
            args.insert(rng.randrange(len(args) + 1), ["d", d])
        if all(a != n for a, _ in d):
            d.append([n, c15.val(rng)])
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        n = word if word and rng.random() < 0.5 else rng.choice(KW) if rng.random() < 0.6 else rng.choice(c15.BASE)
        if n in seen or n in ("_add_ws", "self", "_name"):
            continue
        seen.add(n)
        kw.insert(rng.randrange(len(kw) + 1), [n, {"t": "str", "s": word} if word and rng.random() < 0.3 else c15.val(rng)])
    return args, kw


def g_each(i, rng):
    """Each function in turn."""
    f = FUNCS[i % len(FUNCS)]
    j = i // len(FUNCS)
    ws = [None, True, False, None, ["bad", j % len(BADWS)]][j % 5]
    args, kw = gargs(rng, f) if j >= 3 else ([], [])
    return {"calls": [{"f": f, "args": args, "kw": kw, "ws": ws}]}


def g_seq(i, rng):
    calls = []
    fs = [rng.choice(FUNCS) for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(rng.choice([2, 4, 6, 10])):
        f = rng.choice(fs) if rng.random() < 0.6 else rng.choice(FUNCS)
        args, kw = gargs(rng, f)
        ws = rng.choice([None, None, True, False, ["bad", rng.randrange(len(BADWS))]])
        calls.append({"f": f, "args": args, "kw": kw, "ws": ws, "mut": rng.randrange(6)})
    return {"calls": calls}


def streams(tier):
    q = tier == "quick"
    return [Stream("each", len(FUNCS) * (180 if q else 1500), g_each), Stream("sequences", 42000 if q else 150000, g_seq)]


_seen = set()


def check(case, M):
    ht = spec.H()
    world = c14.World(M)
    made = []
    for c in case["calls"]:
        mod, n = c["f"]
        holder = ht if mod == "top" else getattr(ht, mod, None)
        f = getattr(holder, n, None)
        if not callable(f):
            raise Violation("missing", "htmltools%s.%s is not there" % ("" if mod == "top" else "." + mod, n))
        if (mod, n) not in _seen:
            _seen.add((mod, n))
            M.ev("functions_seen")
        one(f, mod, n, c, ht, world, made, M)
    for t, s, ids in made:
        if snap.snap(t) != s or [id(x) for x in t.children] != ids:
            raise Violation("shared", "<%s> created earlier changed later: %s" % (t.name, snap.diff(s, snap.snap(t))))


def one(f, mod, n, c, ht, world, made, M):
    args, flat, pairs = [], [], []
    for kind, x in c["args"]:
        if kind == "c":
            o, fl = world.mk(x)
            if isinstance(o, dict):
                fl, pairs = None, None
                break
            args.append(o)
            flat = None if flat is None or fl is None else flat + fl
        else:
            args.append({a: c15.value(v) for a, v in x})
            pairs += attrmodel.pairs_of(x)
    if pairs is None:
        return
    kw = {a: c15.value(v) for a, v in c["kw"]}
    pairs += attrmodel.pairs_of(c["kw"])
    ws = c["ws"]
    what = "%s.%s(%s)" % (mod, n, json.dumps([c["args"], c["kw"], ws])[:500])
    default = n not in INLINE
    if isinstance(ws, list):
        bad = BADWS[ws[1] % len(BADWS)]
        try:
            t = f(*args, _add_ws=bad, **kw)
        except Exception:
            M.ev("non_bool_rejected")
            return
        raise Violation("add_ws", "%s: _add_ws=%r was accepted" % (what, bad))
    kws = dict(kw) if ws is None else dict(kw, _add_ws=ws)
    try:
        t = f(*args, **kws)
    except Exception as e:
        if flat is None:
            M.ev("invalid_args_rejected")
            if not isinstance(e, TypeError):
                raise Violation("invalid", "%s raised %r, the constructor raises TypeError" % (what, e))
            return
        raise Violation("call", "%s raised %s: %s" % (what, type(e).__name__, e))
    if flat is None:
        raise Violation("invalid", "%s: an invalid child was accepted" % what)
    if not isinstance(t, ht.Tag):
        raise Violation("type", "%s returned a %s" % (what, type(t).__name__))
    if t.name != n or type(t.name) is not str:
        raise Violation("name", "%s created <%s>" % (what, t.name))
    want = default if ws is None else ws
    if t.add_ws is not want:
        raise Violation("add_ws", "%s has add_ws=%r, expected %r" % (what, t.add_ws, want))
    M.ev("defaults_checked" if ws is None else "explicit_add_ws")
    els = list(t.children)
    ok = len(els) == len(flat) and isinstance(t.children, ht.TagList)
    if ok:
        for e, (k, w) in zip(els, flat):
            if (k == "o" and e is not w) or (k == "s" and not (isinstance(e, str) and str(e) == w)):
                ok = False
    if not ok:
        raise Violation("children", "%s has children %s, expected %s" % (what, c14.desc(els), c14.desc([w for _, w in flat])))
    m = attrmodel.AttrModel()
    m.call(pairs)
    c15.cmp_map(t.attrs, m.d, what, M)
    ref = ht.Tag(n, *args, _add_ws=want, **kw)
    if snap.snap(ref) != snap.snap(t) or type(ref.attrs) is not type(t.attrs) or not (ref == t):
        raise Violation("constructor", "%s differs from the constructor's: %s" % (what, snap.diff(snap.snap(ref), snap.snap(t))))
    if not any(isinstance(x, (spec.Tfy, spec.TfyAttr)) for x in els):
        if str(t) != str(ref):
            raise Violation("constructor", "%s writes %r, the constructor's %r" % (what, str(t)[:300], str(ref)[:300]))
        if not els and not m.d:
            w = "<%s/>" % n if n in strings.VOID else "<%s></%s>" % (n, n)
            if str(t) != w:
                raise Violation("written", "%s writes %r" % (what, str(t)))
    M.ev("calls_compared")
    M.distinct(mod, n, c["args"], c["kw"], ws)
    # results are independent of one another
    mut = c.get("mut", 0)
    if mut == 1:
        t.append("mut")
    elif mut == 2:
        t.attrs["mut"] = "1"
    elif mut == 3:
        t.add_ws = not t.add_ws
        t.name = "mut"
    elif mut == 4:
        t.children.clear()
        t.attrs.clear()
    made.append((t, snap.snap(t), [id(x) for x in t.children]))
    M.sample({"call": what, "tag": [t.name, t.add_ws]})


def worker_init(w):
    _seen.clear()
