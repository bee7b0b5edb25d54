"""Histories of one string: the same characters (sometimes the same object) are plain text, trusted markup, script text,
attribute values, in any order within one process; nothing carries over from one role to another."""
from . import model, spec, strings
from .core import Violation

ROLES = ["text_only", "text_sib", "text_list", "text_block", "html_only", "html_sib", "html_list", "html_block", "repr_only", "repr_sib", "script", "script2",
         "style", "attr", "attr_html", "attr_mix", "attr_mix2", "concat", "rconcat", "hh", "escape", "escape_attr", "as_string", "htmlsub", "strsub", "script_html"]


def gen(rng):
    ss = []
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        if r < 0.35:
            s = strings.text(rng, None, 300)
        elif r < 0.7:
            s = "".join(rng.choice(["&", "<", ">", '"', "'", "a", "\n", " ", "&amp;", "é"]) for _ in range(strings.sizes(rng, 600)))
        else:
            s = rng.choice(["a & b", "<b>", "&lt;", 'say "x"', "it's", "x<y>z"]) + "p" * strings.sizes(rng, 1500)
        ss.append(s)
    if len(ss) == 2 and rng.random() < 0.6:
        # nearly the same one
        s = ss[0]
        k = rng.randrange(len(s) + 1)
        ss[1] = rng.choice([s[:k] + rng.choice("<&>\"'x ") + s[k:], s + "&", s[:-1], "<" + s, s.replace("&", "<"), s.swapcase()])
    n = rng.choice([2, 3, 4, 6, 10])
    return {"t": "one", "ss": ss, "seq": [[rng.choice(ROLES), rng.randrange(len(ss)), rng.randrange(3)] for _ in range(n)],
            "an": strings.attr_name(rng) if rng.random() < 0.5 else "title"}


JUDGED = {"C02": {"text_only", "text_sib", "text_list", "text_block", "escape", "strsub"}, "C03": {"attr", "attr_html", "attr_mix", "attr_mix2", "escape_attr"},
          "C04": set(ROLES) - {"text_only", "text_sib", "text_list", "text_block", "escape", "strsub", "attr", "escape_attr"}}


def run(case, M, prop):
    """Every step is carried out; those the property speaks about are judged."""
    ht = spec.H()
    ss = case["ss"]
    base = [("".join(list(s)), ht.HTML(s)) for s in ss]
    done = []
    an = case.get("an", "title")
    for role, j, fresh in case["seq"]:
        if j >= len(ss):
            return
        s = ss[j]
        p, h = base[j]
        if fresh:
            p, h = "".join(list(s)), ht.HTML("".join(list(s)))
        t = lambda *a, **k: ht.Tag(*a, _add_ws=False, **k)
        T, L, A = ("T", s), ("L", s), ("A", s)
        lit = lambda x: ("L", x)
        i = "<i></i>"
        if role == "text_only":
            x, seg = t("b", p), [lit("<b>"), T, lit("</b>")]
        elif role == "text_sib":
            x, seg = t("b", t("i"), p, t("i"), p), [lit("<b>" + i), T, lit(i), T, lit("</b>")]
        elif role == "text_list":
            x, seg = ht.TagList(p, p), [T, T]
        elif role == "text_block":
            x, seg = ht.Tag("div", p), [lit("<div>"), T, lit("</div>")]
        elif role == "html_only":
            x, seg = t("b", h), [lit("<b>"), L, lit("</b>")]
        elif role == "html_sib":
            x, seg = t("b", t("i"), h, t("i"), h), [lit("<b>" + i), L, lit(i), L, lit("</b>")]
        elif role == "html_list":
            x, seg = ht.TagList(h, p, h), [L, T, L]
        elif role == "html_block":
            x, seg = ht.Tag("div", h), [lit("<div>"), L, lit("</div>")]
        elif role == "repr_only":
            x, seg = t("b", spec.ReprObj(p, spec.Ctx())), [lit("<b>"), L, lit("</b>")]
        elif role == "repr_sib":
            x, seg = t("b", p, spec.ReprObj(p, spec.Ctx()), p), [lit("<b>"), T, L, T, lit("</b>")]
        elif role in ("script", "style"):
            x, seg = t(role, p), [lit("<%s>" % role), L, lit("</%s>" % role)]
        elif role == "script2":
            x, seg = t("script", p, p), [lit("<script>"), L, L, lit("</script>")]
        elif role == "script_html":
            x, seg = t("script", h, p), [lit("<script>"), L, L, lit("</script>")]
        elif role == "attr":
            x, seg = t("i", **{an: p}), [lit('<i %s="' % an), A, lit('"></i>')]
        elif role == "attr_html":
            x, seg = t("i", **{an: h}), [lit('<i %s="' % an), L, lit('"></i>')]
        elif role == "attr_mix":
            x, seg = t("i", {an: p}, **{an: h}), [lit('<i %s="' % an), A, lit(" "), L, lit('"></i>')]
        elif role == "attr_mix2":
            x, seg = t("i", {an: h}, **{an: p}), [lit('<i %s="' % an), L, lit(" "), A, lit('"></i>')]
        elif role == "concat":
            x, seg = ht.TagList(h + p), [L, T]
        elif role == "rconcat":
            x, seg = ht.TagList(p + h), [T, L]
        elif role == "hh":
            x, seg = ht.TagList(h + h, p), [L, L, T]
        elif role == "escape":
            x, seg = ht.html_escape(p), [T]
        elif role == "escape_attr":
            x, seg = ht.html_escape(p, attr=True), [A]
        elif role == "as_string":
            x, seg = h.as_string(), [L]
        elif role == "htmlsub":
            x, seg = t("b", spec.html_sub()(s)), [lit("<b>"), L, lit("</b>")]
        else:
            x, seg = t("b", spec.StrSub(s)), [lit("<b>"), T, lit("</b>")]
        out = x if isinstance(x, str) else x.get_html_string()
        done.append(role)
        if role not in JUDGED[prop]:
            continue
        r = model.match(str(out), seg, units=())
        if r:
            raise Violation("history", "one string in several roles, after %s: %s\noutput: %r" % (done, r, str(out)[:500]))
        M.ev("roles_observed")
    M.distinct(case["ss"], case["seq"])
