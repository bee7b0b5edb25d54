"""C17: with-blocks restore the display hook and collect children in order."""
import contextlib
import json
import sys

from .. import spec, strings
from ..core import Stream, Violation
from . import c14

ID = "C17"
RULE = ("programs of nested with-blocks (plain, ExitStack, manual enter/exit, left by return/break/continue, compiled in 'single' mode), "
        "displayed values of every kind, invalid values, replaced hooks, changes of the tags inside their blocks, and exceptions (incl. "
        "BaseException) from any point caught at any outer level, re-entries of any active tag, enclosing hooks that raise; in lockstep "
        "with a shadow hook stack: after each step the identity of sys.displayhook, the children of every tag and what the outermost "
        "hooks received are compared; all token strings up to length 6 (7); non-trivial: at least one block and one event in it, distinct by program")
ASSUMPTIONS = ["entering a tag again after its block ended is unspecified", "objects that are both tagifiable and self-rendering may be "
               "stored as themselves or as HTML", "an exception raised inside a block leaves it"]
MIN_EVENTS = {"blocks_exited": 30000, "blocks_exited_by_exception": 8000, "hook_identities_compared": 60000, "values_displayed": 30000,
              "invalid_rejected": 5000, "reentries_rejected": 5000, "deliveries": 30000, "delivery_raised": 300, "hooks_replaced_inside": 500}


class HookErr(Exception):
    pass


class Odd(BaseException):
    pass


EXCS = {"value": ValueError, "kbd": KeyboardInterrupt, "exit": SystemExit, "genexit": GeneratorExit, "stopiter": StopIteration, "odd": Odd,
        "type": TypeError, "runtime": RuntimeError, "key": KeyError, "assert": AssertionError}


class Boom:
    """_repr_html_ raises."""

    def _repr_html_(self):
        raise HookErr("repr")


class EqRepr:
    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        return self.s

    def __eq__(self, o):
        return True

    __hash__ = None


class EqBad:
    def __eq__(self, o):
        return True

    __hash__ = None


class EqRaise:
    def __eq__(self, o):
        raise RuntimeError("no comparison")

    def __bool__(self):
        raise RuntimeError("no truth value")

    __hash__ = None


class FalsyRepr:
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def _repr_html_(self):
        return ""


# ------------------------------------------------------------------ recorders
RETS = {"none": None, "true": True, "tuple": (True, 1), "text": "shown"}


def mkhook(kind, log, raise_on, ret="none"):
    ret = RETS[ret]

    def take(v):
        log.append(v)
        if len(log) in raise_on:
            raise HookErr("hook")
        return ret          # what a hook returns means nothing

    if kind == "func":
        return take
    if kind == "method":
        class R:
            def take(self, v):
                return take(v)
        return R().take
    if kind == "falsy":
        class F:
            def __bool__(self):
                return False

            def __len__(self):
                return 0

            def __call__(self, v):
                return take(v)
        return F()
    if kind == "eq":
        class E:
            def __eq__(self, o):
                return True

            __hash__ = None

            def __call__(self, v):
                return take(v)
        return E()
    if kind == "partial":
        import functools

        return functools.partial(lambda a, v: take(v), 1)
    return log.append       # a builtin method


HOOKS = ["func", "func", "method", "falsy", "eq", "partial", "append"]


# ------------------------------------------------------------------ generation
class G:
    def __init__(self, rng):
        self.rng, self.n = rng, 0
        self.budget = rng.choice([4, 8, 15, 30])
        self.maxd = rng.choice([2, 3, 5, 8])

    def val(self):
        rng = self.rng
        r = rng.random()
        if r < 0.12:
            return {"k": rng.choice(["none", "ell"])}
        if r < 0.27:
            return {"k": rng.choice(["eqrepr", "repr", "falsyrepr", "tfyrepr", "tagobj", "repr"]), "s": rng.choice(["<b>r</b>", "", "x & y", "\n"]), "sr": "<i>"}
        return c14.value(rng, 0, 0)

    def body(self, depth):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            if self.budget <= 0:
                break
            self.budget -= 1
            out.append(self.stmt(depth))
        return out

    def stmt(self, depth):
        rng = self.rng
        r = rng.random()
        lv = rng.choice([0, 0, 1, 1, 2, 3, 99])
        if r < 0.33 and depth < self.maxd:
            return self.block(depth)
        if r < 0.62:
            return ["show", self.val(), rng.choice([0, 0, 0, 1])]
        if r < 0.71:
            b = rng.choice(c14.BAD_KINDS[:-1] + ["eqbad", "eqraise", "boom", "notimpl"])
            if b == "ellipsis":
                b = "object"
            v = {"k": "bad", "b": b}
            for _ in range(rng.choice([0, 0, 0, 1, 2]) if b not in ("eqbad", "eqraise", "boom") else 0):
                v = {"k": "nest", "t": rng.choice(["list", "tuple"]), "c": [{"k": "text", "s": "a"}] * rng.randrange(2) + [v] + [{"k": "num", "s": "1"}] * rng.randrange(2)}
            return ["bad", v, lv]
        if r < 0.79:
            return ["reenter", rng.randrange(100), lv, rng.randrange(2)]
        if r < 0.86:
            return ["raise", rng.choice(list(EXCS)), max(1, lv)]
        if r < 0.93:
            return ["tagop", rng.randrange(100), rng.choice(["append", "insert", "reassign", "class", "attrs", "tagify", "copy", "pop", "str"])]
        if r < 0.97:
            return ["sethook", rng.randrange(3)]
        return ["loop", self.body(depth)]

    def block(self, depth):
        rng = self.rng
        return ["with", rng.choice(["plain", "plain", "plain", "stack", "manual", "ret", "break", "cont", "reenter_self"]),
                rng.choice(["div", "span", "br", "script", "p"]), rng.randrange(3), self.body(depth + 1)]


def g_prog(i, rng):
    g = G(rng)
    body = []
    while g.budget > 0:
        body += [g.block(0)] + g.body(0)
        g.budget -= 1
    if rng.random() < 0.02:
        # deep nesting, something happens at the bottom
        inner = g.body(0) or [["show", {"k": "text", "s": "x"}, 0]]
        if rng.random() < 0.5:
            inner.append(["raise", "value", rng.choice([1, 5, 99])])
        for _ in range(min(120, strings.sizes(rng, 120))):
            inner = [["with", "plain", "div", 0, inner]] + ([["show", {"k": "text", "s": "y"}, 0]] if rng.random() < 0.3 else [])
        body = inner
    return {"body": body, "hooks": [rng.choice(HOOKS) for _ in range(3)], "raise": [rng.randrange(1, 6)] if rng.random() < 0.15 else [],
            "ret": [rng.choice(["none", "none", "true", "tuple", "text"]) for _ in range(3)]}


TOKENS = ["(", ")", "s", "n", "i", "r", "x", "X"]


def g_tokens(i, rng, n):
    toks = []
    for _ in range(n):
        toks.append(TOKENS[i % len(TOKENS)])
        i //= len(TOKENS)
    stack = [[]]
    for t in toks:
        b = stack[-1]
        if t == "(":
            w = ["with", "plain", "div", 0, []]
            b.append(w)
            stack.append(w[4])
        elif t == ")":
            if len(stack) > 1:
                stack.pop()
        elif t == "s":
            b.append(["show", {"k": "text", "s": "t%d" % len(b)}, 0])
        elif t == "n":
            b.append(["show", {"k": "none"}, 0])
        elif t == "i":
            b.append(["bad", {"k": "bad", "b": "object"}, 1])
        elif t == "r":
            b.append(["reenter", 0, 0, 0])
        elif t == "x":
            b.append(["raise", "value", 1])
        else:
            b.append(["raise", "kbd", 2])
    return {"body": stack[0], "hooks": ["func"] * 3, "raise": []}


def streams(tier):
    q = tier == "quick"
    n = len(TOKENS)
    return [Stream("programs", 64000 if q else 600000, g_prog),
            Stream("tokens4", n ** 4, lambda i, rng: g_tokens(i, rng, 4)),
            Stream("tokens6", 64000 if q else n ** 6, lambda i, rng: g_tokens(i * 7919 % n ** 6, rng, 6)),
            ] + ([] if q else [Stream("tokens7", 300000, lambda i, rng: g_tokens(i * 7919 % n ** 7, rng, 7))])


# ------------------------------------------------------------------ execution
class Run:
    def __init__(self, case, M):
        self.ht, self.M, self.case = spec.H(), M, case
        self.world = c14.World(M)
        self.logs = [[] for _ in range(3)]          # what the outer hooks received
        self.want = [[] for _ in range(3)]
        self.hooks = [mkhook(k, log, set(case["raise"]) if j == 0 and k != "append" else (), case.get("ret", ["none"] * 3)[j])
                      for j, (k, log) in enumerate(zip(case["hooks"], self.logs))]
        self.raising = set(case["raise"]) if case["hooks"][0] != "append" else set()
        self.tags = []          # (tag, [expected children])
        self.active = []
        self.single = compile("v", "<shown>", "single")
        self.nblocks = 0
        self.step = "start"

    # -- the shadow
    def deliver(self, cur, kind, obj):
        """The hook `cur` is handed a value: what the model expects; True if it raises."""
        self.M.ev("deliveries")
        where, j = cur
        if where == "rec":
            self.want[j].append(obj)
            return j == 0 and len(self.want[0]) in self.raising
        self.tags[j][1].append((kind, obj))
        return False

    def compare(self, hook):
        if sys.displayhook is not hook:
            raise Violation("hook", "%s: sys.displayhook is %r, not the hook installed before (%r)" % (self.step, sys.displayhook, hook))
        self.M.ev("hook_identities_compared")
        ht = self.ht
        for j, (t, want) in enumerate(self.tags):
            els = list(t.children)
            ok = len(els) == len(want)
            if ok:
                for e, (k, w) in zip(els, want):
                    if k == "o":
                        ok = e is w or (isinstance(w, ht.HTML) and isinstance(e, ht.HTML) and str(e) == str(w))
                    elif k == "s":
                        ok = isinstance(e, str) and str(e) == w
                    elif k == "h":
                        ok = isinstance(e, ht.HTML) and str(e) == w
                    else:
                        ok = e is w[0] or (isinstance(e, ht.HTML) and str(e) == w[1])
                    if not ok:
                        break
            if not ok:
                raise Violation("children", "%s: tag %d has children %s, expected %s" % (
                    self.step, j, c14.desc(els), c14.desc([w for _, w in want])))
        for j in range(3):
            a, b = self.logs[j], self.want[j]
            if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
                raise Violation("delivery", "%s: outer hook %d received %s, expected %s" % (self.step, j, c14.desc(a), c14.desc(b)))

    # -- values
    def mk(self, v):
        """-> (object, [(kind, expectation)] | None for ignored | "bad")"""
        ht = self.ht
        k = v["k"]
        if k == "none":
            return None, []
        if k == "ell":
            return ..., []
        if k == "repr":
            o = spec.ReprObj(v["s"], spec.Ctx())
            return o, [("h", o.s)]
        if k == "eqrepr":
            o = EqRepr(v["s"])
            return o, [("h", o.s)]
        if k == "falsyrepr":
            return FalsyRepr(), [("h", "")]
        if k == "tfyrepr":
            o = spec.TfyRepr({"k": "tfy", "m": "list", "c": [], "sr": "<i>"}, spec.Ctx())
            return o, [("either", (o, "<i>"))]
        if k == "tagobj":
            o = ht.TagList("a", ht.span("b"))
            return o, [("o", c) if not isinstance(c, str) else ("s", c) for c in o]
        if k == "bad":
            b = v["b"]
            if b == "eqbad":
                return EqBad(), "bad"
            if b == "eqraise":
                return EqRaise(), "bad"
            if b == "boom":
                return Boom(), "bad"
            return c14.badval(b), "bad"
        if k == "nest" and any(x["k"] == "bad" for x in spec.iter_nodes([v])):
            return self.world.mk(v)[0], "bad"
        o, flat = self.world.mk(v)
        if isinstance(o, spec.ReprObj):
            return o, [("h", o.s)]
        if isinstance(o, spec.TfyRepr):
            return o, [("either", (o, "<i>"))]
        return o, flat

    def display(self, v, how):
        if how:
            exec(self.single, {"v": v})
        else:
            sys.displayhook(v)

    # -- statements
    def block(self, body, cur, depth):
        hook = sys.displayhook
        cur0, hook0 = cur, hook
        for st in body:
            self.step = "after %s" % json.dumps(st)[:300]
            k = st[0]
            if k == "show":
                o, flat = self.mk(st[1])
                self.M.ev("values_displayed")
                raises = False
                if cur[0] == "rec":
                    raises = self.deliver(cur, "o", o)
                else:
                    self.tags[cur[1]][1].extend(flat)
                try:
                    self.display(o, st[2])
                except HookErr:
                    if not raises:
                        raise Violation("exception", "%s: HookErr came from nowhere" % self.step)
                except Exception as e:
                    raise Violation("exception", "%s: displaying %r raised %s: %s" % (self.step, st[1], type(e).__name__, e))
                else:
                    if raises:
                        raise Violation("exception", "%s: the exception of the outer hook was swallowed" % self.step)
            elif k == "bad":
                if cur[0] == "rec":
                    continue
                o, _ = self.mk(st[1])
                is_boom = type(o) is Boom
                try:
                    self.display(o, 0)
                except Violation:
                    raise
                except Exception as e:
                    if is_boom:
                        if not isinstance(e, HookErr):
                            raise Violation("exception", "%s: got %r" % (self.step, e))
                    elif not isinstance(e, TypeError):
                        raise Violation("invalid", "%s: displaying %r raised %s, not TypeError" % (self.step, type(o), type(e).__name__))
                    self.M.ev("invalid_rejected")
                    self.compare(hook)
                    if st[2] and not isinstance(e, HookErr):
                        e.lv = st[2]
                        raise
                else:
                    raise Violation("invalid", "%s: displaying %s was accepted" % (self.step, type(o).__name__))
            elif k == "reenter":
                if not self.active:
                    continue
                t = self.tags[self.active[st[1] % len(self.active)]][0]
                try:
                    if st[3]:
                        t.__enter__()
                    else:
                        with t:
                            raise Violation("reenter", "%s: an active tag could be entered again" % self.step)
                except Violation:
                    raise
                except Exception as e:
                    self.M.ev("reentries_rejected")
                    self.compare(hook)
                    if st[2]:
                        e.lv = st[2]
                        raise
                else:
                    raise Violation("reenter", "%s: an active tag could be entered again" % self.step)
            elif k == "raise":
                e = EXCS[st[1]]("x")
                e.lv = st[2]
                raise e
            elif k == "tagop":
                self.tagop(st)
            elif k == "sethook":
                if not self.active:
                    continue
                hook = self.hooks[st[1]]
                sys.displayhook = hook
                cur = ("rec", st[1])
                self.M.ev("hooks_replaced_inside")
            elif k == "loop":
                self.block_caught(st[1], cur, depth)
                sys.displayhook = hook
            elif k == "with":
                self.guarded(st, cur, depth)
            self.step = "after %s" % json.dumps(st)[:300]
            self.compare(hook)
        if depth == 0 and hook is not hook0:
            sys.displayhook = hook0

    def block_caught(self, body, cur, depth):
        self.block(body, cur, depth + 1)

    def guarded(self, st, cur, depth):
        """Runs the with-statement and catches what is meant to be caught right outside it."""
        hook = sys.displayhook
        try:
            self.with_(st, cur, depth)
        except Violation:
            raise
        except BaseException as e:
            lv = getattr(e, "lv", None)
            if lv is None and not isinstance(e, HookErr):
                raise
            self.step = "after leaving (by %s) %s" % (type(e).__name__, json.dumps(st)[:200])
            self.compare(hook)
            if isinstance(e, HookErr):
                return
            if lv > 1:
                e.lv = lv - 1
                if depth > 0:
                    raise

    def with_(self, st, cur, depth):
        how, name, kids, body = st[1:]
        ht = self.ht
        want = [("s", "k%d" % j) for j in range(kids)]
        tag = ht.Tag(name, *[w for _, w in want])
        j = len(self.tags)
        self.tags.append((tag, want))
        before = sys.displayhook
        self.M.ev("blocks_exited")
        self.nblocks += 1
        me = ("tag", j)
        done = []
        leaving = []            # the exception the block is left by
        caught = None

        def inside():
            if sys.displayhook is before:
                raise Violation("hook", "entering the block did not install a hook")
            self.active.append(j)
            try:
                self.block(body, me, depth + 1)
            except BaseException as e:
                leaving.append(e)
                raise
            finally:
                self.active.pop()
                # from here on, only leaving the block itself
                done.append(self.deliver(cur, "o", tag))

        try:
            if how == "stack":
                with contextlib.ExitStack() as es:
                    es.enter_context(tag)
                    inside()
            elif how == "manual":
                tag.__enter__()
                try:
                    inside()
                except Violation:
                    raise
                except BaseException as e:
                    r = tag.__exit__(type(e), e, e.__traceback__)
                    if not r:
                        raise
                else:
                    tag.__exit__(None, None, None)
            elif how == "ret":
                def f():
                    with tag:
                        inside()
                        return 5
                f()
            elif how in ("break", "cont"):
                for _ in (1,):
                    with tag:
                        inside()
                        if how == "break":
                            break
                        continue
            elif how == "reenter_self":
                with tag:
                    hk = sys.displayhook
                    try:
                        tag.__enter__()
                    except Exception:
                        self.M.ev("reentries_rejected")
                    else:
                        raise Violation("reenter", "an active tag could be entered again")
                    if sys.displayhook is not hk:
                        raise Violation("hook", "the rejected re-entry changed the hook")
                    inside()
            else:
                with tag:
                    inside()
        except Violation:
            raise
        except BaseException as e:
            caught = e
        self.step = "after leaving %s" % json.dumps(st)[:200]
        if sys.displayhook is not before:
            raise Violation("hook", "%s%s: sys.displayhook is %r, it was %r at entry" % (
                self.step, " by " + repr(caught) if caught else "", sys.displayhook, before))
        self.compare(before)
        raises = done and done[-1]
        if raises:
            self.M.ev("delivery_raised")
            if not isinstance(caught, HookErr):
                raise Violation("exception", "%s: the exception of the enclosing hook was lost" % self.step)
            raise caught
        if leaving and caught is not leaving[0]:
            raise Violation("exception", "%s: left by %r, outside the block there is %r" % (self.step, leaving[0], caught))
        if caught is not None:
            self.M.ev("blocks_exited_by_exception")
            raise caught

    def tagop(self, st):
        if not self.tags:
            return
        j = st[1] % len(self.tags)
        t, want = self.tags[j]
        k = st[2]
        if k == "append":
            t.append("direct")
            want.append(("s", "direct"))
        elif k == "insert":
            t.insert(0, "first")
            want.insert(0, ("s", "first"))
        elif k == "reassign":
            t.children = self.ht.TagList("fresh")
            want[:] = [("s", "fresh")]
        elif k == "class":
            t.add_class("c")
        elif k == "attrs":
            t.attrs["id"] = "i"
        elif k == "tagify":
            spec.look(t, __import__("random").Random(4))
        elif k == "str":
            for x in range(6):
                spec.look(t, __import__("random").Random(x))
        elif k == "copy":
            import copy

            copy.copy(t).append("other")
        elif k == "pop" and want:
            t.children.pop()
            want.pop()


def check(case, M):
    old = sys.displayhook
    r = Run(case, M)
    sys.displayhook = r.hooks[0]
    try:
        r.block(case["body"], ("rec", 0), 0)
        if sys.displayhook is not r.hooks[0]:
            raise Violation("hook", "at the end sys.displayhook is %r" % (sys.displayhook,))
    except Violation:
        raise
    except BaseException as e:
        if not hasattr(e, "lv"):
            raise
        r.step = "at the end"
        # uncaught: everything has been left
        r.compare(r.hooks[0])
    finally:
        sys.displayhook = old
    if r.nblocks and len(json.dumps(case["body"])) > 40:
        M.distinct(case)
        M.sample({"program": case["body"][:2], "outer": len(r.logs[0])})
