"""Runner: deterministic sharded workloads, oracles, shrinking, evidence.

A property module defines `ID`, `TITLE`, `RULE`, `ASSUMPTIONS`,
`streams(tier) -> [Stream]` and `check(case, M)`.  `check` executes the real code
on one JSON-able case and raises Violation when the oracle rejects what it saw.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("RV_REPO", "/repo"))
NWORKERS = int(os.environ.get("RV_WORKERS", "8"))


class Violation(Exception):
    """The oracle rejected an observed execution."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind


class Skip(Exception):
    """The case lies outside what the property speaks about."""


class Hang(BaseException):
    pass


class Monitor:
    """Counts what the oracles actually observed."""

    def __init__(self):
        self.events = {}
        self.sigs = set()
        self.samples = []

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def distinct(self, *key):
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8)
        self.sigs.add(h.digest())

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(str(s)[:1500])


class Stream:
    def __init__(self, name, n, gen):
        self.name, self.n, self.gen = name, n, gen


# ----------------------------------------------------------------- concurrency
CONC = "__conc"


def conc_stream(mod, streams, n):
    """Cases of the other streams, several at a time, in threads switched as often as possible."""
    def gen(i, rng):
        same = rng.random() < 0.5
        st = rng.choice(streams)
        cases = []
        for _ in range(rng.choice([2, 3, 4])):
            s = st if same else rng.choice(streams)
            cases.append(s.gen(rng.randrange(s.n), rng))
        if rng.random() < 0.25:
            cases = [cases[0]] * len(cases)
        return {"t": CONC, "cases": cases}
    return Stream("concurrent", n, gen)


def all_streams(mod, tier):
    ss = mod.streams(tier)
    k = getattr(mod, "CONCURRENT", 0)
    if k:
        ss = ss + [conc_stream(mod, [s for s in ss if s.name not in getattr(mod, "PROCESS_WIDE", ())], k if tier == "quick" else 12 * k)]
    return ss


def check_conc(mod, case, M):
    import threading

    cases = case["cases"]
    Ms = [Monitor() for _ in cases]
    errs = [None] * len(cases)
    gate = threading.Barrier(len(cases))

    def run(j):
        try:
            gate.wait(30)
            mod.check(cases[j], Ms[j])
        except BaseException as e:
            errs[j] = e

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(j,), daemon=True) for j in range(len(cases))]
        for t in ts:
            t.start()
        for t in ts:
            while t.is_alive():
                t.join(0.2)
    finally:
        sys.setswitchinterval(old)
    for m in Ms:
        for k, v in m.events.items():
            M.ev(k, v)
        M.sigs |= m.sigs
    M.ev("concurrent_batches")
    M.ev("concurrent_checks", len(cases))
    bad = [e for e in errs if e is not None and not isinstance(e, Skip)]
    if bad:
        # a violation tells more than what may have followed from it
        bad.sort(key=lambda e: not isinstance(e, Violation))
        raise bad[0]


def case_rng(seed, pid, stream, i):
    return random.Random("%s|%s|%s|%s" % (seed, pid, stream, i))


def schedule(streams, w, nw):
    """Round-robin, proportional: every stream advances at the same relative rate."""
    items = []
    for si, s in enumerate(streams):
        for i in range(s.n):
            items.append(((i + 0.5) / s.n, si, i))
    items.sort()
    return [(si, i) for k, (_, si, i) in enumerate(items) if k % nw == w]


def in_repo(tb):
    """Did the exception come out of the code under test?"""
    pref = os.path.join(REPO, "htmltools") + os.sep
    for fs in traceback.extract_tb(tb):
        if os.path.abspath(fs.filename).startswith(pref):
            return True
    return False


def _on_alarm(signum, frame):
    raise Hang()


CASE_CPU_LIMIT = 90.0


BUSY = [0]      # how often this case used the library inside the library


READ_ERRORS = (LookupError, AttributeError, TypeError, ValueError, AssertionError, StopIteration)


def run_check(mod, case, M):
    """Returns None, or (kind, message) for a violation.  Other errors propagate."""
    BUSY[0] = 0
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CPU_LIMIT", CASE_CPU_LIMIT))
    try:
        if case.get("t") == CONC:
            check_conc(mod, case, M)
        else:
            mod.check(case, M)
    except Violation as e:
        return (e.kind, str(e))
    except Skip:
        M.ev("cases_skipped")
    except Hang:
        return ("hang", "operation did not terminate within %ss of CPU time" % CASE_CPU_LIMIT)
    except Exception as e:
        if in_repo(e.__traceback__):
            tail = "".join(traceback.format_exception(e)[-6:])
            return ("exception", "unexpected %s: %s\n%s" % (type(e).__name__, e, tail))
        if isinstance(e, READ_ERRORS) and not isinstance(e, RecursionError):
            # the monitor could not read what it was given: a value of the promised
            # kind (a list with that many entries, an object with that attribute, text
            # that parses) was not there.  Everything else (OSError, MemoryError ...)
            # is trouble of the check itself and stays an error.
            tail = "".join(traceback.format_exception(e)[-6:])
            return ("unreadable", "the observed result could not be read, %s: %s\n%s" % (type(e).__name__, e, tail))
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


# ----------------------------------------------------------------- shrinking
def _paths(x, p=()):
    yield p, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from _paths(v, p + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, p + (i,))


def _set(x, p, v):
    x = json.loads(json.dumps(x))
    if not p:
        return v
    y = x
    for k in p[:-1]:
        y = y[k]
    y[p[-1]] = v
    return x


LIST_KEYS = {"c", "ops", "a", "r", "nodes", "vals", "deps", "script", "css", "meta", "items"}
STR_KEYS = {"s"}


def candidates(case):
    for p, v in _paths(case):
        key = next((k for k in reversed(p) if isinstance(k, str)), None)
        if isinstance(v, list) and p and p[-1] in LIST_KEYS and v:
            n = len(v)
            if n > 3:
                yield _set(case, p, v[: n // 2])
                yield _set(case, p, v[n // 2:])
            for i in range(min(n, 24)):
                yield _set(case, p, v[:i] + v[i + 1:])
        elif isinstance(v, str) and key in STR_KEYS and v:
            n = len(v)
            if n > 2:
                yield _set(case, p, v[: n // 2])
                yield _set(case, p, v[n // 2:])
            for i in range(min(n, 12)):
                yield _set(case, p, v[:i] + v[i + 1:])
        elif isinstance(v, int) and not isinstance(v, bool) and key in ("h", "indent") and v:
            yield _set(case, p, 0)
        elif isinstance(v, dict) and "k" in v and isinstance(v.get("c"), list):
            for ch in v["c"][:8]:
                if isinstance(ch, dict) and "k" in ch and p:
                    yield _set(case, p, ch)


def shrink(mod, case, kind, secs=15.0):
    if kind == "unreadable" or case.get("t") == CONC:  # a cut-down case may be unreadable for reasons of its own
        return case, None, 0
    end = time.time() + secs
    best = case
    msg = None
    progress = True
    tried = 0
    while progress and time.time() < end:
        progress = False
        for c in candidates(best):
            if time.time() > end:
                break
            tried += 1
            try:
                r = run_check(mod, c, Monitor())
            except Exception:
                continue
            if r and r[0] == kind:
                best, msg, progress = c, r[1], True
                break
    return best, msg, tried


# ----------------------------------------------------------------- coverage
class LineCov:
    """Which lines of the code under test the workload executed (sys.monitoring)."""

    def __init__(self):
        self.lines = set()
        self.on = False
        self.pref = os.path.join(REPO, "htmltools") + os.sep

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "rv")
        except ValueError:
            return

        def line(code, no):
            f = code.co_filename
            if f.startswith(self.pref):
                self.lines.add((f[len(self.pref):], no))
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True


def executable_lines():
    out = {}
    d = os.path.join(REPO, "htmltools")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        try:
            code = compile(open(os.path.join(d, f), encoding="utf-8").read(), f, "exec")
        except Exception:
            continue
        todo, s = [code], set()
        while todo:
            c = todo.pop()
            if c is not code:
                ls = sorted({l for _, _, l in c.co_lines() if l})
                s.update(l for l in ls if l != c.co_firstlineno)
            todo += [k for k in c.co_consts if hasattr(k, "co_code")]
        out[f] = s
    return out


# ----------------------------------------------------------------- containment
SCRATCH = None      # a directory this run created; workers may write only there
UNPRIV = False


def make_scratch():
    """A run directory, with a part the unprivileged workers may write to."""
    global SCRATCH
    import tempfile

    base = None
    try:
        # in memory: the file-system checks are several times faster
        v = os.statvfs("/dev/shm")
        if v.f_bavail * v.f_frsize > 6 << 30 and os.access("/dev/shm", os.W_OK | os.X_OK):
            base = "/dev/shm"
    except OSError:
        pass
    tmp = tempfile.mkdtemp(prefix="rv-run-", dir=base)
    os.chmod(tmp, 0o711)
    SCRATCH = os.path.join(tmp, "scratch")
    os.mkdir(SCRATCH)
    os.chmod(SCRATCH, 0o777)
    return tmp


def drop_privileges():
    """The code under test can write and delete files: run it as nobody."""
    global UNPRIV
    os.umask(0o022)
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            return
    UNPRIV = os.getuid() != 0
    os.environ["HOME"] = SCRATCH or "/"
    os.environ["TMPDIR"] = SCRATCH or "/tmp"
    import tempfile

    tempfile.tempdir = SCRATCH
    if SCRATCH:
        os.chdir(SCRATCH)


# ----------------------------------------------------------------- workers
def worker(mod, tier, seed, w, nw, deadline, outpath, upto=None):
    if not getattr(mod, "KEEP_ROOT", False):
        drop_privileges()
    M = Monitor()
    res = {"done": 0, "planned": 0, "viol": None, "err": None}
    cov = LineCov()
    if upto is None:
        cov.start()
    streams = all_streams(mod, tier)
    sch = schedule(streams, w, nw)
    res["planned"] = len(sch)
    per = {}
    last = None
    try:
        if hasattr(mod, "worker_init"):
            mod.worker_init(w)
        for k, (si, i) in enumerate(sch):
            if time.time() > deadline:
                res["truncated"] = True
                break
            st = streams[si]
            case = st.gen(i, case_rng(seed, mod.ID, st.name, i))
            case = json.loads(json.dumps(case))
            last = (st.name, i, case)
            r = run_check(mod, case, M)
            per[st.name] = per.get(st.name, 0) + 1
            res["done"] += 1
            if r:
                res["viol"] = {"stream": st.name, "index": i, "case": case,
                               "kind": r[0], "msg": r[1], "k": k}
                break
            if upto is not None and k >= upto:
                break
    except Exception as e:
        res["err"] = "".join(traceback.format_exception(e)) + "\nlast case: %r" % (last,)
    finally:
        if hasattr(mod, "worker_exit"):
            mod.worker_exit()
    res["streams"] = per
    res["events"] = M.events
    res["sigs"] = [s.hex() for s in M.sigs]
    res["samples"] = M.samples
    res["cov"] = sorted(cov.lines)
    with open(outpath + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(outpath + ".tmp", outpath)


def spawn(fn, outpath):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fn()
        except BaseException:
            traceback.print_exc()
            code = 9
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    return pid


def wait_all(pids, hard):
    """Waits for the children; kills those still there at `hard`.  True if all ended."""
    left = set(pids)
    ok = True
    while left:
        for p in list(left):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                left.discard(p)
        if left and time.time() > hard:
            for p in left:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            return False
        if left:
            time.sleep(0.02)
    return ok


def in_child(fn, tmp, secs, drop=True):
    """Runs fn() -> JSON in a forked child (pristine module state)."""
    out = os.path.join(tmp, "child-%d.json" % random.SystemRandom().randrange(1 << 60))

    def go():
        if drop:
            drop_privileges()
        r = fn()
        with open(out, "w") as f:
            json.dump(r, f)

    pid = spawn(go, out)
    wait_all([pid], time.time() + secs)
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        return r
    return None
