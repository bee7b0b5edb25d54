"""File-system monitor: an audit hook that records what the code under test writes,
removes and creates, and refuses anything outside the run's scratch directory."""
from __future__ import annotations

import os
import sys
import tempfile

ON = False
EVENTS = []          # (event, absolute path)
ROOT = None
TMP = None
BLOCKED = []

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {"os.mkdir": (0, 2), "os.remove": (0, 1), "os.rmdir": (0, 1), "os.truncate": (0, None), "os.chmod": (0, 2),
       "os.chown": (0, 3), "os.utime": (0, 3), "os.mkfifo": (0, None), "os.setxattr": (0, None), "os.removexattr": (0, None)}
TWO = {"os.rename": (0, 1, 2, 3), "os.link": (0, 1, 2, 3), "os.symlink": (1, 1, 2, 2)}


def resolve(p, dir_fd):
    if isinstance(p, int):
        try:
            return os.readlink("/proc/self/fd/%d" % p)
        except OSError:
            return "<fd %d>" % p
    p = os.fsdecode(p)
    if not os.path.isabs(p) and isinstance(dir_fd, int) and dir_fd >= 0:
        try:
            p = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), p)
        except OSError:
            pass
    return os.path.abspath(p)


def hook(event, args):
    global ON
    if not ON:
        return
    ON = False
    try:
        paths = ()
        if event == "open":
            p, mode, flags = args
            if isinstance(flags, int) and flags & WRITE and p is not None:
                paths = (resolve(p, None),)
        elif event in ONE:
            a, d = ONE[event]
            paths = (resolve(args[a], args[d] if d is not None and len(args) > d else None),)
        elif event in TWO:
            a, b, c, d = TWO[event]
            paths = (resolve(args[a], args[c] if len(args) > c else None), resolve(args[b], args[d] if len(args) > d else None))
        elif event in ("subprocess.Popen", "os.system", "os.exec", "os.kill", "socket.bind", "os.posix_spawn"):
            EVENTS.append((event, ""))
            BLOCKED.append((event, repr(args)[:200]))
            raise PermissionError("refused by the monitor: %s" % event)
        for p in paths:
            if p.startswith("/dev/") and not p.startswith(ROOT + "/") or p.startswith(TMP):
                continue        # temporary directories of the code's own are its business
            EVENTS.append((event, p))
            if not (p == ROOT or p.startswith(ROOT + os.sep)):
                BLOCKED.append((event, p))
                raise PermissionError("refused by the monitor: %s %s" % (event, p))
    finally:
        ON = True


_installed = False


class watch:
    """with watch(root) as ev: ... ; ev is the list of events observed"""

    def __init__(self, root):
        self.root = root

    def __enter__(self):
        global _installed, ON, ROOT, TMP
        if not _installed:
            sys.addaudithook(hook)
            _installed = True
        ROOT = os.path.realpath(self.root)
        TMP = os.path.join(os.path.realpath(tempfile.gettempdir()), tempfile.gettempprefix())
        del EVENTS[:]
        del BLOCKED[:]
        ON = True
        return EVENTS

    def __exit__(self, *a):
        global ON
        ON = False


def tree(root):
    """path -> (kind, content, mtime) of everything below root."""
    out = {}
    if not os.path.lexists(root):
        return None
    todo = [root]
    while todo:
        d = todo.pop()
        st = os.lstat(d)
        out[os.path.relpath(d, root)] = ("dir", None, st.st_mtime_ns, st.st_ino)
        for e in os.scandir(d):
            p = e.path
            if e.is_symlink():
                out[os.path.relpath(p, root)] = ("link", os.readlink(p), 0, 0)
            elif e.is_dir():
                todo.append(p)
            else:
                st = e.stat()
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = ("file", f.read(), st.st_mtime_ns, st.st_ino)
    return out
