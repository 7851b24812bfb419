"""The file-system seam: os functions seen by code under simulation.

Every call of a task is a scheduling point before and after; it can fail before or after it had its effect, or its
process can die there.  Effects happen for real, inside a scratch directory the run owns."""
import builtins
import errno
import io
import os
import time

from . import sched

MUTATING = ("mkdir", "rmdir", "unlink", "remove", "rename", "replace", "symlink", "link", "chmod", "chown", "truncate", "utime", "mkfifo")
READING = ("stat", "lstat", "access", "listdir", "scandir", "readlink", "open")
REMOVING = ("rmdir", "unlink", "remove", "rename", "replace", "truncate")
raw = {n: getattr(os, n) for n in MUTATING + READING}
raw_open = builtins.open


class FS:
    def __init__(self, world, root):
        self.w, self.root = world, os.path.realpath(root)
        self.deny = []             # (prefix, errno): calls that would change something below fail
        self.calls = 0

    def install(self):
        for n in raw:
            setattr(os, n, self.wrap(n))
        builtins.open = self.wrap_open(raw_open)
        io.open = builtins.open
        self.sleep = time.sleep
        time.sleep = self.fake_sleep

    def remove(self):
        for n, f in raw.items():
            setattr(os, n, f)
        builtins.open = io.open = raw_open
        time.sleep = self.sleep

    def fake_sleep(self, s):
        t = sched._cur_task()
        if t is None or t.fs is None:
            return self.sleep(s)
        t.sim.point(t, 1)

    def wrap(self, name):
        f = raw[name]
        mut = name in MUTATING

        def call(*a, **k):
            if mut:
                self.contain(name, a, k)
            t = sched._cur_task()
            if t is None or t.fs is None:
                return f(*a, **k)
            return self.event(t, name, mut, f, a, k)
        call.__name__ = name
        return call

    @staticmethod
    def where(p, k, key="dir_fd"):
        """The absolute path meant, also relative to a directory's descriptor."""
        d = os.getcwd() if k.get(key) is None else raw["readlink"]("/proc/self/fd/%d" % k[key])
        return os.path.normpath(os.path.join(d, os.fsdecode(p)))

    def contain(self, name, a, k):
        """Nothing outside the run's own directory is ever changed, whatever the code under test asks for."""
        ps = []
        if a and isinstance(a[0], (str, bytes, os.PathLike)):
            ps.append(self.where(a[0], k, "src_dir_fd" if "src_dir_fd" in k else "dir_fd"))
        if name in ("rename", "replace", "link") and len(a) > 1:
            ps.append(self.where(a[1], k, "dst_dir_fd"))
        for p in ps:
            if name == "mkdir" and lexists(p):
                continue             # refused anyway
            real = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if not (real == self.root or real.startswith(self.root + os.sep)):
                self.w.violation("outside", "%s(%s) outside the base directory" % (name, p))
                raise PermissionError(errno.EPERM, "outside the simulated file system", p)

    def wrap_open(self, f):
        def open(*a, **k):
            t = sched._cur_task()
            if t is None or t.fs is None or not isinstance(a[0] if a else k.get("file"), (str, bytes, os.PathLike)):
                return f(*a, **k)
            mode = a[1] if len(a) > 1 else k.get("mode", "r")
            return self.event(t, "open", any(c in mode for c in "wax+"), f, a, k)
        return open

    def event(self, t, name, mut, f, a, k):
        st = t.fs
        t.sim.point(t, 1)
        self.calls += 1
        n = st["n"] = st["n"] + 1
        ft = st.get("fault")
        err = None
        if ft:
            if ft.get("kill") == "before" and ft["k"] == n:
                self.w.die(t, "before", name)
            if "err" in ft and ft["k"] <= n < ft["k"] + ft.get("times", 1) and not ft.get("late"):
                err = ft["err"]
        if name == "open" and not mut and len(a) > 1 and isinstance(a[1], int):
            mut = bool(a[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        path = None
        if a and isinstance(a[0], (str, bytes, os.PathLike)):
            path = os.path.join(os.getcwd(), os.fsdecode(a[0])) if k.get("dir_fd") is None else self.where(a[0], k)
        if err is None and mut and path is not None:
            real = os.path.normpath(path)
            for pre, e in self.deny:
                if real == pre or real.startswith(pre + os.sep):
                    st["denied"] = True
                    raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)), path)
        if err is not None:
            st["fired"] = True
            self.w.bump("fault_fs_%s_%s" % (name, err))
            raise OSError(getattr(errno, err), os.strerror(getattr(errno, err)), path)
        hits = ()
        if mut:
            if name in REMOVING and path is not None:
                p = a[1] if name in ("rename", "replace") else a[0]
                p = self.where(p, k, "dst_dir_fd" if name in ("rename", "replace") else "dir_fd")
                src = os.path.normpath(path)
                hits = [q for q in {p, src} if lexists(q) and q not in st["made"]]
            existed = path is not None and lexists(path)
        r = f(*a, **k)
        if hits:
            self.w.violation("removed", "%s(%s) on something that was already there" % (name, hits[0]))
        if mut and path is not None and not existed:
            st["made"].add(os.path.normpath(path))
            if not st["create"]:
                self.w.violation("created", "%s(%s) by a request that must not create anything" % (name, path))
        if ft:
            if ft.get("kill") == "after" and ft["k"] == n:
                self.w.die(t, "after", name)
            if "err" in ft and ft.get("late") and ft["k"] == n:
                st["fired"] = True
                self.w.bump("fault_fs_late_%s_%s" % (name, ft["err"]))
                raise OSError(getattr(errno, ft["err"]), os.strerror(getattr(errno, ft["err"])), path)
        t.sim.point(t, 1)
        return r


def lexists(p):
    try:
        raw["lstat"](p)
        return True
    except (OSError, ValueError):
        return False


def isdir(p):
    import stat
    try:
        return stat.S_ISDIR(raw["stat"](p).st_mode)
    except (OSError, ValueError):
        return False


def snapshot(root):
    """{relative path: (type, inode, mode, content)}"""
    out = {}
    todo = [root]
    import stat
    while todo:
        d = todo.pop()
        for n in sorted(raw["listdir"](d)):
            p = os.path.join(d, n)
            s = raw["lstat"](p)
            k = stat.S_IFMT(s.st_mode)
            c = None
            if stat.S_ISDIR(s.st_mode):
                todo.append(p)
            elif stat.S_ISREG(s.st_mode):
                with raw_open(p, "rb") as f:
                    c = f.read()
            elif stat.S_ISLNK(s.st_mode):
                c = raw["readlink"](p)
            out[os.path.relpath(p, root)] = (k, s.st_ino, s.st_mode, c)
    return out
