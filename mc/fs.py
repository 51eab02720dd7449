"""A controlled file system: every file-system operation of the code under test is seen through the interpreter's
audit events (independent of how the code calls them), can be made to fail, or can be made the point where the
process dies; RLIMIT_FSIZE cuts any write at any byte."""
import os, sys, signal, resource, stat
from . import core

EVENTS = ("open", "os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.listdir", "os.scandir", "os.truncate", "os.symlink", "os.link",
          "os.chmod", "os.chown", "os.utime", "shutil.copyfile", "shutil.move", "shutil.rmtree", "shutil.copytree", "os.posix_spawn", "os.system", "subprocess.Popen")
WRITES = ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.truncate", "os.symlink", "os.link", "os.chmod", "os.chown", "os.utime")


class Ctl:
    on = False
    ops = []            # (event, path, writes?)
    fail_at = None      # index of the operation that fails
    kind = "error"      # error: OSError from that operation; kill: the process ends there
    root = None         # only operations below root count as fault points


def _paths(event, args):
    if event == "open":
        p, mode, flags = args
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) != 0)
        return [p], bool(w)
    if event in ("os.rename", "os.link", "os.symlink"):
        return list(args[:2]), True
    return list(args[:1]), event in WRITES


def _hook(event, args):
    if not Ctl.on or event not in EVENTS:
        return
    ps, w = _paths(event, args)
    out = []
    for p in ps:
        if isinstance(p, int):
            return
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        try:
            p = os.fspath(p)
        except TypeError:
            continue
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        out.append(os.path.normpath(os.path.join(os.getcwd(), p)))
    if not out:
        return
    inside = any(x == Ctl.root or x.startswith(Ctl.root + "/") for x in out)
    if not inside and not w:
        return
    i = len([o for o in Ctl.ops if o[3]])
    Ctl.ops.append((event, out, w, inside))
    if inside and Ctl.fail_at is not None and i == Ctl.fail_at:
        Ctl.fail_at = None
        if Ctl.kind == "kill":
            os._exit(77)
        if Ctl.kind == "interrupt":
            raise KeyboardInterrupt()
        raise OSError(5, "injected failure", out[0])


_installed = False


def install():
    global _installed
    if not _installed:
        _installed = True
        sys.addaudithook(_hook)


class limit_size:
    """no file can grow beyond n bytes: writing fails (or, kill=True, the process dies) exactly there"""

    def __init__(self, n, kill=False):
        self.n, self.kill = n, kill

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.sig = signal.signal(signal.SIGXFSZ, signal.SIG_DFL if self.kill else signal.SIG_IGN)
        if self.n is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.sig)


class control:
    def __init__(self, root, fail_at=None, kind="error"):
        self.root, self.fail_at, self.kind = root, fail_at, kind

    def __enter__(self):
        install()
        Ctl.ops = []
        Ctl.root = os.path.normpath(self.root)
        Ctl.fail_at, Ctl.kind = self.fail_at, self.kind
        Ctl.on = True
        return self

    def __exit__(self, *a):
        Ctl.on = False
        self.ops = Ctl.ops
        self.points = [o for o in Ctl.ops if o[3]]


def in_child(fn, *a):
    """run fn in a forked child that may die; exit status (77: died at the chosen operation)"""
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            rc = fn(*a) or 0
        except BaseException:
            rc = 3
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    return st


def snapshot(root, times=True):
    """{path: (kind, content, mode, mtime)} of everything below root"""
    r = {}
    if not os.path.lexists(root):
        return r
    todo = [root]
    while todo:
        p = todo.pop()
        try:
            s = os.lstat(p)
        except OSError:                    # deeper than a path can be
            r[p] = ("unreadable", "", 0, 0)
            continue
        t = (s.st_mtime_ns, s.st_mode) if times else (0, 0)
        if stat.S_ISLNK(s.st_mode):
            r[p] = ("link", os.readlink(p)) + t
        elif stat.S_ISDIR(s.st_mode):
            r[p] = ("dir", "") + t
            try:
                todo += [os.path.join(p, n) for n in os.listdir(p)]
            except OSError:
                pass
        else:
            with open(p, "rb") as f:
                r[p] = ("file", f.read()) + t
    return r
