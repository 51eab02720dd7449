"""C01: the input project is never touched; writes stay inside the output location - also under faults."""
import os, sys, io, contextlib
from . import core, fs
from .core import Result

TORCH = "import torch\nv = torch.add(a, b)\n"
HELP = "import torch\nimport m\nv = a.max()\n'\u00e9 \u4e2d'\n"
EXT = "from setuptools import setup\nfrom torch.utils.cpp_extension import CUDAExtension, BuildExtension\nsetup(name='zext', ext_modules=[CUDAExtension('zext', ['a.cu'])], cmdclass={'build_ext': BuildExtension})\n"
EXTUSE = "import torch\nimport zext\nclass F(torch.autograd.Function):\n    @staticmethod\n    def forward(ctx, x):\n        return zext.fwd(x)\n"
PROJECTS = {
    "file": {"": TORCH},
    "file_help": {"": HELP},
    "file_bad": {"": "import torch\nx = = 1\n"},
    "file_bytes": {"": b"import torch\nx = '\xff\xfe'\n"},
    "file_data": {"": b"\x00\xff torch"},
    "one": {"a.py": TORCH},
    "mixed": {"a.py": TORCH, "sub/b.py": HELP, "sub/data.txt": b"torch \xff\r\n", "requirements.txt": "torch==1.0\nnumpy\n", ".hidden": "x", "__pycache__/x.pyc": b"\0",
              "sub/deep/c.py": "x = 1\n", "empty": None, ".git/config": "torch\n"},
    "bad_mid": {"a.py": HELP, "b.py": "import torch\nx = = 1\n", "c.py": TORCH, "z.txt": "x"},
    "bytes_mid": {"a.py": TORCH, "b.py": b"import torch\nx = '\xff'\n", "c.py": TORCH},
    "ext": {"setup.py": EXT, "ops.py": EXTUSE, "use.py": "import torch\nfrom ops import F\ny = F.apply(x)\n"},
    "local": {"torch.py": "x = 1\n", "a.py": TORCH, "datasets/__init__.py": "", "b.py": "import datasets\nimport torchvision\ndatasets.x\n"},
    "links": {"a.py": TORCH, "l.py": ("link", "a.py"), "dead": ("link", "nowhere"), "ldir": ("link", "../other")},
    "utils": {"paddle_utils.py": "x = 1\n", "a.py": HELP, "m.py": "from paddle_utils import x\n"},
    "empties": {"a.py": "", "requirements.txt": "", "sub/requirements.txt": "\n", "x.txt": "", "sub/w.py": "\n\n", "sub/__init__.py": "", "d/e/f": None},
    "nofmt": {"a.py": HELP + "type X = int\n", "b.py": '"""isort: skip_file"""\n' + TORCH, "c.py": "def f(x):\n    match x:\n        case 1 if torch.add(x, 1): return f'{x['a']}'\nimport torch\n", "d.txt": ""},
    "src": {"src/a.py": TORCH, "a.py": HELP, "src/src/b.txt": "torch", "out/k.py": TORCH},
}
SHAPES = ["absent", "exists", "stale", "file", "deep", "nested", "none", "same", "parent", "link", "infile", "slash", "rel", "dots", "case"]
OPTS = {
    "default": {}, "min": dict(mode="min"), "format": dict(no_format=False), "log": dict(log_dir="LOG"), "show": dict(show_all_api=True, show_unsupport_api=True, show_unalign_api=True),
    "speed": dict(calculate_speed=True, log_markdown=True), "complete": dict(only_complete=True), "exclude": dict(exclude="sub,b\\.py"), "cli": dict(cli=True),
}


class C01(core.Check):
    id = "C01"
    level = "model_checking"
    rule = ("exhaustive: projects x output-location shapes x options, each run without fault and then once per file-system operation the run makes (seen through interpreter audit events) with that "
            "operation failing (OSError), interrupted (KeyboardInterrupt) or killing the process, and once per write cut-off (RLIMIT_FSIZE at each size step, as error and as process death). "
            "Oracle: byte/mode/mtime snapshot of the input and of everything else in the scratch area, and the list of write operations anywhere")
    bounds = dict(projects=len(PROJECTS), shapes=len(SHAPES), options=len(OPTS), faults_per_run=1)
    assumptions = ["one fault per run", "the operating system reports every write through an audited Python call or stays inside the scratch area that is compared"]
    chunk = 4

    def cases(self, tier):
        for p in PROJECTS:
            for s in SHAPES:
                for o in OPTS:
                    core_ = o in ("default", "log") or (o == "cli" and s == "none") or p in ("mixed", "bad_mid")
                    if tier == "thorough" or o in ("default", "cli") or s in ("absent", "none"):
                        yield [p, s, o, bool(core_ or tier == "thorough")]

    # ---------------------------------------------------------------- one execution
    def prepare(self, p, s):
        d = core.fresh_dir()
        tree = PROJECTS[p]
        single = "" in tree
        base = os.path.join(d, "pp")
        os.makedirs(base)
        core.write_tree(os.path.join(d, "other"), {"o.py": TORCH, "o.txt": "x"})
        os.makedirs(os.path.join(d, "work"))
        if single:
            src = os.path.join(base, "prog.py" if p != "file_data" else "prog.bin")
            core.write_tree(base, {os.path.basename(src): tree[""], "m.py": "x = 1\n"})
        else:
            src = os.path.join(base, "src")
            core.write_tree(src, tree)
        core.write_tree(base, {"neighbour.py": TORCH})
        # every input file has its own mode and an old time stamp
        k = 0
        for q, dirs, files in os.walk(base):
            for x in sorted(files):
                x = os.path.join(q, x)
                if not os.path.islink(x):
                    os.chmod(x, (0o600, 0o755, 0o444, 0o640)[k % 4])
                    os.utime(x, (10 ** 9 + k, 10 ** 9 + k))
                    k += 1
        out = os.path.join(d, "out", "res.py") if single else os.path.join(d, "out")
        arg = None
        allow = None
        if s == "exists":
            out = os.path.join(d, "out")
            os.makedirs(out)
        elif s == "stale":
            out = os.path.join(d, "out")
            core.write_tree(out, {"a.py": "old = 1\n", "prog.py": "old = 2\n", "paddle_utils.py": "old = 3\n", "keep.txt": "k"})
        elif s == "file":
            out = os.path.join(d, "out")
            core.write_tree(d, {"out": "old"})
        elif s == "deep":
            out = os.path.join(d, "n1", "n2", os.path.basename(out))
        elif s == "nested":
            out = os.path.join(base, "res", "x.py") if single else os.path.join(src, "out")
        elif s == "none":
            arg, out = None, os.path.join(d, "work", "paddle_project")
        elif s == "same":
            out = src
        elif s == "parent":
            out = base
        elif s == "link":
            out = os.path.join(d, "lnk")
            os.symlink(src, out)
        elif s == "infile":
            out = os.path.join(src, "x.py") if single else os.path.join(src, sorted(k for k, v in tree.items() if v is not None and "/" not in k)[0] if any("/" not in k for k in tree) else "src")
        elif s == "slash":
            arg = out + "/" if not single else os.path.join(d, "out") + "/"
            out = os.path.join(d, "out")
        elif s == "rel":
            out = os.path.join(d, "work", "rr")
            arg = "rr"
        elif s == "dots":
            arg = os.path.join(d, "work", "..", "other", "..", "out")
            out = os.path.join(d, "out")
        elif s == "case":
            out = src + "2"
        if s != "none" and arg is None:
            arg = out
        return d, src, out, arg

    def execute(self, d, src, arg, o):
        opts = dict(OPTS[o])
        Converter = core.import_paconvert()
        ex = opts.pop("exclude", None)
        cli = opts.pop("cli", False)
        opts.setdefault("no_format", True)
        opts.setdefault("log_dir", "disable")
        if opts["log_dir"] == "LOG":
            opts["log_dir"] = os.path.join(d, "log.txt")
        cwd = os.getcwd()
        os.chdir(os.path.join(d, "work"))
        try:
            if cli:
                import paconvert.main as pm
                argv = sys.argv
                sys.argv = ["paconvert", "-i", src, "--no_format", "--log_level", "WARNING"] + (["-o", arg] if arg else [])
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        pm.main()
                finally:
                    sys.argv = argv
            else:
                Converter(**opts).run(src, arg, ex)
            return "ok"
        except core.CaseTimeout:
            raise
        except BaseException as e:
            return "raised " + type(e).__name__
        finally:
            os.chdir(cwd)

    def judge(self, d, src, out, s, o, before, ops, when):
        v = []
        after = fs.snapshot(d)
        inp = lambda p: p == src or p.startswith(src + "/")
        outp = lambda p: p == out or p.startswith(out + "/")
        overlap = s in ("same", "parent", "link", "infile")
        rep = [os.path.join(d, "log.txt")] if o == "log" else []
        rep_dir = os.path.join(d, "work")
        for p in sorted(set(before) | set(after)):
            a, b = before.get(p), after.get(p)
            if a == b:
                continue
            rel = os.path.relpath(p, d)
            if inp(p) and (overlap or not outp(p)):
                if a and b and a[0] == b[0] == "dir" and s == "nested":
                    continue                                   # the output directory is created inside it
                v.append(("input", "%s: %s of the input was %s" % (when, rel, "removed" if not b else "created" if not a else "changed")))
            elif not outp(p) and not (overlap and s == "parent"):
                if a and b and a[0] == b[0] == "dir":
                    continue
                if p in rep or (o == "show" and os.path.dirname(p) == rep_dir and p.endswith(".xlsx")):
                    continue
                if not a and b[0] == "dir" and out.startswith(p + "/"):
                    continue                                   # missing parents of the output location
                if s == "link" and p == out:
                    continue
                v.append(("outside", "%s: %s outside the output location was %s" % (when, rel, "removed" if not b else "created" if not a else "changed")))
        for ev, ps, w, inside in ops:
            if not w or inside:
                continue
            if any(x in ("/dev/null",) or x.startswith("/proc/") for x in ps):
                continue
            v.append(("elsewhere", "%s: %s on %s" % (when, ev, ps)))
        return v

    def run(self, case):
        p, s, o, deep = case
        v, n = [], 0
        obs = []

        def attempt(fail_at=None, kind="error", size=None, size_kill=False):
            nonlocal n
            n += 1
            d, src, out, arg = self.prepare(p, s)
            before = fs.snapshot(d)
            when = "no fault" if fail_at is None and size is None else "%s at operation %s" % (kind, fail_at) if size is None else "files limited to %d bytes%s" % (size, ", process killed" if size_kill else "")
            if kind == "kill" or size_kill:
                def child():
                    with fs.limit_size(size, kill=True):
                        with fs.control(d, fail_at, kind):
                            self.execute(d, src, arg, o)
                    return 0
                st = fs.in_child(child)
                ops, pts, r = [], [], "status %d" % st
            else:
                with fs.limit_size(size):
                    with fs.control(d, fail_at, kind) as c:
                        r = self.execute(d, src, arg, o)
                ops, pts = c.ops, c.points
            if fail_at is not None and ops:
                when += " (%s)" % (pts[fail_at][0] + " " + os.path.relpath(pts[fail_at][1][0], d) if fail_at < len(pts) else "?")
            got = self.judge(d, src, out, s, o, before, ops, when)
            sizes = [len(x[1]) for q, x in fs.snapshot(d).items() if x[0] == "file" and (q == out or q.startswith(out + "/"))]
            obs.append((r, len(got)))
            v.extend(got)
            return len(pts), max(sizes or [0])

        attempt()                                   # warm up lazily imported modules
        v.clear(); obs.clear()
        N, size = attempt()
        if deep:
            for k in range(N):
                attempt(k, "error")
                attempt(k, "interrupt")
                attempt(k, "kill")
            for z in sorted({0, 1, size // 4, size // 2, max(size - 1, 0)}):
                attempt(size=z)
                attempt(size=z, size_kill=True)
        seen = set()
        res = []
        for k, m in v:
            key = "%s|%s|%s|%s|%s" % (p, s, o, k, m.split(": ", 1)[1][:80])
            if key not in seen:
                seen.add(key)
                res.append((key, "project %s, output %s, options %s: %s" % (p, s, o, m)))
        return Result(res[:6], obs, n=n)


if __name__ == "__main__":
    sys.exit(core.main(C01()))
