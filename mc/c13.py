"""C13: the output does not depend on the environment."""
import ast, hashlib, itertools, json, os, subprocess, sys
from . import core
from .core import Result
from .projects import TREES

OPTS = {"fmt": dict(), "nofmt": dict(no_format=True), "min": dict(mode="min", no_format=True)}
SEEDS = {"quick": 8, "thorough": 48}
CLUTTER = {"helper.py": "x = 1\n", "torch.py": "x = 1\n", "paddle.py": "", "numpy.py": "", "datasets.py": "", "my_ext.py": "", "os.py": "", "datasets/x": "", "paddle_utils.py": "raise Exception\n",
           "src/helper.py": "", ".isort.cfg": "[settings]\nforce_single_line=1\nlength_sort=1\n", "setup.cfg": "[isort]\nforce_single_line=1\n[flake8]\nmax-line-length=20\n",
           "pyproject.toml": "[tool.black]\nline-length = 20\nskip-string-normalization = true\n[tool.isort]\nforce_single_line = true\n", ".editorconfig": "root=true\n[*.py]\nindent_size=2\nmax_line_length=30\n"}
LOCATIONS = ["proj", "torc", "torch", "paddle", "a b", "\u00fc\u4e2d", "it's", 'q"q', "d.o.t", "-x", "torchvision/nn", "transformers", "x.py", "$HOME", "a%sb", "{x}", "back\\n", "b,c", "deep/" * 30 + "p", "paddle_utils", "n" * 200]
LOGS = [dict(log_dir=None), dict(log_dir="F"), dict(log_dir="disable"), dict(log_dir="F", log_level="DEBUG"), dict(log_dir=None, log_level="WARNING"), dict(log_dir="F", log_markdown=True),
        dict(log_dir=None, log_markdown=True, log_level="DEBUG"), dict(log_dir="F", calculate_speed=True)]
LOCALES = [dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"), dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="ascii"), dict(LC_ALL="POSIX", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", TZ="Asia/Tokyo"),
           dict(LANG="zh_CN.GBK"), dict(LC_ALL="C.UTF-8", PYTHONUTF8="1"), dict(COLUMNS="20", TERM="dumb", NO_COLOR="1"), dict(PYTHONOPTIMIZE="1"), dict(PYTHONDEVMODE="1")]
CWDS = ["empty", "clutter", "in", "in/sub", "out", "parent", "root", "home"]


def norm(tree, out):
    """text with the output path taken out"""
    r = {}
    for k, v in tree.items():
        if isinstance(v, bytes):
            for form in (repr(out)[1:-1], out, out.replace("\\", "\\\\").replace('"', '\\"')):
                v = v.replace(form.encode(), b"@OUT@")
        r[k] = v
    return r


def by_tree(tree, out):
    """syntax trees instead of text: the length of the output path moves line breaks"""
    r = {}
    for k, v in tree.items():
        if isinstance(v, bytes) and k.endswith(".py"):
            text = v.decode("utf-8")
            try:
                t = ast.parse(core.strip_marks(text))
            except SyntaxError:
                r[k] = norm({k: v}, out)[k]
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and n.value == out:
                    n.value = "@OUT@"
            r[k] = (core.dump(t), len(core.marked_lines(text)))
        else:
            r[k] = v
    return r


_ref = {}


class C13(core.Check):
    id = "C13"
    rule = ("exhaustive: every project of mc/projects.py x {formatted, unformatted, min} x (a) every permutation of the entries of every directory, as seen through os.listdir/os.scandir; (b) every hash seed 0..N-1, each in its own process; "
            "(c) every current directory (empty, full of clutter that looks like modules and formatter settings, the input, the output, relative paths) in its own process; (d) every location of input and output; (e) every log target and level; (f) locales and interpreter flags. "
            "Oracle: files and counts equal those of the reference environment, byte for byte (syntax tree for locations of another length, where the output path changes line breaks)")
    bounds = dict(projects=len(TREES), seeds=SEEDS, cwds=len(CWDS), locations=len(LOCATIONS), logs=len(LOGS), locales=len(LOCALES), permutations="all, up to 5 entries per directory")
    assumptions = ["the output path itself may appear in the generated sys.path line"]
    chunk = 6

    def cases(self, tier):
        for s in range(SEEDS[tier]):
            yield ["seed", s]
        for c in CWDS:
            for rel in (False, True):
                yield ["cwd", c, rel]
        for l in range(len(LOCALES)):
            yield ["locale", l]
        for l in range(len(LOGS)):
            yield ["log", l]
        for p in TREES:
            for o in OPTS:
                for l in range(len(LOCATIONS)):
                    yield ["loc", p, o, l, "both"]
                    if tier == "thorough" or o == "nofmt":
                        yield ["loc", p, o, l, "in"]
                        yield ["loc", p, o, l, "out"]
                dirs = self.dirs(TREES[p])
                perms = [list(itertools.permutations(range(len(es)))) for d, es in dirs]
                if tier == "quick" and o == "fmt":
                    continue
                for c in itertools.product(*perms):
                    yield ["order", p, o, c]

    def dirs(self, tree):
        d = {}
        for f in tree:
            parts = f.split("/")
            for i in range(len(parts)):
                d.setdefault("/".join(parts[:i]), set()).add(parts[i])
        return [(k, sorted(v)) for k, v in sorted(d.items())]

    # -- reference: one process, plain environment
    def reference(self):
        if not _ref:
            for k, v in self.child({}, None, OPTS).items():
                _ref[k] = v
        return _ref

    def setup(self):
        core.scratch_root()
        self.reference()

    def child(self, env, cwd, opts, rel=False, log=None, files=True):
        root = core.fresh_dir()
        jobs, keys = [], []
        home = os.path.join(root, "home")
        core.write_tree(home, {".isort.cfg": CLUTTER[".isort.cfg"], ".config/black": CLUTTER["pyproject.toml"]} if cwd == "home" else {"x": ""})
        for p, tree in TREES.items():
            for o, kw in opts.items():
                d = os.path.join(root, p + "_" + o)
                core.write_tree(d + "/in", tree)
                os.makedirs(d + "/out", exist_ok=True)
                kw = dict(kw)
                kw.update(log or dict(log_dir="disable"))
                if kw["log_dir"] == "F":
                    kw["log_dir"] = os.path.join(root, "log_%s_%s" % (p, o))
                todo = [("dir", d + "/in", d + "/out")] + [("file:" + f, os.path.join(d, "in", f), os.path.join(d, "fout", f.replace("/", "_"))) for f in tree if f.endswith(".py")]
                for kind, i, ou in todo:
                    jobs.append(dict(opts=kw))
                    jobs[-1]["in"], jobs[-1]["out"] = i, ou
                    keys.append((p, o, kind, ou))
        wd = {None: root, "empty": root + "/e", "clutter": root + "/c", "in": root + "/allpkg_fmt/in", "in/sub": root + "/helpers_fmt/in/sub", "out": root + "/allpkg_fmt/out", "parent": root, "root": "/", "home": home}[cwd]
        core.write_tree(root + "/e", {})
        core.write_tree(root + "/c", CLUTTER)
        for p in {os.path.dirname(j["out"]) for j in jobs}:
            os.makedirs(p, exist_ok=True)
        if rel:
            for j in jobs:
                j["in"], j["out"] = os.path.relpath(j["in"], wd), os.path.relpath(j["out"], wd)
        e = {"PATH": os.environ.get("PATH", ""), "HOME": home, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
        e.update(env)
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "envrun.py")], input=json.dumps(dict(repo=core.REPO, jobs=jobs)).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=wd, env=e)
        try:
            res = json.loads(r.stdout)
        except ValueError:
            return {("child", "", "", ""): ("the process failed", r.stderr.decode("utf-8", "replace")[-1500:])}
        out = {}
        for (p, o, kind, ou), c in zip(keys, res):
            if c[0] == "error":
                out[(p, o, kind)] = (c, {})
            else:
                out[(p, o, kind)] = (c, norm(core.read_tree(ou), ou))
        return out

    def compare(self, got, label, ref=None):
        ref = ref or self.reference()
        v = []
        for k in ref:
            if got.get(k) != ref[k]:
                v.append(("%s|%s" % (label.split(" ")[0], "|".join(k)), "%s: result of %s differs from the reference environment:\n%s" % (label, k, self.diff(ref[k], got.get(k)))))
        for k in got:
            if k not in ref:
                v.append((label.split(" ")[0] + "|child", "%s: %s" % (label, got[k])))
        return v[:3]

    def diff(self, a, b):
        if b is None or a[0] != b[0]:
            return "%s / %s" % (a[0], b and b[0])
        for f in sorted(set(a[1]) | set(b[1])):
            x, y = a[1].get(f, "missing"), b[1].get(f, "missing")
            if x != y:
                if isinstance(x, bytes) and isinstance(y, bytes):
                    import difflib
                    return f + "\n" + "\n".join(list(difflib.unified_diff(x.decode("utf-8", "replace").split("\n"), y.decode("utf-8", "replace").split("\n"), lineterm=""))[:30])
                return "%s: %.600r / %.600r" % (f, x, y)

    def run(self, case):
        kind = case[0]
        if kind in ("seed", "cwd", "locale", "log"):
            if kind == "seed":
                got = self.child({"PYTHONHASHSEED": str(case[1])}, None, OPTS)
            elif kind == "cwd":
                got = self.child({}, case[1], OPTS, case[2])
            elif kind == "locale":
                got = self.child(LOCALES[case[1]], None, OPTS)
            else:
                got = self.child({}, None, OPTS, log=LOGS[case[1]])
            return Result(self.compare(got, "%s %s" % (kind, case[1:])), sorted((k, core.digest(v)) for k, v in got.items()), len(got))
        Converter = core.import_paconvert()
        root = core.fresh_dir()
        p, o = case[1], case[2]
        ref = self.reference()[(p, o, "dir")]
        kw = dict(OPTS[o], log_dir="disable")
        v = []
        if kind == "order":
            dirs = self.dirs(TREES[p])
            core.write_tree(root + "/in", TREES[p])
            order = {os.path.normpath(os.path.join(root, "in", d)): [es[i] for i in perm] for (d, es), perm in zip(dirs, case[3])}
            with listing(order):
                c = Converter(**kw)
                s, f = c.run(root + "/in", root + "/out")
            got = ([s, f, c.torch_api_count], norm(core.read_tree(root + "/out"), root + "/out"))
            if got != ref:
                v.append(("order|%s|%s" % (p, o), "directory order %s: %s" % (order, self.diff(ref, got))))
        else:
            loc = LOCATIONS[case[3]]
            i = os.path.join(root, "i", loc if case[4] in ("both", "in") else "x", "in")
            ou = os.path.join(root, "o", loc if case[4] in ("both", "out") else "x", "out")
            core.write_tree(i, TREES[p])
            c = Converter(**kw)
            try:
                s, f = c.run(i, ou)
            except Exception as e:
                return Result([("loc|%s|%s|%s" % (loc, case[4], "exception"), "location %r (%s), project %s: %s" % (loc, case[4], p, core.short(e)))], "exc")
            got = ([s, f, c.torch_api_count], by_tree(core.read_tree(ou), ou))
            key = (p, o, "tree")
            if key not in _treeref:
                core.write_tree(root + "/r/in", TREES[p])
                c = Converter(**kw)
                s, f = c.run(root + "/r/in", root + "/r/out")
                _treeref[key] = ([s, f, c.torch_api_count], by_tree(core.read_tree(root + "/r/out"), root + "/r/out"))
                if (_treeref[key][0], norm(core.read_tree(root + "/r/out"), root + "/r/out")) != ref:
                    v.append(("process|%s|%s" % (p, o), "the result in this process differs from the reference process: %s" % self.diff(ref, (_treeref[key][0], norm(core.read_tree(root + "/r/out"), root + "/r/out")))))
            if got != _treeref[key]:
                v.append(("loc|%s|%s|%s|%s" % (loc, case[4], p, o), "location %r (%s), project %s: %s" % (loc, case[4], p, self.diff(_treeref[key], got))))
        return Result(v, (case[:3], got[0]), 1)


_treeref = {}


class listing:
    """os.listdir and os.scandir report the entries of the given directories in the given order"""

    def __init__(self, order):
        self.order = order

    def arrange(self, path, names, key=lambda x: x):
        want = self.order.get(os.path.normpath(os.path.abspath(os.fspath(path)))) if not isinstance(path, int) else None
        if want is None:
            return names
        return sorted(names, key=lambda x: want.index(key(x)) if key(x) in want else len(want))

    def __enter__(self):
        self.l, self.s = os.listdir, os.scandir
        me = self

        def listdir(path="."):
            return me.arrange(path, me.l(path))

        class scandir:
            def __init__(self, path="."):
                with me.s(path) as it:
                    self.it = iter(me.arrange(path, list(it), lambda e: e.name))

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass
        os.listdir, os.scandir = listdir, scandir

    def __exit__(self, *a):
        os.listdir, os.scandir = self.l, self.s


if __name__ == "__main__":
    sys.exit(core.main(C13()))
