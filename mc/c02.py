"""C02: the output is a complete mirror of the input project."""
import ast, os, re, sys, itertools
from . import core
from .core import Result

BLOB = bytes(range(256)) * 5
REQ = "numpy\ntorch==1.0\n# comment\ntorch\nscipy>=1.0 ; python_version < '3.9'\n\n  pandas\ntorch>=1.8,<2\n-r other.txt\n"
REQ_OUT = REQ.replace("torch", "paddlepaddle-gpu")
# name, content, kind (py: expected code | copy | req: expected text)
KINDS = [
    ("a.py", "import torch\nv = torch.add(a, b)\n", "import paddle\nv = paddle.add(a, b)\n"),
    ("plain.py", "import os\nx = 'torch.add'\n", "import os\nx = 'torch.add'\n"),
    ("empty.py", "", ""),
    ("helper.py", "import torch\nv = a.max()\n", None),
    ("with space.py", "import torch\nv = torch.abs(a)", "import paddle\nv = paddle.abs(a)\n"),
    ("\u00fcn\u00ef.py", "import torch\nv = torch.float32\nw = '\u4e2d'\n", "import paddle\nv = paddle.float32\nw = '\u4e2d'\n"),
    ("setup.py", "import torch\nv = torch.sin(a)\n", "import paddle\nv = paddle.sin(a)\n"),
    ("__init__.py", "from torch import nn\nnn.ReLU\n", "import paddle\npaddle.nn.ReLU\n"),
    ("mytorch.py", "x = 1\n", "x = 1\n"),
    ("paddle_utils.py", "x = 1\n", "x = 1\n"),
    ("data.txt", b"import torch\ntorch.add(a)\r\n\xff\xfe", "copy"),
    ("blob.bin", BLOB, "copy"),
    ("big.dat", BLOB * 300, "copy"),
    ("empty", b"", "copy"),
    ("x.PY", "import torch\n", "copy"),
    ("x.pyi", "import torch\n", "copy"),
    ("x.py.bak", "import torch\n", "copy"),
    ("pyfile", "import torch\n", "copy"),
    ("x.pyc", b"\0\1torch", "copy"),
    ("nb.ipynb", '{"torch": 1}', "copy"),
    ("README.md", "# torch\n\nuse torch\r\n", "copy"),
    ("config.yaml", "torch: 1\n", "copy"),
    ("requirements.txt", REQ, "req"),
    ("requirements.txt.in", REQ, "copy"),
    ("Makefile", "all:\n\ttorch\n", "copy"),
    (".hidden", "torch", "none"),
    (".hid.py", "import torch\n", "none"),
    ("z..py", "import torch\n", "import paddle\n"),
    ("py", "import torch\n", "copy"),
    ("link.py", ("link", "T"), "import paddle\nv = paddle.cos(a)\n"),
    ("dead.py", ("link", "nowhere"), "none"),
]
IX = {k[0]: i for i, k in enumerate(KINDS)}
CORE = [IX[x] for x in ("a.py", "plain.py", "helper.py", "data.txt", "requirements.txt", ".hidden", "paddle_utils.py", "blob.bin")]
LOCS = ["", "zsubdir", "zsubdir/ztwodir", ".zhid", "__pycache__", "zsubdir/__pycache__", "zsubdir/.zgit", "zname.py", "z dir.with.dot"]
EXCL = [None, "", "zsubdir", "a\\.py", "\\.txt$", "zsubdir,plain", "ztwodir", "znomatch", "zsubdir/ztwodir$", "ZSUBDIR", "zsubdir/a\\.py,blob,\\.md$", "helper|data", "__pycache__"]
# names programs like to treat specially
NAMES = """build dist out output paddle paddle_project paddle_utils torch tests test docs doc env venv lib cache pycache __pycache __pycache__x _pycache_ x__pycache__ node_modules data datasets log logs tmp temp
 bin src core utils third_party legacy examples eggs zx.egg-info CVS checkpoints __init__ __main__ conftest setup requirements requirements-dev my_requirements version CMakeLists x~ #x# x.swp x.orig a.b.c -x +x (x) [x] {x} %s $x x,y 'q "q x&y ~x @x !x ^x x;y x=1 *x ?x \\x 中文 é nul con AUX""".split()
SHAPES = ["absent", "exists", "stale", "deep", "nested", "nested2", "sibling"]


def kind(k):
    """an entry kind by number, or a special name with standard contents by its suffix"""
    if isinstance(k, int):
        return KINDS[k]
    if k.endswith(".py"):
        return k, "import torch\nv = torch.add(a, b)\n", "import paddle\nv = paddle.add(a, b)\n"
    if k.endswith("requirements.txt"):
        return k, REQ, "req"
    return k, b"torch\r\n\xff" + os.fsencode(k), "copy"


def hidden(rel):
    return any(x.startswith(".") or x == "__pycache__" for x in rel.split("/"))


def excluded(rel, ex):
    parts = rel.split("/")
    for i in range(1, len(parts) + 1):
        p = "/root/in/" + "/".join(parts[:i])
        if "__pycache__" in p:
            return True
        if ex and any(re.search(q, p) for q in ex.split(",")):
            return True
    return False


class C02(core.Check):
    id = "C02"
    rule = ("exhaustive: every entry kind at every place x exclude option x shape of the output location; all pairs of kinds x placements x excludes; all triples of core kinds; every kind in file mode. "
            "Oracle: a reference model of the documented mirror (relative paths, byte copies, rewritten requirements, excluded/hidden entries) against the real output tree")
    bounds = dict(kinds=len(KINDS), places=len(LOCS), excludes=len(EXCL), shapes=len(SHAPES), entries="1..3 (quick) / 4 (thorough)")
    assumptions = ["the link targets are files", "no_format (names and copies do not depend on formatting); formatting on for single entries"]

    def cases(self, tier):
        n = range(len(KINDS))
        for k in n:
            for l in LOCS:
                for e in EXCL:
                    for s in SHAPES if (e in (None, "zsubdir") or tier == "thorough") else SHAPES[:1]:
                        yield ["dir", [[k, l]], e, s, True]
            for s in ("absent", "exists", "stale", "deep", "over", "slash", "rel"):
                for e in (None, "znomatch", "\\.py$"):
                    yield ["file", k, e, s]
            yield ["dir", [[k, ""]], None, "absent", False]
        pl = [("", ""), ("", "zsubdir"), ("zsubdir", "zsubdir/ztwodir"), ("zsubdir/ztwodir", "z dir.with.dot")]
        for a, b in itertools.product(n, n):
            for x, y in pl:
                if a == b and x == y:
                    continue
                for e in (None, "zsubdir", "a\\.py,\\.txt$") if tier == "quick" else EXCL:
                    yield ["dir", [[a, x], [b, y]], e, "absent", True]
        for t in itertools.combinations(CORE, 3):
            for ls in itertools.product(LOCS[:3], repeat=3):
                for e in (None, "ztwodir,a\\.py"):
                    for s in ("absent", "nested"):
                        yield ["dir", [[k, l] for k, l in zip(t, ls)], e, s, True]
        for x in NAMES:
            for up in ("", "zsubdir/"):
                for e in (None, "zsubdir,zz") if not up else (None,):
                    yield ["dir", [[IX["a.py"], up + x], [IX["blob.bin"], up + x], [IX["requirements.txt"], up + x]], e, "absent", True]
                if x != "torch":                   # a local module of that name is not PyTorch
                    yield ["dir", [[x + t, up + "zd"] for t in (".py", ".txt", "", ".cu")], None, "absent", True]
        if tier == "thorough":
            for t in itertools.combinations(CORE, 4):
                for ls in itertools.product(LOCS[:3], repeat=4):
                    for s in SHAPES:
                        yield ["dir", [[k, l] for k, l in zip(t, ls)], None, s, True]

    def run(self, case):
        d = core.fresh_dir()
        Converter = core.import_paconvert()
        core.write_tree(d, {"T": "import torch\nv = torch.cos(a)\n"})
        if case[0] == "file":
            return self.file(d, Converter, case)
        _, entries, ex, shape, nf = case
        src = os.path.join(d, "in")
        os.makedirs(src)
        tree, want, helper = {}, {}, False
        for k, l in entries:
            name, content, kind_ = kind(k)
            rel = (l + "/" if l else "") + name
            if isinstance(content, tuple) and content[1] == "T":
                content = ("link", os.path.join(d, "T"))
            tree[rel] = content
        core.write_tree(src, tree)
        out = {"nested": os.path.join(src, "zout"), "nested2": os.path.join(src, "zsubdir", "zout"), "deep": os.path.join(d, "n1", "n2", "out"), "sibling": os.path.join(d, "in2")}.get(shape, os.path.join(d, "out"))
        stale = {}
        if shape == "exists":
            os.makedirs(out)
        elif shape == "stale":
            stale = {"old.txt": "old", "zsubdir/old.py": "import torch\n"}
            core.write_tree(out, dict(stale, **{"a.py": "old", "data.txt": "old much longer than the new contents " * 20}))
        try:
            Converter(log_dir="disable", no_format=nf).run(src, out, ex)
        except core.CaseTimeout:
            raise
        except BaseException as e:
            return Result([("%s|raised" % (case,), "conversion of %s raised %s" % (sorted(tree), core.short(e)))], "raised")
        got = core.read_tree(out)
        v = []
        dirs = set()
        # every directory of the input (incl. the place of the output itself when it is nested)
        for rel in tree:
            ps = rel.split("/")
            for i in range(1, len(ps)):
                q = "/".join(ps[:i])
                if not hidden(q) and not excluded(q, ex):
                    dirs.add(q)
        if shape == "nested2" and not excluded("zsubdir", ex):
            dirs.add("zsubdir")
        for k, l in entries:
            name, content, knd = kind(k)
            rel = (l + "/" if l else "") + name
            if knd == "none" or hidden(rel) or excluded(rel, ex):
                continue
            want[rel] = k
            if name == "helper.py":
                helper = True
        if shape == "stale":
            for q in list(stale) + ["a.py", "data.txt", "zsubdir"]:
                if q not in want and q not in dirs:
                    got.pop(q, None)
        for rel, k in sorted(want.items()):
            if rel not in got:
                v.append(("missing", "%s has no counterpart" % rel))
                continue
            self.content(v, rel, kind(k), got.pop(rel), nf)
        for q in sorted(dirs):
            if got.pop(q, "no") == "no" and any(r.startswith(q + "/") for r in want):
                v.append(("missing", "directory " + q))
        extra = sorted(got)
        util = [x for x in extra if re.fullmatch(r"_*paddle_utils\.py", x)]
        if helper and len(util) != 1:
            v.append(("helper", "helper files: %s" % util))
        extra = [x for x in extra if not (helper and x in util)]
        if extra:
            v.append(("extra", "unexpected in the output: %s" % extra))
        return Result([("%s|%s" % (case, k), "project %s, exclude %r, output %s: %s" % (sorted(tree), ex, shape, m)) for k, m in v], sorted((r, digest(x)) for r, x in core.read_tree(out).items()))

    def content(self, v, rel, kind, got, nf):
        name, content, what = kind
        if not isinstance(got, bytes):
            v.append(("kind", "%s is not a regular file" % rel))
        elif what == "copy":
            if got != (content if isinstance(content, bytes) else content.encode()):
                v.append(("copy", "%s is not a byte-identical copy" % rel))
        elif what == "req":
            if got.decode() != REQ_OUT:
                v.append(("requirements", "%s: %r" % (rel, got.decode())))
        else:
            try:
                text = got.decode("utf-8")
                tree = core.dump(text)
            except (SyntaxError, ValueError) as e:
                v.append(("python", "%s: %s" % (rel, core.short(e))))
                return
            if what is not None and tree != core.dump(what):
                v.append(("python", "%s: %r instead of %r" % (rel, text, what)))
            if what is None and ("torch" in text or "paddle" not in text):
                v.append(("python", "%s was not converted: %r" % (rel, text)))

    def file(self, d, Converter, case):
        _, k, ex, shape = case
        name, content, kind = KINDS[k]
        if kind == "none" and name == "dead.py":
            return Result(n=0, skip=True)
        src = os.path.join(d, "in", name)
        if isinstance(content, tuple):
            content = ("link", os.path.join(d, "T"))
        core.write_tree(os.path.join(d, "in"), {name: content})
        arg = out = os.path.join(d, "out", "res_" + name)
        if shape == "exists":
            arg = os.path.join(d, "out")
            os.makedirs(arg)
            out = os.path.join(arg, name)
        elif shape == "stale":
            arg = os.path.join(d, "out")
            core.write_tree(arg, {name: "old " * 100, "keep": "x"})
            out = os.path.join(arg, name)
        elif shape == "over":
            core.write_tree(os.path.join(d, "out"), {"res_" + name: "old " * 100})
        elif shape == "deep":
            arg = out = os.path.join(d, "n1", "n2", "o_" + name)
        elif shape == "slash":
            os.makedirs(os.path.join(d, "out"))
            arg, out = os.path.join(d, "out") + "/", os.path.join(d, "out", name)
        cwd = os.getcwd()
        try:
            if shape == "rel":
                os.makedirs(os.path.join(d, "out"))
                os.chdir(os.path.join(d, "out"))
                arg = "res_" + name
            try:
                Converter(log_dir="disable", no_format=True).run(src, arg, ex)
            except core.CaseTimeout:
                raise
            except BaseException as e:
                if excluded(name, ex):
                    return Result([], "excluded " + core.short(e))
                return Result([("%s|raised" % (case,), "converting the file %s raised %s" % (name, core.short(e)))], "raised")
        finally:
            os.chdir(cwd)
        v = []
        if excluded(name, ex):
            if shape not in ("stale", "over") and os.path.exists(out):
                v.append(("extra", "the excluded file %s was converted" % name))
        else:
            got = core.read_tree(out).get("")
            if kind == "none":
                kind_ = (name, content, "import paddle\n" if name.endswith(".py") else "copy")
            else:
                kind_ = KINDS[k]
            self.content(v, name, kind_, got, True)
            other = [x for x in core.read_tree(os.path.join(d, "out")) if os.path.join(d, "out", x) != out and x != "keep"]
            if other:
                v.append(("extra", "unexpected: %s" % other))
        return Result([("%s|%s" % (case, k), "file %s, output %s, exclude %r: %s" % (name, shape, ex, m)) for k, m in v], sorted((r, digest(x)) for r, x in core.read_tree(d).items()))


digest = core.digest
if __name__ == "__main__":
    sys.exit(core.main(C02()))
