"""C18: every name generated code uses is bound before it is used."""
import ast, itertools, os, sys
from . import core, gram, univ, bound, spec
from .core import Result
from .gram import CONTEXTS, CTX, fill

# one use per piece of helper code, generated import and temporary
HELP = ["a.max()", "a.min()", "a.split(1)", "torch.float_power(a, b)", "torch.symeig(a)", "torch._foreach_abs(a)", "torch.can_cast(a, b)", "torch.nn.GRUCell(1, 2)",
        "torch.nn.LSTMCell(1, 2)", "torch.nn.LogSoftmax()", "torch.nn.Softmin()", "torch.set_num_threads(a)", "torch.cpu.set_device(a)", "torch.backends.cudnn.enabled",
        "torch.get_num_threads()", "torch.slogdet(a)", "torch.svd(a)", "a.eq_(b)", "torch.Tensor", "torch.abs(a)", "torch.zzz_unknown(a)", "foo(a)", "torch.nn.functional.softmin(a)"]


def uses(name, tree):
    return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(tree))


def words(tree):
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            r.add(n.attr)
        elif isinstance(n, ast.Name):
            r.add(n.id)
    return r


def made_attrs(tree):
    """attribute names a module sets on some object, by setattr or assignment"""
    r = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            r.add(n.args[1].value)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            r.add(n.attr)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            r.add(n.name)
        elif isinstance(n, ast.Call):
            r |= {k.arg for k in n.keywords}
    return r


def duplicates(tree):
    """functions and classes with two different definitions"""
    seen, dup = {}, set()
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if seen.setdefault(n.name, core.dump(n)) != core.dump(n):
                dup.add(n.name)
    return dup


_declared = None


def declared():
    """method names the tables themselves give as target"""
    global _declared
    if _declared is None:
        T = gram.tables()
        _declared = {str(r.get("paddle_api", "")).rsplit(".", 1)[-1] for t in ("api", "attr") for r in T[t].values()}
    return _declared


def analyse(src, out, helper, packages=spec.PACKAGES):
    """problems of one output file: src, out texts; helper: text of the helper module or None"""
    v = []
    s, o = ast.parse(src), ast.parse(core.strip_marks(out))
    marked = {i + 1 for i in core.marked_lines(out)}
    star = {}
    h = None
    if helper is not None:
        h = ast.parse(helper)
        star = {"paddle_utils": bound.exports(h), "_paddle_utils": bound.exports(h)}
    bi, bo = bound.Analysis(s), bound.Analysis(o, star)
    orig = {n for _, n in bi.unbound}
    for (where, name), line in sorted(bo.unbound.items()):
        if (where, name) in bi.unbound:
            continue
        if line in marked and name in packages:
            continue                       # left unconverted, and said so
        v.append(("unbound|" + name, "%s is not bound before its use (line %d)" % (name, line)))
    had = words(s)
    made = made_attrs(o) | (made_attrs(h) if h is not None else set())
    own = {n.name for n in s.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
    user = [n for n in o.body if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) or n.name in own]
    for n in ast.walk(ast.Module(user, [])):
        if isinstance(n, ast.Attribute) and n.attr.startswith("_") and not n.attr.startswith("__") and n.attr not in had | made | declared() and n.lineno not in marked and isinstance(n.ctx, ast.Load) and not rooted(n):
            v.append(("attribute|" + n.attr, "no helper code defines the attribute %s (line %d)" % (n.attr, n.lineno)))
    for d in duplicates(o) - own:
        v.append(("twice|" + d, "%s is defined twice" % d))
    return v


def rooted(n):
    """a private attribute of a package (paddle.x._y) belongs to that package"""
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name) and n.id in ("paddle", "paddlenlp", "paddleformers")


def analyse_helper(text):
    v = []
    t = ast.parse(text)
    for (where, name), line in sorted(bound.Analysis(t).unbound.items()):
        v.append(("helper-unbound|%s.%s" % (where, name), "the helper code uses %s (in %s, line %d), which it does not bind" % (name, where or "module", line)))
    for d in duplicates(t):
        v.append(("helper-twice|" + d, "the helper code defines %s twice" % d))
    return v


class C18(core.Check):
    id = "C18"
    rule = ("exhaustive: the whole program universe (all table rows x call shapes, all contexts x uses, headers, import blocks, statement sequences, nestings) in file mode and in directory mode, formatted and not; all pairs (thorough: triples) of helper-using, importing and temporary-using APIs in one file, in two files and in a sub-directory. "
            "Oracle: definite-assignment analysis of input and output: a use that may be unbound in the output must be so in the input as well; helper code is analysed on its own")
    bounds = dict(helper_uses=len(HELP), contexts=len(CONTEXTS))
    assumptions = ["the user's program does not itself define a name of the helper code", "attributes of paddle and its companion packages are not resolved (their version is the user's)", "calls order functions: a function body may rely on names bound above its definition only"]

    def cases(self, tier):
        deep = tier == "thorough"
        for key, code in univ.everything(tier):
            if core.compiles(code):
                continue
            yield ["prog", "file", code]
            if key.startswith(("row/", "name")) and not deep:
                yield ["prog", "rowdir", code]
            else:
                yield ["prog", "dir", code]
        for M, api, e in univ.REPS:
            for sc in ("v = %s", "def f(a, b):\n    return %s", "class C:\n    zz = %s\n    def m(self, a):\n        return %s", "v = [%s for a in w]", "v = lambda a: %s", "if w:\n    v = %s\nv = %s"):
                yield ["prog", "dir", univ.imports_of(e) + sc.replace("%s", e) + "\n"]
                yield ["prog", "file", univ.imports_of(e) + sc.replace("%s", e) + "\n"]
                yield ["prog", "fmt", univ.imports_of(e) + sc.replace("%s", e) + "\n"]
        hs = ["", "'doc'\n", "from __future__ import annotations\n", "import os\n", "import zlocal\n", "zz = 1\n"]
        tails = ["", "import os\n", "import zlate\n", "def g():\n    import os\n    return os\n", "os = None\n"]
        for h in hs:
            for e in HELP:
                for t in tails:
                    code = h + "import torch\nzv = %s\n" % e + t
                    for m in ("file", "dir", "fmt", "min", "mindir"):
                        yield ["prog", m, code]
        for k in (4, 8, 16, 32, 1000):        # many pieces of helper code at once: every window of them
            for at in range(0, len(self.help), k // 2):
                for m in ("one", "two", "sub"):
                    if at == 0 or at + k // 2 < len(self.help):
                        yield ["proj", m, list(range(len(self.help)))[at:at + k]]
        for i in range(len(self.help)):
            for m in ("one", "two", "sub"):
                yield ["proj", m, [i, i], "long/" + "directory_with_a_long_name/" * 5]
        for r in (2, 3) if deep else (2,):
            for c in itertools.product(range(len(self.help) if r == 2 else len(HELP)), repeat=r):
                for m in ("one", "two", "sub"):
                    yield ["proj", m, list(c)]

    def setup(self):
        """every representative use that brings helper code or an extra import with it"""
        self.help = list(HELP)
        from . import ctx
        for M, api, e in univ.REPS:
            if e.startswith(("torch.", "a.")) and e not in HELP:
                text, h, t, f, err = ctx.convert_dir("import torch\nzv = %s\n" % e)
                if not err and (h or text.count("import ") > 1):
                    self.help.append(e)
        core.remove_tree(core.fresh_dir())

    def run(self, case):
        if case[0] == "prog":
            _, m, code = case
            if m in ("file", "fmt", "min"):
                o = core.convert_source(code, mode="min" if m == "min" else "default", no_format=m != "fmt")
                if o.error:
                    return Result(n=1, obs=o.error, skip=True)
                return Result([(k, "%s in\n%s\n---\n%s" % (x, code, o.text)) for k, x in analyse(code, o.text, None)], o.text, 1)
            return self.project({"prog.py": code}, "min" if m == "mindir" else "default")
        _, m, idx = case[:3]
        deep = case[3] if len(case) > 3 else ""
        us = [self.help[i] for i in idx]
        if m == "one":
            tree = {"prog.py": "import torch\n" + "".join("zv%d = %s\n" % (i, u) for i, u in enumerate(us))}
        elif m == "two":
            tree = {"m%d.py" % i: "import torch\ndef f(a, b):\n    return %s\n" % u for i, u in enumerate(us)}
        else:
            tree = {"d%d/e/m.py" % i if i else "prog.py": "import torch\nclass C:\n    def f(self, a, b):\n        return %s\n" % u for i, u in enumerate(us)}
            tree["d1/__init__.py"] = ""
        r = self.project(tree, "default", deep)
        if len(set(us)) == 1:              # the helper code of one API is there once
            one = self.project({"prog.py": "import torch\nzv = %s\n" % us[0]}, "default", deep)
            a, b = dict(r.obs).get("paddle_utils.py"), dict(one.obs).get("paddle_utils.py")
            r.n += 1
            if a != b:
                r.v.append(("repeated|%s|%s" % (m, us[0]), "the helper code of %s differs when it is used several times:\n%s\n---\n%s" % (us[0], a, b)))
        return r

    def project(self, tree, mode, deep=""):
        Converter = core.import_paconvert()
        d = os.path.join(core.fresh_dir(), deep) if deep else core.fresh_dir()
        core.write_tree(os.path.join(d, "in"), tree)
        try:
            Converter(mode=mode, log_dir="disable", no_format=True).run(os.path.join(d, "in"), os.path.join(d, "out"))
        except core.CaseTimeout:
            raise
        except BaseException as e:
            return Result(obs=core.short(e), skip=True)
        out = {k: x.decode("utf-8") for k, x in core.read_tree(os.path.join(d, "out")).items() if x is not None}
        h = out.get("paddle_utils.py")
        v = []
        if h is not None:
            v += [(k, "%s\n---\n%s" % (x, h)) for k, x in analyse_helper(h)]
        for name, code in tree.items():
            v += [(k, "%s in %s\n%s\n---\n%s\n--- helper\n%s" % (x, name, code, out[name], h)) for k, x in analyse(code, out[name], h)]
            t = ast.parse(core.strip_marks(out[name]))
            star = [i for i, n in enumerate(t.body) if isinstance(n, ast.ImportFrom) and n.module == "paddle_utils"]
            if star and h is None:
                v.append(("no-helper-file", "%s imports paddle_utils, which does not exist\n%s" % (name, out[name])))
            if star and not any(isinstance(n, ast.Expr) and ast.unparse(n) == "sys.path.append(%r)" % os.path.join(d, "out") for n in t.body[:star[0]]):
                v.append(("no-path", "%s imports paddle_utils without making the output directory importable\n%s" % (name, out[name])))
        return Result(v, sorted(out.items()), 1)


if __name__ == "__main__":
    sys.exit(core.main(C18()))
