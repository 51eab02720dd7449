"""C09: every import spelling of an API converts identically."""
import ast, sys, itertools
from . import core, gram, univ, ctx, spec
from .core import Result

USE = {
    "call": "zv = @($)",
    "value": "zv = foo(@)",
    "ret": "def zf(p: @ = @) -> @:\n    return @",
    "base": "class ZC(@):\n    zz = @",
    "isinst": "zv = isinstance(zx, (@, int))",
}
# the imported name is also a parameter or a local name of another function; the places where the name of a class or function usually stands
USE_BOUND = {
    "call": "zv = @($)",
    "ret": "def zf(p: @ = @) -> @:\n    pass",
    "base": "class ZC(@):\n    zz = 1",
    "isinst": "zv = isinstance(zx, @)",
    "setattr": "zv = setattr(@, 'zz', 1)",
    "hasattr": "zv = hasattr(@, 'zz')",
    "super": "zv = super(@, zx)",
    "partial": "zv = partial(@, 1)",
    "fpartial": "zv = functools.partial(@, 1)",
    "opt": "zv: Optional[@] = zw\nzv = 1",
    "union": "def zf(p: Union[@, int, @]) -> Dict[str, @]:\n    pass",
    "value": "zv = @['tanh']",
    "dict": "zv = {'a': @, 'b': [1]}",
    "assign": "zv = @",
    "attr": "zv = @.zz",
}
BINDS = {
    "param": "def zq(%s):\n    return 1\n",
    "local": "def zq():\n    for %s in zw:\n        pass\n",
    "nested": "def zq():\n    return [1 for %s in zw]\n",
}
WRAP = {
    "top": "%I\n%U",
    "func": "def zouter():\n    %I\n    %U\n    return 1",
    "try": "try:\n    %I\nexcept ImportError:\n    zflag = 1\n%U",
    "after": "%I\nzother = 1\nimport zlib9\n%U",
    "if": "if zcond:\n    %I\n    %U",
    "cls": "class ZK:\n    def zm(self):\n        %I\n        %U",
    "late": "def zlater():\n    %U\n%I",
}


def spellings(api, full):
    p = api.split(".")
    root = p[0]
    yield "dotted", "import " + root, api
    yield "root_as", "import %s as zT" % root, ".".join(["zT"] + p[1:])
    yield "multi", "import zlib1, %s, zlib2" % root, api
    yield "multi_as", "import zlib1 as zl, %s as zT" % root, ".".join(["zT"] + p[1:])
    for k in range(1, len(p)):
        mod, leaf, rest = ".".join(p[:k]), p[k], p[k + 1:]
        last = k == len(p) - 1
        if leaf == root:
            continue            # 'from torch import torch' binds the package name itself to something else
        if not last:
            yield "mod%d" % k, "import %s.%s" % (mod, leaf), api
            yield "mod_as%d" % k, "import %s.%s as zM" % (mod, leaf), ".".join(["zM"] + rest)
        yield "from%d" % k, "from %s import %s" % (mod, leaf), ".".join([leaf] + rest)
        yield "from_as%d" % k, "from %s import %s as zA" % (mod, leaf), ".".join(["zA"] + rest)
        if full:
            yield "from_multi%d" % k, "from %s import zfoo, %s, zbar as zb" % (mod, leaf), ".".join([leaf] + rest)
            yield "from_multi_as%d" % k, "from %s import zfoo as zf1, %s as zA" % (mod, leaf), ".".join(["zA"] + rest)
            yield "both%d" % k, "import %s\nfrom %s import %s as zA" % (root, mod, leaf), ".".join(["zA"] + rest)
            yield "other_first%d" % k, "from zpkg import zy\nfrom %s import %s as zA\nfrom zpkg import zw" % (mod, leaf), ".".join(["zA"] + rest)


REBIND = [("import torch.nn as F\nzv = F.ReLU()\n", "import torch.nn.functional as F\nzv = F.relu(a)\n"),
          ("from torch import nn\nzv = nn.ReLU()\n", "import znn as nn\nzv = nn.ReLU()\n"),
          ("import torch\nzv = torch.abs(a)\n", "import ztorch as torch\nzv = torch.abs(a)\n"),
          ("from torch import abs\nzv = abs(a)\n", "zv = abs(a)\n"),
          ("from torch import add as op\nzv = op(a, b)\n", "from torch import mul as op\nzv = op(a, b)\n"),
          ("import torch as t\nzv = t.add(a, b)\nop = t.abs\nop(a)\n", "import torch\nop = foo\nzv = op(a)\n"),
          ("import torchvision\nzv = torchvision.zzz(a)\n", "import torch\nzv = torchvision.zzz(a)\n"),
          ("import numpy as np\nimport torch\nzv = np.max(a)\n", "import torch as np\nzv = np.max(a)\n"),
          ("import torch\nfrom zz import foo\nzv = foo(a).abs()\n", "import torch\nzv = foo(a).abs()\n")]


class C09(core.Check):
    id = "C09"
    rule = ("exhaustive: every entry of the API, attribute and alias tables x every import spelling that reaches it (every split of the dotted name, import/from/as, several names per statement, with other packages) "
            "x use as call, value, annotation/default, base class, type argument; core entries also x place of the import (function, try, if, class, after the use). Files of one project that bind the same name differently. "
            "Oracle: the converted use statement equals that of the dotted spelling")
    bounds = dict(places=len(WRAP), uses=len(USE))
    assumptions = ["the imported name is bound by that import only"]

    def apis(self):
        T = gram.tables()
        seen = set()
        for api in list(T["api"]) + list(T["attr"]) + list(T["alias"]):
            if api not in seen and all(x.isidentifier() for x in api.split(".")) and api.split(".")[0] in set(spec.PACKAGES) | set(spec.MAYBE):
                seen.add(api)
                yield api
        for api in ("torch.zzz_unknown", "torch.nn.ZzzUnknown", "torchvision.zzz.yyy", "transformers.zz", "torchaudio.zz.yy", "kornia.zz", "mmcv.zz", "torch.cuda.zz.yy.xx"):
            yield api

    def args(self, api):
        row = gram.tables()["api"].get(gram.tables()["alias"].get(api, api), {})
        P, K = gram.params(row)
        n = row.get("min_input_args") or min(1, len(P))
        return ", ".join("q%d" % i for i in range(n))

    def cases(self, tier):
        deep = tier == "thorough"
        core_apis = {r[1] for r in univ.REPS if not gram.is_method(r[1])} | {"torch.add", "torch.float32", "torch.nn.Module", "torch.zzz_unknown", "torchvision.zzz.yyy", "torch.nn.functional.relu"}
        for api in self.apis():
            full = deep or api in core_apis
            for sp, imp, ref in spellings(api, full):
                for u in USE:
                    if u in ("ret", "base", "isinst") and not full:
                        continue
                    yield [api, sp, imp, ref, u, "top"]
                if full:
                    for w in WRAP:
                        yield [api, sp, imp, ref, "call", w]
            if full and "." in api:
                mod, leaf = api.rsplit(".", 1)
                for sp, imp, ref in (("from", "from %s import %s" % (mod, leaf), leaf), ("from_as", "from %s import %s as zA" % (mod, leaf), "zA"), ("mod", "import %s as zA" % mod, "zA." + leaf)):
                    if leaf == api.split(".")[0] or (sp == "mod" and not deep):
                        continue
                    for b in BINDS:
                        for u in USE_BOUND:
                            for side in (0, 1):
                                yield ["bound", api, sp, imp, ref, u, b, side]
        for i, (a, b) in enumerate(REBIND):
            for order in (0, 1):
                for where in ("same", "dirs"):
                    yield ["rebind", i, order, where]

    def text(self, u, ref, api, uses=USE):
        return uses[u].replace("@", ref).replace("$", self.args(api))

    def build(self, w, imp, use):
        out = []
        for l in WRAP[w].split("\n"):
            ind = l[: len(l) - len(l.lstrip())]
            body = imp if l.strip() == "%I" else use if l.strip() == "%U" else l.strip()
            out += [ind + x for x in body.split("\n")]
        return "\n".join(out) + "\n"

    def reference(self, api, u, uses=USE):
        if not hasattr(self, "_ref"):
            self._ref = {}
        k = (api, u, len(uses))
        if k not in self._ref:
            self._ref[k] = core.convert_source(self.build("top", "import " + api.split(".")[0], self.text(u, api, api, uses)), no_format=True)
        return self._ref[k]

    def strip(self, text):
        """the output without imports, pass statements that replace them, helper code and notes"""
        t = ast.parse(core.strip_marks(text))
        for n in ast.walk(t):
            for f, v in ast.iter_fields(n):
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(n, f, [x for x in v if not isinstance(x, (ast.Import, ast.ImportFrom, ast.Pass))])
        return t

    def find(self, text):
        """statements that hold the use: all that mention zv / zf / ZC (and the statements right before zv)"""
        t = self.strip(text)
        r = []
        for n in ast.walk(t):
            for f, v in ast.iter_fields(n):
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    for i, x in enumerate(v):
                        if isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == "zv":
                            j = i
                            while j and isinstance(v[j - 1], (ast.Assign, ast.Expr)) and not ast.unparse(v[j - 1]).startswith(("zother", "zflag")) and not isinstance(v[j - 1], (ast.FunctionDef, ast.ClassDef)):
                                if isinstance(v[j - 1], ast.Expr) and isinstance(v[j - 1].value, ast.Call) and ast.unparse(v[j - 1].value.func) == "setattr":
                                    break
                                j -= 1
                            r += v[j:i + 1]
                        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name in ("zf", "ZC"):
                            r.append(x)
        return ctx.norm_names("\n".join(core.dump(x) for x in r))

    def run(self, case):
        if case[0] == "rebind":
            return self.rebind(case)
        if case[0] == "bound":
            _, api, sp, imp, ref, u, b, side = case
            bind = BINDS[b] % ref.split(".")[0]
            use = USE_BOUND[u].replace("@", ref).replace("$", self.args(api)) + "\n"
            code = imp + "\n" + (use + bind if side else bind + use)
            r = self.reference(api, u, USE_BOUND)
            w = b + str(side)
        else:
            api, sp, imp, ref, u, w = case
            use = self.text(u, ref, api)
            code = self.build(w, imp, use)
            r = None
        if core.compiles(code):
            return Result(n=0, skip=True, obs="invalid input")
        r = r or self.reference(api, u)
        o = core.convert_source(code)
        if o.error or r.error or core.compiles(core.strip_marks(o.text)) or core.compiles(core.strip_marks(r.text)):
            return Result([], "C03", skip=True)
        v = []
        a, b = self.find(r.text), self.find(o.text)
        if a != b:
            v.append(("code", "the dotted spelling gives\n" + r.text))
        if bool(core.marked_lines(o.text)) != bool(core.marked_lines(r.text)):
            v.append(("mark", "the dotted spelling gives\n" + r.text))
        if (o.total, o.failed) != (r.total, r.failed):
            v.append(("count", "%d/%d uses counted, %d/%d in the dotted spelling" % (o.total, o.failed, r.total, r.failed)))
        return Result([("%s|%s|%s|%s|%s" % (api, sp, u, w, k), "converting\n%s\ngave\n%s\n%s" % (code, o.text, m)) for k, m in v], (b, o.total, o.failed))

    def rebind(self, case):
        _, i, order, where = case
        a, b = REBIND[i]
        names = ["a.py", "b.py"] if where == "same" else ["p/x.py", "q/x.py"]
        files = dict(zip(names, (a, b) if not order else (b, a)))
        Converter = core.import_paconvert()
        import os
        d = core.fresh_dir()
        core.write_tree(os.path.join(d, "in"), files)
        Converter(log_dir="disable", no_format=True).run(os.path.join(d, "in"), os.path.join(d, "out"))
        got = core.read_tree(os.path.join(d, "out"))
        v = []
        for n, code in files.items():
            alone = core.convert_source(code).text
            if got[n].decode() != alone:
                v.append(("rebind", "converting\n%s\nalone gives\n%s\nin a project with\n%s\ngives\n%s" % (code, alone, [x for y, x in files.items() if y != n][0], got[n].decode())))
        return Result([("%s|%s" % (case, k), m) for k, m in v], sorted(got.items()), n=3)


if __name__ == "__main__":
    sys.exit(core.main(C09()))
