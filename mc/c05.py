"""C05: a line is marked only where a use was left unconverted; text never causes a mark."""
import ast, itertools
from . import core, univ, gram, spec, c04
from .core import Result

# text fragments that mention packages without using them
FRAGS = ["torch", "torch.add(x)", "import torch", "(torch.x", "torch.x)", "a torch. b", "torch.nn.Linear", "see torchvision.models", "mytorch.x", "torch_x.y", "x.torch.y",
         "it's torch.x", 'say "torch.x"', "\\ntorch.x\\n", "{torch.x}", "% torch.x", "\\\\torch.x", ">>> torch.add(x)", "#torch.x"]
QUOTES = [("'", "'"), ('"', '"'), ("'''", "'''"), ('"""', '"""'), ("r'", "'"), ("b'", "'"), ("f'", "'"), ("'''\n", "\n'''"), ('"""\n\n    ', '\n    """'), ("u'", "'"), ("rb'", "'")]
SPOTS = ["$", "v = $", "foo($)", "foo(1, k=$)", "v = torch.add(a, b, name=$)", "foo($, torch.add(a, b))", "foo(torch.add(a, b), $)", "v = {$: $}", "def f():\n    $\n    return torch.add(a, b)",
         "class C:\n    $\n    x = $", "assert v, $", "v = $ + $", "v = [\n    $,\n    torch.add(a, b),\n    $,\n]", "def f(x=$):\n    pass", "raise E($)", "v = $.zformat(torch.add(a, b))",
         "v = a[$]", "print($, $); torch.add(a, b)", "v = torch.add(a, b); $", "v = ($\n     $)", "if v == $:\n    torch.add(a, b)", "v = f'{foo($)}'", "v = $ % torch.add(a, b)"]
IDENT = ["torch_x.y(a)", "my_torch.x(a)", "mytorch.x", "torchx.y", "_torch.x", "torch1.x", "self.torch.x(a)", "x.torch.y", "x.torch", "foo(torch_=1)", "foo(x_torch=1)", "x.torchvision.y(a)",
         "obj.transformers.zz", "transformers_x.y", "a.mm.torch.zz(1)", "foo().torch.zz", "x[0].torch.zz", "(x).torch.zz", "'torch'.zz", "paddle_torch.zz", "torch_geometric.zz(a)", "torchmetrics.zz", "foo(torch=1)", "dict(a=1, torch=b)", "foo(torchvision=1)", "foo(lambda torch=1: 2)", "foo(lambda *torch, **transformers: 2)", "a.zm(torch=1).torch", "x.torch[0]", "x.torch == 1", "x.torch()", "foo(torch=1).zz"]
DEFS = ["def f(torch=None):\n    return 1", "def f(a, *, torch, torchvision=1):\n    pass", "def torch_f(transformers):\n    pass", "class torch_c:\n    def torch(self):\n        return self.torch(1)", "class C:\n    torch: int = 1\n    x = 2",
        "def f(x: 'torch.Tensor' = 1):\n    pass", "foo.torch = 1", "del foo.torch", "foo(x, **{'torch.a': 1})", "class C(foo, torch=1):\n    pass", "@foo.torch\ndef f():\n    pass", "x.torch += 1", "with x.torch as y:\n    pass"]


class C05(core.Check):
    id = "C05"
    rule = ("exhaustive: package-mentioning text fragments x quotings x places, look-alike identifiers x contexts, and the whole program universe; raw and formatted. Oracle: Python's parser: "
            "a marked line holds a reference to a recognised package or is the first line after the tool's annotation string; number of marked lines <= unsupported uses reported; "
            "string constants are unchanged; look-alike text/identifiers give no mark")
    bounds = dict(fragments=len(FRAGS), quotings=len(QUOTES), places=len(SPOTS), identifiers=len(IDENT), nesting=2)

    def cases(self, tier):
        for f in FRAGS:
            for qi, (a, b) in enumerate(QUOTES):
                for s in SPOTS:
                    code = "import torch\nimport torchvision\n" + s.replace("$", a + f + b) + "\ntorch.add(a, b)\n"
                    real = a == "f'" and "{" in f        # a real use inside an f-string
                    t = "text/%s/%d/%s" % (f, qi, s)
                    yield [t, code, True, not real]
                    if tier == "thorough" or qi < 5:
                        yield [t, code, False, not real]
                    if tier == "thorough" or s in ("$", "v = $", "foo($)"):
                        yield ["u" + t, code + "torch.zzz_unknown(a)\n", True, False]
        for i in IDENT:
            for n, t, o in gram.CONTEXTS:
                code = "import torch\nimport torchvision\nimport transformers\n" + t.replace(gram.H, "(%s)" % i) + "\ntorch.add(a, b)\n"
                yield ["id/%s/%s" % (i, n), code, True, True]
                yield ["id/%s/%s" % (i, n), code, False, True]
        for i in DEFS:
            for pre in ("import torch\n", "import torch\nimport torchvision\nimport transformers\n", "from torch import nn\n", ""):
                for nf in (True, False):
                    yield ["def/%s/%s" % (i, pre), pre + i + "\n", nf, True]
        for l in c04.LAYOUT:
            for u in c04.UNSUP:
                code = "import torch\n" + l.replace("@deco", "%deco").replace("@", u).replace("&", "torch.add(a, b)").replace("%deco", "@deco") + "\n"
                for nf in (True, False):
                    yield ["lay/%s/%s" % (l, u), code, nf, False]
        for tag, code in univ.everything(tier):
            yield [tag, code, True, False]
            if tag.startswith(("ctx", "seq", "hdr")):
                yield [tag, code, False, False]

    def run(self, case):
        tag, code, nf, clean = case
        if core.compiles(code):
            return Result(n=0, skip=True, obs="invalid input")
        o = core.convert_source(code, no_format=nf)
        if o.error or core.compiles(core.strip_marks(o.text)):
            return Result([], "C03: " + str(o.error), skip=True)
        v = []
        src, tree = ast.parse(code), ast.parse(core.strip_marks(o.text))
        marked = core.marked_lines(o.text)
        lines = core.strip_marks(o.text).split("\n")
        pkgs = set(spec.PACKAGES)
        ok = {l - 1 for l, w in spec.leftovers(tree, pkgs)}
        for first, last, s in spec.annotations(tree):
            nxt = [i for i in range(last, len(lines)) if lines[i].strip()]
            ok |= set(nxt[:1])
        for m in marked:
            if m not in ok:
                v.append(("mark", "line %d is marked without need" % (m + 1)))
        if clean and marked:
            v.append(("clean", "a program without unsupported use has marks"))
        if len(marked) > o.failed:
            v.append(("count", "%d lines marked, %d unsupported uses" % (len(marked), o.failed)))
        if tag.startswith(("text", "utext", "id", "lay")):
            a, b = spec.strings(src), spec.strings(tree)
            if not nf:       # the formatter re-indents docstrings
                a, b = sorted("".join(x.split()) for x in a), sorted("".join(x.split()) for x in b)
            if a != b and not (set(b) - set(a) <= {"float32"} and not set(a) - set(b)):
                v.append(("strings", "string constants changed: %r -> %r" % (a, b)))
        return Result([("%s|%s|%s" % (tag, "raw" if nf else "fmt", k), "converting\n%s\n%s:\n%s" % (code, m, o.text)) for k, m in v], (o.text, o.total, o.failed))


if __name__ == "__main__":
    import sys
    sys.exit(core.main(C05()))
