"""C07: code that is not PyTorch keeps its syntax tree."""
import ast, itertools
from . import core, gram, pysyn, spec
from .core import Result

# code that looks like tensor code but is rooted in another package or in a literal
LOOKALIKE = """
np.abs(x)
np.max(x, axis=1)
np.float32
np.random.rand(3).astype('float32')
np.array(x).sum()
np.linalg.norm(x).item()
np.arange(3).reshape(1, 3)
np.array([1]).T.sum()
(np.array(1.0) + np.array(2.0)).abs()
np.zeros(3)[0].max()
zp.max(x)
zp.sub.add(x, y)
zp.Tensor
zq(x).sum()
zq.add(x)
zl.sum(x)
'a,b'.split(',')
','.join(x)
'%s'.format(x)
'x'.view
b'x'.split()
f'{x}'.split()
[1, 2].index(1)
[x].sort()
{'a': 1}.get('a')
{'a': 1}.data
(1, 2).index(1)
[x for x in y].sort()
ndarray.sum(x)
args.device
args.data.max()
paddle.max(x)
paddle.Tensor.max
self.sum(x)
self.device
self.data
print(x)
len(x)
max(x, y)
sum(x)
abs(x)
isinstance(x, zp.Tensor)
super().zforward(x)
x.zmeth(y).zattr
x.zz.zmax(y)
x.y.z.max(1)
x.y.z.data
x.module.sub.add(y)
torch_geometric.nn.Linear(3)
zp.torch.add(x)
x.torch.add
""".strip().split("\n")
LOOK_IMPORTS = "import numpy as np\nimport zp\nfrom zmod import zq\nimport zlib2 as zl\nimport paddle\nimport torch_geometric\nfrom numpy import ndarray\n"
# operator expressions of which every operand comes from another package or is a literal
OPERANDS = ["np.array(x)", "zq(x)", "zp.zf(x)[0]", "zp.sub.zattr", "zl.add(x).max(1)", "zq(k=x).zz(y)", "ndarray(x)"]
OPERATIONS = ["(%A + 1)", "(2.5 * %A)", "(-%A)", "(~%A)", "(%A + %B)", "(%A @ %B ** 2)", "(%A == %B)", "(1 < %A)", "(1 + (2 - %A))", "%A[0]", "%A[1:, x]", "(%A + %B)[0]", "(-%A[0])", "(%A / %B).zw(x)", "(1 < %A <= %B)", "(%A)(x)"]
METHODS = ["max(1)", "T", "data.sum()", "split(2, dim=0)", "abs().max(dim=1)"]
# objects that are no tensors x members that conversion of a tensor would visibly change
ROOTS = ["np", "zp", "zp.sub", "zp.sub.subsub", "zl", "zq(x)", "zq", "np.array(x)", "zp.f(x).g", "zp.f(x)[0].g(y)", "ndarray", "ndarray(x)", "paddle", "paddle.nn", "paddle.nn.functional",
         "x.y", "x.y.z", "x.y.z.w", "x.y.z.w.v", "x.y.z.w.v.u", "selfish.y", "args", "args.zz", "arg", "arg.zz", "self.args", "self.args.zz", "self.np", "self.zp.zz", "x.weights", "x.Tz", "x.biases", "x.datas",
         "'s'", "b's'", "f'{x}'", "[1, x]", "{x: 1}", "(x, y)", "{x}", "[i for i in x]", "(i for i in x)", "{i: i for i in x}", "{i for i in x}", "(lambda: x)", "1.0", "...", "('a' 'b')", "self"]
MEMBERS = ["max(1)", "min(x, y)", "sort(x)", "median(x)", "equal(x)", "qr()", "negative()", "select(0, 1)", "where(a, b)", "numel()", "storage()", "put_(x)", "vsplit(x)", "logdet()",
           "imag", "is_sparse", "names", "max", "split(x)"]
TORCH = "import torch\n"
BEFORE, AFTER = "vb = torch.add(pa, pb)\n", "va = torch.abs(pa)\n"
CB, CA = "vb = paddle.add(pa, pb)\n", "va = paddle.abs(pa)\n"


class C07(core.Check):
    id = "C07"
    rule = ("exhaustive: every expression kind x expression context, every statement kind x block kind, expression kinds nested to depth 2, look-alike code rooted in other packages, operator expressions over values of other packages with tensor-like methods, "
            "each in a file without recognised package, with 'import torch', and between two converted uses; default and min mode. Oracle: ast.dump of the output equals that of the input, "
            "except for exactly the torch import and the two converted statements")
    bounds = dict(expressions=len(pysyn.EXPRS), expression_contexts=len(pysyn.EXPR_CTX), statements=len(pysyn.STMTS) + len(pysyn.NEWER), blocks=len(pysyn.STMT_CTX), nesting=2)
    assumptions = ["attribute and method names of the alphabet are not names of Tensor/Module/Optimizer APIs, or are rooted in another package",
                   "formatting is off (the formatter may re-indent docstrings)"]

    def progs(self, tier):
        for s in pysyn.STMTS + pysyn.NEWER:
            for c in pysyn.STMT_CTX:
                yield pysyn.put(c, s)
        for e in pysyn.EXPRS:
            for c in pysyn.EXPR_CTX:
                yield c.replace("__E__", e) + "\n"
        inner = pysyn.EXPRS if tier == "thorough" else pysyn.EXPRS[::3]
        wraps = [c for c in pysyn.EXPR_CTX if "\n" not in c]
        for e in inner:
            for c1 in wraps:
                if not c1.startswith("v = "):
                    continue
                for c2 in (pysyn.EXPR_CTX if tier == "thorough" else wraps[:12]):
                    yield c2.replace("__E__", "(" + c1[4:].replace("__E__", "(" + e + ")") + ")") + "\n"
        T = gram.tables()
        for r in ROOTS:
            for m in MEMBERS:
                n = m.split("(")[0]
                if r == "self" and any(p + n in T["api"] for p in ("torch.nn.Module.", "torch.optim.Optimizer.")):
                    continue                    # may be a method the class inherits
                for c in ("v = %s", "foo(y, k=%s)", "def f(a=1):\n    if not %s: pass", "del %s" if "(" not in m else "%s"):
                    yield LOOK_IMPORTS + c % (r + "." + m) + "\n"
                    if r.startswith("paddle"):
                        yield "import paddle.nn as zpn\n" + c % (r + "." + m) + "\n"
                        yield c % (r + "." + m) + "\n"
        for o in OPERATIONS:
            for i, a in enumerate(OPERANDS):
                for b in OPERANDS[i:] if "%B" in o else [""]:
                    if a == "zp.sub.zattr" and o == "(%A)(x)":
                        continue
                    for m in METHODS:
                        yield LOOK_IMPORTS + "v = %s.%s\n" % (o.replace("%A", a).replace("%B", b), m)
        for e in LOOKALIKE:
            for n, t, o in gram.CONTEXTS:
                yield LOOK_IMPORTS + t.replace(gram.H, "(%s)" % e) + "\n"

    def cases(self, tier):
        for p in self.progs(tier):
            yield [p, "plain", "default"]
            yield [p, "torch", "default"]
            yield [p, "between", "default"]
            if tier == "thorough":
                yield [p, "torch", "min"]
                yield [p, "between", "min"]

    def run(self, case):
        p, how, mode = case
        head = []
        q = p
        src = {"plain": q, "torch": TORCH + q, "between": TORCH + BEFORE + q + AFTER}[how]
        if core.compiles(src):
            return Result(n=0, skip=True, obs="invalid input")
        o = core.convert_source(src, mode=mode)
        if o.error or core.compiles(core.strip_marks(o.text)):
            return Result([], "C03: " + str(o.error), skip=True)
        got = ast.parse(core.strip_marks(o.text)).body
        want = ast.parse({"plain": q, "torch": q, "between": (CB if mode == "default" else BEFORE) + q + (CA if mode == "default" else AFTER)}[how]).body
        v = []
        if core.marked_lines(o.text):
            v.append(("mark", "a line is marked"))
        if how != "plain":
            # the added import stands first, after docstring and __future__ imports
            imps = [n for n in got if isinstance(n, ast.Import) and len(n.names) == 1 and n.names[0].name in ("paddle", "torch") and n.names[0].asname is None]
            n_in = sum(isinstance(n, ast.Import) and [a.name for a in n.names] in (["paddle"], ["torch"]) for n in want)
            add = {"default": ["paddle"], "min": ["paddle", "torch"]}[mode]
            for a in add:
                for n in got:
                    if isinstance(n, ast.Import) and [(x.name, x.asname) for x in n.names] == [(a, None)]:
                        got.remove(n)
                        break
                else:
                    v.append(("import", "import %s is missing" % a))
            if "import paddle" in p:     # the user's own import may be merged with the added one
                want = [n for n in want if ast.dump(n) != ast.dump(ast.parse("import paddle").body[0])]
                got = [n for n in got if ast.dump(n) != ast.dump(ast.parse("import paddle").body[0])]
        a, b = [core.dump(n) for n in want], [core.dump(n) for n in got]
        if a != b:
            v.append(("tree", "the syntax tree changed"))
        return Result([("%s|%s|%s|%s" % (how, mode, k, p), "converting\n%s\n%s:\n%s" % (src, m, o.text)) for k, m in v], o.text)


if __name__ == "__main__":
    import sys
    sys.exit(core.main(C07()))
