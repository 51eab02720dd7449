"""C04: no reference to a recognised package survives in an unmarked line."""
import ast
from . import core, univ, gram, spec
from .core import Result

# ---- layouts of unconverted uses: @ = an unsupported use, & = a converted one
UNSUP = ["torch.zzz_unknown(a)", "a.is_shared()", "torch.zzz_attr", "torch.nn.zzz.Deep(a)", "torch.sparse.sampled_addmm(a, b, c)",
         "torch.zzz_unknown(a, 'x (torch')", "torch.zzz_unknown(\"it's\", a)", "torch.celu(a, **kw)", "torch.zzz_a(torch.zzz_b(a))",
         "foo(a).is_meta", "a[0].names", "a.zm(1).is_meta.zz.yy"]
LAYOUT = ["@", "v = @", "v = (@, @)", "v = &; w = @", "v = @; w = &", "foo('torch.a', @)", "foo(@, 'torch.a')", "foo('\"', @)", "foo(\"'\", @, \"'\")",
          "foo('''x\ntorch.y\n''', @)", "foo(@, '''x\ntorch.y\n''')", "'''doc\n'''\n@", "'doc'; @", "x = '('\n@\ny = ')'", "x = \"'''\"\n@\nx = \"'''\"",
          "x = '\"\"\"'\n@\nx = '\"\"\"'", "def f():\n    '''doc torch.x'''\n    return @", "class C:\n    '''doc\n\n    more\n    '''\n    v = @",
          "v = foo(  # torch.c\n    @,\n    &,\n)", "v = [\n    &,\n    @,\n    'torch.s',\n    @,\n]", "v = f'{@} torch.q'", "v = f'torch.q {@}'", "v = f'''a\n{@}\n'''",
          "v = {'torch.k': @}", "v = (&\n     + @)", "v = very_long_function_name_number_one(argument_number_one, argument_number_two, &, @, argument_three)",
          "v = very_long_function_name_number_one(@, argument_number_one_is_long, argument_number_two_is_long, &, @, 'torch.k', argument_three)",
          "if @:\n    pass\nelif @:\n    pass\nelse:\n    @", "for i in @:\n    v = &\n    @", "with @ as v, & as w:\n    @", "try:\n    @\nexcept E:\n    &\nfinally:\n    @",
          "@.zattr", "@[0]", "@.zmeth().zattr", "x = 'a' 'b'; @", "x = b'torch.x'; @", "x = r'\\'; @" if False else "x = r'\\d'; @", "x = '\\\\'; @", "x = '#'; @",
          "x = '# torch'  # '\n@", "lambda: @", "[@ for i in w]", "v = @ if & else @", "async def f():\n    await @", "@deco(@)\ndef f(x=@) -> foo(@):\n    pass",
          "x = 1\n@deco(@)\nclass C(foo(@)):\n    v = 1", "class C(foo(@)):\n    pass", "def g():\n    x = 1\n    @deco(@)\n    def f(x):\n        return 1\n    return f",
          "if x:\n    def f(x=@):\n        pass\nelse:\n    class C(foo(@)):\n        pass", "x = 1\nasync def f(x=@):\n    pass", "class C:\n    def f(self):\n        pass\n    def g(self, x=@):\n        pass\n    @deco(@)\n    def h(self):\n        pass",
          "import os, sys\n@\nimport re\nv = @", "foo(torch=@)", "foo(a, b, c, d, e, @, f, g)", "v = [a, b, c, d, e, f, @, g]", "v = @ + a + b + c + @"]
PKG_IMPORTS = ["import %(p)s\nv = %(p)s.zzz(a)\n", "import %(p)s.zs as q\nv = q.zzz(a)\n", "from %(p)s import zs\nv = zs.zzz(a)\n", "from %(p)s import zs as q\nv = q(a)\n",
               "from %(p)s.zs import zq, zw as q\nv = zq(a) + q.zattr\n", "import %(p)s as q\nv = q.zzz(a)\n", "def f():\n    import %(p)s\n    return %(p)s.zzz\n",
               "try:\n    from %(p)s import zs\nexcept ImportError:\n    zs = None\nv = foo(zs.zzz(a))\n", "import %(p)s\nv = %(p)s.__version__\n",
               "import %(p)s.zs.zt\nv = %(p)s.zs.zt.zu(a)\nfoo(%(p)s)\n", "import %(p)s, torch\nv = torch.add(%(p)s.zzz(a), b)\n", "from %(p)s.zs import zq\nclass C(zq):\n    x: zq = zq\n    def f(self, a: zq = None, *b: zq) -> zq:\n        return isinstance(a, zq)\n"]


def monitor(code, o, text=None):
    v = []
    src = ast.parse(code)
    named = {n.id for n in ast.walk(src) if isinstance(n, ast.Name)}
    pkgs = {p for p in spec.PACKAGES if p not in named} | spec.imported_packages(src)
    tree = ast.parse(core.strip_marks(o.text))
    marked = set(core.marked_lines(o.text))
    for line, what in spec.leftovers(tree, pkgs):
        if line - 1 not in marked:
            v.append(("unmarked", "%s stands in line %d without a mark" % (what, line)))
        elif what.startswith(("import", "from")):
            v.append(("import", "'%s' of a recognised package was kept" % what))
    if o.failed and not marked:
        v.append(("nomark", "%d unsupported uses reported, no line is marked" % o.failed))
    if not o.failed and spec.leftovers(tree, pkgs):
        v.append(("zero", "no unsupported use reported, but references remain"))
    for first, last, s in spec.annotations(tree):
        lines = core.strip_marks(o.text).split("\n")
        nxt = [i for i in range(last, len(lines)) if lines[i].strip()]
        if not nxt or nxt[0] not in marked:
            v.append(("annotation", "the statement after the annotation in line %d is not marked" % first))
    return v


class C04(core.Check):
    id = "C04"
    rule = ("exhaustive: whole program universe (contexts x uses x matchers, headers, import blocks, statement sequences, table rows x call shapes) plus every layout of "
            "unsupported uses between strings/quotes/comments/brackets and every recognised package x import form; default mode, raw and formatted. Oracle: the Python parser on "
            "the written file: each reference to an imported recognised package lies on a marked line, imports of it are gone, each annotation is followed by a marked line")
    bounds = dict(layouts=len(LAYOUT), unsupported_uses=len(UNSUP), packages=len(spec.PACKAGES), nesting=2, sequence="2/3")
    assumptions = ["the package name itself is not rebound by the program", "star imports from a recognised package are a known finding"]

    def cases(self, tier):
        for l in LAYOUT:
            for u in UNSUP:
                if ("'''" in l or "f'" in l) and ("'" in u or '"' in u):
                    continue
                code = "import torch\n" + l.replace("@deco", "%deco").replace("@", u).replace("&", "torch.add(a, b)").replace("%deco", "@deco") + "\n"
                for nf in (True, False):
                    yield ["lay/%s/%s" % (l, u), code, nf]
        for p in spec.PACKAGES:
            for i, t in enumerate(PKG_IMPORTS):
                yield ["pkg/%s/%d" % (p, i), t % dict(p=p), True]
        yield ["star", "from torch import *\nv = zeros(a)\n", True]
        for tag, code in univ.everything(tier):
            yield [tag, code, True]
            if tag.startswith(("ctx", "seq", "hdr")):
                yield [tag, code, False]

    def run(self, case):
        tag, code, nf = case
        if core.compiles(code):
            return Result(n=0, skip=True, obs="invalid input")
        o = core.convert_source(code, no_format=nf)
        if o.error or core.compiles(core.strip_marks(o.text)):
            return Result([], "C03: " + str(o.error), skip=True)     # decided by C03
        if tag == "star" and not core.marked_lines(o.text):
            return Result([("star|unmarked", "a star import of torch is removed and the names it provides stay without a mark:\n%s" % o.text)], o.text)
        return Result([("%s|%s|%s" % (tag, "raw" if nf else "fmt", k), "converting\n%s\n%s:\n%s" % (code, m, o.text)) for k, m in monitor(code, o)],
                      (o.text, o.total, o.failed))


if __name__ == "__main__":
    import sys
    sys.exit(core.main(C04()))
