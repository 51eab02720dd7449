"""C17: min mode keeps aligned code and still converts the rest."""
import ast, itertools, re, sys
from . import core, gram, univ, ctx, spec
from .core import Result
from .c09 import spellings, WRAP
from .gram import CONTEXTS, fill

IGNORED = ("layout", "generator", "memory_format", "sparse_grad", "foreach")


def lookup(api):
    T = gram.tables()
    api = T["alias"].get(api, api)
    for t in ("api", "attr"):
        if api in T[t] and "disable" not in T[t][api]:
            return T[t][api]
    for pat, row in T["wild"].items():
        if re.match(pat, api) and "disable" not in row:
            return row
    return {}


def aligned(api):
    return lookup(api).get("Matcher") == "ChangePrefixMatcher"


def keep(stmts):
    """the statements of an aligned use: as written, without the ignored parameters"""
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                n.keywords = [k for k in n.keywords if k.arg not in IGNORED]
    return stmts


def split(text):
    """(imports, other statements), marks and notes removed"""
    t = ctx.strip_notes(ast.parse(core.strip_marks(text)))
    imp, rest = [], []
    for n in t.body:
        (imp if ctx.is_prelude(n) else rest).append(n)
    return imp, rest


def flat(imports):
    """the single names an import list binds"""
    r = set()
    for n in imports:
        if isinstance(n, ast.Import):
            r |= {("import", a.name, a.asname) for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            r |= {("from", n.module, a.name, a.asname) for a in n.names}
    return r


def dumps(stmts):
    return ctx.norm_names("\n".join(core.dump(s) for s in stmts))


# one use of each outcome: (kind, expression)
MIX = [("kept", "torch.abs(a)"), ("kept", "torch.float32"), ("kept", "torch.rand(2, layout=b)"), ("kept", "nn.ReLU()"), ("kept", "a.abs()"), ("kept", "torch.Tensor.abs"),
       ("kept", "torch.zeros_like(a, memory_format=b)"), ("conv", "nn.Linear(1, 2)"), ("conv", "torch.is_nonzero(a)"), ("conv", "torch.slogdet(a)"), ("kept", "a.swapaxes(0, 1)"), ("conv", "a.is_nonzero()"), ("kept", "torch.Size"),
       ("bad", "torch.zzz_unknown(a)"), ("bad", "nn.ZzzUnknown"), ("bad", "torch.Size.zzz_unknown(a)"), ("bad", "torch.abs_zzz(a)"), ("bad", "a.sparse_resize_(b)"), ("other", "foo(a)"), ("other", "'torch.abs'")]


class C17(core.Check):
    id = "C17"
    rule = ("exhaustive: every entry of the API, attribute and alias tables x call shapes, as call and as value, x import spellings; every syntax context x uses of every outcome; all pairs (thorough: triples) of uses of every outcome on one line and one nested in the other; imports in every kind of block. "
            "Oracle: statements of an aligned use are the source's own (without ignored parameters), all others are those of default mode; recognised imports all stay; marks and failures as in default mode")
    bounds = dict(contexts=len(CONTEXTS), mix=len(MIX))
    assumptions = ["names and attributes that stand for a module (not an API) are outside", "an unsupported name is written with its full path, in min mode as in default mode"]

    def cases(self, tier):
        deep = tier == "thorough"
        T = gram.tables()
        for api in list(T["api"]) + list(T["attr"]) + [a for a in T["alias"] if a not in T["api"]]:
            if not all(x.isidentifier() for x in api.split(".")) or api.split(".")[0] not in spec.PACKAGES:
                continue
            cls = api.startswith(gram.CLASS_PREFIX[1:])
            row = T["api"].get(T["alias"].get(api, api), {})
            sh = univ.shapes(row)
            if not deep:
                sh = (sh[:2] + sh[-6:]) if len(sh) > 8 else sh
            if row.get("Matcher") == "ChangePrefixMatcher":
                sh = sh + ["p0, %s=q" % k for k in IGNORED] + ["p0, dtype=q, layout=q, out=r", "*p0, **kw"]
            c = "mm." + api.rsplit(".", 1)[1] if cls else gram.callee(api)
            imp = gram.import_for(api)
            attr = api in T["attr"] or lookup(api) is T["attr"].get(T["alias"].get(api))
            if cls and sum(p + api.rsplit(".", 1)[1] in T["api"] for p in gram.CLASS_PREFIX) > 1:
                continue                   # the method name does not tell the class
            for s in dict.fromkeys(sh) if not attr else ():
                yield ["row", api, imp, "zv = %s(%s)" % (c, s)]
            yield ["row", api, imp, "zv = %s" % c]
            if gram.is_method(api) or cls:
                continue
            for sp, im, ref in spellings(api, False):
                if "\n" in im or "zlib" in im:
                    continue
                for u in ("zv = @(p0)" if not attr else "zv = @", "zv = foo(@)", "def zf(p: @ = @) -> @:\n    return @", "zv = isinstance(zx, (@, int))", "class ZC(@):\n    zz = @"):
                    if u.startswith(("def", "class")) and not deep and not aligned(api) and not any(api == r[1] for r in univ.REPS):
                        continue
                    yield ["row", api, im + "\n", u.replace("@", ref)]
        for n, t, o in CONTEXTS:
            for kind, e in MIX:
                if n == "attr_chain" and not e.endswith(")"):
                    continue               # a further attribute of a name is another API
                yield ["ctx", n, kind, e]
        uses = [i for i in range(len(MIX))]
        for r in (2, 3) if deep else (2,):
            for c in itertools.product(uses, repeat=r):
                yield ["mix", list(c), "line"]
                yield ["mix", list(c), "lines"]
        for a, b in itertools.product([i for i in uses if MIX[i][1].endswith("(a)") or MIX[i][1].endswith("abs()")], uses):
            if MIX[a][1] != "torch.is_nonzero(a)" or MIX[b][1].endswith(")"):
                yield ["nest", a, b]
        # wide import lists: every width x kind of the used name x its place in the list
        names = ["abs", "add", "sin", "cos", "tan", "exp", "log", "sqrt", "ceil", "floor", "zeros", "ones", "eye", "full", "arange", "cat", "stack", "matmul"]
        for w in range(1, len(names) + 1):
            for api in ("abs", "is_nonzero", "zzz_unknown"):
                for at in sorted({0, w // 2, w - 1}):
                    ns = [n for n in names if n != api][:w - 1]
                    ns.insert(at, api)
                    for how in ("from torch import " + ", ".join(ns), "from torch import (\n    " + ",\n    ".join(ns) + ",\n)"):
                        yield ["row", "torch." + api, how + "\n", "zv = %s(p0)" % api]
        for w in WRAP:
            if w == "late":
                continue                   # used above its import: never resolved
            for api in ("torch.abs", "torch.nn.ReLU", "torch.nn.Conv2d", "torch.zzz_unknown", "torchvision.transforms.Compose", "torch.slogdet", "torch.float32", "torch.nn.functional.relu"):
                for sp, im, ref in spellings(api, True):
                    if "zfoo" not in im:
                        yield ["wrap", w, api, im, ref]

    def both(self, code):
        a = ctx.convert_dir(code, "min")
        b = ctx.convert_dir(code, "default")
        return a, b

    def run(self, case):
        kind = case[0]
        if kind == "row":
            return self.single(case[2], case[3], aligned(case[1]), "%s|%s" % (case[2].strip(), case[3]))
        if kind == "wrap":
            from .c09 import C09
            use = "zv = %s(q0)" % case[4] if not case[2].endswith("float32") else "zv = foo(%s)" % case[4]
            return self.single("", C09.build(C09(), case[1], case[3], use), aligned(case[2]), "wrap|%s|%s" % (case[1], case[3]))
        if kind == "ctx":
            imp = "import torch\nimport torch.nn as nn\n"
            code = fill(gram.CTX[case[1]][0], case[3]) + "\n"
            if core.compiles(imp + code):
                return Result(n=0, skip=True)
            return self.single(imp, code, case[2] in ("kept", "other"), "ctx|%s|%s" % (case[1], case[3]))
        imp = "import torch\nimport torch.nn as nn\n"
        if kind == "nest":
            a, b = MIX[case[1]], MIX[case[2]]
            if a[0] != "kept" and b[0] != "kept":
                return Result(n=0, skip=True)
            code = "zv = " + (a[1].replace("(a)", "(%s)" % b[1]) if a[1].endswith("(a)") else "foo(%s).abs()" % b[1]) + "\n"
            use = [a, b]
        else:
            use = [MIX[i] for i in case[1]]
            code = "zv = (" + ", ".join(u[1] for u in use) + ")\n" if case[2] == "line" else "".join("zv%d = %s\n" % (i, u[1]) for i, u in enumerate(use))
        return self.mixed(imp, code, use, kind + "|" + code.strip())

    def check_imports(self, imp, code, got, key, v):
        want = flat(n for n in ast.walk(ast.parse(imp + code)) if isinstance(n, (ast.Import, ast.ImportFrom)))
        have = flat(n for n in ast.walk(ast.parse(core.strip_marks(got))) if isinstance(n, (ast.Import, ast.ImportFrom)))
        want = {w for w in want if not (w[1] or "").split(".")[0] in spec.MAYBE}
        if not want <= have:
            v.append((key + "|imports", "min mode drops imports %s of\n%s\n---\n%s" % (sorted(want - have, key=str), imp + code, got)))

    def single(self, imp, code, kept, key):
        code = code if code.endswith("\n") else code + "\n"
        if core.compiles(imp + code):
            return Result(n=0, skip=True)
        a, b = self.both(imp + code)
        v = []
        if a[4] or b[4]:
            if a[4] != b[4]:
                v.append((key + "|exception", "%s: %s / %s" % (imp + code, a[4], b[4])))
            return Result(v, "exception", 2)
        self.check_imports(imp, code, a[0], key, v)
        if kept:
            src = imp + code
            want = keep(split(src)[1])
            got = split(a[0])[1]
            if dumps(want) != dumps(got):
                v.append((key + "|changed", "min mode changes an aligned use:\n%s\n---\n%s" % (src, a[0])))
            if a[3] or core.marked_lines(a[0]):
                v.append((key + "|failed", "min mode marks or counts as failed (%s) an aligned use:\n%s\n---\n%s" % (a[3], src, a[0])))
        else:
            x = [s for s in split(a[0])[1]]
            y = [s for s in split(b[0])[1]]
            if self.strip_imports(x) != self.strip_imports(y):
                v.append((key + "|differs", "min mode converts\n%s\nto\n%s\n--- default mode to\n%s" % (imp + code, a[0], b[0])))
            ma, mb = self.marks(a[0]), self.marks(b[0])
            if ma != mb or a[3] != b[3] or a[1] != b[1]:
                v.append((key + "|marks", "marks %s / %s, failed %s / %s of\n%s\nin min / default mode:\n%s\n---\n%s" % (ma, mb, a[3], b[3], imp + code, a[0], b[0])))
        return Result(v, a[0], 2)

    def strip_imports(self, stmts):
        class X(ast.NodeTransformer):
            def visit_Import(self, n):
                return None
            visit_ImportFrom = visit_Import
        out = []
        for s in stmts:
            s = X().visit(s)
            if s is not None:
                out.append(s)
        for s in out:
            for n in ast.walk(s):
                for f, val in ast.iter_fields(n):
                    if isinstance(val, list) and (not val or isinstance(val[0], ast.stmt)) and f in ("body", "orelse", "finalbody"):
                        val[:] = [y for y in val if not isinstance(y, ast.Pass)]
        return dumps(out)

    def marks(self, text):
        return sorted(l[6:].strip() for l in text.split("\n") if l.startswith(core.MARK))

    def mixed(self, imp, code, use, key):
        a, b = self.both(imp + code)
        v = []
        if a[4] or b[4]:
            return Result([(key + "|exception", "%s: %s / %s" % (imp + code, a[4], b[4]))], "exception", 2)
        self.check_imports(imp, code, a[0], key, v)
        bad = sum(u[0] == "bad" for u in use)
        if a[3] != b[3]:
            v.append((key + "|failed", "failed %s / %s of\n%s\nin min / default mode:\n%s\n---\n%s" % (a[3], b[3], imp + code, a[0], b[0])))
        # kept names read back to their default-mode form give the default-mode program
        if bool(core.marked_lines(a[0])) != bool(bad) or len(core.marked_lines(a[0])) != len(core.marked_lines(b[0])):
            v.append((key + "|marks", "marks of\n%s\nin min / default mode:\n%s\n---\n%s" % (imp + code, a[0], b[0])))
        x = ctx.norm_names("\n".join(core.dump(s) for s in split(a[0])[1]))
        y = split(b[0])[1]
        want = self.expected(code, use, b[0])
        if want is not None and x != want:
            v.append((key + "|differs", "min mode converts\n%s\nto\n%s\n--- default mode to\n%s" % (imp + code, a[0], b[0])))
        return Result(v, a[0], 2)

    def expected(self, code, use, default):
        """default-mode program with every aligned use put back as written"""
        back = {}
        for kind, e in use:
            if kind == "kept" and e.startswith(("torch.", "nn.")):
                n = ast.parse(e, mode="eval").body
                f = ast.unparse(n.func if isinstance(n, ast.Call) else n)
                back[f.replace("nn.ReLU", "torch.nn.ReLU").replace("torch.", "paddle.", 1)] = f
        rest = split(default)[1]

        class X(ast.NodeTransformer):
            def visit_Attribute(self, n):
                s = ast.unparse(n)
                if s in back:
                    return ast.parse(back[s], mode="eval").body
                return self.generic_visit(n)
        return ctx.norm_names("\n".join(core.dump(X().visit(s)) for s in rest))


if __name__ == "__main__":
    sys.exit(core.main(C17()))
