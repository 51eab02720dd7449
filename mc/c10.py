"""C10: only the recognised packages, matched by whole name, are rewritten."""
import ast, sys, os, itertools, json
from collections import Counter
from . import core, spec, fs, gram
from .core import Result

BASE = list(spec.PACKAGES) + spec.MAYBE + list(spec.WHOLE)


def near(p):
    return [p, p + ".zsub", p + ".nn.zsub", p + "_x", p + "x", p + "2", "x" + p, "x_" + p, "_" + p, "my." + p, "my." + p + ".z", "zz.yy." + p,
            p + ".zsub." + p, p + "." + p + ".z", p[:-1], p.upper() if p.upper() != p else p.lower(), p + "_x.z", p[0].upper() + p[1:]]


# (name, import statement, the expression the bound name is used in)
FORMS = {
    "imp": lambda n: ("import " + n, n + ".zfn"),
    "imp_root": lambda n: ("import " + n, n.split(".")[0] + ".zfn"),
    "imp_as": lambda n: ("import %s as zb" % n, "zb.zfn"),
    "from": lambda n: ("from %s import zn" % n, "zn"),
    "from_as": lambda n: ("from %s import zn as zb" % n, "zb"),
    "from_many": lambda n: ("from %s import zm, zn as zb, zo" % n, "zb"),
    "from_attr": lambda n: ("from %s import zn" % n, "zn.abs"),
    "imp_abs": lambda n: ("import " + n, n + ".abs"),
    "imp_as_lin": lambda n: ("import %s as zb" % n, "zb.nn.Linear"),
}
REL = {"rel": "from .%s import zn", "rel2": "from ..%s import zn as zb", "reldot": "from . import %s"}
PLACE = {
    "top": "%I\n%U", "func": "def zf():\n    %I\n    %U", "try": "try:\n    %I\nexcept ImportError:\n    zq = 1\n%U",
    "cls": "class ZC:\n    %I\n    def zm(self):\n        %U", "if": "if zq:\n    %I\nelse:\n    zq = 1\n%U",
}
ITEMS = ["torch", "torch.nn as znn", "numpy", "torch_geometric as ztg", "zlocal", "torchvision", "os", "audiotools", "my.torch", "zlocal.torch as zlt", "transformers as zt"]
SIB = [{}, {"datasets.py": "x = 1\n"}, {"datasets": None}, {"datasets/__init__.py": ""}, {"datasets/zsub.py": ""}, {"datasets/zsub/__init__.py": ""},
       {"zdatasets.py": ""}, {"datasets.txt": ""}, {"sub/datasets.py": ""}, {"torch.py": ""}, {"os.py": ""}, {"audiotools.py": ""}, {"torchvision/__init__.py": ""}]
SIB_IMPORTS = [("imp", "datasets"), ("imp_as", "datasets"), ("from", "datasets"), ("from_as", "datasets"), ("from_many", "datasets"), ("imp_as", "datasets.zsub"), ("from", "datasets.zsub"), ("imp", "datasets.zsub"),
               ("imp_as", "torchvision"), ("from", "torchvision"), ("imp_as", "os"), ("from", "os"), ("imp_as", "audiotools"), ("from_as", "audiotools"), ("imp_as", "transformers")]
CLASH = ["from zmod import %C", "import zmod as %C", "from zmod.zsub import zx as %C"]
RECV = ["(a / zsq(q))", "torch.zeros(zsq(1))", "a[zsq(1)]", "(-a[zsq.zc])", "(zsq.zf(1) * a)", "(torch.ones(1) + zsq(1))", "(a == zsq(1))"]
EXCL = ["torch", "torchvision", "transformers", "datasets", "os", "zunknown", "audiotools", "torchaudio"]


class Model:
    """which imports are recognised, and what becomes of them and of the names they bind"""

    def __init__(self, sib=(), excluded=()):
        self.sib, self.excluded = sib, set(excluded)

    def local(self, mod):
        p = mod.replace(".", "/")
        return any(s == p or s == p + ".py" or s.startswith(p + "/") for s in self.sib)

    def kind(self, mod):
        if self.local(mod):
            return "other"
        r = mod.split(".")[0]
        if r in spec.PACKAGES and r not in self.excluded:
            return "torch"
        if r in spec.MAYBE:
            return "maybe"
        return "whole" if r in spec.WHOLE else "other"

    def imports(self, stmt):
        """(kept import statements, packages added, {bound name: full name} of rewritten names, packages that are marked)"""
        n = ast.parse(stmt).body[0]
        kept, added, names, torch = [], set(), {}, set()
        if isinstance(n, ast.Import):
            al = []
            for a in n.names:
                k, r = self.kind(a.name), a.name.split(".")[0]
                if k in ("torch", "maybe"):
                    added.add(spec.PACKAGES[r] if k == "torch" else r)
                    if k == "torch":
                        torch.add(r)
                    if a.asname:
                        names[a.asname] = a.name
                elif k == "whole":
                    w = spec.WHOLE[r]
                    al.append("%s as %s" % (w + a.name[len(r):], a.asname) if a.asname else "%s as %s" % (w, r))
                else:
                    al.append(a.name + (" as " + a.asname if a.asname else ""))
            if al:
                kept.append("import " + ", ".join(al))
        elif n.level:
            kept.append(stmt)
        else:
            k, r = self.kind(n.module), n.module.split(".")[0]
            if k in ("torch", "maybe"):
                added.add(spec.PACKAGES[r] if k == "torch" else r)
                if k == "torch":
                    torch.add(r)
                for a in n.names:
                    names[a.asname or a.name] = n.module + "." + a.name
            elif k == "whole":
                n.module = spec.WHOLE[r] + n.module[len(r):]
                kept.append(ast.unparse(n))
            else:
                kept.append(stmt)
        return kept, added, names, torch


def build(place, stmts, uses):
    out = []
    for l in PLACE[place].split("\n"):
        ind = l[: len(l) - len(l.lstrip())]
        if l.strip() == "%I":
            out += [ind + s for s in stmts]
        elif l.strip() == "%U":
            out += [ind + "zv%d = %s(a)" % (i, u) for i, u in enumerate(uses)]
        else:
            out.append(l)
    return "\n".join(out) + "\n"


class C10(core.Check):
    id = "C10"
    rule = ("exhaustive: every recognised package x 18 near-miss spellings (prefix, suffix, case, inner component) x import forms x place of the import x torch imported besides or not; relative imports; every import statement "
            "naming up to 3 of 11 modules; local modules x import forms; every pair of excluded packages through the command line. Oracle: a reference model of recognition gives the exact import statements, bound names and marks of the output")
    bounds = dict(names=len(BASE) * 18, forms=len(FORMS), per_statement=3, excluded=2)
    assumptions = ["min mode: imports and uses of unrecognised packages only"]

    def cases(self, tier):
        deep = tier == "thorough"
        for p in BASE:
            for n in near(p):
                for f in FORMS:
                    for place in PLACE:
                        if place != "top" and not deep and not (f in ("imp_as", "from") and p in ("torch", "datasets", "os", "torchvision", "audiotools")):
                            continue
                        for extra in (False, True):
                            yield ["one", n, f, place, extra]
        for p in BASE:
            for f in REL:
                for place in PLACE if deep else ("top", "func"):
                    for extra in (False, True):
                        yield ["rel", p, f, place, extra]
        for k in (1, 2, 3):
            for c in itertools.permutations(range(len(ITEMS)), k):
                yield ["mix", list(c), "top"]
                if k < 3 or deep:
                    yield ["mix", list(c), "func"]
        for i in range(len(SIB)):
            for f, n in SIB_IMPORTS:
                for place in ("top", "func", "try"):
                    yield ["sib", i, f, n, place]
        for k in range(0, 3 if not deep else 4):
            for c in itertools.combinations(EXCL, k):
                for sep in (",", ", ") if k > 1 else (",",):
                    for f in ("imp_as", "from", "imp"):
                        yield ["excl", list(c), sep, f]

        # names bound by imports of other packages never hide a use of a recognised package
        T = gram.tables()
        for api in list(T["api"]) + list(T["attr"]):
            parts = api.split(".")
            if not all(x.isidentifier() for x in parts):
                continue
            c = gram.callee(api)
            comps = [x for x in dict.fromkeys(c.split(".")[1:]) if x != c.split(".")[0]]
            for x in comps:
                for s in CLASH if deep or x == comps[-1] else CLASH[:1]:
                    yield ["clash", api, c, s.replace("%C", x), ""]
            if c.split(".")[0] == "a":
                for r in RECV:
                    yield ["clash", api, c, CLASH[0].replace("%C", "zsq"), r]

    def clash(self, case):
        _, api, c, stmt, recv = case
        if recv:
            c = recv + c[1:]
        row = gram.tables()["api"].get(api)
        args = ""
        if row is not None:
            P, K = gram.params(row)
            P = [x for x in P if not x.startswith("*")]
            args = "(%s)" % ", ".join("q_" + x for x in (P[: max(1, row.get("min_input_args") or 0)] or ["q0"][: 0 if "a" == c.split(".")[0] else 1]))
        use = "zv = %s%s\n" % (c, args)
        head = gram.import_for(api)
        a = core.convert_source(head + use)
        code = head + stmt + "\n" + use
        b = core.convert_source(code)
        key = json.dumps(case)
        if a.error or b.error:
            return Result([] if a.error else [(key + "|exception", "%s\nraises %s" % (code, b.error))], b.error)
        ta, tb = (ast.parse(core.strip_marks(x.text)) for x in (a, b))
        sd = core.dump(ast.parse(stmt).body[0])
        own = [n for n in tb.body if core.dump(n) == sd]
        v = []
        if len(own) != 1:
            v.append((key + "|import", "the import %s does not stand once in\n%s\n->\n%s" % (stmt, code, b.text)))
        tb.body = [n for n in tb.body if n not in own]
        if (core.dump(ta), a.total, a.success, a.failed, len(core.marked_lines(a.text))) != (core.dump(tb), b.total, b.success, b.failed, len(core.marked_lines(b.text))):
            v.append((key + "|use", "the import %s changes the conversion of\n%s\nfrom %s\n%s\nto %s\n%s" % (stmt, use, (a.total, a.success, a.failed), a.text, (b.total, b.success, b.failed), b.text)))
        return Result(v, b.text)

    def run(self, case):
        kind = case[0]
        if kind == "clash":
            return self.clash(case)
        sib, excl, uses = {}, [], []
        if kind in ("one", "rel"):
            _, n, f, place, extra = case
            if kind == "one":
                s, u = FORMS[f](n)
                if not all(x.isidentifier() for x in n.split(".")) or f == "imp_root" and "." not in n:
                    return Result(n=0, skip=True)
            else:
                s = REL[f] % n
                u = {"rel": "zn", "rel2": "zb", "reldot": n + ".abs"}[f]
            if extra and n.split(".")[0] == "torch":
                return Result(n=0, skip=True)
            stmts, uses = [s], [u]
            if extra:
                stmts = ["import torch"] + stmts
                uses = uses + ["torch.zunknown"]
        elif kind == "mix":
            place = case[2]
            stmts = ["import " + ", ".join(ITEMS[i] for i in case[1])]
            uses = [(ITEMS[i].split(" as ")[1] if " as " in ITEMS[i] else ITEMS[i]) + ".zfn" for i in case[1]]
        elif kind == "sib":
            _, i, f, n, place = case
            sib = SIB[i]
            s, u = FORMS[f](n)
            stmts, uses = [s], [u]
            if "torch.py" not in sib:
                stmts, uses = stmts + ["import torch"], uses + ["torch.zunknown"]
        else:
            _, excl, sep, f = case
            place = "top"
            stmts, uses = [], []
            for p in EXCL:
                s, u = FORMS[f](p)
                stmts.append(s.replace("zb", "zb_" + p).replace("zn", "zn_" + p))
                uses.append(u.replace("zb", "zb_" + p).replace("zn", "zn_" + p))
        code = build(place, stmts, uses)
        M = Model(sib, excl)
        r = self.check(case, code, stmts, uses, M, "default", excl, sib)
        if kind in ("one", "rel", "mix") and not r.v:
            ks = [M.imports(s) for s in stmts]
            if not any(k[1] for k in ks) and not any("audiotools" in s for s in stmts):
                o = core.convert_source(code, mode="min", siblings=sib)
                if o.error or core.dump(core.strip_marks(o.text)) != core.dump(code) or core.marked_lines(o.text):
                    r.v.append(("%s|min" % json.dumps(case), "min mode changes an unrecognised import:\n%s\n->\n%s %s" % (code, o.text, o.error)))
        return r

    def convert(self, code, mode, excl, sib):
        if excl == []:
            o = core.convert_source(code, mode=mode, siblings=sib)
            return o.text, o.error
        d = core.fresh_dir()
        core.write_tree(d, dict(sib, **{"m.py": code}))
        os.makedirs(os.path.join(d, "o"))

        def go():
            from paconvert import main as m
            sys.argv = ["paconvert", "-i", os.path.join(d, "m.py"), "-o", os.path.join(d, "o", "m.py"), "--exclude_packages", excl, "--no_format", "--log_dir", "disable", "-m", mode]
            m.main()
            return 0
        st = fs.in_child(go)
        if st:
            return None, "exit status %d" % st
        with open(os.path.join(d, "o", "m.py"), encoding="utf-8") as f:
            return f.read(), None

    def check(self, case, code, stmts, uses, M, mode, excl, sib):
        key = json.dumps(case)
        want_imp, added, names, torch = Counter(), set(), {}, set()
        for s in stmts:
            k, a, nm, t = M.imports(s)
            want_imp.update(core.dump(x) for x in k)
            added |= a
            torch |= t
            names.update(nm)
        want_imp.update(core.dump("import " + a) for a in added)
        text, err = self.convert(code, mode, case[2].join(excl) if excl else [], sib)
        if err:
            return Result([(key + "|exception", "%s\nraises %s" % (code, err))], err)
        tree = ast.parse(core.strip_marks(text))
        got_imp = Counter(core.dump(ast.Module([n], [])) for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)))
        v = []
        if got_imp != want_imp:
            v.append((key + "|imports", "imports expected %s more, %s less in\n%s\n->\n%s" % (sorted(want_imp - got_imp), sorted(got_imp - want_imp), code, text)))
        marked = set(core.marked_lines(text))
        got = {n.targets[0].id: n for n in ast.walk(tree) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
        for i, u in enumerate(uses):
            p = u.split(".")
            full = ".".join([names.get(p[0], p[0])] + p[1:])
            root = full.split(".")[0]
            owned = root in torch and (p[0] in names or root == p[0])
            if owned and full.endswith((".abs", ".Linear")):
                continue                # a converted API; other checks decide what it becomes
            n = got.get("zv%d" % i)
            if n is None or core.dump(n.value) != core.dump(ast.parse(full + "(a)").body[0].value):
                v.append((key + "|use", "use %s should be %s(a) in\n%s\n->\n%s" % (u, full, code, text)))
            elif (n.lineno - 1 in marked) != owned:
                v.append((key + "|mark", "the line of %s should%s be marked in\n%s\n->\n%s" % (u, "" if owned else " not", code, text)))
        return Result(v, text)


if __name__ == "__main__":
    sys.exit(core.main(C10()))
