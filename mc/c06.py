"""C06: the summary counts every use exactly once."""
import ast, os, re, itertools, shutil
from . import core, univ, gram, spec
from .core import Result

# statement, number of PyTorch API uses, how many of them the tool can convert
ITEMS = [
    ("torch.add(a, b)", 1, 1), ("v = torch.float32", 1, 1), ("a.add(b)", 1, 1), ("v = torch.slogdet(a)", 1, 1), ("v = a.max()", 1, 1),
    ("a.is_shared()", 1, 0), ("torch.zzz_unknown(a)", 1, 0), ("v = torch.zzz_attr", 1, 0), ("torch.celu(a, **kw)", 1, 0), ("torch.add(a, b, zzz_bad=1)", 1, None),
    ("torch.add(torch.abs(a), torch.mul(b, a))", 3, 3), ("v = torch.abs(a).add(b)", 2, 2), ("torch.add(torch.zzz_unknown(a), b)", 2, 1),
    ("torch.zzz_unknown(torch.add(a, b), torch.zzz_attr)", 3, 1), ("a.is_shared(torch.abs(b))", 2, 1),
    ("foo(a)", 0, 0), ("v = 'torch.add(a, b)'", 0, 0), ("v = a.zz.add(b)", 0, 0), ("v = a.heaviside(zzz_bad=1)", 0, 0),
    ("import torch.nn as nn\nv = nn.Linear(a, b)", 1, 1), ("from torch import relu\nv = relu(a)", 1, 1),
    ("class M(torch.nn.Module):\n    def forward(self, x: torch.Tensor) -> torch.Tensor:\n        return torch.relu(x)", 4, 4),
    ("v = torch.abs(a); w = torch.abs(a); u = torch.zzz_unknown(a)", 3, 2), ("v = [torch.abs(i) for i in w]", 1, 1), ("import torchvision\nv = torchvision.zzz(torchvision.zzz(a))", 2, 0),
    ("try:\n    v = torch.abs(a)\nexcept E:\n    torch.zzz_unknown(a)", 2, 1), ("v = lambda: torch.slogdet(a)", 1, 0), ("with torch.no_grad():\n    a.is_shared()", 2, 1),
    ("v = torch.Tensor(2, 3).add(torch.float32)", 3, 3), ("v = a.data", 1, 1), ("v = torch.nn.Module", 1, 1),
]
SMALL = [0, 2, 3, 5, 6, 7, 12, 15, 18, 21]


def summary(text):
    r = {}
    m = re.search(r"There are (\d+) Pytorch APIs in this Project", text); r["total"] = m and int(m[1])
    m = re.search(r"(\d+)\s+Pytorch APIs have been converted", text); r["success"] = m and int(m[1])
    m = re.search(r"(\d+)\s+Pytorch APIs are not supported", text); r["failed"] = m and int(m[1])
    m = re.search(r"Convert Rate is: ([\d.]+)%", text); r["rate"] = m and m[1]
    for name, title in (("all", "ALL API List:"), ("unsup", "Not Support API List:")):
        i = text.find(title)
        n = 0
        if i >= 0:
            for l in text[i:].split("\n")[2:]:
                if l.startswith("===") or l.startswith("Convert Summary"):
                    break
                m = re.match(r"[\w.*]+\s.*?(\d+)\s*$", l)
                if m and re.match(r"^(\*|torch|transformers|[A-Za-z_]\w*)\.[\w.]+\s{2,}", l):
                    n += int(m[1])
        r[name] = n
    return r


class C06(core.Check):
    id = "C06"
    rule = ("exhaustive: all sequences of statements (hand-counted uses of every outcome class) up to the bound in one file, every split of a pair/triple over the files of a project "
            "in directory mode, contexts x hand-counted uses, every table row x call shape. Oracle: the hand counts (sums), the text of the log summary (totals, rate, all-API and "
            "not-supported lists), marks in the file")
    bounds = dict(items=len(ITEMS), sequence="2 (quick) / 3 (thorough)", files="1..3")
    assumptions = ["default mode"]
    chunk = 60

    def setup(self):
        import pandas          # no Excel writer is installed here: the table files are replaced by a stand-in
        pandas.DataFrame.to_excel = lambda self, path, **k: None

    def cases(self, tier):
        n = len(ITEMS)
        for k in (1, 2) + ((3,) if tier == "thorough" else ()):
            for s in itertools.product(range(n), repeat=k):
                yield ["one", s]
        if tier != "thorough":
            for s in itertools.product(SMALL, repeat=3):
                yield ["one", s]
        for s in itertools.product(range(n), repeat=2):
            yield ["dir", [[s[0]], [s[1]]]]
        for s in itertools.product(SMALL, repeat=3):
            yield ["dir", [[s[0], s[1]], [s[2]]]]
            yield ["dir", [[s[0]], [], [s[1]], [s[2]]]]
        for n_, t, once in gram.CONTEXTS:
            for u in gram.USES:
                if u[2] is not None and not (gram.H + "." in t and u[0] in gram.ATTR_USES):
                    yield ["ctx", n_, u[0]]
        for tag, code in univ.rows(tier):
            yield ["row", tag, code]

    def log_run(self, tree):
        d = core.fresh_dir()
        core.write_tree(os.path.join(d, "in"), tree)
        cwd = os.getcwd()
        Converter = core.import_paconvert()
        try:
            os.chdir(d)
            c = Converter(log_dir=os.path.join(d, "log.txt"), show_all_api=True, show_unsupport_api=True, no_format=True)
            src = os.path.join(d, "in")
            if list(tree) == ["m.py"]:
                src = os.path.join(src, "m.py")
            s, f = c.run(src, os.path.join(d, "out") if src.endswith("in") else os.path.join(d, "out.py"))
            with open(os.path.join(d, "log.txt"), encoding="utf-8") as fh:
                text = fh.read()
            return s, f, text
        finally:
            os.chdir(cwd)

    def run(self, case):
        kind = case[0]
        if kind in ("one", "dir"):
            files = [case[1]] if kind == "one" else case[1]
            tree = {}
            tot = suc = 0
            exact = True
            for i, f in enumerate(files):
                body = "import torch\n"
                for x in f:
                    st, t, s = ITEMS[x]
                    body += st + "\n"
                    tot += t
                    if s is None:
                        exact = False
                    else:
                        suc += s
                tree["m.py" if kind == "one" else "f%d.py" % i] = body
            try:
                s, f, text = self.log_run(tree)
            except core.CaseTimeout:
                raise
            except BaseException as e:
                return Result([], "C03 " + core.short(e), skip=True)
            r = summary(text)
            v = []
            if s + f != tot:
                v.append(("total", "%d uses, %d + %d reported" % (tot, s, f)))
            elif exact and s != suc:
                v.append(("success", "%d convertible uses, %d reported" % (suc, s)))
            if (r["total"], r["success"], r["failed"]) != (s + f, s, f):
                v.append(("summary", "returned %d/%d, summary says %s" % (s, f, r)))
            rate = "%.2f" % (100.0 * s / (s + f) if s + f else 0.0)
            if r["rate"] != rate:
                v.append(("rate", "rate %s expected %s" % (r["rate"], rate)))
            if r["all"] != s + f:
                v.append(("all-list", "the list of all APIs sums to %d, %d uses reported" % (r["all"], s + f)))
            if r["unsup"] != f:
                v.append(("unsupported-list", "the list of unsupported APIs sums to %d, %d reported" % (r["unsup"], f)))
            return Result([("%s|%s" % (k, "+".join(";".join(ITEMS[x][0] for x in q) for q in files)), m + "\n" + "\n--\n".join(tree.values())) for k, m in v],
                          (s, f, r["all"], r["unsup"]))
        if kind == "ctx":
            u = gram.USE[case[2]]
            t, once = gram.CTX[case[1]]
            code = "import torch\n" + gram.fill(t, u[1]) + "\n"
            tag = "ctx/%s/%s" % (case[1], case[2])
        else:
            tag, code = case[1], case[2]
        if core.compiles(code):
            return Result(n=0, skip=True, obs="invalid input")
        o = core.convert_source(code)
        if o.error:
            return Result([], "C03", skip=True)
        v = []
        if o.success + o.failed != o.total or o.failed < 0:
            v.append(("sum", "%d + %d != %d" % (o.success, o.failed, o.total)))
        if kind == "ctx":
            tot, suc = u[2]
            if u[3] and not once:
                suc = 0                      # needs helper statements that have no place there
            if (o.total, o.success) != (tot, suc):
                v.append(("count", "%d uses, %d convertible; reported %d/%d" % (tot, suc, o.total, o.success)))
        else:
            method = bool(re.search(r"\b(a|mm)\.", code))
            uses = 1
            if tag.startswith("name/") and tag.count("/") > 1:       # every place where the name stands, or a longer one that starts with it
                e = tag.rsplit("/", 1)[1]
                uses = sum(ast.unparse(x) == e for x in ast.walk(ast.parse(code)) if isinstance(x, ast.Attribute))
            if o.total != uses and not (method and o.total <= uses) and not code.startswith(("import os", "import setuptools", "import einops")):
                v.append(("count", "%d uses, %d reported" % (uses, o.total)))
            if bool(o.failed) != bool(core.marked_lines(o.text)):
                v.append(("marks", "%d failed uses, %d marked lines" % (o.failed, len(core.marked_lines(o.text)))))
        return Result([("%s|%s" % (tag, k), "converting\n%s\n%s:\n%s" % (code, m, o.text)) for k, m in v], (o.total, o.success, o.failed, len(core.marked_lines(o.text))))


if __name__ == "__main__":
    import sys
    sys.exit(core.main(C06()))
