"""C16: converting converted code changes nothing."""
import ast, os, sys
from . import core, univ, pysyn, projects, gram
from .core import Result
from .spec import MAYBE


def pure_paddle(node):
    """calls and names below paddle only: no method of some object"""
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute):
            x = n
            while isinstance(x, ast.Attribute):
                x = x.value
            if not (isinstance(x, ast.Name) and x.id in ("paddle", "os")):
                return False
        if isinstance(n, (ast.Lambda, ast.Starred)):
            return False
    return True


class C16(core.Check):
    id = "C16"
    rule = ("exhaustive: every program of the universe (contexts x uses, contexts x representatives, headers, import placements, statement sequences, nested blocks, every table row x call shape and as value) in file mode, and every project in directory mode, "
            "whose conversion is complete, is converted again (thrice for projects); formatted and unformatted. Also every converted expression made of paddle names only is put into a file that still imports and uses torch. "
            "Oracle: same text (same syntax tree where generated comments get lost), same file set, zero API uses; the paddle expression in the mixed file is unchanged and uncounted")
    bounds = dict(universe="as C03, default mode", rounds="2 (files), 3 (projects)")
    assumptions = ["comments of generated helper code are not preserved by the second conversion (the tool never keeps comments)", "imports of os, setuptools and einops are written anew at the top of the file: compared without them, and the third conversion must change nothing"]

    def cases(self, tier):
        for tag, code in univ.everything(tier):
            yield ["prog", tag, code, True]
            if not tag.startswith(("row/", "name", "nest", "rep")) or tier == "thorough":
                yield ["prog", tag, code, False]
            if tag.startswith(("row/", "name/")):
                yield ["mix", tag, code]
        for p in projects.TREES:
            for nf in (True, False):
                yield ["proj", p, nf]
        for tag, code in univ.rows(tier):
            if tag.startswith("row/") and any(x in tag for x in ("max(", "split(", "float_power", "can_cast", "GRUCell", "LogSoftmax", "cudnn")):
                yield ["dir", tag, code]

    def run(self, case):
        if case[0] == "proj":
            return self.project(case[1], projects.TREES[case[1]], case[2])
        if case[0] == "dir":
            return self.project(case[1], {"m.py": case[2]}, True)
        tag, code = case[1:3]
        nf = case[3] if case[0] == "prog" else True
        if core.compiles(code):
            return Result(n=0, skip=True)
        o = core.convert_source(code, no_format=nf)
        if o.error or o.failed or core.marked_lines(o.text):
            return Result(obs="not complete", skip=True)
        k = "%s|%s" % (case[0] + "/" + tag, "raw" if nf else "fmt")
        if case[0] == "mix":
            return self.mixed(k, o)
        o2 = core.convert_source(o.text, no_format=nf)
        if o2.error:
            return Result([(k + "|exception", "converting the converted program again raises %s:\n%s" % (o2.error, o.text))], n=2)
        v = []
        if o2.total or o2.failed:
            v.append((k + "|count", "the converted program\n%s\nis reported to contain %d API uses" % (o.text, o2.total)))
        if core.marked_lines(o2.text):
            v.append((k + "|mark", "the converted program\n%s\nis marked:\n%s" % (o.text, o2.text)))
        elif self.maybe(o.text):
            a, b = self.rest(o.text), self.rest(o2.text)
            o3 = core.convert_source(o2.text, no_format=nf)
            if a != b or o3.error or core.dump(o3.text) != core.dump(o2.text) or o3.total:
                v.append((k + "|tree", "the converted program\n%s\nconverts to\n%s\nand that to\n%s" % (o.text, o2.text, o3.error or o3.text)))
        elif core.dump(o.text) != core.dump(o2.text):
            v.append((k + "|tree", "the converted program\n%s\nconverts to\n%s" % (o.text, o2.text)))
        elif "#" not in o.text and "with (" not in o.text and o.text != o2.text:
            v.append((k + "|text", "the converted program\n%s\nis reprinted as\n%s" % (o.text, o2.text)))
        return Result(v, o2.text, 2)

    def maybe(self, text):
        """imports a package that can stand for PyTorch or not: its import is written anew at the top"""
        return any((a.name if isinstance(n, ast.Import) else n.module or "").split(".")[0] in MAYBE for n in ast.walk(ast.parse(text)) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names)

    def rest(self, text):
        t = ast.parse(text)
        full = {}
        for n in ast.walk(t):
            if isinstance(n, ast.ImportFrom) and n.module in MAYBE:
                full.update({a.asname or a.name: n.module + "." + a.name for a in n.names})

        class X(ast.NodeTransformer):
            def visit_Import(self, n):
                return None
            visit_ImportFrom = visit_Import

            def visit_Name(self, n):
                return ast.parse(full[n.id], mode="eval").body if n.id in full else n
        return core.dump(X().visit(t))

    def mixed(self, k, o):
        body = ast.parse(o.text).body
        if not body or not isinstance(body[-1], ast.Assign) or not pure_paddle(body[-1].value) or any(not isinstance(s, (ast.Import, ast.ImportFrom)) for s in body[:-1]):
            return Result(obs="not applicable", skip=True)
        if "paddle" not in {n.id for n in ast.walk(body[-1].value) if isinstance(n, ast.Name)}:
            return Result(obs="not applicable", skip=True)
        e = ast.unparse(body[-1].value)
        r, n = Result(obs="", n=1), 1
        for imp in ("import paddle", "import paddle.nn as zpn", ""):
            n += 1
            r = self.mix(k, e, imp)
            if r.v:
                break
        r.n = n
        return r

    def mix(self, k, e, imp):
        code = "import torch\n%s\nu = torch.abs(a)\nv = %s\nw = torch.sin(a)\n" % (imp, e)
        o2 = core.convert_source(code)
        if o2.error:
            return Result([(k + "|exception", "%s raises %s" % (code, o2.error))], n=2)
        t = [s for s in ast.parse(core.strip_marks(o2.text)).body if not isinstance(s, (ast.Import, ast.ImportFrom))]
        want = ast.parse("u = paddle.abs(a)\nv = %s\nw = paddle.sin(a)\n" % e).body
        if [core.dump(x) for x in t] != [core.dump(x) for x in want] or o2.total != 2 or o2.failed or core.marked_lines(o2.text):
            return Result([(k + "|mixed", "in\n%s\nthe Paddle call is treated as PyTorch (total %s, failed %s):\n%s" % (code, o2.total, o2.failed, o2.text))], o2.text, 2)
        return Result(obs=o2.text, n=2)

    def project(self, name, tree, nf):
        C = core.import_paconvert()
        d = core.fresh_dir()
        core.write_tree(d + "/0", tree)
        prev, v, n = None, [], 0
        k = "proj/%s|%s" % (name, nf)
        # the output is put back in the place of the first output, as its path is part of it
        for r in range(3):
            c = C(log_dir="disable", no_format=nf)
            c.run(d + "/%d" % r, d + "/o")
            n += 1
            out = core.read_tree(d + "/o")
            py = {f: x.decode("utf-8") for f, x in out.items() if f.endswith(".py")}
            if r == 0 and (any(core.marked_lines(t) for t in py.values()) or c.torch_api_count != c.success_api_count):
                tree2 = {f: x for f, x in tree.items() if not core.marked_lines(py.get(f, ""))}
                if tree2 and tree2 != tree:
                    return self.project(name + "-", tree2, nf)
                return Result(obs="not complete", skip=True)
            if r:
                if c.torch_api_count:
                    v.append((k + "|count", "round %d: %d API uses in converted code" % (r, c.torch_api_count)))
                if set(out) != set(prev):
                    v.append((k + "|files", "round %d: files %s instead of %s" % (r, sorted(out), sorted(prev))))
                else:
                    for f in out:
                        a, b = prev[f], out[f]
                        if f.endswith(".py"):
                            form = self.rest if r == 1 and self.maybe(a.decode("utf-8")) else core.dump
                            a, b = form(a.decode("utf-8")), form(core.strip_marks(b.decode("utf-8")))
                            if core.marked_lines(py[f]):
                                b = "marked"
                        if a != b:
                            v.append((k + "|" + f, "round %d: %s changes from\n%s\nto\n%s" % (r, f, prev[f], out[f])))
            prev = out
            os.rename(d + "/o", d + "/%d" % (r + 1))
        return Result(v, sorted(prev), n)


if __name__ == "__main__":
    sys.exit(core.main(C16()))
