"""C20: argument expressions are opaque: a compound argument is converted as the variable in its place would be."""
import ast, copy, sys
from . import core, gram, univ, ctx
from .core import Result

# compound expressions that are no literals; every one has another precedence or printing rule
EXPRS = ["u0 + u1", "u0 or u1", "not u0", "-u0", "u0 ** u1", "u0 if u1 else u2", "lambda u3: u0", "u0 < u1", "foo(u0, k=u1)[0]", "u0.zz", "(u0 := u1)", "[u3 for u3 in u0]",
         "u0[u1:, None]", "await_me(*u0, **u1)", "u0 @ u1", "u0 == u1", "u0 * u1"]
EXPRS += ["foo('{} {0} %s {u0!r} \\\\d \\n\\t')", "foo('two  blanks,   three\\tand a tab ', ' )(.[]{}, ')", "foo(\"it's\", 'a \"b\"', 'c\\nd', b'e', r'\\1')",
          "foo_with_a_long_name(u0_long_argument_name, u1_long_argument_name, zk=u2_long_argument_name, zl=[u0, u1, u2, 'text in a list'], zm={'k': u0, 'l': (u1,)})",
          "foo('a long string that has to be printed somewhere beyond the right margin of the page, so that printers like to break it')"]
# the tool takes these receivers for tensors
RECV = ["u0 + u1", "-u0", "u0 ** u1", "u0 < u1", "foo(u0, k=u1)[0]", "u0 @ u1", "u0 == u1", "u0 * u1", "foo(u0)", "u0[u1:, None]", "foo('{} {0} %s \\\\d \\n')[r'\\1']", "~u0", "u0[0].zf(u1)", "foo(u0).zf(k=u1)[1:]", "foo(u0).zf(u1).zg(u2)", "u0[0].zf(u1).zg()[1].zh(u2)", "foo('two  blanks,   three\\tand a tab').zf('x)  .y')"]
DEEP = ["{u0: u1}", "u0 & u1", "u0 is None", "u0 in u1", "~u0", "lambda: (yield)", "f'{u0}'", "(u3 for u3 in u0)", "u0 << u1", "u0 // u1", "u0 and u1", "{**u0}", "u0[u1][u2]", "u0.zz(u1).zw", "u0 - u1", "f'{u0!r:>{u1}}'"]


class Sub(ast.NodeTransformer):
    def __init__(self, name, expr):
        self.name, self.expr = name, expr

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.expr)
        return n


def subst(text, name, expr):
    t = ast.parse(text)
    e = ast.parse(expr, mode="eval").body
    return ctx.reparse(Sub(name, e).visit(t))


def norm(tree):
    return ctx.norm_names(core.dump(tree))


class C20(core.Check):
    id = "C20"
    chunk = 20
    rule = ("exhaustive: every table row x call shapes (all by position, all by keyword, mandatory ones, each optional one) x each argument (and the receiver of a method) x compound expressions of every precedence class in its place. "
            "Oracle: the conversion of the same call with a variable there, the expression substituted for the variable in the syntax tree")
    bounds = dict(expressions=len(EXPRS), deep=len(DEEP))
    assumptions = ["literals (numbers, strings, None, True, lists, tuples of literals) are outside: rules may look at them"]

    def cases(self, tier):
        T = gram.tables()
        for api, row in T["api"].items():
            if not all(x.isidentifier() for x in api.split(".")):
                continue
            c = gram.callee(api)
            if api.startswith(gram.CLASS_PREFIX[1:]):
                c = "mm." + api.rsplit(".", 1)[1]
            P, K = gram.params(row)
            P = [x for x in P if not x.startswith("*")]
            K = [x for x in K if not x.startswith("*")]
            mn = row.get("min_input_args") or 0
            sh = []
            if P or K:
                sh.append((P, []))
                sh.append(([], P + K))
                sh.append((P[:mn], []))
                for k in P[mn:] + K:
                    sh.append((P[:mn], [k]))
            else:
                sh += [(["p0"], []), (["p0", "p1"], []), (["p0"], ["zk"])]
            seen = set()
            for pos, kw in sh:
                args = ", ".join(["q_" + x for x in pos] + ["%s=q_%s" % (k, k) for k in kw])
                if args in seen:
                    continue
                seen.add(args)
                code = "zv = %s(%s)\n" % (c, args)
                yield [gram.import_for(api), code, ["q_" + x for x in pos + kw], tier]
            root = c.split(".")[0]
            if root in ("a", "mm"):
                yield [gram.import_for(api), "zv = %s(%s)\n" % (c, ", ".join("q_" + x for x in P[:mn])), [root], tier]

    def conv(self, imp, code):
        return ctx.convert_dir(imp + code)

    def groups(self, text):
        """the statements that make up each 'zv.. = ' of the program, generated names normalised; and its imports"""
        out, cur, pre = [], [], set()
        for n in ast.parse(core.strip_marks(text)).body:
            if ctx.is_prelude(n):
                pre.add(core.dump(n))
                continue
            cur.append(n)
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.startswith("zv"):
                n.targets[0].id = "zv"
                out.append(ctx.norm_names("\n".join(core.dump(x) for x in cur)))
                cur = []
        return out, pre, len(cur)

    def run(self, case):
        imp, code, names, tier = case
        base = self.conv(imp, code)
        if base[4]:
            return Result(obs="exception", skip=True)
        bt = core.strip_marks(base[0])
        v, n = [], 1
        last = ast.parse(bt).body[-1]
        bare = isinstance(last, ast.Assign) and isinstance(last.value, ast.Name)
        for name in names:
            exprs = RECV if name in ("a", "mm") else EXPRS + (DEEP if tier == "thorough" else [])
            if "chain_matmul(q_out)" in code:
                continue                   # one matrix only: not a call PyTorch accepts
            if bare:                       # the value itself is the result: simple expressions only
                exprs = [e for e in exprs if not e.startswith(("lambda", "(", "[", "u0 or", "u0 and", "u0 if", "f'", "{"))]
            # all expressions in one program; one by one when something differs
            srcs = [ast.unparse(subst(code, name, e)) for e in exprs]
            wants = [subst(bt, name, e) for e in exprs]
            got = self.conv(imp, "".join(s.replace("zv = ", "zv%d = " % i, 1) + "\n" for i, s in enumerate(srcs)))
            n += 1
            if not got[4]:
                g, pre, rest = self.groups(got[0])
                w = [self.groups(ast.unparse(x)) for x in wants]
                if g == [x[0][0] for x in w if x[0]] and pre == w[0][1] and not rest and got[2] == len(exprs) * base[2] and got[3] == len(exprs) * base[3] and got[1] == base[1] and bool(core.marked_lines(got[0])) == bool(core.marked_lines(base[0])):
                    continue
            bad = 0
            for e, src, want in zip(exprs, srcs, wants):
                src += "\n"
                got = self.conv(imp, src)
                n += 1
                key = "%s|%s|%s" % (code.strip(), name, e)
                if got[4]:
                    v.append((key + "|exception", "%s: %s" % (src, got[4])))
                elif norm(ast.parse(core.strip_marks(got[0]))) != norm(want):
                    v.append((key, "%sbecomes\n%s--- expected\n%s" % (src, got[0], ast.unparse(want))))
                elif bool(core.marked_lines(got[0])) != bool(core.marked_lines(base[0])) or got[1:4] != base[1:4]:
                    v.append((key + "|marks", "%s: marked or counted otherwise than\n%s\n%s\n%s" % (src, code, got, base)))
        return Result(v, base[0], n)


if __name__ == "__main__":
    sys.exit(core.main(C20()))
