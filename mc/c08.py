"""C08: an API use converts the same way wherever it occurs."""
import ast, sys
from . import core, gram, univ, ctx, spec
from .core import Result

PAIR = ["foo(__H__, __G__)", "v = [__H__, __G__]", "v = __H__ + __G__", "v = {__H__: __G__}", "v = __H__ if w else __G__", "v = __H__\nw = __G__", "if __H__:\n    v = __G__", "if obj:\n    v = __H__\nelse:\n    v = __G__",
        "def f(p=__H__):\n    return __G__", "for i in __H__:\n    v = __G__", "with __H__ as w:\n    v = __G__", "try:\n    v = __H__\nexcept E:\n    v = __G__", "v, w = __H__, __G__", "v = f'{__H__} {__G__}'",
        "class C(object):\n    v = __H__\n    def m(self):\n        return __G__", "v = foo(__H__)[__G__]", "if obj:\n    pass\nelif __H__:\n    v = __G__", "match __H__:\n    case 1:\n        v = __G__", "obj[__H__] = __G__", "assert __H__, __G__",
        "try:\n    v = __H__\nfinally:\n    v = __G__", "v = __H__; w = __G__", "def f():\n    v = __H__\n    def g():\n        return __G__\n    return g", "@deco(__H__)\nclass C:\n    v = __G__", "v: foo(__H__) = __G__", "async def f():\n    await foo(__H__)\n    return __G__"]
EXTRA_CTX = [("except_type", "try:\n    pass\nexcept __H__:\n    pass", True), ("deco_arg", "@deco(__H__)\ndef f():\n    pass", True), ("subscript_ann", "v: Optional[__H__] = None", True), ("starred_assign", "v = (*__H__, 1)", True),
             ("await_arg", "async def f():\n    await foo(__H__)", True), ("type_ignore", "v = foo(x)(__H__)(y)", True), ("chained_cmp", "v = w == __H__ is not None", True), ("nested_subs", "v = obj[obj[__H__]]", True), ("slice_all", "v = obj[__H__:__H__]", None),
             ("lambda_in_default", "def f(p=lambda: [__H__]):\n    pass", False), ("call_in_comp_iter2", "v = [i for i in obj for j in foo(__H__)]", False), ("while_body_cond", "while obj:\n    if __H__:\n        break", True), ("ret_tuple", "def f():\n    return __H__, 1", True),
             ("ret_dict", "def f():\n    return {'k': [__H__]}", True), ("global_if_main", "if __name__ == '__main__':\n    v = __H__", True), ("two_defs", "def f():\n    v = 1\ndef g():\n    v = __H__\ndef h():\n    pass", True),
             ("after_nested", "def f():\n    if obj:\n        w = 1\n    for i in obj:\n        w = 2\n    v = __H__\n    return v", True), ("doc_cls", "class C:\n    'doc'\n    x = 1\n    v = __H__", True), ("walrus_comp", "v = [y := __H__, y ** 2]", True),
             ("not_in", "v = w not in foo(__H__)", True), ("neg_pow", "v = (-__H__) ** 2", True), ("attr_assign_self", "class C:\n    def __init__(self):\n        self.zz = __H__", True), ("call_kw_star", "foo(*w, k=__H__, **u)", True), ("tuple_in_for", "for i, j in zip(__H__, w):\n    pass", True),
             ("nested_class_base", "class C:\n    class D(__H__):\n        pass", True), ("aug_item", "obj[0] += __H__", True), ("raise_call", "raise E(f'{__H__}')", True), ("dict_comp_in_call", "foo({i: __H__ for i in w})", False), ("elif_chain", "if obj:\n    pass\nelif w:\n    pass\nelif __H__:\n    pass\nelse:\n    pass", True)]
# wide and deep constructs: the use stands far from the start
_S = "\n".join("w%d = %d" % (i, i) for i in range(14)) + "\n"
WIDE = [("wide_pos", "foo(u1, u2, u3, u4, u5, __H__, u7)", True), ("wide_kw", "foo(k1=1, k2=2, k3=3, k4=4, k5=__H__, k6=6)", True), ("wide_list", "v = [1, 2, 3, 4, 5, 6, 7, 8, __H__, 10]", True),
        ("wide_tuple", "v = (1, 2, 3, 4, 5, __H__)", True), ("wide_dict", "v = {1: 2, 3: 4, 5: 6, 7: 8, 9: __H__, 10: 11}", True), ("wide_key", "v = {1: 2, 3: 4, 5: 6, 7: 8, __H__: 9}", True),
        ("wide_set", "v = {1, 2, 3, 4, __H__}", True), ("wide_defaults", "def f(p=1, q=2, r=3, s=4, t=__H__):\n    pass", True), ("wide_kwdefaults", "def f(*, p=1, q=2, r=3, s=__H__):\n    pass", True),
        ("wide_body", _S + "v = __H__\nw = 1", True), ("wide_fbody", "def f():\n" + "".join("    " + l + "\n" for l in _S.strip().split("\n")) + "    return __H__", True), ("wide_targets", "v = w = u = t = __H__", True),
        ("wide_with", "with u1 as w1, u2 as w2, u3 as w3, __H__ as w4:\n    pass", True), ("wide_bases", "class C(U1, U2, U3, U4, __H__):\n    pass", True), ("wide_sum", "v = u1 + u2 + u3 + u4 + __H__ + u6", True),
        ("wide_handlers", "try:\n    pass\nexcept E1:\n    pass\nexcept E2:\n    pass\nexcept E3:\n    v = __H__", True), ("wide_elif", "if u1:\n    pass\nelif u2:\n    pass\nelif u3:\n    pass\nelif u4:\n    pass\nelif u5:\n    v = __H__", True),
        ("wide_match", "match u1:\n    case 1:\n        pass\n    case 2:\n        pass\n    case 3:\n        pass\n    case 4:\n        v = __H__", True), ("wide_fstr", "v = f'{u1} {u2} {u3} {u4} {__H__} {u6}'", True),
        ("wide_slice", "v = obj[1, 2, 3, 4, __H__]", True), ("wide_ann", "def f(p: u1, q: u2, r: u3, s: u4, t: __H__):\n    pass", True), ("wide_vararg", "def f(p, *q: __H__):\n    pass", True), ("wide_kwarg", "def f(p, **q: __H__):\n    pass", True),
        ("wide_deco", "@d1\n@d2(1)\n@d3\n@d4(__H__)\ndef f():\n    pass", True), ("deep_call", "v = g1(g2(g3(g4(g5(g6(__H__))))))", True), ("deep_list", "v = [[[[[[__H__]]]]]]", True), ("deep_attr", "v = foo(__H__).a1.a2.a3.a4", True),
        ("deep_if", "if u1:\n if u2:\n  if u3:\n   if u4:\n    if u5:\n     v = __H__", True), ("deep_def", "def f1():\n def f2():\n  def f3():\n   def f4():\n    return __H__", True), ("deep_cls", "class C1:\n class C2:\n  class C3:\n   def f(self):\n    v = __H__", True),
        ("deep_mix", "def f():\n for i in u1:\n  while u2:\n   with u3:\n    try:\n     if u4:\n      v = __H__\n    finally:\n     pass", True), ("many_defs", "".join("def f%d():\n    pass\n" % i for i in range(12)) + "def g():\n    return __H__", True),
        ("many_meths", "class C:\n" + "".join("    def f%d(self):\n        pass\n" % i for i in range(12)) + "    def g(self):\n        return __H__", True), ("wide_args2", "foo(u1, u2, u3, *u4, k=1, j=__H__)", True), ("wide_starred", "foo(u1, u2, u3, *__H__)", True),
        ("wide_unpack", "v, w, u, t = u1, u2, u3, __H__", True), ("wide_del", "del u1, u2, u3, obj[__H__]", True), ("wide_names", "foo(a1, a2, a3).bar(b1, b2, b3, __H__)", True), ("wide_sub", "v = obj[1][2][3][4][__H__]", True)]
EXTRA_CTX += WIDE
OUTER = [("torch.add(__Q__, c)", True), ("torch.add(c, __Q__)", True), ("torch.sum(__Q__, dim=c)", True), ("torch.sum(c, dim=__Q__)", True), ("torch.nn.functional.celu(input=__Q__)", True), ("a.add(__Q__)", True), ("__Q__.add(c)", True),
         ("torch.zzz_unknown(__Q__)", True), ("torch.slogdet(__Q__)", True), ("torch.nn.Linear(__Q__, 2, bias=c)", True), ("torch.nn.Sequential(c, __Q__)", True), ("torch.cat([c, __Q__])", True), ("a.is_shared(__Q__)", True)]


def reps():
    for u in gram.USES:
        yield u[0], u[1], "import torch\n"
    for M, api, e in univ.REPS:
        yield e, e, univ.imports_of(e)


class C08(core.Check):
    id = "C08"
    rule = ("exhaustive: one use per rule kind x every one-hole syntax context, pairs of uses in two-hole contexts, uses as arguments of other uses, contexts nested to depth 2 inside every block kind. "
            "Reference: the use is converted alone; its expression is substituted into the context's syntax tree and its helper statements are inserted before the statement holding it. "
            "Oracle: the whole output tree equals that prediction (generated names up to renumbering), same imports, same helper file")
    bounds = dict(contexts=len(gram.CONTEXTS) + len(EXTRA_CTX), uses=len(gram.USES) + len(univ.REPS), pair_contexts=len(PAIR), nesting=2)
    assumptions = ["a use that needs helper statements and stands where it may be evaluated not exactly once (lambda, comprehension, while condition, match guard) is left unconverted"]

    def setup(self):
        core.scratch_root()
        for name, e, imp in reps():
            ctx.standalone(e, imp)

    def contexts(self):
        return gram.CONTEXTS + [c for c in EXTRA_CTX if c[2] is not None]

    def cases(self, tier):
        for n, t, once in self.contexts():
            for name, e, imp in reps():
                if n.startswith(("wide_", "deep_", "many_")) and tier != "thorough" and name not in gram.USE:
                    continue
                if ("__H__." in t or "f'{__H__}'." in t and False) and not e.endswith(")"):
                    continue
                yield ["ctx", n, t, once, e, imp]
        for t in PAIR:
            for a in gram.USES:
                for b in gram.USES:
                    yield ["pair", t, a[1], b[1], "import torch\n"]
        for o, _ in OUTER:
            for name, e, imp in reps():
                if o.startswith("__Q__.") and not e.endswith(")"):
                    continue
                yield ["arg", o, e, imp]
        inner = [c for c in gram.CONTEXTS if tier == "thorough" or c[0] in gram.CORE_CTX]
        for b in univ.BLOCKS:
            for n, t, once in inner:
                for u in ("multi", "unsup_method", "prefix", "helper"):
                    yield ["ctx", b + "/" + n, univ.nest(gram.CTX[b][0], t), once, gram.USE[u][1], "import torch\n"]

    def uses(self, case):
        if case[0] == "ctx":
            return case[2], {"__H__": case[4]}, case[5], case[3]
        if case[0] == "pair":
            return case[1], {"__H__": case[2], "__G__": case[3]}, case[4], True
        return None

    def run(self, case):
        if case[0] == "arg":
            return self.arg(case)
        tmpl, m, imp, once = self.uses(case)
        code = tmpl
        for k, e in m.items():
            code = code.replace(k, "(" + e + ")")
        code = imp + code + "\n"
        if core.compiles(code):
            return Result(n=0, skip=True, obs="invalid input")
        st = {k: ctx.standalone(e, imp) for k, e in m.items()}
        if any(s is None for s in st.values()):
            return Result(skip=True, obs="no standalone form")
        repl, ins, pre, files, mark = {}, {}, set(), [], 0
        left = False
        for i, (k, s) in enumerate(st.items()):
            if s.stmts and not once:
                repl[k], ins[k] = ctx.inner_converted(m[k], imp), []
                pre |= {p for p in s.prelude}
                mark += 1
                left = True
            else:
                repl[k], ins[k] = ctx.rename(s, code, i)
                pre |= s.prelude
                mark += s.marked
        return self.compare(case, code, ctx.substitute(tmpl, repl, ins), pre, mark, [s for s in st.values()], left)

    def arg(self, case):
        _, o, e, imp = case
        so, si = ctx.standalone(o.replace("__Q__", "zq"), imp), ctx.standalone(e, imp)
        if so is None or si is None:
            return Result(skip=True, obs="no standalone form")
        code = imp + "zv = " + o.replace("__Q__", "(" + e + ")") + "\n"
        mod = ast.Module(body=so.helpers + [ast.Assign(targets=[ast.Name("zv", ast.Store())], value=so.expr)], type_ignores=[])
        si_expr, si_help = ctx.rename(si, code, 1)
        names = [n.id for n in ast.walk(mod) if isinstance(n, ast.Name)]
        if names.count("zq") != 1:
            return Result(skip=True, obs="argument used several times")
        ast.fix_missing_locations(mod)
        want = ctx.substitute(ast.unparse(mod), {"zq": si_expr}, {})
        # the helper statements of the argument come first
        notes, stm = list(si_help), want.body
        seen, body = set(), []
        for n in notes + stm:
            k = core.dump(n)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                if k in seen:
                    continue
                seen.add(k)
            body.append(n)
        want.body = body
        return self.compare(case, code, want, so.prelude | si.prelude, so.marked + si.marked, [so, si])

    def compare(self, case, code, want, pre, mark, st, left=False):
        text, h, total, failed, err = ctx.convert_dir(code)
        if err or core.compiles(core.strip_marks(text)):
            return Result([], "C03: " + str(err), skip=True)
        got = ast.parse(core.strip_marks(text))
        v = []
        want = ctx.reparse(want)
        if left:
            want, got = ctx.strip_notes(want), ctx.strip_notes(got)
        a, b = ctx.body_dump(want), ctx.body_dump(got)
        if a != b:
            v.append(("tree", "expected\n%s\n(plus imports)" % ast.unparse(ast.fix_missing_locations(want))))
        elif ctx.prelude(got) - ctx.prelude(ast.parse(code)) - pre or pre - ctx.prelude(got):
            v.append(("imports", "imports differ from the standalone conversions"))
        if bool(mark) != bool(core.marked_lines(text)):
            v.append(("mark", "standalone %d marks" % mark))
        if h is None and any(s.file for s in st) or h is not None and not any(s.file for s in st):
            v.append(("helper", "helper file %s" % ("missing" if h is None else "unexpected")))
        elif h is not None:
            hs = {core.dump(n) for n in ast.parse(h).body}
            ws = set()
            for s in st:
                if s.file:
                    ws |= {core.dump(n) for n in ast.parse(s.file).body}
            if hs != ws:
                v.append(("helper", "helper file differs"))
        tag = "|".join(str(x) for x in case[:2]) + "|" + str(case[2:4] if case[0] != "ctx" else case[4])
        return Result([("%s|%s" % (tag, k), "converting\n%s\ngave\n%s\n%s" % (code, text, m)) for k, m in v], text)


if __name__ == "__main__":
    sys.exit(core.main(C08()))
