"""C11: declared mapping rules are applied exactly. An independent reference model of the table format decides every call."""
import ast, sys, itertools, re, json
from . import core, gram, univ, spec, ctx
from .core import Result

CLASSES = {"torch.Tensor.": "paddle.Tensor.", "torch.nn.Module.": "paddle.nn.Module.", "torch.optim.Optimizer.": "paddle.optimizer.Optimizer.",
           "torch.autograd.function.FunctionCtx.": "paddle.autograd.function.FunctionCtx.",
           "torch.distributions.distribution.Distribution.": "paddle.distributions.distribution.Distribution."}
IGNORE_PREFIX = {"layout", "generator", "memory_format", "sparse_grad", "foreach"}
IGNORE_API = {"layout", "generator", "memory_format"}
IGNORE_GENERIC = {"layout", "device", "memory_format", "inplace", "generator", "non_blocking", "async"}
DECL = ("ChangePrefixMatcher", "ChangeAPIMatcher", "GenericMatcher")


LITERALS = ["None", "False", "True", "0", "-1", "1.5", "''", "'mean'", "()", "[]", "(1, 2)", "[q1, 3]", "x if y else z", "lambda u: u", "q1 == q2"]


def receiver(api):
    """(class prefix or None, how it is written)"""
    for c in CLASSES:
        if api.startswith(c) and api.count(".") == c.count("."):
            return c
    return None


def prefixed(api):
    r = api.split(".")[0]
    return ".".join(spec.PACKAGES[r] if x == r else x for x in api.split("."))       # torch.torch.x is paddle.paddle.x


def target(api, row, recv):
    """the Paddle callee the table declares"""
    cls = receiver(api)
    if row["Matcher"] == "ChangePrefixMatcher":
        return "%s.%s" % (recv, api.rsplit(".", 1)[1]) if cls else prefixed(api)
    p = row["paddle_api"]
    if cls:
        for c in list(CLASSES.values()) + ["paddle.nn.Layer.", "paddle.distribution.Distribution."]:
            if p.startswith(c):
                return recv + "." + p[len(c):]
    return p


def expected(api, row, recv, pos, kws):
    """statements expected for `zv = <call>`, or 'unsupported' / 'misidentify' / None (outside the model)"""
    m = row.get("Matcher")
    if not m or "disable" in row:
        return "unsupported"
    fn = target(api, row, recv)
    if m in ("ChangePrefixMatcher", "ChangeAPIMatcher"):
        ign = IGNORE_PREFIX if m == "ChangePrefixMatcher" else IGNORE_API
        a = list(pos) + ["%s=%s" % (k, v) if k else "**" + v for k, v in kws if k not in ign]
        return ["zv = %s(%s)" % (fn, ", ".join(a))]
    P, K = gram.params(row)
    over = row.get("overload_args_list") or []
    bad = row.get("unsupport_args") or []
    if set(P) & set(K) or any(x.startswith("*") for x in P + K):
        return None
    if any(p.startswith("*") for p in pos) or any(k is None for k, _ in kws):
        return "unsupported" if all(k is None or k in P + K for k, _ in kws) else None
    none = [k for k, v in kws if k in bad and v == "None"]
    kws = [(k, v) for k, v in kws if k not in none]
    for k, v in kws:
        if k in bad:
            return "unsupported"
        if k not in P + K + over:
            return "misidentify"
    n = len(pos) + sum(k not in K for k, _ in kws)
    if n < (row.get("min_input_args") or 0) or n > len(P):
        return "misidentify"
    if any(k in bad for k in P[:len(pos)]):
        return "unsupported"
    bound = dict(zip(P, pos))
    for k, v in kws:
        if k in bound:
            return None
        bound[k] = v
    ren = row.get("kwargs_change", {})
    new = {}
    for k, v in bound.items():
        if k in ren:
            if ren[k]:
                for x in ren[k] if isinstance(ren[k], list) else [ren[k]]:
                    new[x] = v
        elif k not in IGNORE_GENERIC:
            new[k] = v
    for k, v in (row.get("paddle_default_kwargs") or {}).items():
        new.setdefault(k, str(v))
    take = lambda k: new.pop(k) if k in new and k not in ren.values() else None
    dtype, pin, grad, out = take("dtype"), take("pin_memory"), take("requires_grad"), take("out")
    e = "%s(%s)" % (fn, ", ".join("%s=%s" % kv for kv in new.items()))
    if dtype is not None and dtype != "None":
        e += ".astype(%s)" % dtype
    if pin is not None and pin != "False":
        e += ".pin_memory()"
    out = None if out == "None" else out
    if grad is not None and out is not None:
        return ["paddle.assign(%s, output=%s)" % (e, out), "%s.stop_gradient = not %s" % (out, grad), "zv = " + out]
    if grad is not None:
        return ["out_0 = " + e, "out_0.stop_gradient = not " + grad, "zv = out_0"]
    if out is not None:
        return ["zv = paddle.assign(%s, output=%s)" % (e, out)]
    return ["zv = " + e]


def canon(stmts):
    """keyword order does not matter"""
    t = ast.parse("\n".join(stmts)) if isinstance(stmts, list) else stmts
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            star = []
            for k in n.keywords:
                if k.arg is None:                # f(**{**a, **b}) is f(**a, **b)
                    star += k.value.values if isinstance(k.value, ast.Dict) and not any(k.value.keys) else [k.value]
            n.keywords = sorted([k for k in n.keywords if k.arg], key=lambda k: k.arg) + [ast.keyword(None, x) for x in star]
    return ctx.norm_names(core.dump(t))


def shapes(row, deep):
    """(positional, keywords) pairs"""
    P, K = gram.params(row)
    P = [x for x in P if not x.startswith("*")]
    K = [x for x in K if not x.startswith("*") and x not in P]
    mn = min(row.get("min_input_args") or 0, len(P))
    bad = row.get("unsupport_args") or []
    val = {x: "q_" + x for x in P + K}
    seen, out = set(), []

    def add(pos, kws):
        k = (tuple(pos), tuple(kws))
        if k not in seen:
            seen.add(k)
            out.append([list(pos), [list(x) for x in kws]])
    m = row.get("Matcher")
    if m in ("ChangePrefixMatcher", "ChangeAPIMatcher") or not (P or K):
        for n in range(0, 4):
            add(univ.NAMES[:n], [])
        for n in range(0, 3):
            add(univ.NAMES[:n], [("zk", "q1")])
            add(univ.NAMES[:n], [("zk", "q1"), ("zj", "q2")])
        for v in LITERALS:
            add([v], [("zk", v)])
        add(["*p0"], [])
        add([], [(None, "kw")])
        add(["p0", "*p1"], [("zk", "q1"), (None, "kw")])
        add(["*p0", "*p1"], [(None, "kw1"), (None, "kw2")])
        add([], [(None, "kw1"), ("zk", "q1"), (None, "kw2")] if deep else [("zk", "q1"), (None, "kw")])
        for g in sorted(IGNORE_PREFIX | {"device", "dtype", "out", "requires_grad", "pin_memory", "input", "dim", "inplace", "non_blocking"}):
            add(["p0"], [(g, "q1")])
            add(["p0"], [("zk", "q1"), (g, "q2"), ("zj", "q3")])
        add(["p0"], [(g, "q_" + g) for g in sorted(IGNORE_PREFIX)])
        if m != "GenericMatcher" or not (P or K):
            return out
    for n in range(0, len(P) + 1):
        for j in range(0, n + 1):
            add([val[x] for x in P[:j]], [(x, val[x]) for x in P[j:n]])
    opt = P[mn:] + K
    base = [val[x] for x in P[:mn]]
    bkw = [(x, val[x]) for x in P[:mn]]
    for r in (1, 2) if not deep else (1, 2, 3):
        for c in itertools.combinations(opt, r):
            add(base, [(x, val[x]) for x in c])
            add([], bkw + [(x, val[x]) for x in c])
            add(base, [(x, val[x]) for x in reversed(c)])
    spc = [x for x in P + K if x in ("dtype", "out", "requires_grad", "pin_memory")]
    for r in range(1, len(spc) + 1):
        for c in itertools.combinations(spc, r):
            for vs in itertools.product(("q_v", "None", "False", "True"), repeat=r):
                add(base, [(x, v if v != "q_v" else val[x]) for x, v in zip(c, vs) if x not in P[:mn]])
    for b in bad:
        add(base, [(b, "None")])
        add(base, [(x, val[x]) for x in opt if x not in bad] + [(b, "None")])
        add(base, [(b, "None")] + [(x, val[x]) for x in opt if x != b][:2])
        add(base, [(b, "0")])
    for o in row.get("overload_args_list") or []:
        add(base[:-1], [(o, "q_o")])
        add([], bkw[:-1] + [(o, "q_o")])
    for x in P + K:
        if x in spc or x in bad:
            continue
        for v in LITERALS:
            if x in P[:mn]:
                add([v if y == x else val[y] for y in P[:mn]], [])
                add([], [(y, v if y == x else val[y]) for y in P[:mn]])
            else:
                add(base, [(x, v)])
            if deep:
                add([], [(y, v if y == x else val[y]) for y in P + K if y not in bad])
    add([val[x] for x in P], [(k, val[k]) for k in K])
    add([], [(k, val[k]) for k in P + K])
    add([], [(k, val[k]) for k in reversed(P + K)])
    add([val[x] for x in P] + ["extra"], [])
    add(base, [("zzz_bad", "q1")])
    add([], bkw + [("zzz_bad", "q1")])
    add(["*p0"], [])
    add(base + ["*p0"], [])
    add(base, [(None, "kw")])
    add([], bkw + [(None, "kw")])
    return out


class C11(core.Check):
    id = "C11"
    rule = ("exhaustive: every table row with a declarative rule or without rule, and every alias, x call shapes (every positional/keyword split of every prefix, every pair (thorough: triple) of optional arguments in both orders, "
            "every combination of dtype/out/requires_grad/pin_memory x {variable, None, False, True}, unsupported parameters with None and values, too few/many, unknown keywords, star arguments) and as plain value. "
            "Oracle: an independent reference model of the table format gives the exact statements, or unsupported, or not an API use")
    bounds = dict(optional_subset="2 quick / 3 thorough")
    assumptions = ["keyword order of the generated call is not significant"]

    def cases(self, tier):
        T = gram.tables()
        deep = tier == "thorough"
        todo = [(a, r, "a") for a, r in T["api"].items()] + [(al, T["api"].get(t) or T["attr"].get(t) or {}, "a") for al, t in T["alias"].items()]
        for api, row, recv in todo:
            if row.get("Matcher") and row["Matcher"] not in DECL:
                continue
            if any(not x.isidentifier() for x in api.split(".")) or api.split(".")[0] not in spec.PACKAGES:
                continue
            r = receiver(T["alias"].get(api, api))
            for pos, kws in shapes(row, deep):
                yield [api, recv, pos, kws]
            if r:
                pos, kws = shapes(row, deep)[1]
                for rv in ("self.m", "foo(a)", "a[0]", "(a + b)", "(-a)", "a.b(c)", "(a == b)"):
                    yield [api, rv, pos, kws]
        for t in ("api", "attr", "alias"):
            for api in T[t]:
                if all(x.isidentifier() for x in api.split(".")) and api.split(".")[0] in spec.PACKAGES:
                    yield [api, "value", [], []]
        yield ["torch.zzz_unknown", "a", ["p0"], [["zk", "q"]]]
        yield ["torch.zzz.yyy", "value", [], []]

    def run(self, case):
        api, recv, pos, kws = case
        if recv == "value":
            return self.value(api)
        T = gram.tables()
        api2 = T["alias"].get(api, api)
        row = T["api"].get(api2)
        if row is None:
            row = T["attr"].get(api2)
            if row is None:
                row = {}
            elif api2 in T["attr"]:
                return Result(n=0, skip=True)
        if api2 in gram.tables()["attr"]:
            return Result(n=0, skip=True)
        kws = [tuple(x) for x in kws]
        cls = receiver(api2)
        if cls:
            first = self.first_class(api2)
            if first != api2 or api != api2:
                return Result(n=0, skip=True)       # the same method name is looked up for another class first
            call = "%s.%s" % (recv, api.rsplit(".", 1)[1])
            if recv.startswith("self.") and cls not in ("torch.Tensor.", "torch.nn.Module.", "torch.optim.Optimizer."):
                return Result(n=0, skip=True)
        else:
            call = api
        src = "%s(%s)" % (call, ", ".join(list(pos) + ["%s=%s" % (k, v) if k else "**" + v for k, v in kws]))
        code = "import %s\nzv = %s\n" % (api.split(".")[0], src)
        want = expected(api2, row, recv, pos, kws)
        if want is None:
            return Result(n=0, skip=True)
        o = core.convert_source(code)
        key = "%s|%s" % (api, re.sub(r"\W+", "_", src))
        if o.error:
            return Result([(key + "|exception", "%s\nraises %s" % (code, o.error))], o.error)
        t = ast.parse(core.strip_marks(o.text))
        body = [n for n in t.body if not isinstance(n, (ast.Import, ast.ImportFrom)) and not ctx.is_note(n)]
        helper = row.get("abstract") or row.get("enable_utils_code")
        if helper:
            body = [n for n in body if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) and "setattr" not in ast.dump(n)]
        got = canon(ast.Module(body, []))
        marked = bool(core.marked_lines(o.text))
        notes = any(ctx.is_note(n) for n in t.body)
        if want == "misidentify" and not cls:
            want = "unsupported"
        if want == "unsupported":
            name = api2 if not cls else call
            keep = "zv = " + src if cls else "zv = " + src.replace(api, api, 1)
            ok = canon([keep]) == got or canon(["zv = " + src.replace(api, api2, 1)]) == got
            if not ok or not marked or (o.success, o.failed) != (0, 1) or (cls and not notes):
                return Result([(key + "|unsupported", "%s\nis declared as not supported, but becomes (%s ok, %s failed)\n%s" % (code, o.success, o.failed, o.text))], o.text)
        elif want == "misidentify":
            if canon(["zv = " + src]) != got or marked or (o.success, o.failed) != (0, 0):
                return Result([(key + "|misidentify", "%s\nis not a use of the API, but becomes (%s ok, %s failed)\n%s" % (code, o.success, o.failed, o.text))], o.text)
        else:
            if canon(want) != got or marked or (o.success, o.failed) != (1, 0):
                return Result([(key + "|call", "%s\nshould become\n%s\nbut becomes (%s ok, %s failed)\n%s" % (code, "\n".join(want), o.success, o.failed, o.text))], o.text)
        return Result(obs=o.text)

    def first_class(self, api):
        T = gram.tables()
        leaf = api.rsplit(".", 1)[1]
        for c in CLASSES:
            for k in (c + leaf,):
                if k in T["api"] or k in T["alias"]:
                    return k
        return None

    def value(self, api):
        T = gram.tables()
        api2 = T["alias"].get(api, api)
        row = T["attr"].get(api2)
        is_attr = row is not None
        if row is None:
            row = T["api"].get(api2)
        if row is None:
            row = {}
        if row.get("Matcher") and row["Matcher"] not in DECL:
            return Result(n=0, skip=True)
        code = "import %s\nzv = foo(%s)\n" % (api.split(".")[0], api)
        o = core.convert_source(code)
        key = api + "|value"
        if o.error:
            return Result([(key + "|exception", "%s\nraises %s" % (code, o.error))], o.error)
        if row.get("Matcher") and "disable" not in row:
            p = prefixed(api2) if row["Matcher"] == "ChangePrefixMatcher" else row["paddle_api"]
            want, cnt, mk = "zv = foo(%s)" % p, (1, 0), False
        else:
            # an attribute of a class that has a rule: torch.nn.Module.zzz
            par = api2.rpartition(".")[0]
            prow = T["api"].get(T["alias"].get(par, par))
            if prow and prow.get("Matcher") and "disable" not in prow and api2.count(".") >= 2:
                return Result(n=0, skip=True)
            want, cnt, mk = "zv = foo(%s)" % api2, (0, 1), True
        t = ast.parse(core.strip_marks(o.text))
        body = [n for n in t.body if not isinstance(n, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) and not (isinstance(n, ast.Expr))]
        if canon(ast.Module(body, [])) != canon([want]) or bool(core.marked_lines(o.text)) != mk or (o.success, o.failed) != cnt:
            return Result([(key, "%s\nshould become %s (%s ok, %s failed)\nbut becomes (%s ok, %s failed)\n%s" % (code, want, cnt[0], cnt[1], o.success, o.failed, o.text))], o.text)
        return Result(obs=o.text)


if __name__ == "__main__":
    sys.exit(core.main(C11()))
