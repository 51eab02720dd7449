"""Build step of C19 (not run by the check): enumerates the program space of C19 from recorded test snippets.

usage: c19_gen.py REC.jsonl OUT.jsonl      REC: one {api, code, names, k} per line
Every program is a snippet, or a snippet with one call of its API rewritten:
 kw     every positional argument by keyword        pos    keywords by position
 rev    keywords in reverse order                   var    literal arguments through variables
 drop   one argument left out                       set    one parameter set to another value seen for it
 flip   a bool negated, an int negated, None        fun    the whole program inside a function
 pair   two parameters set (thorough)"""
import sys, os, json, ast, copy, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import gram

T = gram.tables()["api"]
MAXPOOL, MAXPAIR = 6, 6


def literal(n):
    if isinstance(n, ast.Constant):
        return True
    if isinstance(n, ast.UnaryOp):
        return literal(n.operand)
    if isinstance(n, (ast.Tuple, ast.List)):
        return all(map(literal, n.elts))
    if isinstance(n, ast.Attribute):            # torch.float32 and the like
        return isinstance(n.value, ast.Name) and n.value.id == "torch"
    return False


def target(tree, api):
    last = api.rsplit(".", 1)[-1]
    if api.endswith(".__init__"):
        last = api.split(".")[-2]
    r = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name == last:
                r.append(n)
    return r


def row_params(api):
    row = T.get(api) or {}
    P, K = gram.params(row)
    return P, K


def bind(call, P, K):
    """-> ordered [(param or None, node, bykw)] or None when it can not be bound"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if any(p.startswith("*") for p in P):
        return None
    r = []
    for i, a in enumerate(call.args):
        r.append((P[i] if i < len(P) else None, a, False))
    for k in call.keywords:
        r.append((k.arg, k.value, True))
    return r


def edit(code, api, idx, args, kws, pre=()):
    tree = ast.parse(code)
    c = target(tree, api)[idx]
    c.args = [copy.deepcopy(a) for a in args]
    c.keywords = [ast.keyword(k, copy.deepcopy(v)) for k, v in kws]
    if pre:
        # variables go to the top of the module, after the imports
        i = 0
        for i, s in enumerate(tree.body):
            if not isinstance(s, (ast.Import, ast.ImportFrom)):
                break
        tree.body[i:i] = [ast.Assign([ast.Name(n, ast.Store())], copy.deepcopy(v)) for n, v in pre]
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + "\n"


def main(rec, out):
    R = [json.loads(l) for l in open(rec)]
    seen, base = set(), []
    for r in R:
        if not r["names"] or r["expect"] or r["k"].get("unsupport") or r["code"] in seen:
            continue
        if "distributed" in r["code"] or "multiprocessing" in r["code"] or "num_workers" in r["code"]:
            continue
        seen.add(r["code"])
        try:
            ast.parse(r["code"])
        except SyntaxError:
            continue
        base.append(r)
    pool = {}
    for r in base:
        P, K = row_params(r["api"])
        for c in target(ast.parse(r["code"]), r["api"]):
            b = bind(c, P, K)
            for p, v, _ in b or ():
                if p and literal(v):
                    d = pool.setdefault(r["api"], {}).setdefault(p, [])
                    s = ast.unparse(v)
                    if s not in d:
                        d.append(s)
    # every optional parameter also with its neighbours' natural values
    n = 0
    stat = {}
    seen = set()
    f = open(out, "w")

    def put(r, kind, code):
        nonlocal n
        key = ast.unparse(ast.parse(code))
        if key in seen:
            return
        seen.add(key)
        n += 1
        stat[kind] = stat.get(kind, 0) + 1
        k = {x: y for x, y in r["k"].items() if x in ("check_value", "check_shape", "check_dtype", "check_stop_gradient", "rtol", "atol")}
        f.write(json.dumps(dict(api=r["api"], kind=kind, code=code, names=r["names"], k=k)) + "\n")

    for r in base:
        put(r, "base", r["code"])
    for r in base:
        api, code = r["api"], r["code"]
        P, K = row_params(api)
        tree = ast.parse(code)
        if not any(isinstance(s, ast.Global) for s in ast.walk(tree)) and "lambda" not in code:
            body = ast.parse(code).body
            imps = [s for s in body if isinstance(s, (ast.Import, ast.ImportFrom))]
            rest = [s for s in body if not isinstance(s, (ast.Import, ast.ImportFrom))]
            if rest and not any(isinstance(s, (ast.ClassDef, ast.FunctionDef)) for s in rest) and body[:len(imps)] == imps:
                m = ast.Module(imps + [ast.parse("def prog():\n    pass").body[0], ast.parse("(%s,) = prog()" % ", ".join(r["names"])).body[0]], [])
                m.body[-2].body = rest + [ast.parse("return (%s,)" % ", ".join(r["names"])).body[0]]
                put(r, "fun", ast.unparse(ast.fix_missing_locations(m)) + "\n")
        for idx, c in enumerate(target(tree, api)[:2]):
            b = bind(c, P, K)
            if b is None:
                continue
            A = lambda bs: ([v for p, v, k in bs if not k], [(p, v) for p, v, k in bs if k])
            known = all(p for p, _, _ in b)
            if known and P:
                put(r, "kw", edit(code, api, idx, [], [(p, v) for p, v, _ in b]))
                put(r, "kw", edit(code, api, idx, [], [(p, v) for p, v, _ in reversed(b)]))
                byname = {p: v for p, v, _ in b}
                pos = list(itertools.takewhile(lambda p: p in byname, P))
                put(r, "pos", edit(code, api, idx, [byname[p] for p in pos], [(p, v) for p, v in byname.items() if p not in pos]))
            a_, k_ = A(b)
            put(r, "rev", edit(code, api, idx, a_, k_[::-1]))
            pre, nb = [], []
            for i, (p, v, k) in enumerate(b):
                if literal(v):
                    pre.append(("zv%d" % i, v))
                    v = ast.Name("zv%d" % i, ast.Load())
                nb.append((p, v, k))
            if pre:
                put(r, "var", edit(code, api, idx, *A(nb), pre=pre))
                for i in range(len(b)):
                    if literal(b[i][1]):
                        nb = [x if j != i else (x[0], ast.Name("zv", ast.Load()), x[2]) for j, x in enumerate(b)]
                        put(r, "var", edit(code, api, idx, *A(nb), pre=[("zv", b[i][1])]))
            for i in range(len(b)):
                if b[i][2] or i == len(a_) - 1:
                    put(r, "drop", edit(code, api, idx, *A(b[:i] + b[i + 1:])))
            for i, (p, v, k) in enumerate(b):
                for w in flips(v):
                    put(r, "flip", edit(code, api, idx, *A(b[:i] + [(p, w, k)] + b[i + 1:])))
            if known:
                have = {p for p, _, _ in b}
                for p in P + K:
                    if p == "*":
                        continue
                    for w in pool.get(api, {}).get(p, [])[:MAXPOOL]:
                        w = ast.parse(w, mode="eval").body
                        if p in have:
                            put(r, "set", edit(code, api, idx, *A([(q, w if q == p else v, k) for q, v, k in b])))
                        else:
                            put(r, "set", edit(code, api, idx, *A(b + [(p, w, True)])))
    # pairs: mandatory arguments of each snippet with every pair of values of two optional parameters
    done = set()
    for r in base:
        api, code = r["api"], r["code"]
        P, K = row_params(api)
        c = target(ast.parse(code), api)
        if not c:
            continue
        b = bind(c[0], P, K)
        if not b or not all(p for p, _, _ in b):
            continue
        L = [p for p in P + K if p in pool.get(api, {})]
        sig = (api, tuple(sorted(p for p, _, _ in b)))
        if sig in done:
            continue
        done.add(sig)
        for p, q in itertools.combinations(L, 2):
            for x in pool[api][p][:MAXPAIR]:
                for y in pool[api][q][:MAXPAIR]:
                    nb2 = []
                    dd = {p: ast.parse(x, mode="eval").body, q: ast.parse(y, mode="eval").body}
                    for z, v, k in b:
                        nb2.append((z, dd.pop(z) if z in dd else v, k))
                    nb2 += [(z, v, True) for z, v in dd.items()]
                    a_, k_ = [v for _, v, k in nb2 if not k], [(z, v) for z, v, k in nb2 if k]
                    put(r, "pair", edit(code, api, 0, a_, k_))
    print(n, stat)


def flips(v):
    if isinstance(v, ast.Constant):
        if isinstance(v.value, bool):
            return [ast.Constant(not v.value)]
        if isinstance(v.value, int):
            return [ast.UnaryOp(ast.USub(), v)] + ([ast.Constant(0)] if v.value else [ast.Constant(1)])
        if isinstance(v.value, float):
            return [ast.UnaryOp(ast.USub(), v)]
        return []
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
        return [v.operand]
    if isinstance(v, ast.Tuple) and literal(v):
        return [ast.List(v.elts, ast.Load())]
    if isinstance(v, ast.List) and literal(v) and v.elts and all(isinstance(e, ast.Constant) and isinstance(e.value, int) for e in v.elts):
        return [ast.Tuple(v.elts, ast.Load())]
    return []


main(*sys.argv[1:])
