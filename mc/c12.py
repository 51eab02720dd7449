"""C12: the spelling of arguments does not change the converted call."""
import ast, sys, itertools, json
from . import core, gram, univ, spec, ctx
from .core import Result

LITS = ("True", "False", "None", "0", "'s'", "(1, 2)")
# the first position of these means dim or other, decided at run time
OVERLOADED = ("torch.Tensor.max", "torch.Tensor.min")


def canon_text(text, params, passthrough):
    t = ctx.strip_notes(ast.parse(core.strip_marks(text)))
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            if passthrough is not None and ast.unparse(n.func) == passthrough:
                n.keywords = [ast.keyword(p, v) for p, v in zip(params, n.args)] + n.keywords
                n.args = n.args[len(params):]
            if all(k.arg for k in n.keywords):
                n.keywords.sort(key=lambda k: k.arg)
    return ctx.norm_names(core.dump(t))


class C12(core.Check):
    id = "C12"
    rule = ("exhaustive: every table row with a parameter list (declarative or custom rule) x every argument set (all prefixes; the mandatory arguments plus every single and pair of optional ones) x values (variables; one argument a literal "
            "of 6 kinds) x every positional/keyword split x keyword orders (given, reversed, rotated; thorough: all orders up to 4 keywords). Oracle: all spellings of one argument set give the same statements, marks and counts")
    bounds = dict(orders="reversed and rotated; thorough all permutations of up to 4", literals=len(LITS))
    assumptions = ["the keyword order of the generated call is not significant", "parameters that take a variable number of positions (*size) are passed by position only", "Tensor.max/min (first position decided at run time) and Tensor.split with a string (str.split) are outside"]
    chunk = 40

    def cases(self, tier):
        deep = tier == "thorough"
        for api, row in gram.tables()["api"].items():
            P, K = gram.params(row)
            if not (P or K) or not row.get("Matcher") or "disable" in row:
                continue
            if api in OVERLOADED:
                continue
            if any(x.startswith("*") for x in P + K) or set(P) & set(K):
                continue
            mn = min(row.get("min_input_args") or 0, len(P))
            sets = [(P[:n], []) for n in range(mn, len(P) + 1)]
            for r in (1, 2):
                for c in itertools.combinations(P[mn:] + K, r):
                    sets.append((P[:mn], list(c)))
            sets.append((P, K))
            seen = []
            for pos, extra in sets:
                names = pos + [x for x in extra if x not in pos]
                if names in seen or not names:
                    continue
                seen.append(names)
                yield [api, len(pos), names, None]
                for i in range(len(names)):
                    if deep or (i == len(names) - 1 and len(extra) < 2):
                        for l in LITS:
                            if l == "'s'" and api == "torch.Tensor.split":      # str.split
                                continue
                            if l != "None" or names[i] not in (row.get("unsupport_args") or []):
                                yield [api, len(pos), names, [i, l]]

    def spellings(self, npos, names, val):
        seen = set()
        for j in range(npos, -1, -1):
            kws = names[j:]
            orders = [kws, kws[::-1]]
            if len(kws) > 2:
                orders += [kws[1:] + kws[:1], kws[-1:] + kws[:-1]]
            if core.TIER == "thorough" and len(kws) <= 4:
                orders += list(itertools.permutations(kws))
            for o in orders:
                s = ", ".join([val[x] for x in names[:j]] + ["%s=%s" % (k, val[k]) for k in o])
                if s not in seen:
                    seen.add(s)
                    yield j, s

    def run(self, case):
        api, npos, names, lit = case
        val = {x: "q_" + x for x in names}
        if lit:
            val[names[lit[0]]] = lit[1]
        c = gram.callee(api) if not api.startswith(gram.CLASS_PREFIX[1:]) else "mm." + api.rsplit(".", 1)[1]
        imp = gram.import_for(api)
        outs, first, n = [], None, 0
        passthrough = None
        for j, s in self.spellings(npos, names, val):
            o = core.convert_source(imp + "zv = %s(%s)\n" % (c, s))
            n += 1
            if o.error:
                return Result([("%s|%s|exception" % (api, s), "%s(%s) raises %s" % (c, s, o.error))], o.error, n)
            outs.append((j, s, o))
        # a rule that passes the arguments through as they are: recognised on the pure keyword spelling
        s0 = ", ".join("%s=%s" % (k, val[k]) for k in names)
        kwo = next((o for j, s, o in outs if s == s0), None)
        if kwo is not None:
            for m in ast.walk(ast.parse(core.strip_marks(kwo.text))):
                if isinstance(m, ast.Call) and m.keywords and not m.args and [k.arg for k in m.keywords] == [x for x in names if x in [k.arg for k in m.keywords]]:
                    passthrough = ast.unparse(m.func)
        v = []
        ref = None
        for j, s, o in outs:
            if o.failed:
                form = ("unsupported", o.total, o.failed, bool(core.marked_lines(o.text)))
            elif o.total == 0:
                form = ("not an API use",)
            else:
                form = (canon_text(o.text, names[:npos], passthrough), o.total, o.failed, bool(core.marked_lines(o.text)))
            if ref is None:
                ref = (form, s, o)
            elif form != ref[0]:
                v.append(("%s|%s|%s" % (api, ",".join(names), lit), "%s(%s) and %s(%s) convert differently:\n%s\n---\n%s" % (c, ref[1], c, s, ref[2].text, o.text)))
                break
        return Result(v, ref[0], n)


if __name__ == "__main__":
    sys.exit(core.main(C12()))
