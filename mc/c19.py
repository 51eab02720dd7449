"""C19: converted programs compute what the original computes.

The program space is enumerated once (tools/c19_gen.py) and kept in corpus/c19.jsonl.gz with, for each program, the
digest of the conversion that was executed and found equal to the original (tools/c19_validate.py) and the aspects
(value, shape, dtype, differentiability) that agreed. The check converts every program with the current tree; a
conversion that is the validated one needs no second execution, every other one is executed against the original."""
import ast, gzip, json, os, sys, time
from . import core, ctx, diffrun
from .core import Result

CORPUS = os.path.join(core.VERIF, "corpus", "c19.jsonl.gz")
BITS = {diffrun.VALUE: "value", diffrun.SHAPE: "shape", diffrun.DTYPE: "dtype", diffrun.GRAD: "stop_gradient"}
BUDGET = 600 if core.TIER == "quick" else 10 ** 9


def convert(code, no_format=True):
    o = core.convert_source(code, no_format=no_format)
    return None if o.error else o.text


def key(text):
    try:
        return core.digest(ctx.norm_names(core.dump(text)))
    except SyntaxError:
        return core.digest(text)


class C19(core.Check):
    id = "C19"
    chunk = 150
    timeout = 600
    rule = ("exhaustive: every program of the corpus = recorded snippets of 1600 APIs, each with its call rewritten: by keyword, by position, reversed keywords, literals through variables, one argument "
            "left out, each parameter set to each other value seen for it, values flipped, inside a function, pairs of parameters. Oracle: execution of the original on PyTorch and of the conversion on "
            "Paddle, under three seeds when the program draws random numbers; conversions equal to one already executed are not executed again in quick")
    assumptions = ["programs the installed Paddle 3.3.1 can not run, or computes differently even for the plain call, are outside the corpus",
                   "the two runs are compared on the named result variables of each program"]

    def setup(self):
        diffrun.load()
        with gzip.open(CORPUS, "rt") as f:
            self.progs = [json.loads(l) for l in f]
        self.end = time.time() + BUDGET
        self.bounds = dict(programs=len(self.progs), apis=len({p["api"] for p in self.progs}), seeds=3)

    def cases(self, tier):
        for i, p in enumerate(self.progs):
            yield [p["api"], p["code"], p["names"], p["flags"], p["k"], p["key"], tier]

    def run(self, case):
        api, code, names, flags, k, want, tier = case
        text = convert(code)
        if text is None:
            return Result([("error|" + api, "conversion fails: " + code)], "error")
        if core.MARK in text:
            return Result([("refused|" + api, "a supported call is not converted any more: %s" % code)], "marked")
        d = key(text)
        if d == want and tier == "quick":
            return Result(obs=d)
        if time.time() > self.end:
            return Result(obs="late", skip=True)
        prog = dict(code=code, names=names, k=k)
        sc = os.path.join(core.scratch_root(), "w%08d" % os.getpid(), "x")
        res = []
        for s in (1, 2, 3):
            r = diffrun.execute([(0, prog, text)], sc, runs=(s,), limit=120)[0][0]
            res.append(r)
            if r[0] == "torch" or (r[0] == "cmp" and not r[1] & flags):
                return Result(obs=d, n=1 + len(res))
        r = res[0]
        if r[0] == "cmp":
            what = "/".join(n for b, n in BITS.items() if r[1] & flags & b)
        else:
            what = "%s %s" % (r[0], r[1])
        return Result([("differs|" + api, "the converted program does not compute what the original does (%s)\n--- original\n%s\n--- converted\n%s" % (what, code, text))], d, 4)

    def show(self, case):
        return case[1]


if __name__ == "__main__":
    sys.exit(core.main(C19()))
