"""C15: interrupted or repeated conversions converge to the fresh result."""
import itertools, os, re, sys
from . import core, fs, projects
from .core import Result
from .c14 import isolated

T = projects.TREES
H, H2 = projects.HELPERS, projects.HELPERS2
SMALL = {"a.py": "import torch\nx = a.max()\ny = torch.foo(x)\n", "b.py": "import torch\nx = a.min()\n", "d.txt": "torch\n", "sub/requirements.txt": "torch\n", "sub/c.py": "import torch\nz = torch.svd(a)\n"}
V = dict(SMALL)


def ed(**kw):
    return dict(SMALL, **{k.replace("_", "."): v for k, v in kw.items()})


# name: list of versions of the project
PROJECTS = {p: [T[p]] for p in T}
PROJECTS["small"] = [SMALL, ed(a_py="import torch\nx = torch.abs(a)\n"), ed(b_py="import torch\nx = torch.can_cast(a, b)\n"), ed(a_py=H), ed(a_py="x = 1\n", b_py="x = 2\n"), ed(d_txt="t\n"),
                     ed(a_py="import torch\nx = a.min()\n"), ed(a_py="import torch\nx = a.max()\nx = torch.ones(2, requires_grad=True)\n" * 30), ed(a_py=""),
                     dict(SMALL, **{"d.txt": "hcrot\n", "sub/requirements.txt": "torch\nnumpy==1.0\nscipy\n"})]
OWN = dict(SMALL, **{"paddle_utils.py": "import torch\nx = a.max()\n"})
PROJECTS["own"] = [OWN, dict(OWN, **{"paddle_utils.py": "x = 1\n"})]
FILES = ["import torch\nx = a.max()\n", "import torch\nx = a.min()\ny = torch.foo(x)\n", H, "import torch\nx = torch.abs(a)\n", "x = 1\n", "", "'doc'\nfrom __future__ import annotations\nimport torch\nx = a.max()\n",
         "import torch\ndef f(a):\n    return a.split(2), torch.svd(a)\n" + "# long\n" * 200, H2]
PROJECTS["file"] = [{"m.py": t} for t in FILES]
PROJECTS["filein"] = [{"m.py": t} for t in FILES[:4]]
OPTS = {"nofmt": dict(no_format=True), "fmt": {}, "min": dict(mode="min", no_format=True)}


def norm(tree):
    """the scratch directory differs from process to process (its length does not)"""
    return {k: re.sub(rb"/w\d{8}/", b"/w/", v) if isinstance(v, bytes) else v for k, v in tree.items()}


class C15(core.Check):
    id = "C15"
    rule = ("exhaustive: every project (several versions of its sources) x options x every fate of the first run - complete, killed / failing / interrupted at each of its file-system operations, killed or failing at write cut-offs - then a complete run of the same or another version in a fresh process "
            "(and, after an error, in the same process); all pairs of crash points of two killed runs for the small projects; chains of up to three complete runs over the versions. Oracle: the generated files equal, byte for byte, those of a first run into an empty location")
    bounds = dict(projects=len(PROJECTS), versions=sum(map(len, PROJECTS.values())), options=len(OPTS), crashes="1 anywhere, 2 for the small projects", cuts="0, 1, 1/4, 1/2, 3/4, last byte of the largest file")
    assumptions = ["the file system keeps what was written before the process died", "a file whose source was removed, or a helper module no file needs any more, is not a generated file of the second run and may remain"]
    chunk = 10

    def kind(self, p):
        return "file" if p == "file" else "indir" if p == "filein" else "dir"

    def args(self, p, d):
        k = self.kind(p)
        return (d + "/in/m.py", d + "/o/res.py") if k == "file" else (d + "/in/m.py", d + "/o") if k == "indir" else (d + "/in", d + "/o")

    def put(self, p, v, d):
        core.remove_tree(d + "/in")
        core.write_tree(d + "/in", PROJECTS[p][v])
        for r, _, fs_ in os.walk(d + "/in"):        # the sources are older than any earlier result, as after restoring or checking them out
            for f in fs_:
                os.utime(os.path.join(r, f), (10 ** 9, 10 ** 9))
        if self.kind(p) != "dir":
            os.makedirs(d + "/o", exist_ok=True)

    def convert(self, p, o, d):
        C = core.import_paconvert()
        i, ou = self.args(p, d)
        c = C(log_dir="disable", **OPTS[o])
        r = c.run(i, ou)
        return list(r) + [c.torch_api_count]

    def fresh(self, p, v, o):
        k = (p, v, o)
        if k not in _fresh:
            def go():
                d = core.fresh_dir()
                self.put(p, v, d)
                r = self.convert(p, o, d)
                d2 = core.fresh_dir()
                self.put(p, v, d2)
                with fs.control(d2) as c:
                    self.convert(p, o, d2)
                out = core.read_tree(d2 + "/o")
                return r, norm(out), len(c.points), max([len(x) for x in out.values() if isinstance(x, bytes)] or [0])
            _fresh[k] = isolated(go)
        return _fresh[k]

    def setup(self):
        core.scratch_root()
        for p in PROJECTS:
            for o in OPTS:
                for v in range(len(PROJECTS[p])):
                    self.fresh(p, v, o)

    def cases(self, tier):
        deep = tier == "thorough"
        for p in PROJECTS:
            n = len(PROJECTS[p])
            for o in OPTS:
                for v in itertools.product(range(n), repeat=2):
                    yield ["runs", p, o, list(v)]
                for v in itertools.product(range(n), repeat=3):
                    if o == "nofmt" and (n <= 4 or deep):
                        yield ["runs", p, o, list(v)]
                for v in range(n):
                    N, size = self.fresh(p, v, o)[2:4]
                    others = range(n) if deep else {v, (v + 1) % n, 1 % n}
                    for w in others:
                        for k in range(N):
                            yield ["crash", p, o, [v, w], [["kill", k]]]
                            if o == "nofmt" or deep:
                                yield ["crash", p, o, [v, w], [["error", k]]]
                                yield ["crash", p, o, [v, w], [["interrupt", k]]]
                        for z in sorted({0, 1, size // 4, size // 2, size * 3 // 4, max(size - 1, 0)}):
                            yield ["crash", p, o, [v, w], [["cut", z]]]
                            yield ["crash", p, o, [v, w], [["cutkill", z]]]
                if p in ("small", "file", "filein", "own") and (o == "nofmt" or deep):
                    vs = [(0, 1)] + ([(1, 0), (0, 0)] if deep else [])
                    for v, w in vs:
                        for a in range(self.fresh(p, v, o)[2]):
                            for b in range(self.fresh(p, w, o)[2]):
                                yield ["crash", p, o, [v, w, v], [["kill", a], ["kill", b]]]

    def step(self, p, o, v, d, fate):
        """one run of version v with the given fate, in a process of its own"""
        kind, k = fate

        def go():
            self.put(p, v, d)
            if kind in ("kill", "error", "interrupt"):
                with fs.control(d, k, kind):
                    try:
                        self.convert(p, o, d)
                    except (Exception, KeyboardInterrupt):
                        pass
            else:
                with fs.limit_size(k, kill=kind == "cutkill"):
                    try:
                        self.convert(p, o, d)
                    except Exception:
                        pass
            if len(self.same) and kind in ("error", "interrupt", "cut"):
                self.put(p, self.same[0], d)
                return self.convert(p, o, d)
        self.same = []
        return go

    def run(self, case):
        kind, p, o, vs = case[:4]
        d = core.fresh_dir()
        last = vs[-1]
        r0, out0 = self.fresh(p, last, o)[:2]
        v, n = [], 0
        res = None
        if kind == "runs":
            for i, x in enumerate(vs):
                def go(x=x):
                    self.put(p, x, d)
                    return self.convert(p, o, d)
                res = isolated(go)
                n += 1
            self.judge(case, d, r0, res, out0, v, "fresh process")
            if len(vs) == 2:                                       # both runs in one process
                d = core.fresh_dir()

                def both():
                    r = None
                    for x in vs:
                        self.put(p, x, d)
                        r = self.convert(p, o, d)
                    return r
                res = isolated(both)
                n += 2
                self.judge(case, d, r0, res, out0, v, "same process")
        else:
            for x, fate in zip(vs, case[4]):
                go = self.step(p, o, x, d, fate)
                fs.in_child(go)
                n += 1

            def go():
                self.put(p, last, d)
                return self.convert(p, o, d)
            res = isolated(go)
            n += 1
            self.judge(case, d, r0, res, out0, v, "fresh process")
            if case[4][0][0] in ("error", "interrupt", "cut"):
                d = core.fresh_dir()
                go = self.step(p, o, vs[0], d, case[4][0])
                self.same = [last]
                res = isolated(go)
                n += 2
                self.judge(case, d, r0, res, out0, v, "same process")
        return Result(v, (p, o, res), n)

    def judge(self, case, d, r0, res, out0, v, how):
        p, o, vs = case[1:4]
        fate = case[4] if len(case) > 4 else "complete"
        label = "project %s (%s), versions %s, first runs %s, then a complete run in a %s" % (p, o, vs, fate, how)
        key = "%s|%s|%s|%s|%s" % (p, o, vs, fate, how)
        if res != r0:
            v.append((key, "%s: returned %s instead of %s" % (label, res, r0)))
        got = norm(core.read_tree(d + "/o"))
        for f in sorted(out0):
            if got.get(f, "missing") != out0[f]:
                v.append((key, "%s: %s is\n%s\n--- instead of\n%s" % (label, f, self.text(got.get(f)), self.text(out0[f]))))
                return
        extra = sorted(set(got) - set(out0))
        if len(set(vs)) == 1 and extra:
            v.append((key, "%s: left over: %s" % (label, extra)))

    def text(self, x):
        return x.decode("utf-8", "replace")[:900] if isinstance(x, bytes) else str(x)


_fresh = {}
if __name__ == "__main__":
    sys.exit(core.main(C15()))
