"""C14: earlier conversions do not influence later ones."""
import itertools, json, os, pickle, sys
from . import core, fs, gram, projects, univ
from .core import Result

T = projects.TREES
BAD = dict(T["helpers"], **{"c_bad.py": "import torch\nx = torch.svd(a\n"})
BADENC = dict(T["marks"], **{"c_bad.py": b"import torch\nx = torch.abs(a)\n\xff\xfe\n"})
# name: (tree, input relative to the tree, options, exclude, output shape)
JOBS = {}
for p in T:
    JOBS[p] = (T[p], "", {}, None, "dir")
JOBS.update({
    "helpers_min": (T["helpers"], "", dict(mode="min"), None, "dir"),
    "marks_min": (T["marks"], "", dict(mode="min"), None, "dir"),
    "allpkg_min": (T["allpkg"], "", dict(mode="min"), None, "dir"),
    "helpers_fmt": (T["helpers"], "", dict(no_format=False), None, "dir"),
    "helpers_file": (T["helpers"], "a.py", {}, None, "file"),
    "helpers_file2": (T["helpers"], "b.py", {}, None, "indir"),
    "temps_file": (T["temps"], "a.py", {}, None, "file"),
    "marks_file": (T["marks"], "a.py", {}, None, "file"),
    "locals_file": (T["locals"], "a.py", {}, None, "file"),
    "locals_sub": (T["locals"], "sub", {}, None, "dir"),
    "ext_file": (T["ext"], "a_use.py", {}, None, "file"),
    "setup_file": (T["ext"], "setup.py", {}, None, "file"),
    "ext_noset": (T["ext"], "", {}, "setup", "dir"),
    "helpers_ex": (T["helpers"], "", {}, "a.py,sub", "dir"),
    "complete": (T["allpkg"], "", dict(only_complete=True), None, "dir"),
    "ownutils": (dict(T["helpers"], **{"paddle_utils.py": "x = 1\n"}), "", {}, None, "dir"),
    # failing ones
    "syntax": (BAD, "", {}, None, "dir"),
    "encoding": (BADENC, "", {}, None, "dir"),
    "syntax_file": (BAD, "c_bad.py", {}, None, "file"),
    "missing": (T["plain"], "nowhere", {}, None, "dir"),
    "same": (T["helpers"], "", {}, None, "same"),
    "blocked": (T["helpers"], "", {}, None, "blocked"),
    "badexcl": (T["helpers"], "", {}, "*(", "dir"),
})
CORE = ["allpkg", "helpers", "marks", "temps", "ext", "helpers_min", "helpers_file", "ext_file", "syntax", "blocked"]
FAULTS = ["error", "interrupt"]


def observe(job, d, fault=None, hold=None):
    """run one conversion and return everything a user can see of it"""
    Converter = core.import_paconvert()
    tree, inp, kw, ex, shape = JOBS[job]
    core.write_tree(d + "/in", tree)
    i = os.path.join(d, "in", inp) if inp else d + "/in"
    o = {"dir": d + "/out", "file": d + "/o/res.py", "indir": d + "/out", "same": i, "blocked": d + "/blk/out"}[shape]
    os.makedirs(d + "/o")
    if shape == "indir":
        os.makedirs(o)
    if shape == "blocked":
        core.write_tree(d, {"blk": "a file\n"})
    kw = dict(dict(no_format=True, log_dir=d + "/log"), **kw)
    c = hold() if hold else Converter(**kw)
    if hold is None and fault == "construct":
        return c, i, o, ex, d
    return finish(c, i, o, ex, d, fault)


def finish(c, i, o, ex, d, fault=None):
    res = None
    try:
        if fault:
            with fs.control(d, fault[0], fault[1]):
                res = c.run(i, o, ex)
        else:
            res = c.run(i, o, ex)
        err = None
    except core.CaseTimeout:
        raise
    except BaseException as e:
        err = core.short(e).replace(d, "@")
    rate = c.convert_rate
    api = {k: v["count"] for k, v in c.all_api_map.items()}
    uns = dict(c.unsupport_api_map)
    total = c.torch_api_count, c.success_api_count
    del c
    log = open(d + "/log", encoding="utf-8").read().replace(d, "@") if os.path.exists(d + "/log") else ""
    files = {k: (v.replace(d.encode(), b"@") if isinstance(v, bytes) else v) for k, v in core.read_tree(d).items() if not k.startswith("in") and k != "log"}
    return dict(result=res, error=err, rate=rate, api=api, unsupported=uns, total=total, log=log, files=files)


def isolated(fn):
    """in a process of its own that has not converted anything before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = pickle.dumps(fn())
            os.close(r)
            with os.fdopen(w, "wb") as f:
                f.write(out)
        except BaseException as e:
            sys.stderr.write("child: %r\n" % e)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else dict(error="the process died")


_ref = {}


def ref(job):
    if job not in _ref:
        def go():
            return observe(job, core.fresh_dir() + "/0")
        _ref[job] = isolated(go)
    return _ref[job]


def row_programs(api):
    """programs with one use of the API each: every call shape, and the plain name"""
    row = gram.tables()["api"].get(api) or {}
    c = gram.callee(api) if not api.startswith(gram.CLASS_PREFIX[1:]) else "mm." + api.rsplit(".", 1)[1]
    sh = univ.shapes(row)
    if core.TIER == "quick" and len(sh) > 10:
        sh = sh[:2] + sh[-8:]
    if not row.get("args_list"):
        sh = sh[1:2]
    over = row.get("overload_args_list") or []
    for o in over:
        sh.append("%s=q_%s" % (o, o))
    if over:
        sh.append(", ".join("%s=q_%s" % (o, o) for o in over))
    imp = gram.import_for(api)
    return [imp + "v = %s(%s)\n" % (c, x) for x in dict.fromkeys(sh)] + [imp + "v = %s\n" % c]


def short_result(code):
    o = core.convert_source(code)
    return o.text, o.total, o.success, o.error


NSLICE = 40


class C14(core.Check):
    id = "C14"
    rule = ("exhaustive: every history of conversions of length 2 over all jobs (projects x modes x file/directory x exclusions x failing inputs), of length 3 over the core jobs (thorough: length 3 over all, 4 over the core jobs), "
            "every history whose first conversion is stopped by an I/O error or interrupt at each of its file-system operations, and pairs whose converter objects are created before either runs; every history in a process of its own. "
            "Also for every row of the API and attribute tables: all its call shapes in sequence, forwards and backwards in one process, and after a conversion of every row of the tables, each compared with the same shape in a fresh process. "
            "Oracle: files, counts, rate, API lists, error and log of every conversion equal those of the same conversion as first one in a fresh process")
    bounds = dict(jobs=len(JOBS), core_jobs=len(CORE), length="2 all, 3 core (quick); 3 all, 4 core (thorough)")
    assumptions = ["each conversion uses its own converter object and output location"]
    chunk = 8
    timeout = 600

    def setup(self):
        core.scratch_root()
        for j in JOBS:
            ref(j)

    def cases(self, tier):
        deep = tier == "thorough"
        for k in range(NSLICE):
            yield ["table", k]
        for n in (2, 3) if deep else (2,):
            for h in itertools.product(JOBS, repeat=n):
                yield ["seq", list(h)]
        for h in itertools.product(CORE, repeat=4 if deep else 3):
            yield ["seq", list(h)]
        for a, b in itertools.product(JOBS if deep else CORE, repeat=2):
            yield ["pre", [a, b]]
        for a in CORE if not deep else JOBS:
            if a in ("same", "missing", "badexcl"):
                continue
            for n in range(self.points(a)):
                for k in FAULTS:
                    for b in ("helpers", "ext", "temps", "allpkg") if not deep else JOBS:
                        yield ["fault", [a, b], n, k]

    def points(self, job):
        def go():
            d = core.fresh_dir() + "/0"
            Converter = core.import_paconvert()
            c, i, o, ex, d = observe(job, d, "construct")
            with fs.control(d) as ct:
                try:
                    c.run(i, o, ex)
                except Exception:
                    pass
            return len(ct.points)
        return isolated(go)

    def history(self, case):
        out = []
        root = core.fresh_dir()
        if case[0] == "pre":
            held = [observe(j, "%s/%d" % (root, i), "construct") for i, j in enumerate(case[1])]
            return [finish(*h) for h in held]
        for i, j in enumerate(case[1]):
            d = "%s/%d" % (root, i)
            if case[0] == "fault" and i == 0:
                c, i_, o, ex, d = observe(j, d, "construct")
                finish(c, i_, o, ex, d, (case[2], case[3]))
                out.append(None)
            else:
                out.append(observe(j, d))
        return out

    def table(self, k):
        T = gram.tables()
        every = list(T["api"]) + list(T["attr"])
        mine = every[k::NSLICE]
        v, n = [], 0
        progs = {a: row_programs(a) for a in mine}
        fresh = {p: isolated(lambda: short_result(p)) for a in mine for p in progs[a]}

        def pair(a):
            return [short_result(p) for p in progs[a] + progs[a][::-1]]

        def after():
            for a in every:
                ps = row_programs(a)
                short_result(ps[0])
            return {p: short_result(p) for a in mine for p in progs[a]}
        for a in mine:
            got = isolated(lambda: pair(a))
            n += len(got)
            for p, g in zip(progs[a] + progs[a][::-1], got):
                if g != fresh[p]:
                    v.append(("row|" + a, "after other uses of %s the program %r gives\n%s\n--- instead of\n%s" % (a, p, g, fresh[p])))
                    break
        got = isolated(after)
        n += len(got)
        for p, g in got.items():
            if g != fresh.get(p):
                v.append(("after|" + p, "after a conversion of every row of the tables %r gives\n%s\n--- instead of\n%s" % (p, g, fresh.get(p))))
        return Result(v[:5], sorted(map(str, fresh.values())), n)

    def run(self, case):
        if case[0] == "table":
            return self.table(case[1])
        got = isolated(lambda: self.history(case))
        v = []
        if isinstance(got, dict):
            return Result([("died|%s" % "|".join(case[1]), "history %s: %s" % (case, got))], "died")
        for i, (j, g) in enumerate(zip(case[1], got)):
            if g is not None and g != ref(j):
                bad = [k for k in g if g[k] != ref(j).get(k)]
                what = bad[0]
                a, b = ref(j).get(what), g[what]
                if what == "files":
                    f = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][0]
                    a, b, what = a.get(f), b.get(f), "file " + f
                v.append(("%s|%s" % (what, "|".join(case[1][:i + 1]) + ("" if case[0] == "seq" else "|" + case[0])),
                          "after %s (%s): %s of job %s differs from a fresh process:\n%s\n--- instead of\n%s" % (case[1][:i], case[0:1] + case[2:], what, j, str(b)[:900], str(a)[:900])))
                break
        return Result(v, [g and g["total"] for g in got] + case[:1], len(case[1]))


if __name__ == "__main__":
    sys.exit(core.main(C14()))
