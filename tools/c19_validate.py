"""Build step of C19 (not run by the check): converts and executes every generated program.

usage: c19_validate.py VAR.jsonl OUT.jsonl      OUT: VAR plus {"text" digest, "res"}"""
import sys, os, json, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, diffrun, c19


def work(span):
    lo, hi = span
    jobs, out = [], []
    for i in range(lo, hi):
        p = P[i]
        t = c19.convert(p["code"])
        if t is None or core.MARK in t:
            out.append((i, None, [["marked" if t else "error", ""]]))
            continue
        jobs.append((i, p, t))
    res = {}
    for rnd in (False, True):
        js = [j for j in jobs if ("rand" in j[1]["code"]) == rnd]
        res.update(diffrun.execute(js, os.path.join(core.scratch_root(), "x%d" % os.getpid()), runs=(1, 2, 3) if rnd else (1,), limit=60))
    for i, p, t in jobs:
        out.append((i, c19.key(t), res[i]))
    core.remove_tree(os.path.join(core.scratch_root(), "x%d" % os.getpid()))
    core.remove_tree(os.path.join(core.scratch_root(), "w%08d" % os.getpid()))
    return out


P = [json.loads(l) for l in open(sys.argv[1])]
core.import_paconvert()
diffrun.load()
core.scratch_root()
spans = [(i, min(i + 40, len(P))) for i in range(0, len(P), 40)]
n = 0
with open(sys.argv[2], "w") as f, mp.get_context("fork").Pool(int(os.environ.get("J", "7")), maxtasksperchild=8) as pool:
    for r in pool.imap_unordered(work, spans):
        for i, k, v in r:
            f.write(json.dumps(dict(P[i], i=i, text=k, res=v)) + "\n")
        n += len(r)
        if n % 4000 < 40:
            print(n, flush=True)
core.remove_tree(core.scratch_root())
