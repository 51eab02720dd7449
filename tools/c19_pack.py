"""Build step of C19: keeps the programs that agree in everything their snippet demands, with what agreed.

usage: c19_pack.py OUT.jsonl MISMATCH.jsonl"""
import sys, os, json, gzip, ast
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import diffrun, core

keep, bad = [], []
for l in open(sys.argv[1]):
    r = json.loads(l)
    k = {a: (ast.literal_eval(b) if isinstance(b, str) else b) for a, b in r["k"].items()}
    res = r["res"]
    if all(x[0] == "cmp" for x in res) and len(res) == (3 if "rand" in r["code"] else 1):
        d = 0
        for x in res:
            d |= x[1]
        if not d & diffrun.demanded(k):
            kk = {a: b for a, b in k.items() if a in ("rtol", "atol")}
            keep.append((r["i"], dict(api=r["api"], code=r["code"], names=r["names"], flags=15 & ~d, k=kk, key=r["text"])))
            continue
    bad.append(r)
keep.sort()
os.makedirs(os.path.join(core.VERIF, "corpus"), exist_ok=True)
with open(os.path.join(core.VERIF, "corpus", "c19.jsonl.gz"), "wb") as f:
    with gzip.GzipFile("", "wb", 9, f, mtime=0) as g:
        for _, r in keep:
            g.write((json.dumps(r) + "\n").encode())
with open(sys.argv[2], "w") as f:
    for r in bad:
        f.write(json.dumps(r) + "\n")
print(len(keep), "kept", len(bad), "other")
