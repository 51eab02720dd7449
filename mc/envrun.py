"""Child process of C13: converts every job given on stdin (in the environment it was started with) and prints the results."""
import sys, os, json, io
sys.dont_write_bytecode = True
job = json.load(sys.stdin)
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [job["repo"]] + [p for p in sys.path if p not in ("", here)]
import paconvert, logging
from paconvert.converter import Converter
assert os.path.dirname(os.path.dirname(os.path.abspath(paconvert.__file__))) == os.path.abspath(job["repo"])
res = []
real = os.dup(1)
nul = os.open(os.devnull, os.O_WRONLY)
os.dup2(nul, 1); os.dup2(nul, 2)
for j in job["jobs"]:
    for k in ("in", "out"):        # as a command line argument would arrive
        j[k] = os.fsdecode(j[k].encode("utf-8", "surrogateescape"))
    try:
        c = Converter(**j["opts"])
        s, f = c.run(j["in"], j["out"])
        res.append([s, f, c.torch_api_count])
        del c
    except BaseException as e:
        res.append(["error", type(e).__name__, str(e)[:200]])
    finally:
        logging.disable(logging.NOTSET)
os.write(real, json.dumps(res).encode())
