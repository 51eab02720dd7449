"""Differential execution for C19: a program on PyTorch, its conversion on Paddle, compared value by value.
Runs in forked children with a scratch directory as cwd; a crash or hang of a child is a result too."""
import os, sys, re, io, json, random, select, signal, struct, time, contextlib, traceback, warnings

VALUE, SHAPE, DTYPE, GRAD = 1, 2, 4, 8
for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("GLOG_minloglevel", "3")
os.environ.setdefault("FLAGS_call_stack_level", "0")


def load():
    """Import both frameworks once, before forking."""
    warnings.filterwarnings("ignore")
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        import numpy, torch, paddle
        try:
            import torchvision
        except Exception:
            pass
        torch.set_num_threads(1)


class Diff(Exception):
    def __init__(self, bit, msg):
        super().__init__(msg)
        self.bit = bit


class NoCompare(Exception):
    pass


def seed(k):
    import numpy, torch, paddle
    random.seed(k)
    numpy.random.seed(k)
    torch.manual_seed(k)
    paddle.seed(k)
    paddle.set_default_dtype("float32")
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)


def compare(t, p, rtol, atol, got):
    """Adds to got the bits (VALUE ...) that differ somewhere; raises NoCompare for objects it can not read."""
    import numpy as np, torch, paddle
    if isinstance(t, dict):
        if not isinstance(p, dict) or len(t) != len(p):
            got[0] |= SHAPE | VALUE
            return
        for a, b in zip(t.items(), p.items()):
            compare(a[0], b[0], rtol, atol, got)
            compare(a[1], b[1], rtol, atol, got)
        return
    if isinstance(t, torch.Size):
        t = list(t)
    if isinstance(p, paddle.base.libpaddle.Tensor) is False and type(p).__name__ == "Size":
        p = list(p)
    if isinstance(t, (tuple, list)):
        if not isinstance(p, (tuple, list)) or len(t) != len(p):
            got[0] |= SHAPE | VALUE
            return
        for a, b in zip(t, p):
            compare(a, b, rtol, atol, got)
        return
    if isinstance(t, torch.Tensor):
        if not isinstance(p, paddle.Tensor):
            got[0] |= VALUE | SHAPE | DTYPE
            return
        if t.requires_grad == p.stop_gradient:
            got[0] |= GRAD
        x = t.detach()
        if x.is_sparse or x.layout != torch.strided:
            x = x.to_dense()
        if p.is_sparse():
            p = p.to_dense()
        if x.is_conj():
            x = x.resolve_conj()
        if str(x.dtype) == "torch.bfloat16":
            if "bfloat16" not in str(p.dtype):
                got[0] |= DTYPE
            x = x.float()
            p = p.astype("float32")
        x = x.cpu().numpy()
        y = p.detach().cpu().numpy()
        if x.dtype != y.dtype:
            got[0] |= DTYPE
    elif isinstance(t, np.ndarray):
        if not isinstance(p, np.ndarray):
            got[0] |= VALUE | DTYPE
            return
        x, y = t, p
        if x.dtype != y.dtype:
            got[0] |= DTYPE
    elif isinstance(t, (bool, int, float, complex, str, np.number, np.bool_, re.Pattern, type(None))):
        if type(p) != type(t):
            got[0] |= DTYPE | VALUE
            return
        if isinstance(t, (float, complex)):
            x, y = np.asarray(t), np.asarray(p)
        else:
            if t != p:
                got[0] |= VALUE
            return
    elif type(t).__module__ == type(p).__module__ and not type(t).__module__.startswith(("torch", "paddle")):
        if t != p:
            got[0] |= VALUE
        return
    else:
        raise NoCompare(type(t).__name__)
    if x.shape != y.shape:
        got[0] |= SHAPE
        if x.size != y.size:
            got[0] |= VALUE
            return
        x, y = x.reshape(-1), y.reshape(-1)
    if x.dtype == object or y.dtype == object:
        raise NoCompare("object array")
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        ok = np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
    else:
        ok = bool(np.array_equal(x, y))
    if not ok:
        got[0] |= VALUE


def run_text(code, names, k, which):
    seed(k)
    ns = {"__name__": "prog_" + which}
    try:
        import torch, paddle
        exec(compile(code, "<%s>" % which, "exec"), ns)
        return [ns[n] for n in names], None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, TimeoutError)):
            raise
        return None, "%s: %s" % (type(e).__name__, str(e).replace("\n", " ")[:150])


def tolerance(k):
    return max(float(k.get("rtol") or 0), 1e-5), max(float(k.get("atol") or 0), 1e-6)


def demanded(k):
    d = VALUE | SHAPE | DTYPE | GRAD
    if k.get("check_value") is False:
        d &= ~VALUE & ~SHAPE
    if k.get("check_shape") is False:
        d &= ~SHAPE
    if k.get("check_dtype") is False:
        d &= ~DTYPE
    if k.get("check_stop_gradient") is False:
        d &= ~GRAD
    return d


def once(prog, text, k):
    """-> ['torch', err] | ['paddle', err] | ['nocmp', why] | ['cmp', differing bits]"""
    a, e = run_text(prog["code"], prog["names"], k, "torch")
    if e:
        return ["torch", e]
    b, e = run_text(text, prog["names"], k, "paddle")
    if e:
        return ["paddle", e]
    got = [0]
    try:
        r, at = tolerance(prog["k"])
        compare(a, b, r, at, got)
    except NoCompare as e:
        return ["nocmp", str(e)]
    except Exception as e:
        return ["nocmp", "%s: %s" % (type(e).__name__, str(e)[:100])]
    return ["cmp", got[0]]


# ---------------------------------------------------------------- children
def _child(w, jobs, runs, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    dn = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(dn, fd)
    # the dynamic mode is thread-local; this process may descend from another thread than the importing one
    import paddle
    paddle.enable_static()
    paddle.disable_static()
    f = os.fdopen(w, "w")
    for i, prog, text in jobs:
        f.write(json.dumps([i, "start"]) + "\n")
        f.flush()
        r = []
        for k in runs:
            r.append(once(prog, text, k))
            if r[-1][0] in ("torch",):
                break
        f.write(json.dumps([i, r]) + "\n")
        f.flush()
    f.close()
    os._exit(0)


def execute(jobs, scratch, runs=(1,), limit=60):
    """jobs: [(index, prog, converted text)] -> {index: list of once() results, or [['crash'|'hang', '']]}"""
    res = {}
    todo = list(jobs)
    while todo:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                _child(w, todo, runs, scratch)
            finally:
                os._exit(1)
        os.close(w)
        buf, cur, why = b"", None, "crash"
        while True:
            ok, _, _ = select.select([r], [], [], limit)
            if not ok:
                why = "hang"
                break
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
            while b"\n" in buf:
                line, buf = buf.split(b"\n", 1)
                i, v = json.loads(line)
                if v == "start":
                    cur = i
                else:
                    res[i] = v
                    cur = None
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        if cur is not None:
            res[cur] = [[why, ""]]
        left = [j for j in todo if j[0] not in res]
        if len(left) == len(todo):
            res[left[0][0]] = [["crash", "no progress"]]
            left = left[1:]
        todo = left
    return res
