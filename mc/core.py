"""Shared explorer core: enumerates every case of a check, runs the real PaConvert on it in
forked workers, collects violations, confirms each one in a fresh process, writes evidence."""
import sys, os
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
import ast, json, time, shutil, tempfile, logging, hashlib, signal, traceback, warnings, multiprocessing as mp

warnings.filterwarnings("ignore")
logging.lastResort = None          # the converter's summary goes nowhere unless a check reads it
logging.raiseExceptions = False

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "0") or 0) or (os.cpu_count() or 4)
CASE_TIMEOUT = 120
MARK = ">>>>>>"


def import_paconvert():
    import paconvert
    got = os.path.dirname(os.path.abspath(paconvert.__file__))
    want = os.path.join(os.path.abspath(REPO), "paconvert")
    if os.path.realpath(got) != os.path.realpath(want):
        raise RuntimeError("paconvert imported from %s, not %s" % (got, want))
    from paconvert.converter import Converter
    return Converter


def table(name):
    with open(os.path.join(REPO, "paconvert", name + ".json")) as f:
        return json.load(f)


# ---------------------------------------------------------------- scratch space
_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="mc_", dir=base)
    return _scratch


def remove_tree(d):
    try:
        shutil.rmtree(d, ignore_errors=True)
    except RecursionError:
        pass
    if os.path.lexists(d):                 # deeper than Python or one path can reach
        import subprocess
        subprocess.run(["rm", "-rf", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def fresh_dir():
    """A new empty directory whose path does not depend on history (so outputs can be compared)."""
    d = os.path.join(scratch_root(), "w%08d" % os.getpid(), "p")
    if os.path.lexists(d):
        remove_tree(d)
    os.makedirs(d)
    return d


# ---------------------------------------------------------------- running the tool
class Out:
    __slots__ = ("text", "total", "success", "failed", "error", "conv")

    def __init__(self):
        self.text = None; self.total = self.success = self.failed = None; self.error = None; self.conv = None


def short(e):
    return "%s: %s" % (type(e).__name__, str(e).replace("\n", " ")[:200])


def convert_source(code, mode="default", no_format=True, keep=None, in_name="mod_in.py", out_name="mod_out.py",
                   siblings=None, **kw):
    """File mode: write code to a scratch file, convert, read the result."""
    Converter = import_paconvert()
    d = fresh_dir()
    o = Out()
    src, dst = os.path.join(d, in_name), os.path.join(d, "o", out_name)
    os.makedirs(os.path.dirname(dst))
    with open(src, "w", encoding="utf-8") as f:
        f.write(code)
    for name, text in (siblings or {}).items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if text is not None:
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
        else:
            os.makedirs(p, exist_ok=True)
    try:
        c = Converter(mode=mode, log_dir="disable", no_format=no_format, **kw)
        s, f_ = c.run(src, dst)
        o.conv = c
        o.total, o.success, o.failed = c.torch_api_count, s, f_
        with open(dst, encoding="utf-8") as f:
            o.text = f.read()
    except CaseTimeout:
        raise
    except BaseException as e:
        o.error = short(e)
    return o


def write_tree(root, tree):
    """tree: {relpath: str|bytes (file) | None (dir) | ('link', target)}"""
    os.makedirs(root, exist_ok=True)
    for rel, v in tree.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if v is None:
            os.makedirs(p, exist_ok=True)
        elif isinstance(v, (tuple, list)):
            os.symlink(v[1], p)
        else:
            with open(p, "wb") as f:
                f.write(v if isinstance(v, bytes) else v.encode("utf-8"))


def read_tree(root):
    r = {}
    if not os.path.lexists(root):
        return r
    if not os.path.isdir(root) or os.path.islink(root):
        if os.path.islink(root):
            return {"": ("link", os.readlink(root))}
        with open(root, "rb") as f:
            return {"": f.read()}
    for a, ds, fs in os.walk(root):
        for n in ds:
            p = os.path.join(a, n)
            r[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else None
        for n in fs:
            p = os.path.join(a, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                r[rel] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as f:
                    r[rel] = f.read()
    return r


# ---------------------------------------------------------------- text helpers
def strip_marks(text):
    return "\n".join(l[len(MARK):] if l.startswith(MARK) else l for l in text.split("\n"))


def marked_lines(text):
    return [i for i, l in enumerate(text.split("\n")) if l.startswith(MARK)]


def compiles(text):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            compile(text, "<out>", "exec", dont_inherit=True)
        return None
    except (SyntaxError, ValueError) as e:
        return short(e)


class _Norm(ast.NodeTransformer):
    def visit_Constant(self, n):
        n.kind = None
        return n


def dump(node_or_text):
    t = ast.parse(node_or_text) if isinstance(node_or_text, str) else node_or_text
    return ast.dump(_Norm().visit(t))


def digest(*a):
    return hashlib.sha1(repr(a).encode("utf-8", "surrogatepass")).hexdigest()[:16]


# ---------------------------------------------------------------- checks
class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


class Result:
    """Outcome of one case: v = [(key, message)], obs = canonical observation, n = real conversions run."""
    __slots__ = ("v", "obs", "n", "skip")

    def __init__(self, v=(), obs="", n=1, skip=False):
        self.v = list(v); self.obs = obs; self.n = n; self.skip = skip


class Check:
    id = None
    level = "model_checking"
    rule = ""
    bounds = {}
    assumptions = []
    chunk = 100
    jobs = None

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def setup(self):
        pass

    def state_of(self, case):
        return digest(case)

    def show(self, case):
        return case


_CHECK = None
_CASES = None


def _run_one(case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(_CHECK, "timeout", CASE_TIMEOUT))
    try:
        return _CHECK.run(case)
    except CaseTimeout:
        return Result([("timeout", "the conversion did not finish within %d s" % CASE_TIMEOUT)], "timeout")
    except (OSError, MemoryError):
        raise
    except Exception as e:           # the output is so unexpected that the oracle can not even read it
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return Result([("unreadable|%s|%s:%s" % (type(e).__name__, os.path.basename(tb.filename), tb.name),
                        "the oracle can not evaluate the result: " + short(e))], "unreadable")
    finally:
        signal.alarm(0)


def _worker(span):
    lo, hi = span
    viol, obs, n, skipped = [], set(), 0, 0
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        for i in range(lo, hi):
            r = _run_one(_CASES[i])
            n += r.n
            skipped += bool(r.skip)
            obs.add(digest(r.obs))
            for key, msg in r.v:
                viol.append((i, key, msg))
    except BaseException:
        return ("error", lo, traceback.format_exc(), None, None, None)
    finally:
        remove_tree(os.path.join(scratch_root(), "w%08d" % os.getpid()))
    return ("ok", lo, viol, obs, n, skipped)


def _replay_worker(idxs):
    """Run cases idxs in order in this fresh process; violations of the last one."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        r = None
        for i in idxs:
            r = _run_one(_CASES[i])
        return sorted(k for k, _ in r.v), r.v
    finally:
        remove_tree(os.path.join(scratch_root(), "w%08d" % os.getpid()))


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {x["key"]: x["what"] for x in d.get("known", []) if x["property"] == pid}


def main(check):
    global _CHECK, _CASES
    t0 = time.time()
    _CHECK = check
    tier = TIER
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        return replay(check, sys.argv[2])
    try:
        import_paconvert()
        check.setup()
        cases = []
        seen = set()
        for c in check.cases(tier):
            k = check.state_of(c)
            if k not in seen:
                seen.add(k)
                cases.append(c)
        _CASES = cases
        scratch_root()
        known = load_findings(check.id)
        ctx = mp.get_context("fork")
        spans = [(i, min(i + check.chunk, len(cases))) for i in range(0, len(cases), check.chunk)]
        viol, obs, n, skipped = [], set(), 0, 0
        jobs = check.jobs or JOBS
        with ctx.Pool(jobs, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_worker, spans):
                if r[0] == "error":
                    raise RuntimeError("harness error in chunk %d:\n%s" % (r[1], r[2]))
                viol += r[2]; obs |= r[3]; n += r[4]; skipped += r[5]
        viol.sort(key=lambda x: x[0])
        fresh, seen_known = {}, {}
        for i, key, msg in viol:
            if key in known:
                seen_known.setdefault(key, (i, msg))
            else:
                fresh.setdefault(key, (i, msg))
        for key in sorted(seen_known):
            print("KNOWN-FINDING: property=%s %s [%s]" % (check.id, known[key], key))
        rc = 0
        nviol = 0
        if fresh:
            # confirm in fresh processes, simplest (first enumerated) first
            items = sorted(fresh.items(), key=lambda kv: kv[1][0])
            for key, (i, msg) in items[:40]:
                with ctx.Pool(1) as pool:
                    keys, v = pool.apply(_replay_worker, ([i],))
                hist = [i]
                if key not in keys:
                    lo = i - i % check.chunk
                    hist = list(range(lo, i + 1))
                    with ctx.Pool(1) as pool:
                        keys, v = pool.apply(_replay_worker, (hist,))
                if key not in keys:
                    msg = "(seen once, not on replay) " + msg
                nviol += 1
                os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
                path = os.path.join(VERIF, "evidence", "replay", "%s_%s.json" % (check.id, digest(key)))
                with open(path, "w") as f:
                    json.dump(dict(property=check.id, key=key, message=msg, cases=[cases[j] for j in hist],
                                   how="/opt/venv/bin/python -m mc.%s --replay %s  (cwd /verif)" % (check.id.lower(), path)),
                              f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (check.id, path))
                print("  key=%s  %s" % (key, msg[:1500]))
                rc = 1
                if nviol >= 8:
                    break
            print("  (%d distinct violation keys, %d shown)" % (len(fresh), nviol))
        step = max(1, len(cases) // 5)
        ev = dict(property=check.id, tier=tier, seed=SEED, level=check.level,
                  coverage=dict(states=len(cases), transitions=n, traces_validated_against_impl=len(cases) - skipped,
                                distinct_outcomes=len(obs), skipped_not_applicable=skipped,
                                evaluations=n, distinct_nontrivial=len(obs), rule=check.rule,
                                bounds=check.bounds, exhaustive=True, known_findings_seen=len(seen_known),
                                samples=[check.show(cases[i]) for i in range(0, len(cases), step)][:6]),
                  assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fresh))
        if check.level == "model_checking":
            for k in ("evaluations", "distinct_nontrivial"):
                ev["coverage"].pop(k)
        extra = getattr(check, "extra_evidence", None)
        if extra:
            ev["coverage"].update(extra())
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s tier=%s states=%d transitions=%d outcomes=%d skipped=%d known=%d violations=%d wall=%.1fs" % (
            check.id, tier, len(cases), n, len(obs), skipped, len(seen_known), len(fresh), time.time() - t0))
        return rc
    finally:
        if _scratch:
            remove_tree(_scratch)


def replay(check, path):
    global _CASES
    with open(path) as f:
        d = json.load(f)
    import_paconvert()
    check.setup()
    _CASES = d["cases"]
    scratch_root()
    try:
        r = None
        for c in _CASES:
            r = _run_one(c)
        for k, m in r.v:
            print("VIOLATION property=%s replay=%s\n  key=%s %s" % (check.id, path, k, m))
        return 1 if any(k == d["key"] for k, _ in r.v) else 0
    finally:
        remove_tree(_scratch)
