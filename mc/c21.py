"""C21: options that report change nothing, report what happened, and the command line is the library call."""
import itertools, os, re, sys
from . import core, gram, projects, c06, c14
from .core import Result

BOOL = ["show_all_api", "show_unalign_api", "show_unsupport_api", "log_markdown", "calculate_speed"]
TARGETS = ["none", "file", "disable"]
LEVELS = ["WARNING", "INFO", "DEBUG"]
T = dict(projects.TREES)
T["tokenizer"] = {"a.py": "import torch, transformers\nx = transformers.PreTrainedTokenizer(a)\ny = torch.abs(torch.zzz(x).add(b))\n"}
# command lines: arguments -> (options, exclude, excluded packages)
CLI = [
    ([], {}, None, None), (["--no_format"], dict(no_format=True), None, None), (["--mode", "min"], dict(mode="min", no_format=True), None, None), (["-m", "min", "--no_format"], dict(mode="min", no_format=True), None, None),
    (["-m", "default"], {}, None, None), (["-e", "sub"], {}, "sub", None), (["--exclude", "a.py,sub"], {}, "a.py,sub", None), (["--exclude_packages", "transformers"], {}, None, ["transformers"]),
    (["--exclude_packages", "torchvision,einops,transformers", "--no_format"], dict(no_format=True), None, ["torchvision", "einops", "transformers"]), (["--log_dir", "L"], {}, None, None),
    (["--log_dir", "L", "--log_level", "DEBUG"], {}, None, None), (["--log_level", "WARNING"], {}, None, None), (["--log_markdown"], {}, None, None), (["--show_all_api"], {}, None, None),
    (["--show_unalign_api"], {}, None, None), (["--show_unsupport_api"], {}, None, None), (["--show_all_api", "--show_unalign_api", "--show_unsupport_api", "--calculate_speed"], {}, None, None),
    (["--only_complete"], dict(only_complete=True), None, None), (["--only_complete", "--no_format"], dict(only_complete=True, no_format=True), None, None),
    (["--calculate_speed", "-e", "\\.cpp$", "--no_format", "-m", "min"], dict(mode="min", no_format=True), "\\.cpp$", None),
]
SHORT = len(CLI)
# every combination of the options that interact
for _m, _f, _l, _v, _e, _x in itertools.product([[], ["--mode", "min"], ["--only_complete"]], [[], ["--no_format"]], [[], ["--log_dir", "L"], ["--log_dir", "disable"]],
                                                [[], ["--log_level", "DEBUG"]], [[], ["--exclude", "sub"]], [[], ["--show_all_api", "--log_markdown"]]):
    CLI.append((_m + _f + _l + _v + _e + _x, dict({"mode": "min"} if "min" in _m else {}, no_format=bool(_f or "min" in _m), only_complete=_m == ["--only_complete"]), "sub" if _e else None, None))
TIMES = [3, 9, 10, 11, 25, 100]
SHEETS = []


def snapshot(root):
    """output files; the scratch path (sys.path line of the helper import) is the same for every process"""
    here = os.path.dirname(root).encode()
    return {k: v.replace(here, b"HERE") if isinstance(v, bytes) else v for k, v in core.read_tree(root).items()}


def lists(text):
    """the three API lists of the log: name -> {api: count}"""
    r = {}
    for name, title in (("all", "ALL API List:"), ("unalign", "UnAlign Native Pytorch API List:"), ("unsup", "Not Support API List:")):
        i = text.find(title)
        if i < 0:
            r[name] = None
            continue
        d = {}
        for l in text[i:].split("\n")[2:]:
            if l.startswith("==="):
                break
            m = re.match(r"^([\w.*]+)\s{2,}(?:.*\D)?(\d+)\s*$", l)
            if m:
                d[m[1]] = int(m[2])
        r[name] = d
    return r


def sheets():
    """the tables written as files: name -> {api: count}"""
    r = {}
    for path, rows in SHEETS:
        n = {"all_api_map.xlsx": "all", "unalign_api_map.xlsx": "unalign", "unsupport_api_map.xlsx": "unsup"}[os.path.basename(path)]
        r[n] = {x[0]: int(x[-1]) for x in rows}
    return r


class C21(core.Check):
    id = "C21"
    chunk = 60
    rule = ("exhaustive: every project x every subset of the reporting options x log target x log level, formatted and not; every project x every command line; every entry of the API, attribute and alias tables as "
            "call and as value, and all pairs of counted statements in one and in two files, with all three lists shown. Oracle: files and counts of the plain library call; the name of the entry in the lists; sums of "
            "the lists of the single statements")
    bounds = dict(options=2 ** len(BOOL), targets=3, levels=3, command_lines=len(CLI), statements=len(c06.ITEMS))
    assumptions = ["the Excel writer is replaced by a stand-in that records the rows (none is installed here)"]

    def setup(self):
        import pandas
        pandas.DataFrame.to_excel = lambda s, path, **k: SHEETS.append((path, s.values.tolist()))
        self.single = {}
        self.ref = {}

    def cases(self, tier):
        for p in T:
            for bits in itertools.product([0, 1], repeat=len(BOOL)):
                for t in TARGETS:
                    for l in LEVELS:
                        yield ["opt", p, bits, t, l, "raw"]
                if tier == "thorough":
                    yield ["opt", p, bits, "file", "INFO", "fmt"]
            for i in range(SHORT):
                for out in ("o", "default"):
                    yield ["cli", p, i, out]
        for p in T if tier == "thorough" else ("files", "helpers"):
            for i in range(SHORT, len(CLI)):
                yield ["cli", p, i, "o"]
        A = gram.tables()
        for i in range(len(c06.ITEMS)):
            for k in TIMES:
                for how in ("one", "many"):
                    yield ["times", i, k, how]
        for t in ("api", "attr", "alias"):
            for api in A[t]:
                if all(x.isidentifier() for x in api.split(".")):
                    yield ["entry", t, api, "call"]
                    yield ["entry", t, api, "value"]
        n = range(len(c06.ITEMS))
        for i in n:
            for j in n:
                yield ["pair", i, j, "one"]
                yield ["pair", i, j, "two"]

    def convert(self, tree, single=None, out="out", exclude=None, **kw):
        d = core.fresh_dir()
        core.write_tree(d + "/in", tree)
        cwd = os.getcwd()
        del SHEETS[:]
        try:
            os.chdir(d)
            Converter = core.import_paconvert()
            kw.setdefault("log_dir", d + "/log")
            c = Converter(**kw)
            s, f = c.run(d + "/in", d + "/" + out, exclude)
            text = ""
            if os.path.exists(d + "/log"):
                with open(d + "/log", encoding="utf-8") as fh:
                    text = fh.read()
            import logging
            logging.disable(logging.NOTSET)
            return dict(files=snapshot(d + "/" + out), counts=(s, f), rate=c.convert_rate, log=text, sheets=sheets(), rest=sorted(set(os.listdir(d)) - {"in", out, "log"}))
        finally:
            os.chdir(cwd)

    def plain(self, p, fmt, key=(), **kw):
        k = (p, fmt, key)
        if k not in self.ref:
            self.ref[k] = c14.isolated(lambda: self.convert(T[p], no_format=not fmt, log_dir="disable", **kw))
        return self.ref[k]

    def full(self, tree):
        try:
            return self.convert(tree, no_format=True, show_all_api=True, show_unalign_api=True, show_unsupport_api=True)
        except core.CaseTimeout:
            raise
        except Exception as e:
            return dict(error=core.short(e))

    def run(self, case):
        return getattr(self, "run_" + case[0])(*case[1:])

    def run_opt(self, p, bits, target, level, fmt):
        want = self.plain(p, fmt == "fmt")
        kw = {n: True for n, b in zip(BOOL, bits) if b}
        if target != "file":
            kw["log_dir"] = None if target == "none" else "disable"
        tag = "opt|%s" % "+".join(sorted(k for k in kw if k != "log_dir"))
        try:
            got = self.convert(T[p], no_format=fmt != "fmt", log_level=level, **kw)
        except core.CaseTimeout:
            raise
        except BaseException as e:
            return Result([(tag + "|error", "project %s, options %s %s %s: %s" % (p, kw, target, level, core.short(e)))], "error")
        v = []
        if got["files"] != want["files"]:
            v.append(("files", "other files than without these options: %s" % [k for k in set(got["files"]) | set(want["files"]) if got["files"].get(k) != want["files"].get(k)]))
        if got["counts"] != want["counts"] or got["rate"] != want["rate"]:
            v.append(("counts", "counts %s %s, without these options %s %s" % (got["counts"], got["rate"], want["counts"], want["rate"])))
        if got["rest"]:
            v.append(("litter", "files beside the output: %s" % got["rest"]))
        if set(got["sheets"]) - {n for n, k in (("all", BOOL[0]), ("unalign", BOOL[1]), ("unsup", BOOL[2])) if k in kw}:
            v.append(("sheets", "lists nobody asked for: %s" % sorted(got["sheets"])))
        if target == "file":
            s, f = got["counts"]
            n = [int(x) for x in re.findall(r"(?<![\d.])(\d+)(?= Pytorch APIs in this|  Pytorch APIs have|  Pytorch APIs are| 行Pytorch)", got["log"])]
            if n[:3] != [s + f, s, f]:
                v.append(("summary", "the summary of the log says %s, the call returns %s" % (n, got["counts"])))
        return Result([(tag + "|" + k, "project %s, options %s %s %s: %s" % (p, kw, target, level, m)) for k, m in v], (p, got["counts"], sorted(got["sheets"])), 1)

    def run_cli(self, p, i, out):
        args, kw, ex, pk = CLI[i]
        kw = dict(kw)
        nf = kw.pop("no_format", False)
        root = "paddle_project" if out == "default" else "o"

        def reference():
            if pk:
                from paconvert.global_var import GlobalManager
                for x in pk:
                    GlobalManager.TORCH_PACKAGE_MAPPING.pop(x, None)
            return self.convert(T[p], no_format=nf, exclude=ex, out=root, log_dir="disable", **kw)

        def cli():
            d = core.fresh_dir()
            core.write_tree(d + "/in", T[p])
            os.chdir(d)
            import paconvert.main as m
            sys.argv = ["paconvert", "--in_dir" if i % 2 else "-i", "in"] + ([] if out == "default" else ["-o" if i % 3 else "--out_dir", "o"]) + args
            sys.stdout = sys.stderr = open(os.devnull, "w")
            m.main()
            return dict(files=snapshot(d + "/" + root), rest=sorted(set(os.listdir(d)) - {"in", root, "L"}), log=os.path.exists("L"))

        want = c14.isolated(reference)
        got = c14.isolated(cli)
        tag = "cli|%s" % " ".join(args)
        if "files" not in got or "files" not in want:
            return Result([(tag + "|error", "project %s: the command line fails (%s), the library call: %s" % (p, got.get("error"), want.get("error")))], "error", 2)
        v = []
        if got["files"] != want["files"]:
            v.append((tag + "|files", "project %s: other files than the library call: %s" % (p, [k for k in set(got["files"]) | set(want["files"]) if got["files"].get(k) != want["files"].get(k)])))
        if got["rest"]:
            v.append((tag + "|litter", "project %s: files beside the output: %s" % (p, got["rest"])))
        if got["log"] != ("L" in args):
            v.append((tag + "|log", "project %s: log file %s" % (p, got["log"])))
        return Result(v, core.digest(got["files"]), 2)

    def agree(self, got):
        """log and table files say the same"""
        L = lists(got["log"])
        for n in L:
            if L[n] is None or L[n] != got["sheets"].get(n, {}):
                return L, "the %s list of the log and its table differ: %s / %s" % (n, L[n], got["sheets"].get(n, {}))
        return L, None

    def run_entry(self, t, api, how):
        A = gram.tables()
        canon = A["alias"].get(api, api)
        row = A["api"].get(canon) or A["attr"].get(canon) or {}
        c = gram.callee(canon if gram.is_method(canon) else api)
        for pre in gram.CLASS_PREFIX[1:]:
            if api.startswith(pre):
                c = "mm." + api[len(pre):]
        if c.split(".")[-1] in ("is", "not"):
            return Result(n=0, skip=True)
        P, K = gram.params(row)
        args = ", ".join("q%d" % i for i, x in enumerate(P[:max(row.get("min_input_args") or 0, 0)]) if not x.startswith("*"))
        code = gram.import_for(api) + ("v = %s(%s)\n" % (c, args) if how == "call" else "v = %s\n" % c)
        got = self.full({"m.py": code})
        tag = "entry|%s|%s" % (api, how)
        if "error" in got:
            return Result([(tag + "|error", "%s\n%s" % (code, got["error"]))], "error")
        s, f = got["counts"]
        L, bad = self.agree(got)
        if bad:
            return Result([(tag + "|tables", code + bad)], "bad")
        if L["all"] is None:
            return Result([(tag + "|lists", code + "no list in the log")], "bad")
        v = []
        if c.startswith("mm.") and L["all"]:          # which class such a method belongs to is not known: any table entry of that name
            k = next(iter(L["all"]))
            if k.rsplit(".", 1)[1] == c[3:] and k in A["api"]:
                canon = k
        if s + f == 0:
            if any(L.values()):
                v.append(("phantom", "no use counted, the lists name %s" % L))
        else:
            if L["all"] != {canon: s + f}:
                v.append(("all", "expected %s once in the list of all APIs: %s" % (canon, L["all"])))
            short = canon if not c.startswith(("a.", "mm.")) else "*." + canon.rsplit(".", 1)[1]
            if L["unsup"] not in ([{canon: f}, {short: f}] if f else [{}]):
                v.append(("unsup", "%d unsupported uses of %s, the list says %s" % (f, canon, L["unsup"])))
            aligned = any((A[x].get(canon) or {}).get("Matcher") == "ChangePrefixMatcher" for x in ("api", "attr"))
            want = L["all"] if canon.startswith("torch.") and not aligned else {}
            if L["unalign"] != want and not v:
                v.append(("unalign", "the list of unaligned APIs is %s, expected %s" % (L["unalign"], want)))
        return Result([(tag + "|" + k, "%s%s" % (code, m)) for k, m in v], (s, f, bool(L["unalign"])))

    def one(self, i):
        if i not in self.single:
            self.single[i] = c14.isolated(lambda: self.full({"m.py": "import torch\n" + c06.ITEMS[i][0] + "\n"}))
        return self.single[i]

    def run_times(self, i, k, how):
        """one counted statement k times, in one file or in k files"""
        a = c06.ITEMS[i][0]
        tree = {"m.py": "import torch\n" + (a + "\n") * k} if how == "one" else {"m%d.py" % x: "import torch\n%s\n" % a for x in range(k)}
        got = self.full(tree)
        tag = "times|%s|%d|%s" % (how, k, a)
        if "error" in got or "error" in self.one(i):
            return Result([(tag + "|error", got.get("error", "a part fails"))], "error")
        L, bad = self.agree(got)
        v = [(tag + "|tables", bad)] if bad else []
        one = self.one(i)
        if got["counts"] != tuple(k * x for x in one["counts"]) and not bad:
            v.append((tag + "|counts", "%s, %d times %s" % (got["counts"], k, one["counts"])))
        for n, d in lists(one["log"]).items():
            if (L[n] or {}) != {x: k * c for x, c in (d or {}).items()} and not bad:
                v.append((tag + "|" + n, "list '%s': %s, %d times %s" % (n, L[n], k, d)))
        return Result(v, (k, got["counts"]))

    def run_pair(self, i, j, how):
        a, b = c06.ITEMS[i][0], c06.ITEMS[j][0]
        tree = {"m.py": "import torch\n%s\n%s\n" % (a, b)} if how == "one" else {"m.py": "import torch\n%s\n" % a, "n.py": "import torch\n%s\n" % b}
        got = self.full(tree)
        tag = "pair|%s|%s|%s" % (how, a, b)
        if "error" in got or "error" in self.one(i) or "error" in self.one(j):
            return Result([(tag + "|error", got.get("error", "a part fails"))], "error")
        L, bad = self.agree(got)
        if bad:
            return Result([(tag + "|tables", bad)], "bad")
        for n in ("all", "unalign", "unsup"):
            want = {}
            for x in (i, j):
                for k, c in lists(self.one(x)["log"])[n].items():
                    want[k] = want.get(k, 0) + c
            have = L[n] or {}
            if have != want:
                return Result([(tag + "|" + n, "list '%s': %s, the single statements add up to %s" % (n, have, want))], "bad")
        return Result(obs=tuple(sorted(L["all"])))


if __name__ == "__main__":
    sys.exit(core.main(C21()))
