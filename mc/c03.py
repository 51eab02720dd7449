"""C03: every program of the universe converts without an exception to Python that compiles."""
from . import core, univ, pysyn
from .core import Result


TXT = "ztext = 'caf\xe9'\n"
BYTES = {
    "utf8": lambda b: (TXT + b).encode("utf-8"),
    "bom": lambda b: b"\xef\xbb\xbf" + (TXT + b).encode("utf-8"),
    "bom_cookie": lambda b: b"\xef\xbb\xbf# -*- coding: utf-8 -*-\n" + (TXT + b).encode("utf-8"),
    "latin1": lambda b: ("# -*- coding: latin-1 -*-\n" + TXT + b).encode("latin-1"),
    "cp1252_2nd": lambda b: ("#!/usr/bin/python\n# vim: set fileencoding=cp1252 :\n" + TXT + b).encode("cp1252"),
    "crlf": lambda b: (TXT + b).replace("\n", "\r\n").encode("utf-8"),
    "cr": lambda b: (TXT + b).replace("\n", "\r").encode("utf-8"),
    "no_newline": lambda b: (TXT + b).rstrip("\n").encode("utf-8"),
    "formfeed": lambda b: ("\x0c\n" + TXT + "\x0c\n" + b).encode("utf-8"),
    "tabs": lambda b: (TXT + b).replace("    ", "\t").encode("utf-8"),
    "vt_in_text": lambda b: (TXT + "ztext2 = 'caf\xe9 \x0b \x0c \x1c \x85 \u2028'\n" + b).encode("utf-8"),
    "astral": lambda b: (TXT + "ztext3 = 'caf\xe9 \U0001f600'\n" + b).encode("utf-8"),
    "ident": lambda b: (TXT + "\xe9t\xe9 = 1\n" + b).encode("utf-8"),
    "blank_lines": lambda b: ("\n\n" + TXT + "\n\n\n" + b + "\n\n\n").encode("utf-8"),
}


class C03(core.Check):
    id = "C03"
    rule = ("exhaustive enumeration of the program universe (contexts x uses, contexts x one representative per matcher, "
            "file headers, imports in every block kind, statement sequences, nested blocks, every table row x call shape, "
            "Python syntax kinds x block kinds) x mode x formatting; monitor: no exception, output compiles after stripping "
            "'>>>>>>'; outcome = the normalised output text")
    bounds = dict(nesting=2, sequence="2 (quick) / 3 (thorough)", modes=["default", "min"], format="unformatted everywhere, formatted on the structural part")
    assumptions = ["inputs that do not compile are outside the property and skipped", "the alphabet of the universe (mc/gram.py, mc/univ.py, mc/pysyn.py)"]

    def cases(self, tier):
        deep = tier == "thorough"
        for tag, code in univ.everything(tier):
            yield [tag, code, "default", True]
            if deep or not tag.startswith(("row/", "name")):
                yield [tag, code, "min", True]
            if tag.startswith(("hdr", "imp", "seq", "ctx")) or deep:
                yield [tag, code, "default", False]
        for s in pysyn.STMTS + pysyn.NEWER:
            for i, c in enumerate(pysyn.STMT_CTX):
                code = pysyn.put(c, s)
                for imp in ("", "import torch\nv = torch.slogdet(a)\n"):
                    yield ["syn/%d/%s/%s" % (i, s, bool(imp)), imp + code, "default", True]
        for e in pysyn.EXPRS:
            for i, c in enumerate(pysyn.EXPR_CTX):
                yield ["synx/%d/%s" % (i, e), "import torch\n" + c.replace("__E__", e) + "\nv = torch.slogdet(a)\n", "default", True]

        for h in BYTES:                       # encodings and line ends of the source file
            for b in univ.HDR_BODY:
                for nf in (True, False):
                    yield ["bytes/%s/%r" % (h, b), [h, b], "default", nf]

    def run(self, case):
        tag, code, mode, nf = case
        if isinstance(code, list):
            return self.run_bytes(tag, code, mode, nf)
        if core.compiles(code):
            return Result(n=0, skip=True, obs="invalid input")
        o = core.convert_source(code, mode=mode, no_format=nf)
        k = "%s|%s|%s" % (tag, mode, "raw" if nf else "fmt")
        if o.error:
            return Result([(k + "|exception", "converting\n%s\nraises %s" % (code, o.error))], o.error)
        e = core.compiles(core.strip_marks(o.text))
        if e:
            return Result([(k + "|invalid", "converting\n%s\ngives invalid Python (%s):\n%s" % (code, e, o.text))], o.text)
        return Result(obs=o.text)


    def run_bytes(self, tag, code, mode, nf):
        import os
        raw = BYTES[code[0]](code[1])
        try:
            want = compile(raw, "<in>", "exec", dont_inherit=True)
        except (SyntaxError, ValueError):
            return Result(n=0, skip=True, obs="invalid input")
        d = core.fresh_dir()
        core.write_tree(os.path.join(d, "in"), {"m.py": raw})
        try:
            core.import_paconvert()(mode=mode, log_dir="disable", no_format=nf).run(os.path.join(d, "in", "m.py"), os.path.join(d, "o", "m.py"))
            with open(os.path.join(d, "o", "m.py"), "rb") as f:
                out = f.read()
        except core.CaseTimeout:
            raise
        except BaseException as e:
            return Result([(tag + "|exception", "converting %r raises %s" % (raw, core.short(e)))], core.short(e))
        try:
            got = compile(core.strip_marks(out.decode("utf-8")), "<out>", "exec", dont_inherit=True)
        except (SyntaxError, ValueError) as e:
            return Result([(tag + "|invalid", "converting %r gives invalid Python (%s): %r" % (raw, core.short(e), out))], out)
        s = [c for c in want.co_consts if isinstance(c, str) and "\xe9" in c]
        if any(c not in got.co_consts for c in s):
            return Result([(tag + "|text", "converting %r changes the text %r: %r" % (raw, s, out))], out)
        return Result(obs=out)


if __name__ == "__main__":
    import sys
    sys.exit(core.main(C03()))
