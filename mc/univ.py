"""The shared universe of programs. Every check that quantifies over programs enumerates all of it (or a
stated part) and applies its own monitor."""
import json, os, itertools
from . import core, gram
from .gram import CONTEXTS, CTX, USES, USE, CORE_CTX, H, fill

with open(os.path.join(os.path.dirname(__file__), "reps.json")) as f:
    REPS = json.load(f)


def imports_of(expr):
    r = ["import torch"]
    for p in ("torchvision", "transformers", "fairscale", "flash_attn", "os", "setuptools", "einops"):
        if expr.startswith(p + ".") or (" " + p + ".") in expr:
            r.append("import " + p)
    if expr.startswith("einops.layers.torch"):
        r.append("import einops.layers.torch")
    return "\n".join(r) + "\n"


def nest(outer, inner):
    out = []
    for l in outer.split("\n"):
        i = l.find("v = " + H)
        if i >= 0 and l[:i].strip() == "":
            out += [l[:i] + x for x in inner.split("\n")]
        else:
            out.append(l)
    return "\n".join(out)


BLOCKS = [n for n, t, o in CONTEXTS if any(l.strip() == "v = " + H for l in t.split("\n")) and "\n" in t]


def ctx_uses():
    for n, t, o in CONTEXTS:
        for u in USES:
            yield "ctx/%s/%s" % (n, u[0]), "import torch\n" + fill(t, u[1]) + "\n"


def ctx_reps(ctxs=None):
    for M, api, e in REPS:
        for n in ctxs or CORE_CTX:
            yield "rep/%s/%s" % (n, e), imports_of(e) + fill(CTX[n][0], e) + "\n"


NEST_USES = ("multi", "unsup_method", "prefix", "unsup_unknown")
NEST_REPS = ("a.max()", "a.data")


def nested(outer=None, inner=None, uses=NEST_USES):
    for o in outer or BLOCKS:
        for i in inner or [c[0] for c in CONTEXTS]:
            t = nest(CTX[o][0], CTX[i][0])
            for u in uses:
                yield "nest/%s/%s/%s" % (o, i, u), "import torch\n" + fill(t, USE[u][1]) + "\n"


# call shapes of one row: list of argument lists (positional names, keyword dict)
NAMES = ["p%d" % i for i in range(20)]


def shapes(row, tier="quick"):
    P, K = gram.params(row)
    P = [x for x in P if not x.startswith("*")]
    K = [x for x in K if not x.startswith("*")]
    mn = row.get("min_input_args") or 0
    val = {}
    for i, x in enumerate(P + K):
        val[x] = "q_" + x
    seen = []

    def add(pos, kw):
        s = ", ".join(pos + ["%s=%s" % (k, v) for k, v in kw])
        if s not in seen:
            seen.append(s)

    if not P and not K:
        for n in range(0, 4):
            add(NAMES[:n], [])
        add(NAMES[:1], [("zk", "q")])
        return seen
    for n in range(mn, len(P) + 1):                      # n arguments, split at every position
        for j in range(0, n + 1):
            add([val[x] for x in P[:j]], [(x, val[x]) for x in P[j:n]])
    for k in P[mn:] + K:                                 # each optional alone after the mandatory ones
        add([val[x] for x in P[:mn]], [(k, val[k])])
        add([], [(x, val[x]) for x in P[:mn]] + [(k, val[k])])
    add([val[x] for x in P], [(k, val[k]) for k in K])   # everything
    add([], [(k, val[k]) for k in P + K])
    add([], [(k, val[k]) for k in reversed(P + K)])
    for j in range(0, mn):                               # too few
        add([val[x] for x in P[:j]], [])
    add([val[x] for x in P] + ["extra"], [])             # too many
    add([val[x] for x in P[:mn]], [("zzz_bad", "1")])    # unknown keyword
    add(["*" + NAMES[0]], [])
    seen.append("**kw")
    return seen


def row_calls(filter_=None, tier="quick"):
    T = gram.tables()
    for api, row in T["api"].items():
        if filter_ and not filter_(api, row):
            continue
        c = gram.callee(api)
        if api.startswith(gram.CLASS_PREFIX[1:]):
            c = "mm." + api.rsplit(".", 1)[1]
        for s in shapes(row, tier):
            yield api, "%s(%s)" % (c, s)


# where the name of an API can stand without a call of it
NAME_FORMS = [
    ["v = @.zz", "v = @.zz(a)", "v = @.zz.zy", "v = @.__name__", "v = @.zz(a).zy(b)", "v = @[a]", "v = @[a].zz(b)", "foo(@.zz, k=@)", "v = (@, [@.zz])"],
    ["@ = a", "@.zz = a", "@.zz += a", "@ += a", "@[a] = b", "del @.zz", "del @", "(@, v) = a", "setattr(@, 'zz', a)"],
    ["&@\ndef f(x: @ = @) -> @:\n    return @", "&@(a)\nclass Z(@, metaclass=@.zz):\n    y: @ = a\n    x: @.zz = @", "v = isinstance(a, @)", "v = lambda x=@: @.zz", "try:\n    v = @ == a\nexcept @:\n    raise @", "with @ as v:\n    pass", "v = -@ if @ else not @.zz"],
]


def rows(tier="quick"):
    T = gram.tables()
    for api, e in row_calls(tier=tier):
        yield "row/" + e, gram.import_for(api) + "v = " + e + "\n"
    for api in list(T["api"]) + list(T["attr"]) + list(T["alias"]):
        e = gram.callee(api) if not api.startswith(gram.CLASS_PREFIX[1:]) else "mm." + api.rsplit(".", 1)[1]
        yield "name/" + e, gram.import_for(api) + "v = " + e + "\n"
        yield "name2/" + api, "import %s\nfoo(%s)\n" % (gram.package(api), api)
        for i, forms in enumerate(NAME_FORMS):
            if tier == "thorough":
                for f in forms:
                    yield "name/%s/%s" % (f, e), gram.import_for(api) + f.replace("@", e).replace("&", "@") + "\n"
            yield "name/%d/%s" % (i, e), gram.import_for(api) + "\n".join(forms).replace("@", e).replace("&", "@") + "\n"


# ------------------------------------------------------------------ imports in every kind of block
IMPORTS = ["import torch", "import torch.nn as nn", "from torch import nn", "from torch.nn import Linear as L, ReLU",
           "import torch, zlocal", "import zlocal", "from zlocal import zx", "import torchvision, torch",
           "from torch import (\n    nn,\n    optim)", "import transformers", "import os", "from os import path",
           "import setuptools", "from einops import rearrange", "import audiotools"]
_IB = [
    "@", "if obj:\n    @", "if obj:\n    pass\nelse:\n    @", "if obj:\n    pass\nelif w:\n    @",
    "for i in obj:\n    @", "for i in obj:\n    pass\nelse:\n    @", "while obj:\n    @",
    "while obj:\n    pass\nelse:\n    @", "with obj:\n    @", "try:\n    @\nexcept E:\n    pass",
    "try:\n    pass\nexcept E:\n    @", "try:\n    pass\nfinally:\n    @", "try:\n    @\nfinally:\n    pass",
    "try:\n    pass\nexcept E:\n    pass\nelse:\n    @", "try:\n    @\nexcept E:\n    @", "try:\n    @\nexcept:\n    zlocal = None",
    "def f():\n    @", "def f():\n    'doc'\n    @", "async def f():\n    @", "class C:\n    @", "class C:\n    def m(self):\n        @",
    "def f():\n    if obj:\n        @", "if obj:\n    @\nelse:\n    @", "if obj:\n    @\n    @", "async def f():\n    async with obj:\n        @",
    "async def f():\n    async for i in obj:\n        @", "if obj:\n    w = 1\n    @", "if obj:\n    @\n    w = 1", "try:\n    @\nexcept E:\n    pass\nelse:\n    @\nfinally:\n    @",
    "if obj: @one", "def f(): @one", "try:\n    pass\nexcept E:\n    pass\nexcept F as e:\n    @",
    "for i in obj:\n    @\nelse:\n    @",
]


def import_blocks(imports=None):
    for b in _IB:
        for i in imports or IMPORTS:
            t = []
            for l in b.split("\n"):
                if "@one" in l:
                    if "\n" in i:
                        t = None
                        break
                    t.append(l.replace("@one", i))
                elif l.strip() == "@":
                    ind = l[:l.index("@")]
                    t += [ind + x if not x.startswith("    ") else ind + x for x in i.split("\n")]
                else:
                    t.append(l)
            if t is None:
                continue
            yield "imp/%s/%s" % (b, i), "\n".join(t) + "\n"


LONG_FROM = "from zpackage.zmodule import zfirst_long_name, zsecond_long_name, zthird_long_name, zfourth_long_name\n"
LONG_IMP = "import zfirst_long_package_name.zfirst_long_module_name as zlong_module_alias, zsecond_long_package_name.zsecond_module as zm2\n"
HEADERS = ["", "'doc'\n", "'doc torch.x'\n", "from __future__ import annotations\n", "'doc'\nfrom __future__ import annotations\n",
           "# -*- coding: utf-8 -*-\n", "#!/usr/bin/env python\n'doc'\n", "'''a\nb\n'''\n",
           "'doc'\n'second'\n", "'doc'\nfrom __future__ import annotations\nfrom __future__ import division\n",
           "import zlocal\n'not doc'\n", "import zlocal as zl\nimport zlocal2\n", "zz = 1\n", "if obj:\n    pass\n",
           "try:\n    import zlocal\nexcept E:\n    zlocal = None\n", "def g():\n    'd'\n", "'%s' % 1\n", "b'doc'\n", "f'doc'\n",
           LONG_FROM, "'doc'\n" + LONG_FROM, LONG_FROM + "import zlocal\n" + LONG_FROM.replace("zfirst", "zother"), "from zp import (zx)\n", "from zp import (zx, # c)\n    zy)\n",
           "import zlocal, \\\n    zlocal2\n", LONG_IMP, "try:\n    %sexcept E:\n    %s" % (LONG_FROM, LONG_FROM), "from . import zrel\nfrom .zm import (zy as zz,)\n",
           "'doc'; import zlocal\n", "import zlocal; zz = 1\n", "zfrom = 'from x import ('\n", "'''doc\nimport zdoc\nfrom zdoc import (\n'''\n", "import zlocal\n'''\nimport ztext\nfrom zt import (\n'''\n",
           "from zp import zx as import_me\n", "zz = (1,\n      2)\nimport zlate\n"]
HDR_BODY = ["", "import torch\n", "import torch\nv = torch.add(a, b)\n", "import torch\nv = a.max()\n", "import torch\ntorch.slogdet(a)\n",
            "import torch\na.is_shared()\n", "import torch\ntorch.zzz_unknown(a)\n", "import torch\nv = torch.get_num_threads()\n",
            "import zlocal\nimport torch\nfrom torch import nn\nnn.Softmin()\n", "import torch\nif obj:\n    v = a.max()\n", "import torch\ndef f():\n    return a.max()\n",
            "from torch import nn\n\n\nclass M(nn.Module):\n    def f(self, a):\n        return a.max() + a.min()\n"]


def headers():
    for h in HEADERS:
        for b in HDR_BODY:
            yield "hdr/%r/%r" % (h, b), h + b


# ------------------------------------------------------------------ sequences of statements
STMTS = ["torch.add(a, b)", "v = torch.slogdet(a)", "v = a.max()", "v = a.is_shared()", "torch.zzz_unknown(a)",
         "v = torch.float32", "import torch.nn as nn", "v = nn.Linear(a, b)", "w = foo(a)", "if w:\n    v = torch.adjoint(a)",
         "def f(a):\n    return torch.svd(a)", "from torch import nn", "a.eq_(b)", "'torch.text'", "v = torch.slogdet(torch.adjoint(a))",
         "for i in w: torch.add(a, b)"]


def sequences(n, stmts=None):
    for k in range(1, n + 1):
        for s in itertools.product(stmts or STMTS, repeat=k):
            yield "seq/" + ";".join(s), "import torch\n" + "\n".join(s) + "\n"


def everything(tier):
    """quick: the whole depth-1 universe; thorough: depth 2 nesting everywhere and longer sequences."""
    deep = tier == "thorough"
    yield from ctx_uses()
    yield from ctx_reps([c[0] for c in CONTEXTS] if deep else None)
    yield from headers()
    yield from import_blocks()
    yield from sequences(3 if deep else 2)
    yield from nested(None, None if deep else CORE_CTX, NEST_USES if deep else NEST_USES[:3])
    yield from rows(tier)
