"""The finite alphabets every check enumerates over: contexts (where a use can stand), uses (one per
outcome class), block shapes, import spellings, call shapes of every row of the mapping tables."""
import ast, functools
from . import core

H = "__H__"

# ------------------------------------------------------------------ contexts
# (name, template, once): `once` - the hole is evaluated exactly once when its statement runs, so helper
# statements may stand before the statement.
_C = """
expr|__H__
assign|v = __H__
assign2|v = w = __H__
assign_tuple|v, w = __H__
assign_star|v, *w = __H__
assign_attr|obj.zf = __H__
assign_item|obj[__H__] = 1
assign_item_val|obj[0] = __H__
aug|v += __H__
ann|v: int = __H__
ann_type|v: __H__ = 1
ann_bare|v: __H__
delitem|del obj[__H__]
assert_|assert __H__
assert_msg|assert obj, __H__
raise_|raise __H__
raise_from|raise obj from __H__
if_|if __H__:¶    pass
if_body|if obj:¶    v = __H__
if_body2|if obj:¶    w = 1¶    v = __H__¶    w = 2
else_body|if obj:¶    pass¶else:¶    v = __H__
elif_|if obj:¶    pass¶elif __H__:¶    pass
elif_body|if obj:¶    pass¶elif w:¶    v = __H__
while_body|while obj:¶    v = __H__
while_else|while obj:¶    pass¶else:¶    v = __H__
for_iter|for i in __H__:¶    pass
for_target|for obj[__H__] in w:¶    pass
for_body|for i in obj:¶    v = __H__
for_else|for i in obj:¶    pass¶else:¶    v = __H__
with_|with __H__:¶    pass
with_as|with __H__ as w:¶    pass
with_2nd|with obj as w, __H__ as u:¶    pass
with_body|with obj:¶    v = __H__
try_body|try:¶    v = __H__¶except E:¶    pass
try_else|try:¶    pass¶except E:¶    pass¶else:¶    v = __H__
try_finally|try:¶    pass¶finally:¶    v = __H__
except_body|try:¶    pass¶except E as e:¶    v = __H__
except_2nd|try:¶    pass¶except E:¶    pass¶except F:¶    v = __H__
return_|def f():¶    return __H__
fn_body|def f(p, q=1):¶    v = __H__¶    return v
fn_doc|def f():¶    'doc'¶    v = __H__
fn_nested|def f():¶    def g():¶        v = __H__¶    return g
fn_default|def f(p=__H__):¶    pass
fn_kwdefault|def f(*, p=__H__):¶    pass
fn_ann|def f(p: __H__):¶    pass
fn_ret|def f() -> __H__:¶    pass
fn_deco|@__H__¶def f():¶    pass
fn_deco2|@deco¶@__H__¶def f():¶    pass
yield_|def f():¶    yield __H__
yield_from|def f():¶    yield from __H__
yield_assign|def f():¶    v = yield __H__
cls_base|class C(__H__):¶    pass
cls_kw|class C(obj, k=__H__):¶    pass
cls_body|class C:¶    v = __H__
cls_ann|class C:¶    v: int = __H__
cls_deco|@__H__¶class C:¶    pass
cls_method|class C:¶    def m(self):¶        v = __H__¶        return v
cls_method_deco|class C:¶    @__H__¶    def m(self):¶        pass
cls_method_default|class C:¶    def m(self, p=__H__):¶        pass
cls_in_fn|def f():¶    class C:¶        v = __H__¶    return C
async_body|async def f():¶    v = __H__
async_await|async def f():¶    v = await __H__
async_for|async def f():¶    async for i in __H__:¶        pass
async_for_body|async def f():¶    async for i in obj:¶        v = __H__
async_with|async def f():¶    async with __H__ as w:¶        pass
async_with_body|async def f():¶    async with obj:¶        v = __H__
async_method|class C:¶    async def m(self):¶        v = __H__
arg|foo(__H__)
arg2|foo(1, __H__, 2)
kwarg|foo(k=__H__)
stararg|foo(*__H__)
starkwarg|foo(**__H__)
method_arg|obj.zmeth(__H__)
deep_arg|foo(bar(baz(__H__)))
item|v = obj[__H__]
item_tuple|v = obj[__H__, 1]
item_slice|v = obj[__H__:]
item_slice2|v = obj[1:__H__:2]
item_base|v = __H__[0]
binl|v = __H__ + w
binr|v = w ** __H__
matmul|v = w @ __H__
unary|v = -__H__
not_|v = not __H__
and_|v = obj and __H__
or_|v = __H__ or obj
cmp_|v = w < __H__
cmp_chain|v = 1 < __H__ < 3
in_|v = w in __H__
ifexp_then|v = __H__ if obj else w
ifexp_test|v = w if __H__ else obj
ifexp_else|v = w if obj else __H__
tuple_|v = w, __H__
list_|v = [1, __H__]
set_|v = {1, __H__}
dict_val|v = {'a': __H__}
dict_key|v = {__H__: 1}
dict_star|v = {**__H__}
star_list|v = [*__H__]
walrus|v = (w := __H__)
walrus_if|if (w := __H__):¶    pass
fstr|v = f'{__H__}'
fstr_mixed|v = f'a {w} {__H__!r} b'
print_|print('x', __H__)
print_fstr|print(f'loss {__H__}')
global_|def f():¶    global v¶    v = __H__
after_return|def f():¶    if obj:¶        return 1¶    v = __H__
semi|w = 1; v = __H__
deep|class C:¶    def m(self):¶        for i in obj:¶            if i:¶                with obj:¶                    v = __H__
nested_if|if obj:¶    if w:¶        v = __H__¶    else:¶        v = 1
try_in_fn|def f():¶    try:¶        return __H__¶    finally:¶        pass
dict_meth|v = {'k': __H__}.zitems()
list_meth|v = [__H__].zmeth(w)
tuple_meth|for i in (w, __H__).zmeth():¶    pass
fstr_meth|v = f'{__H__}'.zformat(w)
attr_chain|v = __H__.zattr.zother
attr_call_chain|v = foo(__H__).zattr.zother(1).zz
match_subject|match __H__:¶    case 1:¶        pass
match_body|match obj:¶    case 1:¶        v = __H__¶    case _:¶        pass
match_body2|match obj:¶    case 1:¶        pass¶    case [w, *u]:¶        w = 1¶        v = __H__
trystar_body|try:¶    v = __H__¶except* E:¶    pass
exceptstar_body|try:¶    pass¶except* E as e:¶    v = __H__
"""
_CN = """
while_test|while __H__:¶    pass
lambda_|v = lambda: __H__
lambda_arg|v = lambda p: foo(p, __H__)
lambda_default|v = lambda p=__H__: p
listcomp|v = [__H__ for i in obj]
listcomp_if|v = [i for i in obj if __H__]
listcomp_iter|v = [i for i in __H__]
setcomp|v = {__H__ for i in obj}
dictcomp_k|v = {__H__: i for i in obj}
dictcomp_v|v = {i: __H__ for i in obj}
genexp|v = sum(__H__ for i in obj)
genexp_iter|v = list(i for i in __H__)
comp_nested|v = [[__H__ for j in i] for i in obj]
lambda_in_arg|foo(key=lambda p: __H__)
comp_in_fn|def f():¶    return [__H__ for i in obj]
comp_meth|v = [__H__ for i in obj].zmeth().zattr
lambda_meth|v = (lambda: __H__).zmeth()
match_guard|match obj:¶    case [w] if __H__:¶        pass
fn_default_lambda|def f(p=lambda: __H__):¶    pass
"""


def _parse(t, once):
    r = []
    for l in t.strip().split("\n"):
        n, s = l.split("|", 1)
        r.append((n, s.replace("¶", "\n"), once))
    return r


CONTEXTS = _parse(_C, True) + _parse(_CN, False)
CTX = {n: (t, o) for n, t, o in CONTEXTS}
# contexts whose hole needs a type/decorator rather than a value are syntactically just expressions

# compact set used where a second dimension is large
CORE_CTX = ["assign", "arg", "if_", "if_body", "else_body", "for_iter", "for_body", "with_body", "try_body",
            "except_body", "try_finally", "return_", "fn_body", "fn_default", "fn_deco", "cls_body", "cls_method",
            "async_body", "lambda_", "listcomp", "while_test", "ifexp_else", "dict_val", "fstr", "binr", "deep_arg",
            "elif_", "item", "expr", "kwarg"]

# ------------------------------------------------------------------ uses, one per outcome class
# name, expression, (counted, converted), needs helper statements
USES = [
    ("prefix", "torch.add(a, b)", (1, 1), False),
    ("prefix_kw", "torch.sum(a, dim=k)", (1, 1), False),
    ("class", "torch.nn.ReLU()", (1, 1), False),
    ("change_api", "torch.cuda.get_rng_state()", (1, 1), False),
    ("attr", "torch.float32", (1, 1), False),
    ("attr_class", "torch.nn.Module", (1, 1), False),
    ("method", "a.add(b)", (1, 1), False),
    ("method_self", "self.w.add(b)", (1, 1), False),
    ("tensor_attr", "a.data", (1, 1), False),
    ("nested", "torch.add(torch.abs(a), torch.mul(b, a))", (3, 3), False),
    ("chain", "torch.abs(a).add(b)", (2, 2), False),
    ("multi", "torch.slogdet(a)", (1, 1), True),
    ("multi2", "torch.signal.windows.cosine(5, requires_grad=True)", (1, 1), True),
    ("helper", "a.max(b)", (1, 1), False),
    ("unsup_table", "torch.sparse.sampled_addmm(a, b, c)", (1, 0), False),
    ("unsup_unknown", "torch.zzz_unknown(a)", (1, 0), False),
    ("unsup_attr", "torch.zzz_attr", (1, 0), False),
    ("unsup_method", "a.is_shared()", (1, 0), False),
    ("unsup_mixed", "torch.zzz_unknown(torch.add(a, b))", (2, 1), False),
    ("unsup_inner", "torch.add(torch.zzz_unknown(a), b)", (2, 1), False),
    ("plain", "foo(a)", (0, 0), False),
]
USE = {u[0]: u for u in USES}
ATTR_USES = ("attr", "attr_class", "unsup_attr", "tensor_attr")      # followed by .x they name another API


def fill(tmpl, expr):
    return tmpl.replace(H, "(" + expr + ")" if not expr.isidentifier() else expr)


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return self.m.get(n.id, n)


# ------------------------------------------------------------------ rows of the tables
@functools.lru_cache(None)
def tables():
    return dict(api=core.table("api_mapping"), attr=core.table("attribute_mapping"),
                wild=core.table("api_wildcard_mapping"), alias=core.table("api_alias_mapping"))


CLASS_PREFIX = ("torch.Tensor.", "torch.nn.Module.", "torch.optim.Optimizer.",
                "torch.autograd.function.FunctionCtx.", "torch.distributions.distribution.Distribution.")


def params(row):
    """(positional parameters, keyword-only parameters)"""
    al = row.get("args_list") or []
    if "*" in al:
        i = al.index("*")
        return al[:i], [x for x in al[i + 1:] if x != "*"]
    return list(al), []


def is_method(api):
    return api.startswith("torch.Tensor.") and api.count(".") == 2


def callee(api):
    """How a user writes the API: methods through an object named `a`."""
    return "a." + api.rsplit(".", 1)[1] if is_method(api) else api


def package(api):
    return api.split(".")[0]


def import_for(api):
    return "import %s\n" % package(api) if not is_method(api) else "import torch\n"
