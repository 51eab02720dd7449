"""Python's own syntax, free of PyTorch: every expression and statement kind (3.12), literals included."""
EXPRS = """
x
1
-1
10**20
0x_ff
0b11
1_000_000
1.0
1.5e-07
1e100
1e309
-1e309
3j
1.5j
-2j
0.1
True
None
...
'a'
"it's"
'say "hi"'
'both \\' and "'
'back\\\\slash'
'tab\\t nl\\n cr\\r'
'\\x00\\x7f\\xe9'
'\\u4e2d\\U0001f600'
'中文'
''
'''tri"ple'''
'a\\nb\\nc long line with many characters to make the printer choose triple quotes\\n and more'
'%s {} {{}} {0}'
r'raw\\d+'
b'bytes'
b'\\x00\\xff"'
b''
f''
f'{x}'
f'a{x}b{y}c'
f'{x!r} {x!s} {x!a}'
f'{x:>10} {x:.2f}'
f'{x:{w}.{p}}'
f'{x=}'
f'{{}} {x}'
f'{x["k"]}'
f"{x['k']} it's"
f'{x + 1} {foo(y)}'
f'{(lambda: 1)()}'
f'{x if y else z}'
f'{", ".join(x)}'
f'nl\\n{x}\\t'
f'{x}' 'tail'
f'{f"{x}"}'
'a' 'b'
x + y
x - y - z
x - (y - z)
x ** y ** z
(x ** y) ** z
-x ** y
(-x) ** y
2 ** -1
x % y
x // y
x / y
x @ y
x << 1
x >> 1
x & y | z ^ w
~x
+x
not x
not not x
not (x and y)
x and y or z
x and (y or z)
x or y and z
(x or y) and z
x < y
x < y <= z
(x < y) < z
x is None
x is not None
x in y
x not in y
not x in y
x == y != z
x if y else z
x if y else z if w else u
(x if y else z) if w else u
(x, y if z else w)
lambda: 0
lambda a: a
lambda a, b=1, *c, d, e=2, **f: a
lambda *a: a
lambda *, k: k
lambda a, /, b: a
lambda: (yield)
foo()
foo(x)
foo(x, y, z)
foo(k=1)
foo(x, k=1)
foo(*x)
foo(**x)
foo(*x, *y, k=1, **z, **w)
foo(x, *y, z)
foo(x for x in y)
foo((x for x in y), z)
foo(lambda: 1)
foo(x if y else z)
foo(k=x if y else z)
foo(k=lambda: 1)
foo(not x)
foo((x, y))
foo(x := 1)
foo()()
foo().zattr
foo().zmeth().zattr
foo(x)(y)(z)
x.zattr
x.zattr.zother
(x + y).zattr
(-x).zattr
1 .zattr
1.0.zattr
'a'.zattr
'a,b'.zsplit(',')
(lambda: 1).zattr
(x if y else z).zattr
x[0]
x[-1]
x[0][1]
x[1:2]
x[:]
x[::2]
x[1:]
x[:-1]
x[1:2, 3]
x[..., 0]
x[:, None]
x[(1, 2)]
x[()]
x[1,]
x[a:b:c]
x[*y]
x[lambda: 1]
x['k']
x[y[z]]
x[i for_else]
()
(x,)
(x, y)
(x, (y, z))
((x, y), z)
[]
[x]
[x, y]
[[x], [y]]
[*x, y]
(*x, y)
{x}
{x, y}
{*x, y}
{}
{'a': 1}
{'a': 1, **x}
{x: y, z: w}
{**x, **y}
{1: {2: {3: 4}}}
[x for x in y]
[x for x in y if z]
[x for x in y if z if w]
[x for x in y for z in w]
[(x, y) for x, y in z]
[[x for x in y] for y in z]
[x if y else z for x in w]
[x for x in (y if z else w)]
[x for x in lambda: y, 1]
{x for x in y}
{x: y for x, y in z}
(x for x in y)
[(yield x) for_else]
(y := x)
[y := 1, y]
x[(y := 1)]
foo(x)[y].zattr
(x, *y)
x.zattr[0].zother(1)
not x.zattr
x.zattr ** 2
-x.zattr
(x + y) * z
x + y * z
x * (y + z)
x * y % z
x - -y
x & (y == z)
x == (y & z)
(x == y) & z
(x := y) + 1
(yield_)
print('x', end='')
x.zy if x else None
""".strip("\n").split("\n")
EXPRS = [e for e in EXPRS if "for_else" not in e and "lambda: y, 1" not in e]

STMTS = """
pass
x
x = 1
x = y = 1
x, y = y, x
(x, y) = z
[x, y] = z
x, *y = z
*x, = z
x, (y, z) = w
x.zattr = 1
x[0] = 1
x[1:2] = y
x.zattr, x[0] = 1, 2
x += 1
x -= 1; y = 2
x //= 2
x **= 2
x @= y
x <<= 1
x >>= 1
x &= y
x ^= y
x |= y
x %= y
x.zattr += 1
x[0] += 1
x: int
x: int = 1
(x): int = 1
x.zattr: int = 1
x[0]: int = 1
x: 'int' = 1
x: int = (1, 2)
x: tuple = 1, 2
del x
del x, y
del x[0], x.zattr
del (x)
del (x, y)
assert x
assert x, 'm'
assert (x, y)
raise
raise E
raise E('m')
raise E from None
raise E('m') from x
global x
import zmod
import zmod as zm
import zmod.zsub
import zmod.zsub as zs
import zmod, zmod2 as z2
from zmod import x
from zmod import x as y
from zmod import x, y as z
from zmod import *
from zmod.zsub import x
from . import x
from .zsub import x
from .. import x
from ..zsub.zz import x, y
from ... import x
if x: pass
if x:¶    pass¶else:¶    y
if x:¶    pass¶elif y:¶    z
if x:¶    pass¶elif y:¶    z¶elif w:¶    u¶else:¶    v
if x:¶    pass¶else:¶    if y:¶        z
if x:¶    pass¶else:¶    if y:¶        z¶    w
while x:¶    pass
while x:¶    break¶else:¶    y
while True:¶    continue
while (y := x):¶    pass
for x in y:¶    pass
for x, y in z:¶    pass
for (x, y), z in w:¶    pass
for x in y, z:¶    pass
for x in y:¶    break¶else:¶    z
for x.zattr in y:¶    pass
for x[0] in y:¶    pass
for x in *y, z:¶    pass
with x:¶    pass
with x as y:¶    pass
with x as y, z as w:¶    pass
with x as (y, z):¶    pass
with x as y.zattr, z as w[0]:¶    pass
with (x, y):¶    pass
with (x as y, z as w):¶    pass
with (yield_):¶    pass
try:¶    pass¶except:¶    pass
try:¶    pass¶except E:¶    pass
try:¶    pass¶except E as e:¶    x
try:¶    pass¶except (E, F) as e:¶    x
try:¶    pass¶except E:¶    x¶except F:¶    y¶else:¶    z¶finally:¶    w
try:¶    pass¶finally:¶    x
try:¶    pass¶except E:¶    raise
try:¶    try:¶        x¶    finally:¶        y¶except E:¶    z
def f(): pass
def f(a): return a
def f(a, b=1): return
def f(*a, **k): pass
def f(a, *, b): pass
def f(a, *, b=1, c): pass
def f(a, /): pass
def f(a, /, b, *c, d=1, **e): pass
def f(a: int, *b: str, c: float = 1.0, **d: dict) -> None: pass
def f(a: 'int' = 1) -> 'str': ...
def f():¶    'doc'
def f():¶    'doc'¶    return 1
def f():¶    '''multi¶    line "doc" \\n¶    '''¶    return 1
def f():¶    global x¶    x = 1
def f():¶    x = 1¶    def g():¶        nonlocal x¶        x = 2¶    return g
def f():¶    yield
def f():¶    yield x
def f():¶    yield x, y
def f():¶    x = yield
def f():¶    x = yield y
def f():¶    x += yield y
def f():¶    yield from x
def f():¶    x = yield from y
def f():¶    foo((yield x), (yield))
def f():¶    return (yield x)
def f():¶    return x, y
def f():¶    return *x, y
def f():¶    return (x for x in y)
def f():¶    return lambda: x
def f():¶    await_ = 1¶    return await_
@deco¶def f(): pass
@deco.zattr(1)¶@deco2¶def f(): pass
@(lambda g: g)¶def f(): pass
@x[0].zattr¶def f(): pass
class C: pass
class C(): pass
class C(B): pass
class C(B, metaclass=M): pass
class C(B, *x, k=1, **y): pass
class C:¶    'doc'¶    x = 1¶    def m(self): return self.x
class C:¶    x: int¶    y: int = 1
class C:¶    class D:¶        pass
@deco¶class C: pass
class C:¶    @property¶    def p(self): return 1¶    @p.setter¶    def p(self, v): pass
class C(B):¶    def __init__(self):¶        super().__init__()
async def f(): pass
async def f():¶    await x
async def f():¶    y = await x¶    return y
async def f():¶    return await x + await y
async def f():¶    await x.zmeth()
async def f():¶    (await x).zattr
async def f():¶    async for x in y:¶        pass
async def f():¶    async for x in y:¶        pass¶    else:¶        z
async def f():¶    async with x as y, z:¶        pass
async def f():¶    return [x async for x in y]
async def f():¶    return [await x for x in y]
async def f():¶    return {x: y async for x, y in z if w}
async def f():¶    yield x
async def f():¶    foo(await x, *await y)
'bare string'
'''bare¶multi'''
1
...
x; y; z
if x:¶    y; z
# comment
x  # trailing
if x:¶    # c¶    pass
x = (1,¶     2)
x = [¶    1,¶    2,¶]
x = '''a¶b¶  c'''
x = 'a' \\¶    'b'
x = foo(¶    y,¶    k=1,¶)
if (x and¶        y):¶    pass
print('hello %s' % x)
print(f'{x} and {y}', file=z)
if __name__ == '__main__':¶    main()
x = y if z else (w, u)
x = (yield_)
x = lambda: (y, z)
x = y,
x = (y, z)[0]
x = not y == z
x = -1 ** 2
x = (-1) ** 2
x = 1 if y else 2 if z else 3
x = [y for y in z if y if not w]
x = {**y, 'k': 1}
x = y[z, ..., None, 1:2]
x = f'{y!r:>{w}}'
x = very_long_function_name_number_one(argument_number_one, argument_number_two, argument_number_three=value_three)
x = 'a very long string literal that does not fit into one line of eighty characters and has to be kept exactly as is'
x = {'key one': 'value one', 'key two': 'value two', 'key three': 'value three', 'key four': [1, 2, 3, 4, 5, 6]}
assert isinstance(x, (int, float)), 'some quite long message that makes the line longer than eighty characters'
def f(a_long_parameter_name, another_long_parameter_name=None, yet_another_long_parameter_name=12345, *args, **kwargs): pass
x = a_long_name + another_long_name * yet_another_long_name - still_another_long_name / the_last_long_name_here ** 2
""".strip("\n").split("\n")
STMTS = [s.replace("¶", "\n") for s in STMTS]

# constructs the printer of the pinned astor version is not able to print (known findings)
NEWER = """
match x:¶    case 1:¶        pass
match x:¶    case [a, *b]:¶        pass¶    case {'k': v, **r}:¶        pass¶    case C(z=1) | D():¶        pass¶    case _:¶        pass
try:¶    pass¶except* E:¶    pass
type T = int
def f[T](a: T) -> T: pass
class C[T]: pass
""".strip("\n").split("\n")
NEWER = [s.replace("¶", "\n") for s in NEWER]

EXPR_CTX = ["__E__", "v = __E__", "v = foo(__E__, 1)", "v = [__E__]", "if __E__:\n    pass", "def f(p=__E__):\n    return __E__",
            "v = (__E__) + w", "v = w ** (__E__)", "v = not (__E__)", "v = (__E__).zattr", "v = (__E__)[0]", "v = w[__E__]", "v = (__E__) if w else u",
            "v = f'{(__E__)}'", "v = lambda: (__E__)", "v = {'k': (__E__)}", "v = -(__E__)", "return_f(*(__E__), k=(__E__))", "v: int = __E__",
            "assert (__E__), 'm'", "v = w < (__E__)", "v = (__E__) and w", "for i in (__E__):\n    pass", "with (__E__) as v:\n    pass"]

STMT_CTX = ["__S__", "if c:\n    __S__", "def fn():\n    __S__", "for i in c:\n    __S__\nelse:\n    __S__", "try:\n    __S__\nexcept E:\n    __S__",
            "class K:\n    __S__", "class K:\n    def m(self):\n        __S__", "with c:\n    __S__", "async def fn():\n    __S__", "while c:\n    __S__",
            "if c:\n    pass\nelif d:\n    __S__\nelse:\n    __S__", "try:\n    pass\nfinally:\n    __S__"]


def put(ctx, stmt):
    """Substitute a (multi-line) statement; string contents must not be re-indented, so callers drop
    combinations whose tree would differ."""
    out = []
    for l in ctx.split("\n"):
        if l.strip() == "__S__":
            ind = l[:l.index("__S__")]
            out += [ind + s for s in stmt.split("\n")]
        else:
            out.append(l)
    return "\n".join(out) + "\n"
