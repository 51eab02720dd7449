"""Standalone conversion of one use (in directory mode, so helper code lives in its own file) and its substitution into
any context: the reference for context independence."""
import ast, copy, os, re
from . import core, gram

_cache = {}


def convert_dir(code, mode="default", no_format=True, extra=None, name="prog.py"):
    """Directory mode on a one-file project: (text, helper text or None, total, failed, error)"""
    Converter = core.import_paconvert()
    d = core.fresh_dir()
    tree = {name: code}
    tree.update(extra or {})
    core.write_tree(os.path.join(d, "in"), tree)
    try:
        c = Converter(mode=mode, log_dir="disable", no_format=no_format)
        s, f = c.run(os.path.join(d, "in"), os.path.join(d, "out"))
    except core.CaseTimeout:
        raise
    except BaseException as e:
        return None, None, None, None, core.short(e)
    out = core.read_tree(os.path.join(d, "out"))
    h = out.get("paddle_utils.py")
    return out[name].decode("utf-8").replace(d, "/scratch"), h.decode("utf-8") if h is not None else None, s + f, f, None


def is_prelude(n):
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return True
    return isinstance(n, ast.Expr) and "sys.path" in ast.dump(n) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == "sys.path.append")


class Standalone:
    """prelude: set of import dumps; helpers: statements before; expr; annotations: list of strings; helper_file; marked"""


def standalone(expr, imports="import torch\n", mode="default"):
    key = (expr, imports, mode)
    if key in _cache:
        return _cache[key]
    text, h, total, failed, err = convert_dir(imports + "zv = " + expr + "\n", mode)
    r = None
    if not err and not core.compiles(core.strip_marks(text)):
        body = ast.parse(core.strip_marks(text)).body
        pre = [n for n in body if is_prelude(n)]
        rest = [n for n in body if not is_prelude(n)]
        if rest and isinstance(rest[-1], ast.Assign) and ast.unparse(rest[-1].targets[0]) == "zv":
            r = Standalone()
            r.prelude = {core.dump(n) for n in pre}
            r.helpers = rest[:-1]
            r.notes = [n for n in rest[:-1] if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)]
            r.stmts = [n for n in rest[:-1] if n not in r.notes]
            r.expr = rest[-1].value
            r.file = h
            r.marked = len(core.marked_lines(text))
            r.total, r.failed = total, failed
    _cache[key] = r
    return r


class _Fill(ast.NodeTransformer):
    """replace placeholder names by expressions, and insert statements before the statement that holds each one"""

    def __init__(self, m, ins):
        self.m, self.ins, self.pending = m, ins, [[]]

    def visit_Name(self, n):
        if n.id in self.m:
            self.pending[-1] += [copy.deepcopy(s) for s in self.ins.get(n.id, [])]
            return copy.deepcopy(self.m[n.id])
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            self.pending.append([])
            s = self.visit(s)
            pre = self.pending.pop()
            seen = set()
            for p in pre:
                k = core.dump(p)
                if isinstance(p, ast.Expr) and isinstance(p.value, ast.Constant):      # one note per statement is enough
                    if k in seen:
                        continue
                    seen.add(k)
                out.append(p)
            out.append(s)
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node


def substitute(tmpl, m, ins):
    t = ast.parse(tmpl)
    f = _Fill(m, ins)
    f.generic_visit(t)
    return t


GEN = re.compile(r"^[A-Za-z_]\w*_\d+$")


def rename(st, source, k):
    """the expression and helper statements of a standalone conversion with the generated names made distinct for use k"""
    names = {n.id for x in st.stmts for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and GEN.match(n.id)} - \
            {n.id for n in ast.walk(ast.parse(source)) if isinstance(n, ast.Name)}
    if not names:
        return st.expr, st.helpers
    body = copy.deepcopy([ast.Expr(st.expr)] + st.helpers)
    for x in body:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id in names:
                a, b = n.id.rsplit("_", 1)
                n.id = "%s_%d" % (a, int(b) + 1000 * (k + 1))
    return body[0].value, body[1:]


def inner_converted(expr, imports):
    """a call that stays unconverted: its arguments are still converted"""
    c = ast.parse(expr, mode="eval").body
    if isinstance(c, ast.Call):
        def conv(x):
            s = standalone(ast.unparse(x), imports) if not isinstance(x, (ast.Name, ast.Constant, ast.Starred)) else None
            return s.expr if s is not None and not s.stmts else x
        c.args = [conv(x) for x in c.args]
        for k in c.keywords:
            k.value = conv(k.value)
    return c


def is_note(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and n.value.value.startswith("Not Support")


def strip_notes(tree):
    for n in ast.walk(tree):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, [x for x in v if not is_note(x)])
    return tree


def reparse(tree):
    """what the syntax tree means once printed (Python prints 'with (a, b):' for a tuple)"""
    try:
        return ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
    except SyntaxError:
        return tree


def norm_names(s):
    """generated names differ by their number only"""
    seen = {}

    def f(m):
        return "'%s#%d'" % (m[1], seen.setdefault(m[0], len(seen)))
    return re.sub(r"'([A-Za-z_]\w*?)_(\d+)'", f, s)


def body_dump(tree):
    return norm_names("\n".join(core.dump(n) for n in tree.body if not is_prelude(n)))


def prelude(tree):
    return {core.dump(n) for n in tree.body if is_prelude(n)}
