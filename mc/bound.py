"""Definite-assignment analysis of a program: which names may be used before (or without) being bound."""
import ast, builtins

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__spec__", "__path__", "__package__", "__class__", "__annotations__", "__debug__", "__module__", "__qualname__"}


def exports(tree):
    """names 'from m import *' brings in"""
    a = Analysis(tree)
    for n in tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            return set(ast.literal_eval(n.value))
    return {x for x in a.final if not x.startswith("_")}


class Analysis:
    """unbound: {(scope path, name): line} for every use that is not preceded by a binding on every path"""

    def __init__(self, tree, star=None):
        self.unbound = {}
        self.star = star or {}
        self.where = []
        env = set()
        self.final = self.block(tree.body, env)

    # env: names bound on every path to this point and visible here
    def use(self, name, line, env):
        if name not in env and name not in BUILTIN:
            self.unbound.setdefault((".".join(self.where), name), line)

    def block(self, stmts, env):
        for s in stmts:
            env = self.stmt(s, env)
        return env

    def pattern_names(self, p):
        r = set()
        for n in ast.walk(p):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                r.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                r.add(n.rest)
        return r

    def target(self, t, env):
        """evaluate an assignment target, return the names bound"""
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            r = set()
            for e in t.elts:
                r |= self.target(e, env | r)
            return r
        if isinstance(t, ast.Starred):
            return self.target(t.value, env)
        self.expr(t, env)
        return set()

    def expr(self, e, env):
        """returns env (walrus may add names)"""
        if e is None:
            return env
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.use(e.id, e.lineno, env)
            return env
        if isinstance(e, ast.NamedExpr):
            env = self.expr(e.value, env)
            return env | {e.target.id}
        if isinstance(e, ast.Lambda):
            a = e.args
            for d in a.defaults + [x for x in a.kw_defaults if x]:
                env = self.expr(d, env)
            self.where.append("<lambda>")
            self.expr(e.body, self.outer(env) | self.argnames(a))
            self.where.pop()
            return env
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = None
            for i, g in enumerate(e.generators):
                self.expr(g.iter, env if i == 0 else inner)
                if inner is None:
                    inner = self.outer(env)
                inner = inner | self.target(g.target, inner)
                for c in g.ifs:
                    inner = self.expr(c, inner)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, inner)
                self.expr(e.value, inner)
            else:
                self.expr(e.elt, inner)
            return env
        if isinstance(e, ast.BoolOp):
            env = self.expr(e.values[0], env)
            for v in e.values[1:]:
                self.expr(v, env)
            return env
        if isinstance(e, ast.IfExp):
            env = self.expr(e.test, env)
            return self.expr(e.body, env) & self.expr(e.orelse, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                env = self.expr(c, env)
            elif isinstance(c, ast.keyword):
                env = self.expr(c.value, env)
            else:
                env = self.expr(c, env) if isinstance(c, ast.AST) and list(ast.iter_child_nodes(c)) else env
        return env

    def outer(self, env):
        """names of env a nested function scope can see: those of an enclosing class body are invisible"""
        return env - set().union(*self.hidden) if getattr(self, "hidden", None) else env

    @staticmethod
    def argnames(a):
        return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())

    def function(self, s, env):
        for d in s.decorator_list:
            env = self.expr(d, env)
        a = s.args
        for d in a.defaults + [x for x in a.kw_defaults if x]:
            env = self.expr(d, env)
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            env = self.expr(x.annotation, env)
        env = self.expr(s.returns, env)
        inner = self.outer(env) | self.argnames(a) | {s.name}
        self.where.append(s.name)
        local = self.locals(s)
        inner = (inner - local) | self.argnames(a)
        hid, self.hidden = getattr(self, "hidden", None), []
        self.block(s.body, inner)
        self.hidden = hid
        self.where.pop()
        return env | {s.name}

    def locals(self, f):
        """names bound in the body of f itself (so a same-named outer one is invisible)"""
        r, glob = set(), set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    r.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    r.add(c.id)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    r.update((x.asname or x.name.split(".")[0]) for x in c.names)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    r.add(c.name)
                walk(c)
        for s in f.body:
            walk(ast.Module([s], []))
        return r - glob

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return self.function(s, env)
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                env = self.expr(d, env)
            self.where.append(s.name)
            hid = getattr(self, "hidden", None)
            bound = set()
            e = env
            for x in s.body:
                self.hidden = (hid or []) + [bound]
                e2 = self.stmt(x, e)
                bound = bound | (e2 - e)
                e = e2
            self.hidden = hid
            self.where.pop()
            return env | {s.name}
        if isinstance(s, ast.Import):
            return env | {(x.asname or x.name.split(".")[0]) for x in s.names}
        if isinstance(s, ast.ImportFrom):
            r = set()
            for x in s.names:
                if x.name == "*":
                    r |= self.star.get(s.module, set())
                else:
                    r.add(x.asname or x.name)
            return env | r
        if isinstance(s, ast.Assign):
            env = self.expr(s.value, env)
            for t in s.targets:
                env = env | self.target(t, env)
            return env
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.use(s.target.id, s.lineno, env)
            else:
                self.expr(s.target, env)
            return self.expr(s.value, env)
        if isinstance(s, ast.AnnAssign):
            env = self.expr(s.annotation, env)
            if s.value is not None:
                env = self.expr(s.value, env)
                return env | self.target(s.target, env)
            return env
        if isinstance(s, (ast.For, ast.AsyncFor)):
            env = self.expr(s.iter, env)
            self.block(s.body, env | self.target(s.target, env))
            self.block(s.orelse, env)
            return env
        if isinstance(s, ast.While):
            env = self.expr(s.test, env)
            self.block(s.body, env)
            self.block(s.orelse, env)
            return env
        if isinstance(s, ast.If):
            env = self.expr(s.test, env)
            a, b = self.block(s.body, env), self.block(s.orelse, env)
            return self.join(a, s.body, b, s.orelse)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                env = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    env = env | self.target(i.optional_vars, env)
            return self.block(s.body, env)
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            a = self.block(s.body, env)
            outs = [(self.block(s.orelse, a), s.orelse or s.body)]
            for h in s.handlers:
                e = self.expr(h.type, env)
                b = self.block(h.body, e | ({h.name} if h.name else set()))
                outs.append((b, h.body))
            r, body = outs[0]
            for b, hb in outs[1:]:
                r = self.join(r, body, b, hb)
                body = [] if not self.leaves(body) or not self.leaves(hb) else body
            f = self.block(s.finalbody, env)
            return r | f
        if isinstance(s, ast.Match):
            env = self.expr(s.subject, env)
            r = None
            for c in s.cases:
                e = env | self.pattern_names(c.pattern)
                for n in ast.walk(c.pattern):
                    if isinstance(n, ast.MatchValue):
                        self.expr(n.value, env)
                    elif isinstance(n, ast.MatchClass):
                        self.expr(n.cls, env)
                if c.guard is not None:
                    e = self.expr(c.guard, e)
                self.block(c.body, e)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(t.id, s.lineno, env)
                    env = env - {t.id}
                else:
                    self.expr(t, env)
            return env
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue)):
            return env
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                env = self.expr(c, env)
        return env

    @staticmethod
    def leaves(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))

    def join(self, a, abody, b, bbody):
        if self.leaves(abody):
            return b
        if self.leaves(bbody):
            return a
        return a & b
