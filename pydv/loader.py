"""Loads the real modules of /repo and instruments their AST mechanically, on every run.

What the instrumentation changes (and nothing else):
  * for / async for / while loops inside functions are driven by the loop rule (loops.py) and get a
    statement at the start of the body that re-reads the assigned locals from it;
  * list, dict and set displays and comprehensions build model containers;
  * `*seq` in calls and `*args` of functions also pass sequences of unknown length;
  * `is` / `is not` go through identity of symbolic values; f-strings keep symbolic parts;
  * str/int/float/bool calls and the builtin functions are the model ones;
  * every function entry is logged (evidence); every class logs attribute writes (loop frames);
  * exception handlers let the verifier's own control signals pass.
Annotations, docstrings and default arguments stay; imports resolve to instrumented modules of the
repository, to the models (asyncio, time, random, ...), or to the real standard library.
"""
import ast
import builtins
import enum
import os
import sys
import types

REPO = os.environ.get("PYDV_REPO", "/repo")

CAST = {"str", "int", "float", "bool"}


class Assigned(ast.NodeVisitor):
    """Names of the current function that executing this code may (re)bind."""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        self.visit(node.generators[0].iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def assigned(nodes):
    v = Assigned()
    for n in nodes:
        v.visit(n)
    return v.names


def nonlocals_of(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Nonlocal):
            out += n.names
    return out


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def call(f, *args):
    return ast.Call(func=name(f) if isinstance(f, str) else f, args=list(args), keywords=[])


def const(c):
    return ast.Constant(value=c)


def has_await(node):
    return any(isinstance(n, (ast.Await, ast.NamedExpr)) or getattr(n, "is_async", 0) for n in ast.walk(node))


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []       # (kind, name)
        self.fn = []          # per function: [loop counter, node, names declared global]
        self.tmp = 0

    def qual(self):
        return ".".join(n for _, n in self.stack)

    def fresh(self, base):
        self.tmp += 1
        return f"__pv_{base}{self.tmp}__"

    # ---- definitions
    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit_args(node.args)
        self.stack.append(("f", node.name))
        self.fn.append([0, node, nonlocals_of(node)])
        q = f"{self.modname}:{self.qual()}"
        node.body = self.block(node.body)
        self.fn.pop()
        self.stack.pop()
        node.body.insert(0, ast.Expr(value=call("__pv_enter__", const(q))))
        if node.args.vararg is not None:
            v = node.args.vararg.arg
            node.body.insert(1, ast.Assign(targets=[name(v, ast.Store())], value=call("__pv_unstar__", name(v))))
        node.returns = None
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_args(self, args):
        saved, self.fn = self.fn, []
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        self.fn = saved
        for a in args.posonlyargs + args.args + args.kwonlyargs + [args.vararg, args.kwarg]:
            if a is not None:
                a.annotation = None
        return args

    def visit_Lambda(self, node):
        node.args = self.visit_args(node.args)
        self.fn.append([0, node, []])
        node.body = self.visit(node.body)
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        self.stack.append(("c", node.name))
        saved, self.fn = self.fn, []
        node.body = self.block(node.body)
        self.fn = saved
        self.stack.pop()
        node.decorator_list = [name("__pv_class__")] + [self.visit(d) for d in node.decorator_list]
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, node):
        if self.fn:
            if node.value is None:
                return ast.Pass()
            return self.visit(ast.Assign(targets=[node.target], value=node.value))
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # ---- loops
    def _loop_key(self):
        f = self.fn[-1]
        f[0] += 1
        return f"{self.modname}:{self.qual()}#{f[0]}"

    def _havoc(self, L, names):
        if not names:
            return []
        return [ast.Assign(targets=[ast.Tuple(elts=[name(n, ast.Store()) for n in names], ctx=ast.Store())],
                           value=ast.Call(func=ast.Attribute(value=name(L), attr="h", ctx=ast.Load()),
                                          args=[const(n) for n in names], keywords=[]))]

    def _names(self, nodes):
        names = assigned(nodes)
        for n in self.fn[-1][2]:
            if n not in names:
                names.append(n)
        own = self.fn[-1][1]
        outer = {n for s in ast.walk(own) if isinstance(s, ast.Global) for n in s.names}
        return [n for n in names if n not in outer and not n.startswith("__pv_")]

    def visit_For(self, node):
        if not self.fn:
            return self.generic_visit(node)
        key = self._loop_key()
        names = self._names(node.body + [node.target])
        L, x = self.fresh("L"), self.fresh("x")
        it = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        tgt = self.visit(node.target)
        return [
            ast.Assign(targets=[name(L, ast.Store())], value=call("__pv_for__", const(key), it)),
            ast.For(target=name(x, ast.Store()),
                    iter=call(ast.Attribute(value=name(L), attr="run", ctx=ast.Load())),
                    body=self._havoc(L, names) + [ast.Assign(targets=[tgt], value=name(x))] + body,
                    orelse=self._havoc(L, names) + orelse)]

    def visit_While(self, node):
        if not self.fn:
            return self.generic_visit(node)
        key = self._loop_key()
        names = self._names(node.body + [node.test])
        L, x = self.fresh("L"), self.fresh("x")
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        guard = []
        if not (isinstance(test, ast.Constant) and test.value):
            guard = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=orelse + [ast.Break()], orelse=[])]
        return [
            ast.Assign(targets=[name(L, ast.Store())], value=call("__pv_while__", const(key))),
            ast.For(target=name(x, ast.Store()),
                    iter=call(ast.Attribute(value=name(L), attr="run", ctx=ast.Load())),
                    body=self._havoc(L, names) + guard + body, orelse=[])]

    def visit_AsyncFor(self, node):
        key = self._loop_key()
        names = self._names(node.body + [node.target])
        L, x, a = self.fresh("L"), self.fresh("x"), self.fresh("a")
        it = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        tgt = self.visit(node.target)
        nxt = self.fresh("n")
        get = ast.Try(
            body=[ast.Assign(targets=[name(nxt, ast.Store())], value=ast.Await(value=call("__pv_anext__", name(a))))],
            handlers=[ast.ExceptHandler(type=name("StopAsyncIteration"), name=None, body=orelse + [ast.Break()])],
            orelse=[], finalbody=[])
        return [
            ast.Assign(targets=[name(a, ast.Store())], value=call("__pv_aiter__", it)),
            ast.Assign(targets=[name(L, ast.Store())], value=call("__pv_while__", const(key), name(a))),
            ast.For(target=name(x, ast.Store()),
                    iter=call(ast.Attribute(value=name(L), attr="run", ctx=ast.Load())),
                    body=self._havoc(L, names) + [get, ast.Assign(targets=[tgt], value=name(nxt))] + body, orelse=[])]

    # ---- expressions
    def _parts(self, elts):
        return [ast.Tuple(elts=[const(isinstance(e, ast.Starred)),
                                self.visit(e.value if isinstance(e, ast.Starred) else e)], ctx=ast.Load()) for e in elts]

    def visit_List(self, node):
        if not self.fn or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        return call("__pv_list__", *self._parts(node.elts))

    def visit_Set(self, node):
        if not self.fn:
            return self.generic_visit(node)
        return call("__pv_set__", *self._parts(node.elts))

    def visit_Dict(self, node):
        if not self.fn:
            return self.generic_visit(node)
        return call("__pv_dict__", *[ast.Tuple(elts=[const(k is None), const(None) if k is None else self.visit(k),
                                                   self.visit(v)], ctx=ast.Load())
                                   for k, v in zip(node.keys, node.values)])

    def _target_lambda(self, targets, body):
        """lambda over loop targets; tuple targets are unpacked."""
        params, lets = [], body
        names = []
        for t in targets:
            if isinstance(t, ast.Name):
                names.append(t.id)
                params.append(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
                p = self.fresh("t")
                params.append(p)
                inner = ast.Lambda(args=_args([e.id for e in t.elts]), body=lets)
                lets = ast.Call(func=inner, args=[ast.Starred(value=name(p), ctx=ast.Load())], keywords=[])
            else:
                return None
        return ast.Lambda(args=_args(params), body=lets)

    def _comp(self, node, kind):
        if not self.fn or has_await(node):
            return self.generic_visit(node)
        key = self._loop_key()
        gens = node.generators
        if len(gens) > 2:
            return self.generic_visit(node)
        if kind == "dict":
            elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        else:
            elt = node.elt
        targets = []
        args = [const(kind), const(key)]
        self.fn.append([100, self.fn[-1][1], []])
        try:
            for g in gens:
                it = self.visit(g.iter)
                if targets:
                    it = self._target_lambda(targets, it)
                targets = targets + [g.target]
                cond = const(None)
                if g.ifs:
                    c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
                    cond = self._target_lambda(targets, self.visit(c))
                args += [it, cond]
                if it is None or (g.ifs and cond is None):
                    raise SyntaxError("comprehension target")
            lam = self._target_lambda(targets, self.visit(elt))
        finally:
            self.fn.pop()
        if lam is None:
            raise SyntaxError("comprehension target")
        return call("__pv_comp__", lam, *args)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = call("__pv_is__", node.left, node.comparators[0])
            return ast.UnaryOp(op=ast.Not(), operand=c) if isinstance(node.ops[0], ast.IsNot) else c
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion),
                                             const(None) if spec is None else call("__pv_fstr__", *[
                                                 s for s in spec.values if isinstance(s, ast.Constant)])],
                                       ctx=ast.Load()))
        return call("__pv_fstr__", *parts)

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if self.fn:
            for a in node.args:
                if isinstance(a, ast.Starred):
                    a.value = call("__pv_star__", a.value)
        if isinstance(node.func, ast.Name) and node.func.id in CAST and self.fn:
            node.func = name("__pv_" + node.func.id + "__")
        elif self.fn and isinstance(node.func, ast.Attribute) and node.func.attr in ("join", "format"):
            node.args.insert(0, node.func.value)
            node.func = name("__pv_" + node.func.attr + "__")
        return node

    def visit_Attribute(self, node):
        node = self.generic_visit(node)
        if self.fn and node.attr == "__dict__" and isinstance(node.ctx, ast.Load):
            return call("__pv_fields__", node.value)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if self.fn and isinstance(node.op, ast.Mod):
            return call("__pv_mod__", node.left, node.right)
        return node

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        if self.fn:
            node.body.insert(0, ast.Expr(value=call("__pv_sig__")))
        return node


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[],
                         defaults=[])


class World:
    """The instrumented modules of one verification process."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.files = {}

    def load(self, modname):
        m = self.modules.get(modname)
        if m is not None:
            return m
        from . import rt
        base = os.path.join(self.repo, *modname.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise ImportError(modname)
        with open(path) as fh:
            src = fh.read()
        self.files[path] = src
        tree = ast.parse(src, path)
        tree = Instrument(modname.split(".", 1)[-1]).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(modname)
        m.__file__ = path
        self.modules[modname] = m
        b = dict(vars(builtins))
        b.update(rt.BUILTINS)
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        if os.path.basename(path) == "__init__.py":
            m.__path__ = [os.path.dirname(path)]
        parent, _, leaf = modname.rpartition(".")
        if parent:
            setattr(self.load(parent), leaf, m)
        exec(compile(tree, path, "exec"), m.__dict__)
        return m

    def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        from . import aio
        if level:
            pkg = globals["__name__"].split(".")
            base = pkg[:len(pkg) - level]
            nm = ".".join(base + ([nm] if nm else []))
        if nm.split(".")[0] == "aiok8s":
            m = self.load(nm)
            if not fromlist:
                return self.load("aiok8s")
            for f in fromlist or ():
                if not hasattr(m, f):
                    try:
                        self.load(f"{nm}.{f}")
                    except ImportError:
                        pass
            return m
        mod = aio.model_module(nm)
        if mod is not None:
            if not fromlist and "." in nm:
                return aio.model_module(nm.split(".")[0])
            return mod
        return __import__(nm, globals, locals, fromlist, 0)


def patch_class(cls):
    """Log attribute writes of ordinary repository classes."""
    from .containers import Handle
    if issubclass(cls, (tuple, enum.Enum, BaseException, Handle, str)):
        return cls
    if "__slots__" in vars(cls) or "__setattr__" in vars(cls):
        return cls

    def __setattr__(self, attr, value):
        from . import core
        eng = core.ENGINE
        if eng is not None:
            eng.alive()
            eng.serial(self)
            if eng.pure:
                raise core.Unsupported("side effect in a pure context")
            if eng.loop_stack:
                eng.log_write("py", attr, self)
        object.__setattr__(self, attr, value)
    if any("__setattr__" in vars(b) and b is not object for b in cls.__mro__[1:]):
        return cls
    cls.__setattr__ = __setattr__
    return cls
