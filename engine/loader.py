"""Loads /repo/AMAT/*.py for symbolic execution.  The text executed is the file's own AST with these
mechanical rewrites, and nothing else:
  - decimal literals become exact rationals (K("..")), `/` becomes exact division
  - `for`, `while` and list comprehensions inside functions become calls of the loop rules (loops.py) with
    the same body as a closure
  - module-level test classes (Test_*) and their unittest import are dropped
  - imports of numpy/scipy/... resolve to the assumed contracts in shim.py"""
import ast
import os
import sys
import types
from . import shim, loops
from .shim import BUILTINS, MODULES, dv
from .terms import K, Unsupported

REPO = os.environ.get("AMAT_REPO", "/repo")


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names, self.globals_ = [], set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    mutated = None      # names whose array / list the body changes in place

    def visit_Subscript(self, n):
        if self.mutated is not None and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                self.mutated.append(b.id)
        self.generic_visit(n)

    def visit_Call(self, n):
        if self.mutated is not None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            if n.func.attr in ("append", "extend", "insert", "fill", "sort"):
                self.mutated.append(n.func.value.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals_ |= set(n.names)

    visit_Nonlocal = visit_Global


class BodyRewrite(ast.NodeTransformer):
    """continue/break/return of one loop level -> closure return codes"""

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("break"), ast.Constant(None)], ast.Load())), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("return"), n.value or ast.Constant(None)], ast.Load())), n)

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_For


def has_yield(body):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
    return False


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.site = 0
        self.fn = []
        self.locals = []

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name("_v_K", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("_v_div", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        # numpy arrays are updated in place by augmented assignment; names keep python's rebinding for scalars
        self.generic_visit(n)
        tgt = n.target
        load = ast.parse(ast.unparse(tgt), mode="eval").body
        load = Rewrite2().visit(load)
        opname = type(n.op).__name__
        call = ast.Call(ast.Name("_v_aug", ast.Load()), [ast.Constant(opname), load, n.value], [])
        return ast.copy_location(ast.Assign([tgt], call), n)

    def visit_FunctionDef(self, n):
        self.fn.append([])
        la = Assigned()
        for b in n.body:
            la.visit(b)
        loc = set(la.names) - la.globals_ | {p.arg for p in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        self.locals.append(loc)
        self.generic_visit(n)
        self.locals.pop()
        extra = self.fn.pop()
        if extra:
            a = Assigned()
            for s in n.body:
                if not (isinstance(s, ast.FunctionDef) and s.name.startswith("_v_loop_")):
                    a.visit(s)
            names = []
            for x in extra:
                if x not in names:
                    names.append(x)
            pre = ast.If(ast.Constant(False), [ast.Assign([ast.Name(x, ast.Store())], ast.Constant(None)) for x in names], [])
            params = {p.arg for p in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
            if n.args.vararg:
                params.add(n.args.vararg.arg)
            if n.args.kwarg:
                params.add(n.args.kwarg.arg)
            pre.body = [b for b in pre.body if b.targets[0].id not in params] or [ast.Pass()]
            n.body.insert(0, pre)
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def loop(self, n, target, itexpr):
        self.site += 1
        k = self.site
        if n.orelse or not self.fn or has_yield(n.body):
            self.generic_visit(n)
            return n
        a = Assigned()
        a.mutated = []
        for s in n.body:
            a.visit(s)
        if target is not None:
            a.visit(target)
        for x in a.mutated:
            if x in self.locals[-1]:
                a.add(x)
        self.generic_visit(n)
        if target is not None:
            itexpr, target = n.iter, n.target
        else:
            itexpr = n.test
        body = [BodyRewrite().visit(s) for s in n.body]
        names = [x for x in a.names if x not in a.globals_]
        self.fn[-1] += names
        nl = [ast.Nonlocal(list(names))] if names else []
        pre = "_v_loop_%d_" % k
        arg = ast.arguments([], [ast.arg("_v_it")], None, [], [], None, [])
        bd = list(nl)
        if target is not None:
            bd.append(ast.Assign([target], ast.Name("_v_it", ast.Load())))
        bd += body
        fbody = ast.FunctionDef(pre + "body", arg, bd, [], None, None)
        getsrc = "def %sget():\n    _v_d = {}\n" % pre
        for x in names:
            getsrc += "    try:\n        _v_d[%r] = %s\n    except NameError:\n        pass\n" % (x, x)
        getsrc += "    return _v_d\n"
        setsrc = "def %sset(_v_d):\n" % pre
        if names:
            setsrc += "    nonlocal " + ", ".join(names) + "\n"
            for x in names:
                setsrc += "    if %r in _v_d:\n        %s = _v_d[%r]\n    else:\n        %s = None\n        del %s\n" % (x, x, x, x, x)
        else:
            setsrc += "    pass\n"
        # all locals of the function are of interest as roots
        fget = ast.parse(getsrc).body[0]
        fset = ast.parse(setsrc).body[0]
        if target is not None:
            call = ast.parse("_v_r = _v_forloop(0, %sbody, %sget, %sset, %d, locals())" % (pre, pre, pre, k)).body[0]
            call.value.args[0] = itexpr
        else:
            call = ast.parse("_v_r = _v_whileloop(0, %sbody, %sget, %sset, %d, locals())" % (pre, pre, pre, k)).body[0]
            call.value.args[0] = ast.Lambda(ast.arguments([], [], None, [], [], None, []), itexpr)
        ret = ast.parse("if _v_r is not None:\n    return _v_r[1]").body[0]
        for x in ("_v_r",):
            pass
        return [fbody, fget, fset, call, ret]

    def visit_For(self, n):
        return self.loop(n, n.target, n.iter)

    def visit_While(self, n):
        return self.loop(n, None, n.test)

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async or not isinstance(n.generators[0].target, (ast.Name, ast.Tuple)):
            return n
        g = n.generators[0]
        if isinstance(g.target, ast.Tuple):
            if not all(isinstance(e, ast.Name) for e in g.target.elts):
                return n
            names = [e.id for e in g.target.elts]
            arg = ast.arguments([], [ast.arg("_v_e")], None, [], [], None, [])

            def lamb(b):
                inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), b)
                return ast.Lambda(arg, ast.Call(inner, [ast.Starred(ast.Name("_v_e", ast.Load()), ast.Load())], []))
        else:
            arg = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])

            def lamb(b):
                return ast.Lambda(arg, b)
        cond = ast.Constant(None)
        if g.ifs:
            cond = lamb(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return ast.copy_location(ast.Call(ast.Name("_v_listcomp", ast.Load()), [lamb(n.elt), g.iter, cond], []), n)


class Rewrite2(Rewrite):
    pass


def aug(op, a, b):
    from .arrays import A1
    import operator
    f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": dv, "Pow": operator.pow,
         "FloorDiv": operator.floordiv, "Mod": operator.mod}.get(op)
    if f is None:
        raise Unsupported("augmented %s" % op)
    if isinstance(a, A1):
        r = f(a, b)
        a[:] = r
        return a
    if isinstance(a, list) and op == "Add":
        a.extend(b)
        return a
    return f(a, b)


class Loader:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.src = {}
        self.base = 0

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "AMAT":
            m = types.ModuleType("AMAT")
            m.__path__ = []
            self.mods[name] = m
            return m
        path = os.path.join(self.repo, *name.split(".")) + ".py"
        if not os.path.exists(path):
            pk = os.path.join(self.repo, *name.split("."))
            if os.path.isdir(pk):
                m = types.ModuleType(name)
                self.mods[name] = m
                return m
            raise ImportError(name)
        src = open(path, encoding="utf-8").read()
        self.src[name] = src
        tree = ast.parse(src, path)
        tree.body = [s for s in tree.body if not (isinstance(s, ast.ClassDef) and s.name.startswith(("Test", "test")))]
        rw = Rewrite()
        rw.site = self.base
        tree = rw.visit(tree)
        self.base = rw.site + 1000
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        b = dict(BUILTINS)
        b["__import__"] = self.importer
        m.__dict__.update(__builtins__=b, _v_K=K, _v_div=dv, _v_forloop=loops.forloop, _v_whileloop=loops.whileloop,
                          _v_listcomp=loops.listcomp, _v_aug=aug, __file__=path)
        self.mods[name] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        if name.startswith("AMAT."):
            setattr(self.load("AMAT"), name.split(".", 1)[1], m)
        return m

    def importer(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            name = "AMAT" + ("." + name if name else "")
        if name.startswith("AMAT"):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ImportError:
                            pass
                return m
            return self.load("AMAT")
        if name in MODULES:
            if fromlist or "." not in name:
                return MODULES[name]
            return MODULES.get(name.split(".")[0], MODULES[name])
        if name == "unittest" or name == "pytest":
            return shim.Rec(name)
        return __import__(name, globs, locs, fromlist, level)
