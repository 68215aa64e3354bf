"""Mechanical instrumentation of the sources of /repo.

Every module of the package is read from /repo's working tree when it is imported, its AST is rewritten
so that calls, identity and membership tests, subscripts, f-strings, comprehensions and loops go through the
run time (``_vc_``), and the result is executed.  Nothing is dropped: every statement and expression of the
source is still there, in the same order.  With concrete operands each hook does exactly what the original
construct does, so the instrumented package behaves like the original one (checked by selftest.py, which runs
the repository's own tests on the instrumented package).
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

ROOT = os.environ.get("VC_REPO", "/repo/src")
PKG = "psrpcore"


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _hook(name, args, keywords=()):
    return ast.Call(func=ast.Attribute(value=_name("_vc_"), attr=name, ctx=ast.Load()), args=list(args), keywords=list(keywords))


class _Names(ast.NodeVisitor):
    """Names assigned in a block (not in nested functions)."""

    def __init__(self):
        self.names = []

    def visit_FunctionDef(self, n):
        self._add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ClassDef(self, n):
        self._add(n.name)

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self._add(n.id)

    def _add(self, x):
        if x not in self.names and not x.startswith("_vc"):
            self.names.append(x)


class _Order(ast.NodeVisitor):
    """the names of a block about in the order they are evaluated: (name, is load, statement nesting, for loops around)"""

    def __init__(self):
        self.out, self.level, self.fors = [], 0, []

    def visit_Name(self, n):
        self.out.append((n.id, isinstance(n.ctx, ast.Load), self.level, tuple(self.fors)))

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.out.append((n.target.id, True, self.level, tuple(self.fors)))
        self.visit(n.value)
        self.visit(n.target)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
            self.visit(n.target)

    def visit_For(self, n):
        self.visit(n.iter)
        self.fors.append(n)
        self.level += 1
        self.visit(n.target)
        for x in n.body + n.orelse:
            self.visit(x)
        self.level -= 1
        self.fors.pop()

    def _comp(self, n):
        for g in n.generators:
            self.visit(g.iter)
        bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        k = len(self.out)
        for g in n.generators:
            for i in g.ifs:
                self.visit(i)
        for f in ("elt", "key", "value"):
            if hasattr(n, f):
                self.visit(getattr(n, f))
        self.out[k:] = [o for o in self.out[k:] if o[0] not in bound]

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def generic_visit(self, n):
        deeper = isinstance(n, (ast.If, ast.While, ast.Try, ast.FunctionDef, ast.Lambda, ast.IfExp, ast.BoolOp))
        self.level += deeper
        super().generic_visit(n)
        self.level -= deeper


def _loads(n, v):
    """may evaluating n (an expression or target) read the variable v"""
    if n is None:
        return False
    if isinstance(n, list):
        return any(_loads(x, v) for x in n)
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        return _loads(n.generators[0].iter, v) or v not in bound and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n))
    if isinstance(n, ast.Name):
        return n.id == v and isinstance(n.ctx, ast.Load)
    return any(_loads(x, v) for x in ast.iter_child_nodes(n))


def _stores(t, v):
    return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) for x in ast.walk(t))


def _walrus(e, v):
    """evaluating e certainly assigns v"""
    if isinstance(e, ast.NamedExpr):
        return e.target.id == v or _walrus(e.value, v)
    if isinstance(e, (ast.BoolOp, ast.IfExp, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return False
    if isinstance(e, ast.Compare):
        return _walrus(e.left, v)
    return any(_walrus(x, v) for x in ast.iter_child_nodes(e))


def _exposed(stmts, v, asg):
    """(v may be read before it is assigned in the block, v is assigned when the end of the block is reached)"""
    for n in stmts:
        if isinstance(n, ast.Assign):
            if not asg and (_loads(n.value, v) or _loads(n.targets, v)):
                return True, asg
            asg = asg or any(_stores(t, v) for t in n.targets)
        elif isinstance(n, ast.AugAssign):
            if not asg and (_loads(n.value, v) or _loads(n.target, v) or _stores(n.target, v)):
                return True, asg
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                if not asg and (_loads(n.value, v) or _loads(n.target, v)):
                    return True, asg
                asg = asg or _stores(n.target, v)
        elif isinstance(n, ast.For):
            if not asg and (_loads(n.iter, v) or _loads(n.target, v)):
                return True, asg
            for block, a in ((n.body, asg or _stores(n.target, v)), (n.orelse, asg)):
                if _exposed(block, v, a)[0]:
                    return True, asg
        elif isinstance(n, ast.While):
            if not asg and _loads(n.test, v):
                return True, asg
            for block in (n.body, n.orelse):
                if _exposed(block, v, asg)[0]:
                    return True, asg
        elif isinstance(n, ast.If):
            if not asg and _loads(n.test, v):
                return True, asg
            asg = asg or _walrus(n.test, v)
            r = [_exposed(b, v, asg) for b in (n.body, n.orelse)]
            if r[0][0] or r[1][0]:
                return True, asg
            asg = r[0][1] and r[1][1]
        elif isinstance(n, ast.Try):
            r = [_exposed(n.body + n.orelse, v, asg)] + [_exposed(h.body, v, asg or h.name == v) for h in n.handlers]
            if any(x[0] for x in r) or not asg and any(_loads(h.type, v) for h in n.handlers):
                return True, asg
            f = _exposed(n.finalbody, v, asg)
            if f[0]:
                return True, asg
            asg = f[1] or all(x[1] for x in r)
        elif isinstance(n, ast.With):
            for i in n.items:
                if not asg and (_loads(i.context_expr, v) or _loads(i.optional_vars, v)):
                    return True, asg
                asg = asg or i.optional_vars is not None and _stores(i.optional_vars, v)
            e, asg2 = _exposed(n.body, v, asg)
            if e:
                return True, asg
            asg = asg or False  # a with block may swallow an exception
            asg = asg2 if asg else asg
        elif isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            if not asg and any(_loads(x, v) for x in ast.iter_child_nodes(n)):
                return True, asg
            return False, True
        elif isinstance(n, (ast.Expr, ast.Assert)):
            if not asg and any(_loads(x, v) for x in ast.iter_child_nodes(n)):
                return True, asg
        elif isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom)):
            pass
        elif any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n)):
            return True, asg
    return False, asg


def _own(block, v):
    """v is assigned before it is read in the block"""
    return not _exposed(block, v, False)[0]


def carried(fn):
    """{id of a for loop: the variables it assigns whose value may be read in a later iteration or after the loop}"""
    out = {}
    whole = _Order()
    for x in fn.body:
        whole.visit(x)
    for n in ast.walk(fn):
        if not isinstance(n, ast.For):
            continue
        o = _Order()
        for x in n.body:
            o.visit(x)
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        names = {x[0] for x in o.out if not x[1]} | targets
        res = set()
        for v in names:
            if v not in targets and not _own(n.body, v):
                res.add(v)
                continue
            for m in whole.out:
                if m[0] != v or not m[1] or n in m[3]:
                    continue
                # read outside this loop: in another loop that sets it first?
                ok = False
                for f in m[3]:
                    t2 = {x.id for x in ast.walk(f.target) if isinstance(x, ast.Name)}
                    if v in t2 or _own(f.body, v):
                        ok = True
                if not ok:
                    res.add(v)
                    break
        out[id(n)] = (tuple(sorted(names)), tuple(sorted(res)))
    return out


class Instrument(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.depth = 0
        self.qual = []
        self.first = [None]
        self.nloop = 0
        self.lids = {}
        self.outer = []

    # -------------------------------------------------- scopes
    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        if self.depth:
            pass
        n.decorator_list = [self.visit(d) for d in n.decorator_list] if not self.depth else n.decorator_list
        self.qual.pop()
        return self._flat_body(n)

    def _flat_body(self, n):
        body = []
        for x in n.body:
            body.extend(x if isinstance(x, list) else [x])
        n.body = body
        return n

    def visit_FunctionDef(self, n):
        qual = ".".join(self.qual + [n.name])
        self.qual.append(n.name)
        d = self.depth
        self.depth = d + 1
        self.first.append(n.args.args[0].arg if n.args.args else (n.args.posonlyargs[0].arg if n.args.posonlyargs else None))
        nl = _Names()
        for x in n.body:
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                pass
        outer = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                outer.update(x.names)
        self.outer.append(outer)
        if not d:
            self.loops = {}
        self.loops.update(carried(n))
        body = []
        doc = []
        src = n.body
        if src and isinstance(src[0], ast.Expr) and isinstance(src[0].value, ast.Constant) and isinstance(src[0].value.value, str):
            doc, src = [src[0]], src[1:]
        for x in src:
            r = self.visit(x)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        enter = ast.Expr(_hook("enter", [ast.Constant("%s:%s" % (self.module, qual))]))
        ast.copy_location(enter, n)
        n.body = doc + [enter] + body
        self.first.pop()
        self.outer.pop()
        self.depth = d
        self.qual.pop()
        if d == 0:
            n.decorator_list = [self.visit(x) for x in n.decorator_list]
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        self.depth += 1
        n.body = self.visit(n.body)
        self.depth -= 1
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if isinstance(n.target, ast.Subscript):
            return n
        return n

    def visit_arguments(self, n):
        return n

    # -------------------------------------------------- expressions
    def visit_Call(self, n):
        if self.depth and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and not n.keywords and self.first[-1]:
            return ast.copy_location(_hook("super_", [_name("__class__"), _name(self.first[-1])]), n)
        self.generic_visit(n)
        if not self.depth:
            return n
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars", "_vc_"):
            return n
        return ast.copy_location(_hook("call", [n.func] + n.args, n.keywords), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if not self.depth or len(n.ops) != 1:
            return n
        h = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in"}.get(type(n.ops[0]))
        if h is None:
            return n
        return ast.copy_location(_hook(h, [n.left, n.comparators[0]]), n)

    def visit_JoinedStr(self, n):
        if not self.depth:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(_hook("fstr", parts), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not self.depth or not isinstance(n.ctx, ast.Load):
            return n
        return ast.copy_location(_hook("getitem", [n.value, self._index(n.slice)]), n)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(func=_name("slice"), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        return s

    def _comp(self, n, kind, elt):
        self.generic_visit(n)
        if not self.depth or len(n.generators) != 1 or n.generators[0].is_async or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        if kind == "dict":
            elt = ast.Tuple([n.key, n.value], ast.Load())
        else:
            elt = n.elt
        g = n.generators[0]
        inner = ast.ListComp(elt=elt, generators=[ast.comprehension(target=g.target, iter=ast.Tuple([_name("_vct")], ast.Load()), ifs=g.ifs, is_async=0)])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg("_vct")], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
        return ast.copy_location(_hook("comp", [ast.Constant(kind), g.iter, lam]), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list", None)

    def visit_SetComp(self, n):
        return self._comp(n, "set", None)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen", None)

    def visit_DictComp(self, n):
        return self._comp(n, "dict", None)

    # -------------------------------------------------- statements
    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.depth or len(n.targets) != 1:
            return n
        t = n.targets[0]
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Expr(_hook("setitem", [t.value, self._index(t.slice), n.value])), n)
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        if not self.depth:
            return n
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(_hook("delitem", [t.value, self._index(t.slice)])), n))
            else:
                out.append(ast.copy_location(ast.Delete([t]), n))
        return out

    def _lid(self, kind):
        k = "%s:%s#%s" % (self.module, ".".join(self.qual), kind)
        self.lids[k] = self.lids.get(k, 0) + 1
        return "%s%d" % (k, self.lids[k])

    def _changed(self, names, n):
        """the variables a loop assigns; None when one of them belongs to an outer scope"""
        t = set()
        if n is not None:
            t = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if any(x in self.outer[-1] for x in names):
            return ast.Constant(None)
        return ast.Constant(tuple(sorted(set(names) - t)))

    def _prologue(self, n, names, var, first):
        out = [ast.copy_location(ast.Assign([_name(var, ast.Store())], first), n)]
        for x in names:
            if x in self.outer[-1]:
                continue
            test = ast.Compare(ast.Constant(x), [ast.In()], [ast.Attribute(_name(var), "upd", ast.Load())])
            val = ast.Subscript(ast.Attribute(_name(var), "upd", ast.Load()), ast.Constant(x), ast.Load())
            out.append(ast.copy_location(ast.If(test, [ast.Assign([_name(x, ast.Store())], val)], []), n))
        return out

    def visit_For(self, n):
        names = _Names()
        for x in n.body:
            names.visit(x)
        run = self.loops.get(id(n)) if self.depth else None
        self.generic_visit(n)
        if not self.depth:
            return n
        self.nloop += 1
        var = "_vcl%d" % self.nloop
        lid = self._lid("for")
        pro = self._prologue(n, names.names, var, _hook("loop_for", [ast.Constant(lid), n.iter, ast.Call(_name("locals"), [], []), self._changed(names.names, n),
                                                                                 ast.Constant(run if run is None or not any(x in self.outer[-1] for x in run[0]) else None)]))
        n.iter = _name(var)
        return pro + [n]

    def visit_While(self, n):
        names = _Names()
        for x in n.body:
            names.visit(x)
        self.generic_visit(n)
        if not self.depth:
            return n
        self.nloop += 1
        var = "_vcl%d" % self.nloop
        lid = self._lid("while")
        pro = self._prologue(n, names.names, var, _hook("loop_while", [ast.Constant(lid), ast.Call(_name("locals"), [], []), self._changed(names.names, None)]))
        head = ast.Call(ast.Attribute(_name(var), "head", ast.Load()), [], [])
        n.test = ast.BoolOp(ast.And(), [head, n.test])
        return pro + [n]


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        src = open(self.path, encoding="utf-8").read()
        tree = ast.parse(src, self.path)
        short = self.name[len(PKG) + 1:] or "__init__"
        tree = Instrument(short).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["_vc_"] = rt.HOOKS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(ROOT, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + ".py"
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(fullname, Loader(fullname, f, False), origin=f)
        return None


def install():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder())
