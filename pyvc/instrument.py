"""Mechanical instrumentation of /repo/qadence, redone from the working tree on every run.

An import hook compiles every `qadence.*` module from its current source after a
purely mechanical AST rewrite.  The rewrite touches only *how iteration and calls are
dispatched* and is the identity on ordinary Python values:

  f(args)                  ->  __vc.f(f)(args)          (lookup of a symbolic shim by identity)
  [e for T in IT if C]     ->  __vc.comp(kind, IT, lambda it: [e for T in it if C])
  {a, *b}                  ->  __vc.mkset([a, *b])
  x[i] (as a value)        ->  __vc.sub(x, i)
  for T in IT: BODY        ->  for x in __vc.it(IT): if x is a symbolic segment: run BODY as a
                               closure on a generic element (loop rule); else: T = x; BODY

Nothing of the source is dropped, no statement is reordered, no expression is removed: for
values that contain no symbolic segment the rewritten text performs the original operations
in the original order (cross-checked by `selfcheck`, which runs instrumented functions on
concrete inputs against the plain import).
f-strings inside `raise` statements show symbolic values as text (`__vc.fmt`).
Loops containing `break`/`return` keep their native form and raise Unsupported when they
meet a symbolic segment.
"""
from __future__ import annotations
import ast, copy, importlib.abc, importlib.machinery, importlib.util, os, sys

REPO = os.environ.get("VP_REPO", "/repo")
_skip_calls = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "_VCRT_"}


NOT_INSTRUMENTED = []


class _Names(ast.NodeVisitor):
    """names stored in a statement list, not descending into new scopes"""
    def __init__(self):
        self.names = []
        self.bad = False
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)
    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)
    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
    mutated = ()
    def visit_Lambda(self, n):
        pass
    def visit_ListComp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.bad = True
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_Import(self, n):
        for a in n.names:
            nm = (a.asname or a.name).split(".")[0]
            if nm not in self.names:
                self.names.append(nm)
    visit_ImportFrom = visit_Import
    def visit_ExceptHandler(self, n):
        if n.name and n.name not in self.names:
            self.names.append(n.name)
        self.generic_visit(n)
    def visit_Global(self, n):
        self.bad = True
    visit_Nonlocal = visit_Global


_MUTATORS = {"append", "extend", "add", "update", "setdefault", "pop", "insert", "remove", "clear", "discard", "popitem", "sort", "reverse"}


def _mutated(nodes, bound):
    """local names whose object is changed in place by the statements (d[k] = v, l.append(x), ...)"""
    out = []
    todo = list(nodes)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        b = None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in _MUTATORS:
            b = n.func.value
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name) and b.id in bound and b.id not in out:
            out.append(b.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


def _bound(fn):
    """names bound in a function body (parameters and assignments)"""
    v = _Names()
    for s in fn.body:
        v.visit(s)
    a = fn.args
    return set(v.names) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}


def _has(nodes, types, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, types):
            return True
        if isinstance(n, stop):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class _StripAnn(ast.NodeTransformer):
    """local variable annotations (no run-time effect) are removed from the closure copy"""
    def visit_AnnAssign(self, n):
        if isinstance(n.target, ast.Name):
            if n.value is None:
                return ast.copy_location(ast.Pass(), n)
            return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)
        return n
    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef


class _ContinueToReturn(ast.NodeTransformer):
    """`continue` of this loop level -> `return` (used inside the body closure)"""
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)
    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_For


class _BreakToReturn(_ContinueToReturn):
    """also `break` of this loop level -> `return` of a marker"""
    def visit_Break(self, n):
        return ast.copy_location(ast.Return(value=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="BREAK", ctx=ast.Load())), n)


def _breaks_here(nodes):
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Break,)):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.scope = ["module"]
        self.uid = 0
        self.bound = []

    def fresh(self, p):
        self.uid += 1
        return f"_vcrt_{p}{self.uid}"

    def visit_FunctionDef(self, n):
        self.scope.append("function")
        self.bound.append(_bound(n))
        n.body = [self.visit(s) for s in n.body]
        n.body = self._flat(n.body)
        self.bound.pop()
        n.args = self.visit(n.args)
        self.scope.pop()
        # decorators are evaluated in the enclosing scope
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.scope.append("class")
        n.body = self._flat([self.visit(s) for s in n.body])
        self.scope.pop()
        return n

    def visit_Lambda(self, n):
        self.scope.append("function")
        self.generic_visit(n)
        self.scope.pop()
        return n

    @staticmethod
    def _flat(body):
        out = []
        for s in body:
            if isinstance(s, list):
                out.extend(s)
            elif s is not None:
                out.append(s)
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in _skip_calls:
            return n
        for k in n.keywords:
            if k.arg is None:
                k.value = ast.Call(ast.Attribute(ast.Name("_VCRT_", ast.Load()), "splat", ast.Load()), [k.value], [])
        for a in n.args:
            if isinstance(a, ast.Starred):
                a.value = ast.Call(ast.Attribute(ast.Name("_VCRT_", ast.Load()), "star", ast.Load()), [a.value], [])
        f = ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="f", ctx=ast.Load()),
                     args=[n.func], keywords=[])
        n.func = ast.copy_location(f, n.func)
        ast.fix_missing_locations(n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_VCRT_", ast.Load()), "mkset", ast.Load()),
                                          [ast.List(n.elts, ast.Load())], []), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys or self.scope[-1] != "function":
            return n
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_VCRT_", ast.Load()), "mkdict", ast.Load()), [], []), n)

    def visit_Raise(self, n):
        """f-strings in error messages: a symbolic value is shown as its term"""
        self.generic_visit(n)
        for x in ast.walk(n):
            if isinstance(x, ast.FormattedValue):
                x.value = ast.Call(ast.Attribute(ast.Name("_VCRT_", ast.Load()), "fmt", ast.Load()), [x.value], [])
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if not isinstance(n.target, ast.Name):
            n.target = self.visit(n.target)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.scope[-1] == "function":
            def conv(sl):
                if isinstance(sl, ast.Slice):
                    z = ast.Constant(None)
                    return ast.Call(func=ast.Name("slice", ast.Load()), args=[sl.lower or z, sl.upper or z, sl.step or z], keywords=[])
                if isinstance(sl, ast.Tuple):
                    return ast.Tuple(elts=[conv(e) for e in sl.elts], ctx=ast.Load())
                return sl
            if isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Starred) for e in n.slice.elts):
                return n
            c = ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="sub", ctx=ast.Load()),
                         args=[n.value, conv(n.slice)], keywords=[])
            ast.copy_location(c, n)
            ast.fix_missing_locations(c)
            return c
        return n

    def _comp(self, n, kind):
        if self.scope[-1] == "class" or self.scope[-1] == "module":
            return n
        if any(g.is_async for g in n.generators) or _has([n], (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
            self.generic_visit(n)
            return n
        if any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(n)):
            return n
        self.scope.append("function")
        gens = n.generators
        if len(gens) > 1 and kind in ("list", "gen"):
            # [e for x in A if c for y in B] == flatten([[e for y in B] for x in A if c])
            inner = ast.copy_location(ast.ListComp(elt=n.elt, generators=gens[1:]), n)
            outer = ast.copy_location(ast.ListComp(elt=inner, generators=[gens[0]]), n)
            self.scope.pop()
            out = self._comp(outer, "list")
            call = ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="concat", ctx=ast.Load()),
                            args=[ast.Constant(kind), out], keywords=[])
            if kind == "gen":
                # keep native laziness outside symbolic mode
                native = ast.copy_location(ast.GeneratorExp(elt=n.elt, generators=gens), n)
                call = ast.IfExp(test=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="active", ctx=ast.Load()),
                                 body=call, orelse=native)
            ast.copy_location(call, n)
            ast.fix_missing_locations(call)
            return call
        first = gens[0]
        self.scope.pop()
        it = self.visit(first.iter)           # evaluated in the enclosing scope
        self.scope.append("function")
        itn = self.fresh("it")
        first.iter = ast.Name(itn, ast.Load())
        first.target = self.visit(first.target)
        first.ifs = [self.visit(c) for c in first.ifs]
        for g in gens[1:]:
            g.iter = self.visit(g.iter)
            g.ifs = [self.visit(c) for c in g.ifs]
        if isinstance(n, ast.DictComp):
            n.key, n.value = self.visit(n.key), self.visit(n.value)
        else:
            n.elt = self.visit(n.elt)
        self.scope.pop()
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(itn)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n)
        call = ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="comp", ctx=ast.Load()),
                        args=[ast.Constant(kind), it, lam], keywords=[])
        ast.copy_location(call, n)
        ast.fix_missing_locations(call)
        return call

    def visit_ListComp(self, n):
        return self._comp(n, "list")
    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")
    def visit_SetComp(self, n):
        return self._comp(n, "set")
    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_For(self, n):
        if self.scope[-1] != "function":
            self.generic_visit(n)
            n.body = self._flat(n.body)
            return n
        names = _Names()
        names.visit(n.target)
        for s in n.body:
            names.visit(s)
        for nm in _mutated(n.body, set().union(*self.bound) if self.bound else set()):
            if nm not in names.names:
                names.names.append(nm)
        brk = _breaks_here(n.body)
        simple = (not names.bad and not (brk and _has(n.body, (ast.Yield, ast.YieldFrom))) and not _has(n.body, (ast.Return,))
                  and not n.orelse and not any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(n)))
        raw_body = copy.deepcopy(n.body)
        raw_target = copy.deepcopy(n.target)
        n.iter = self.visit(n.iter)
        n.iter = ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="it", ctx=ast.Load()), args=[n.iter], keywords=[])
        x = self.fresh("x")
        native = self._flat([self.visit(s) for s in n.body])
        assign = ast.Assign(targets=[n.target], value=ast.Name(x, ast.Load()))
        test = ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="isseg", ctx=ast.Load()), args=[ast.Name(x, ast.Load())], keywords=[])
        if simple:
            body2 = [(_BreakToReturn() if brk else _ContinueToReturn()).visit(_StripAnn().visit(s)) for s in raw_body]
            body2 = self._flat([self.visit(s) for s in body2])
            isgen = _has(raw_body, (ast.Yield, ast.YieldFrom))
            fn, xx = self.fresh("body"), self.fresh("e")
            fdef = ast.FunctionDef(
                name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(xx)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=([ast.Nonlocal(list(names.names))] if names.names else []) +
                     [ast.Assign(targets=[raw_target], value=ast.Name(xx, ast.Load()))] + body2,
                decorator_list=[], type_params=[])
            getn, setn = self.fresh("get"), self.fresh("set")
            getters = []
            for nm in names.names:
                getters.append(ast.Try(
                    body=[ast.Assign(targets=[ast.Subscript(value=ast.Name("_vcrt_d", ast.Load()), slice=ast.Constant(nm), ctx=ast.Store())], value=ast.Name(nm, ast.Load()))],
                    handlers=[ast.ExceptHandler(type=ast.Name("NameError", ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]))
            gdef = ast.FunctionDef(name=getn, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                   body=[ast.Assign(targets=[ast.Name("_vcrt_d", ast.Store())], value=ast.Dict(keys=[], values=[]))] + getters + [ast.Return(ast.Name("_vcrt_d", ast.Load()))],
                                   decorator_list=[], type_params=[])
            setters = []
            for nm in names.names:
                setters.append(ast.If(test=ast.Compare(left=ast.Constant(nm), ops=[ast.In()], comparators=[ast.Name("_vcrt_d", ast.Load())]),
                                      body=[ast.Assign(targets=[ast.Name(nm, ast.Store())], value=ast.Subscript(value=ast.Name("_vcrt_d", ast.Load()), slice=ast.Constant(nm), ctx=ast.Load()))], orelse=[]))
            sdef = ast.FunctionDef(name=setn, args=ast.arguments(posonlyargs=[], args=[ast.arg("_vcrt_d")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                   body=[ast.Nonlocal(list(names.names))] + setters if names.names else [ast.Pass()],
                                   decorator_list=[], type_params=[])
            call = ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="loopgen" if isgen else "loopbreak" if brk else "loop", ctx=ast.Load()),
                            args=[ast.Name(x, ast.Load()), ast.Name(fn, ast.Load()), ast.Name(getn, ast.Load()), ast.Name(setn, ast.Load())], keywords=[])
            stmt = ast.If(test=call, body=[ast.Break()], orelse=[]) if brk else ast.Expr(ast.YieldFrom(call) if isgen else call)
            segbody = [fdef, gdef, sdef, stmt, ast.Continue()]
        else:
            segbody = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name("_VCRT_", ast.Load()), attr="unsupported_loop", ctx=ast.Load()), args=[ast.Constant(n.lineno)], keywords=[]))]
        n.target = ast.Name(x, ast.Store())
        n.body = [ast.If(test=test, body=segbody, orelse=[]), assign] + native
        n.orelse = self._flat([self.visit(s) for s in n.orelse])
        ast.fix_missing_locations(n)
        return n


def transform(src: str, filename: str) -> ast.Module:
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    # inject __vc after docstring / __future__ imports
    pos = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
            pos = i + 1
        elif isinstance(s, ast.ImportFrom) and s.module == "__future__":
            pos = i + 1
        else:
            break
    imp = ast.ImportFrom(module="pyvc.runtime", names=[ast.alias("VC", "_VCRT_")], level=0)
    tree.body.insert(pos, imp)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        src = data.decode("utf-8") if isinstance(data, bytes) else data
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return compile(transform(src, path), path, "exec", dont_inherit=True)
            except (SyntaxError, RecursionError, ValueError) as e:
                # a construct the rewrite cannot express: import the module as it is (no symbolic loops in it)
                NOT_INSTRUMENTED.append((path, repr(e)))
                return compile(src, path, "exec", dont_inherit=True)
    def get_code(self, fullname):          # never use or write .pyc
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "qadence" and not name.startswith("qadence."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(name, fn), submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(name, fn))
        return None


def install():
    sys.meta_path.insert(0, Finder())
