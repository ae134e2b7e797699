"""Importer that instruments Python modules (AST) for symbolic execution."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from .shims import make_builtins

BUILTINS = make_builtins()
_PURE_CALLS = {"len", "ord", "abs", "float", "int", "isinstance", "chr", "_sx_eq"}
_PURE_METHODS = {"get", "startswith", "endswith", "isspace", "isdigit"}


def pure(n):
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.Attribute):
        return pure(n.value)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BinOp):
        return pure(n.left) and pure(n.right)
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators)
    if isinstance(n, ast.Subscript):
        return pure(n.value) and pure(n.slice)
    if isinstance(n, ast.Slice):
        return all(x is None or pure(x) for x in (n.lower, n.upper, n.step))
    if isinstance(n, (ast.Tuple, ast.List)):
        return all(pure(e) for e in n.elts)
    if isinstance(n, ast.IfExp):
        return pure(n.test) and pure(n.body) and pure(n.orelse)
    if isinstance(n, ast.Call) and not n.keywords:
        if isinstance(n.func, ast.Name) and n.func.id in _PURE_CALLS:
            return all(pure(a) for a in n.args)
        if isinstance(n.func, ast.Attribute) and n.func.attr in _PURE_METHODS:
            return pure(n.func.value) and all(pure(a) for a in n.args)
    return False


def _name(s):
    return ast.Name(id=s, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


def _thunk(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def _value(stmts, name):
    """the pure expression that a block gives to a name it does nothing else but assign, or None"""
    if not stmts:
        return ast.Name(id=name, ctx=ast.Load())
    if len(stmts) != 1:
        return None
    s = stmts[0]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and pure(s.value):
        return s.value
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)) and pure(s.value):
        return ast.BinOp(ast.Name(id=name, ctx=ast.Load()), s.op, s.value)
    if isinstance(s, ast.If) and pure(s.test):
        a, b = _value(s.body, name), _value(s.orelse, name)
        if a is not None and b is not None:
            return ast.IfExp(s.test, a, b)
    return None


def _merge_returns(stmts):
    """if c: return a; return b  ->  return a if c else b"""
    out = []
    for s in reversed(stmts):
        if (isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and pure(s.body[0].value)):
            rest = s.orelse
            if len(rest) == 1 and isinstance(rest[0], ast.Return):
                other = rest[0]
            elif not rest and out and isinstance(out[-1], ast.Return):
                other = out.pop()
            else:
                other = None
            if other is not None and other.value is not None and (pure(other.value)):
                out.append(ast.copy_location(ast.Return(ast.IfExp(s.test, s.body[0].value, other.value)), s))
                continue
            if other is not None and not rest:
                out.append(other)
        out.append(s)
    return out[::-1]


class Tx(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.mod = modname
        self.record = record
        self.cls = []
        self.path = []
        self.infn = 0
        self.tmp = 0

    # ---- scopes
    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.cls.append(n.name)
        self.path.append(n.name)
        saved, self.infn = self.infn, 0
        n.body = [self.visit(b) for b in n.body]
        self.infn = saved
        self.path.pop()
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        self.path.append(n.name)
        self.infn += 1
        body = [self.visit(b) for b in _merge_returns(n.body)]
        self.infn -= 1
        qual = ".".join(self.path)
        self.path.pop()
        if self.record:
            k = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                      and isinstance(body[0].value.value, str)) else 0
            body.insert(k, ast.Expr(_call("_sx_fn", ast.Constant(self.mod + ":" + qual))))
        n.body = body
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        if isinstance(n.target, (ast.Name, ast.Attribute, ast.Subscript)):
            return ast.Assign(targets=[self.visit(n.target)], value=self.visit(n.value))
        return self.generic_visit(n)

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        self.infn += 1
        n.body = self.visit(n.body)
        self.infn -= 1
        return n

    def visit_If(self, n):
        n.body, n.orelse = _merge_returns(n.body), _merge_returns(n.orelse)
        name = None
        if self.infn and len(n.body) == 1:
            s = n.body[0]
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AugAssign) else None
            name = t.id if isinstance(t, ast.Name) else None
        a = b = None
        if name is not None and not _has_yield(n.test):
            a, b = _value(n.body, name), _value(n.orelse, name)
        if a is None or b is None:
            return self.generic_visit(n)
        import copy
        a, b = [_thunk(self.visit(copy.deepcopy(x))) for x in (a, b)]
        n = self.generic_visit(n)
        self.tmp += 1
        t, v = "_sx_t%d" % self.tmp, "_sx_v%d" % self.tmp

        def put(x, e):
            return ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=e)
        return ast.If(test=ast.Constant(True), orelse=[], body=[
            put(t, n.test),
            put(v, _call("_sx_merge", _name(t), a, b)),
            ast.If(test=ast.Compare(left=_name(v), ops=[ast.IsNot()], comparators=[_name("_sx_no")]), body=[put(name, _name(v))],
                   orelse=[ast.If(test=_name(t), body=n.body, orelse=n.orelse)])])

    # ---- expressions
    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            attr = f.attr
            if self.cls and attr.startswith("__") and not attr.endswith("__"):
                attr = "_" + self.cls[-1].lstrip("_") + attr
            obj = self.visit(f.value)
            return ast.Call(func=_name("_sx_m"), args=[obj, ast.Constant(attr)] + [self.visit(a) for a in n.args],
                            keywords=[self.visit(k) for k in n.keywords])
        return self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            return self._cmp(self.visit(n.left), n.ops[0], self.visit(n.comparators[0]))
        mids = n.comparators[:-1]
        if self.infn and all(pure(m) for m in mids):
            items = [n.left] + n.comparators
            parts = []
            import copy
            for a, op, b in zip(items, n.ops, items[1:]):
                parts.append(_thunk(self._cmp(self.visit(copy.deepcopy(a)), op, self.visit(copy.deepcopy(b)))))
            if pure(n.left) and pure(n.comparators[-1]):
                return _call("_sx_and", *parts)
        return self.generic_visit(n)

    def _cmp(self, a, op, b):
        if isinstance(op, ast.Eq):
            return _call("_sx_eq", a, b)
        if isinstance(op, ast.NotEq):
            return _call("_sx_ne", a, b)
        if isinstance(op, ast.In):
            return _call("_sx_in", a, b)
        if isinstance(op, ast.NotIn):
            return _call("_sx_notin", a, b)
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return _call("_sx_not", self.visit(n.operand))
        return self.generic_visit(n)

    def visit_BoolOp(self, n):
        if self.infn and all(pure(v) for v in n.values[1:]):
            fn = "_sx_and" if isinstance(n.op, ast.And) else "_sx_or"
            return _call(fn, *[_thunk(self.visit(v)) for v in n.values]) if not _has_yield(n) else self.generic_visit(n)
        return self.generic_visit(n)

    def visit_IfExp(self, n):
        if self.infn and pure(n.body) and pure(n.orelse):
            return _call("_sx_ifexp", self.visit(n.test), _thunk(self.visit(n.body)), _thunk(self.visit(n.orelse)))
        return self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Mod):
            return _call("_sx_mod", self.visit(n.left), self.visit(n.right))
        return self.generic_visit(n)

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice) and not (
                isinstance(n.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.slice.elts)) and not (
                isinstance(n.slice, ast.Constant)):
            return _call("_sx_get", n.value, n.slice)
        return n

    def visit_Dict(self, n):
        ks = [self.visit(k) if k is not None else _name("_sx_unpack") for k in n.keys]
        vs = [self.visit(v) for v in n.values]
        if not ks:
            return _call("_sx_dict")
        return _call("_sx_mkdict", ast.Tuple(ks, ast.Load()), ast.Tuple(vs, ast.Load()))

    def visit_Set(self, n):
        return _call("_sx_set", ast.List([self.visit(e) for e in n.elts], ast.Load()))

    def visit_DictComp(self, n):
        n = self.generic_visit(n)
        return _call("_sx_dict", ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_SetComp(self, n):
        n = self.generic_visit(n)
        return _call("_sx_set", ast.GeneratorExp(n.elt, n.generators))

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant("")
                else:
                    spec = self.visit(spec)
                conv = {-1: None, 115: "s", 114: "r", 97: "r"}[v.conversion]
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return _call("_sx_fstr", *parts)

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == "BaseException"):
            n.type = _name("Exception")
        return n


def _has_yield(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n))


def transform(src, filename, modname, record=True):
    tree = ast.parse(src, filename)
    tree = Tx(modname, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, path, record):
        self.path, self.record = path, record

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = transform(src, self.path, module.__name__, self.record)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # {package name: (directory holding it, record)}

    def find_spec(self, fullname, path=None, target=None):
        root = fullname.split(".")[0]
        if root not in self.roots:
            return None
        base, record = self.roots[root]
        p = os.path.join(base, *fullname.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            spec = importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, record), submodule_search_locations=[p])
            return spec
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, record))
        if os.path.isdir(p):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        return None


def install(repo, verif):
    sys.meta_path.insert(0, Finder({"soynlp": (repo, True), "harness": (verif, False)}))


# ------------------------------------------------------------ module state
def snapshot(prefixes):
    """a function restoring all mutable module-level state of the given packages"""
    from .ops import SymDict, SymSet
    import types
    recs = []
    seen = set()

    def snap(o, depth=0):
        if id(o) in seen:
            return
        if isinstance(o, list):
            seen.add(id(o))
            c = list(o)
            recs.append(lambda: o.__setitem__(slice(None), c) if (len(o) != len(c) or any(x is not y for x, y in zip(o, c))) else None)
            if len(c) <= 200:
                for x in c:
                    snap(x, depth + 1)
        elif isinstance(o, (SymDict, SymSet)):
            seen.add(id(o))
            c, ns = dict(o._d), o._nsym

            def rest():
                o._d, o._nsym = dict(c), ns
            recs.append(rest)
            if len(c) <= 200:
                for x in c.values():
                    snap(x, depth + 1)
        elif isinstance(o, tuple) and depth < 4:
            for x in o:
                snap(x, depth + 1)
        elif isinstance(o, types.FunctionType):
            seen.add(id(o))
            snap(o.__defaults__, 0)
            if o.__kwdefaults__:
                snap(tuple(o.__kwdefaults__.values()))
            if o.__closure__:
                for cell in o.__closure__:
                    try:
                        snap(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
        elif isinstance(o, (staticmethod, classmethod)):
            snap(o.__func__, depth)
        elif isinstance(o, type) and getattr(o, "__module__", "").split(".")[0] in prefixes:
            seen.add(id(o))
            names = {k: v for k, v in vars(o).items() if not (k.startswith("__") and k.endswith("__") and k != "__init__")}

            def rest():
                cur = vars(o)
                for k in [k for k in cur if k not in names and not (k.startswith("__") and k.endswith("__"))]:
                    delattr(o, k)
                for k, v in names.items():
                    if cur.get(k) is not v:
                        setattr(o, k, v)
            recs.append(rest)
            for v in names.values():
                snap(v, 0)
        elif hasattr(o, "__dict__") and getattr(type(o), "__module__", "").split(".")[0] in prefixes and depth < 4:
            seen.add(id(o))
            d = dict(vars(o))

            def rest():
                cur = vars(o)
                if len(cur) != len(d) or any(cur.get(k) is not v for k, v in d.items()):
                    cur.clear()
                    cur.update(d)
            recs.append(rest)
            for v in d.values():
                snap(v, depth + 1)

    for name, m in list(sys.modules.items()):
        if name.split(".")[0] not in prefixes or m is None:
            continue
        d = dict(m.__dict__)

        def rest(m=m, d=d):
            cur = m.__dict__
            if len(cur) != len(d) or any(cur.get(k) is not v for k, v in d.items()):
                cur.clear()
                cur.update(d)
        recs.append(rest)
        for k, v in d.items():
            if not (k.startswith("__") and k.endswith("__")):
                snap(v)

    def restore():
        for r in recs:
            r()
    return restore
