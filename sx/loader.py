"""Import hook: loads the real source of the code under test with its calls, identity tests,
containment tests, subscripts and f-strings routed through sx.models."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import types

from . import bytesio, models
from .core import SxControl

SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "__sx_call__", "dir"}


_OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def N(name):
    return ast.Name(id=name, ctx=ast.Load())


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.annot = 0

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target) if not isinstance(node.target, ast.Name) else node.target
        return node

    def visit_arg(self, node):
        return node

    def _fn(self, node):
        r = node.returns
        node.returns = None
        self.generic_visit(node)
        node.returns = r
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _fn

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
            return node
        return ast.copy_location(
            ast.Call(func=N("__sx_call__"), args=[f] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            if not all(isinstance(x, (ast.Name, ast.Constant)) for x in node.comparators[:-1]):
                return node
            terms = [node.left] + node.comparators
            return ast.copy_location(ast.BoolOp(op=ast.And(), values=[
                self._compare(ast.copy_location(
                    ast.Compare(left=terms[i], ops=[o], comparators=[terms[i + 1]]), node))
                for i, o in enumerate(node.ops)]), node)
        return self._compare(node)

    def _compare(self, node):
        op = node.ops[0]
        a, b = node.left, node.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, ast.Constant) and b.value is None:
                return node
            c = ast.Call(func=N("__sx_is__"), args=[a, b], keywords=[])
            neg = isinstance(op, ast.IsNot)
        elif isinstance(op, (ast.In, ast.NotIn)):
            c = ast.Call(func=N("__sx_in__"), args=[a, b], keywords=[])
            neg = isinstance(op, ast.NotIn)
        else:
            c = ast.Call(func=N("__sx_cmp__"),
                         args=[ast.Constant(value=_OPS[type(op)]), a, b], keywords=[])
            neg = False
        if neg:
            c = ast.UnaryOp(op=ast.Not(), operand=c)
        return ast.copy_location(c, node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant(value="") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=N("__sx_fstr__"), args=parts, keywords=[]), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            s = ast.Call(func=N("__sx_slice__"),
                         args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        elif isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred))
                                              for e in s.elts):
            return node
        return ast.copy_location(
            ast.Call(func=N("__sx_getitem__"), args=[node.value, s], keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(func=N("__sx_mod__"), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        risky = False
        for h in node.handlers:
            if h.type is None:
                risky = True
            elif any(isinstance(x, ast.Name) and x.id == "BaseException"
                     for x in ast.walk(h.type)):
                risky = True
        if risky:
            node.handlers.insert(0, ast.ExceptHandler(
                type=N("__sx_control__"), name=None, body=[ast.Raise()]))
        return node


def instrument(src, filename):
    tree = ast.parse(src, filename)
    tree = Instr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# -- module shims -------------------------------------------------------------------------
_SHIMS = {}


def shim(name, **over):
    real = importlib.import_module(name)
    m = types.ModuleType(name)
    m.__dict__.update(real.__dict__)
    m.__dict__.update(over)
    _SHIMS[name] = m
    return m


def setup_shims():
    shim("io", BytesIO=bytesio.SxBytesIO)
    shim("functools", cache=models.sx_cache, lru_cache=models.sx_lru_cache)


_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in _SHIMS:
            return _SHIMS[name]
        top = name.partition(".")[0]
        if top in _SHIMS:
            m = _SHIMS[top]
            if not fromlist:
                return m
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
    return _real_import(name, globals, locals, fromlist, level)


def make_builtins():
    b = dict(builtins.__dict__)
    b["__import__"] = sx_import
    b["__sx_call__"] = models.sx_call
    b["__sx_is__"] = models.sx_is
    b["__sx_in__"] = models.sx_in
    b["__sx_cmp__"] = models.sx_cmp
    b["__sx_fstr__"] = models.sx_fstr
    b["__sx_getitem__"] = models.sx_getitem
    b["__sx_mod__"] = models.sx_mod
    b["__sx_slice__"] = slice
    b["__sx_control__"] = SxControl
    return b


FUNCTIONS = {}


class SxLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        return instrument(importlib.util.decode_source(src), path)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__["__builtins__"] = _B
        exec(code, module.__dict__)

    # never write or read bytecode
    def set_data(self, *a, **k):
        pass


class SxFinder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes, exclude=()):
        self.prefixes = tuple(prefixes)
        self.exclude = tuple(exclude)

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top not in self.prefixes or name in self.exclude:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = SxLoader(spec.loader.name, spec.loader.path)
        spec.cached = None
        return spec


_B = None


def install(prefixes, exclude=()):
    global _B
    setup_shims()
    _B = make_builtins()
    for n in list(sys.modules):
        if n.partition(".")[0] in prefixes:
            raise RuntimeError("%s already imported" % n)
    sys.meta_path.insert(0, SxFinder(prefixes, exclude))


# -- heap of the code under test ----------------------------------------------------------
class Heap:
    """Snapshot of the mutable module-level state of the instrumented packages; restored before
    every path so that paths do not see each other's side effects."""

    def __init__(self, prefixes, skip=()):
        self.prefixes = tuple(prefixes)
        self.saved = []
        seen = set()
        stack = []
        self.moddicts = []
        for n, m in sorted(sys.modules.items()):
            if m is not None and n.partition(".")[0] in self.prefixes:
                d = m.__dict__
                seen.add(id(d))
                self.moddicts.append((d, dict(d)))
                stack.extend(v for k, v in d.items() if k != "__builtins__")
        while stack:
            x = stack.pop()
            if id(x) in seen:
                continue
            t = type(x)
            if t in (str, int, bytes, float, bool, type(None), types.ModuleType,
                     types.BuiltinFunctionType):
                continue
            seen.add(id(x))
            if t is types.FunctionType:
                if x.__module__ and x.__module__.partition(".")[0] in self.prefixes:
                    if x.__dict__:
                        self._obj(x, stack)
                    for c in x.__closure__ or ():
                        self._cell(c, stack)
                    if x.__defaults__:
                        stack.extend(x.__defaults__)
                    if x.__kwdefaults__:
                        stack.extend(x.__kwdefaults__.values())
                continue
            if t is types.MethodType:
                stack.extend((x.__self__, x.__func__))
                continue
            if t in (tuple, frozenset):
                stack.extend(x)
                continue
            if isinstance(x, dict):
                self.saved.append(("dict", x, dict(x)))
                stack.extend(x.keys())
                stack.extend(x.values())
                if t is not dict and hasattr(x, "__dict__"):
                    self._obj(x, stack)
                continue
            if isinstance(x, list):
                self.saved.append(("list", x, list(x)))
                stack.extend(x)
                continue
            if isinstance(x, set):
                self.saved.append(("set", x, set(x)))
                stack.extend(x)
                continue
            if t in (classmethod, staticmethod):
                stack.append(x.__func__)
                continue
            if t is property:
                stack.extend(f for f in (x.fget, x.fset, x.fdel) if f)
                continue
            if isinstance(x, type):
                if x.__module__.partition(".")[0] in self.prefixes:
                    d = {k: v for k, v in x.__dict__.items()
                         if k not in ("__dict__", "__weakref__", "__doc__", "__module__",
                                      "__abstractmethods__", "_abc_impl")}
                    self.saved.append(("class", x, d))
                    stack.extend(d.values())
                    stack.extend(x.__bases__)
                continue
            if t.__module__.partition(".")[0] in self.prefixes or t is models.SxCache:
                self._obj(x, stack)

    def _cell(self, c, stack):
        try:
            v = c.cell_contents
        except ValueError:
            return
        self.saved.append(("cell", c, v))
        stack.append(v)

    def _obj(self, x, stack):
        d = getattr(x, "__dict__", None)
        if d is not None:
            self.saved.append(("dict", d, dict(d)))
            stack.extend(d.values())
        for c in type(x).__mro__:
            sl = c.__dict__.get("__slots__", ())
            if isinstance(sl, str):
                sl = (sl,)
            vals = {}
            for s in sl:
                if s in ("__dict__", "__weakref__"):
                    continue
                try:
                    vals[s] = object.__getattribute__(x, s)
                except AttributeError:
                    pass
            if vals:
                self.saved.append(("slots", x, vals))
                stack.extend(vals.values())

    def restore(self):
        for d, c in self.moddicts:
            if len(d) != len(c):
                for k in [k for k in d if k not in c]:
                    del d[k]
            for k, v in c.items():
                if d.get(k, self) is not v:
                    d[k] = v
        for kind, x, c in self.saved:
            if kind == "dict":
                if len(x) == len(c):
                    same = True
                    for (k1, v1), (k2, v2) in zip(x.items(), c.items()):
                        if k1 is not k2 or v1 is not v2:
                            same = False
                            break
                    if same:
                        continue
                x.clear()
                dict.update(x, c)
            elif kind == "list":
                x[:] = c
            elif kind == "set":
                if x != c:
                    x.clear()
                    x.update(c)
            elif kind == "cell":
                try:
                    if x.cell_contents is c:
                        continue
                except ValueError:
                    pass
                x.cell_contents = c
            elif kind == "slots":
                for k, v in c.items():
                    try:
                        if object.__getattribute__(x, k) is v:
                            continue
                    except AttributeError:
                        pass
                    object.__setattr__(x, k, v)
            else:
                cur = x.__dict__
                for k in [k for k in cur if k not in c and k not in (
                        "__dict__", "__weakref__", "__doc__", "__module__",
                        "__abstractmethods__", "_abc_impl")]:
                    try:
                        delattr(x, k)
                    except (AttributeError, TypeError):
                        pass
                for k, v in c.items():
                    if cur.get(k) is not v:
                        try:
                            setattr(x, k, v)
                        except (AttributeError, TypeError):
                            pass
