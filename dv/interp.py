"""Interpreter of the real Python source over symbolic values.

The functions executed here are found through the live function objects of the imported
modules; their text is parsed from the source files on every run.  Nothing is rewritten.
"""
from __future__ import annotations
import ast
import builtins
import contextlib
import functools
import inspect
import weakref
from collections import deque
import os
import sys
import types
import dataclasses
import enum
from . import terms as tm
from . import values as vl
from .terms import T
from .values import SymBytes, SymBA, SymStr, SymMV
from .engine import Unsupported, Raised, Cut, current, LOC

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS: list[str] = [os.path.join(VERIF, "specs")]     # source trees that are interpreted
MAXDEPTH = 120


class Sym:
    """base of modelled opaque objects (dates, ...): subclasses define dv_getattr etc."""


def is_sym(x):
    return type(x) is T or isinstance(x, (SymBytes, SymBA, SymStr, SymMV, Sym, IFunc, LoopSeq))


class LoopSeq:
    pass


# ------------------------------------------------------------------ source

_files: dict = {}


class _Index(ast.NodeVisitor):
    def __init__(self):
        self.fns: dict = {}
        self.cls: list = []

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()

    def _fn(self, n, name):
        line = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
        n._cls = self.cls[-1] if self.cls else None
        n._gen = None
        self.fns.setdefault((name, line), []).append(n)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self._fn(n, n.name)

    def visit_AsyncFunctionDef(self, n):
        self._fn(n, n.name)

    def visit_Lambda(self, n):
        self._fn(n, "<lambda>")


def source_index(path):
    r = _files.get(path)
    if r is None:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read(), path)
        v = _Index()
        v.visit(tree)
        r = _files[path] = v.fns
    return r


def in_roots(path):
    return any(path.startswith(r + os.sep) or path == r for r in ROOTS)


def fn_node(f):
    co = f.__code__
    c = source_index(co.co_filename).get((co.co_name, co.co_firstlineno))
    if not c:
        raise Unsupported(f"no source for {f.__qualname__}")
    if len(c) > 1:
        pos = next((p for p in co.co_positions() if p[0] is not None and p[2] is not None), None)
        cols = [n for n in c if n.col_offset <= (pos[2] if pos else 0)]
        c = sorted(cols or c, key=lambda n: -n.col_offset)
    return c[0]


def has_yield(node):
    if node._gen is None:
        def walk(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                    return True
                if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                                   ast.ListComp, ast.SetComp, ast.DictComp, ast.AsyncFunctionDef)):
                    continue
                if walk(ch):
                    return True
            return False
        node._gen = isinstance(node, ast.FunctionDef) and any(
            isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)) or
            not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and walk(s) for s in node.body)
    return node._gen


# ------------------------------------------------------------------ frames

class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Frame:
    __slots__ = ("locals", "globals", "parent", "nonlocals", "globs", "cls", "cells", "fn", "selfarg", "node", "isclass", "inloop", "consumer")

    def __init__(self, globals_, parent=None, cls=None, cells=None, fn=None):
        self.locals: dict = {}
        self.globals = globals_
        self.parent = parent            # enclosing interpreted frame
        self.nonlocals: set = set()
        self.globs: set = set()
        self.cls = cls                  # class name used for mangling
        self.cells = cells or {}        # live closure cells
        self.fn = fn
        self.selfarg = None
        self.node = None
        self.isclass = False
        self.inloop = 0
        self.consumer = None            # a generator whose items are handed over as they are yielded


class IFunc:
    """function created by interpreted code"""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.__name__ = name
        self.__qualname__ = name
        self.__module__ = frame.globals.get("__name__")

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        return call(self, a, k)


NATIVE_LIFT: dict = {}      # type of native objects -> modelled object, for operations with symbolic operands
SUMMARIES: dict = {}        # live function -> replacement (contract) callable(args, kwargs)
MODELS: dict = {}           # builtin callable -> model
METHODS: dict = {}          # (kind, name) -> model
INTERPRETED: set = set()
_depth = [0]
GENS = weakref.WeakKeyDictionary()      # generators not started -> (function, frame)
FRAMES: list = []        # active frames


def unwrap_fn(f):
    return f


def mangle(name, cls):
    if cls and name.startswith("__") and not name.endswith("__") and "." not in name:
        c = cls.lstrip("_")
        if c:
            return f"_{c}{name}"
    return name


# ------------------------------------------------------------------ calls

def call(f, args=(), kwargs=None):
    kwargs = kwargs or {}
    args = tuple(args)
    if isinstance(f, types.MethodType):
        return call(f.__func__, (f.__self__,) + args, kwargs)
    if isinstance(f, BoundModel):
        return f.fn(f.obj, *args, **kwargs)
    if isinstance(f, IFunc):
        return run_ifunc(f, args, kwargs)
    try:
        m = current().cells.get("uses")
        u = m.get(f) if m else None
    except TypeError:
        u = None
    if u is not None:
        r = call(u, args, kwargs)
        if r is not NotImplemented:
            current().x.summaries.add(getattr(f, "__qualname__", str(f)))
            return r
    try:
        m = SUMMARIES.get(f)
        if m is not None and f not in current().cells.get("nosum", ()):
            current().x.summaries.add(getattr(f, "__qualname__", str(f)))
            return m(*args, **kwargs)
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kwargs)
    if isinstance(f, types.FunctionType):
        if in_roots(f.__code__.co_filename):
            return run_live(f, args, kwargs)
        if f.__code__ is _CM_CODE:
            return GenContext(call(f.__wrapped__, args, kwargs))
        return native(f, args, kwargs)
    if isinstance(f, functools.partial):
        return call(f.func, f.args + args, {**f.keywords, **kwargs})
    if isinstance(f, type):
        return instantiate(f, args, kwargs)
    if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType, types.MethodDescriptorType,
                      types.WrapperDescriptorType, types.ClassMethodDescriptorType)):
        return call_builtin(f, args, kwargs)
    if isinstance(f, functools._lru_cache_wrapper):
        return call(f.__wrapped__, args, kwargs)
    if hasattr(f, "dv_call"):
        return f.dv_call(*args, **kwargs)
    c = lookup(type(f), "__call__")
    if c is not None and not isinstance(c, types.WrapperDescriptorType):
        return call(getattr_(f, "__call__"), args, kwargs)
    return native(f, args, kwargs)


_CM_CODE = contextlib.contextmanager(lambda: None).__code__


class GenContext:
    """context manager made of an interpreted generator"""

    def __init__(self, gen):
        self.gen = gen

    def enter(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise Raised(RuntimeError("generator didn't yield"))

    def leave(self, r):
        """r: the Raised of the body or None; True if the exception is suppressed"""
        try:
            if r is None:
                next(self.gen)
            else:
                self.gen.throw(r)
        except StopIteration:
            return True
        except Raised as q:
            if r is not None and q.exc is r.exc:
                return False
            raise
        raise Raised(RuntimeError("generator didn't stop"))


class BoundModel:
    __slots__ = ("fn", "obj", "name")

    def __init__(self, fn, obj, name):
        self.fn, self.obj, self.name = fn, obj, name


LISTLIKE_OK = {
    list: {"append", "pop", "insert", "extend", "clear", "copy", "reverse"},
    dict: {"items", "values", "keys", "get", "pop", "setdefault", "update", "clear", "copy"},
    tuple: set(), set: {"add", "clear", "copy"},
}


def call_builtin(f, args, kwargs):
    """builtin function or method"""
    self_ = getattr(f, "__self__", None)
    name = getattr(f, "__name__", "")
    if self_ is not None and not isinstance(self_, types.ModuleType):
        t = type(self_)
        if isinstance(self_, type):
            m = MODELS.get((self_, name))
            if m is None:
                for b in self_.__mro__:
                    m = MODELS.get((b, name))
                    if m:
                        break
            if m is not None:
                return m(self_, *args, **kwargs)
        else:
            for b in t.__mro__:
                m = METHODS.get((b, name))
                if m is not None:
                    return m(self_, *args, **kwargs)
            for b in (list, dict, set):
                if isinstance(self_, b) and name in LISTLIKE_OK[b]:
                    if name not in ("copy", "items", "values", "keys", "get"):
                        thawed(self_)
                    if b is list and name == "extend":
                        if is_sym(args[0]):
                            from . import seqs
                            segs = seqs.segs_of(args[0])
                            if any(s[0] != "c" for s in segs):
                                seqs.grow(self_, segs)
                            else:
                                self_.extend(x for s in segs for x in s[1])
                            return None
                        if isinstance(args[0], types.GeneratorType):
                            lf = Frame({})
                            lf.locals[".items"] = self_
                            FRAMES.append(lf)
                            try:
                                if push_run(args[0], lambda x: call(getattr_(lf.locals[".items"], "append"), (x,))):
                                    return None
                            finally:
                                FRAMES.pop()
                        self_.extend(iterate(args[0]))
                        return None
                    if b is list and name in ("pop", "insert") and any(is_sym(a) for a in args[:1]):
                        args = (current().concretize(args[0]),) + args[1:]
                    if b is dict and name == "update" and args and type(args[0]) is dict:
                        pass        # the keys of a dictionary are concrete
                    elif b in (dict, set) and args and deep_sym(args[0]):
                        raise Unsupported(f"symbolic key in {b.__name__}.{name}")
                    return natively(f, args, kwargs)
    elif isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)) and args:
        # unbound: int.to_bytes(x, ...), object.__setattr__(self, ...)
        oc = f.__objclass__
        m = METHODS.get((oc, name))
        if m is not None:
            return m(*args, **kwargs)
        a0 = args[0]
        if is_sym(a0) and isinstance_(a0, oc):
            return call(getattr_(a0, name), args[1:], kwargs)
        if isinstance(a0, (list, dict, set)) and not is_sym(a0):
            return call_builtin(getattr(a0, name), args[1:], kwargs) if type(a0) in (list, dict, set) else native(f, args, kwargs)
    return native(f, args, kwargs)


def natively(f, args, kwargs):
    try:
        return f(*args, **kwargs)
    except (Unsupported, Raised, Cut):
        raise
    except RecursionError:
        raise Unsupported("recursion")
    except Exception as e:
        raise Raised(e)


def native(f, args, kwargs):
    if deep_sym(args) or (kwargs and deep_sym(list(kwargs.values()))) or \
            (getattr(f, "__self__", None) is not None and deep_sym(f.__self__)):
        raise Unsupported(f"native call with symbolic arguments: {getattr(f, '__qualname__', f)}")
    return natively(f, args, kwargs)


def deep_sym(x, seen=None, depth=0):
    if is_sym(x):
        return True
    t = type(x)
    if t in (int, str, bytes, bool, float, type(None), bytearray, range, type, types.FunctionType, types.BuiltinFunctionType,
             types.ModuleType, types.MethodType):
        if t is types.MethodType:
            return deep_sym(x.__self__, seen, depth + 1)
        return False
    if seen is None:
        seen = set()
    if id(x) in seen or depth > 12:
        return False
    seen.add(id(x))
    if isinstance(x, dict):
        return any(deep_sym(k, seen, depth + 1) or deep_sym(v, seen, depth + 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)) or t.__name__ == "deque":
        if any(deep_sym(v, seen, depth + 1) for v in x):
            return True
    if isinstance(x, type) or isinstance(x, enum.Enum):
        return False
    if isinstance(x, types.GeneratorType):
        return True
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict) and any(deep_sym(v, seen, depth + 1) for v in d.values()):
        return True
    for c in t.__mro__:
        for s in getattr(c, "__slots__", ()) if isinstance(getattr(c, "__slots__", ()), (tuple, list)) else ():
            if isinstance(s, str):
                n = mangle(s, c.__name__)
                try:
                    v = object.__getattribute__(x, n)
                except AttributeError:
                    continue
                if deep_sym(v, seen, depth + 1):
                    return True
    return False


def bind(node, args, kwargs, defaults, kwdefaults, fname):
    a = node.args
    loc = {}
    names = [x.arg for x in a.posonlyargs + a.args]
    args = list(args)
    kwargs = dict(kwargs)
    if len(args) > len(names):
        if a.vararg is None:
            raise Raised(TypeError(f"{fname}() takes {len(names)} positional arguments but {len(args)} were given"))
        loc[a.vararg.arg] = tuple(args[len(names):])
        args = args[:len(names)]
    elif a.vararg is not None:
        loc[a.vararg.arg] = ()
    for n, v in zip(names, args):
        loc[n] = v
    po = {x.arg for x in a.posonlyargs}
    nd = len(defaults)
    for i, n in enumerate(names):
        if n in kwargs and n not in po:
            if n in loc:
                raise Raised(TypeError(f"{fname}() got multiple values for argument '{n}'"))
            loc[n] = kwargs.pop(n)
        if n not in loc:
            j = i - (len(names) - nd)
            if j < 0:
                raise Raised(TypeError(f"{fname}() missing a required argument: '{n}'"))
            loc[n] = defaults[j]
    for x in a.kwonlyargs:
        n = x.arg
        if n in kwargs:
            loc[n] = kwargs.pop(n)
        elif n in kwdefaults:
            loc[n] = kwdefaults[n]
        else:
            raise Raised(TypeError(f"{fname}() missing keyword-only argument '{n}'"))
    if a.kwarg is not None:
        loc[a.kwarg.arg] = kwargs
    elif kwargs:
        raise Raised(TypeError(f"{fname}() got an unexpected keyword argument '{next(iter(kwargs))}'"))
    return loc


def run_live(f, args, kwargs):
    node = fn_node(f)
    fr = Frame(f.__globals__, None, node._cls)
    fr.fn = f
    if f.__closure__:
        fr.cells = dict(zip(f.__code__.co_freevars, f.__closure__))
    fr.locals = bind(node, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__name__)
    if args:
        fr.selfarg = args[0]
    INTERPRETED.add(f"{f.__module__}:{f.__qualname__}")
    return exec_fn(node, fr)


def run_ifunc(f, args, kwargs):
    fr = Frame(f.frame.globals, f.frame, getattr(f.node, "_cls", None) or f.frame.cls)
    fr.fn = f
    fr.locals = bind(f.node, args, kwargs, f.defaults, f.kwdefaults, f.__name__)
    if args:
        fr.selfarg = args[0]
    return exec_fn(f.node, fr)


def exec_fn(node, fr):
    fr.node = node
    if isinstance(node, ast.Lambda):
        return ev(node.body, fr)
    if has_yield(node):
        g = gen_run(node, fr)
        GENS[g] = (node, fr)
        return g
    _depth[0] += 1
    FRAMES.append(fr)
    try:
        if _depth[0] > MAXDEPTH:
            raise Unsupported("call depth")
        block(node.body, fr)
    except Return as r:
        return r.v
    finally:
        FRAMES.pop()
        _depth[0] -= 1
    return None


def instantiate(cls, args, kwargs):
    m = MODELS.get(cls)
    if m is not None:
        return m(*args, **kwargs)
    if cls is type:
        if len(args) == 1:
            return type_of(args[0])
        raise Unsupported("type() with bases")
    if issubclass(cls, BaseException):
        init = lookup(cls, "__init__")
        if isinstance(init, types.FunctionType) and in_roots(init.__code__.co_filename):
            e = cls.__new__(cls)
            call(init, (e,) + args, kwargs)
            return e
        return natively(cls, args, kwargs)
    if isinstance(cls, enum.EnumMeta):
        return enum_lookup(cls, args)
    if cls.__module__ == "builtins" or not issubclass_user(cls):
        return native(cls, args, kwargs)
    new = lookup(cls, "__new__")
    if isinstance(new, staticmethod):
        new = new.__func__
    if isinstance(new, (types.FunctionType,)) and in_roots(new.__code__.co_filename):
        obj = call(new, (cls,) + args, kwargs)
    elif issubclass(cls, (int, bytes, str, tuple, float)):
        base = next(b for b in (int, bytes, str, tuple, float) if issubclass(cls, b))
        init = lookup(cls, "__init__")
        if deep_sym(args):
            if base is bytes and len(args) == 1 and isinstance(args[0], SymBytes):
                return args[0]          # loses the subclass: only display differs
            if base is tuple:
                obj = new(cls, *args, **kwargs) if not (isinstance(new, types.FunctionType)) else native_new(new, cls, args, kwargs)
                return obj
            raise Unsupported(f"symbolic {cls.__name__}()")
        return natively(cls, args, kwargs)
    elif isinstance(new, types.FunctionType):
        obj = native_new(new, cls, args, kwargs)
    else:
        try:
            obj = object.__new__(cls)
        except TypeError as e:
            raise Raised(e)
    if not isinstance(obj, cls):
        return obj
    init = lookup(cls, "__init__")
    if isinstance(init, types.FunctionType):
        if in_roots(init.__code__.co_filename):
            call(init, (obj,) + args, kwargs)
        elif dataclasses.is_dataclass(cls) and "__dataclass_fields__" in vars(owner(cls, "__init__")):
            dc_init(obj, owner(cls, "__init__"), args, kwargs)
        else:
            native(init, (obj,) + args, kwargs)
    elif args or kwargs:
        if init is object.__init__ and new is not object.__new__:
            pass
        elif init is object.__init__:
            raise Raised(TypeError(f"{cls.__name__}() takes no arguments"))
        else:
            native(init, (obj,) + args, kwargs)
    return obj


def native_new(new, cls, args, kwargs):
    # namedtuple-style generated __new__: stores its arguments
    return natively(new, (cls,) + tuple(args), kwargs)


def issubclass_user(cls):
    return any(is_user_class(c) for c in cls.__mro__)


def is_user_class(c):
    m = sys.modules.get(c.__module__)
    f = getattr(m, "__file__", None)
    return f is not None and in_roots(os.path.abspath(f))


def owner(cls, name):
    for c in cls.__mro__:
        if name in vars(c):
            return c


def dc_init(obj, cls, args, kwargs):
    """generated dataclass __init__"""
    flds = [f for f in dataclasses.fields(cls) if f.init]
    # python keeps kw_only fields last
    pos = [f for f in flds if not f.kw_only]
    args = list(args)
    if len(args) > len(pos):
        raise Raised(TypeError("too many arguments"))
    vals = {}
    for f, v in zip(pos, args):
        vals[f.name] = v
    for k, v in kwargs.items():
        if k in vals or k not in {f.name for f in flds}:
            raise Raised(TypeError(f"unexpected argument {k}"))
        vals[k] = v
    frozen = cls.__dataclass_params__.frozen
    for f in dataclasses.fields(cls):
        if f.name in vals:
            v = vals[f.name]
        elif f.default is not dataclasses.MISSING:
            if not f.init:
                continue
            v = f.default
        elif f.default_factory is not dataclasses.MISSING:
            v = call(f.default_factory)
        elif not f.init:
            continue
        else:
            raise Raised(TypeError(f"missing argument {f.name}"))
        if frozen:
            obj_setattr(obj, f.name, v)
        else:
            setattr_(obj, f.name, v)
    pi = lookup(type(obj), "__post_init__")
    if pi is not None:
        call(pi, (obj,))


def enum_lookup(cls, args):
    v = args[0]
    if isinstance(v, cls):
        return v
    if not is_sym(v):
        return natively(cls, args, {})
    for m in cls:
        if truth(equals(v, m.value)):
            return m
    mi = lookup(cls, "_missing_")
    raise Raised(ValueError(f"not a valid {cls.__name__}"))


# ------------------------------------------------------------------ attributes

def lookup(cls, name):
    for c in cls.__mro__:
        d = c.__dict__
        if name in d:
            return d[name]
    return None


_MISSING = object()


def kind(x):
    """name of the modelled kind of a symbolic value"""
    if type(x) is T:
        return int if x.sort == "I" else bool
    if isinstance(x, SymBytes):
        return bytes
    if isinstance(x, SymBA):
        return bytearray
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymMV):
        return memoryview
    if isinstance(x, IFunc):
        return types.FunctionType
    return getattr(x, "dv_type", type(x))


def type_of(x):
    return kind(x) if is_sym(x) else type(x)


class SuperProxy:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def getattr_(obj, name):
    if type(obj) is T or isinstance(obj, (SymBytes, SymBA, SymStr, SymMV)):
        k = kind(obj)
        if name == "__class__":
            return k
        for b in k.__mro__:
            m = METHODS.get((b, name))
            if m is not None:
                return BoundModel(m, obj, name)
        if k is memoryview and name == "nbytes":
            return obj.n
        if k is memoryview and name == "readonly":
            return obj.ro
        if k in (int, bool) and name in ("real", "numerator"):
            return obj
        raise Unsupported(f"{k.__name__}.{name} on a symbolic value") if hasattr(k, name) else \
            Raised(AttributeError(f"'{k.__name__}' object has no attribute '{name}'"))
    if isinstance(obj, SuperProxy):
        return super_get(obj, name)
    if isinstance(obj, Sym):
        return obj.dv_getattr(name)
    if isinstance(obj, IFunc):
        if name in ("__name__", "__qualname__", "__module__"):
            return object.__getattribute__(obj, name)
        raise Raised(AttributeError(name))
    if isinstance(obj, types.ModuleType):
        try:
            return getattr(obj, name)
        except AttributeError as e:
            raise Raised(e)
    if isinstance(obj, type):
        # class attribute; metaclass properties are native
        try:
            v = lookup(obj, name)
            if v is None and lookup(type(obj), name) is None and not hasattr(obj, name):
                raise Raised(AttributeError(f"type object '{obj.__name__}' has no attribute '{name}'"))
            return getattr(obj, name)
        except AttributeError as e:
            raise Raised(e)
    cls = type(obj)
    if name == "__class__":
        return cls
    if name == "__dict__":
        try:
            return object.__getattribute__(obj, "__dict__")
        except AttributeError as e:
            raise Raised(e)
    ga = lookup(cls, "__getattribute__")
    if isinstance(ga, types.FunctionType) and in_roots(ga.__code__.co_filename):
        return call(ga, (obj, name))
    try:
        return obj_getattr(obj, name)
    except Raised as r:
        if isinstance(r.exc, AttributeError):
            g = lookup(cls, "__getattr__")
            if g is not None:
                return call(g, (obj, name))
        raise


def obj_getattr(obj, name):
    cls = type(obj)
    a = lookup(cls, name)
    if a is not None or name in _all_names(cls, name):
        ta = type(a)
        if ta is property:
            if a.fget is None:
                raise Raised(AttributeError(name))
            return call(a.fget, (obj,))
        if ta is types.MemberDescriptorType or ta is types.GetSetDescriptorType:
            return natively(a.__get__, (obj, cls), {})
        if hasattr(ta, "__set__") and hasattr(ta, "__get__"):
            g = lookup(ta, "__get__")
            return call(g, (a, obj, cls))
    d = getattr(obj, "__dict__", None)
    if d is not None and name in d:
        return d[name]
    if a is not None or name in _all_names(cls, name):
        ta = type(a)
        if ta is types.FunctionType or ta is IFunc:
            return types.MethodType(a, obj)
        if ta is staticmethod:
            return a.__func__
        if ta is classmethod:
            return types.MethodType(a.__func__, cls)
        if ta is functools.cached_property:
            v = call(a.func, (obj,))
            obj.__dict__[a.attrname] = v
            return v
        if hasattr(ta, "__get__"):
            g = lookup(ta, "__get__")
            if isinstance(g, types.FunctionType) and in_roots(g.__code__.co_filename):
                return call(g, (a, obj, cls))
            return natively(a.__get__, (obj, cls), {})
        return a
    raise Raised(AttributeError(f"'{cls.__name__}' object has no attribute '{name}'"))


def _all_names(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return (name,)
    return ()


def super_get(sp, name):
    obj = sp.obj
    is_cls = isinstance(obj, type)
    mro = obj.__mro__ if is_cls else type(obj).__mro__
    i = mro.index(sp.cls)
    for c in mro[i + 1:]:
        if name in c.__dict__:
            a = c.__dict__[name]
            ta = type(a)
            if ta is types.FunctionType:
                return a if is_cls and name != "__init_subclass__" else types.MethodType(a, obj)
            if ta is property:
                return call(a.fget, (obj,))
            if ta is staticmethod:
                return a.__func__
            if ta is classmethod:
                return types.MethodType(a.__func__, obj if is_cls else type(obj))
            if c is object:
                if name == "__setattr__":
                    return BoundModel(obj_setattr, obj, name)
                if name == "__getattribute__":
                    return BoundModel(obj_getattr, obj, name)
                if name == "__init__":
                    return BoundModel(lambda o, *a, **k: None, obj, name)
                if name == "__new__":
                    return object.__new__
                if name == "__eq__":
                    return BoundModel(lambda o, q: True if o is q else NotImplemented, obj, name)
                if name == "__init_subclass__":
                    return BoundModel(lambda o, **k: None, obj, name)
                if name == "__hash__":
                    return BoundModel(lambda o: object.__hash__(o), obj, name)
            if hasattr(ta, "__get__"):
                b = a.__get__(None if is_cls else obj, obj if is_cls else type(obj))
                if ta in (types.WrapperDescriptorType, types.MethodDescriptorType) and not is_cls:
                    return b
                return b
            return a
    raise Raised(AttributeError(f"'super' object has no attribute '{name}'"))


def setattr_(obj, name, v):
    if is_sym(obj):
        if isinstance(obj, Sym):
            return obj.dv_setattr(name, v)
        raise Raised(AttributeError(f"'{kind(obj).__name__}' object attribute '{name}' is read-only"))
    if isinstance(obj, type):
        raise Unsupported("assignment to a class attribute")
    if isinstance(obj, types.ModuleType):
        raise Unsupported("assignment to a module attribute")
    sa = lookup(type(obj), "__setattr__")
    if isinstance(sa, types.FunctionType):
        if in_roots(sa.__code__.co_filename):
            call(sa, (obj, name, v))
            return
        p = getattr(owner(type(obj), "__setattr__"), "__dataclass_params__", None)
        if p is not None and p.frozen:
            raise Raised(dataclasses.FrozenInstanceError(f"cannot assign to field {name!r}"))
        raise Unsupported("generated __setattr__")
    obj_setattr(obj, name, v)


def thawed(obj):
    """obj may be changed: it does not stand for an element of a sequence of unknown length"""
    f = current().cells.get("frozen")
    if f and id(obj) in f:
        raise Unsupported("changing an element of a sequence of unknown length")


def obj_setattr(obj, name, v):
    if isinstance(obj, type) or is_sym(obj):
        raise Unsupported("setattr target")
    thawed(obj)
    a = lookup(type(obj), name)
    if a is not None:
        ta = type(a)
        if ta is property:
            if a.fset is None:
                raise Raised(AttributeError(f"property '{name}' of '{type(obj).__name__}' object has no setter"))
            call(a.fset, (obj, v))
            return
        if ta in (types.MemberDescriptorType, types.GetSetDescriptorType):
            natively(a.__set__, (obj, v), {})
            return
        if hasattr(ta, "__set__"):
            s = lookup(ta, "__set__")
            call(s, (a, obj, v))
            return
    natively(object.__setattr__, (obj, name, v), {})


def delattr_(obj, name):
    thawed(obj)
    a = lookup(type(obj), name)
    if type(a) is property and a.fdel:
        return call(a.fdel, (obj,))
    natively(object.__delattr__, (obj, name), {})


# ------------------------------------------------------------------ operators

def truth(v):
    if type(v) is T:
        return current().branch(v if v.sort == "B" else tm.ne(v, 0))
    if isinstance(v, SymBytes) or isinstance(v, SymBA):
        return current().branch(tm.gt(vl.length(v), 0))
    if isinstance(v, SymMV):
        return current().branch(tm.gt(v.n, 0))
    if isinstance(v, SymStr):
        if any(isinstance(q, str) or q[0] in ("ch", "dec", "hex2") for q in v.parts):
            return True
        if all(q[0] == "enc" for q in v.parts):
            return current().branch(tm.or_(*[tm.gt(vl.length(vl.part_bytes(q)), 0) for q in v.parts]))
        raise Unsupported("truth of opaque text")
    if isinstance(v, Sym):
        return v.dv_truth()
    t = type(v)
    if t in (bool, int, str, bytes, list, tuple, dict, set, type(None), float, bytearray):
        return bool(v)
    if isinstance(v, (types.FunctionType, type, types.MethodType, IFunc, BoundModel)):
        if isinstance(v, enum.EnumMeta):
            return True
        return True
    b = lookup(t, "__bool__")
    if b is not None:
        if isinstance(b, types.FunctionType):
            return truth(call(b, (v,)))
        return natively(bool, (v,), {})
    ln = lookup(t, "__len__")
    if ln is not None:
        if isinstance(ln, types.FunctionType):
            return truth(tm.ne(call(ln, (v,)), 0))
        return natively(bool, (v,), {})
    return True


def truth_term(v):
    """truth value as a term, without branching where possible"""
    if type(v) is T:
        return v if v.sort == "B" else tm.ne(v, 0)
    if isinstance(v, (SymBytes, SymBA)):
        return tm.gt(vl.length(v), 0)
    return truth(v)


def as_int(v):
    """bool terms in arithmetic"""
    if type(v) is T and v.sort == "B":
        return tm.b2i(v)
    return v


def isnum(v):
    return type(v) is T or isinstance(v, (int,)) and not isinstance(v, enum.Enum) or isinstance(v, int)


DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift", ast.BitOr: "or", ast.BitXor: "xor", ast.BitAnd: "and",
          ast.MatMult: "matmul"}
import operator as _op
PYOP = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv, ast.Mod: _op.mod,
        ast.Pow: _op.pow, ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.BitOr: _op.or_, ast.BitXor: _op.xor,
        ast.BitAnd: _op.and_, ast.MatMult: _op.matmul}


def binop(op, a, b, inplace=False):
    if not is_sym(a) and not is_sym(b):
        r = user_binop(op, a, b, inplace)
        if r is not NotImplemented:
            return r
        if deep_sym(a) or deep_sym(b):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op is ast.Add and type(a) is type(b):
                if inplace and isinstance(a, list):
                    thawed(a)
                    a += b
                    return a
                return a + b
            if isinstance(a, (list, tuple)) and op is ast.Mult and isinstance(b, int):
                return a * b
            if op is ast.Mod and isinstance(a, bytes):
                return _bytes_format(a, b)
            if op is ast.Mod and isinstance(a, str):
                return str_op(op, a, b)
            if isinstance(a, (set, frozenset, dict)):
                raise Unsupported("set operation on symbolic elements")
        return natively(_inp(op) if inplace else PYOP[op], (a, b), {})
    if type(a) in NATIVE_LIFT:
        a = NATIVE_LIFT[type(a)](a)
    if type(b) in NATIVE_LIFT:
        b = NATIVE_LIFT[type(b)](b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = NotImplemented
        if inplace and type_of(a) is list and op is ast.Add:
            call(getattr_(a, "extend"), (b,))
            return a
        if isinstance(a, Sym):
            r = a.dv_binop(op, b, False)
        if r is NotImplemented and isinstance(b, Sym):
            r = b.dv_binop(op, a, True)
        if r is NotImplemented:
            raise Unsupported(f"operator on {a!r}, {b!r}")
        return r
    # octets
    ka, kb = type_of(a), type_of(b)
    if ka in (bytes, bytearray) or kb in (bytes, bytearray) or isinstance(a, bytes) or isinstance(b, bytes):
        return bytes_op(op, a, b, inplace)
    if ka is str or kb is str:
        return str_op(op, a, b)
    if isinstance(a, (list, tuple)) and op is ast.Mult:
        return a * current().concretize(b)
    if isinstance(b, (list, tuple)) and op is ast.Mult:
        return b * current().concretize(a)
    if _intlike(a) and _intlike(b):
        return int_op(op, as_int(a) if not (ka is bool and kb is bool and op in (ast.BitAnd, ast.BitOr, ast.BitXor)) else a,
                      as_int(b) if not (ka is bool and kb is bool and op in (ast.BitAnd, ast.BitOr, ast.BitXor)) else b)
    r = user_binop(op, a, b, inplace)
    if r is not NotImplemented:
        return r
    if ka in (int, bool) and kb in (int, bool, bytes, str, type(None), list, tuple, dict) or \
            kb in (int, bool) and ka in (type(None), list, tuple, dict, str, bytes):
        raise Raised(TypeError(f"unsupported operand type(s): {ka.__name__} and {kb.__name__}"))
    raise Unsupported(f"operator {op.__name__} on {ka.__name__}, {kb.__name__}")


def _intlike(v):
    return type(v) is T or isinstance(v, int)


import operator
_INP = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.BitOr: operator.ior, ast.BitAnd: operator.iand,
        ast.BitXor: operator.ixor, ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.FloorDiv: operator.ifloordiv,
        ast.Mod: operator.imod, ast.Div: operator.itruediv, ast.Pow: operator.ipow}


def _inp(op):
    return _INP.get(op, PYOP[op])


def user_binop(op, a, b, inplace=False):
    """user-defined operator methods (interpreted)"""
    n = DUNDER[op]
    ta, tb = type_of(a), type_of(b)
    if inplace:
        m = lookup(ta, f"__i{n}__") if isinstance(ta, type) else None
        if isinstance(m, types.FunctionType):
            r = call(m, (a, b))
            if r is not NotImplemented:
                return r
    m = lookup(ta, f"__{n}__") if isinstance(ta, type) else None
    mr = lookup(tb, f"__r{n}__") if isinstance(tb, type) else None
    if isinstance(mr, types.FunctionType) and tb is not ta and issubclass(tb, ta):
        r = call(mr, (b, a))
        if r is not NotImplemented:
            return r
        mr = None
    if isinstance(m, types.FunctionType) and not is_sym(a):
        r = call(m, (a, b))
        if r is not NotImplemented:
            return r
    if isinstance(mr, types.FunctionType) and not is_sym(b):
        r = call(mr, (b, a))
        if r is not NotImplemented:
            return r
    if isinstance(m, types.FunctionType) or isinstance(mr, types.FunctionType):
        if in_user(m) or in_user(mr):
            raise Raised(TypeError(f"unsupported operand type(s) for {n}"))
    return NotImplemented


def in_user(m):
    return isinstance(m, types.FunctionType) and in_roots(m.__code__.co_filename)


def int_op(op, a, b):
    p = current()
    if op is ast.Add:
        return tm.add(a, b)
    if op is ast.Sub:
        return tm.sub(a, b)
    if op is ast.Mult:
        return tm.mul(a, b)
    if op in (ast.FloorDiv, ast.Mod):
        if type(b) is T:
            if p.branch(tm.eq(b, 0)):
                raise Raised(ZeroDivisionError("division by zero"))
            lo, hi = p.interval(b)
            if lo is None or lo < 0:
                if not p.branch(tm.gt(b, 0)):
                    return tm.div(tm.neg(a), tm.neg(b)) if op is ast.FloorDiv else tm.neg(tm.mod(tm.neg(a), tm.neg(b)))
            if lo is not None and lo == hi:
                b = lo
        elif b == 0:
            raise Raised(ZeroDivisionError("division by zero"))
        return tm.div(a, b) if op is ast.FloorDiv else tm.mod(a, b)
    if op in (ast.LShift, ast.RShift):
        if type(b) is T:
            if p.branch(tm.lt(b, 0)):
                raise Raised(ValueError("negative shift count"))
            lo, hi = p.interval(b)
            if hi is None or hi > 64:
                if p.entails(tm.le(b, 64)):
                    b = p.concretize(b)
                else:
                    raise Unsupported("shift by an unbounded amount")
            elif hi - lo <= 8 or True:
                b = p.concretize(b)
        if type(b) is not T and b < 0:
            raise Raised(ValueError("negative shift count"))
        return tm.shl(a, b) if op is ast.LShift else tm.shr(a, b)
    if op is ast.Pow:
        if type(b) is T:
            b = p.concretize(b)
        if b < 0:
            raise Unsupported("negative power")
        if type(a) is T:
            if b > 8:
                raise Unsupported("power")
            r = 1
            for _ in range(b):
                r = tm.mul(r, a)
            return r
        return a ** b
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if (type(a) is T and a.sort == "B" or isinstance(a, bool)) and (type(b) is T and b.sort == "B" or isinstance(b, bool)):
            if op is ast.BitAnd:
                return tm.and_(a, b)
            if op is ast.BitOr:
                return tm.or_(a, b)
            return tm.not_(tm.iff(a, b))
        a, b = as_int(a), as_int(b)
        if op is not ast.BitAnd:
            r = (tm.bor if op is ast.BitOr else tm.bxor)(a, b)
            if type(r) is not T or r.op not in ("bor", "bxor"):
                return r
        a, b = _narrow(p, a), _narrow(p, b)
        return {ast.BitAnd: tm.band, ast.BitOr: tm.bor, ast.BitXor: tm.bxor}[op](a, b)
    if op is ast.Div:
        raise Unsupported("true division of symbolic integers")
    raise Unsupported(f"operator {op.__name__}")


def _narrow(p, a):
    """use path bounds that are tighter than the static interval (bit operations need them)"""
    if type(a) is not T:
        return a
    lo, hi = p.interval(a)
    if lo is not None and lo == hi:
        return lo
    if (a.lo, a.hi) != (lo, hi) and lo is not None and hi is not None and (a.lo is None or a.hi is None or hi < a.hi or lo > a.lo):
        key = ("narrow", a, lo, hi)
        r = p.cells.get(key)
        if r is None:
            r = p.int_var("n!", lo, hi)
            p.cells[key] = r
            p.assume(tm.eq(r, a))
        return r
    return a


def bytes_op(op, a, b, inplace):
    p = current()
    if op is ast.Add:
        for v in (a, b):
            if type_of(v) not in (bytes, bytearray, memoryview) and not isinstance(v, (bytes, bytearray)):
                raise Raised(TypeError(f"can't concat {type_of(v).__name__}"))
        va = a.get() if isinstance(a, SymMV) else a
        vb = b.get() if isinstance(b, SymMV) else b
        r = vl.concat(va, vb)
        if isinstance(a, (SymBA, bytearray)):
            if inplace and isinstance(a, SymBA):
                a.b = r
                return a
            return SymBA(r)
        return r
    if op is ast.Mult:
        if _intlike(a):
            a, b = b, a
        n = p.concretize(as_int(b))
        r = vl.concat(*([a] * max(n, 0)))
        return SymBA(r) if isinstance(a, (SymBA, bytearray)) else r
    if op is ast.Mod:
        return _bytes_format(a, b)
    raise Raised(TypeError("unsupported operand type(s) for bytes"))


def _bytes_format(f, args):
    """b"..." % values with %b, %s and %c"""
    if not isinstance(f, bytes):
        raise Unsupported("bytes % on an unknown pattern")
    args = list(args) if isinstance(args, tuple) else [args]
    out, i = [], 0
    while i < len(f):
        j = f.find(b"%", i)
        if j < 0:
            j = len(f)
        out.append(f[i:j])
        k = f[j + 1:j + 2]
        i = j + 2
        if j == len(f):
            break
        if k == b"%":
            out.append(b"%")
            continue
        if not args or k not in (b"b", b"s", b"c"):
            raise Unsupported("bytes % pattern")
        v = args.pop(0)
        if k == b"c" and _intlike(v):
            v = as_int(v)
            if truth(tm.or_(tm.lt(v, 0), tm.lt(255, v)) if type(v) is T else not 0 <= v < 256):
                raise Raised(OverflowError("%c arg not in range(256)"))
            v = SymBytes([("c", (v,))]) if type(v) is T else bytes((v,))
        elif not isinstance(v, (bytes, bytearray, SymBytes, SymBA)):
            raise Unsupported("bytes % value")
        out.append(v)
    if args:
        raise Raised(TypeError("not all arguments converted during bytes formatting"))
    return vl.concat(*out)


def str_op(op, a, b):
    if op is ast.Add:
        if type_of(a) is str and type_of(b) is str or isinstance(a, str) and isinstance(b, (str, SymStr)) or isinstance(b, str) and isinstance(a, SymStr):
            return vl.simps(SymStr((a, b)))
        raise Raised(TypeError("can only concatenate str"))
    if op is ast.Mult:
        if _intlike(a):
            a, b = b, a
        n = current().concretize(as_int(b))
        return vl.simps(SymStr([a] * max(n, 0)))
    if op is ast.Mod and isinstance(a, str):
        return _str_format(a, b)
    raise Unsupported("operator on text")


def _str_format(f, args):
    """"..." % values with positional conversions (no precision)"""
    import re
    args = list(args) if isinstance(args, tuple) else [args]
    out, i = [], 0
    for m in re.finditer(r"%([0 ]?)(\d*)([sdiuxXr%])", f):
        if "%" in f[i:m.start()]:
            raise Unsupported("str % pattern")
        out.append(f[i:m.start()])
        i = m.end()
        zero, width, k = m.groups()
        if k == "%":
            out.append("%")
            continue
        if not args:
            raise Raised(TypeError("not enough arguments for format string"))
        v = args.pop(0)
        if k in "sr":
            v = str_of(v) if k == "s" else repr_of(v)
            if width:
                v = call(getattr_(v, "rjust"), (int(width),))
            out.append(v)
            continue
        if zero == " ":
            raise Unsupported("str % pattern")
        if not _intlike(v):
            raise Raised(TypeError("%d format: a real number is required")) if isinstance(v, (str, SymStr, bytes, SymBytes)) else Unsupported("str % value")
        v = as_int(v)
        k = k if k in "xX" else "d"
        if width and not zero:
            out.append(call(getattr_(format_of(v, k), "rjust"), (int(width),)))
        else:
            out.append(format_of(v, zero + width + k))
    if "%" in f[i:]:
        raise Unsupported("str % pattern")
    out.append(f[i:])
    if args:
        raise Raised(TypeError("not all arguments converted during string formatting"))
    return vl.simps(SymStr(out))


def unop(op, v):
    if op is ast.Not:
        if type(v) is T and v.sort == "B":
            return tm.not_(v)
        if type(v) is T:
            return tm.eq(v, 0)
        return not truth(v)
    if type(v) is T:
        v = as_int(v)
        if op is ast.USub:
            return tm.neg(v)
        if op is ast.UAdd:
            return v
        return tm.sub(-1, v)
    n = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[op]
    m = lookup(type(v), n)
    if isinstance(m, types.FunctionType):
        return call(m, (v,))
    if isinstance(v, Sym):
        return v.dv_unop(op)
    return natively({ast.USub: _op.neg, ast.UAdd: _op.pos, ast.Invert: _op.invert}[op], (v,), {})


_PRIM = (int, float, str, bytes, bool, type(None), complex, range, type, types.ModuleType, types.FunctionType)


def equals(a, b):
    """a == b : bool, term, or the value returned by a user __eq__"""
    if a is b and not is_sym(a) and isinstance(a, (int, str, bytes, type(None))):
        return True
    if is_sym(a) or is_sym(b):
        if isinstance(a, Sym):
            r = a.dv_eq(b)
            if r is not NotImplemented:
                return r
        if isinstance(b, Sym):
            r = b.dv_eq(a)
            if r is not NotImplemented:
                return r
            return a is b
        ka, kb = type_of(a), type_of(b)
        if _intlike(a) and _intlike(b):
            if ka is bool and kb is bool:
                return tm.iff(a, b)
            return tm.eq(as_int(a), as_int(b))
        bl = (bytes, bytearray, memoryview)
        if (issubclass(ka, bl)) and (issubclass(kb, bl)):
            va = a.get() if isinstance(a, SymMV) else a
            vb = b.get() if isinstance(b, SymMV) else b
            return vl.bytes_eq(va, vb)
        if ka is str and kb is str or (isinstance(a, str) and isinstance(b, SymStr)) or (isinstance(b, str) and isinstance(a, SymStr)):
            return vl.str_eq(a, b)
        # a user object on one side
        for x, y in ((a, b), (b, a)):
            if not is_sym(x):
                m = lookup(type(x), "__eq__")
                if isinstance(m, types.FunctionType):
                    r = user_eq(m, x, y)
                    if r is not NotImplemented:
                        return r
        if isinstance(a, float) or isinstance(b, float):
            f, s = (a, b) if isinstance(a, float) else (b, a)
            if type(s) is T:
                if f != f or f in (float("inf"), float("-inf")) or f != int(f):
                    return False
                return tm.eq(as_int(s), int(f))
        return a is b
    ta, tb = type(a), type(b)
    if ta in _PRIM and tb in _PRIM:
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and _builtin_eq(ta) and _builtin_eq(tb):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = equals(x, y)
            if type(r) is not T:
                r = truth(r)
                if not r:
                    return False
            out.append(r if r is True else (r if r.sort == "B" else tm.ne(r, 0)))
        return tm.and_(*out)
    ma, mb = lookup(ta, "__eq__"), lookup(tb, "__eq__")
    if isinstance(mb, types.FunctionType) and tb is not ta and issubclass(tb, ta):
        r = user_eq(mb, b, a)
        if r is not NotImplemented:
            return r
        mb = None
    if isinstance(ma, types.FunctionType):
        r = user_eq(ma, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(mb, types.FunctionType):
        r = user_eq(mb, b, a)
        if r is not NotImplemented:
            return r
    if isinstance(ma, types.FunctionType) or isinstance(mb, types.FunctionType):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        out = []
        for k in a:
            if k not in b:
                return False
            r = equals(a[k], b[k])
            out.append(r if type(r) is T else truth(r))
        return tm.and_(*out)
    if ta.__module__ == "builtins" and tb.__module__ == "builtins" and ta is not tb and \
            (ta in (list, tuple, dict, type(None), str) or tb in (list, tuple, dict, type(None), str)):
        return False
    if deep_sym(a) or deep_sym(b):
        if ma is object.__eq__ and mb is object.__eq__:
            return a is b
        raise Unsupported(f"equality of {ta.__name__} and {tb.__name__}")
    return natively(_op.eq, (a, b), {})


def _builtin_eq(t):
    m = lookup(t, "__eq__")
    return m in (list.__eq__, tuple.__eq__)


def user_eq(m, a, b):
    if in_roots(m.__code__.co_filename):
        return call(m, (a, b))
    cls = owner(type(a), "__eq__")
    if dataclasses.is_dataclass(cls):
        if type_of(b) is not type(a):
            return NotImplemented
        fs = [f.name for f in dataclasses.fields(cls) if f.compare]
        return equals(tuple(getattr_(a, n) for n in fs), tuple(getattr_(b, n) for n in fs))
    return natively(m, (a, b), {}) if not (deep_sym(a) or deep_sym(b)) else _unsup("generated __eq__")


def _unsup(s):
    raise Unsupported(s)


_CMP = {ast.Lt: ("lt", "gt", _op.lt, tm.lt), ast.LtE: ("le", "ge", _op.le, tm.le),
        ast.Gt: ("gt", "lt", _op.gt, tm.gt), ast.GtE: ("ge", "le", _op.ge, tm.ge)}


def compare(op, a, b):
    if op is ast.Eq:
        return equals(a, b)
    if op is ast.NotEq:
        if not is_sym(a):
            m = lookup(type(a), "__ne__")
            if in_user(m):
                return call(m, (a, b))
        r = equals(a, b)
        if type(r) is T and r.sort == "B":
            return tm.not_(r)
        return not truth(r)
    if op is ast.Is or op is ast.IsNot:
        if type(a) is T or type(b) is T:
            o, s = (a, b) if type(b) is T else (b, a)
            if type(o) is T or isinstance(o, (int, bool)):
                if isinstance(o, bool) or type(o) is T and o.sort == "B":
                    r = tm.iff(o, s) if (s.sort == "B") else False
                else:
                    raise Unsupported("identity of symbolic integers")
            else:
                r = False
        else:
            r = a is b
        return r if op is ast.Is else (tm.not_(r) if type(r) is T else not r)
    if op is ast.In or op is ast.NotIn:
        r = contains(b, a)
        return r if op is ast.In else (tm.not_(r) if type(r) is T else not r)
    n, rn, po, to = _CMP[op]
    if is_sym(a) or is_sym(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym):
                r = a.dv_cmp(n, b)
            else:
                r = b.dv_cmp(rn, a)
            if r is NotImplemented:
                raise Raised(TypeError(f"'{n}' not supported"))
            return r
        if _intlike(a) and _intlike(b):
            return to(as_int(a), as_int(b))
        ka, kb = type_of(a), type_of(b)
        if issubclass(ka, (bytes, bytearray)) and issubclass(kb, (bytes, bytearray)):
            return bytes_cmp(n, a, b)
        if ka is str and kb is str:
            return seq_cmp(n, [vl.code(c) for c in vl.chars_of(a)], [vl.code(c) for c in vl.chars_of(b)])
        if isinstance(a, float) and type(b) is T or isinstance(b, float) and type(a) is T:
            return float_cmp(op, a, b)
    for x, y, m in ((a, b, f"__{n}__"), (b, a, f"__{rn}__")):
        if is_sym(x):
            continue
        f = lookup(type(x), m)
        if isinstance(f, types.FunctionType):
            if in_roots(f.__code__.co_filename):
                r = call(f, (x, y))
                if r is not NotImplemented:
                    return r
            else:
                cls = owner(type(x), m)
                tot = functools._convert if hasattr(functools, "_convert") else {}
                if f.__name__ in ("_gt_from_lt",) or f.__module__ == "functools":
                    r = call_total(f, x, y)
                    if r is not NotImplemented:
                        return r
                elif dataclasses.is_dataclass(cls):
                    if type(x) is type(y):
                        fs = [q.name for q in dataclasses.fields(cls) if q.compare]
                        return compare(op if x is a else _SWAP[op], tuple(getattr_(x, q) for q in fs), tuple(getattr_(y, q) for q in fs))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (deep_sym(a) or deep_sym(b)):
        for x, y in zip(a, b):
            e = equals(x, y)
            if not truth(e):
                return compare(op, x, y)
        return po(len(a), len(b))
    if is_sym(a) or is_sym(b):
        raise Raised(TypeError(f"'{n}' not supported between instances of '{type_of(a).__name__}' and '{type_of(b).__name__}'"))
    fa, fb = lookup(type(a), f"__{n}__"), lookup(type(b), f"__{rn}__")
    if in_user(fa) or in_user(fb):
        raise Raised(TypeError(f"'{n}' not supported"))
    return native(po, (a, b), {})


_SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def call_total(f, x, y):
    """functools.total_ordering helper: interpreted through its definition"""
    name = f.__name__
    t = {"_gt_from_lt": ("__lt__", True, "ne", "and"), "_le_from_lt": ("__lt__", False, "eq", "or"), "_ge_from_lt": ("__lt__", True, None, None)}
    if name == "_gt_from_lt":
        r = call(lookup(type(x), "__lt__"), (x, y))
        return r if r is NotImplemented else (not truth(r)) and not truth(equals(x, y))
    if name == "_le_from_lt":
        r = call(lookup(type(x), "__lt__"), (x, y))
        return r if r is NotImplemented else truth(r) or truth(equals(x, y))
    if name == "_ge_from_lt":
        r = call(lookup(type(x), "__lt__"), (x, y))
        return r if r is NotImplemented else not truth(r)
    if name == "_ge_from_gt":
        r = call(lookup(type(x), "__gt__"), (x, y))
        return r if r is NotImplemented else truth(r) or truth(equals(x, y))
    if name == "_lt_from_gt":
        r = call(lookup(type(x), "__gt__"), (x, y))
        return r if r is NotImplemented else (not truth(r)) and not truth(equals(x, y))
    if name == "_le_from_gt":
        r = call(lookup(type(x), "__gt__"), (x, y))
        return r if r is NotImplemented else not truth(r)
    if name == "_lt_from_le":
        r = call(lookup(type(x), "__le__"), (x, y))
        return r if r is NotImplemented else truth(r) and not truth(equals(x, y))
    if name == "_ge_from_le":
        r = call(lookup(type(x), "__le__"), (x, y))
        return r if r is NotImplemented else (not truth(r)) or truth(equals(x, y))
    if name == "_gt_from_le":
        r = call(lookup(type(x), "__le__"), (x, y))
        return r if r is NotImplemented else not truth(r)
    if name == "_gt_from_ge":
        r = call(lookup(type(x), "__ge__"), (x, y))
        return r if r is NotImplemented else truth(r) and not truth(equals(x, y))
    if name == "_le_from_ge":
        r = call(lookup(type(x), "__ge__"), (x, y))
        return r if r is NotImplemented else (not truth(r)) or truth(equals(x, y))
    if name == "_lt_from_ge":
        r = call(lookup(type(x), "__ge__"), (x, y))
        return r if r is NotImplemented else not truth(r)
    raise Unsupported(name)


def float_cmp(op, a, b):
    import math
    if isinstance(a, float):
        return float_cmp(_SWAP[op], b, a)
    if b != b:
        return False
    if math.isinf(b):
        return (b > 0) == (op in (ast.Lt, ast.LtE))
    if op is ast.Lt:
        return tm.lt(a, math.ceil(b))
    if op is ast.LtE:
        return tm.le(a, math.floor(b))
    if op is ast.Gt:
        return tm.gt(a, math.floor(b))
    return tm.ge(a, math.ceil(b))


def seq_cmp(n, x, y):
    """lexicographic comparison of integer lists"""
    conj = []
    res = {"lt": len(x) < len(y), "le": len(x) <= len(y), "gt": len(x) > len(y), "ge": len(x) >= len(y)}[n]
    for a, b in reversed(list(zip(x, y))):
        s = tm.lt(a, b) if n in ("lt", "le") else tm.gt(a, b)
        res = tm.or_(s, tm.and_(tm.eq(a, b), res))
    return res


def bytes_cmp(n, a, b):
    return seq_cmp(n, vl.items(a), vl.items(b))


def contains(c, x):
    if isinstance(c, Sym) or hasattr(type(c), "dv_contains"):
        return c.dv_contains(x)
    if isinstance(c, (SymBytes, SymBA)) or (is_sym(x) and isinstance(c, (bytes, bytearray))):
        if _intlike(x):
            p = current()
            its = vl.items(c)
            if type(x) is not T and not 0 <= x < 256:
                raise Raised(ValueError("byte must be in range(0, 256)"))
            if type(x) is T and not p.branch(tm.and_(tm.le(0, x), tm.lt(x, 256))):
                raise Raised(ValueError("byte must be in range(0, 256)"))
            return tm.or_(*[tm.eq(i, x) for i in its])
        hay, ned = vl.items(c), vl.items(x)
        return tm.or_(*[tm.and_(*[tm.eq(p, q) for p, q in zip(hay[i:], ned)]) for i in range(len(hay) - len(ned) + 1)])
    if isinstance(c, SymStr) or isinstance(x, SymStr) and isinstance(c, str):
        if isinstance(x, str) and x and not set(x) & set("-0123456789"):
            from .models import text_atoms
            hay = text_atoms(c, x)
            return tm.or_(*[tm.and_(*[tm.eq(vl.code(p), ord(q)) for p, q in zip(hay[i:], x)]) for i in range(len(hay) - len(x) + 1)
                            if not any(isinstance(p, tuple) and type(p) is not T for p in hay[i:i + len(x)])])
        hay, ned = [vl.code(q) for q in vl.chars_of(c)], [vl.code(q) for q in vl.chars_of(x)]
        return tm.or_(*[tm.and_(*[tm.eq(p, q) for p, q in zip(hay[i:], ned)]) for i in range(len(hay) - len(ned) + 1)])
    if isinstance(c, range):
        if type(x) is T:
            if c.step == 1:
                return tm.and_(tm.le(c.start, x), tm.lt(x, c.stop))
            return tm.or_(*[tm.eq(x, v) for v in c])
    if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ("dict_keys", "mappingproxy"):
        if not deep_sym(x):
            if not _user_hash(x):
                if not any(is_sym(k) for k in c):
                    return natively(operator.contains, (c, x), {})
        out = []
        for k in c:
            r = equals(x, k)
            out.append(r if type(r) is T else truth(r))
        return tm.or_(*out)
    if isinstance(c, (list, tuple)) or type(c).__name__ in ("dict_values", "deque"):
        out = []
        for k in c:
            if k is x:
                r = True
            else:
                r = equals(k, x)
            if r is True:
                return tm.or_(*out, True)
            out.append(r if type(r) is T else truth(r))
        return tm.or_(*out)
    if isinstance(c, types.GeneratorType) or not isinstance(c, (str, bytes, bytearray, type)):
        m = lookup(type(c), "__contains__")
        if isinstance(m, types.FunctionType):
            return truth(call(m, (c, x)))
        if m is None or isinstance(c, types.GeneratorType):
            for k in iterate(c):
                if k is x or truth(equals(k, x)):
                    return True
            return False
    if isinstance(c, enum.EnumMeta) and is_sym(x):
        return tm.or_(*[tm.eq(x, m.value) for m in c])
    return native(operator.contains, (c, x), {})


def _user_hash(x):
    h = lookup(type(x), "__hash__")
    return isinstance(h, types.FunctionType) and in_roots(h.__code__.co_filename)


def dict_get(d, key, default=_MISSING):
    """d[key] with Python's equality semantics; forks over the keys when needed"""
    if not deep_sym(key):
        if not any(is_sym(k) for k in d):
            try:
                if key in d:
                    return d[key]
            except TypeError as e:
                raise Raised(e)
            if default is _MISSING:
                m = lookup(type(d), "__missing__")
                if m is not None:
                    return natively(d.__getitem__, (key,), {})
                raise Raised(KeyError(key))
            return default
    if isinstance(key, SymBA):
        raise Raised(TypeError("unhashable type: 'bytearray'"))
    for k, v in d.items():
        if truth(equals(key, k)):
            return v
    if default is _MISSING:
        raise Raised(KeyError(key))
    return default


def getitem(o, i):
    if isinstance(o, (SymBytes,)) or (isinstance(o, (bytes, bytearray)) and is_symix(i)):
        return bytes_item(o, i)
    if isinstance(o, SymBA):
        r = bytes_item(o.b, i)
        return SymBA(r) if isinstance(i, slice) else r
    if isinstance(o, SymMV):
        return mv_item(o, i)
    if isinstance(o, SymStr):
        if any(type(q) is tuple and q[0] == "enc" for q in o.parts):
            from . import seqs
            b = seqs.ascii_octets(o)
            if b is not None:
                r = bytes_item(b, i)
                return seqs.ascii_text(r if isinstance(i, slice) else vl.from_items([r]))
        ch = o.chars()
        if isinstance(i, slice):
            i = slice(*[None if q is None else current().concretize(q) for q in (i.start, i.stop, i.step)])
            return vl.mkstr(ch[i])
        i = current().concretize(i)
        try:
            return vl.mkstr([ch[i]])
        except IndexError as e:
            raise Raised(IndexError("string index out of range"))
    if isinstance(o, Sym):
        return o.dv_getitem(i)
    if isinstance(o, dict):
        if type(o) is not dict and in_user(lookup(type(o), "__getitem__")):
            return call(getattr_(o, "__getitem__"), (i,))
        return dict_get(o, i)
    if isinstance(o, type):
        if isinstance(o, enum.EnumMeta):
            return native(operator.getitem, (o, i), {})
        cg = lookup(o, "__class_getitem__")
        return natively(operator.getitem, (o, i), {})
    if isinstance(o, (list, tuple, str, bytes, bytearray, range, deque)) and not in_user(lookup(type(o), "__getitem__")):
        if isinstance(i, slice):
            i = slice(*[None if q is None else current().concretize(as_int(q)) for q in (i.start, i.stop, i.step)])
        elif type(i) is T:
            i = as_int(i)
            p = current()
            n = len(o)
            if isinstance(o, (list, tuple)) and all(isinstance(x, int) and not isinstance(x, bool) or type(x) is T for x in o):
                if p.branch(tm.lt(i, 0)):
                    i = tm.add(i, n)
                    if p.branch(tm.lt(i, 0)):
                        raise Raised(IndexError("index out of range"))
                if p.branch(tm.ge(i, n)):
                    raise Raised(IndexError("index out of range"))
                return tm.lut(tuple(o), i)
            if p.branch(tm.or_(tm.lt(i, -n), tm.ge(i, n))):
                raise Raised(IndexError("index out of range"))
            i = p.concretize(i)
        elif not isinstance(i, int):
            m = lookup(type_of(i), "__index__")
            if in_user(m):
                return getitem(o, call(m, (i,)))
            if is_sym(i):
                raise Raised(TypeError("indices must be integers or slices"))
        return natively(operator.getitem, (o, i), {})
    m = lookup(type(o), "__getitem__")
    if isinstance(m, types.FunctionType):
        return call(m, (o, i))
    if m is None:
        raise Raised(TypeError(f"'{type(o).__name__}' object is not subscriptable"))
    return native(operator.getitem, (o, i), {})


def is_symix(i):
    if isinstance(i, slice):
        return any(is_sym(q) for q in (i.start, i.stop, i.step))
    return is_sym(i)


def bytes_item(o, i):
    if isinstance(i, slice):
        return vl.get_slice(o, as_int(i.start), as_int(i.stop), i.step)
    if type(i) is T or isinstance(i, int):
        return vl.get_index(o, as_int(i))
    raise Raised(TypeError("byte indices must be integers or slices"))


def mv_item(o, i):
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported("memoryview step")
        a, b = vl.slice_bounds(o.n, as_int(i.start), as_int(i.stop))
        return SymMV(o.base, tm.add(o.off, a), tm.sub(b, a), o.ro)
    return vl.get_index(o.get(), as_int(i))


def octet_value(v):
    """argument of an item assignment"""
    p = current()
    v = as_int(v)
    if not _intlike(v):
        raise Raised(TypeError("an integer is required"))
    if not p.branch(tm.and_(tm.le(0, v), tm.le(v, 255))):
        raise Raised(ValueError("byte must be in range(0, 256)"))
    return v


def setitem(o, i, v):
    p = current()
    if isinstance(o, bytearray) and type(o) is bytearray and (is_symix(i) or is_sym(v)):
        raise Unsupported("symbolic store into a native bytearray")
    if isinstance(o, SymBA):
        if isinstance(i, slice):
            n = vl.length(o)
            a, b = vl.slice_bounds(n, as_int(i.start), as_int(i.stop))
            src = to_octets(v)
            l, _ = vl.cut(o.b, a)
            _, r = vl.cut(o.b, b)
            o.b = vl.concat(l, src, r)
            return
        i = as_int(i)
        n = vl.length(o)
        if p.branch(tm.lt(i, 0)):
            i = tm.add(i, n)
            if p.branch(tm.lt(i, 0)):
                raise Raised(IndexError("bytearray index out of range"))
        if p.branch(tm.ge(i, n)):
            raise Raised(IndexError("bytearray index out of range"))
        v = octet_value(v)
        l, rest = vl.cut(o.b, i)
        _, r = vl.cut(rest, 1)
        o.b = vl.concat(l, vl.from_items([v]), r)
        return
    if isinstance(o, SymMV):
        if o.ro:
            raise Raised(TypeError("cannot modify read-only memory"))
        if isinstance(i, slice):
            a, b = vl.slice_bounds(o.n, as_int(i.start), as_int(i.stop))
            src = to_octets(v)
            if not p.branch(tm.eq(vl.length(src), tm.sub(b, a))):
                raise Raised(ValueError("memoryview assignment: lvalue and rvalue have different structures"))
            if isinstance(src, SymMV):
                src = src.get()
            st = tm.add(o.off, a)
            setitem(o.base, slice(st, tm.add(o.off, b)), src)
            return
        i = as_int(i)
        if p.branch(tm.lt(i, 0)):
            i = tm.add(i, o.n)
            if p.branch(tm.lt(i, 0)):
                raise Raised(IndexError("index out of bounds on dimension 1"))
        if p.branch(tm.ge(i, o.n)):
            raise Raised(IndexError("index out of bounds on dimension 1"))
        v = as_int(v)
        if not _intlike(v):
            raise Raised(TypeError("memoryview: invalid type for format 'B'"))
        if not p.branch(tm.and_(tm.le(0, v), tm.le(v, 255))):
            raise Raised(ValueError("memoryview: invalid value for format 'B'"))
        setitem(o.base, tm.add(o.off, i), v)
        return
    if isinstance(o, Sym):
        return o.dv_setitem(i, v)
    if isinstance(o, list) and not in_user(lookup(type(o), "__setitem__")):
        thawed(o)
        if type(i) is T:
            if not current().branch(tm.and_(tm.le(-len(o), i), tm.lt(i, len(o)))):
                raise Raised(IndexError("list assignment index out of range"))
            i = current().concretize(i)
        if isinstance(i, slice):
            i = slice(*[None if q is None else p.concretize(q) for q in (i.start, i.stop, i.step)])
            v = list(iterate(v))
        return natively(operator.setitem, (o, i, v), {})
    if isinstance(o, dict) and not in_user(lookup(type(o), "__setitem__")):
        if deep_sym(i):
            raise Unsupported("dictionary store with a symbolic key")
        thawed(o)
        return natively(operator.setitem, (o, i, v), {})
    m = lookup(type(o), "__setitem__")
    if isinstance(m, types.FunctionType):
        return call(m, (o, i, v))
    if m is None:
        raise Raised(TypeError(f"'{type_of(o).__name__}' object does not support item assignment"))
    return native(operator.setitem, (o, i, v), {})


def to_octets(v):
    """octets of a bytes-like or iterable of ints"""
    if isinstance(v, SymMV):
        return v.get()
    if isinstance(v, SymBA):
        return v.b
    if isinstance(v, (SymBytes, bytes, bytearray, memoryview)):
        return v
    return vl.from_items([octet_value(x) for x in iterate(v)])


def delitem(o, i):
    if isinstance(o, Sym):
        return o.dv_delitem(i)
    thawed(o)
    if isinstance(o, SymBA):
        if not isinstance(i, slice):
            i = slice(i, tm.add(i, 1))
        a, b = vl.slice_bounds(vl.length(o), i.start, i.stop)
        l, _ = vl.cut(o.b, a)
        _, r = vl.cut(o.b, b)
        o.b = vl.concat(l, r)
        return
    m = lookup(type(o), "__delitem__")
    if isinstance(m, types.FunctionType):
        return call(m, (o, i))
    if is_symix(i):
        i = current().concretize(i)
    natively(operator.delitem, (o, i), {})


# ------------------------------------------------------------------ iteration

def iterate(v):
    """host iterator over an interpreted iterable"""
    if isinstance(v, (SymBytes, SymBA)):
        return iter(vl.items(v))
    if isinstance(v, SymMV):
        return iter(vl.items(v.get()))
    if isinstance(v, SymStr):
        return iter([vl.mkstr([c]) for c in v.chars()])
    if isinstance(v, Sym):
        return v.dv_iter()
    if type(v) is T:
        raise Raised(TypeError("'int' object is not iterable"))
    m = lookup(type(v), "__iter__")
    if isinstance(m, types.FunctionType) and in_roots(m.__code__.co_filename):
        return iterate(call(m, (v,)))
    if m is None and not isinstance(v, type):
        g = lookup(type(v), "__getitem__")
        if isinstance(g, types.FunctionType):
            def seq():
                i = 0
                while True:
                    try:
                        x = call(g, (v, i))
                    except Raised as r:
                        if isinstance(r.exc, IndexError):
                            return
                        raise
                    yield x
                    i += 1
            return seq()
        nx = lookup(type(v), "__next__")
        raise Raised(TypeError(f"'{type(v).__name__}' object is not iterable"))
    nx = lookup(type(v), "__next__")
    if isinstance(nx, types.FunctionType) and in_roots(nx.__code__.co_filename):
        def it():
            while True:
                try:
                    x = call(nx, (v,))
                except Raised as r:
                    if isinstance(r.exc, StopIteration):
                        return
                    raise
                yield x
        return it()
    try:
        return iter(v)
    except TypeError as e:
        raise Raised(e)


# ------------------------------------------------------------------ isinstance

def isinstance_(x, c):
    if isinstance(c, tuple):
        return any(isinstance_(x, q) for q in c)
    if isinstance(c, types.UnionType):
        return any(isinstance_(x, q) for q in c.__args__)
    if is_sym(x):
        k = kind(x)
        if c is object:
            return True
        try:
            return issubclass(k, c)
        except TypeError as e:
            raise Raised(e)
    return natively(isinstance, (x, c), {})


# ------------------------------------------------------------------ expressions

def lookup_name(name, fr):
    name = mangle(name, fr.cls)
    f = fr
    if name not in fr.globs:
        while f is not None:
            if name in f.locals and (f is fr or not f.isclass):
                v = f.locals[name]
                if type(v).__name__ == "Poison":
                    raise Unsupported(f"the value {name} has after a loop of unknown length")
                return v
            if name in f.cells:
                try:
                    return f.cells[name].cell_contents
                except ValueError:
                    raise Raised(NameError(f"free variable '{name}' referenced before assignment"))
            f = f.parent
    g = fr.globals
    if name in g:
        return g[name]
    b = g.get("__builtins__", builtins)
    b = b if isinstance(b, dict) else vars(b)
    if name in b:
        return b[name]
    raise Raised(NameError(f"name '{name}' is not defined"))


def store_name(name, v, fr):
    name = mangle(name, fr.cls)
    if name in fr.globs:
        raise Unsupported("assignment to a global")
    if name in fr.nonlocals:
        f = fr.parent
        while f is not None:
            if name in f.locals:
                f.locals[name] = v
                return
            if name in f.cells:
                f.cells[name].cell_contents = v
                return
            f = f.parent
        if name in fr.cells:
            fr.cells[name].cell_contents = v
            return
        raise Unsupported("nonlocal target")
    fr.locals[name] = v


def ev(n, fr):
    return _EV[type(n)](n, fr)


def e_const(n, fr):
    return n.value


def e_name(n, fr):
    return lookup_name(n.id, fr)


def e_attr(n, fr):
    return getattr_(ev(n.value, fr), mangle(n.attr, fr.cls))


LOGGING = set()     # functions that write log messages


def e_call(n, fr):
    # zero-argument super()
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and lookup_name("super", fr) is super:
        f = fr
        while f is not None and "__class__" not in f.cells and "__class__" not in f.locals:
            f = f.parent
        if f is None:
            raise Unsupported("super() without __class__")
        cls = f.cells["__class__"].cell_contents if "__class__" in f.cells else f.locals["__class__"]
        return SuperProxy(cls, fr.selfarg if fr.selfarg is not None else f.selfarg)
    fn = ev(n.func, fr)
    if (fn is bytes or fn is bytearray) and len(n.args) == 1 and not n.keywords and _starred_display(n.args[0]):
        return _octet_display(fn, n.args[0], fr)
    args = []
    log = getattr(fn, "__func__", fn) in LOGGING if isinstance(fn, (types.FunctionType, types.MethodType)) else False
    for a in n.args:
        if log and isinstance(a, ast.JoinedStr):     # the text of a log message is not put together
            for v in a.values:
                if isinstance(v, ast.FormattedValue):
                    ev(v.value, fr)
            args.append("")
        elif isinstance(a, ast.Starred):
            args.extend(iterate(ev(a.value, fr)))
        else:
            args.append(ev(a, fr))
    kw = {}
    for k in n.keywords:
        if k.arg is None:
            kw.update(ev(k.value, fr))
        else:
            kw[k.arg] = ev(k.value, fr)
    if fn is super:
        return SuperProxy(args[0], args[1])
    if fn is builtins.locals or fn is builtins.vars and not args:
        return dict(fr.locals)
    return call(fn, args, kw)


def _starred_display(a):
    return isinstance(a, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Starred) for e in a.elts)


def _octet_display(fn, a, fr):
    """bytes((x, *octets)): the octets stay in one piece"""
    out = [b""]
    for e in a.elts:
        if not isinstance(e, ast.Starred):
            out.append(call(bytes, ((ev(e, fr),),)))
            continue
        v = ev(e.value, fr)
        out.append(v if isinstance(v, (bytes, bytearray, SymBytes, SymBA)) else call(bytes, (v,)) if is_sym(v) else call(bytes, (tuple(iterate(v)),)))
    r = vl.concat(*out)
    return call(bytearray, (r,)) if fn is bytearray else r


def e_binop(n, fr):
    return binop(type(n.op), ev(n.left, fr), ev(n.right, fr))


def e_unop(n, fr):
    return unop(type(n.op), ev(n.operand, fr))


def e_boolop(n, fr):
    is_and = isinstance(n.op, ast.And)
    v = None
    for i, x in enumerate(n.values):
        v = ev(x, fr)
        if i == len(n.values) - 1:
            return v
        t = truth(v)
        if is_and and not t:
            return v if not (type(v) is T and v.sort == "B") else False
        if not is_and and t:
            return v if not (type(v) is T and v.sort == "B") else True
    return v


def _found(n, fr):
    """`d.get(k) is None` for a dictionary without None: whether k is a key (no case split over the values)"""
    c = n.left
    if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Is, ast.IsNot)) or not isinstance(n.comparators[0], ast.Constant) or n.comparators[0].value is not None:
        return None
    if not isinstance(c, ast.Call) or not isinstance(c.func, ast.Attribute) or c.func.attr != "get" or len(c.args) != 1 or c.keywords or isinstance(c.args[0], ast.Starred):
        return None
    d = ev(c.func.value, fr)
    if type(d) is not dict:
        return call(getattr_(d, "get"), (ev(c.args[0], fr),)),
    k = ev(c.args[0], fr)
    if not deep_sym(k) or any(v is None or deep_sym(v) for v in d.values()):
        return dict_get(d, k, None),
    t = contains(d, k)
    return (tm.not_(truth_term(t)) if isinstance(n.ops[0], ast.Is) else t), True


def e_compare(n, fr):
    f = _found(n, fr)
    if f is not None:
        return f[0] if len(f) == 2 else compare(type(n.ops[0]), f[0], None)
    left = ev(n.left, fr)
    res = True
    for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
        right = ev(r, fr)
        res = compare(type(op), left, right)
        if i < len(n.ops) - 1:
            if not truth(res):
                return False if type(res) is T else res
        left = right
    return res


def e_ifexp(n, fr):
    return ev(n.body, fr) if truth(ev(n.test, fr)) else ev(n.orelse, fr)


def e_subscript(n, fr):
    o = ev(n.value, fr)
    i = ev(n.slice, fr)
    return getitem(o, i)


def e_slice(n, fr):
    return slice(ev(n.lower, fr) if n.lower else None, ev(n.upper, fr) if n.upper else None, ev(n.step, fr) if n.step else None)


def _elts(n, fr):
    out = []
    for e in n.elts:
        if isinstance(e, ast.Starred):
            out.extend(iterate(ev(e.value, fr)))
        else:
            out.append(ev(e, fr))
    return out


def e_tuple(n, fr):
    return tuple(_elts(n, fr))


def e_list(n, fr):
    return _elts(n, fr)


def e_set(n, fr):
    vs = _elts(n, fr)
    if any(deep_sym(v) for v in vs):
        return SymSet(vs)
    return natively(set, (vs,), {})


class SymSet(Sym):
    dv_type = set

    def __init__(self, vs):
        self.vs = list(vs)

    def dv_contains(self, x):
        return contains(self.vs, x)

    def dv_iter(self):
        raise Unsupported("iteration over a symbolic set")

    def dv_getattr(self, n):
        raise Unsupported(f"set.{n} on symbolic elements")


def e_dict(n, fr):
    d = {}
    for k, v in zip(n.keys, n.values):
        if k is None:
            d.update(ev(v, fr))
        else:
            kk = ev(k, fr)
            if deep_sym(kk):
                raise Unsupported("symbolic dictionary key")
            d[kk] = ev(v, fr)
    return d


def e_lambda(n, fr):
    n._gen = False
    if not hasattr(n, "_cls"):
        n._cls = fr.cls
    return IFunc(n, fr, tuple(ev(d, fr) for d in n.args.defaults),
                 {a.arg: ev(d, fr) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, "<lambda>")


def comp_frames(gens, fr, i=0, first=_MISSING):
    g = gens[i]
    it = iterate(ev(g.iter, fr)) if first is _MISSING else first
    for v in it:
        assign(g.target, v, fr)
        if all(truth(ev(c, fr)) for c in g.ifs):
            if i + 1 < len(gens):
                yield from comp_frames(gens, fr, i + 1)
            else:
                yield


def sub_frame(fr):
    f = Frame(fr.globals, fr, fr.cls)
    f.selfarg = fr.selfarg
    # assignment expressions bind in the enclosing function: see e_named
    return f


def comp_source(n, fr, f):
    """the comprehension over a source of unknown length: number of iterations and items of one; else the iterable"""
    v = ev(n.generators[0].iter, fr)
    if is_sym(v):
        from . import seqs
        s = seqs.source(v)
        if s is not None:
            cnt, run = s

            def items(j):
                return [ev(n.elt, f) for x in run(j) for _ in comp_frames(n.generators, f, 0, [x])]
            return (cnt, items), None
    return None, v


def e_listcomp(n, fr):
    f = sub_frame(fr)
    s, v = comp_source(n, fr, f)
    if s is not None:
        from . import seqs
        FRAMES.append(f)
        try:
            return seqs.SymList(seqs.collect(*s))
        finally:
            FRAMES.pop()
    if isinstance(v, types.GeneratorType):
        f.locals[".items"] = []

        def consume(x):
            for _ in comp_frames(n.generators, f, 0, [x]):
                y = ev(n.elt, f)
                call(getattr_(f.locals[".items"], "append"), (y,))
        FRAMES.append(f)
        try:
            if push_run(v, consume):
                return f.locals.pop(".items")
        finally:
            FRAMES.pop()
    first = iterate(v)
    return [ev(n.elt, f) for _ in comp_frames(n.generators, f, 0, first)]


def e_setcomp(n, fr):
    vs = e_listcomp(n, fr)
    return SymSet(vs) if any(deep_sym(v) for v in vs) else set(vs)


def e_dictcomp(n, fr):
    f = sub_frame(fr)
    first = iterate(ev(n.generators[0].iter, fr))
    d = {}
    for _ in comp_frames(n.generators, f, 0, first):
        k = ev(n.key, f)
        if deep_sym(k):
            raise Unsupported("symbolic dictionary key")
        d[k] = ev(n.value, f)
    return d


def e_genexp(n, fr):
    f = sub_frame(fr)
    s, v = comp_source(n, fr, f)
    if s is not None:
        from . import seqs

        def run(j):
            FRAMES.append(f)
            try:
                return s[1](j)
            finally:
                FRAMES.pop()
        return seqs.SymGen(s[0], run)
    first = iterate(v)

    def g():
        for _ in comp_frames(n.generators, f, 0, first):
            yield ev(n.elt, f)
    r = g()
    if isinstance(v, types.GeneratorType) and first is v:
        def runner(consume):
            def each(x):
                for _ in comp_frames(n.generators, f, 0, [x]):
                    consume(ev(n.elt, f))
            FRAMES.append(f)
            try:
                return push_run(v, each)
            finally:
                FRAMES.pop()
        GENS[r] = runner
    return r


def e_joined(n, fr):
    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append(v.value)
        else:
            parts.append(e_formatted(v, fr))
    return vl.simps(SymStr(parts))


def e_formatted(n, fr):
    v = ev(n.value, fr)
    spec = ev(n.format_spec, fr) if n.format_spec is not None else ""
    if n.conversion == ord("r"):
        return repr_of(v)
    if n.conversion == ord("s"):
        v = str_of(v)
    return format_of(v, spec)


def format_of(v, spec):
    if is_sym(spec):
        raise Unsupported("symbolic format specification")
    if spec == "":
        if is_sym(v) or deep_sym(v):
            return str_of(v)
        m = lookup(type(v), "__format__")
        if in_user(m):
            return call(m, (v, ""))
        return str_of(v)
    if type(v) is T:
        import re
        m = re.fullmatch(r"0?(\d*)([xXdb]?)", spec)
        if m and spec:
            width = int(m.group(1) or 0)
            base = m.group(2) or "d"
            if base == "d" and width == 0:
                return str_of(as_int(v))
            if base == "d" and spec.startswith("0"):
                return call(getattr_(str_of(as_int(v)), "zfill"), (width,))
            if base == "d" and not m.group(1):
                ch = vl.dec_chars(as_int(v))
                if ch and ch[0] == "-":
                    return vl.mkstr(["-"] + ["0"] * (width - len(ch)) + ch[1:])
                return vl.mkstr(["0"] * (width - len(ch)) + ch)
            if base in "xXb" and (spec.startswith("0") or not m.group(1)):
                p = current()
                if not p.branch(tm.ge(v, 0)):
                    raise Unsupported("negative hex")
                bs = 16 if base in "xX" else 2
                k = 1
                while not p.branch(tm.lt(v, bs ** k)):
                    k += 1
                    if k > 70:
                        raise Unsupported("format of an unbounded integer")
                tab = tuple(ord(c) for c in ("0123456789ABCDEF" if base == "X" else "0123456789abcdef"))
                ds = [tm.lut(tab, tm.mod(tm.div(v, bs ** (k - 1 - j)), bs)) for j in range(k)]
                return vl.mkstr(["0"] * (width - k) + ds)
        return SymStr([("opaque", f"format {spec}")])
    if deep_sym(v):
        return SymStr([("opaque", f"format {spec}")])
    return natively(format, (v, spec), {})


def str_of(v):
    if type(v) is T:
        if v.sort == "B":
            return "True" if truth(v) else "False"
        return SymStr([("dec", v)])
    if isinstance(v, SymStr):
        return v
    if isinstance(v, Sym):
        return v.dv_str()
    if isinstance(v, (SymBytes, SymBA, SymMV)):
        return SymStr([("opaque", "str of octets")])
    m = lookup(type(v), "__str__")
    if in_user(m):
        return call(m, (v,))
    if isinstance(m, types.FunctionType) and SUMMARIES.get(m):
        return call(m, (v,))
    if m is object.__str__ or m is BaseException.__str__ or m is None:
        r = lookup(type(v), "__repr__")
        if in_user(r) and not issubclass(type(v), BaseException):
            return call(r, (v,))
    if isinstance(v, (list, tuple, dict)) and deep_sym(v):
        return SymStr([("opaque", "str of container")])
    if deep_sym(v):
        return SymStr([("opaque", "str")])
    return natively(str, (v,), {})


def repr_of(v):
    if is_sym(v) or deep_sym(v):
        m = lookup(type(v), "__repr__") if not is_sym(v) else None
        if in_user(m):
            return call(m, (v,))
        return SymStr([("opaque", "repr")])
    m = lookup(type(v), "__repr__")
    if in_user(m):
        return call(m, (v,))
    return natively(repr, (v,), {})


def e_named(n, fr):
    v = ev(n.value, fr)
    f = fr
    while f.fn is None and f.parent is not None and f.node is None:
        f = f.parent
    store_name(n.target.id, v, f)
    return v


def e_starred(n, fr):
    raise Unsupported("starred expression")


def e_yield(n, fr):
    f = fr
    while f is not None and getattr(f, "consumer", None) is None:
        f = f.parent
    if f is not fr or isinstance(n, ast.YieldFrom):
        raise Unsupported("yield inside an expression")
    fr.consumer(ev(n.value, fr) if n.value is not None else None)


def eager(v):
    """the items of a generator as a list, for callees that take all items before anything else"""
    if not isinstance(v, types.GeneratorType):
        return v
    f = Frame({})
    f.locals[".items"] = []
    FRAMES.append(f)
    try:
        if not push_run(v, lambda x: call(getattr_(f.locals[".items"], "append"), (x,))):
            return v
    finally:
        FRAMES.pop()
    return f.locals[".items"]


def _own_nodes(body, stop=(ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
    todo = list(body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, stop):
            todo.extend(ast.iter_child_nodes(x))


@functools.lru_cache(maxsize=None)
def pushes(node):
    """whether a generator function can hand each item to its consumer as it reaches the yield: every yield is a statement of its own,
    under nothing but loops and conditions, and some yield is in a loop"""
    loops_ = [False]

    def ok(body, inloop):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) or not contains_yield(s):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
                if s.value.value is not None and contains_yield(s.value.value):
                    return False
                loops_[0] = loops_[0] or inloop
            elif isinstance(s, ast.If) and not contains_yield(s.test):
                if not (ok(s.body, inloop) and ok(s.orelse, inloop)):
                    return False
            elif isinstance(s, ast.For) and not contains_yield(s.iter):
                if not (ok(s.body, True) and ok(s.orelse, inloop)):
                    return False
            elif isinstance(s, ast.While) and not contains_yield(s.test):
                if not (ok(s.body, True) and ok(s.orelse, inloop)):
                    return False
            else:
                return False
        return True
    return ok(node.body, False) and loops_[0]


@functools.lru_cache(maxsize=None)
def stays(s):
    """whether the body of a for statement never leaves it but by an exception"""
    if any(isinstance(x, ast.Return) or isinstance(x, (ast.For, ast.While)) and x.orelse for x in _own_nodes(s.body)):
        return False
    return not any(isinstance(x, ast.Break) for x in _own_nodes(s.body, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.For, ast.While)))


def push_run(g, consume):
    """run a generator that has not started, handing each item to consume as it is yielded; False if it is not such a generator"""
    try:
        r = GENS.get(g)
    except TypeError:
        return False
    if r is None or inspect.getgeneratorstate(g) != inspect.GEN_CREATED:
        return False
    if callable(r):
        return r(consume)
    if not pushes(r[0]):
        return False
    node, gf = r
    g.close()
    gf.consumer = consume
    FRAMES.append(gf)
    try:
        block(node.body, gf)
    except Return:
        pass
    finally:
        FRAMES.pop()
        gf.consumer = None
    return True


_EV = {ast.Constant: e_const, ast.Name: e_name, ast.Attribute: e_attr, ast.Call: e_call, ast.BinOp: e_binop, ast.UnaryOp: e_unop,
       ast.BoolOp: e_boolop, ast.Compare: e_compare, ast.IfExp: e_ifexp, ast.Subscript: e_subscript, ast.Slice: e_slice,
       ast.Tuple: e_tuple, ast.List: e_list, ast.Set: e_set, ast.Dict: e_dict, ast.Lambda: e_lambda, ast.ListComp: e_listcomp,
       ast.SetComp: e_setcomp, ast.DictComp: e_dictcomp, ast.GeneratorExp: e_genexp, ast.JoinedStr: e_joined,
       ast.FormattedValue: e_formatted, ast.NamedExpr: e_named, ast.Starred: e_starred, ast.Yield: e_yield, ast.YieldFrom: e_yield}


# ------------------------------------------------------------------ statements

def assign(t, v, fr):
    if isinstance(t, ast.Name):
        store_name(t.id, v, fr)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, fr), mangle(t.attr, fr.cls), v)
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, fr)
        setitem(o, ev(t.slice, fr), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        unpack_into(t.elts, v, fr)
    elif isinstance(t, ast.Starred):
        assign(t.value, v, fr)
    else:
        raise Unsupported("assignment target")


def unpack_into(elts, v, fr):
    star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
    if isinstance(v, (SymBytes, SymBA)) and star is None:
        n = vl.length(v)
        p = current()
        if not p.branch(tm.eq(n, len(elts))):
            raise Raised(ValueError(f"not enough/too many values to unpack (expected {len(elts)})"))
    if star is not None and is_sym(v) and not isinstance(v, (T, SymStr)):
        from . import models
        v = models.m_list(v)
        n = call(len, (v,))
        after = len(elts) - star - 1
        if type(n) is T:
            if current().branch(tm.lt(n, star + after)):
                raise Raised(ValueError("not enough values to unpack"))
            for i, e in enumerate(elts[:star]):
                assign(e, getitem(v, i), fr)
            assign(elts[star], getitem(v, slice(star, tm.sub(n, after))), fr)
            for i, e in enumerate(elts[star + 1:]):
                assign(e, getitem(v, tm.sub(n, after - i)), fr)
            return
    if isinstance(v, (list, tuple)):
        vs = list(v)
    else:
        vs = list(iterate(v))
    if star is None:
        if len(vs) != len(elts):
            raise Raised(ValueError(f"too many/not enough values to unpack (expected {len(elts)}, got {len(vs)})"))
        for e, x in zip(elts, vs):
            assign(e, x, fr)
    else:
        after = len(elts) - star - 1
        if len(vs) < star + after:
            raise Raised(ValueError("not enough values to unpack"))
        for e, x in zip(elts[:star], vs[:star]):
            assign(e, x, fr)
        assign(elts[star], vs[star:len(vs) - after], fr)
        for e, x in zip(elts[star + 1:], vs[len(vs) - after:]):
            assign(e, x, fr)


def block(body, fr):
    for s in body:
        LOC[0], LOC[1] = s, fr
        _ST[type(s)](s, fr)


def s_expr(s, fr):
    ev(s.value, fr)


def s_assign(s, fr):
    v = ev(s.value, fr)
    for t in s.targets:
        assign(t, v, fr)


def s_aug(s, fr):
    t = s.target
    if isinstance(t, ast.Name):
        cur = lookup_name(t.id, fr)
        store_name(t.id, binop(type(s.op), cur, ev(s.value, fr), True), fr)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr)
        nm = mangle(t.attr, fr.cls)
        setattr_(o, nm, binop(type(s.op), getattr_(o, nm), ev(s.value, fr), True))
    else:
        o = ev(t.value, fr)
        i = ev(t.slice, fr)
        setitem(o, i, binop(type(s.op), getitem(o, i), ev(s.value, fr), True))


def s_annassign(s, fr):
    if s.value is not None:
        assign(s.target, ev(s.value, fr), fr)


_PURE_OPS = (ast.Add, ast.Sub, ast.FloorDiv, ast.Mod, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift, ast.Mult)


def _pure(n, fr):
    """arithmetic over local integers"""
    if isinstance(n, ast.Constant):
        return type(n.value) in (int, bool)
    if isinstance(n, ast.Name):
        v = fr.locals.get(mangle(n.id, fr.cls), fr)
        return type(v) is int or (type(v) is T and v.sort == "I")
    if isinstance(n, ast.BinOp):
        return isinstance(n.op, _PURE_OPS) and _pure(n.left, fr) and _pure(n.right, fr)
    if isinstance(n, ast.UnaryOp):
        return isinstance(n.op, (ast.USub, ast.Invert)) and _pure(n.operand, fr)
    return False


def _mergeable(body, fr):
    """names assigned by a straight line of pure integer assignments, else None"""
    names = []
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = s.targets[0], s.value
        elif isinstance(s, ast.AugAssign) and isinstance(s.op, _PURE_OPS):
            t, v = s.target, s.value
        else:
            return None
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(fr.locals.get(mangle(t.value.id, fr.cls)), SymBA):
            if not _pure(t.slice, fr) or not _pure(v, fr):
                return None
            names.append(mangle(t.value.id, fr.cls))
            continue
        if not isinstance(t, ast.Name) or not _pure(t, fr) or not _pure(v, fr):
            return None
        n = mangle(t.id, fr.cls)
        if n in fr.globs or n in fr.nonlocals:
            return None
        names.append(n)
    return names


def _octets(b):
    """the octets one by one, None if their number is not known"""
    if isinstance(b, bytes):
        return tuple(b)
    out = []
    for s in b.segs:
        if s[0] != "c":
            return None
        out += s[1]
    return out


def s_if(s, fr):
    c = ev(s.test, fr)
    if fr.inloop:
        t = truth_term(c)
        if type(t) is T and current().quick(t) is None:
            a, b = _mergeable(s.body, fr), _mergeable(s.orelse, fr)
            if a is not None and b is not None:
                # both arms are straight-line integer arithmetic: join them instead of forking in every iteration
                names = dict.fromkeys(a + b)
                old = {n: fr.locals[n] for n in names}
                bufs = {n: v.b for n, v in old.items() if isinstance(v, SymBA)}

                def restore():
                    fr.locals.update(old)
                    for n, b in bufs.items():
                        old[n].b = b
                try:
                    block(s.body, fr)
                    x = {n: fr.locals[n].b if n in bufs else fr.locals[n] for n in names}
                    restore()
                    block(s.orelse, fr)
                    joined = {}
                    for n in names:
                        if n in bufs:
                            one, two = _octets(x[n]), _octets(fr.locals[n].b)
                            if one is None or two is None or len(one) != len(two):
                                raise Unsupported("joining octet buffers")
                            joined[n] = SymBytes([("c", tuple(a if a is b else tm.ite(t, a, b) for a, b in zip(one, two)))])
                        else:
                            joined[n] = tm.ite(t, x[n], fr.locals[n])
                    for n, v in joined.items():
                        if n in bufs:
                            old[n].b = v
                        else:
                            fr.locals[n] = v
                    return
                except (Raised, Unsupported):
                    restore()
        c = t
    block(s.body if truth(c) else s.orelse, fr)


def s_for(s, fr):
    from . import loops
    src = ev(s.iter, fr)
    h = loops.for_hook(s, src, fr)
    if h is not None:
        return h
    if is_sym(src):
        from . import seqs
        if seqs.for_loop(s, src, fr):
            return
    if isinstance(src, types.GeneratorType) and stays(s):
        def consume(v):
            assign(s.target, v, fr)
            fr.inloop += 1
            try:
                block(s.body, fr)
            except Continue:
                pass
            finally:
                fr.inloop -= 1
        if push_run(src, consume):
            return block(s.orelse, fr)
    for v in iterate(src):
        assign(s.target, v, fr)
        fr.inloop += 1
        try:
            block(s.body, fr)
        except Break:
            return
        except Continue:
            continue
        finally:
            fr.inloop -= 1
    block(s.orelse, fr)


def s_while(s, fr):
    from . import loops
    if loops.while_hook(s, fr):
        return
    n = 0
    while truth(ev(s.test, fr)):
        n += 1
        if n > 100000:
            raise Unsupported("loop bound")
        fr.inloop += 1
        try:
            block(s.body, fr)
        except Break:
            return
        except Continue:
            continue
        finally:
            fr.inloop -= 1
    block(s.orelse, fr)


def s_return(s, fr):
    raise Return(ev(s.value, fr) if s.value is not None else None)


def make_exc(e):
    if isinstance(e, type) and issubclass(e, BaseException):
        return instantiate(e, (), {})
    if not isinstance(e, BaseException):
        raise Raised(TypeError("exceptions must derive from BaseException"))
    return e


def s_raise(s, fr):
    if s.exc is None:
        f = fr
        while f is not None:
            if "__exc__" in f.locals:
                raise Raised(f.locals["__exc__"])
            f = f.parent
        raise Raised(RuntimeError("No active exception to reraise"))
    e = make_exc(ev(s.exc, fr))
    if s.cause is not None:
        ev(s.cause, fr)
    raise Raised(e)


def s_try(s, fr):
    try:
        try:
            block(s.body, fr)
        except Raised as r:
            for h in s.handlers:
                if h.type is None or isinstance(r.exc, _exc_types(ev(h.type, fr))):
                    if h.name:
                        fr.locals[h.name] = r.exc
                    old = fr.locals.get("__exc__")
                    fr.locals["__exc__"] = r.exc
                    try:
                        block(h.body, fr)
                    finally:
                        fr.locals.pop("__exc__", None)
                        if old is not None:
                            fr.locals["__exc__"] = old
                        if h.name:
                            fr.locals.pop(h.name, None)
                    break
            else:
                raise
        else:
            block(s.orelse, fr)
    except (Unsupported, Cut):
        raise
    except BaseException:
        if s.finalbody:
            block(s.finalbody, fr)
        raise
    else:
        if s.finalbody:
            block(s.finalbody, fr)


def _exc_types(t):
    return tuple(t) if isinstance(t, (tuple, list)) else t


def s_pass(s, fr):
    pass


def s_break(s, fr):
    raise Break()


def s_continue(s, fr):
    raise Continue()


def s_assert(s, fr):
    if not truth(ev(s.test, fr)):
        raise Raised(AssertionError(*([ev(s.msg, fr)] if s.msg is not None else [])))


def s_funcdef(s, fr):
    s._cls = fr.cls
    if not hasattr(s, "_gen"):
        s._gen = None
    f = IFunc(s, fr, tuple(ev(d, fr) for d in s.args.defaults),
              {a.arg: ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, s.name)
    for d in reversed(s.decorator_list):
        f = call(ev(d, fr), (f,))
    store_name(s.name, f, fr)


def s_classdef(s, fr):
    raise Unsupported("local class definition")


def s_import(s, fr):
    for a in s.names:
        m = natively(__import__, (a.name,), {})
        if a.asname:
            for part in a.name.split(".")[1:]:
                m = getattr(m, part)
            store_name(a.asname, m, fr)
        else:
            store_name(a.name.split(".")[0], m, fr)


def s_importfrom(s, fr):
    import importlib
    pk = fr.globals.get("__package__") or fr.globals.get("__name__", "").rpartition(".")[0]
    name = "." * s.level + (s.module or "")
    try:
        m = importlib.import_module(name, pk) if s.level else importlib.import_module(s.module)
    except ImportError as e:
        raise Raised(e)
    for a in s.names:
        store_name(a.asname or a.name, getattr_(m, a.name), fr)


def s_global(s, fr):
    fr.globs.update(s.names)


def s_nonlocal(s, fr):
    fr.nonlocals.update(mangle(n, fr.cls) for n in s.names)


def s_delete(s, fr):
    for t in s.targets:
        if isinstance(t, ast.Name):
            fr.locals.pop(mangle(t.id, fr.cls), None)
        elif isinstance(t, ast.Attribute):
            delattr_(ev(t.value, fr), mangle(t.attr, fr.cls))
        elif isinstance(t, ast.Subscript):
            delitem(ev(t.value, fr), ev(t.slice, fr))


def s_with(s, fr):
    if len(s.items) != 1:
        inner = ast.With(items=s.items[1:], body=s.body)
        ast.copy_location(inner, s)
        s = ast.copy_location(ast.With(items=s.items[:1], body=[inner]), s)
    it = s.items[0]
    m = ev(it.context_expr, fr)
    if isinstance(m, (GenContext, contextlib.suppress, contextlib.nullcontext)):
        return _with_gen(m, it, s, fr)
    en = call(getattr_(m, "__enter__"))
    if it.optional_vars is not None:
        assign(it.optional_vars, en, fr)
    try:
        block(s.body, fr)
    except Raised as r:
        if not truth(call(getattr_(m, "__exit__"), (type(r.exc), r.exc, None))):
            raise
    except (Return, Break, Continue):
        call(getattr_(m, "__exit__"), (None, None, None))
        raise
    else:
        call(getattr_(m, "__exit__"), (None, None, None))


def _with_gen(m, it, s, fr):
    gen = isinstance(m, GenContext)
    en = m.enter() if gen else getattr(m, "enter_result", None)
    if it.optional_vars is not None:
        assign(it.optional_vars, en, fr)
    try:
        block(s.body, fr)
    except Raised as r:
        if not (m.leave(r) if gen else isinstance(m, contextlib.suppress) and isinstance(r.exc, m._exceptions)):
            raise
    except (Return, Break, Continue):
        if gen:
            m.leave(None)
        raise
    else:
        if gen:
            m.leave(None)


# ---- match

def s_match(s, fr):
    v = ev(s.subject, fr)
    for c in s.cases:
        binds = {}
        if pattern(c.pattern, v, fr, binds):
            for k, x in binds.items():
                store_name(k, x, fr)
            if c.guard is None or truth(ev(c.guard, fr)):
                block(c.body, fr)
                return


SELF_MATCH = (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple)


def pattern(p, v, fr, b):
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not pattern(p.pattern, v, fr, b):
            return False
        if p.name:
            b[p.name] = v
        return True
    if isinstance(p, ast.MatchValue):
        return truth(equals(v, ev(p.value, fr)))
    if isinstance(p, ast.MatchSingleton):
        if type(v) is T and isinstance(p.value, bool):
            return truth(compare(ast.Is, v, p.value))
        return v is p.value
    if isinstance(p, ast.MatchOr):
        for q in p.patterns:
            bb = {}
            if pattern(q, v, fr, bb):
                b.update(bb)
                return True
        return False
    if isinstance(p, ast.MatchClass):
        cls = ev(p.cls, fr)
        if not isinstance(cls, type) and not isinstance(cls, types.UnionType):
            raise Raised(TypeError("called match pattern must be a class"))
        if not isinstance_(v, cls):
            return False
        if p.patterns:
            if isinstance(cls, type) and issubclass(cls, SELF_MATCH) and lookup(cls, "__match_args__") is None:
                if len(p.patterns) != 1:
                    raise Raised(TypeError("accepts 1 positional sub-pattern"))
                if not pattern(p.patterns[0], v, fr, b):
                    return False
            else:
                ma = getattr(cls, "__match_args__", ())
                if len(p.patterns) > len(ma):
                    raise Raised(TypeError(f"{cls.__name__}() accepts {len(ma)} positional sub-patterns ({len(p.patterns)} given)"))
                for q, n in zip(p.patterns, ma):
                    try:
                        x = getattr_(v, n)
                    except Raised as r:
                        if isinstance(r.exc, AttributeError):
                            return False
                        raise
                    if not pattern(q, x, fr, b):
                        return False
        for n, q in zip(p.kwd_attrs, p.kwd_patterns):
            try:
                x = getattr_(v, n)
            except Raised as r:
                if isinstance(r.exc, AttributeError):
                    return False
                raise
            if not pattern(q, x, fr, b):
                return False
        return True
    if isinstance(p, ast.MatchSequence):
        import collections.abc as cabc
        if is_sym(v) or isinstance(v, (str, bytes, bytearray)) or not isinstance(v, cabc.Sequence):
            return False
        vs = list(v)
        star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
        if star is None:
            if len(vs) != len(p.patterns):
                return False
            return all(pattern(q, x, fr, b) for q, x in zip(p.patterns, vs))
        after = len(p.patterns) - star - 1
        if len(vs) < star + after:
            return False
        if not all(pattern(q, x, fr, b) for q, x in zip(p.patterns[:star], vs)):
            return False
        if p.patterns[star].name:
            b[p.patterns[star].name] = vs[star:len(vs) - after]
        return all(pattern(q, x, fr, b) for q, x in zip(p.patterns[star + 1:], vs[len(vs) - after:]))
    if isinstance(p, ast.MatchMapping):
        if not isinstance(v, dict):
            return False
        used = []
        for k, q in zip(p.keys, p.patterns):
            kk = ev(k, fr)
            x = dict_get(v, kk, _MISSING2)
            if x is _MISSING2 or not pattern(q, x, fr, b):
                return False
            used.append(kk)
        if p.rest:
            b[p.rest] = {k: x for k, x in v.items() if k not in used}
        return True
    raise Unsupported("pattern")


_MISSING2 = object()

_ST = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AugAssign: s_aug, ast.AnnAssign: s_annassign, ast.If: s_if, ast.For: s_for,
       ast.While: s_while, ast.Return: s_return, ast.Raise: s_raise, ast.Try: s_try, ast.Pass: s_pass, ast.Break: s_break,
       ast.Continue: s_continue, ast.Assert: s_assert, ast.FunctionDef: s_funcdef, ast.ClassDef: s_classdef, ast.Import: s_import,
       ast.ImportFrom: s_importfrom, ast.Global: s_global, ast.Nonlocal: s_nonlocal, ast.Delete: s_delete, ast.With: s_with,
       ast.Match: s_match}


# ---- generators

def gen_run(node, fr):
    try:
        yield from gen_block(node.body, fr)
    except Return as r:
        return r.v


def contains_yield(s):
    for x in ast.walk(s):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def gen_expr(e, fr):
    if isinstance(e, ast.Yield):
        return (yield (ev(e.value, fr) if e.value is not None else None))
    if isinstance(e, ast.YieldFrom):
        for x in iterate(ev(e.value, fr)):
            yield x
        return None
    raise Unsupported("yield inside an expression")


def gen_try(s, fr):
    try:
        try:
            yield from gen_block(s.body, fr)
        except Raised as r:
            for h in s.handlers:
                if h.type is None or isinstance(r.exc, _exc_types(ev(h.type, fr))):
                    if h.name:
                        fr.locals[h.name] = r.exc
                    old = fr.locals.get("__exc__")
                    fr.locals["__exc__"] = r.exc
                    try:
                        yield from gen_block(h.body, fr)
                    finally:
                        fr.locals.pop("__exc__", None)
                        if old is not None:
                            fr.locals["__exc__"] = old
                        if h.name:
                            fr.locals.pop(h.name, None)
                    break
            else:
                raise
        else:
            yield from gen_block(s.orelse, fr)
    except (Unsupported, Cut, GeneratorExit):
        raise
    except BaseException:
        if s.finalbody:
            yield from gen_block(s.finalbody, fr)
        raise
    else:
        if s.finalbody:
            yield from gen_block(s.finalbody, fr)


def gen_block(body, fr):
    for s in body:
        if not contains_yield(s) or isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            _ST[type(s)](s, fr)
        elif isinstance(s, ast.Expr):
            yield from gen_expr(s.value, fr)
        elif isinstance(s, ast.Assign):
            v = yield from gen_expr(s.value, fr)
            for t in s.targets:
                assign(t, v, fr)
        elif isinstance(s, ast.If):
            yield from gen_block(s.body if truth(ev(s.test, fr)) else s.orelse, fr)
        elif isinstance(s, ast.For):
            brk = False
            for v in iterate(ev(s.iter, fr)):
                assign(s.target, v, fr)
                try:
                    yield from gen_block(s.body, fr)
                except Break:
                    brk = True
                    break
                except Continue:
                    continue
            if not brk:
                yield from gen_block(s.orelse, fr)
        elif isinstance(s, ast.While):
            while truth(ev(s.test, fr)):
                try:
                    yield from gen_block(s.body, fr)
                except Break:
                    break
                except Continue:
                    continue
        elif isinstance(s, ast.Try):
            yield from gen_try(s, fr)
        else:
            raise Unsupported("yield in this statement")
