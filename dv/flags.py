"""Integer flag enumerations (enum.IntFlag, boundary KEEP) with a symbolic value."""
from __future__ import annotations
import ast
import enum
import functools
import types
from . import terms as tm
from . import interp as I
from . import models as M
from .terms import T
from .engine import Unsupported, Raised, current
from .interp import Sym, call, lookup, in_roots


def value_of(o):
    if isinstance(o, SymFlag):
        return o.v
    if type(o) is T or isinstance(o, int):
        return I.as_int(o) if type(o) is T else int(o)
    return None


class SymFlag(Sym):
    def __init__(self, cls, v):
        self.dv_type, self.v = cls, v

    def __repr__(self):
        return f"<{self.dv_type.__name__} {self.v!r}>"

    def dv_getattr(self, name):
        cls = self.dv_type
        if name in ("value", "_value_"):
            return self.v
        if name == "__class__":
            return cls
        if name in ("name", "_name_"):
            return cls(current().concretize(self.v)).name
        a = lookup(cls, name)
        if isinstance(a, (types.FunctionType, I.IFunc)):
            return types.MethodType(a, self)
        if isinstance(a, property):
            return call(a.fget, (self,))
        if isinstance(a, functools.cached_property):
            return call(a.func, (self,))
        if isinstance(a, classmethod):
            return types.MethodType(a.__func__, cls)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType)):
            return I.getattr_(self.v, name)
        try:
            return getattr(cls, name)
        except AttributeError as e:
            raise Raised(e)

    def dv_binop(self, op, b, reflected):
        n = I.DUNDER[op]
        f = lookup(self.dv_type, f"__{'r' if reflected else ''}{n}__")
        if isinstance(f, types.FunctionType) and in_roots(f.__code__.co_filename):
            r = call(f, (self, b))
            if r is not NotImplemented:
                return r
        v = value_of(b)
        if v is None:
            return NotImplemented
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            return make(self.dv_type, I.binop(op, self.v, v))
        return I.binop(op, v, self.v) if reflected else I.binop(op, self.v, v)

    def dv_unop(self, op):
        if op is ast.Invert:
            raise Unsupported("inversion of a flag")
        return I.unop(op, self.v)

    def dv_eq(self, o):
        v = value_of(o)
        return False if v is None else tm.eq(self.v, v)

    def dv_cmp(self, n, o):
        v = value_of(o)
        if v is None:
            return NotImplemented
        return getattr(tm, n)(self.v, v)

    def dv_truth(self):
        return I.truth(tm.ne(self.v, 0))

    def dv_int(self):
        return self.v

    def dv_str(self):
        m = lookup(self.dv_type, "__str__")
        if isinstance(m, types.FunctionType) and in_roots(m.__code__.co_filename):
            return call(m, (self,))
        return I.str_of(self.v)

    def dv_contains(self, x):
        v = value_of(x)
        return tm.eq(tm.band(self.v, v), v)

    def dv_concrete(self, m):
        return self.dv_type(m.ev(self.v))


def make(cls, v):
    if type(v) is not T:
        return I.natively(cls, (v,), {})
    if not current().entails(tm.ge(v, 0)):
        raise Unsupported("flag from a possibly negative number")
    return SymFlag(cls, v)


_lookup = I.enum_lookup


def enum_lookup(cls, args):
    v = args[0]
    if isinstance(v, SymFlag) and v.dv_type is cls:
        return v
    if issubclass(cls, enum.IntFlag) and cls._boundary_ is enum.FlagBoundary.KEEP:
        x = value_of(v)
        if type(x) is T:
            return make(cls, x)
    return _lookup(cls, args)


I.enum_lookup = enum_lookup
