"""Lets causalnex.inference run on this interpreter.

It builds functions with Python 3.8's ``types.CodeType(...)`` signature.  Under 3.12 that constructor takes two
more tables and counts local slots differently, so the call is translated; on other signatures the real
constructor is called.
"""
import dis
import sys
import types


class _CodeTypeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, types.CodeType)

    def __call__(cls, *a):
        if len(a) in (15, 16) and sys.version_info >= (3, 11):
            return _translate(*a)
        return types.CodeType(*a)


class CodeType(metaclass=_CodeTypeMeta):
    pass


def _find_original(co_code):
    f = sys._getframe(2)
    while f is not None:
        for v in list(f.f_locals.values()):
            c = v if isinstance(v, types.CodeType) else getattr(v, "__code__", None)
            if isinstance(c, types.CodeType) and c.co_code == co_code:
                return c
        f = f.f_back
    return None


_LOCAL = {n for n in dis.opname if n.startswith(("LOAD_FAST", "STORE_FAST", "DELETE_FAST"))}
_DEREF = {"LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF", "LOAD_CLOSURE", "MAKE_CELL", "LOAD_FROM_DICT_OR_DEREF",
          "LOAD_CLASSDEREF"}


def _translate(argcount, *rest):
    if len(rest) == 15:
        posonly, rest = rest[0], rest[1:]
    else:
        posonly = 0
    (kwonly, nlocals, stack, flags, code, consts, names, varnames, filename, name, first, lnotab, free, cells) = rest
    orig = _find_original(code)
    old_locals = list(orig.co_varnames) if orig is not None else []
    n_old = len(old_locals)
    shift = len(varnames) if not (orig is not None and tuple(varnames[:n_old]) == tuple(old_locals)) else 0
    if shift:
        new_vars = tuple(varnames) + tuple(".%d.%s" % (i, n) for i, n in enumerate(old_locals))
    else:
        new_vars = tuple(varnames)
    delta = len(new_vars) - n_old
    out = bytearray(code)
    i = 0
    ext = 0
    while i < len(out):
        op, arg = dis.opname[out[i]], out[i + 1]
        if op == "EXTENDED_ARG":
            raise NotImplementedError("extended argument in a template function")
        if op in _LOCAL:
            new = arg + shift
        elif op in _DEREF:
            new = arg + delta
        elif op == "COPY_FREE_VARS":
            new = arg
        else:
            new = arg
        if new > 255:
            raise NotImplementedError("too many locals in a template function")
        out[i + 1] = new
        i += 2
    return types.CodeType(
        argcount, posonly, kwonly, len(new_vars), stack, flags, bytes(out), consts, names, new_vars, filename, name,
        orig.co_qualname if orig is not None else name, first,
        orig.co_linetable if orig is not None else b"", orig.co_exceptiontable if orig is not None else b"",
        tuple(free), tuple(cells))


def make_types_proxy():
    m = types.ModuleType("types")
    for n in dir(types):
        if not n.startswith("__"):
            setattr(m, n, getattr(types, n))
    m.CodeType = CodeType
    return m
