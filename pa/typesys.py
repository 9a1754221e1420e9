"""Known types, their super-classes (also virtual ones), and the builtin exceptions' hierarchy."""
import builtins

SEQ = {"Sequence", "Iterable", "Collection", "Sized", "Container", "Reversible"}
MAP = {"Mapping", "Iterable", "Collection", "Sized", "Container"}
SUPERS = {
    "NoneType": {"Hashable"},
    "bool": {"int", "Integral", "Rational", "Real", "Complex", "Number", "Hashable"},
    "int": {"Integral", "Rational", "Real", "Complex", "Number", "Hashable"},
    "float": {"Real", "Complex", "Number", "Hashable"},
    "complex": {"Complex", "Number", "Hashable"},
    "str": SEQ | {"Hashable", "basestring", "AnyStr"},
    "bytes": SEQ | {"Hashable", "ByteString"},
    "bytearray": SEQ | {"MutableSequence"},
    "list": SEQ | {"MutableSequence"},
    "tuple": SEQ | {"Hashable"},
    "range": SEQ | {"Hashable"},
    "dict": MAP | {"MutableMapping", "Reversible"},
    "OrderedDict": MAP | {"MutableMapping", "dict", "Reversible"},
    "defaultdict": MAP | {"MutableMapping", "dict", "Reversible"},
    "ChainMap": MAP | {"MutableMapping"},
    "set": {"Set", "MutableSet", "Iterable", "Collection", "Sized", "Container"},
    "frozenset": {"Set", "Iterable", "Collection", "Sized", "Container", "Hashable"},
    "ndarray": {"Iterable", "Sized", "Container", "Collection"},
    "int64": {"integer", "signedinteger", "number", "generic", "Integral", "Rational", "Real", "Complex", "Number", "Hashable"},
    "float64": {"float", "floating", "inexact", "number", "generic", "Real", "Complex", "Number", "Hashable"},
    "float32": {"floating", "inexact", "number", "generic", "Real", "Complex", "Number", "Hashable"},
    "bool_": {"generic", "Hashable"},
    "DataFrame": {"NDFrame", "PandasObject", "Iterable", "Sized", "Container", "Collection"},
    "Series": {"NDFrame", "PandasObject", "IndexOpsMixin", "Iterable", "Sized", "Container", "Collection"},
    "Index": {"Iterable", "Sized", "Container", "Collection"},
    "function": {"Callable", "Hashable", "FunctionType"},
    "type": {"Callable", "Hashable"},
    "generator": {"Iterator", "Iterable", "Generator"},
    "slice": set(),
    "module": {"Hashable"},
    "object": {"Hashable"},
    "datetime": {"Hashable", "date"},
}
ABSTRACT = set().union(*SUPERS.values()) - set(SUPERS)
UNIVERSE = frozenset(["NoneType", "bool", "int", "float", "str", "bytes", "list", "tuple", "dict", "set", "ndarray", "int64", "float64",
                      "bool_", "DataFrame", "Series", "function", "object", "generator"])
NUMERIC = frozenset(["int", "bool", "int64"])
NUMS = frozenset(["int", "bool", "int64", "float", "float64", "bool_", "complex", "float32"])
ALIASES = {"bool8": "bool_", "str_": "str", "int_": "int64", "float_": "float64", "string_types": "str", "basestring": "str", "OSError": "OSError",
           "IOError": "OSError", "EnvironmentError": "OSError", "WindowsError": "OSError", "text_type": "str", "unicode": "str"}


def clsname(x):
    n = (x if isinstance(x, str) else x.name).rsplit(".", 1)[-1]
    return ALIASES.get(n, n)


EXC = {}
for _n in dir(builtins):
    _c = getattr(builtins, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException):
        EXC[_n] = set(c.__name__ for c in _c.__mro__ if c is not object)
EXC.update({
    "ValidationError": {"ValidationError", "_Error", "Exception", "BaseException"},
    "SchemaError": {"SchemaError", "_Error", "Exception", "BaseException"},
    "RefResolutionError": {"RefResolutionError", "Exception", "BaseException"},
    "com_error": {"com_error", "Exception", "BaseException"},
    "XLRDError": {"XLRDError", "Exception", "BaseException"},
    "JSONDecodeError": {"JSONDecodeError", "ValueError", "Exception", "BaseException"},
    "CalledProcessError": {"CalledProcessError", "SubprocessError", "Exception", "BaseException"},
    "DocoptExit": {"DocoptExit", "SystemExit", "BaseException"},
    "DocoptLanguageError": {"DocoptLanguageError", "Exception", "BaseException"},
    "EmptyDataError": {"EmptyDataError", "ValueError", "Exception", "BaseException"},
    "DistributionNotFound": {"DistributionNotFound", "ResolutionError", "Exception", "BaseException"},
    "error": {"error", "Exception", "BaseException"},
})
EXC_UNIVERSE = frozenset(["Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "LookupError", "RuntimeError", "OSError",
                          "AssertionError", "SyntaxError", "ImportError", "NotImplementedError", "ValidationError", "RefResolutionError",
                          "EmptyCaptureException", "KeyboardInterrupt"])


def exc_supers(name):
    name = ALIASES.get(name, name)
    return EXC.get(name, {name, "Exception", "BaseException"})


def exc_sub(e, h):
    return ALIASES.get(h, h) in exc_supers(e)


def supers_of(name):
    name = ALIASES.get(name, name)
    if name in EXC:
        return {name, "object"} | EXC[name]
    return {name, "object"} | SUPERS.get(name, set())


def isa(tname, cname, user, registered):
    """True / False / None (unknown)."""
    cname = ALIASES.get(cname, cname)
    if cname == "object":
        return True
    if tname in user:
        sup = user[tname].supers()
    else:
        sup = supers_of(tname)
    if cname in sup:
        return True
    for s in sup:
        for a in registered.get(s, ()):
            if cname == a or cname in ABC_SUP.get(a, ()):
                return True
    if tname == "object":
        # an instance of some class we know nothing about
        return None if cname not in SUPERS else False
    if tname in user:
        ext = [c for c in user[tname].mro() if not hasattr(c, "attrs")]
        if any(clsname(c) not in SUPERS and clsname(c) not in EXC and clsname(c) not in ("object", "ABC", "ABCMeta") for c in ext):
            return None if cname not in SUPERS and cname not in user else False
        return False
    if tname not in SUPERS and tname not in EXC:
        return None if cname not in SUPERS else False
    return False


ABC_SUP = {"Sequence": SEQ, "Mapping": MAP, "MutableMapping": MAP | {"Mapping"}, "MutableSequence": SEQ}
BUILTIN_TYPES = frozenset(["str", "bytes", "list", "tuple", "dict", "set", "frozenset", "int", "float", "bool", "ndarray", "generator"])
FALSY_ABLE = frozenset(["NoneType", "bool", "int", "float", "str", "bytes", "list", "tuple", "dict", "set", "frozenset", "OrderedDict", "defaultdict",
                        "ChainMap", "range", "int64", "float64", "bool_", "ndarray", "complex", "object", "DataFrame", "Series", "bytearray", "float32",
                        "Index"])


def always_true(t, user):
    if t in user:
        ci = user[t]
        if ci.nt() is not None:
            return True
        if ci.lookup("__bool__") or ci.lookup("__len__"):
            return False
        bb = ci.builtin_base()
        return bb is None or (bb not in FALSY_ABLE and (bb in EXC or bb in SUPERS))
    if t in EXC:
        return True
    return t not in FALSY_ABLE and t in SUPERS


def _group(t):
    if t in NUMS:
        return "num"
    if t in ("str",):
        return "str"
    if t in ("list",):
        return "list"
    if t in ("dict", "OrderedDict", "defaultdict", "ChainMap"):
        return "dict"
    if t in ("set", "frozenset"):
        return "set"
    if t in ("tuple", "NoneType", "bytes", "function", "type", "slice"):
        return t
    return None          # unknown: may compare equal to anything


def eq_possible(ta, tb):
    for a in ta:
        for b in tb:
            ga, gb = _group(a), _group(b)
            if ga is None or gb is None or ga == gb:
                return True
    return False


def is_exc_class(info):
    for c in info.mro():
        if not hasattr(c, "attrs"):
            if clsname(c) in EXC or clsname(c).endswith("Error") or clsname(c).endswith("Exception"):
                return True
    return False


_PY = {"str": str, "dict": dict, "list": list, "tuple": tuple, "set": set, "int": int, "float": float, "bytes": bytes, "object": object,
       "frozenset": frozenset}


def builtin_has(base, name):
    if base in _PY:
        return hasattr(_PY[base], name)
    if base in EXC:
        return hasattr(getattr(builtins, base, Exception), name) and name != "args"
    if base in ("OrderedDict", "defaultdict", "ChainMap"):
        import collections
        return hasattr(getattr(collections, base), name) and name != "maps"
    return False


_ATTRS = dict(_PY, int=int, float=float, bool=bool, NoneType=type(None), complex=complex, OrderedDict=dict)
_ATTRS.pop("object", None)


def no_attr(tname, name):
    """Is `name` surely no attribute of instances of the builtin type?"""
    t = _ATTRS.get(tname)
    if tname in ("OrderedDict", "dict") and name in ("move_to_end", "__dict__"):
        return False
    return t is not None and not hasattr(t, name)
