"""Path-sensitive inter-procedural abstract interpreter over the ASTs of /repo (nothing of it is executed)."""
import ast
import os
import re as _re

from .values import *
from . import typesys as T

sysrec = 200000


class Undecided(Exception):
    """The analysis left the fragment it can interpret precisely, or its budget."""


class AnchorLost(Exception):
    """A public entry point the check starts from is gone."""


class Raised(object):
    __slots__ = ("exc", "abort")

    def __init__(self, exc=None, abort=None):
        self.exc, self.abort = exc, abort

    def __repr__(self):
        return "Raised(%r)" % (self.exc,)


class PropV(Val):
    __slots__ = ("fget", "fset", "fdel", "cached")

    def __init__(self, fget, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached
        self._init(fget, fset, fdel, cached)


class StaticV(Val):
    __slots__ = ("fn", "is_cls")

    def __init__(self, fn, is_cls=False):
        self.fn, self.is_cls = fn, is_cls
        self._init(fn, is_cls)


class FuncInfo(object):
    def __init__(self, node, module, qualname):
        self.node, self.module, self.qualname = node, module, qualname
        self.is_lambda = isinstance(node, ast.Lambda)
        self.name = "<lambda>" if self.is_lambda else node.name
        body = [node.body] if self.is_lambda else node.body
        self.is_gen = any(_has_yield(b) for b in body)
        self.globals_, self.nonlocals, self.locals = set(), set(), set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            self.locals.add(x.arg)
        if not self.is_lambda:
            for b in node.body:
                _collect_locals(b, self)
        self.locals -= self.globals_ | self.nonlocals


def _has_yield(n):
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
        return True
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
        return False
    return any(_has_yield(c) for c in ast.iter_child_nodes(n))


def _collect_locals(n, info):
    if isinstance(n, ast.Global):
        info.globals_.update(n.names)
    elif isinstance(n, ast.Nonlocal):
        info.nonlocals.update(n.names)
    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        info.locals.add(n.name)
        return
    elif isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr):
                info.locals.add(c.target.id)
        return
    elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        info.locals.add(n.id)
    elif isinstance(n, ast.ExceptHandler) and n.name:
        info.locals.add(n.name)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
        for al in n.names:
            info.locals.add((al.asname or al.name).split(".")[0])
    for c in ast.iter_child_nodes(n):
        _collect_locals(c, info)


class ClassInfo(object):
    def __init__(self, name, module, bases=(), node=None):
        self.name, self.module, self.bases, self.node = name, module, list(bases), node
        self.attrs = {}
        self.nt_fields = None
        self.nt_defaults = ()

    def mro(self):
        def lin(c):
            if not isinstance(c, ClassInfo):
                return [c]
            bases = [b.info if isinstance(b, ClsV) else b for b in c.bases]
            seqs = [lin(b) for b in bases] + [bases]
            out = [c]
            while True:
                seqs = [q for q in seqs if q]
                if not seqs:
                    return out
                for q in seqs:
                    if not any(q[0] in z[1:] for z in seqs):
                        out.append(q[0])
                        seqs = [[x for x in z if x is not out[-1] and x != out[-1]] for z in seqs]
                        break
                else:
                    raise ValueError("inconsistent mro")

        if not any(len(c.bases) > 1 for c in self._mro() if isinstance(c, ClassInfo)):
            return self._mro()
        try:
            return lin(self)
        except ValueError:
            return self._mro()

    def _mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClsV):
                for c in b.info.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name, start=None):
        mro = self.mro()
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.attrs:
                    return c.attrs[name]
                if c.nt_fields and name in c.nt_fields:
                    return ("ntfield", c.nt_fields.index(name))
        return None

    def nt(self):
        for c in self.mro():
            if isinstance(c, ClassInfo) and c.nt_fields is not None:
                return c
        return None

    def builtin_base(self):
        for c in self.mro():
            if isinstance(c, Ext):
                n = T.clsname(c)
                if n not in ("object", "ABC", "ABCMeta"):
                    return n
        return None

    def supers(self):
        s = {"object"}
        for c in self.mro():
            if isinstance(c, ClassInfo):
                s.add(c.name)
                if c.nt_fields is not None:
                    s |= T.supers_of("tuple")
            else:
                s |= T.supers_of(T.clsname(c))
        return s


class Ctx(object):
    """Dynamic context of one activation."""
    __slots__ = ("fid", "info", "module", "yh", "depth", "stack", "trys", "cls", "selfv", "exc")

    def __init__(self, fid, info, module, yh=None, stack=(), trys=(), cls=None, selfv=None, exc=None):
        self.fid, self.info, self.module, self.yh, self.stack, self.trys = fid, info, module, yh, stack, trys
        self.cls, self.selfv, self.exc = cls, selfv, exc

    def sub(self, **kw):
        c = Ctx(self.fid, self.info, self.module, self.yh, self.stack, self.trys, self.cls, self.selfv, self.exc)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.src, path)
        self.fid = None


BUILTIN_NAMES = set(dir(__import__("builtins")))


def is_nan(v):
    return isinstance(v, Const) and isinstance(v.v, float) and v.v != v.v or isinstance(v, Ext) and v.name.lower() in ("numpy.nan", "math.nan") or \
        isinstance(v, Sym) and "nan" in v.flags and v.ty <= frozenset(["float", "float64", "float32"])


FLOAT_CONSTS = frozenset(m + "." + n for m in ("numpy", "math") for n in ("nan", "NaN", "NAN", "inf", "Inf", "pi", "e"))


class Config(object):
    def __init__(self, **kw):
        self.stubs = {}            # 'Ext name' or function qualname -> fn(it, st, args, kwargs, ctx, node) -> iter of (st, val)
        self.mstubs = {}           # method name -> same, first arg is the receiver; return None to decline
        self.type_hint = None      # fn(App) -> ty
        self.loop_k = 2            # generic elements per unknown collection
        self.comp_k = 1
        self.while_k = 3
        self.rec_k = 3             # extra recursive activations
        self.rec_cut = False       # past it: an opaque result (True) or leaving the fragment (False)
        self.max_states = 60000
        self.raises = "handled"    # 'handled' | 'all' | 'none': when opaque operations may raise
        self.truth_hint = None     # fn(term, st) -> bool or None
        self.raise_filter = None   # fn(kind, what, node) -> bool
        self.max_depth = 40
        self.sort_fork = False     # sorted() of unorderable symbols: fork on their order, or keep an opaque order
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Program(object):
    """Loads modules of the repo by abstractly interpreting their top-levels."""

    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.base = State()
        self.loading = []
        self.registered = {}        # abc registrations: concrete type -> set of abstract classes
        self.it = Interp(self, Config(raises="none"))
        self.files = {}

    def find(self, name):
        if name.startswith("envm_"):        # client programs of the checks, analysed with the repo's code
            return os.path.join(os.path.dirname(os.path.abspath(__file__)), "env", name + ".py")
        p = os.path.join(self.root, *name.split("."))
        for cand in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(cand):
                return cand
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find(name)
        if path is None:
            raise AnchorLost("module %s not found" % name)
        if "." in name and self.find(name.rsplit(".", 1)[0]):
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path)
        self.modules[name] = m
        self.files[path] = m
        st = self.base
        m.fid = st.fresh()
        st.frames[m.fid] = {"__name__": Const(name), "__doc__": Const(ast.get_docstring(m.tree)), "__file__": Const(path)}
        ctx = Ctx(m.fid, None, m)
        for stmt in m.tree.body:
            done = False
            for st2, sig in self.it.stmt(stmt, self.base, ctx):
                if sig is None:
                    self.base = st2
                    done = True
                    break
            if not done:
                # a top-level statement which cannot complete abstractly: skip it
                pass
        return m

    def func(self, modname, qual):
        """Resolve e.g. ('pandalone.mappings', 'Pmod.descend') to a value."""
        m = self.load(modname)
        cur = None
        for i, part in enumerate(qual.split(".")):
            if i == 0:
                cur = self.base.frames[m.fid].get(part)
            elif isinstance(cur, ClsV):
                cur = cur.info.lookup(part)
            else:
                cur = None
            if cur is None:
                raise AnchorLost("%s:%s not found" % (modname, qual))
        return cur

    def isa(self, tname, cname):
        return T.isa(tname, cname, self.user_types(), self.registered)

    def user_types(self):
        return self._user

    _user = {}


def _ext_const(name):
    from . import models
    return models.EXT_CONST.get(name)


SHIMS = {"contextlib.ExitStack": ("envm_stdlib", "ExitStack"), "contextlib.AbstractContextManager": ("envm_stdlib", "AbstractContextManager")}


def _missing(mod, name):
    """Is `name` no attribute of this module of the standard library?"""
    if mod not in ("inspect", "itertools", "collections", "functools", "re", "json", "textwrap", "os", "os.path", "copy", "operator", "urllib.parse", "logging", "string", "contextlib", "types"):
        return False
    import importlib
    return not hasattr(importlib.import_module(mod), name)


class Interp(object):
    def __init__(self, prog, cfg):
        self.prog, self.cfg = prog, cfg
        self.states = 0
        self.loop_cuts = 0
        self.rec_cuts = 0
        self.funcs = set()

    # ------------------------------------------------------------------ helpers
    def loc(self, ctx, node):
        m = ctx.module
        return "%s:%s" % (os.path.relpath(m.path, self.prog.root), getattr(node, "lineno", "?"))

    def where(self, ctx):
        return ctx.info.qualname if ctx.info else "<module>"

    def tick(self):
        self.states += 1
        if self.states > self.cfg.max_states:
            raise Undecided("state budget exhausted")

    def raise_new(self, st, clsname, args=(), node=None, ctx=None):
        st = st.fork()
        d = st.alloc(DictO(((Const("args"), Tup(args)),)))
        e = st.alloc(InstO(Ext("builtins." + clsname), d.oid))
        return st, Raised(e)

    def can_catch(self, ctx, exc_names):
        """Names out of `exc_names` that some active handler is specific about."""
        if self.cfg.raises == "all":
            return list(exc_names)
        if self.cfg.raises == "none":
            return []
        out = []
        for e in exc_names:
            if any(T.exc_sub(e, h) for hs in ctx.trys for h in hs):
                out.append(e)
        return out

    # ------------------------------------------------------------------ types and truth
    def types(self, v, st):
        """Set of possible concrete type names, or None when unknown."""
        if isinstance(v, Const):
            return frozenset([type(v.v).__name__])
        if isinstance(v, Str):
            return frozenset(["str"])
        if isinstance(v, Lin):
            return frozenset(["int"])
        if isinstance(v, Tup):
            return frozenset([v.cls.name if v.cls else "tuple"])
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, InstO):
                return frozenset([o.cls.info.name if isinstance(o.cls, ClsV) else T.clsname(o.cls)])
            if isinstance(o, (DictO, ListO)):
                return frozenset([o.tname])
            if isinstance(o, ArrO):
                return frozenset(["ndarray"])
            if isinstance(o, IterO):
                return frozenset(["generator"])
            if isinstance(o, CopyO):
                if o.tname:
                    return frozenset([o.tname])
                return self.types(o.base, st)
        if isinstance(v, Ext) and v.name in FLOAT_CONSTS:
            return frozenset(["float"])
        if isinstance(v, (FuncV, Bound, BMeth, Partial)):
            return frozenset(["function"])
        if isinstance(v, ClsV):
            return frozenset(["type"])
        if isinstance(v, SliceV):
            return frozenset(["slice"])
        if isinstance(v, (Sym, App)):
            ty = st.facts.get(("ty", v))
            if ty is None:
                ty = v.ty
                if ty is None and isinstance(v, App) and v.op in ("elem", "item") and isinstance(v.args[0], App) and \
                        v.args[0].op in ("m:split", "m:rsplit", "m:splitlines", "m:re.split", "m:partition", "m:rpartition") and \
                        not isinstance(v.args[1], SliceV):
                    ty = frozenset(["str"])
                if ty is None and isinstance(v, App) and self.cfg.type_hint:
                    ty = self.cfg.type_hint(v)
                    if isinstance(ty, str):
                        ty = frozenset([ty])
            return ty
        return None

    def set_types(self, v, ty, st):
        st.facts[("ty", v)] = frozenset(ty)

    def isinstance_(self, v, cnames, st):
        """Yield (state, bool)."""
        if isinstance(v, Lin):
            yield st, any(T.isa("int", c, self.prog._user, self.prog.registered) for c in cnames)
            return
        ty = self.types(v, st)
        if isinstance(v, (Ext, ModV)) and not (isinstance(v, Ext) and v.name in FLOAT_CONSTS):
            key = ("isa", v, tuple(sorted(cnames)))
            if key in st.facts:
                yield st, st.facts[key]
                return
            for b in (True, False):
                s = st.fork()
                s.facts[key] = b
                yield s, b
            return
        if ty is None:
            ty = T.UNIVERSE | frozenset(self.prog._user)
        yes, no, maybe = [], [], []
        for t in ty:
            rs = [self.prog.isa(t, c) for c in cnames]
            if True in rs:
                yes.append(t)
            elif None in rs:
                maybe.append(t)
            else:
                no.append(t)
        if not isinstance(v, (Sym, App)):
            if maybe and not yes:
                key = ("isa", v, tuple(sorted(cnames)))
                if key in st.facts:
                    yield st, st.facts[key]
                    return
                for b in (True, False):
                    s = st.fork()
                    s.facts[key] = b
                    yield s, b
                return
            yield st, bool(yes)
            return
        if not no and not maybe:
            yield st, True
            return
        if not yes and not maybe:
            yield st, False
            return
        key = ("isa", v, tuple(sorted(cnames)))
        if key in st.facts:
            yield st, st.facts[key]
            return
        if yes or maybe:
            s = st.fork()
            s.facts[key] = True
            self.set_types(v, yes + maybe, s)
            yield s, True
        if no or maybe:
            s = st.fork()
            s.facts[key] = False
            self.set_types(v, no + maybe, s)
            yield s, False

    def truth(self, v, st):
        """Yield (state, bool)."""
        if isinstance(v, Const):
            yield st, bool(v.v)
        elif isinstance(v, Tup):
            yield st, bool(v.items)
        elif isinstance(v, Str):
            if any(isinstance(p, str) or (isinstance(p, Sym) and "word" in p.flags) for p in v.parts):
                yield st, True
            else:
                yield from self.fork_truth(v, st)
        elif isinstance(v, Lin):
            for s, b in self.compare_eq(v, Const(0), st):
                yield s, not b
        elif isinstance(v, (FuncV, Bound, BMeth, ClsV, ModV, Partial, SliceV)):
            yield st, True
        elif isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, (DictO, ListO)):
                if o.items:
                    yield st, True
                elif not o.open:
                    yield st, False
                else:
                    yield from self.fork_truth(v, st)
            elif isinstance(o, ArrO):
                if len(o.items) == 1:
                    yield from self.truth(o.items[0], st)
                else:
                    yield from self.fork_truth(v, st)
            elif isinstance(o, InstO):
                if o.strval is not None:
                    yield from self.truth(o.strval, st)
                    return
                if isinstance(o.cls, ClsV):
                    for nm in ("__bool__", "__len__"):
                        m = o.cls.info.lookup(nm)
                        if m is not None:
                            for s, r in self.call(Bound(m, v), (), (), st, self.topctx(), None):
                                if isinstance(r, Raised):
                                    continue
                                yield from self.truth(r, s)
                            return
                yield st, True
            elif isinstance(o, CopyO):
                if ("truth", v) not in st.facts and ("truth", o.base) in st.facts:
                    yield st, st.facts[("truth", o.base)]
                else:
                    yield from self.fork_truth(v, st)
            else:
                yield st, True
        elif isinstance(v, App) and v.op == "not":
            for s, b in self.truth(v.args[0], st):
                yield s, not b
        elif isinstance(v, App) and v.op == "==":
            yield from self.compare_eq(v.args[0], v.args[1], st)
        elif isinstance(v, App) and v.op == "is":
            yield from self.compare_is(v.args[0], v.args[1], st)
        elif isinstance(v, App) and v.op in ("<", "<="):
            yield from self.compare_lt(v.args[0], v.args[1], v.op == "<=", st)
        elif isinstance(v, App) and v.op == "isinstance":
            yield from self.isinstance_(v.args[0], v.args[1], st)
        elif isinstance(v, App) and v.op == "and":
            yield from self._truth_seq(v.args, st, True)
        elif isinstance(v, App) and v.op == "or":
            yield from self._truth_seq(v.args, st, False)
        else:
            yield from self.fork_truth(v, st)

    def _truth_seq(self, args, st, is_and):
        if not args:
            yield st, is_and
            return
        for s, b in self.truth(args[0], st):
            if b != is_and:
                yield s, b
            else:
                yield from self._truth_seq(args[1:], s, is_and)

    def fork_truth(self, v, st):
        key = ("truth", v)
        if key in st.facts:
            yield st, st.facts[key]
            return
        if self.cfg.truth_hint:
            h = self.cfg.truth_hint(v, st)
            if h is not None:
                yield st, h
                return
        val = st.facts.get(("val", v))
        if val is not None:
            yield st, bool(val.v)
            return
        if isinstance(v, Sym) and "word" in v.flags or isinstance(v, Ext) and (T.clsname(v) in T.EXC or v.name.startswith("builtins.") and v.name != "builtins.__debug__"):
            yield st, True
            return
        n = st.facts.get(("count", v))
        if n is not None:
            yield st, n > 0
            return
        ty = self.types(v, st)
        cant_true = ty is not None and ty <= {"NoneType"}
        cant_false = ty is not None and all(T.always_true(t, self.prog._user) for t in ty)
        if "nonempty" in getattr(v, "flags", ()):
            cant_false = True
        if cant_true:
            yield st, False
            return
        if cant_false:
            yield st, True
            return
        s = st.fork()
        s.facts[key] = True
        if ty is not None and "NoneType" in ty:
            self.set_types(v, ty - {"NoneType"}, s)
        elif ty is None:
            s.facts[("notnone", v)] = True
        yield s, True
        s = st.fork()
        s.facts[key] = False
        if ty is not None:
            self.set_types(v, [t for t in ty if not T.always_true(t, self.prog._user)], s)
        yield s, False

    # ------------------------------------------------------------------ comparisons
    def compare_is(self, a, b, st):
        if a == b:
            yield st, not (isinstance(a, Const) and is_nan(a))
            return
        if (isinstance(a, Const) or isinstance(b, Const)) and (isinstance(a, Ext) and a.name in FLOAT_CONSTS or isinstance(b, Ext) and b.name in FLOAT_CONSTS):
            yield st, False
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and (y.v is None or isinstance(y.v, bool)):
                if isinstance(x, Const):
                    yield st, False
                    return
                if isinstance(x, App) and x.op == "view":
                    yield st, False
                    return
                if isinstance(x, (Sym, App)):
                    val = st.facts.get(("val", x))
                    if val is not None:
                        yield st, val == y
                        return
                    if y.v is None:
                        if st.facts.get(("truth", x)) or st.facts.get(("notnone", x)):
                            yield st, False
                            return
                        ty = self.types(x, st)
                        if ty is not None:
                            if "NoneType" not in ty:
                                yield st, False
                                return
                            if ty == {"NoneType"}:
                                yield st, True
                                return
                        n = st.facts.get(("count", x))
                        if n:
                            yield st, False
                            return
                        key = ("is", x, None)
                        if key in st.facts:
                            yield st, st.facts[key]
                            return
                        s = st.fork()
                        s.facts[key] = True
                        self.set_types(x, ["NoneType"], s)
                        s.facts[("truth", x)] = False
                        yield s, True
                        s = st.fork()
                        s.facts[key] = False
                        s.facts[("notnone", x)] = True
                        if ty is not None:
                            self.set_types(x, ty - {"NoneType"}, s)
                        yield s, False
                        return
                    ty = self.types(x, st)
                    if ty is not None and "bool" not in ty:
                        yield st, False
                        return
                    yield from self._fork_fact(("is", x, y), st)
                    return
                yield st, False
                return
        if isinstance(a, Ref) and isinstance(b, Ref):
            yield st, False
            return
        if isinstance(a, (Ref, FuncV, ClsV, Tup)) and isinstance(b, (Ref, FuncV, ClsV, Tup, Const, Ext)) or \
                isinstance(b, (Ref, FuncV, ClsV, Tup)) and isinstance(a, (Const, Ext)):
            yield st, False
            return
        if isinstance(a, Sym) and isinstance(b, Sym) and "distinct" in a.flags and "distinct" in b.flags:
            yield st, False
            return
        ta, tb = self.types(a, st), self.types(b, st)
        if ta is not None and tb is not None and not (ta & tb):
            yield st, False
            return
        if isinstance(a, Ref) or isinstance(b, Ref):
            # an object allocated by the analysed code is not an opaque input
            o = st.heap[(a if isinstance(a, Ref) else b).oid]
            if o.origin == "fresh":
                yield st, False
                return
        k = tuple(sorted((a, b), key=repr))
        yield from self._fork_fact(("is",) + k, st)

    def _fork_fact(self, key, st):
        if key in st.facts:
            yield st, st.facts[key]
            return
        for b in (True, False):
            s = st.fork()
            s.facts[key] = b
            yield s, b

    def strval(self, v, st):
        """The text of a str or str-subclass instance, if any."""
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, InstO) and o.strval is not None:
                return o.strval
        return v

    def compare_eq(self, a, b, st):
        a0, b0 = a, b
        if isinstance(a, Ref) or isinstance(b, Ref):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref):
                    o = st.heap[x.oid]
                    if isinstance(o, InstO) and isinstance(o.cls, ClsV) and o.cls.info.lookup("__eq__"):
                        for s, r in self.call(Bound(o.cls.info.lookup("__eq__"), x), (y,), (), st, self.topctx(), None):
                            if not isinstance(r, Raised):
                                yield from self.truth(r, s)
                        return
        a, b = self.strval(a, st), self.strval(b, st)
        if is_nan(a) or is_nan(b):
            yield st, False
            return
        if a == b:
            yield st, True
            return
        va, vb = st.facts.get(("val", a)), st.facts.get(("val", b))
        if va is not None or vb is not None:
            yield from self.compare_eq(va or a, vb or b, st)
            return
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                yield st, bool(a.v == b.v)
            except Exception:
                yield st, False
            return
        if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
            yield from self.compare_is(a, b, st)
            return
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                yield st, False
                return
            yield from self._eq_seq(list(zip(a.items, b.items)), st)
            return
        for x, y in ((a, b), (b, a)):
            # The first or the last letters are some text: it starts or ends so.
            if isinstance(y, Const) and isinstance(y.v, str) and y.v and isinstance(x, App) and x.op == "item" and isinstance(x.args[1], SliceV) and self.types(x, st) == frozenset(["str"]):
                sl, n = x.args[1], len(y.v)
                lo, hi, step = ((k.v if isinstance(k, Const) else "?") for k in (sl.lo, sl.hi, sl.step))
                how = "startswith" if lo in (None, 0) and hi == n and lo is not False else "endswith" if lo == -n and hi is None else None
                if how and step is None:
                    from . import models
                    for s, r in models.call_method(self, x.args[0], how, (y,), (), st, self.topctx(), None):
                        if not isinstance(r, Raised):
                            yield from self.truth(r, s)
                    return
        if isinstance(a, (Sym, App)) or isinstance(b, (Sym, App)):
            ba, bb = (isinstance(x, (Sym, App)) and (self.types(x, st) or {0}) <= {"bool", "bool_"} for x in (a, b))
            if ba and bb or (ba or bb) and isinstance(b if ba else a, Const):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Const) and not (isinstance(x.v, (int, float)) and x.v in (0, 1)):
                        yield st, False
                        return
                for s, p in self.truth(a, st):
                    for s2, q in self.truth(b, s):
                        yield s2, p == q
                return
        if isinstance(a, Lin) or isinstance(b, Lin):
            d = self.lin_sub(a, b, st)
            if d is not None:
                if not d.terms:
                    yield st, d.c == 0
                    return
                lo, hi = self.bounds(d, st)
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    yield st, False
                    return
                if lo == hi == 0:
                    yield st, True
                    return
                if len(d.terms) == 1 and d.c == 0 and isinstance(d.terms[0][0], (Sym, App)):
                    for s, t in self.truth(d.terms[0][0], st):
                        if not t:
                            s = s.fork()
                            self.constrain(d, 0, 0, s)
                        yield s, not t
                    return
                s = st.fork()
                self.constrain(d, 0, 0, s)
                yield s, True
                s = st.fork()
                if lo == 0:
                    self.constrain(d, 1, None, s)
                elif hi == 0:
                    self.constrain(d, None, -1, s)
                yield s, False
                return
            ta = self.types(b if isinstance(a, Lin) else a, st)
            if ta is not None and not (ta & T.NUMERIC):
                yield st, False
                return
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap[a.oid], st.heap[b.oid]
            if isinstance(oa, ListO) and isinstance(ob, ListO) and not oa.open and not ob.open and oa.tname == ob.tname == "list":
                if len(oa.items) != len(ob.items):
                    yield st, False
                else:
                    yield from self._eq_seq(list(zip(oa.items, ob.items)), st)
                return
            if isinstance(oa, DictO) and isinstance(ob, DictO) and not oa.open and not ob.open and \
                    set(k for k, _ in oa.items) == set(k for k, _ in ob.items):
                db = dict(ob.items)
                yield from self._eq_seq([(x, db[k]) for k, x in oa.items], st)
                return
        if any(isinstance(x, Ref) for x in (a, b)) and all(isinstance(x, (Ref, Tup, Const)) or isinstance(x, App) and x.op == "view" for x in (a, b)):
            from .stdmodel import py, NotConst
            try:
                yield st, py(a, st) == py(b, st)
                return
            except (NotConst, TypeError):
                pass
        if isinstance(a, (Str, Const)) and isinstance(b, (Str, Const)) and (isinstance(a, Str) or isinstance(b, Str)):
            r = self._str_distinct(a, b)
            if r:
                yield st, False
                return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and "unique" in x.flags and (isinstance(y, Const) or isinstance(y, Sym) and "unique" in y.flags):
                yield st, False
                return
            if isinstance(x, Sym) and "word" in x.flags:
                if isinstance(y, Const):
                    yield st, y.v in getattr(self, "word_consts", ()) and False
                    return
                if isinstance(y, Sym) and "word" in y.flags:
                    yield st, False
                    return
                if isinstance(y, Str) and any(isinstance(p, str) and any(ch in p for ch in "/~.") for p in y.parts):
                    yield st, False
                    return
        ta, tb = self.types(a, st), self.types(b, st)
        if ta is not None and tb is not None and not T.eq_possible(ta, tb):
            yield st, False
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and isinstance(x, (Sym, App)):
                tr = st.facts.get(("truth", x))
                if tr is not None and tr != bool(y.v):
                    yield st, False
                    return
                ne = st.facts.get(("ne", x), frozenset())
                if y in ne:
                    yield st, False
                    return
                if isinstance(x, Sym) and "nonconst" in x.flags:
                    yield st, False
                    return
                s = st.fork()
                s.facts[("val", x)] = y
                yield s, True
                s = st.fork()
                s.facts[("ne", x)] = ne | {y}
                yield s, False
                return
        if isinstance(a, Sym) and isinstance(b, Sym) and "distinct" in a.flags and "distinct" in b.flags:
            yield st, False
            return
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "re" and len(a.args) == len(b.args) and \
                all(isinstance(x, Val) for x in a.args + b.args):
            yield from self._eq_seq(list(zip(a.args, b.args)), st)      # equal patterns and flags: equal regexes
            return
        k = tuple(sorted((a, b), key=repr))
        yield from self._fork_fact(("==",) + k, st)

    def _str_distinct(self, a, b):
        pa = a.parts if isinstance(a, Str) else (a.v,)
        pb = b.parts if isinstance(b, Str) else (b.v,)
        if not all(isinstance(p, str) for p in pa + pb if not isinstance(p, Val)):
            return True
        words = lambda ps: all(isinstance(p, str) or (isinstance(p, Sym) and "word" in p.flags) for p in ps)
        return words(pa) and words(pb)     # distinct normal forms of words & separators

    def _eq_seq(self, pairs, st):
        if not pairs:
            yield st, True
            return
        for s, b in self.compare_eq(pairs[0][0], pairs[0][1], st):
            if not b:
                yield s, False
            else:
                yield from self._eq_seq(pairs[1:], s)

    # linear arithmetic
    def lin(self, v, st):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Const) and isinstance(v.v, (int, bool)):
            return Lin((), int(v.v))
        if isinstance(v, (Sym, App)):
            val = st.facts.get(("val", v))
            if val is not None:
                return self.lin(val, st)
            ty = self.types(v, st)
            if ty is not None and ty <= T.NUMERIC:
                return Lin(((v, 1),), 0)
        return None

    def mklin(self, l):
        if not l.terms:
            return Const(l.c)
        if len(l.terms) == 1 and l.terms[0][1] == 1 and l.c == 0:
            return l.terms[0][0]
        return l

    def lin_sub(self, a, b, st):
        x, y = self.lin(a, st), self.lin(b, st)
        if x is None or y is None:
            return None
        return self.lin_comb(x, y, -1)

    @staticmethod
    def lin_comb(x, y, k):
        d = dict(x.terms)
        for t, c in y.terms:
            d[t] = d.get(t, 0) + k * c
        return Lin(d.items(), x.c + k * y.c)

    def _canon(self, l):
        """Linear form without constant, first coefficient positive -> (key, sign)."""
        sign = 1 if l.terms[0][1] > 0 else -1
        return tuple((t, sign * k) for t, k in l.terms), sign

    def bounds(self, l, st):
        if not l.terms:
            return l.c, l.c
        key, sign = self._canon(l)
        lo, hi = st.facts.get(("range", key), (None, None))
        if lo is None or hi is None:
            # sum of the individual bounds
            slo = shi = 0
            for t, k in key:
                tl, th = st.facts.get(("range", ((t, 1),)), (None, None))
                if tl is None and "nonneg" in getattr(t, "flags", ()):
                    tl = 0
                if k < 0:
                    tl, th = th, tl
                slo = None if slo is None or tl is None else slo + k * tl
                shi = None if shi is None or th is None else shi + k * th
            lo = slo if lo is None else lo
            hi = shi if hi is None else hi
        if sign < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return (None if lo is None else lo + l.c), (None if hi is None else hi + l.c)

    def constrain(self, l, lo, hi, st):
        """Record lo <= l <= hi."""
        if not l.terms:
            return
        key, sign = self._canon(l)
        lo = None if lo is None else lo - l.c
        hi = None if hi is None else hi - l.c
        if sign < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        olo, ohi = st.facts.get(("range", key), (None, None))
        lo = olo if lo is None else lo if olo is None else max(lo, olo)
        hi = ohi if hi is None else hi if ohi is None else min(hi, ohi)
        st.facts[("range", key)] = (lo, hi)

    def compare_lt(self, a, b, orequal, st):
        va, vb = st.facts.get(("val", a)), st.facts.get(("val", b))
        a, b = va or a, vb or b
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                yield st, bool(a.v <= b.v if orequal else a.v < b.v)
            except TypeError:
                yield st, False
            return
        d = self.lin_sub(a, b, st)
        if d is not None:
            lim = 0 if orequal else -1            # a-b <= lim
            if not d.terms:
                yield st, d.c <= lim
                return
            lo, hi = self.bounds(d, st)
            if hi is not None and hi <= lim:
                yield st, True
                return
            if lo is not None and lo > lim:
                yield st, False
                return
            s = st.fork()
            self.constrain(d, None, lim, s)
            yield s, True
            s = st.fork()
            self.constrain(d, lim + 1, None, s)
            yield s, False
            return
        if a == b:
            yield st, orequal
            return
        if isinstance(a, (Tup, Ref)) or isinstance(b, (Tup, Ref)) or isinstance(a, App) and a.op == "cmpkey":
            from . import models
            r = models.order(self, ast.LtE if orequal else ast.Lt, a, b, st, self.topctx(), None)
            if r is not None:
                for s, t in r:
                    if not isinstance(t, Raised):
                        yield from self.truth(t, s)
                return
        yield from self._fork_fact(("<=" if orequal else "<", a, b), st)

    # ------------------------------------------------------------------ writes
    def write(self, st, target, how, key, value, node, ctx):
        st.over.pop((target, "sorted", None), None)
        st.event("write", target, how, key, value, self.loc(ctx, node) if node is not None else "?", self.where(ctx), self.origin(target, st))

    def origin(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.oid].origin
        while isinstance(v, App):
            if v.op in ("attr", "item", "elem", "get", "key", "view", "index", "asarray", "m:squeeze", "m:reshape"):
                v = v.args[0]
            elif v.op == "deepcopy":
                return "fresh"
            else:
                return "opaque:" + v.op
        if isinstance(v, Sym):
            return "input:" + v.name
        if isinstance(v, Ref):
            return st.heap[v.oid].origin
        if isinstance(v, Ext):
            return "ext:" + v.name
        return "const"

    # ------------------------------------------------------------------ attribute access
    def find_class(self, v, st):
        """User ClassInfo of a value, if definitely known."""
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                return o.cls.info
            if isinstance(o, CopyO):
                return self.find_class(o.base, st)
            return None
        if isinstance(v, Tup) and v.cls is not None:
            return v.cls
        if isinstance(v, (Sym, App)):
            ty = self.types(v, st)
            if ty is not None and len(ty) == 1:
                return self.prog._user.get(next(iter(ty)))
        return None

    def getattr_(self, v, name, st, ctx, node, default=None):
        """Yield (state, value|Raised)."""
        if isinstance(v, SliceV) and name in ("start", "stop", "step"):
            yield st, {"start": v.lo, "stop": v.hi, "step": v.step}[name]
            return
        if isinstance(v, ModV):
            if v.name in self.prog.modules:
                f = st.frames.get(self.prog.modules[v.name].fid) or {}
                if name in f:
                    yield st, f[name]
                    return
                if self.prog.find(v.name + "." + name):
                    self.prog.load(v.name + "." + name)
                    yield st, ModV(v.name + "." + name)
                    return
                yield self.raise_new(st, "AttributeError", (Const(name),))
                return
        if isinstance(v, Ext):
            if name == "__name__":
                yield st, Const(v.name.rsplit(".", 1)[-1])
                return
            ov = st.over.get((v, "attr", name))
            if ov is None and _missing(v.name, name):
                yield self.raise_new(st, "AttributeError", (Const("module %r has no attribute %r" % (v.name, name)),))
                return
            if ov is None and v.name + "." + name in SHIMS:
                st = st.fork()
                yield st, self.shim(v.name + "." + name, st)
                return
            yield st, ov if ov is not None else _ext_const(v.name + "." + name) or Ext(v.name + "." + name)
            return
        if isinstance(v, ClsV):
            if name in ("__name__", "__qualname__"):
                yield st, Const(v.info.name)
                return
            if name == "__dict__":
                yield st, App("attr", (v, name))
                return
            if name == "_fields" and v.info.nt():
                yield st, Tup([Const(f) for f in v.info.nt().nt_fields])
                return
            if name in ("__mro__", "__bases__"):
                cs = [ClsV(c) if isinstance(c, ClassInfo) else c for c in (v.info.mro() if name == "__mro__" else v.info.bases)]
                if Ext("builtins.object") not in cs and (name == "__mro__" or not cs):
                    cs.append(Ext("builtins.object"))
                yield st, Tup(cs)
                return
            if name == "__module__":
                yield st, Const(v.info.module.name)
                return
            a = v.info.lookup(name)
            dg = self.descriptor(a, st, "__get__")
            if dg is not None:
                yield from self.call(Bound(dg, a), (NONE, v), (), st, ctx, node)
                return
            if a is None:
                if name == "__new__" and v.info.nt():
                    yield st, BMeth(v, "__new__")
                    return
                if name in ("_make",) and v.info.nt():
                    yield st, BMeth(v, name)
                    return
                bb = [c for c in v.info.mro() if isinstance(c, Ext)]
                if bb or name in ("__new__", "__init__", "__doc__"):
                    yield st, BMeth(v, name)
                    return
                yield self.raise_new(st, "AttributeError", (Const(name),))
                return
            if isinstance(a, StaticV):
                yield st, Bound(a.fn, v) if a.is_cls else a.fn
                return
            yield st, a
            return
        if isinstance(v, FuncV):
            if name in ("__name__", "__qualname__") and (v, "attr", name) not in st.over:
                yield st, Const(v.info.name)
                return
            if name == "__doc__" and (v, "attr", name) not in st.over:
                yield st, App("attr", (v, "__doc__"))
                return
            yield st, st.over.get((v, "attr", name)) or App("attr", (v, name))
            return
        if isinstance(v, SuperV):
            ci = self.find_class(v.self_, st) or (v.self_.info if isinstance(v.self_, ClsV) else None) or v.cls
            a = ci.lookup(name, start=v.cls) if v.cls in ci.mro() else v.cls.lookup(name, start=v.cls)
            if a is not None and not isinstance(a, tuple):
                if isinstance(a, PropV):
                    yield from self.call(a.fget, (v.self_,), (), st, ctx, node)
                elif isinstance(a, StaticV):
                    yield st, Bound(a.fn, v.self_) if a.is_cls else a.fn
                else:
                    yield st, a if name == "__new__" else Bound(a, v.self_)
                return
            yield st, BMeth(v, name)
            return
        if isinstance(v, Tup) and v.cls is not None:
            a = v.cls.lookup(name)
            if isinstance(a, tuple):
                yield st, v.items[a[1]]
                return
            if isinstance(a, (FuncV,)):
                yield st, Bound(a, v)
                return
            if isinstance(a, PropV):
                yield from self.call(a.fget, (v,), (), st, ctx, node)
                return
            if name == "_fields":
                yield st, Tup([Const(f) for f in v.cls.nt().nt_fields])
                return
            yield st, BMeth(v, name)
            return
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, InstO):
                yield from self._inst_getattr(v, o, name, st, ctx, node)
                return
            if isinstance(o, CopyO):
                ov = st.over.get((v, "attr", name))
                if ov is not None:
                    yield st, ov
                    return
                ci = self.find_class(v, st)
                a = ci.lookup(name) if ci else None
                if isinstance(a, FuncV):
                    yield st, Bound(a, v)
                    return
                if isinstance(a, PropV):
                    yield from self.call(a.fget, (v,), (), st, ctx, node)
                    return
                yield st, App("attr", (o.base, name))
                return
            if isinstance(o, ArrO):
                from . import npmodel
                r = npmodel.arr_attr(self, v, o, name, st)
                if r is not None:
                    yield st, r
                    return
            if isinstance(o, (DictO, ListO)) and name not in self.cfg.mstubs and T.no_attr(o.tname, name):
                yield self.raise_new(st, "AttributeError", (Const(name),))
                return
            yield st, BMeth(v, name)
            return
        if isinstance(v, (Sym, App)):
            ov = st.over.get((v, "attr", name))
            if ov is not None:
                yield st, ov
                return
            if v.ty and all(T.no_attr(t, name) for t in self.types(v, st) or ("?",)):
                yield self.raise_new(st, "AttributeError", (Const(name),))
                return
            if isinstance(v, App) and v.op == "re" and name == "pattern":
                yield st, v.args[0]
                return
            if isinstance(v, App) and v.op == "re" and name == "flags":
                from . import models
                fl = models.re_flags(v.args[1])
                try:
                    fl = fl if fl is None else _re.compile(v.args[0].v if isinstance(v.args[0], Const) else "", fl).flags
                except (_re.error, TypeError):
                    fl = None
                yield st, App("attr", (v, name), "int") if fl is None else Const(fl)
                return
            ci = self.find_class(v, st)
            if ci is not None:
                a = ci.lookup(name)
                if isinstance(a, PropV):
                    yield from self.call(a.fget, (v,), (), st, ctx, node)
                    return
                if isinstance(a, StaticV):
                    yield st, Bound(a.fn, ClsV(ci)) if a.is_cls else a.fn
                    return
                if isinstance(a, FuncV):
                    yield st, Bound(a, v)
                    return
            ty = self.types(v, st)
            if ty is not None and len(ty) == 1 and next(iter(ty)) in T.BUILTIN_TYPES and name not in ("args",):
                yield st, BMeth(v, name)
                return
            term = App("attr", (v, name))
            yield st, term
            for e in self.can_catch(ctx, ["AttributeError"]):
                if self.cfg.raise_filter is None or self.cfg.raise_filter("attr", (v, name), node):
                    key = ("hasattr", v, name)
                    if key not in st.facts:
                        yield self.raise_new(st, e, (Const(name),))
            return
        if isinstance(v, Bound):
            if name in ("__name__", "__func__", "__self__"):
                yield st, v.self_ if name == "__self__" else v.fn if name == "__func__" else Const(v.fn.info.name)
                return
        if isinstance(v, Lin) or isinstance(v, (Const, Str, Tup, BMeth, SliceV, Partial)):
            if isinstance(v, Const) and v.v is None and not name.startswith("__"):
                yield self.raise_new(st, "AttributeError", (Const("NoneType." + name),))
                return
            if isinstance(v, Const) and isinstance(v.v, (int, float, complex)) and name in ("real", "imag", "numerator", "denominator") and hasattr(v.v, name):
                yield st, Const(getattr(v.v, name))
                return
            if isinstance(v, Const) and not hasattr(v.v, name):
                yield self.raise_new(st, "AttributeError", (Const(name),))
                return
            if isinstance(v, Tup) and not hasattr(tuple, name) or isinstance(v, Str) and not hasattr(str, name):
                yield self.raise_new(st, "AttributeError", (Const(name),))
                return
            yield st, BMeth(v, name)
            return
        yield st, App("attr", (v, name))

    def descriptor(self, a, st, name):
        """The method of a class attribute that is a descriptor."""
        if isinstance(a, Ref):
            o = st.heap.get(a.oid)
            if isinstance(o, InstO) and isinstance(o.cls, ClsV):
                m = o.cls.info.lookup(name)
                return m if isinstance(m, FuncV) else None
        return None

    def dict_get(self, d, key, st):
        """Definite lookup of a constant key in a DictO -> value or None."""
        for k, x in d.items:
            if k == key:
                return x
        return None

    def _inst_getattr(self, v, o, name, st, ctx, node):
        ci = o.cls.info if isinstance(o.cls, ClsV) else None
        if name == "__dict__":
            yield st, Ref(o.dict)
            return
        if name == "__class__":
            yield st, o.cls
            return
        if name in ("__cause__", "__traceback__", "__suppress_context__") and ("cause", v) not in st.facts and o.origin == "fresh" and (T.is_exc_class(ci) if ci else T.clsname(o.cls) in T.EXC):
            yield st, FALSE if name == "__suppress_context__" else App("attr", (v, name)) if name == "__traceback__" else NONE
            return
        if name in ("__cause__", "__context__") and ("cause", v) in st.facts:
            c, x = st.facts[("cause", v)]
            yield st, (c if name == "__cause__" else x) or NONE
            return
        if ci:
            if ci.lookup("__getattribute__") is not None:
                raise Undecided("__getattribute__")
            a = ci.lookup(name)
            if isinstance(a, PropV) and not a.cached:
                for s, r in self.call(a.fget, (v,), (), st, ctx, node):
                    yield s, r
                return
            dg = self.descriptor(a, st, "__get__")
            if dg is not None and self.descriptor(a, st, "__set__") is not None:
                yield from self.call(Bound(dg, a), (v, o.cls), (), st, ctx, node)
                return
            x = self.dict_get(st.heap[o.dict], Const(name), st)
            if x is not None:
                yield st, x
                return
            if dg is not None:
                yield from self.call(Bound(dg, a), (v, o.cls), (), st, ctx, node)
                return
            if isinstance(a, PropV):
                for s, r in self.call(a.fget, (v,), (), st, ctx, node):
                    if not isinstance(r, Raised):
                        s = s.fork()
                        d = s.heap[s.heap[v.oid].dict]
                        s.heap[s.heap[v.oid].dict] = d.repl(items=self._put(d.items, Const(name), r))
                    yield s, r
                return
            if isinstance(a, StaticV):
                yield st, Bound(a.fn, o.cls) if a.is_cls else a.fn
                return
            if isinstance(a, FuncV):
                yield st, Bound(a, v)
                return
            if a is not None and not isinstance(a, tuple):
                yield st, a
                return
        else:
            x = self.dict_get(st.heap[o.dict], Const(name), st)
            if x is not None:
                yield st, x
                return
        bb = ci.builtin_base() if ci else T.clsname(o.cls)
        if bb and T.builtin_has(bb, name):
            yield st, BMeth(v, name)
            return
        d = st.heap[o.dict]
        if d.open:
            term = App("attr", (d.base if d.base is not None else v, name))
            yield st, term
            return
        if ci:
            ga = ci.lookup("__getattr__")
            if ga is not None:
                yield from self.call(Bound(ga, v), (Const(name),), (), st, ctx, node)
                return
        yield self.raise_new(st, "AttributeError", (Const(name),))

    def setattr_(self, v, name, value, st, ctx, node):
        """Yield (state, None|Raised)."""
        ci = self.find_class(v, st)
        if ci is not None and not isinstance(v, Tup):
            sa = ci.lookup("__setattr__")
            if sa is not None:
                yield from self._discard(self.call(Bound(sa, v), (Const(name), value), (), st, ctx, node))
                return
        yield from self.raw_setattr(v, name, value, st, ctx, node)

    def _discard(self, it):
        for s, r in it:
            yield s, (r if isinstance(r, Raised) else None)

    def raw_setattr(self, v, name, value, st, ctx, node):
        ci = self.find_class(v, st)
        if ci is not None:
            a = ci.lookup(name)
            if isinstance(a, PropV) and not a.cached:
                if a.fset is None:
                    yield self.raise_new(st, "AttributeError", (Const(name),))
                else:
                    yield from self._discard(self.call(a.fset, (v, value), (), st, ctx, node))
                return
            ds = self.descriptor(a, st, "__set__")
            if ds is not None:
                yield from self._discard(self.call(Bound(ds, a), (v, value), (), st, ctx, node))
                return
        st = st.fork()
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, InstO):
                self.write(st, v, "setattr", name, value, node, ctx)
                if name == "__dict__":
                    if isinstance(value, Ref):
                        st.heap[v.oid] = o.repl(dict=value.oid)
                    else:
                        raise Undecided("__dict__ := opaque")
                else:
                    d = st.heap[o.dict]
                    st.heap[o.dict] = d.repl(items=self._put(d.items, Const(name), value))
                yield st, None
                return
            if isinstance(o, CopyO):
                self.write(st, v, "setattr", name, value, node, ctx)
                st.over[(v, "attr", name)] = value
                yield st, None
                return
        if isinstance(v, ClsV):
            self.write(st, v, "setattr", name, value, node, ctx)
            if ctx.info is None:
                v.info.attrs[name] = value
            yield st, None
            return
        if isinstance(v, (FuncV, BMeth)):
            # e.g. Cls.__new__.__defaults__ = ... at module level
            if name == "__defaults__" and isinstance(value, Tup):
                if isinstance(v, BMeth) and isinstance(v.obj, ClsV) and v.obj.info.nt():
                    v.obj.info.nt().nt_defaults = tuple(value.items)
                elif isinstance(v, FuncV):
                    v.defaults = tuple(value.items)
            else:
                st.over[(v, "attr", name)] = value
            yield st, None
            return
        if isinstance(v, ModV) and v.name in self.prog.modules:
            fid = self.prog.modules[v.name].fid
            self.write(st, v, "setattr", name, value, node, ctx)
            st.setvar(fid, name, value)
            yield st, None
            return
        self.write(st, v, "setattr", name, value, node, ctx)
        if isinstance(v, (Sym, App, Ext)):
            st.over[(v, "attr", name)] = value
        yield st, None

    @staticmethod
    def _put(items, k, v):
        out, done = [], False
        for k2, v2 in items:
            if k2 == k:
                out.append((k2, v))
                done = True
            else:
                out.append((k2, v2))
        if not done:
            out.append((k, v))
        return tuple(out)

    # ------------------------------------------------------------------ calls
    def topctx(self):
        m = next(iter(self.prog.modules.values()))
        return Ctx(m.fid, None, m)

    def call(self, fn, args, kwargs, st, ctx, node):
        """Yield (state, value|Raised). args: tuple of Val; kwargs: tuple of (name, Val); name None = opaque **kw."""
        from . import models
        self.tick()
        args, kwargs = tuple(args), tuple(kwargs)
        if isinstance(fn, Partial):
            kw = dict(fn.kwargs)
            kw.update(dict(kwargs))
            yield from self.call(fn.fn, fn.args + args, tuple(kw.items()), st, ctx, node)
            return
        if isinstance(fn, Bound):
            yield from self.call(fn.fn, (fn.self_,) + args, kwargs, st, ctx, node)
            return
        if isinstance(fn, StaticV):
            yield from self.call(fn.fn, args, kwargs, st, ctx, node)
            return
        if isinstance(fn, FuncV):
            yield from self.call_func(fn, args, kwargs, st, ctx, node)
            return
        if isinstance(fn, ClsV):
            yield from self.instantiate(fn, args, kwargs, st, ctx, node)
            return
        if isinstance(fn, Ext):
            if fn.name == "oracle.unmodelled":
                raise Undecided("what isn't modelled is used: %s" % ", ".join(show(a, st) for a in args))
            stub = self.cfg.stubs.get(fn.name)
            if stub:
                yield from stub(self, st, args, kwargs, ctx, node)
                return
            yield from models.call_ext(self, fn.name, args, kwargs, st, ctx, node)
            return
        if isinstance(fn, BMeth):
            yield from models.call_method(self, fn.obj, fn.name, args, kwargs, st, ctx, node)
            return
        if isinstance(fn, App) and fn.op == "attr":
            yield from models.call_method(self, fn.args[0], fn.args[1], args, kwargs, st, ctx, node)
            return
        if isinstance(fn, Ref):
            o = st.heap[fn.oid]
            if isinstance(o, InstO) and isinstance(o.cls, ClsV) and o.cls.info.lookup("__call__"):
                yield from self.call(Bound(o.cls.info.lookup("__call__"), fn), args, kwargs, st, ctx, node)
                return
        if isinstance(fn, Const) and fn.v is None:
            yield self.raise_new(st, "TypeError", (Const("not callable"),))
            return
        yield from models.opaque_call(self, fn, args, kwargs, st, ctx, node)

    def bind(self, fn, args, kwargs, st):
        """Bind arguments -> dict or None when they do not fit the signature."""
        a = fn.info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env, extra = {}, []
        star = None
        for i, v in enumerate(args):
            if isinstance(v, App) and v.op == "*":
                star = v
                extra.append(v)
                continue
            if i < len(pos) and star is None:
                env[pos[i]] = v
            else:
                extra.append(v)
        if extra and star is None and not a.vararg:
            return None
        kwonly = [x.arg for x in a.kwonlyargs]
        kw = []
        kwstar = None
        for k, v in kwargs:
            if k is None:
                kwstar = v
                continue
            if k in pos[len(a.posonlyargs):] or k in kwonly:
                if k in env:
                    return None
                env[k] = v
            elif a.kwarg:
                kw.append((k, v))
            else:
                return None
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - nd)
                if star is not None:
                    env[p] = App("stararg", (star.args[0], p))
                elif j >= 0:
                    env[p] = fn.defaults[j]
                elif kwstar is not None:
                    env[p] = App("kwarg", (kwstar, p))
                else:
                    return None
        kd = dict(fn.kwdefaults)
        for p in kwonly:
            if p not in env:
                if p in kd:
                    env[p] = kd[p]
                elif kwstar is not None:
                    env[p] = App("kwarg", (kwstar, p))
                else:
                    return None
        if a.vararg:
            env[a.vararg.arg] = extra[0].args[0] if star is not None and len(extra) == 1 else Tup(extra)
        if a.kwarg:
            if kwstar is not None and not kw:
                env[a.kwarg.arg] = ("**", kw, kwstar)
            else:
                env[a.kwarg.arg] = ("**", kw, kwstar)
        return env

    def call_func(self, fn, args, kwargs, st, ctx, node):
        info = fn.info
        for key in (info.qualname, info.module.name + ":" + info.qualname):
            stub = self.cfg.stubs.get(key)
            if stub:
                r = stub(self, st, args, kwargs, ctx, node)
                if r is not None:
                    yield from r
                    return
        env = self.bind(fn, args, kwargs, st)
        if env is None:
            yield self.raise_new(st, "TypeError", (Const("bad call of %s" % info.qualname),))
            return
        if ctx.stack.count(info) > self.cfg.rec_k:
            if not self.cfg.rec_cut:
                raise Undecided("recursion of %s deeper than %d" % (info.qualname, self.cfg.rec_k))
            self.rec_cuts += 1
            st = st.fork()
            st.event("rec-cut", info.qualname)
            yield st, App("rec", (info.qualname, tuple(args), st.fresh()))
            return
        if len(ctx.stack) > self.cfg.max_depth:
            raise Undecided("call depth")
        st = st.fork()
        fid = st.fresh()
        for k, v in list(env.items()):
            if isinstance(v, tuple):
                _, kw, star = v
                env[k] = st.alloc(DictO([(Const(a), b) for a, b in kw], open=star is not None, base=star))
        env["%parent"] = fn.frame
        st.frames[fid] = env
        self.funcs.add((info.module.name, info.qualname))
        memo = None
        if "cache" in getattr(st.over.get((fn, "attr", "%decorated")), "v", ""):
            memo = ("memo", fn, args, kwargs)
            if memo in st.facts:
                yield st, st.facts[memo]
                return
        selfv = args[0] if args else None
        nctx = Ctx(fid, info, info.module, None, ctx.stack + (info,), ctx.trys, fn.cls, selfv)
        if info.is_gen:
            yield st, st.alloc(IterO(("gen", nctx)))
            return
        if info.is_lambda:
            yield from self.eval(info.node.body, st, nctx)
            return
        for s, sig in self.block(info.node.body, st, nctx):
            if memo is not None and (sig is None or sig[0] == "return"):
                s = s.fork()
                s.facts[memo] = NONE if sig is None else sig[1]
            if sig is None:
                yield s, NONE
            elif sig[0] == "return":
                yield s, sig[1]
            elif sig[0] == "raise":
                yield s, Raised(sig[1])
            elif sig[0] == "abort":
                yield s, Raised(abort=sig[1])
            else:
                raise Undecided("stray " + sig[0])

    def instantiate(self, cls, args, kwargs, st, ctx, node):
        from . import models
        info = cls.info
        stub = self.cfg.stubs.get(info.name) or self.cfg.stubs.get(info.module.name + ":" + info.name)
        if stub:
            r = stub(self, st, args, kwargs, ctx, node)
            if r is not None:
                yield from r
                return
        new = info.lookup("__new__")
        if isinstance(new, StaticV):
            new = new.fn
        if isinstance(new, FuncV):
            for s, v in self.call(new, (cls,) + args, kwargs, st, ctx, node):
                if isinstance(v, Raised):
                    yield s, v
                    continue
                if info.lookup("__init__") and self.find_class(v, s) is info:
                    yield from self._init(v, info, args, kwargs, s, ctx, node)
                else:
                    yield s, v
            return
        if info.nt():
            yield from self.nt_new(info, args, kwargs, st)
            return
        bb = info.builtin_base()
        if bb in ("dict", "list", "set", "frozenset", "OrderedDict", "defaultdict", "deque", "Counter", "UserDict", "UserList", "IntEnum", "Flag", "IntFlag", "int", "float"):
            raise Undecided("instance of a subclass of %s" % bb)
        if bb == "Enum":
            yield from models.enum_call(self, info, args, st)
            return
        st = st.fork()
        d = st.alloc(DictO())
        v = st.alloc(InstO(cls, d.oid, strval=(args[0] if args else Const("")) if bb == "str" else None))
        if T.is_exc_class(info):
            st.heap[d.oid] = st.heap[d.oid].repl(items=((Const("args"), Tup(args)),))
        if info.lookup("__init__"):
            yield from self._init(v, info, args, kwargs, st, ctx, node)
        else:
            yield st, v

    def _init(self, v, info, args, kwargs, st, ctx, node):
        init = info.lookup("__init__")
        for s, r in self.call(Bound(init, v), args, kwargs, st, ctx, node):
            yield s, (r if isinstance(r, Raised) else v)

    def nt_new(self, info, args, kwargs, st, cls=None):
        ntc = info.nt()
        fields = ntc.nt_fields
        vals = dict(zip(fields, args))
        if len(args) > len(fields):
            yield self.raise_new(st, "TypeError", (Const("too many args"),))
            return
        for k, v in kwargs:
            if k is None:
                # **opaque: unknown fields come from it
                for f in fields:
                    if f not in vals:
                        vals[f] = App("kwarg", (v, f))
                continue
            if k not in fields or k in vals:
                yield self.raise_new(st, "TypeError", (Const("bad field " + k),))
                return
            vals[k] = v
        nd = len(ntc.nt_defaults)
        for i, f in enumerate(fields):
            if f not in vals:
                j = i - (len(fields) - nd)
                if j < 0:
                    yield self.raise_new(st, "TypeError", (Const("missing field " + f),))
                    return
                vals[f] = ntc.nt_defaults[j]
        yield st, Tup([vals[f] for f in fields], cls or info)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, ctx):
        """Yield (state, Val|Raised)."""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s at %s" % (type(e).__name__, self.loc(ctx, e)))
        return m(e, st, ctx)

    def evals(self, es, st, ctx):
        """Evaluate a list of expressions left to right. Yield (state, tuple|Raised)."""
        if not es:
            yield st, ()
            return
        for s, v in self.eval(es[0], st, ctx):
            if isinstance(v, Raised):
                yield s, v
                continue
            if len(es) == 1:
                yield s, (v,)
                continue
            for s2, vs in self.evals(es[1:], s, ctx):
                yield s2, (vs if isinstance(vs, Raised) else (v,) + vs)

    def e_Constant(self, e, st, ctx):
        yield st, Const(e.value)

    def e_Name(self, e, st, ctx):
        yield self.lookup_name(e.id, st, ctx, e)

    def lookup_name(self, name, st, ctx, node):
        fid = ctx.fid
        info = ctx.info
        if info is not None and name in info.globals_:
            fid = ctx.module.fid
        first = True
        while fid is not None:
            f = st.frames[fid]
            if name in f:
                return st, f[name]
            if first and info is not None and name in info.locals and "%comp" not in f:
                return self.raise_new(st, "UnboundLocalError", (Const(name),), node, ctx)
            if "%comp" not in f:
                first = False
            fid = f.get("%parent")
        f = st.frames[ctx.module.fid]
        if name in f:
            return st, f[name]
        if name in BUILTIN_NAMES:
            if name == "True":
                return st, TRUE
            return st, Ext("builtins." + name)
        return self.raise_new(st, "NameError", (Const(name),), node, ctx)

    def e_NamedExpr(self, e, st, ctx):
        for s, v in self.eval(e.value, st, ctx):
            if not isinstance(v, Raised):
                s = s.fork()
                s.setvar(ctx.fid, e.target.id, v)
            yield s, v

    def e_Attribute(self, e, st, ctx):
        for s, v in self.eval(e.value, st, ctx):
            if isinstance(v, Raised):
                yield s, v
            else:
                yield from self.getattr_(v, self.mangle(e.attr, ctx), s, ctx, e)

    def mangle(self, name, ctx):
        if name.startswith("__") and not name.endswith("__") and ctx.cls is not None:
            return "_%s%s" % (ctx.cls.name.lstrip("_"), name)
        return name

    def e_Tuple(self, e, st, ctx):
        yield from self._seq(e.elts, st, ctx, lambda s, vs: (s, Tup(vs)))

    def _expand_star(self, v, st, ctx, node):
        """Yield (state, list of Val|Raised) for *v."""
        ty = self.types(v, st)
        if ty is not None and ty <= (T.NUMS | {"NoneType", "function"}):
            yield self.raise_new(st, "TypeError", (Const("not iterable"),))
            return
        if isinstance(v, Tup):
            yield st, list(v.items)
            return
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO) and not o.open:
                yield st, list(o.items)
                return
            if isinstance(o, ArrO):
                from . import npmodel
                yield st, npmodel.rows(self, v, o, st)
                return
            if isinstance(o, IterO) or isinstance(o, (ListO, DictO)):
                yield from self.collect(v, st, ctx, node)
                return
        if isinstance(v, App) and v.op == "view" and isinstance(v.args[0], Ref) and isinstance(st.heap[v.args[0].oid], DictO) and not st.heap[v.args[0].oid].open:
            from . import models
            yield from models.materialise(self, v, st, ctx, node, self.cfg.loop_k)
            return
        if isinstance(v, (Sym, App)):
            n = st.facts.get(("count", v))
            if n is not None:
                yield st, [App("elem", (v, i)) for i in range(n)]
                return
            yield st, [App("*", (v,))]
            return
        if isinstance(v, Const) and isinstance(v.v, str):
            yield st, [Const(c) for c in v.v]
            return
        if isinstance(v, Const) and v.v is None:
            yield self.raise_new(st, "TypeError", (Const("* of None"),))
            return
        yield st, [App("*", (v,))]

    def _seq(self, elts, st, ctx, make):
        for s, vs in self._seq_raw(elts, st, ctx):
            if isinstance(vs, Raised):
                yield s, vs
            else:
                yield make(s, vs)

    def _seq_raw(self, elts, st, ctx):
        if not elts:
            yield st, []
            return
        e = elts[0]
        src = e.value if isinstance(e, ast.Starred) else e
        for s, v in self.eval(src, st, ctx):
            if isinstance(v, Raised):
                yield s, v
                continue
            if isinstance(e, ast.Starred):
                heads = self._expand_star(v, s, ctx, e)
            else:
                heads = [(s, [v])]
            for s1, hs in heads:
                if isinstance(hs, Raised):
                    yield s1, hs
                    continue
                for s2, rest in self._seq_raw(elts[1:], s1, ctx):
                    yield s2, (rest if isinstance(rest, Raised) else hs + rest)

    def mklist(self, s, vs, tname="list"):
        s = s.fork()
        star = [v for v in vs if isinstance(v, App) and v.op == "*"]
        vs2 = [v for v in vs if not (isinstance(v, App) and v.op == "*")]
        return s, s.alloc(ListO(vs2, open=bool(star), base=star[0].args[0] if star else None, tname=tname))

    def e_List(self, e, st, ctx):
        yield from self._seq(e.elts, st, ctx, self.mklist)

    def e_Set(self, e, st, ctx):
        yield from self._seq(e.elts, st, ctx, lambda s, vs: self.mklist(s, self.dedup(vs), "set"))

    @staticmethod
    def dedup(vs):
        out = []
        for v in vs:
            if v not in out:
                out.append(v)
        return out

    def e_Dict(self, e, st, ctx):
        def rec(pairs, st, items, opens):
            if not pairs:
                s = st.fork()
                yield s, s.alloc(DictO(items, open=bool(opens), base=opens[0] if len(opens) == 1 else None))
                return
            k, v = pairs[0]
            if k is None:
                for s, d in self.eval(v, st, ctx):
                    if isinstance(d, Raised):
                        yield s, d
                        continue
                    ts = self.types(d, s)
                    if ts and all(self.prog.isa(t, "Mapping") is False for t in ts):
                        yield self.raise_new(s, "TypeError", (Const("not a mapping"),))
                        continue
                    its, op, base = self.dict_contents(d, s)
                    new = items
                    for a, b in its:
                        new = self._put(new, a, b)
                    yield from rec(pairs[1:], s, new, opens + ([base] if op else []))
                return
            for s, (kv) in self.evals([k, v], st, ctx):
                if isinstance(kv, Raised):
                    yield s, kv
                    continue
                yield from rec(pairs[1:], s, self._put(items, kv[0], kv[1]), opens)

        yield from rec(list(zip(e.keys, e.values)), st, (), [])

    def dict_contents(self, d, st):
        """(items, open, base term) of a mapping value."""
        if isinstance(d, Ref):
            o = st.heap[d.oid]
            if isinstance(o, DictO):
                return o.items, o.open, o.base if o.base is not None else (d if o.open else None)
            if isinstance(o, CopyO):
                return self._over_items(d, st), True, o.base
        if isinstance(d, (Sym, App)):
            return self._over_items(d, st), True, d
        if isinstance(d, Tup):
            return [(p.items[0], p.items[1]) for p in d.items if isinstance(p, Tup)], False, None
        return (), True, d

    def _over_items(self, d, st):
        return tuple((k[2], v) for k, v in st.over.items() if k[0] == d and k[1] == "item" and v is not DELETED)

    def register(self, abc, concrete):
        """`collections.abc.X.register(concrete)`"""
        n = T.clsname(concrete) if isinstance(concrete, Ext) else concrete.info.name if isinstance(concrete, ClsV) else None
        if n:
            self.prog.registered.setdefault(n, set()).add(T.clsname(abc))

    def e_JoinedStr(self, e, st, ctx):
        vals = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        for s, vs in self.evals(vals, st, ctx):
            if isinstance(vs, Raised):
                yield s, vs
            else:
                yield from self.joined(list(zip(e.values, vs)), [], s, ctx)

    def joined(self, todo, parts, st, ctx):
        from . import models
        if not todo:
            yield st, mkstr(parts)
            return
        (x, v), rest = todo[0], todo[1:]
        if not isinstance(x, ast.FormattedValue):
            yield from self.joined(rest, parts + [self.tostr(v, st)], st, ctx)
            return
        kind = "repr" if x.conversion == 114 else "str"
        t = models.user_text(self, v, kind, st, ctx, x) if not x.format_spec else None
        if t is not None:
            for s, r in t:
                if isinstance(r, Raised):
                    yield s, r
                else:
                    yield from self.joined(rest, parts + [r], s, ctx)
            return
        u = self.strval(v, st)
        spec = x.format_spec.values if x.format_spec else []
        if isinstance(u, Const) and all(isinstance(p, ast.Constant) for p in spec) and (kind == "repr" or spec):
            try:
                r = Const(format(repr(u.v) if kind == "repr" else u.v, "".join(p.value for p in spec)))
            except Exception:
                r = App("repr", (v,), "str")
        elif x.format_spec or kind == "repr":
            r = App("repr", (v,), "str")
        else:
            r = self.tostr(v, st)
        yield from self.joined(rest, parts + [r], st, ctx)

    def tostr(self, v, st):
        v = self.strval(v, st)
        if isinstance(v, Const):
            return v if isinstance(v.v, str) else Const(str(v.v))
        if isinstance(v, Str):
            return v
        ty = self.types(v, st)
        if ty == frozenset(["str"]):
            return v
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], InstO):
            from . import models
            t = models.exc_text(self, v, st)
            if t is not None:
                return t
        return App("str", (v,), "str")

    def e_BoolOp(self, e, st, ctx):
        is_and = isinstance(e.op, ast.And)

        def rec(es, st):
            for s, v in self.eval(es[0], st, ctx):
                if isinstance(v, Raised) or len(es) == 1:
                    yield s, v
                    continue
                for s2, b in self.truth(v, s):
                    if b != is_and:
                        # the operand itself is the value; keep only its truth for pure boolean terms
                        yield s2, self.resolve_bool(v, b, s2)
                    else:
                        yield from rec(es[1:], s2)

        yield from rec(e.values, st)

    def resolve_bool(self, v, b, st):
        if isinstance(v, App) and v.op in ("==", "is", "<", "<=", "not", "in", "isinstance"):
            return boolv(b)
        return v

    def e_UnaryOp(self, e, st, ctx):
        for s, v in self.eval(e.operand, st, ctx):
            if isinstance(v, Raised):
                yield s, v
                continue
            if isinstance(e.op, ast.Not):
                if isinstance(v, App) and v.op in ("==", "is", "<", "<=", "in", "isinstance"):
                    yield s, App("not", (v,), "bool")
                elif isinstance(v, App) and v.op == "not":
                    for s2, b in self.truth(v.args[0], s):
                        yield s2, boolv(b)
                else:
                    for s2, b in self.truth(v, s):
                        yield s2, boolv(not b)
                continue
            if isinstance(v, Const) and isinstance(v.v, (int, float, bool)):
                yield s, Const({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v.v))
                continue
            if isinstance(e.op, ast.USub):
                l = self.lin(v, s)
                if l is not None:
                    yield s, self.mklin(self.lin_comb(Lin((), 0), l, -1))
                    continue
            if isinstance(e.op, ast.Invert):
                if isinstance(v, Ref) and isinstance(s.heap[v.oid], ArrO):
                    from . import npmodel
                    yield npmodel.logical_not(self, s.heap[v.oid], s)
                    continue
                yield s, App("~", (v,), self.types(v, s))
                continue
            yield s, App(type(e.op).__name__, (v,))

    BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

    def e_BinOp(self, e, st, ctx):
        op = self.BIN[type(e.op)]
        for s, vs in self.evals([e.left, e.right], st, ctx):
            if isinstance(vs, Raised):
                yield s, vs
            else:
                yield from self.binop(op, vs[0], vs[1], s, ctx, e)

    def addkind(self, v, st):
        """What a value may be added with, when its types tell."""
        ts = self.types(v, st)
        if not ts:
            return None
        out = set()
        for t in ts:
            ci = self.prog._user.get(t)
            if t in ("str", "tuple", "list", "dict", "NoneType"):
                out.add(t)
            elif t in ("int", "float", "bool", "complex"):
                out.add("num")
            elif ci is not None and ci.nt() is not None and not ci.lookup("__add__") and not ci.lookup("__radd__"):
                out.add("tuple")
            else:
                return None
        return out

    def binop(self, op, a, b, st, ctx, node):
        from . import models, npmodel
        va, vb = st.facts.get(("val", a)), st.facts.get(("val", b))
        a, b = va or a, vb or b
        u = models.user_binop(self, op, a, b, st, ctx, node)
        if u is not None:
            yield from u
            return
        a, b = self.strval(a, st), self.strval(b, st)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                r = models.pyop(op, a.v, b.v)
            except Exception as ex:
                yield self.raise_new(st, type(ex).__name__, (Const(str(ex)),))
                return
            yield st, Const(r)
            return
        r = npmodel.binop(self, op, a, b, st)
        if r is not None:
            yield r
            return
        if op == "%" and (isinstance(a, (Str,)) or isinstance(a, Const) and isinstance(a.v, str)):
            for s, a2, b2 in models.user_texts(self, a, b, st, ctx, node):
                yield s, a2 if isinstance(a2, Raised) else models.fmt_percent(self, a2, b2, s)
            return
        if op == "+":
            if isinstance(a, Tup) and isinstance(b, Tup):
                yield st, Tup(a.items + b.items)
                return
            ka, kb = self.addkind(a, st), self.addkind(b, st)
            if ka and kb and not ka & kb:
                yield self.raise_new(st, "TypeError", (Const("unsupported operand types"),))
                return
            sa = isinstance(a, Str) or isinstance(a, Const) and isinstance(a.v, str) or self.types(a, st) == frozenset(["str"])
            sb = isinstance(b, Str) or isinstance(b, Const) and isinstance(b.v, str) or self.types(b, st) == frozenset(["str"])
            if sa and sb:
                yield st, mkstr([a, b])
                return
            if sa or sb:
                other = b if sa else a
                to = self.types(other, st)
                if to is None:
                    yield st, mkstr([a, b])
                    return
            la, lb = self.aslist(a, st), self.aslist(b, st)
            if la is not None and lb is not None:
                s = st.fork()
                yield s, s.alloc(ListO(la[0] + lb[0], open=la[1] or lb[1], base=la[2] if la[1] else lb[2]))
                return
            if la is not None or lb is not None:
                s = st.fork()
                l, o = (la, b) if la is not None else (lb, a)
                yield s, s.alloc(ListO(l[0], open=True, base=o))
                return
            if isinstance(a, Tup) or isinstance(b, Tup):
                if isinstance(a, Tup) and not a.items:
                    yield st, b
                    return
                if isinstance(b, Tup) and not b.items:
                    yield st, a
                    return
                # tuple + opaque tuple
                its = (list(a.items) if isinstance(a, Tup) else [App("*", (a,))]) + (list(b.items) if isinstance(b, Tup) else [App("*", (b,))])
                yield st, App("tup+", its, "tuple")
                return
        if op in ("+", "-", "*"):
            la, lb = self.lin(a, st), self.lin(b, st)
            if la is not None and lb is not None:
                if op == "+":
                    yield st, self.mklin(self.lin_comb(la, lb, 1))
                    return
                if op == "-":
                    yield st, self.mklin(self.lin_comb(la, lb, -1))
                    return
                for x, y in ((la, lb), (lb, la)):
                    if not x.terms:
                        yield st, self.mklin(Lin([(t, k * x.c) for t, k in y.terms], y.c * x.c))
                        return
        if op == "*" and isinstance(a, Tup) and isinstance(b, Const) and isinstance(b.v, int):
            yield st, Tup(a.items * b.v)
            return
        if op == "*" and isinstance(a, Ref) and isinstance(b, Const) and isinstance(b.v, int):
            la = self.aslist(a, st)
            if la is not None and not la[1]:
                s = st.fork()
                yield s, s.alloc(ListO(la[0] * b.v))
                return
        if op in ("|", "&", "-", "^"):
            la, lb = self.aslist(a, st, "set"), self.aslist(b, st, "set")
            ka, kb = self.keysview(a, st), self.keysview(b, st)
            if ka is not None and (kb is not None or lb is not None or self.aslist(b, st) is not None) or la is not None and kb is not None:
                la, lb = (x if y is None else (list(y), False) for x, y in ((la, ka), (lb or self.aslist(b, st), kb)))
            if la is not None and lb is not None and not la[1] and not lb[1]:
                if op == "|":
                    r = self.dedup(la[0] + lb[0])
                elif op == "&":
                    r = [x for x in la[0] if x in lb[0]]
                elif op == "-":
                    r = [x for x in la[0] if x not in lb[0]]
                else:
                    r = [x for x in la[0] if x not in lb[0]] + [x for x in lb[0] if x not in la[0]]
                s = st.fork()
                yield s, s.alloc(ListO(r, tname="set"))
                return
        if op == "|":
            da, db = (st.heap[x.oid] if isinstance(x, Ref) else None for x in (a, b))
            if isinstance(da, DictO) and isinstance(db, DictO) and not da.open and not db.open:
                items = tuple(models.live(da.items))
                for k, x in models.live(db.items):
                    items = self._put(items, k, x)
                s = st.fork()
                yield s, s.alloc(DictO(items, tname=da.tname))
                return
        if op == "&":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and isinstance(x.v, bool):
                    yield st, y if x.v else FALSE
                    return
            if self.types(a, st) == self.types(b, st) == frozenset(["bool"]):
                yield st, App("and", (a, b), "bool")
                return
        if op == "|":
            if self.types(a, st) == self.types(b, st) == frozenset(["bool"]):
                yield st, App("or", (a, b), "bool")
                return
        ty = None
        ta, tb = self.types(a, st), self.types(b, st)
        if ta is not None and "ndarray" in ta or tb is not None and "ndarray" in tb:
            ty = "ndarray"
        elif ta is not None and ta <= T.NUMERIC and tb is not None and tb <= T.NUMERIC:
            ty = "int"
        yield st, App(op, (a, b), ty)

    def keysview(self, v, st):
        """The keys of a keys-view of a known dict."""
        if isinstance(v, App) and v.op == "view" and v.args[1] == "keys" and isinstance(v.args[0], Ref):
            its, op, base = self.dict_contents(v.args[0], st)
            return None if op else [k for k, _ in its]
        return None

    def aslist(self, v, st, tname="list"):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO) and (o.tname == tname):
                return list(o.items), o.open, o.base if o.base is not None else v
        return None

    def e_Compare(self, e, st, ctx):
        def rec(left, ops, comps, st):
            for s, r in self.eval(comps[0], st, ctx):
                if isinstance(r, Raised):
                    yield s, r
                    continue
                for s1, t in self.cmp(ops[0], left, r, s, ctx, e):
                    if isinstance(t, Raised) or len(ops) == 1:
                        yield s1, t
                        continue
                    for s2, b in self.truth(t, s1):
                        if not b:
                            yield s2, FALSE
                        else:
                            yield from rec(r, ops[1:], comps[1:], s2)

        for s, l in self.eval(e.left, st, ctx):
            if isinstance(l, Raised):
                yield s, l
            else:
                yield from rec(l, e.ops, e.comparators, s)

    def cmp(self, op, a, b, st, ctx, node):
        """Yield (state, boolean value)."""
        from . import models, npmodel
        if isinstance(op, (ast.In, ast.NotIn)):
            for s, r in models.contains(self, a, b, st, ctx, node):
                if isinstance(r, Raised):
                    yield s, r
                elif isinstance(op, ast.NotIn):
                    yield s, boolv(not r.v) if isinstance(r, Const) else App("not", (r,), "bool")
                else:
                    yield s, r
            return
        r = npmodel.cmpop(self, type(op).__name__, a, b, st)
        if r is not None:
            yield r
            return
        neg = False
        if isinstance(op, ast.Eq):
            t = App("==", (a, b), "bool")
        elif isinstance(op, ast.NotEq):
            t, neg = App("==", (a, b), "bool"), True
        elif isinstance(op, ast.Is):
            t = App("is", (a, b), "bool")
        elif isinstance(op, ast.IsNot):
            t, neg = App("is", (a, b), "bool"), True
        elif isinstance(op, ast.Lt):
            t = App("<", (a, b), "bool")
        elif isinstance(op, ast.LtE):
            t = App("<=", (a, b), "bool")
        elif isinstance(op, ast.Gt):
            t = App("<", (b, a), "bool")
        elif isinstance(op, ast.GtE):
            t = App("<=", (b, a), "bool")
        else:
            raise Undecided("compare")
        if t.op in ("<", "<=") and any(isinstance(x, (Tup, Ref)) or isinstance(x, App) and x.op == "cmpkey" for x in (a, b)):
            r = models.order(self, type(op), a, b, st, ctx, node)
            if r is not None:
                yield from r
                return
        # ndarray comparisons stay opaque arrays
        for x in (a, b) if t.op != "is" else ():
            ty = self.types(x, st)
            if ty is not None and ty == frozenset(["ndarray"]):
                yield st, App("np" + ("!" if neg else "") + t.op, t.args, "ndarray")
                return
        res = []
        g = self.truth(t, st)
        first = next(g, None)
        if first is None:
            return
        second = next(g, None)
        if second is None:
            yield first[0], boolv(first[1] != neg)
            return
        g.close()
        yield st, (App("not", (t,), "bool") if neg else t)

    def e_IfExp(self, e, st, ctx):
        for s, v in self.eval(e.test, st, ctx):
            if isinstance(v, Raised):
                yield s, v
                continue
            for s2, b in self.truth(v, s):
                yield from self.eval(e.body if b else e.orelse, s2, ctx)

    def e_Lambda(self, e, st, ctx):
        yield from self.make_func(e, st, ctx, "<lambda>")

    def make_func(self, node, st, ctx, name):
        key = id(node)
        cache = self.prog.__dict__.setdefault("_finfos", {})
        info = cache.get(key)
        if info is None:
            if ctx.info is not None:
                qual = ctx.info.qualname + ".<locals>." + name
            elif ctx.cls is not None:
                qual = ctx.cls.name + "." + name
                outer = getattr(ctx.cls, "outer", None)
                if outer:
                    qual = outer + "." + qual
            else:
                qual = name
            info = cache[key] = FuncInfo(node, ctx.module, qual)
            info._node = node
        a = node.args
        kwd = [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for s, vs in self.evals(list(a.defaults) + [d for _, d in kwd], st, ctx):
            if isinstance(vs, Raised):
                yield s, vs
                continue
            n = len(a.defaults)
            s = s.fork()
            for i, v in enumerate(vs):
                if isinstance(v, Ref) and s.heap[v.oid].origin == "fresh":
                    s.heap[v.oid] = s.heap[v.oid].repl(origin="shared:default of %s" % info.qualname)
            frame = ctx.fid if ctx.info is not None or "%comp" in s.frames[ctx.fid] or "%class" in s.frames[ctx.fid] else None
            if frame is not None and "%class" in s.frames[frame]:
                frame = s.frames[frame].get("%parent")
            if frame == ctx.module.fid:
                frame = None
            yield s, FuncV(info, frame, vs[:n], tuple((k, v) for (k, _), v in zip(kwd, vs[n:])), cls=ctx.cls)

    def e_Call(self, e, st, ctx):
        # super() and locals() need the frame
        for s, f in self.eval(e.func, st, ctx):
            if isinstance(f, Raised):
                yield s, f
                continue
            for s1, args in self._seq_raw(e.args, s, ctx):
                if isinstance(args, Raised):
                    yield s1, args
                    continue
                for s2, kws in self._kwargs(e.keywords, s1, ctx):
                    if isinstance(kws, Raised):
                        yield s2, kws
                        continue
                    if isinstance(f, Ext) and f.name == "builtins.locals":
                        s3 = s2.fork()
                        yield s3, s3.alloc(DictO([(Const(k), v) for k, v in s3.frames[ctx.fid].items() if not k.startswith("%")]))
                    elif isinstance(f, Ext) and f.name == "builtins.super":
                        if args:
                            c0, c1 = args[0], args[1] if len(args) > 1 else ctx.selfv
                            if isinstance(c0, Ext):
                                yield s2, BMeth(SuperV(ctx.cls, c1), "%super")
                                continue
                            if isinstance(c0, ClsV) and isinstance(c1, ClsV) and c0.info is not c1.info and c0.info not in c1.info.mro():
                                c0 = c1
                            if not isinstance(c0, ClsV):
                                # super(cls, Cell): the class comes as argument
                                c0 = c1 if isinstance(c1, ClsV) else ClsV(ctx.cls)
                            yield s2, SuperV(c0.info, c1)
                        else:
                            yield s2, SuperV(ctx.cls, ctx.selfv)
                    else:
                        yield from self.call(f, tuple(args), tuple(kws), s2, ctx, e)

    def _kwargs(self, kws, st, ctx):
        if not kws:
            yield st, []
            return
        k = kws[0]
        for s, v in self.eval(k.value, st, ctx):
            if isinstance(v, Raised):
                yield s, v
                continue
            if k.arg is None:
                its, op, base = self.dict_contents(v, s)
                heads = []
                for a, b in its:
                    if isinstance(a, Const) and isinstance(a.v, str):
                        heads.append((a.v, b))
                    else:
                        op, base = True, base or v
                if op:
                    heads.append((None, base if base is not None else v))
            else:
                heads = [(k.arg, v)]
            for s2, rest in self._kwargs(kws[1:], s, ctx):
                yield s2, (rest if isinstance(rest, Raised) else heads + rest)

    def e_Subscript(self, e, st, ctx):
        from . import models
        for s, vs in self.evals([e.value, e.slice], st, ctx):
            if isinstance(vs, Raised):
                yield s, vs
            else:
                yield from models.getitem(self, vs[0], vs[1], s, ctx, e)

    def e_Index(self, e, st, ctx):
        yield from self.eval(e.value, st, ctx)

    def e_Slice(self, e, st, ctx):
        parts = [p if p is not None else ast.Constant(value=None) for p in (e.lower, e.upper, e.step)]
        for s, vs in self.evals(parts, st, ctx):
            yield s, (vs if isinstance(vs, Raised) else SliceV(*vs))

    def e_Starred(self, e, st, ctx):
        yield from self.eval(e.value, st, ctx)

    def e_Yield(self, e, st, ctx):
        for s, v in (self.eval(e.value, st, ctx) if e.value is not None else [(st, NONE)]):
            if isinstance(v, Raised):
                yield s, v
                continue
            if ctx.yh is None:
                raise Undecided("yield outside iteration")
            for s2, sig in ctx.yh(s, v):
                if sig is None:
                    yield s2, NONE
                elif sig[0] == "throw":
                    yield s2, Raised(sig[1])
                else:
                    yield s2, Raised(abort=sig)

    def e_YieldFrom(self, e, st, ctx):
        for s, v in self.eval(e.value, st, ctx):
            if isinstance(v, Raised):
                yield s, v
                continue
            g = s.heap[v.oid] if isinstance(v, Ref) else None
            key = ("genret", g.src[1].fid) if isinstance(g, IterO) and g.src[0] == "gen" else None
            for s2, sig in self.iterate(v, s, ctx, lambda s1, x: ctx.yh(s1, x), e):
                if sig is None:
                    yield s2, s2.facts.get(key, NONE)
                elif sig[0] == "raise":
                    yield s2, Raised(sig[1])
                else:
                    yield s2, Raised(abort=sig)

    # comprehensions
    def _comp(self, e, st, ctx, elt_eval, emit):
        """Run generators; for each element call emit(state, value)->iter of (state, sig)."""
        st = st.fork()
        fid = st.fresh()
        st.frames[fid] = {"%parent": ctx.fid, "%comp": True}
        cctx = ctx.sub(fid=fid)

        def gens(gs, st):
            if not gs:
                for s, v in elt_eval(st, cctx):
                    if isinstance(v, Raised):
                        yield s, (("raise", v.exc) if v.abort is None else v.abort)
                    else:
                        yield from emit(s, v)
                return
            g = gs[0]

            def body(s, x):
                for s1, err in self.assign(g.target, x, s, cctx):
                    if err is not None:
                        yield s1, ("raise", err.exc)
                        continue
                    yield from conds(g.ifs, s1)

            def conds(ifs, s):
                if not ifs:
                    yield from gens(gs[1:], s)
                    return
                for s1, v in self.eval(ifs[0], s, cctx):
                    if isinstance(v, Raised):
                        yield s1, ("raise", v.exc)
                        continue
                    for s2, b in self.truth(v, s1):
                        if b:
                            yield from conds(ifs[1:], s2)
                        else:
                            yield s2, None

            for s, it in self.eval(g.iter, st, cctx):
                if isinstance(it, Raised):
                    yield s, ("raise", it.exc)
                    continue
                yield from self.iterate(it, s, cctx, body, g.iter, k=self.cfg.comp_k)

        yield from gens(e.generators, st)

    def _comp_collect(self, e, st, ctx, elt_eval, finish):
        st = st.fork()
        acc = st.fresh()
        st.frames[acc] = {"acc": ()}

        def emit(s, v):
            s = s.fork()
            s.frames[acc] = {"acc": s.frames[acc]["acc"] + (v,)}
            yield s, None

        for s, sig in self._comp(e, st, ctx, elt_eval, emit):
            if sig is None:
                yield finish(s, s.frames[acc]["acc"])
            elif sig[0] == "raise":
                yield s, Raised(sig[1])
            else:
                yield s, Raised(abort=sig)

    def e_ListComp(self, e, st, ctx):
        yield from self._comp_collect(e, st, ctx, lambda s, c: self.eval(e.elt, s, c), lambda s, vs: self.mklist(s, list(vs)))

    def e_SetComp(self, e, st, ctx):
        yield from self._comp_collect(e, st, ctx, lambda s, c: self.eval(e.elt, s, c), lambda s, vs: self.mklist(s, self.dedup(vs), "set"))

    def e_DictComp(self, e, st, ctx):
        def elt(s, c):
            for s1, vs in self.evals([e.key, e.value], s, c):
                yield s1, (vs if isinstance(vs, Raised) else Tup(vs))

        def fin(s, vs):
            items = ()
            for p in vs:
                items = self._put(items, p.items[0], p.items[1])
            s = s.fork()
            return s, s.alloc(DictO(items))

        yield from self._comp_collect(e, st, ctx, elt, fin)

    def e_GeneratorExp(self, e, st, ctx):
        st = st.fork()
        yield st, st.alloc(IterO(("genexp", e, ctx)))

    # ------------------------------------------------------------------ iteration
    def iterate(self, v, st, ctx, body, node, k=None):
        """Feed the elements of `v` to body(state, elem) -> iter of (state, sig).
        Yields (state, sig): None when exhausted, otherwise the signal of body or ('raise', exc)."""
        from . import models
        yield from models.iterate(self, v, st, ctx, body, node, k or self.cfg.loop_k)

    def collect(self, v, st, ctx, node):
        """Materialise an iterable. Yield (state, list|Raised); opaque ones contribute App('*')."""
        if isinstance(v, Tup):
            yield st, list(v.items)
            return
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                yield st, list(o.items) + ([App("*", (o.base if o.base is not None else v,))] if o.open else [])
                return
            if isinstance(o, DictO):
                yield st, [x for x, _ in o.items] + ([App("*", (o.base if o.base is not None else v,))] if o.open else [])
                return
        if isinstance(v, (Sym, App)):
            if ("count", v) in st.facts:
                yield st, [self.elem(v, i, st) for i in range(st.facts[("count", v)])]
            else:
                yield st, [App("*", (v,))]
            return
        st = st.fork()
        acc = st.fresh()
        st.frames[acc] = {"acc": ()}

        def body(s, x):
            s = s.fork()
            s.frames[acc] = {"acc": s.frames[acc]["acc"] + (x,)}
            yield s, None

        for s, sig in self.iterate(v, st, ctx, body, node):
            if sig is None:
                yield s, list(s.frames[acc]["acc"])
            elif sig[0] == "raise":
                yield s, Raised(sig[1])
            else:
                yield s, Raised(abort=sig)

    def elem(self, v, i, st):
        return App("elem", (v, i))

    def run_gen(self, o, st, ctx, body):
        """Run a generator object's code feeding `body`."""
        kind = o.src[0]
        if kind == "gen":
            gctx = o.src[1].sub(yh=lambda s, x: body(s, x), trys=ctx.trys, stack=ctx.stack + (o.src[1].info,))
            if ctx.stack.count(o.src[1].info) > self.cfg.rec_k + 1:
                if not self.cfg.rec_cut:
                    raise Undecided("recursion of %s deeper than %d" % (o.src[1].info.qualname, self.cfg.rec_k))
                self.rec_cuts += 1
                st = st.fork()
                st.event("rec-cut", o.src[1].info.qualname)
                yield st, None
                return
            for s, sig in self.block(o.src[1].info.node.body, st, gctx):
                if sig is None or sig[0] == "return":
                    if sig is not None and sig[1] != NONE:
                        s = s.fork()
                        s.facts[("genret", gctx.fid)] = sig[1]
                    yield s, None
                elif sig[0] == "abort":
                    yield s, sig[1]
                else:
                    yield s, sig
        else:
            e, ectx = o.src[1], o.src[2]
            yield from self._comp(e, st, ectx.sub(trys=ctx.trys), lambda s, c: self.eval(e.elt, s, c), body)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        """Yield (state, sig)."""
        if not stmts:
            yield st, None
            return
        for s, sig in self.stmt(stmts[0], st, ctx):
            if sig is None and len(stmts) > 1:
                yield from self.block(stmts[1:], s, ctx)
            else:
                yield s, sig

    def sigof(self, r):
        return ("abort", r.abort) if r.abort is not None else ("raise", r.exc)

    def stmt(self, n, st, ctx):
        self.tick()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Undecided("statement %s at %s" % (type(n).__name__, self.loc(ctx, n)))
        return m(n, st, ctx)

    def s_Expr(self, n, st, ctx):
        for s, v in self.eval(n.value, st, ctx):
            yield s, (self.sigof(v) if isinstance(v, Raised) else None)

    def s_Pass(self, n, st, ctx):
        yield st, None

    s_Global = s_Nonlocal = s_Pass

    def s_Return(self, n, st, ctx):
        if n.value is None:
            yield st, ("return", NONE)
            return
        for s, v in self.eval(n.value, st, ctx):
            yield s, (self.sigof(v) if isinstance(v, Raised) else ("return", v))

    def s_Break(self, n, st, ctx):
        yield st, ("break",)

    def s_Continue(self, n, st, ctx):
        yield st, ("continue",)

    def s_Assign(self, n, st, ctx):
        for s, v in self.eval(n.value, st, ctx):
            if isinstance(v, Raised):
                yield s, self.sigof(v)
            else:
                yield from self._assign_all(n.targets, v, s, ctx)

    def _assign_all(self, targets, v, st, ctx):
        if not targets:
            yield st, None
            return
        for s, err in self.assign(targets[0], v, st, ctx):
            if err is not None:
                yield s, self.sigof(err)
            else:
                yield from self._assign_all(targets[1:], v, s, ctx)

    def s_AnnAssign(self, n, st, ctx):
        if n.value is None:
            yield st, None
            return
        for s, v in self.eval(n.value, st, ctx):
            if isinstance(v, Raised):
                yield s, self.sigof(v)
            else:
                yield from self._assign_all([n.target], v, s, ctx)

    def assign(self, t, v, st, ctx):
        """Yield (state, None|Raised)."""
        if isinstance(t, ast.Name):
            st = st.fork()
            fid = ctx.fid
            if ctx.info is not None and t.id in ctx.info.globals_:
                fid = ctx.module.fid
                st.event("write", ModV(ctx.module.name), "global", t.id, v, self.loc(ctx, t), self.where(ctx), "module")
            elif ctx.info is not None and t.id in ctx.info.nonlocals:
                fid = st.frames[ctx.fid].get("%parent")
                while fid is not None and t.id not in st.frames[fid]:
                    fid = st.frames[fid].get("%parent")
                fid = fid if fid is not None else ctx.fid
            st.setvar(fid, t.id, v)
            yield st, None
        elif isinstance(t, ast.Attribute):
            for s, o in self.eval(t.value, st, ctx):
                if isinstance(o, Raised):
                    yield s, o
                else:
                    yield from self.setattr_(o, self.mangle(t.attr, ctx), v, s, ctx, t)
        elif isinstance(t, ast.Subscript):
            from . import models
            for s, ov in self.evals([t.value, t.slice], st, ctx):
                if isinstance(ov, Raised):
                    yield s, ov
                else:
                    yield from models.setitem(self, ov[0], ov[1], v, s, ctx, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            yield from self.unpack(t, v, st, ctx)
        elif isinstance(t, ast.Starred):
            yield from self.assign(t.value, v, st, ctx)
        else:
            raise Undecided("assign target")

    def unpack(self, t, v, st, ctx):
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        for s, vals in self._expand_star(v, st, ctx, t):
            if isinstance(vals, Raised):
                yield s, vals
                continue
            opaque = [x for x in vals if isinstance(x, App) and x.op == "*"]
            if opaque:
                src = opaque[0].args[0]
                if len(vals) == 1:
                    vals = [self.item_const(src, i, s) for i in range(n)] if not star else \
                        [self.item_const(src, i, s) for i in range(star[0])] + [App("rest", (src, star[0]))] + \
                        [self.item_const(src, i - n, s) for i in range(star[0] + 1, n)]
                    for e in self.can_catch(ctx, ["TypeError", "ValueError"]):
                        if self.cfg.raise_filter is None or self.cfg.raise_filter("unpack", src, t):
                            yield self.raise_new(s, e, (Const("unpack"),))
                else:
                    raise Undecided("unpack of partly known")
            elif star:
                i = star[0]
                if len(vals) < n - 1:
                    yield self.raise_new(s, "ValueError", (Const("unpack"),))
                    continue
                mid = vals[i:len(vals) - (n - 1 - i)]
                s = s.fork()
                lst = s.alloc(ListO(mid))
                vals = vals[:i] + [lst] + vals[len(vals) - (n - 1 - i):]
            elif len(vals) != n:
                yield self.raise_new(s, "ValueError", (Const("unpack"),))
                continue
            yield from self._assign_pairs(list(zip(t.elts, vals)), s, ctx)

    def item_const(self, src, i, st):
        if isinstance(src, App) and src.op == "tupleof":
            return src.args[i]
        return st.over.get((src, "item", Const(i))) or App("item", (src, Const(i)))

    def _assign_pairs(self, pairs, st, ctx):
        if not pairs:
            yield st, None
            return
        for s, err in self.assign(pairs[0][0], pairs[0][1], st, ctx):
            if err is not None:
                yield s, err
            else:
                yield from self._assign_pairs(pairs[1:], s, ctx)

    def s_AugAssign(self, n, st, ctx):
        from . import models
        op = self.BIN[type(n.op)]
        load = ast.copy_location(self._as_load(n.target), n.target)
        # evaluate the target's object/key only once
        if isinstance(n.target, ast.Name):
            for s, vs in self.evals([load, n.value], st, ctx):
                if isinstance(vs, Raised):
                    yield s, self.sigof(vs)
                    continue
                for s2, r in models.inplace(self, op, vs[0], vs[1], s, ctx, n):
                    if isinstance(r, Raised):
                        yield s2, self.sigof(r)
                    else:
                        yield from self._assign_all([n.target], r, s2, ctx)
            return
        if isinstance(n.target, ast.Attribute):
            for s, o in self.eval(n.target.value, st, ctx):
                if isinstance(o, Raised):
                    yield s, self.sigof(o)
                    continue
                nm = self.mangle(n.target.attr, ctx)
                for s1, cur in self.getattr_(o, nm, s, ctx, n):
                    if isinstance(cur, Raised):
                        yield s1, self.sigof(cur)
                        continue
                    for s2, x in self.eval(n.value, s1, ctx):
                        if isinstance(x, Raised):
                            yield s2, self.sigof(x)
                            continue
                        for s3, r in models.inplace(self, op, cur, x, s2, ctx, n):
                            if isinstance(r, Raised):
                                yield s3, self.sigof(r)
                                continue
                            for s4, err in self.setattr_(o, nm, r, s3, ctx, n):
                                yield s4, (self.sigof(err) if err is not None else None)
            return
        for s, ov in self.evals([n.target.value, n.target.slice], st, ctx):
            if isinstance(ov, Raised):
                yield s, self.sigof(ov)
                continue
            for s1, cur in models.getitem(self, ov[0], ov[1], s, ctx, n):
                if isinstance(cur, Raised):
                    yield s1, self.sigof(cur)
                    continue
                for s2, x in self.eval(n.value, s1, ctx):
                    if isinstance(x, Raised):
                        yield s2, self.sigof(x)
                        continue
                    for s3, r in models.inplace(self, op, cur, x, s2, ctx, n):
                        if isinstance(r, Raised):
                            yield s3, self.sigof(r)
                            continue
                        for s4, err in models.setitem(self, ov[0], ov[1], r, s3, ctx, n):
                            yield s4, (self.sigof(err) if err is not None else None)

    @staticmethod
    def _as_load(t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        return t

    def s_Delete(self, n, st, ctx):
        from . import models

        def rec(ts, st):
            if not ts:
                yield st, None
                return
            t = ts[0]
            if isinstance(t, ast.Name):
                s = st.fork()
                s.delvar(ctx.fid, t.id)
                yield from rec(ts[1:], s)
            elif isinstance(t, ast.Subscript):
                for s, ov in self.evals([t.value, t.slice], st, ctx):
                    if isinstance(ov, Raised):
                        yield s, self.sigof(ov)
                        continue
                    for s1, err in models.delitem(self, ov[0], ov[1], s, ctx, t):
                        if err is not None:
                            yield s1, self.sigof(err)
                        else:
                            yield from rec(ts[1:], s1)
            elif isinstance(t, ast.Attribute):
                for s, o in self.eval(t.value, st, ctx):
                    if isinstance(o, Raised):
                        yield s, self.sigof(o)
                        continue
                    for s1, err in self.delattr_(o, self.mangle(t.attr, ctx), s, ctx, t):
                        if err is not None:
                            yield s1, self.sigof(err)
                        else:
                            yield from rec(ts[1:], s1)
            else:
                raise Undecided("del")

        yield from rec(n.targets, st)

    def delattr_(self, o, name, s, ctx, node):
        """Yield (state, None|Raised)."""
        ci = self.find_class(o, s)
        if ci is not None and not isinstance(o, Tup):
            da, a = ci.lookup("__delattr__"), ci.lookup(name)
            if isinstance(da, FuncV):
                yield from self._discard(self.call(Bound(da, o), (Const(name),), (), s, ctx, node))
                return
            if isinstance(a, PropV) and not a.cached:
                if a.fdel is None:
                    yield self.raise_new(s, "AttributeError", (Const(name),))
                else:
                    yield from self._discard(self.call(a.fdel, (o,), (), s, ctx, node))
                return
            dd = self.descriptor(a, s, "__delete__")
            if dd is not None:
                yield from self._discard(self.call(Bound(dd, a), (o,), (), s, ctx, node))
                return
        yield from self.raw_delattr(o, name, s, ctx, node)

    def raw_delattr(self, o, name, s, ctx, node):
        s = s.fork()
        self.write(s, o, "delattr", name, None, node, ctx)
        if isinstance(o, Ref) and isinstance(s.heap[o.oid], InstO):
            io = s.heap[o.oid]
            d = s.heap[io.dict]
            left = tuple(p for p in d.items if p[0] != Const(name))
            if len(left) == len(d.items) and not d.open:
                yield self.raise_new(s, "AttributeError", (Const(name),))
                return
            s.heap[io.dict] = d.repl(items=left)
        yield s, None

    def s_If(self, n, st, ctx):
        for s, v in self.eval(n.test, st, ctx):
            if isinstance(v, Raised):
                yield s, self.sigof(v)
                continue
            for s2, b in self.truth(v, s):
                yield from self.block(n.body if b else n.orelse, s2, ctx)

    def s_Assert(self, n, st, ctx):
        for s, v in self.eval(n.test, st, ctx):
            if isinstance(v, Raised):
                yield s, self.sigof(v)
                continue
            for s2, b in self.truth(v, s):
                if b:
                    yield s2, None
                else:
                    for s3, m in (self.evals([n.msg] if n.msg is not None else [], s2, ctx)):
                        if isinstance(m, Raised):
                            yield s3, self.sigof(m)
                            continue
                        s4, r = self.raise_new(s3, "AssertionError", tuple(m))
                        yield s4, ("raise", r.exc)

    def s_Match(self, n, st, ctx):
        def cases(cs, v, st):
            if not cs:
                yield st, None
                return
            c = cs[0]
            for s, b in self.pattern(c.pattern, v, st, ctx):
                if isinstance(b, Raised):
                    yield s, self.sigof(b)
                elif not b:
                    yield from cases(cs[1:], v, s)
                elif c.guard is None:
                    yield from self.block(c.body, s, ctx)
                else:
                    for s1, g in self.eval(c.guard, s, ctx):
                        if isinstance(g, Raised):
                            yield s1, self.sigof(g)
                            continue
                        for s2, t in self.truth(g, s1):
                            if t:
                                yield from self.block(c.body, s2, ctx)
                            else:
                                yield from cases(cs[1:], v, s2)

        for s, v in self.eval(n.subject, st, ctx):
            if isinstance(v, Raised):
                yield s, self.sigof(v)
            else:
                yield from cases(n.cases, v, s)

    def pattern(self, p, v, st, ctx):
        """Yield (state, does it match?)."""
        from . import models

        def bind(name, v, st):
            if name is None:
                return st
            s = st.fork()
            s.setvar(ctx.fid, name, v)
            return s

        def every(ps, st):
            if not ps:
                yield st, True
                return
            for s, b in self.pattern(ps[0][0], ps[0][1], st, ctx):
                if b is True:
                    yield from every(ps[1:], s)
                else:
                    yield s, b

        if isinstance(p, ast.MatchValue):
            for s, x in self.eval(p.value, st, ctx):
                if isinstance(x, Raised):
                    yield s, x
                    continue
                for s1, t in self.cmp(ast.Eq(), v, x, s, ctx, p):
                    if isinstance(t, Raised):
                        yield s1, t
                    else:
                        yield from self.truth(t, s1)
        elif isinstance(p, ast.MatchSingleton):
            yield from self.compare_is(v, Const(p.value), st)
        elif isinstance(p, ast.MatchAs):
            if p.pattern is None:
                yield bind(p.name, v, st), True
                return
            for s, b in self.pattern(p.pattern, v, st, ctx):
                yield (bind(p.name, v, s), b) if b is True else (s, b)
        elif isinstance(p, ast.MatchOr):
            def alts(ps, st):
                if not ps:
                    yield st, False
                    return
                for s, b in self.pattern(ps[0], v, st, ctx):
                    if b is False:
                        yield from alts(ps[1:], s)
                    else:
                        yield s, b
            yield from alts(p.patterns, st)
        elif isinstance(p, ast.MatchSequence):
            for s, b in self.isinstance_(v, ["list", "tuple", "deque", "range", "Sequence"], st):
                ty = self.types(v, s)
                if not b or ty and ty <= {"str", "bytes"}:
                    yield s, False
                    continue
                star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
                for s1, xs in self._expand_star(v, s, ctx, p):
                    if isinstance(xs, Raised):
                        yield s1, xs
                        continue
                    if any(isinstance(x, App) and x.op == "*" for x in xs):
                        raise Undecided("match of an open sequence")
                    if not star:
                        if len(xs) != len(p.patterns):
                            yield s1, False
                        else:
                            yield from every(list(zip(p.patterns, xs)), s1)
                        continue
                    i, m = star[0], len(p.patterns) - 1
                    if len(xs) < m:
                        yield s1, False
                        continue
                    j = len(xs) - (m - i)
                    s1, l = self.mklist(s1, list(xs[i:j]))
                    yield from every(list(zip(p.patterns[:i], xs[:i])) + list(zip(p.patterns[i + 1:], xs[j:])), bind(p.patterns[i].name, l, s1))
        elif isinstance(p, ast.MatchMapping):
            for s, b in self.isinstance_(v, ["dict", "OrderedDict", "Mapping"], st):
                if not b:
                    yield s, False
                    continue

                def keys(ks, s, vals, used):
                    if not ks:
                        if p.rest is not None:
                            its, op, base = self.dict_contents(v, s)
                            if op:
                                raise Undecided("match of an open mapping")
                            s = s.fork()
                            s = bind(p.rest, s.alloc(DictO([q for q in its if q[0] not in used])), s)
                        yield from every(list(zip(p.patterns, vals)), s)
                        return
                    for s1, k in self.eval(ks[0], s, ctx):
                        for s2, x in models.lookup(self, v, k, s1, ctx, p):
                            if x is None:
                                yield s2, False
                            else:
                                yield from keys(ks[1:], s2, vals + [x], used + [k])

                yield from keys(p.keys, s, [], [])
        elif isinstance(p, ast.MatchClass):
            for s, c in self.eval(p.cls, st, ctx):
                if isinstance(c, Raised):
                    yield s, c
                    continue
                for s1, t in self.call(Ext("builtins.isinstance"), (v, c), (), s, ctx, p):
                    if isinstance(t, Raised):
                        yield s1, t
                        continue
                    for s2, b in self.truth(t, s1):
                        if not b:
                            yield s2, False
                            continue
                        names = list(p.kwd_attrs)
                        pats = list(p.kwd_patterns)
                        if p.patterns:
                            if isinstance(c, Ext) and len(p.patterns) == 1:
                                names, pats = [None] + names, [p.patterns[0]] + pats
                            else:
                                ma = c.info.lookup("__match_args__") if isinstance(c, ClsV) else None
                                if ma is None and isinstance(c, ClsV) and c.info.nt():
                                    ma = Tup([Const(f) for f in c.info.nt().nt_fields])
                                if not isinstance(ma, Tup):
                                    raise Undecided("class pattern")
                                names, pats = [x.v for x in ma.items[:len(p.patterns)]] + names, list(p.patterns) + pats

                        def attrs(ns, s, out):
                            if not ns:
                                yield from every(list(zip(pats, out)), s)
                                return
                            if ns[0] is None:
                                yield from attrs(ns[1:], s, out + [v])
                                return
                            for s1, x in self.getattr_(v, ns[0], s, ctx, p):
                                if isinstance(x, Raised):
                                    yield s1, False
                                else:
                                    yield from attrs(ns[1:], s1, out + [x])

                        yield from attrs(names, s2, [])
        else:
            raise Undecided("pattern " + type(p).__name__)

    def s_While(self, n, st, ctx):
        def loop(st, k):
            for s, v in self.eval(n.test, st, ctx):
                if isinstance(v, Raised):
                    yield s, self.sigof(v)
                    continue
                for s2, b in self.truth(v, s):
                    if not b:
                        yield from self.block(n.orelse, s2, ctx)
                        continue
                    if k >= self.cfg.while_k:
                        self.loop_cuts += 1
                        continue
                    for s3, sig in self.block(n.body, s2, ctx):
                        if sig is None or sig[0] == "continue":
                            yield from loop(s3, k + 1)
                        elif sig[0] == "break":
                            yield s3, None
                        else:
                            yield s3, sig

        yield from loop(st, 0)

    def s_For(self, n, st, ctx):
        for s, it in self.eval(n.iter, st, ctx):
            if isinstance(it, Raised):
                yield s, self.sigof(it)
                continue

            def body(s1, x):
                for s2, err in self.assign(n.target, x, s1, ctx):
                    if err is not None:
                        yield s2, self.sigof(err)
                        continue
                    for s3, sig in self.block(n.body, s2, ctx):
                        yield s3, (None if sig is not None and sig[0] == "continue" else sig)

            for s2, sig in self.iterate(it, s, ctx, body, n):
                if sig is None:
                    yield from self.block(n.orelse, s2, ctx)
                elif sig[0] == "break":
                    yield s2, None
                else:
                    yield s2, sig

    def s_Raise(self, n, st, ctx):
        if n.exc is None:
            yield st, ("raise", ctx.exc if ctx.exc is not None else Sym("reraise?", T.EXC_UNIVERSE))
            return
        es = [n.exc] + ([n.cause] if n.cause is not None else [])
        for s, vs in self.evals(es, st, ctx):
            if isinstance(vs, Raised):
                yield s, self.sigof(vs)
                continue
            v = vs[0]
            if isinstance(v, (ClsV, Ext)):
                for s2, x in self.call(v, (), (), s, ctx, n):
                    if isinstance(x, Raised):
                        yield s2, self.sigof(x)
                    else:
                        s2 = s2.fork()
                        s2.facts[("cause", x)] = (vs[1] if len(vs) > 1 else None, ctx.exc)
                        yield s2, ("raise", x)
                continue
            if isinstance(v, Const):
                s2, r = self.raise_new(s, "TypeError", (Const("exceptions must derive from BaseException"),))
                yield s2, ("raise", r.exc)
                continue
            s = s.fork()
            s.facts[("cause", v)] = (vs[1] if len(vs) > 1 else None, ctx.exc)
            yield s, ("raise", v)

    def exc_match(self, exc, hcls, st):
        """Yield (state, bool): does the exception match the handler class names?"""
        if isinstance(exc, Ref):
            o = st.heap[exc.oid]
            nm = o.cls.info.supers() if isinstance(o.cls, ClsV) else T.exc_supers(T.clsname(o.cls))
            yield st, any(h in nm for h in hcls)
            return
        ty = self.types(exc, st) or T.EXC_UNIVERSE
        yes = [t for t in ty if any(self.exc_isa(t, h) for h in hcls)]
        no = [t for t in ty if t not in yes]
        if yes:
            s = st.fork() if no else st
            if no:
                self.set_types(exc, yes, s)
            yield s, True
        if no:
            s = st.fork() if yes else st
            if yes:
                self.set_types(exc, no, s)
            yield s, False

    def exc_isa(self, t, h):
        ui = self.prog._user.get(t)
        if ui is not None:
            return h in ui.supers()
        return T.exc_sub(t, h)

    def handler_names(self, h, st, ctx):
        if h.type is None:
            return ["BaseException"]
        out = []
        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            r = list(self.eval(x, st, ctx))
            v = r[0][1] if r else None
            if isinstance(v, ClsV):
                out.append(v.info.name)
            elif isinstance(v, Ext):
                out.append(T.clsname(v))
            elif isinstance(v, Tup):
                for y in v.items:
                    out.append(y.info.name if isinstance(y, ClsV) else T.clsname(y) if isinstance(y, Ext) else "?")
            elif isinstance(v, Ref) or v is None or isinstance(v, Raised):
                out.append("?")
            else:
                out.append(show(v))
        return out

    def s_Try(self, n, st, ctx):
        hs = [(h, self.handler_names(h, st, ctx)) for h in n.handlers]
        names = tuple(x for _, ns in hs for x in ns)
        # a bare finally observes any exception
        bctx = ctx.sub(trys=ctx.trys + ((names,) if names else ()))
        if n.finalbody and not names and self.cfg.raises == "handled":
            bctx = ctx

        def handled(st):
            for s, sig in self.block(n.body, st, bctx):
                if sig is None:
                    yield from self.block(n.orelse, s, ctx)
                elif sig[0] == "raise" and hs:
                    yield from handle(sig[1], hs, s)
                else:
                    yield s, sig

        def handle(exc, hs, st):
            if not hs:
                yield st, ("raise", exc)
                return
            h, nms = hs[0]
            for s, b in self.exc_match(exc, nms, st):
                if not b:
                    yield from handle(exc, hs[1:], s)
                    continue
                s = s.fork()
                s.event("caught", exc, self.loc(ctx, h))
                if h.name:
                    s.setvar(ctx.fid, h.name, exc)
                for s2, sig in self.block(h.body, s, ctx.sub(exc=exc)):
                    if h.name:
                        s2 = s2.fork()
                        s2.delvar(ctx.fid, h.name)
                    yield s2, sig

        if not n.finalbody:
            yield from handled(st)
            return
        for s, sig in handled(st):
            for s2, fsig in self.block(n.finalbody, s, ctx):
                yield s2, (sig if fsig is None else fsig)

    s_TryStar = s_Try

    def s_With(self, n, st, ctx):
        def rec(items, st, ctx):
            if not items:
                yield from self.block(n.body, st, ctx)
                return
            it = items[0]
            for s, cm in self.eval(it.context_expr, st, ctx):
                if isinstance(cm, Raised):
                    yield s, self.sigof(cm)
                    continue
                ci = self.find_class(cm, s)
                if isinstance(cm, App) and cm.op in ("gencm", "suppress", "nullcm", "closing"):
                    yield from self.with_lib(cm, it, s, ctx, n, lambda s1, c: rec(items[1:], s1, c))
                    continue
                if ci is not None and ci.lookup("__enter__"):
                    enters = self.call(Bound(ci.lookup("__enter__"), cm), (), (), s, ctx, n)
                else:
                    s = s.fork()
                    s.event("enter", cm, self.loc(ctx, n))
                    enters = [(s, App("enter", (cm,)))]
                for s1, ev in enters:
                    if isinstance(ev, Raised):
                        yield s1, self.sigof(ev)
                        continue
                    outs = self.assign(it.optional_vars, ev, s1, ctx) if it.optional_vars is not None else [(s1, None)]
                    for s2, err in outs:
                        for s3, sig in ([(s2, self.sigof(err))] if err is not None else rec(items[1:], s2, ctx)):
                            if ci is not None and ci.lookup("__exit__"):
                                exc = sig[1] if sig is not None and sig[0] == "raise" else NONE
                                ecls = exc
                                if isinstance(exc, Ref) and isinstance(s3.heap[exc.oid], InstO):
                                    ecls = s3.heap[exc.oid].cls
                                elif exc != NONE:
                                    ecls = App("call:type", (exc,), "type")
                                tb = NONE if exc == NONE else App("attr", (exc, "__traceback__"))
                                for s4, r in self.call(Bound(ci.lookup("__exit__"), cm), (ecls, exc, tb), (), s3, ctx, n):
                                    if isinstance(r, Raised):
                                        yield s4, self.sigof(r)
                                        continue
                                    if sig is not None and sig[0] == "raise":
                                        for s5, b in self.truth(r, s4):
                                            yield s5, (None if b else sig)
                                    else:
                                        yield s4, sig
                            else:
                                s3 = s3.fork()
                                s3.event("exit", cm, self.loc(ctx, n))
                                yield s3, sig

        yield from rec(n.items, st, ctx)

    def with_lib(self, cm, item, st, ctx, n, body):
        """The context managers of contextlib."""
        def entered(s, ev, bctx):
            for s1, err in (self.assign(item.optional_vars, ev, s, bctx) if item.optional_vars is not None else [(s, None)]):
                if err is not None:
                    yield s1, self.sigof(err)
                else:
                    yield from body(s1, bctx)

        if cm.op == "nullcm":
            yield from entered(st, cm.args[0], ctx)
            return
        if cm.op == "closing":
            for s, sig in entered(st, cm.args[0], ctx):
                for s1, m in self.getattr_(cm.args[0], "close", s, ctx, n):
                    for s2, r in ([(s1, m)] if isinstance(m, Raised) else self.call(m, (), (), s1, ctx, n)):
                        yield s2, (self.sigof(r) if isinstance(r, Raised) else sig)
            return
        if cm.op == "suppress":
            names = [c.info.name if isinstance(c, ClsV) else T.clsname(c) if isinstance(c, Ext) else "?" for c in cm.args]
            for s, sig in entered(st, NONE, ctx.sub(trys=ctx.trys + (tuple(names),))):
                if sig is not None and sig[0] == "raise":
                    for s1, b in self.exc_match(sig[1], names, s):
                        yield s1, (None if b else sig)
                else:
                    yield s, sig
            return
        g = cm.args[0]
        o = st.heap[g.oid]
        trys = ctx.trys
        if isinstance(o, IterO) and o.src[0] == "gen":
            for t in ast.walk(o.src[1].info.node):
                if isinstance(t, ast.Try):
                    names = tuple(x for h in t.handlers for x in self.handler_names(h, st, o.src[1]))
                    if names:
                        trys = trys + (names,)
        bctx = ctx.sub(trys=trys)
        st = st.fork()
        key = st.fresh()
        st.frames[key] = {"left": False, "sig": None}

        def block(s, x):
            if s.frames[key]["left"]:
                s2, r = self.raise_new(s, "RuntimeError", (Const("generator didn't stop"),))
                yield s2, ("raise", r.exc)
                return
            for s1, sig in entered(s, x, bctx):
                s1 = s1.fork()
                if sig is not None and sig[0] == "raise":
                    s1.frames[key] = {"left": True, "sig": None}
                    yield s1, ("throw", sig[1])
                else:
                    s1.frames[key] = {"left": True, "sig": sig}
                    yield s1, None

        for s, sig in self.iterate(g, st, ctx, block, n):
            if sig is None and not s.frames[key]["left"]:
                s2, r = self.raise_new(s, "RuntimeError", (Const("generator didn't yield"),))
                yield s2, ("raise", r.exc)
            else:
                yield s, (sig if sig is not None else s.frames[key]["sig"])

    def s_FunctionDef(self, n, st, ctx):
        for s, f in self.make_func(n, st, ctx, n.name):
            if isinstance(f, Raised):
                yield s, self.sigof(f)
                continue
            yield from self._decorate(n.decorator_list[::-1], f, n, s, ctx)

    s_AsyncFunctionDef = s_FunctionDef

    def _decorate(self, decs, f, n, st, ctx):
        for d in decs:
            if isinstance(d, ast.Name) and d.id == "property":
                f = PropV(f)
            elif isinstance(d, ast.Name) and d.id == "staticmethod":
                f = StaticV(f)
            elif isinstance(d, ast.Name) and d.id == "classmethod":
                f = StaticV(f, True)
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                cur = st.frames[ctx.fid].get(d.value.id) if isinstance(d.value, ast.Name) else None
                if isinstance(cur, PropV):
                    f = PropV(cur.fget, f, cur.fdel) if d.attr == "setter" else PropV(f, cur.fset, cur.fdel) if d.attr == "getter" else PropV(cur.fget, cur.fset, f)
            elif ast.unparse(d).split(".")[-1] == "cached_property":
                f = PropV(f, cached=True)
            else:
                nm = ast.unparse(d)
                if "abstract" in nm:
                    continue
                if "lru_cache" in nm or "wraps" in nm or nm.endswith("cache"):
                    st = st.fork()
                    st.over[(f, "attr", "%decorated")] = Const(nm)
                    if "wraps" in nm and isinstance(d, ast.Call) and isinstance(d.args[0], ast.Name):
                        w = st.frames[ctx.fid].get(d.args[0].id)
                        if isinstance(w, FuncV):
                            st.over[(f, "attr", "__name__")] = Const(w.info.name)
                            st.over[(f, "attr", "__wrapped__")] = w
                    continue
                # unknown decorator: apply it
                res = []
                for s, dv in self.eval(d, st, ctx):
                    if not isinstance(dv, Raised):
                        for s2, r in self.call(dv, (f,), (), s, ctx, d):
                            if not isinstance(r, Raised):
                                res.append((s2, r))
                if res:
                    st, f = res[0]
        st = st.fork()
        if ctx.info is not None and n.name in ctx.info.globals_:
            st.setvar(ctx.module.fid, n.name, f)
        else:
            st.setvar(ctx.fid, n.name, f)
        yield st, None

    def s_ClassDef(self, n, st, ctx):
        for s, bases in self.evals(n.bases, st, ctx):
            if isinstance(bases, Raised):
                yield s, self.sigof(bases)
                continue
            info = ClassInfo(n.name, ctx.module, bases, n)
            if ctx.cls is not None:
                info.outer = ctx.cls.name
            s = s.fork()
            fid = s.fresh()
            s.frames[fid] = {"%parent": ctx.fid, "%class": True}
            cctx = Ctx(fid, None, ctx.module, None, ctx.stack, ctx.trys, info)
            if ctx.info is not None:
                cctx.info = None
            for s2, sig in self.block(n.body, s, cctx):
                if sig is not None:
                    yield s2, sig
                    continue
                for k, v in s2.frames[fid].items():
                    if not k.startswith("%"):
                        info.attrs[self.mangle_def(k, info)] = v
                for k, v in info.attrs.items():
                    if isinstance(v, Ref) and s2.heap[v.oid].origin == "fresh":
                        s2.heap[v.oid] = s2.heap[v.oid].repl(origin="shared:class attribute %s.%s" % (n.name, k))
                if "__slots__" in info.attrs:
                    pass
                self.prog._user = dict(self.prog._user)
                self.prog._user[n.name] = info
                for s3, v in self.class_made(n.decorator_list[::-1], info, n, s2, ctx):
                    if isinstance(v, Raised):
                        yield s3, self.sigof(v)
                        continue
                    s3.setvar(ctx.fid, n.name, v)
                    yield s3, None

    def class_made(self, decs, info, n, st, ctx):
        """Yield (state, class) with the decorators applied."""
        from . import models
        models.enum_members(self, info, st)
        vals = [(st, ClsV(info))]
        for d in decs:
            nm = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
            if nm in ("dataclass", "total_ordering"):
                for s, v in vals:
                    models.synthesise(self, nm, d, info, n, s, ctx)
                continue
            out = []
            for s, v in vals:
                if isinstance(v, Raised):
                    out.append((s, v))
                    continue
                for s2, dv in self.eval(d, s, ctx):
                    if isinstance(dv, Raised):
                        out.append((s2, dv))
                    else:
                        out.extend(self.call(dv, (v,), (), s2, ctx, d))
            vals = [(s.fork(), v) for s, v in out]
        yield from vals

    @staticmethod
    def mangle_def(name, info):
        if name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (info.name.lstrip("_"), name)
        return name

    def s_Import(self, n, st, ctx):
        st = st.fork()
        for al in n.names:
            if self.prog.find(al.name):
                self.load_into(al.name, st)
                tgt = al.name if al.asname else al.name.split(".")[0]
                v = ModV(tgt)
            else:
                v = Ext(al.name if al.asname else al.name.split(".")[0])
            st.setvar(ctx.fid, (al.asname or al.name.split(".")[0]), v)
        yield st, None

    def shim(self, full, st):
        """A class of the standard library written in python: that of our own module (st is modified)."""
        self.load_into(SHIMS[full][0], st)
        return st.frames[self.prog.modules[SHIMS[full][0]].fid][SHIMS[full][1]]

    def load_into(self, name, st):
        """Load a repo module while `st` is current: module frames are shared through the base state."""
        if name in self.prog.modules and self.prog.modules[name].fid in st.frames:
            return
        if name not in self.prog.modules:
            base = self.prog.base
            n0 = max(base.n, st.n)
            base.n = n0 + 1000 if base is not st else n0
            self.prog.load(name)
        b = self.prog.base
        for fid, f in b.frames.items():
            st.frames.setdefault(fid, f)
        for oid, o in b.heap.items():
            st.heap.setdefault(oid, o)
        for k, v in b.over.items():
            st.over.setdefault(k, v)
        st.n = max(st.n, b.n)

    def s_ImportFrom(self, n, st, ctx):
        st = st.fork()
        mod = n.module or ""
        if n.level:
            pkg = ctx.module.name.split(".")
            if not ctx.module.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (n.level - 1)]
            mod = ".".join(pkg + ([mod] if mod else []))
        local = self.prog.find(mod) is not None
        if local:
            self.load_into(mod, st)
        for al in n.names:
            if local:
                f = st.frames.get(self.prog.modules[mod].fid) or {}
                if al.name in f:
                    v = f[al.name]
                elif self.prog.find(mod + "." + al.name):
                    self.load_into(mod + "." + al.name, st)
                    f = st.frames.get(self.prog.modules[mod].fid) or {}
                    v = f.get(al.name) or ModV(mod + "." + al.name)
                else:
                    # circular import: resolved by name later
                    s2, r = self.raise_new(st, "ImportError", (Const(al.name),))
                    yield s2, ("raise", r.exc)
                    return
            else:
                full = mod + "." + al.name
                v = self.shim(full, st) if full in SHIMS else _ext_const(full) or Ext(full)
            st.setvar(ctx.fid, al.asname or al.name, v)
        yield st, None


class _Deleted(object):
    def __repr__(self):
        return "<deleted>"


DELETED = _Deleted()
