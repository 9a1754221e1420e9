"""Abstract values, heap objects and abstract states."""


class Val(object):
    __slots__ = ("_k", "_h")

    def _init(self, *k):
        self._k = (type(self).__name__,) + k
        self._h = hash(self._k)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Val) and self._h == o._h and self._k == o._k)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


class Const(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        try:
            self._init(type(v).__name__, v if v == v else "nan")
        except TypeError:
            self._init(type(v).__name__, id(v))


class Sym(Val):
    """An opaque named input; `ty`: possible concrete type names or None; `flags`: e.g. 'word', 'shared'."""
    __slots__ = ("name", "ty", "flags")

    def __init__(self, name, ty=None, flags=()):
        self.name = name
        self.ty = frozenset([ty] if isinstance(ty, str) else ty) if ty else None
        self.flags = frozenset([flags] if isinstance(flags, str) else flags)
        self._init(name)


class App(Val):
    """An opaque term built by applying an operation on values."""
    __slots__ = ("op", "args", "ty")

    def __init__(self, op, args, ty=None):
        self.op = op
        self.args = tuple(args)
        self.ty = frozenset([ty] if isinstance(ty, str) else ty) if ty else None
        self._init(op, self.args)


class Str(Val):
    """Concatenation of constant strings and opaque atoms (normalised: no adjacent constants)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._init(self.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Str):
            sub = p.parts
        elif isinstance(p, Const):
            sub = (p.v,)
        else:
            sub = (p,)
        for s in sub:
            if isinstance(s, str):
                if not s:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += s
                    continue
            out.append(s)
    if not out:
        return Const("")
    if len(out) == 1:
        return Const(out[0]) if isinstance(out[0], str) else out[0]
    return Str(out)


class Lin(Val):
    """Linear integer expression: sum(coef*term) + c."""
    __slots__ = ("terms", "c")

    def __init__(self, terms, c):
        self.terms = tuple(sorted(((t, k) for t, k in dict(terms).items() if k), key=lambda x: repr(x[0])))
        self.c = c
        self._init(self.terms, c)


class Tup(Val):
    """Immutable tuple, or namedtuple instance when `cls` is given."""
    __slots__ = ("items", "cls")

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls
        self._init(self.items, cls)


class Ref(Val):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid
        self._init(oid)


class FuncV(Val):
    __slots__ = ("info", "frame", "defaults", "kwdefaults", "cls")

    def __init__(self, info, frame, defaults=(), kwdefaults=(), cls=None):
        self.info, self.frame, self.defaults, self.kwdefaults, self.cls = info, frame, tuple(defaults), tuple(kwdefaults), cls
        self._init(id(info), frame)


class ClsV(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info
        self._init(id(info))


class Bound(Val):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_
        self._init(fn, self_)


class BMeth(Val):
    """Method `name` looked up on the (builtin or opaque) value `obj`."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self._init(obj, name)


class Partial(Val):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(kwargs)
        self._init(fn, self.args, self.kwargs)


class Ext(Val):
    """External (non-repo) thing by dotted name; builtins are 'builtins.x'."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._init(name)


class ModV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._init(name)


class SliceV(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        self._init(lo, hi, step)


class SuperV(Val):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_
        self._init(cls, self_)


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


def boolv(b):
    return TRUE if b else FALSE


# --------------------------------------------------------------- heap objects (immutable records)
class Obj(object):
    __slots__ = ("origin",)
    kind = "obj"

    def repl(self, **kw):
        new = object.__new__(type(self))
        for c in type(self).__mro__:
            for s in getattr(c, "__slots__", ()):
                setattr(new, s, kw[s] if s in kw else getattr(self, s))
        return new


class InstO(Obj):
    __slots__ = ("cls", "dict", "strval")
    kind = "inst"

    def __init__(self, cls, dict_oid, strval=None, origin="fresh"):
        self.cls, self.dict, self.strval, self.origin = cls, dict_oid, strval, origin


class DictO(Obj):
    """`items`: tuple of (key, value); `open`: may hold other, unknown keys, those of the term `base` if given."""
    __slots__ = ("items", "open", "base", "tname")
    kind = "dict"

    def __init__(self, items=(), open=False, base=None, origin="fresh", tname="dict"):
        self.items, self.open, self.base, self.origin, self.tname = tuple(items), open, base, origin, tname


class ListO(Obj):
    __slots__ = ("items", "open", "base", "tname")
    kind = "list"

    def __init__(self, items=(), open=False, base=None, origin="fresh", tname="list"):
        self.items, self.open, self.base, self.origin, self.tname = tuple(items), open, base, origin, tname


class IterO(Obj):
    """One-shot iterator: `src` describes how to produce: ('val', v) | ('map', f, its) | ('gen', ...) ...; `pos`: consumed count, or 'done'."""
    __slots__ = ("src", "pos")
    kind = "iter"

    def __init__(self, src, pos=0, origin="fresh"):
        self.src, self.pos, self.origin = src, pos, origin


class ArrO(Obj):
    """numpy array of known shape."""
    __slots__ = ("shape", "items")
    kind = "arr"

    def __init__(self, shape, items, origin="fresh"):
        self.shape, self.items, self.origin = tuple(shape), tuple(items), origin


class CopyO(Obj):
    """A shallow copy of an opaque term: fresh object whose contents initially are those of `base`."""
    __slots__ = ("base", "tname")
    kind = "copy"

    def __init__(self, base, origin="fresh", tname=None):
        self.base, self.origin, self.tname = base, origin, tname


class State(object):
    __slots__ = ("frames", "heap", "facts", "over", "trace", "n")

    def __init__(self):
        self.frames, self.heap, self.facts, self.over, self.trace, self.n = {}, {}, {}, {}, None, 0

    def fork(self):
        s = object.__new__(State)
        s.frames, s.heap, s.facts, s.over = dict(self.frames), dict(self.heap), dict(self.facts), dict(self.over)
        s.trace, s.n = self.trace, self.n
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def alloc(self, obj):
        oid = self.fresh()
        self.heap[oid] = obj
        return Ref(oid)

    def setvar(self, fid, name, v):
        f = dict(self.frames[fid])
        f[name] = v
        self.frames[fid] = f

    def delvar(self, fid, name):
        f = dict(self.frames[fid])
        f.pop(name, None)
        self.frames[fid] = f

    def event(self, *ev):
        self.trace = (self.trace, ev)

    def events(self, upto=None):
        out, t = [], self.trace
        while t is not None and t is not upto:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


def show(v, st=None, depth=4):
    """Readable rendering."""
    if depth < 0:
        return "…"
    s = lambda x: show(x, st, depth - 1)
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, App):
        a = v.args
        if v.op == "attr":
            return "%s.%s" % (s(a[0]), a[1])
        if v.op == "item":
            return "%s[%s]" % (s(a[0]), s(a[1]))
        if v.op == "elem":
            return "elem#%s(%s)" % (a[1], s(a[0]))
        return "%s(%s)" % (v.op, ", ".join(s(x) if isinstance(x, Val) else
                                            "(%s)" % ", ".join(s(y) if isinstance(y, Val) else str(y) for y in x) if isinstance(x, tuple)
                                            else str(x) for x in a))
    if isinstance(v, Str):
        return "+".join(repr(p) if isinstance(p, str) else s(p) for p in v.parts)
    if isinstance(v, Lin):
        return "+".join(["%s*%s" % (k, s(t)) if k != 1 else s(t) for t, k in v.terms] + ([str(v.c)] if v.c else []))
    if isinstance(v, Tup):
        return "%s(%s)" % (v.cls.name if v.cls else "", ", ".join(s(x) for x in v.items))
    if isinstance(v, Ref):
        if st is not None and v.oid in st.heap:
            o = st.heap[v.oid]
            if isinstance(o, DictO):
                return "{%s%s}" % (", ".join("%s: %s" % (s(k), s(x)) for k, x in o.items), ", …" if o.open else "")
            if isinstance(o, ListO):
                return "%s[%s%s]" % ("set" if o.tname == "set" else "", ", ".join(s(x) for x in o.items), ", …" if o.open else "")
            if isinstance(o, ArrO):
                return "arr%s[%s]" % (o.shape, ", ".join(s(x) for x in o.items))
            if isinstance(o, InstO):
                return "<%s%s#%d>" % (o.cls.name if hasattr(o.cls, "name") else o.cls, "" if o.strval is None else " " + s(o.strval), v.oid)
            if isinstance(o, CopyO):
                return "copy(%s)" % s(o.base)
        return "#%d" % v.oid
    if isinstance(v, FuncV):
        return v.info.qualname
    if isinstance(v, ClsV):
        return v.info.name
    if isinstance(v, Bound):
        return "%s.%s" % (s(v.self_), s(v.fn))
    if isinstance(v, BMeth):
        return "%s.%s" % (s(v.obj), v.name)
    if isinstance(v, (Ext, ModV)):
        return v.name
    if isinstance(v, SliceV):
        return "%s:%s:%s" % (s(v.lo), s(v.hi), s(v.step))
    if isinstance(v, Partial):
        return "partial(%s)" % s(v.fn)
    return object.__repr__(v)
