"""Transfer functions of the few numpy operations used by the repo, on small arrays of known shape or on opaque ones."""
import ast
from .values import *
from . import typesys as T


def _is_arr(it, v, st):
    return isinstance(v, Ref) and st.heap[v.oid].kind == "arr"


def _opaque_arr(it, v, st):
    if isinstance(v, (Sym, App)):
        ty = it.types(v, st)
        return ty is not None and ty == frozenset(["ndarray"])
    return isinstance(v, Ref) and st.heap[v.oid].kind == "copy" and it.types(v, st) == frozenset(["ndarray"])


def term(it, obj, st):
    o = st.heap[obj.oid]
    if isinstance(o, CopyO):
        return o.base
    return App("array", (o.shape, Tup(o.items)), "ndarray")


def _val(it, v, st):
    return term(it, v, st) if isinstance(v, Ref) else v


def rows_st(it, v, o, st):
    if len(o.shape) <= 1:
        return st, list(o.items)
    st = st.fork()
    n = 1
    for d in o.shape[1:]:
        n *= d
    out = []
    for i in range(o.shape[0]):
        out.append(st.alloc(ArrO(o.shape[1:], o.items[i * n:(i + 1) * n], origin=o.origin)))
    return st, out


def rows(it, v, o, st):
    if len(o.shape) <= 1:
        return list(o.items)
    n = 1
    for d in o.shape[1:]:
        n *= d
    return [st.alloc(ArrO(o.shape[1:], o.items[i * n:(i + 1) * n], origin=o.origin)) for i in range(o.shape[0])]


def _permute(shape, items, perm):
    """Shape and items with the axes permuted."""
    import itertools
    sh = tuple(shape[p] for p in perm)
    strides, n = [], 1
    for d in reversed(shape):
        strides.insert(0, n)
        n *= d
    out = []
    for idx in itertools.product(*map(range, sh)):
        out.append(items[sum(strides[p] * i for p, i in zip(perm, idx))])
    return sh, out


def _ints(v, st):
    """Constant ints of an int or a sequence of them, or None."""
    if isinstance(v, Ref) and st.heap[v.oid].kind == "list" and not st.heap[v.oid].open:
        xs = st.heap[v.oid].items
    elif isinstance(v, Tup):
        xs = v.items
    else:
        xs = [v]
    if all(isinstance(x, Const) and isinstance(x.v, int) for x in xs):
        return [int(x.v) for x in xs]
    return None


def _nested(shape, items, st):
    """Nested lists of the items."""
    if not shape:
        return items[0]
    if len(shape) == 1:
        return st.alloc(ListO(items))
    n = 1
    for d in shape[1:]:
        n *= d
    return st.alloc(ListO([_nested(shape[1:], items[i * n:(i + 1) * n], st) for i in range(shape[0])]))


def _reshape(it, obj, o, name, args, kwargs, st):
    """Operations changing just the shape: iterator, or None to decline."""
    from .core import Raised
    s = st.fork()
    kw = dict(kwargs)
    sh, items = o.shape, o.items
    err = None
    if name == "reshape":
        a = list(args) or [kw[k] for k in ("shape", "newshape") if k in kw]
        n = _ints(a[0], s) if len(a) == 1 else _ints(Tup(a), s) if a else None
        if n is None:
            return None
        tot = 1
        for d in n:
            tot *= d if d >= 0 else 1
        if n.count(-1) == 1 and tot and len(items) % tot == 0:
            n = [len(items) // tot if d == -1 else d for d in n]
            tot = len(items)
        if -1 in n or tot != len(items):
            err = "ValueError"
        sh = tuple(n)
    elif name == "squeeze":
        ax = args[0] if args else kw.get("axis", NONE)
        if ax == NONE:
            sh = tuple(d for d in sh if d != 1)
        else:
            n = _ints(ax, s)
            if n is None:
                return None
            n = [i + len(sh) if i < 0 else i for i in n]
            if any(i >= len(sh) or i < 0 or sh[i] != 1 for i in n):
                err = "ValueError"
            sh = tuple(d for i, d in enumerate(sh) if i not in n)
    elif name == "transpose":
        a = list(args) or [kw[k] for k in ("axes",) if k in kw]
        n = list(reversed(range(len(sh)))) if not a or a == [NONE] else _ints(a[0], s) if len(a) == 1 else _ints(Tup(a), s)
        if n is None:
            return None
        n = [i + len(sh) if i < 0 else i for i in n]
        if sorted(n) != list(range(len(sh))):
            err = "ValueError"
        else:
            sh, items = _permute(sh, items, tuple(n))
    elif name == "swapaxes":
        n = _ints(Tup(args), s)
        if n is None or len(n) != 2:
            return None
        n = [i + len(sh) if i < 0 else i for i in n]
        if any(i >= len(sh) for i in n):
            err = "ValueError"
        else:
            perm = list(range(len(sh)))
            perm[n[0]], perm[n[1]] = n[1], n[0]
            sh, items = _permute(sh, items, tuple(perm))
    elif name == "expand_dims":
        n = _ints(args[0] if args else kw.get("axis", NONE), s)
        if n is None or len(n) != 1:
            return None
        i = n[0] + len(sh) + 1 if n[0] < 0 else n[0]
        sh = sh[:i] + (1,) + sh[i:]
    elif name in ("atleast_1d", "atleast_2d"):
        k = int(name[8])
        sh = (1,) * (k - len(sh)) + sh
    if err:
        return iter([it.raise_new(s, err, (Const(name),))])
    return iter([(s, s.alloc(ArrO(sh, items, origin=o.origin)))])


def arr_attr(it, v, o, name, st):
    if name == "T":
        if len(o.shape) < 2:
            return v
        return st.alloc(ArrO(*_permute(o.shape, o.items, tuple(reversed(range(len(o.shape))))), origin=o.origin))
    if name == "shape":
        return Tup([Const(d) for d in o.shape])
    if name == "ndim":
        return Const(len(o.shape))
    if name == "size":
        return Const(len(o.items))
    return None


def _scalar(ty):
    return ty is not None and ty <= frozenset(T.NUMS) | {"bool", "str", "NoneType", "datetime"}


def _as_arr(it, v, st, strs=False):
    """(shape, items) of a value convertible without knowing more about it, or None."""
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, ArrO):
            return o.shape, list(o.items)
        if isinstance(o, ListO) and not o.open:
            xs = list(o.items)
        else:
            return None
    elif isinstance(v, Tup):
        xs = list(v.items)
    elif isinstance(v, (Const, Lin)) and not (isinstance(v, Const) and isinstance(v.v, str) and not strs):
        return (), [v]
    elif isinstance(v, (Sym, App)) and strs and _scalar(it.types(v, st)):
        return (), [v]
    else:
        return None
    if any(isinstance(x, App) and x.op == "*" for x in xs):
        return None
    subs = []
    for x in xs:
        if isinstance(x, (Tup,)) or isinstance(x, Ref) and st.heap[x.oid].kind in ("list", "arr"):
            s = _as_arr(it, x, st, strs)
            if s is None:
                return None
            subs.append(s)
        else:
            ty = it.types(x, st)
            if ty is not None and (ty <= T.NUMERIC or ty <= {"bool", "bool_"} or isinstance(x, Const) or strs and _scalar(ty)):
                subs.append(((), [x]))
            else:
                return None
    if not subs:
        return (0,), []
    sh = subs[0][0]
    if any(s[0] != sh for s in subs):
        return None
    return (len(subs),) + tuple(sh), [y for s in subs for y in s[1]]


def _elem_op(it, op, a, b, st):
    for s, v in it.binop(op, a, b, st, it.topctx(), None):
        from .core import Raised
        if isinstance(v, Raised):
            return None
        return v
    return None


BOOLOPS = {"^": "xor", "&": "and", "|": "or"}


def binop(it, op, a, b, st):
    if _is_arr(it, a, st) or _is_arr(it, b, st):
        x, y = _as_arr(it, a, st), _as_arr(it, b, st)
        if x is not None and y is not None:
            sh, xs, ys = _broadcast(x, y)
            if sh is not None:
                out = []
                for p, q in zip(xs, ys):
                    if op in BOOLOPS:
                        r = _boolop(it, op, p, q, st)
                    else:
                        r = _elem_op(it, op, p, q, st)
                    if r is None:
                        return None
                    out.append(r)
                s = st.fork()
                return s, s.alloc(ArrO(sh, out))
        s = st.fork()
        return s, App("np" + op, (_val(it, a, st), _val(it, b, st)), "ndarray")
    if _opaque_arr(it, a, st) or _opaque_arr(it, b, st):
        return st, App("np" + op, (_val(it, a, st), _val(it, b, st)), "ndarray")
    return None


def _boolop(it, op, p, q, st):
    if isinstance(p, Const) and isinstance(q, Const):
        return boolv({"^": bool(p.v) != bool(q.v), "&": bool(p.v) and bool(q.v), "|": bool(p.v) or bool(q.v)}[op])
    for u, w in ((p, q), (q, p)):
        if op in "&|" and isinstance(u, Const):
            return u if bool(u.v) == (op == "|") else w
    if op == "^":
        for u, w in ((p, q), (q, p)):
            if isinstance(u, Const):
                return App("not", (w,), "bool") if u.v else w
        return App("or", (App("and", (p, App("not", (q,), "bool")), "bool"), App("and", (App("not", (p,), "bool"), q), "bool")), "bool")
    return App(BOOLOPS[op], (p, q), "bool")


def _broadcast(x, y):
    if x[0] == y[0]:
        return x[0], x[1], y[1]
    if x[0] == ():
        return y[0], x[1] * len(y[1]), y[1]
    if y[0] == ():
        return x[0], x[1], y[1] * len(x[1])
    if len(x[0]) == 2 and len(y[0]) == 1 and x[0][1] == y[0][0]:
        return x[0], x[1], y[1] * x[0][0]
    if len(y[0]) == 2 and len(x[0]) == 1 and y[0][1] == x[0][0]:
        return y[0], x[1] * y[0][0], y[1]
    if len(x[0]) == 2 and x[0] == (y[0][0], 1) and len(y[0]) == 2:
        return None, None, None
    return None, None, None


def cmpop(it, opname, a, b, st):
    if opname in ("Is", "IsNot", "In", "NotIn"):
        return None
    if _is_arr(it, a, st) or _is_arr(it, b, st):
        x, y = _as_arr(it, a, st), _as_arr(it, b, st)
        if x is not None and y is not None:
            sh, xs, ys = _broadcast(x, y)
            if sh is not None:
                s = st.fork()
                out = []
                for p, q in zip(xs, ys):
                    out.append(_cond(opname, p, q))
                return s, s.alloc(ArrO(sh, out))
        return st, App("np" + opname, (_val(it, a, st), _val(it, b, st)), "ndarray")
    if _opaque_arr(it, a, st) or _opaque_arr(it, b, st):
        return st, App("np" + opname, (_val(it, a, st), _val(it, b, st)), "ndarray")
    return None


def _cond(opname, p, q):
    if isinstance(p, Const) and isinstance(q, Const) and (opname in ("Eq", "NotEq") or isinstance(p.v, (int, float)) and isinstance(q.v, (int, float))):
        return boolv({"Eq": lambda: p.v == q.v, "NotEq": lambda: p.v != q.v, "Lt": lambda: p.v < q.v, "LtE": lambda: p.v <= q.v, "Gt": lambda: p.v > q.v, "GtE": lambda: p.v >= q.v}[opname]())
    return {"Eq": lambda: App("==", (p, q), "bool"), "NotEq": lambda: App("not", (App("==", (p, q), "bool"),), "bool"),
            "Lt": lambda: App("<", (p, q), "bool"), "LtE": lambda: App("<=", (p, q), "bool"),
            "Gt": lambda: App("<", (q, p), "bool"), "GtE": lambda: App("<=", (q, p), "bool")}[opname]()


def _cidx(it, k, st):
    k = st.facts.get(("val", k), k)
    if isinstance(k, Const) and isinstance(k.v, (int, bool)):
        return int(k.v)
    return None


def _pyslice(it, sl, st):
    vals = []
    for p in (sl.lo, sl.hi, sl.step):
        p = st.facts.get(("val", p), p)
        if not isinstance(p, Const):
            return None
        vals.append(p.v)
    return slice(*vals)


def _positions(it, key, n, st):
    """('int', i) | ('many', [i...]) | None."""
    i = _cidx(it, key, st)
    if i is not None:
        return ("int", i) if -n <= i < n else ("bad", i)
    if isinstance(key, SliceV):
        sl = _pyslice(it, key, st)
        return None if sl is None else ("many", list(range(n))[sl])
    if isinstance(key, Ref) and st.heap[key.oid].kind in ("list", "arr") or False:
        xs = [_cidx(it, x, st) for x in st.heap[key.oid].items]
        if None in xs:
            return None
        if any(not -n <= x < n for x in xs):
            return ("bad", xs)
        return "many", xs
    return None


def arr_item(it, obj, o, key, st):
    if isinstance(key, Tup) and len(key.items) == len(o.shape) == 2:
        p, q = _positions(it, key.items[0], o.shape[0], st), _positions(it, key.items[1], o.shape[1], st)
        if p is None or q is None:
            return None
        if "bad" in (p[0], q[0]):
            return it.raise_new(st, "IndexError", (key,))
        ri = [p[1]] if p[0] == "int" else p[1]
        ci = [q[1]] if q[0] == "int" else q[1]
        vals = [o.items[(i % o.shape[0]) * o.shape[1] + (j % o.shape[1])] for i in ri for j in ci]
        if p[0] == q[0] == "int":
            return st, vals[0]
        s = st.fork()
        sh = tuple(len(x) for x, y in ((ri, p), (ci, q)) if y[0] == "many")
        return s, s.alloc(ArrO(sh, vals, origin=o.origin))
    if isinstance(key, Tup) and len(key.items) == 1:
        key = key.items[0]
    if not o.shape:
        return None
    p = _positions(it, key, o.shape[0], st)
    if p is None:
        return None
    if p[0] == "bad":
        return it.raise_new(st, "IndexError", (key,))
    n = 1
    for d in o.shape[1:]:
        n *= d
    row = lambda i: list(o.items[(i % o.shape[0]) * n:(i % o.shape[0]) * n + n])
    if p[0] == "int":
        if len(o.shape) == 1:
            return st, row(p[1])[0]
        s = st.fork()
        return s, s.alloc(ArrO(o.shape[1:], row(p[1]), origin=o.origin))
    s = st.fork()
    return s, s.alloc(ArrO((len(p[1]),) + o.shape[1:], [x for i in p[1] for x in row(i)],
                           origin="fresh" if isinstance(key, Ref) else o.origin))


def arr_setitem(it, obj, o, key, value, st):
    if len(o.shape) == 1:
        p = _positions(it, key, o.shape[0], st)
        if p is None or p[0] == "bad":
            return None
        s = st.fork()
        items = list(o.items)
        if p[0] == "int":
            items[p[1]] = value
        else:
            v = _as_arr(it, value, st)
            if v is None:
                return None
            vs = v[1] * len(p[1]) if v[0] == () else v[1]
            if len(vs) != len(p[1]):
                return None
            for i, x in zip(p[1], vs):
                items[i] = x
        s.heap[obj.oid] = o.repl(items=tuple(items))
        return s
    if isinstance(key, Tup) and len(key.items) == len(o.shape) == 2:
        i, j = (_cidx(it, k, st) for k in key.items)
        if i is None or j is None:
            return None
        s = st.fork()
        items = list(o.items)
        items[(i % o.shape[0]) * o.shape[1] + (j % o.shape[1])] = value
        s.heap[obj.oid] = o.repl(items=tuple(items))
        return s
    return None


def minmax(it, kind, vals, st):
    a, b = vals
    x = it.lin_sub(a, b, st)
    if x is not None:
        if not x.terms:
            return a if (x.c <= 0) == (kind == "min") else b
        lo, hi = it.bounds(x, st)
        if hi is not None and hi <= 0:
            return a if kind == "min" else b
        if lo is not None and lo >= 0:
            return b if kind == "min" else a
    if a == b:
        return a
    return App(kind, tuple(sorted((a, b), key=repr)), "int")


def call(it, name, args, kwargs, st, ctx, node):
    short = name[len("numpy."):]
    if short in ("array", "asarray", "fromiter", "asanyarray", "asmatrix"):
        return _mk(it, short, args, kwargs, st, ctx, node)
    if short in ("any", "all", "where", "diff", "nonzero", "equal", "isnan", "squeeze", "atleast_1d", "atleast_2d", "sort", "reshape", "transpose", "expand_dims", "ravel", "swapaxes", "ndim", "shape",
                 "minimum", "maximum", "min", "max", "amin", "amax", "array_equal", "logical_or", "logical_and", "logical_not", "not_equal", "argmax", "argmin",
                 "flatnonzero", "count_nonzero", "argwhere", "flip"):
        return _fn(it, short, args, kwargs, st, ctx, node)
    return None


def _mk(it, short, args, kwargs, st, ctx, node):
    from .core import Raised
    from . import models
    v = args[0]
    kw = dict(kwargs)
    if short == "fromiter" and isinstance(v, Ref) or isinstance(v, Ref) and st.heap[v.oid].kind == "iter":
        for s, xs in models.materialise(it, v, st, ctx, node, it.cfg.loop_k):
            if isinstance(xs, Raised):
                yield s, xs
                continue
            s = s.fork()
            yield s, s.alloc(ArrO((len(xs),), xs))
        return
    dtype = args[1] if len(args) > 1 else kw.get("dtype", NONE)
    st = cast(it, st, dtype, v, node)
    r = _as_arr(it, v, st, True)
    if r is not None and "copy" not in kw:
        if dtype == NONE:
            tys = [it.types(x, st) or frozenset() for x in r[1]]
            if all(t == frozenset(["str"]) for t in tys) or not any("str" in t for t in tys):
                pass
            elif not any("NoneType" in t or "datetime" in t for t in tys):
                # Numbers among texts become texts.
                r = r[0], [x if t == frozenset(["str"]) else App("str", (x,), "str") for x, t in zip(r[1], tys)]
        if short == "asarray" and _is_arr(it, v, st):
            yield st, v
            return
        s = st.fork()
        yield s, s.alloc(ArrO(r[0], r[1]))
        return
    xs = st.heap[v.oid].items if isinstance(v, Ref) and st.heap[v.oid].kind == "list" and not st.heap[v.oid].open else v.items if isinstance(v, Tup) else ()
    if r is None and dtype != Const("object") and not (isinstance(dtype, Ext) and getattr(dtype, "name", "").endswith("object")) and any(isinstance(x, Tup) for x in xs) and any(isinstance(x, Const) and not isinstance(x.v, (str, bytes)) for x in xs):
        yield it.raise_new(st, "ValueError", (Const("setting an array element with a sequence"),))     # ragged
        return
    s = st.fork()
    if isinstance(v, Ref) and st.heap[v.oid].kind in ("list",):
        yield s, s.alloc(CopyO(App("np.array", (v, App("elems", (Tup(st.heap[v.oid].items),))), "ndarray"), tname="ndarray"))
        return
    extra = tuple(x for x in args[1:]) + tuple(x for _, x in kwargs)
    copying = short in ("array", "fromiter") and not (isinstance(kw.get("copy"), Const) and not kw["copy"].v)
    if copying:
        yield s, s.alloc(CopyO(App("np.array", (v,) + extra, "ndarray"), tname="ndarray"))
    elif _opaque_arr(it, v, s) and not extra:
        yield s, v
    else:
        yield s, App("asarray", (v,) + extra, "ndarray")
    yield from models.may_raise(it, st, ctx, "call", (Ext("numpy." + short), v), node)


NARROW = frozenset(["int8", "uint8", "int16", "uint16", "float16", "half", "short", "ushort", "byte", "ubyte", "i1", "u1", "i2", "u2", "f2"])


def cast(it, st, dtype, v, node):
    """The state, noting a conversion of computed numbers to ones too narrow for the coordinates of sheets."""
    if dtype == NONE:
        return st
    n = dtype.v if isinstance(dtype, Const) else getattr(dtype, "name", "")
    n = n.split(".")[-1].lstrip("<>=|") if isinstance(n, str) else ""
    if n in NARROW:
        r = _as_arr(it, v, st, True)
        if r is not None and all((it.types(x, st) or {0}) <= {"bool", "bool_"} for x in r[1]):
            return st
        try:
            ast.literal_eval(node.args[0])
            return st
        except (ValueError, TypeError, AttributeError, IndexError, SyntaxError):
            pass
        st = st.fork()
        st.event("cast", n, getattr(node, "lineno", None))
    return st


def _fn(it, short, args, kwargs, st, ctx, node):
    v = args[0]
    if _is_arr(it, v, st):
        o = st.heap[v.oid]
        if short in ("ndim", "shape"):
            yield st, arr_attr(it, v, o, short, st)
            return
        if short in ("expand_dims", "atleast_1d", "atleast_2d"):
            r = _reshape(it, v, o, short, args[1:], kwargs, st)
            if r is not None:
                yield from r
                return
        if short in ("any", "all", "nonzero", "min", "max", "amin", "amax", "squeeze", "reshape", "transpose", "ravel", "swapaxes"):
            yield from method(it, v, o, short.lstrip("a") if short in ("amin", "amax") else short, args[1:], kwargs, st, ctx, node)
            return
        if short in ("argmax", "argmin") and len(args) == 1 and not kwargs:
            r = _argbool(it, v, o, short, st)
            if r is not None:
                yield from r
                return
        if short == "logical_not":
            yield logical_not(it, o, st)
            return
        if short in ("logical_or", "logical_and", "logical_xor") and _is_arr(it, args[1], st):
            r = binop(it, {"logical_or": "|", "logical_and": "&", "logical_xor": "^"}[short], v, args[1], st)
            if r is not None:
                yield r
                return
        if short in ("not_equal", "equal"):
            r = cmpop(it, "Eq" if short == "equal" else "NotEq", v, args[1], st)
            if r is not None:
                yield r
                return
        if short == "flip" and len(o.shape) == 1:
            s = st.fork()
            yield s, s.alloc(ArrO(o.shape, o.items[::-1]))
            return
        if short == "count_nonzero" and len(args) == 1:
            for s, xs in _decided(it, o.items, st):
                yield s, Const(sum(xs))
            return
        if short in ("flatnonzero", "argwhere") and len(o.shape) == 1:
            for s, r in _nonzero(it, v, o, st):
                yield s, r.items[0]
            return
        if short == "diff" and len(args) == 1 and not kwargs and len(o.shape) == 1:
            if all((it.types(x, st) or {0}) <= {"bool", "bool_"} for x in o.items):
                # Of booleans made integers: all the differences are decided.
                for s, xs in _decided(it, o.items, st):
                    s = s.fork()
                    yield s, s.alloc(ArrO((max(len(xs) - 1, 0),), [Const(q - p) for p, q in zip(xs, xs[1:])]))
                return
            out = [_elem_op(it, "-", q, p, st) for p, q in zip(o.items, o.items[1:])]
            if None not in out:
                s = st.fork()
                yield s, s.alloc(ArrO((len(out),), out))
                return
        if short in ("minimum", "maximum"):
            x, y = _as_arr(it, v, st), _as_arr(it, args[1], st)
            if x and y:
                sh, xs, ys = _broadcast(x, y)
                if sh is not None:
                    s = st.fork()
                    yield s, s.alloc(ArrO(sh, [minmax(it, short[:3], (p, q), s) for p, q in zip(xs, ys)]))
                    return
        if short == "sort":
            s = st.fork()
            c = s.alloc(ArrO(o.shape, o.items))
            for s1, _ in method(it, c, s.heap[c.oid], "sort", args[1:], kwargs, s, ctx, node):
                yield s1, c
            return
    if short in ("minimum", "maximum") and len(args) == 2:
        x, y = _as_arr(it, v, st), _as_arr(it, args[1], st)
        if x and y:
            sh, xs, ys = _broadcast(x, y)
            if sh is not None:
                s = st.fork()
                if sh == ():
                    yield s, minmax(it, short[:3], (xs[0], ys[0]), s)
                else:
                    yield s, s.alloc(ArrO(sh, [minmax(it, short[:3], (p, q), s) for p, q in zip(xs, ys)]))
                return
    ts = tuple(_val(it, a, st) for a in args) + tuple(_val(it, a, st) for _, a in kwargs)
    if short in ("any", "all", "nonzero", "min", "max"):
        yield from _opq(it, short, ts[0], ts[1:], st)
        return
    if short == "where" and len(args) == 1 and _is_arr(it, v, st):
        yield from _nonzero(it, v, st.heap[v.oid], st)
        return
    if short == "where" and len(args) == 1:
        yield st, App("m:nonzero", ts, "tuple")
        return
    if short == "array_equal":
        yield st, App("np.array_equal", ts, "bool")
        return
    yield st, App("np." + short, ts, "ndarray")


def _opq(it, name, t, args, st):
    ty = {"any": "bool", "all": "bool", "nonzero": "tuple", "min": "int", "max": "int", "argmax": "int", "argmin": "int"}.get(name, "ndarray")
    yield st, App("m:" + name, (t,) + tuple(args), ty)


def opaque_method(it, obj, name, args, kwargs, st, ctx, node):
    """Pure methods of opaque arrays; None to decline."""
    if name in ("any", "all", "nonzero", "min", "max", "argmax", "argmin", "flatten", "astype", "squeeze", "reshape", "ravel", "copy", "transpose"):
        ts = tuple(_val(it, a, st) for a in args) + tuple(_val(it, a, st) for _, a in kwargs)
        t = _val(it, obj, st)
        if name in ("copy", "flatten", "astype"):
            s = st.fork()
            return iter([(s, s.alloc(CopyO(App("m:" + name, (t,) + ts, "ndarray"), tname="ndarray")))])
        return _opq(it, name, t, ts, st)
    if name == "tolist":
        s = st.fork()
        return iter([(s, s.alloc(CopyO(App("m:tolist", (_val(it, obj, st),)), tname="list")))])
    return None


def method(it, obj, o, name, args, kwargs, st, ctx, node):
    if name in ("all", "any") and not args and not kwargs:
        items = [x for x in o.items]
        cs = [x for x in items if not (isinstance(x, Const) and bool(x.v) == (name == "all"))]
        if any(isinstance(x, Const) for x in cs):
            return iter([(st, boolv(name == "any"))])
        if not cs:
            return iter([(st, boolv(name == "all"))])
        return iter([(st, cs[0] if len(cs) == 1 and it.types(cs[0], st) == frozenset(["bool"]) else App("and" if name == "all" else "or", cs, "bool"))])
    if name in ("all", "any") and len(o.shape) == 2 and len(args) + len(kwargs) == 1:
        axis = args[0] if args else dict(kwargs).get("axis")
        if isinstance(axis, Const) and axis.v in (0, 1, -1) and axis.v is not True:
            R, C = o.shape
            lines = [[o.items[i * C + j] for i in range(R)] for j in range(C)] if axis.v == 0 else [list(o.items[i * C:(i + 1) * C]) for i in range(R)]
            out = []
            for ln in lines:
                cs = [x for x in ln if not (isinstance(x, Const) and bool(x.v) == (name == "all"))]
                k = [x for x in cs if isinstance(x, Const)]
                out.append(boolv(name == "any") if k else boolv(name == "all") if not cs else
                           cs[0] if len(cs) == 1 and it.types(cs[0], st) == frozenset(["bool"]) else App("and" if name == "all" else "or", cs, "bool"))
            s = st.fork()
            return iter([(s, s.alloc(ArrO((len(out),), out)))])
    if name in ("reshape", "squeeze", "transpose", "swapaxes"):
        return _reshape(it, obj, o, name, args, kwargs, st)
    if name in ("argmax", "argmin") and not args and not kwargs:
        return _argbool(it, obj, o, name, st)
    if name == "sum" and not args and not kwargs and all((it.types(x, st) or {0}) <= {"bool", "bool_"} for x in o.items):
        return ((s, Const(sum(xs))) for s, xs in _decided(it, o.items, st))
    if name in ("flatten", "copy", "astype", "ravel"):
        s = st.fork()
        sh = o.shape
        if name in ("flatten", "ravel"):
            sh = (len(o.items),)
        items = o.items
        if name == "astype":
            st = cast(it, st, args[0] if args else dict(kwargs).get("dtype", NONE), obj, node)
            s = st.fork()
        if name == "astype" and args and isinstance(args[0], Ext) and args[0].name == "builtins.bool" and not all((it.types(x, st) or {0}) <= {"bool", "bool_"} for x in items):
            return None
        return iter([(s, s.alloc(ArrO(sh, items, origin=o.origin if name == "ravel" else "fresh")))])
    if name == "tolist":
        s = st.fork()
        return iter([(s, _nested(o.shape, list(o.items), s))])
    if name == "item" and len(o.items) == 1 and not args:
        return iter([(st, o.items[0])])
    if name == "nonzero":
        return _nonzero(it, obj, o, st)
    if name == "sort":
        axis = args[0] if args else dict(kwargs).get("axis", Const(-1))
        if not isinstance(axis, Const) or axis.v not in (0, -1, 1):
            return None
        s = st.fork()
        items = list(o.items)
        if len(o.shape) == 1 and o.shape[0] == 2:
            items = [minmax(it, "min", items, s), minmax(it, "max", items, s)]
        elif o.shape == (2, 2):
            for j in range(2):
                idx = (j, 2 + j) if axis.v == 0 else (2 * j, 2 * j + 1)
                a, b = items[idx[0]], items[idx[1]]
                items[idx[0]], items[idx[1]] = minmax(it, "min", (a, b), s), minmax(it, "max", (a, b), s)
        else:
            return None
        it.write(s, obj, "sort", axis, None, node, ctx)
        s.heap[obj.oid] = o.repl(items=tuple(items))
        return iter([(s, NONE)])
    if name in ("min", "max"):
        axis = args[0] if args else dict(kwargs).get("axis")
        s = st.fork()
        if axis is None:
            items = list(o.items)
            if not items:
                return None
            r = items[0]
            for x in items[1:]:
                r = minmax(it, name, (r, x), s)
            return iter([(s, r)])
        if isinstance(axis, Const) and len(o.shape) == 2 and axis.v in (0, 1):
            R, C = o.shape
            lines = [[o.items[i * C + j] for i in range(R)] for j in range(C)] if axis.v == 0 else [list(o.items[i * C:(i + 1) * C]) for i in range(R)]
            out = []
            for ln in lines:
                r = ln[0]
                for x in ln[1:]:
                    r = minmax(it, name, (r, x), s)
                out.append(r)
            return iter([(s, s.alloc(ArrO((len(out),), out)))])
    return None


def _decided(it, items, st):
    """States with all the elements decided as 0 or 1."""
    def rec(i, acc, s):
        if i == len(items):
            yield s, acc
            return
        for s1, b in it.truth(items[i], s):
            yield from rec(i + 1, acc + [int(b)], s1)
    yield from rec(0, [], st)


def _argbool(it, obj, o, name, st):
    """argmax/argmin of booleans: the first true/false one, or 0."""
    if not o.items or not all((it.types(x, st) or {0}) <= {"bool", "bool_"} for x in o.items):
        return None

    def rec(i, s):
        if i == len(o.items):
            yield s, Const(0)
            return
        for s1, b in it.truth(o.items[i], s):
            if b == (name == "argmax"):
                yield s1, Const(i)
            else:
                yield from rec(i + 1, s1)
    return rec(0, st)


def logical_not(it, o, st):
    s = st.fork()
    return s, s.alloc(ArrO(o.shape, [boolv(not x.v) if isinstance(x, Const) else x.args[0] if isinstance(x, App) and x.op == "not" else App("not", (x,), "bool") for x in o.items]))


def _nonzero(it, obj, o, st):
    import itertools
    idx = list(itertools.product(*map(range, o.shape)))

    def rec(i, acc, s):
        if i == len(o.items):
            s = s.fork()
            yield s, Tup([s.alloc(ArrO((len(acc),), [Const(j[d]) for j in acc])) for d in range(len(o.shape))])
            return
        for s1, b in it.truth(o.items[i], s):
            yield from rec(i + 1, acc + [idx[i]] if b else acc, s1)
    yield from rec(0, [], st)
