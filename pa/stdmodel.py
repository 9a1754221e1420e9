"""Pure library functions of the interpreter: folded on known values, and structural models of those that call back."""
import ast
import base64
import fnmatch
import functools
import html
import itertools
import json
import math
import operator
import posixpath
import re
import shlex
import string
import textwrap
import urllib.parse

from . import models as M
from .core import Raised, is_nan
from .values import App, Const, DictO, Ext, IterO, ListO, NONE, Partial, Ref, Str, Sym, Tup, boolv, mkstr

TRUE, FALSE = Const(True), Const(False)


class NotConst(Exception):
    pass


def py(v, st, it=None, depth=0):
    """The python value of a fully known abstract one."""
    if depth > 12:
        raise NotConst
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(py(x, st, it, depth + 1) for x in v.items)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, ListO) and not o.open and o.tname in ("list", "set", "tuple"):
            r = [py(x, st, it, depth + 1) for x in o.items]
            return frozenset(r) if o.tname == "set" else tuple(r) if o.tname == "tuple" else r
        if isinstance(o, DictO) and not o.open and o.tname == "dict":
            return {py(k, st, it, depth + 1): py(x, st, it, depth + 1) for k, x in M.live(o.items)}
    if isinstance(v, App) and v.op == "view" and v.args[1] in ("keys", "items") and isinstance(v.args[0], Ref):
        d = st.heap[v.args[0].oid]
        if isinstance(d, DictO) and not d.open:
            return frozenset(py(k, st, it, depth + 1) if v.args[1] == "keys" else (py(k, st, it, depth + 1), py(x, st, it, depth + 1)) for k, x in M.live(d.items))
    val = st.facts.get(("val", v)) if not isinstance(v, Ref) else None
    if val is not None:
        return py(val, st, it, depth + 1)
    raise NotConst


def ab(s, x):
    """The abstract value of a plain python one; `s` is forked already."""
    if isinstance(x, dict):
        return s.alloc(DictO([(ab(s, k), ab(s, v)) for k, v in x.items()]))
    if isinstance(x, list):
        return s.alloc(ListO([ab(s, v) for v in x]))
    if isinstance(x, (set, frozenset)):
        return s.alloc(ListO([ab(s, v) for v in sorted(x, key=repr)], tname="set"))
    if isinstance(x, tuple):
        return Tup([ab(s, v) for v in x])
    return Const(x)


PLAIN = (int, float, complex, str, bytes, bytearray, list, tuple, set, dict, type(None))


def known(name, fn):
    """`name` is `fn` on known arguments, opaque otherwise."""

    def f(it, args, kwargs, st, ctx, node):
        try:
            a = [py(it.strval(x, st), st, it) for x in args]
            kw = {k: py(it.strval(x, st), st, it) for k, x in kwargs if k is not None}
            if len(kw) != len(kwargs):
                raise NotConst
        except (NotConst, TypeError):
            yield from M.opaque_call(it, Ext(name), args, kwargs, st, ctx, node, name)
            return
        try:
            r = fn(*a, **kw)
        except Exception as ex:
            n = type(ex).__name__
            yield it.raise_new(st, n if n in ("TypeError", "ValueError", "OverflowError", "ZeroDivisionError", "IndexError", "KeyError") else "ValueError", (Const(str(ex)),))
            return
        if not isinstance(r, PLAIN):
            yield from M.opaque_call(it, Ext(name), args, kwargs, st, ctx, node, name)
            return
        s = st.fork()
        v = ab(s, r)
        s.event("call", name, tuple(args), tuple(kwargs), it.loc(ctx, node) if node is not None else "?", v, Ext(name))
        yield s, v

    M.EXT.setdefault(name, f)


for _n, _f in (("builtins.pow", pow), ("builtins.ascii", ascii), ("builtins.bytes", bytes), ("builtins.bytearray", bytearray), ("builtins.complex", complex),
               ("json.dumps", json.dumps), ("re.findall", re.findall), ("re.split", re.split), ("re.subn", re.subn),
               ("string.capwords", string.capwords), ("textwrap.dedent", textwrap.dedent), ("textwrap.indent", textwrap.indent), ("textwrap.fill", textwrap.fill),
               ("html.escape", html.escape), ("html.unescape", html.unescape), ("urllib.parse.quote", urllib.parse.quote), ("urllib.parse.unquote", urllib.parse.unquote),
               ("urllib.parse.quote_plus", urllib.parse.quote_plus), ("urllib.parse.unquote_plus", urllib.parse.unquote_plus),
               ("shlex.split", shlex.split), ("shlex.quote", shlex.quote), ("fnmatch.fnmatch", fnmatch.fnmatch), ("fnmatch.fnmatchcase", fnmatch.fnmatchcase),
               ("fnmatch.translate", fnmatch.translate), ("os.path.join", posixpath.join), ("os.path.isabs", posixpath.isabs), ("os.path.commonprefix", posixpath.commonprefix),
               ("os.path.splitdrive", posixpath.splitdrive), ("os.path.commonpath", posixpath.commonpath)):
    known(_n, _f)
for _n in ("floor ceil sqrt trunc fabs isnan isinf isfinite log log2 log10 exp gcd lcm fmod modf copysign hypot pow prod fsum comb perm factorial isqrt isclose degrees radians").split():
    known("math." + _n, getattr(math, _n))
_isnan = M.EXT["math.isnan"]


@M.ext("math.isnan")
def m_isnan(it, args, kwargs, st, ctx, node):
    if len(args) == 1 and not kwargs:
        x = it.strval(args[0], st)
        ty = it.types(x, st)
        if is_nan(x):
            yield st, TRUE
            return
        if ty and ty <= {"int", "bool", "float", "float64", "float32", "int64", "int32"}:
            # As when comparing floats: not NaN, unless said so.
            yield st, FALSE
            return
        if ty and ty <= {"str", "bytes", "NoneType", "list", "dict", "tuple", "set", "datetime", "date", "OrderedDict"}:
            yield it.raise_new(st, "TypeError", (Const("must be real number"),))
            return
    yield from _isnan(it, args, kwargs, st, ctx, node)


_dumps, _cp, _join = M.EXT["json.dumps"], M.EXT["os.path.commonprefix"], M.EXT["os.path.join"]


@M.ext("builtins.format")
def b_format(it, args, kwargs, st, ctx, node):
    if len(args) == 1 or isinstance(args[1], Const) and args[1].v == "":
        yield from M.b_str(it, args[:1], (), st, ctx, node)
        return
    try:
        yield st, Const(format(py(it.strval(args[0], st), st), py(args[1], st)))
    except NotConst:
        yield st, App("fmt", (args[0], "", args[1]), "str")
    except (ValueError, TypeError) as ex:
        yield it.raise_new(st, type(ex).__name__, (Const(str(ex)),))


@M.ext("re.sub")
def b_resub(it, args, kwargs, st, ctx, node):
    names = ("pattern", "repl", "string", "count", "flags")
    kw = dict(zip(names, args))
    kw.update(kwargs)
    p = kw.get("pattern")
    if not (isinstance(p, App) and p.op == "re"):
        p = App("re", (it.strval(p, st), kw.get("flags", Const(0))), "Pattern")
    r = re_sub(it, p, kw.get("repl"), kw.get("string"), kw.get("count", Const(0)), st, ctx, node)
    if r is None:
        yield from M.opaque_call(it, Ext("re.sub"), args, kwargs, st, ctx, node, "re.sub", "str")
    else:
        yield from r


@M.ext("re.finditer")
def b_finditer(it, args, kwargs, st, ctx, node):
    p = args[0]
    if not (isinstance(p, App) and p.op == "re"):
        p = App("re", (it.strval(p, st), args[2] if len(args) > 2 else M.kwget(kwargs, "flags", Const(0))), "Pattern")
    r = re_finditer(it, p, args[1], st)
    if r is None:
        yield from M.opaque_call(it, Ext("re.finditer"), args, kwargs, st, ctx, node, "re.finditer")
    else:
        yield r


def compiled(p):
    if isinstance(p, App) and p.op == "re" and isinstance(p.args[0], Const):
        fl = M.re_flags(p.args[1])
        if fl is not None:
            try:
                return re.compile(p.args[0].v, fl)
            except (re.error, TypeError):
                return None
    return None


def match_at(p, s, m, st):
    """(state is forked already) the abstract match of a concrete one."""
    term = App("match", (Const("at:%d" % m.start()), p, s))
    st.facts[("truth", term)] = True
    st.facts[("notnone", term)] = True
    st.over[(term, "cmatch", None)] = App("cm", (tuple(map(Const, m.groups())), tuple(sorted((k, Const(x)) for k, x in m.groupdict().items())), Const(m.group(0))))
    return term


def concrete_match(m):
    """The concrete match behind a match-term of a known text."""
    kind, p, s = m.args[:3]
    rx = compiled(p)
    if rx is None or not isinstance(s, Const) or not isinstance(kind, Const):
        return None
    if kind.v.startswith("at:"):
        return rx.match(s.v, int(kind.v[3:]))
    return getattr(rx, kind.v)(s.v)


def re_finditer(it, p, text, st):
    rx, t = compiled(p), it.strval(text, st)
    if rx is None or not isinstance(t, Const) or not isinstance(t.v, (str, bytes)):
        return None
    s = st.fork()
    ms = [match_at(p, t, m, s) for m in rx.finditer(t.v)]
    return s, s.alloc(IterO(("seq", tuple(ms))))


def re_sub(it, p, repl, text, count, st, ctx, node):
    rx, t, repl = compiled(p), it.strval(text, st), it.strval(repl, st)
    if rx is None or not isinstance(t, Const) or not isinstance(count, Const) or not isinstance(t.v, (str, bytes)):
        return None
    if isinstance(repl, Const):
        return [(st, Const(rx.sub(repl.v, t.v, count.v)))]
    if M.is_str(it, repl, st):
        return None

    def gen():
        s0 = st.fork()
        ms = list(rx.finditer(t.v))[:count.v or None]

        def rec(i, s, out, pos):
            if i == len(ms):
                yield s, mkstr(out + [t.v[pos:]])
                return
            m = ms[i]
            s = s.fork()
            mt = match_at(p, t, m, s)
            for s2, r in it.call(repl, (mt,), (), s, ctx, node):
                if isinstance(r, Raised):
                    yield s2, r
                else:
                    yield from rec(i + 1, s2, out + [t.v[pos:m.start()], it.strval(r, s2)], m.end())

        yield from rec(0, s0, [], 0)

    return gen()


# --------------------------------------------------------------------------- operator
BIN = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "and_": "&", "or_": "|", "xor": "^", "lshift": "<<", "rshift": ">>",
       "concat": "+", "matmul": "@"}
CMP = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "is_": ast.Is, "is_not": ast.IsNot}
INP = {"iadd": "+", "isub": "-", "imul": "*", "ior": "|", "iand": "&", "ixor": "^"}


def _op(names, f):
    for n in names:
        for full in ("operator." + n, "operator.__%s__" % n.strip("_")):
            M.EXT.setdefault(full, f)


for _n, _o in BIN.items():
    _op([_n], lambda it, args, kwargs, st, ctx, node, o=_o: it.binop(o, args[0], args[1], st, ctx, node))
for _n, _o in CMP.items():
    _op([_n], lambda it, args, kwargs, st, ctx, node, o=_o: it.cmp(o(), args[0], args[1], st, ctx, node))
for _n, _o in INP.items():
    _op([_n], lambda it, args, kwargs, st, ctx, node, o=_o: M.inplace(it, o, args[0], args[1], st, ctx, node))
_op(["contains"], lambda it, args, kwargs, st, ctx, node: M.contains(it, args[1], args[0], st, ctx, node))
_op(["getitem"], lambda it, args, kwargs, st, ctx, node: M.getitem(it, args[0], args[1], st, ctx, node))


def o_not(it, args, kwargs, st, ctx, node):
    for s, b in it.truth(args[0], st):
        yield s, boolv(not b)


def o_truth(it, args, kwargs, st, ctx, node):
    for s, b in it.truth(args[0], st):
        yield s, boolv(b)


def o_setitem(it, args, kwargs, st, ctx, node):
    for s, err in M.setitem(it, args[0], args[1], args[2], st, ctx, node):
        yield s, err if err is not None else NONE


def o_delitem(it, args, kwargs, st, ctx, node):
    for s, err in M.delitem(it, args[0], args[1], st, ctx, node):
        yield s, err if err is not None else NONE


_op(["not_"], o_not)
_op(["truth"], o_truth)
_op(["setitem"], o_setitem)
_op(["delitem"], o_delitem)


@M.ext("operator.neg", "operator.__neg__")
def o_neg(it, args, kwargs, st, ctx, node):
    if isinstance(args[0], Const):
        yield st, Const(-args[0].v)
    else:
        yield from it.binop("-", Const(0), args[0], st, ctx, node)


@M.ext("operator.methodcaller")
def o_methodcaller(it, args, kwargs, st, ctx, node):
    yield st, Partial(Ext("%methodcaller"), (args[0], Tup(args[1:]), Tup([Tup((Const(k), v)) for k, v in kwargs])), ())


@M.ext("%methodcaller")
def o_methodcall(it, args, kwargs, st, ctx, node):
    name, a, kw, obj = args
    for s, m in it.getattr_(obj, name.v, st, ctx, node):
        if isinstance(m, Raised):
            yield s, m
        else:
            yield from it.call(m, a.items, tuple((p.items[0].v, p.items[1]) for p in kw.items), s, ctx, node)


def each(it, fns, st):
    """Run every generator-function of a state in turn, collecting their values."""
    def rec(i, s, out):
        if i == len(fns):
            yield s, out
            return
        for s2, r in fns[i](s):
            if isinstance(r, Raised):
                yield s2, r
            else:
                yield from rec(i + 1, s2, out + [r])

    yield from rec(0, st, [])


@M.ext("%itemgetter")
def o_itemget(it, args, kwargs, st, ctx, node):
    if len(args) == 2:
        yield from M.getitem(it, args[1], args[0], st, ctx, node)
        return
    for s, r in each(it, [lambda s, k=k: M.getitem(it, args[-1], k, s, ctx, node) for k in args[:-1]], st):
        yield s, r if isinstance(r, Raised) else Tup(r)


@M.ext("%attrgetter")
def o_attrget(it, args, kwargs, st, ctx, node):
    def get(path, s, v):
        for s2, r in it.getattr_(v, path[0], s, ctx, node):
            if isinstance(r, Raised) or len(path) == 1:
                yield s2, r
            else:
                yield from get(path[1:], s2, r)

    if not all(isinstance(a, Const) and isinstance(a.v, str) for a in args[:-1]):
        M.und("attrgetter")
    if len(args) == 2:
        yield from get(args[0].v.split("."), st, args[1])
        return
    for s, r in each(it, [lambda s, k=k: get(k.v.split("."), s, args[-1]) for k in args[:-1]], st):
        yield s, r if isinstance(r, Raised) else Tup(r)


# --------------------------------------------------------------------------- itertools
def eager(*names):
    """Iterators computed out of their whole input."""
    def deco(f):
        def g(it, args, kwargs, st, ctx, node):
            for s, es in M.materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
                if isinstance(es, Raised):
                    yield s, es
                else:
                    yield from f(it, es, args[1:], kwargs, s, ctx, node)
        for n in names:
            M.EXT[n] = g
        return f
    return deco


def seq(s, xs):
    s = s.fork()
    return s, s.alloc(IterO(("seq", tuple(xs))))


@eager("itertools.accumulate")
def i_accumulate(it, es, args, kwargs, st, ctx, node):
    fn = args[0] if args else M.kwget(kwargs, "func", NONE)
    ini = M.kwget(kwargs, "initial", NONE)
    es = list(es)
    if not (isinstance(ini, Const) and ini.v is None):
        es = [ini] + es
    if not es:
        yield seq(st, ())
        return

    def rec(out, rest, s):
        if not rest:
            yield seq(s, out)
            return
        rs = it.binop("+", out[-1], rest[0], s, ctx, node) if isinstance(fn, Const) else it.call(fn, (out[-1], rest[0]), (), s, ctx, node)
        for s2, r in rs:
            if isinstance(r, Raised):
                yield s2, r
            else:
                yield from rec(out + [r], rest[1:], s2)

    yield from rec(es[:1], es[1:], st)


@eager("itertools.combinations")
def i_comb(it, es, args, kwargs, st, ctx, node):
    n = M.cint(it, args[0] if args else M.kwget(kwargs, "r"), st)
    if n is None:
        M.und("combinations")
    yield seq(st, [Tup(p) for p in itertools.combinations(es, n)])


@eager("itertools.combinations_with_replacement")
def i_combr(it, es, args, kwargs, st, ctx, node):
    n = M.cint(it, args[0], st)
    if n is None:
        M.und("combinations")
    yield seq(st, [Tup(p) for p in itertools.combinations_with_replacement(es, n)])


@eager("itertools.permutations")
def i_perm(it, es, args, kwargs, st, ctx, node):
    n = M.cint(it, args[0], st) if args else None
    yield seq(st, [Tup(p) for p in itertools.permutations(es, n)])


@eager("itertools.pairwise")
def i_pairwise(it, es, args, kwargs, st, ctx, node):
    yield seq(st, [Tup(p) for p in zip(es, es[1:])])


@eager("itertools.tee")
def i_tee(it, es, args, kwargs, st, ctx, node):
    n = M.cint(it, args[0], st) if args else 2
    out, s = [], st
    for _ in range(n):
        s, v = seq(s, es)
        out.append(v)
    yield s, Tup(out)


@M.ext("itertools.starmap")
def i_starmap(it, args, kwargs, st, ctx, node):
    for s, es in M.materialise(it, args[1], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, Raised):
            yield s, es
            continue

        def one(x):
            def f(s1):
                for s2, xs in it._expand_star(x, s1, ctx, node):
                    if isinstance(xs, Raised):
                        yield s2, xs
                    else:
                        yield from it.call(args[0], tuple(xs), (), s2, ctx, node)
            return f

        for s2, r in each(it, [one(x) for x in es], s):
            if isinstance(r, Raised):
                yield s2, r
            else:
                yield seq(s2, r)


@M.ext("itertools.zip_longest")
def i_zipl(it, args, kwargs, st, ctx, node):
    fill = M.kwget(kwargs, "fillvalue", NONE)
    for s, cols in each(it, [lambda s1, a=a: M.materialise(it, a, s1, ctx, node, it.cfg.loop_k) for a in args], st):
        if isinstance(cols, Raised):
            yield s, cols
        else:
            yield seq(s, [Tup(p) for p in itertools.zip_longest(*cols, fillvalue=fill)])


def truths(it, fn, es, st, ctx, node):
    """(state, the truth of fn(x) of every element)."""
    def one(x):
        def f(s):
            rs = [(s, x)] if isinstance(fn, Const) and fn.v is None else it.call(fn, (x,), (), s, ctx, node)
            for s1, r in rs:
                if isinstance(r, Raised):
                    yield s1, r
                else:
                    yield from it.truth(r, s1)
        return f

    yield from each(it, [one(x) for x in es], st)


@M.ext("itertools.filterfalse")
def i_filterfalse(it, args, kwargs, st, ctx, node):
    for s, es in M.materialise(it, args[1], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, Raised):
            yield s, es
            continue
        for s2, bs in truths(it, args[0], es, s, ctx, node):
            yield (s2, bs) if isinstance(bs, Raised) else seq(s2, [x for x, b in zip(es, bs) if not b])


@M.ext("itertools.compress")
def i_compress(it, args, kwargs, st, ctx, node):
    for s, cols in each(it, [lambda s1, a=a: M.materialise(it, a, s1, ctx, node, it.cfg.loop_k) for a in args], st):
        if isinstance(cols, Raised):
            yield s, cols
            continue
        for s2, bs in truths(it, NONE, cols[1], s, ctx, node):
            yield (s2, bs) if isinstance(bs, Raised) else seq(s2, [x for x, b in zip(cols[0], bs) if b])


@M.ext("itertools.dropwhile")
def i_dropwhile(it, args, kwargs, st, ctx, node):
    for s, es in M.materialise(it, args[1], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, Raised):
            yield s, es
            continue

        def rec(i, s1):
            if i == len(es):
                yield seq(s1, ())
                return
            for s2, r in it.call(args[0], (es[i],), (), s1, ctx, node):
                if isinstance(r, Raised):
                    yield s2, r
                    continue
                for s3, b in it.truth(r, s2):
                    if b:
                        yield from rec(i + 1, s3)
                    else:
                        yield seq(s3, es[i:])

        yield from rec(0, s)


@M.ext("itertools.groupby")
def i_groupby(it, args, kwargs, st, ctx, node):
    key = args[1] if len(args) > 1 else M.kwget(kwargs, "key", NONE)
    for s, es in M.materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, Raised):
            yield s, es
            continue
        kf = [(lambda s1, x=x: [(s1, x)] if isinstance(key, Const) else it.call(key, (x,), (), s1, ctx, node)) for x in es]
        for s2, ks in each(it, kf, s):
            if isinstance(ks, Raised):
                yield s2, ks
                continue

            def rec(i, groups, s3):
                if i == len(es):
                    s3, out = s3.fork(), []
                    for k, g in groups:
                        out.append(Tup((k, s3.alloc(IterO(("seq", tuple(g)))))))
                    yield seq(s3, out)
                    return
                if not groups:
                    yield from rec(1, [(ks[0], [es[0]])], s3)
                    return
                for s4, eq in it.truth(App("==", (groups[-1][0], ks[i]), "bool"), s3):
                    if eq:
                        yield from rec(i + 1, groups[:-1] + [(groups[-1][0], groups[-1][1] + [es[i]])], s4)
                    else:
                        yield from rec(i + 1, groups + [(ks[i], [es[i]])], s4)

            yield from rec(0, [], s2)


@M.ext("itertools.count")
def i_count(it, args, kwargs, st, ctx, node):
    start = args[0] if args else M.kwget(kwargs, "start", Const(0))
    step = args[1] if len(args) > 1 else M.kwget(kwargs, "step", Const(1))
    s = st.fork()
    yield s, s.alloc(IterO(("count", start, step)))


@M.ext("itertools.cycle")
def i_cycle(it, args, kwargs, st, ctx, node):
    for s, es in M.materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, Raised):
            yield s, es
        elif not es:
            yield seq(s, ())
        else:
            s = s.fork()
            yield s, s.alloc(IterO(("cycle", tuple(es))))


# --------------------------------------------------------------------------- collections, contextlib
@M.ext("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
def d_fromkeys(it, args, kwargs, st, ctx, node):
    v = args[1] if len(args) > 1 else NONE
    for s, es in M.materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, Raised):
            yield s, es
            continue
        items = ()
        for e in es:
            items = it._put(items, e, v)
        s = s.fork()
        yield s, s.alloc(DictO(items))


@M.ext("collections.deque")
def c_deque(it, args, kwargs, st, ctx, node):
    if len(args) > 1 or kwargs:
        yield from M.opaque_call(it, Ext("collections.deque"), args, kwargs, st, ctx, node, "collections.deque")
        return
    if not args:
        s = st.fork()
        yield s, s.alloc(ListO(tname="deque"))
        return
    for s, es in M.materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, Raised):
            yield s, es
        else:
            s = s.fork()
            yield s, s.alloc(ListO(es, tname="deque"))


@M.ext("collections.Counter")
def c_counter(it, args, kwargs, st, ctx, node):
    import collections
    try:
        c = collections.Counter(*[py(a, st) for a in args], **{k: py(v, st) for k, v in kwargs})
    except (NotConst, TypeError):
        yield from M.opaque_call(it, Ext("collections.Counter"), args, kwargs, st, ctx, node, "collections.Counter")
        return
    s = st.fork()
    yield s, s.alloc(DictO([(Const(k), Const(v)) for k, v in c.items()], tname="Counter"))


@M.ext("contextlib.contextmanager")
def c_cm(it, args, kwargs, st, ctx, node):
    yield st, Partial(Ext("%contextmanager"), (args[0],), ())


@M.ext("%contextmanager")
def c_cmcall(it, args, kwargs, st, ctx, node):
    for s, g in it.call(args[0], args[1:], kwargs, st, ctx, node):
        if isinstance(g, Raised):
            yield s, g
        elif isinstance(g, Ref) and isinstance(s.heap[g.oid], IterO):
            yield s, App("gencm", (g,))
        else:
            yield from M.opaque_call(it, Ext("contextlib.contextmanager"), args, kwargs, s, ctx, node, "contextlib.contextmanager")


@M.ext("contextlib.suppress")
def c_suppress(it, args, kwargs, st, ctx, node):
    yield st, App("suppress", tuple(args))


@M.ext("contextlib.nullcontext")
def c_nullcontext(it, args, kwargs, st, ctx, node):
    yield st, App("nullcm", tuple(args[:1]) or (NONE,))


@M.ext("contextlib.closing")
def c_closing(it, args, kwargs, st, ctx, node):
    yield st, App("closing", tuple(args))


@M.ext("functools.cmp_to_key")
def f_cmp_to_key(it, args, kwargs, st, ctx, node):
    yield st, App("cmp_to_key", (args[0] if args else dict(kwargs)["mycmp"],))


_relpath = M.EXT.get("os.path.relpath")


@M.ext("os.path.relpath")
def os_relpath(it, args, kwargs, st, ctx, node):
    try:
        a = [py(it.strval(x, st), st, it) for x in args]
        if not kwargs and len(a) == 2 and all(isinstance(x, str) and x.startswith("/") for x in a):
            yield st, Const(posixpath.relpath(*a))
            return
    except NotConst:
        pass
    yield from (_relpath(it, args, kwargs, st, ctx, node) if _relpath else M.opaque_call(it, Ext("os.path.relpath"), args, kwargs, st, ctx, node, "os.path.relpath"))
