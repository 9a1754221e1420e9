"""Models of builtins, containers, strings and library calls for the abstract interpreter."""
import ast
import re

from .values import *
from . import typesys as T


def _core():
    from . import core
    return core


def R():
    from .core import Raised
    return Raised


def und(msg):
    from .core import Undecided
    raise Undecided(msg)


SPECIAL = set("/~.\\:#!?()[]{}*+^$|@%&;, \t\n\r\"'<>=-_0123456789")


def isword(v):
    return isinstance(v, Sym) and "word" in v.flags


def strparts(it, v, st):
    """Parts of a known-structure string (constants and words), or None."""
    v = it.strval(v, st)
    if isinstance(v, Const):
        return (v.v,) if isinstance(v.v, str) else None
    val = st.facts.get(("val", v))
    if val is not None:
        return (val.v,) if isinstance(val.v, str) else None
    if isword(v):
        return (v,)
    if isinstance(v, Str):
        if all(isinstance(p, str) or isword(p) for p in v.parts):
            return v.parts
    return None


# constants of the standard library (on a posix system)
EXT_CONST = {k: Const(v) for k, v in {"os.sep": "/", "os.path.sep": "/", "os.pathsep": ":", "os.path.pathsep": ":", "os.curdir": ".", "os.pardir": "..", "os.extsep": ".",
             "string.ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz", "string.digits": "0123456789",
             "string.ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"}.items()}
for _i, _n in enumerate("EMPTY TEXT NUMBER DATE BOOLEAN ERROR BLANK".split()):
    for _m in ("xlrd.", "xlrd.biffh.", "xlrd.sheet."):
        EXT_CONST[_m + "XL_CELL_" + _n] = Const(_i)


def subst(parts, reps=None):
    """Text with words replaced by letter-only stand-ins, their spans, and the stand-ins."""
    out, spans, names, pos, seen = [], [], {}, 0, {}
    for p in parts:
        if isinstance(p, str):
            t = p
        else:
            if p not in seen:
                k = len(seen)
                t = reps[k % len(reps)] if reps else "qz%sxj" % chr(97 + k)
                if "letter" in p.flags:
                    t = t[0] if reps else "\u0250\u0251\u0252\u0253\u0254\u0255"[k]
                if "upper" in p.flags:
                    t = t.upper()
                elif "lower" in p.flags:
                    t = t.lower()
                seen[p] = t
                names[t] = p
            t = seen[p]
            spans.append((pos, pos + len(t), p))
        out.append(t)
        pos += len(t)
    return "".join(out), spans, names


def unsubst(text, names):
    """Structured string of a text containing stand-ins."""
    if not names:
        return Const(text)
    out = []
    for bit in re.split("(%s)" % "|".join(map(re.escape, sorted(names, key=len, reverse=True))), text):
        out.append(names.get(bit, bit))
    return mkstr(out)


def via_text(f, parts):
    """Result of a function of texts treating all words alike, on a structured string (constant propagation with stand-ins)."""
    t, _, names = subst(parts)
    r = f(t)
    return Tup([unsubst(x, names) for x in r]) if isinstance(r, tuple) else unsubst(r, names) if isinstance(r, str) else Const(r)


def slice_text(text, spans, a, b):
    """Structured string of text[a:b], or None when cutting a word."""
    out, pos = [], a
    for x, y, w in spans:
        if y <= a or x >= b:
            continue
        if x < a or y > b:
            return None
        out += [text[pos:x], w]
        pos = y
    out.append(text[pos:b])
    return mkstr(out)


WORD_REPS = (("qzaxj", "qzbxj", "qzcxj", "qzdxj"), ("Q", "Z", "J", "X"), ("zq", "JZ", "xQ", "Qx"), ("Zkwzkwzkwzkwzkwzkw", "kwjkwj", "WKJ", "jwkj"))


def re_struct(pat, fl, kind, parts):
    """Match outcome of a structured string, when it is the same whatever its words: None (unknown), False, or (groups, dict, whole)."""
    try:
        rx = re.compile(pat, fl)
    except re.error:
        return None
    res = []
    for reps in WORD_REPS:
        if len({p for p in parts if not isinstance(p, str)}) > len(reps):
            return None
        t, spans, _ = subst(parts, reps)
        m = getattr(rx, kind)(t)
        if m is None:
            res.append(False)
            continue
        gs = []
        for i in range(rx.groups + 1):
            if m.start(i) < 0:
                gs.append(NONE)
            else:
                gs.append(slice_text(t, spans, *m.span(i)))
        res.append(gs)
    if any((r is False) != (res[0] is False) for r in res):
        return None
    if res[0] is False:
        return False
    # groups that depend on the words' lengths stay unknown
    gs = [gs[0] if all(g == gs[0] for g in gs) and gs[0] is not None else App("group", (pat, kind, tuple(parts), i), {"str", "NoneType"} if any(g == NONE for g in gs) else "str")
          for i, gs in enumerate(zip(*res))]
    return tuple(gs[1:]), tuple(sorted((k, gs[i]) for k, i in rx.groupindex.items())), gs[0]


def is_str(it, v, st):
    v = it.strval(v, st)
    return isinstance(v, Str) or isinstance(v, Const) and isinstance(v.v, str) or it.types(v, st) == frozenset(["str"])


def pyop(op, a, b):
    import operator as o
    return {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod, "**": o.pow, "|": o.or_, "&": o.and_,
            "^": o.xor, "<<": o.lshift, ">>": o.rshift}[op](a, b)


SETUPD = {"|": "update", "-": "difference_update", "&": "intersection_update", "^": "symmetric_difference_update"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "|": "or", "&": "and", "^": "xor", "<<": "lshift", ">>": "rshift",
          "@": "matmul"}


def user_binop(it, op, a, b, st, ctx, node):
    """The operator, when a class of the analysed code defines it; else None."""
    def meth(x, name):
        ci = it.find_class(x, st)
        m = ci.lookup(name) if ci is not None else None
        return m if isinstance(m, FuncV) else None

    ma, mb = meth(a, "__%s__" % DUNDER[op]), meth(b, "__r%s__" % DUNDER[op])
    if ma is None and mb is None:
        return None

    def gen():
        if ma is None:
            yield from it.call(Bound(mb, b), (a,), (), st, ctx, node)
            return
        for s, r in it.call(Bound(ma, a), (b,), (), st, ctx, node):
            if not (isinstance(r, Ext) and r.name == "builtins.NotImplemented"):
                yield s, r
            elif mb is not None:
                yield from it.call(Bound(mb, b), (a,), (), s, ctx, node)
            else:
                yield it.raise_new(s, "TypeError", (Const("unsupported operand types"),))

    return gen()


def enum_members(it, info, st):
    """Turn the attributes of an enumeration into its members."""
    if info.builtin_base() != "Enum":
        return
    n = 0
    for k, v in list(info.attrs.items()):
        if k.startswith("_") or isinstance(v, (FuncV, _core().PropV, _core().StaticV)):
            continue
        if isinstance(v, App) and v.op == "call:enum.auto":
            v = Const(n + 1)
        n = v.v if isinstance(v, Const) and isinstance(v.v, int) else n
        d = st.alloc(DictO([(Const("name"), Const(k)), (Const("value"), v), (Const("_name_"), Const(k)), (Const("_value_"), v)]))
        info.attrs[k] = st.alloc(InstO(ClsV(info), d.oid))
        info.__dict__.setdefault("members", []).append((k, v, info.attrs[k]))


def enum_call(it, info, args, st):
    def rec(ms, st):
        if not ms:
            yield it.raise_new(st, "ValueError", (Const("not a valid %s" % info.name),))
            return
        for s, eq in it.compare_eq(ms[0][1], args[0], st):
            if eq:
                yield s, ms[0][2]
            else:
                yield from rec(ms[1:], s)
    if len(args) != 1:
        und("call of an enumeration")
    yield from rec(info.__dict__.get("members", []), st)


def synthesise(it, what, dec, info, n, st, ctx):
    """The methods that a class decorator of the standard library adds."""
    src = []
    if what == "total_ordering":
        have = [x for x in ("__lt__", "__le__", "__gt__", "__ge__") if x in info.attrs]
        if not have:
            und("total_ordering without order")
        root = have[0]
        op = {"__lt__": "self < o", "__gt__": "self > o", "__le__": "self <= o", "__ge__": "self >= o"}[root]
        alt = {"__lt__": {"__gt__": "not (%s or self == o)", "__le__": "%s or self == o", "__ge__": "not (%s)"},
               "__le__": {"__ge__": "not (%s) or self == o", "__lt__": "%s and not self == o", "__gt__": "not (%s)"},
               "__gt__": {"__lt__": "not (%s or self == o)", "__ge__": "%s or self == o", "__le__": "not (%s)"},
               "__ge__": {"__le__": "not (%s) or self == o", "__gt__": "%s and not self == o", "__lt__": "not (%s)"}}[root]
        for k, t in alt.items():
            if k not in info.attrs:
                src.append("def %s(self, o):\n    return %s\n" % (k, t % op))
    else:
        opts = {k.arg: k.value.value for k in dec.keywords if isinstance(k.value, ast.Constant)} if isinstance(dec, ast.Call) else {}
        if set(opts) - {"frozen", "eq", "repr"} or isinstance(dec, ast.Call) and len(opts) != len(dec.keywords):
            und("options of a dataclass")
        if any(isinstance(b, ClsV) for b in info.bases):
            und("dataclass with bases")
        fields = []
        for x in n.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                if "ClassVar" in ast.unparse(x.annotation):
                    continue
                fields.append((x.target.id, x.value))
        ps, body = [], []
        for f, d in fields:
            if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                kw = {k.arg: k.value for k in d.keywords}
                if set(kw) - {"default", "default_factory", "repr", "compare"}:
                    und("field options")
                if "default_factory" in kw:
                    ps.append("%s=..." % f)
                    body.append("    object.__setattr__(self, %r, %s() if %s is ... else %s)\n" % (f, ast.unparse(kw["default_factory"]), f, f))
                    continue
                d = kw.get("default")
                if d is not None:
                    info.attrs[f] = Const(d.value) if isinstance(d, ast.Constant) else und("field default")
            ps.append(f if d is None else "%s=%s" % (f, ast.unparse(d)))
            body.append("    object.__setattr__(self, %r, %s)\n" % (f, f))
        if "__post_init__" in info.attrs:
            body.append("    self.__post_init__()\n")
        if "__init__" not in info.attrs:
            src.append("def __init__(%s):\n%s" % (", ".join(["self"] + ps), "".join(body) or "    pass\n"))
        if "__eq__" not in info.attrs and opts.get("eq", True):
            t = "(" + "".join("%%s.%s, " % f for f, _ in fields) + ")"
            src.append("def __eq__(self, o):\n    if o.__class__ is not self.__class__:\n        return NotImplemented\n    return %s == %s\n" % (t.replace("%s", "self"), t.replace("%s", "o")))
        if opts.get("frozen"):
            und("frozen dataclass")
    for f in ast.parse("".join(src)).body:
        for x in ast.walk(f):
            if hasattr(x, "lineno"):
                x.lineno = x.end_lineno = n.lineno
        cctx = ctx.sub(cls=info)
        for s, v in it.make_func(f, st, cctx, f.name):
            info.attrs[f.name] = v


def has_lt(v, st):
    """Whether a user class orders this value."""
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        return isinstance(o, InstO) and isinstance(o.cls, ClsV) and isinstance(o.cls.info.lookup("__lt__"), FuncV)
    return isinstance(v, App) and v.op == "cmpkey"


def order(it, op, a, b, st, ctx, node):
    """Ordering of known containers, of instances with their own, and of tuples, else None."""
    import operator
    from .stdmodel import py, NotConst
    if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "cmpkey":
        def cmpkey():
            for s, r in it.call(a.args[0], (a.args[1], b.args[1]), (), st, ctx, node):
                if isinstance(r, R()):
                    yield s, r
                else:
                    yield from it.cmp(op(), r, Const(0), s, ctx, node)
        return cmpkey()
    for x, y, names in ((a, b, {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}), (b, a, {ast.Lt: "__gt__", ast.LtE: "__ge__", ast.Gt: "__lt__", ast.GtE: "__le__"})):
        if isinstance(x, Ref) and isinstance(st.heap[x.oid], InstO) and isinstance(st.heap[x.oid].cls, ClsV):
            m = st.heap[x.oid].cls.info.lookup(names[op])
            if isinstance(m, FuncV):
                return it.call(Bound(m, x), (y,), (), st, ctx, node)
    a, b = it.strval(a, st), it.strval(b, st)
    try:
        x, y = py(a, st), py(b, st)
    except (NotConst, TypeError):
        if isinstance(a, Tup) and isinstance(b, Tup) and it.cfg.sort_fork:
            return lexico(it, op, a.items, b.items, st, ctx, node)
        return None
    try:
        r = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](x, y)
    except TypeError as ex:
        return [it.raise_new(st, "TypeError", (Const(str(ex)),))]
    return [(st, boolv(r))]


def lexico(it, op, a, b, st, ctx, node):
    if not a or not b:
        import operator
        yield st, boolv({ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](len(a), len(b)))
        return
    for s, eq in it.compare_eq(a[0], b[0], st):
        if eq:
            yield from lexico(it, op, a[1:], b[1:], s, ctx, node)
        else:
            yield from it.cmp(op(), a[0], b[0], s, ctx, node)


def exc_text(it, v, st):
    """The text of a builtin exception of known arguments, else None."""
    o = st.heap[v.oid]
    if isinstance(o.cls, ClsV):
        if not T.is_exc_class(o.cls.info) or isinstance(o.cls.info.lookup("__str__"), FuncV):
            return None
        names = o.cls.info.supers()
    elif isinstance(o.cls, Ext) and o.cls.name.startswith("builtins."):
        names = T.exc_supers(T.clsname(o.cls))
    else:
        return None
    if "Exception" not in names or "OSError" in names:
        return None
    args = [x for k, x in st.heap[o.dict].items if k == Const("args")]
    if not args or not isinstance(args[0], Tup):
        return None
    if len(args[0].items) > 1:
        from .stdmodel import py, NotConst
        try:
            return Const(str(py(args[0], st)))
        except NotConst:
            return None
    if not args[0].items:
        return Const("")
    x = it.strval(args[0].items[0], st)
    if "KeyError" in names:
        return Const(repr(x.v)) if isinstance(x, Const) else None
    return it.tostr(x, st) if isinstance(x, Const) or is_str(it, x, st) else None


def fmt_percent(it, a, b, st):
    args = list(b.items) if isinstance(b, Tup) else [b]
    a = it.strval(a, st)
    if not isinstance(a, Const):
        return App("%", (a, b), "str")
    if isinstance(b, Ref) and isinstance(st.heap[b.oid], DictO) and re.search(r"%\(", a.v):
        return fmt_dict(it, a, b, st)
    out, i, pos = [], 0, 0
    for m in re.finditer(r"%(?:(%)|([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))", a.v):
        out.append(a.v[pos:m.start()])
        pos = m.end()
        if m.group(1):
            out.append("%")
            continue
        if i >= len(args):
            return App("%", (a, b), "str")
        x = args[i]
        i += 1
        if m.group(3) == "s" and not m.group(2) or m.group(3) in "di" and not m.group(2):
            out.append(it.tostr(x, st))
        elif isinstance(x, Const):
            try:
                out.append(m.group(0) % x.v)
            except Exception:
                out.append(App("fmt", (Const(m.group(0)), x), "str"))
        else:
            out.append(App("fmt", (Const(m.group(0)), x), "str"))
    out.append(a.v[pos:])
    return mkstr(out)


def fmt_dict(it, a, b, st):
    """`'%(key)s' % mapping`."""
    o = st.heap[b.oid]
    known = {k.v: x for k, x in live(o.items) if isinstance(k, Const)}
    out, pos = [], 0
    for m in re.finditer(r"%(?:(%)|\(([^()]*)\)([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))", a.v):
        out.append(a.v[pos:m.start()])
        pos = m.end()
        if m.group(1):
            out.append("%")
            continue
        if m.group(2) not in known:
            return App("%", (a, b), "str")
        x = it.strval(known[m.group(2)], st)
        spec = "%" + m.group(3) + m.group(4)
        if spec in ("%s", "%d", "%i"):
            out.append(it.tostr(x, st))
        elif isinstance(x, Const):
            try:
                out.append(spec % x.v)
            except Exception:
                out.append(App("fmt", (Const(spec), x), "str"))
        else:
            out.append(App("fmt", (Const(spec), x), "str"))
    return mkstr(out + [a.v[pos:]])


# --------------------------------------------------------------------------- raising helper
def may_raise(it, st, ctx, what, key, node, names=None):
    """States in which the opaque operation `key` raises."""
    if it.cfg.raises == "none":
        return
    if it.cfg.raise_filter is not None and not it.cfg.raise_filter(what, key, node):
        return
    if names is not None:
        for e in it.can_catch(ctx, names):
            yield it.raise_new(st, e, (App("raisearg", (what,)),))
        return
    if it.cfg.raises == "handled" and not ctx.trys:
        return
    s = st.fork()
    e = App("exc", (what, s.fresh()), T.EXC_UNIVERSE)
    s.event("raises", what, key, it.loc(ctx, node) if node is not None else "?")
    yield s, R()(e)


PURE = set("""len str repr abs hash isnan os.path.basename os.path.dirname os.path.join os.path.splitext os.path.normpath os.path.expanduser
os.path.expandvars os.path.abspath os.fspath urllib.parse.urlparse urllib.parse.urlsplit urllib.parse.urljoin urllib.parse.urlunsplit
urllib.parse.urldefrag urllib.request.pathname2url urllib.request.url2pathname re.compile re.escape textwrap.dedent textwrap.indent
json.loads json.dumps pickle.dumps pickle.loads binascii.b2a_qp binascii.a2b_qp binascii.b2a_base64 binascii.a2b_base64
base64.b64encode base64.b64decode type xlrd.colname numpy.isnan numpy.equal numpy.where numpy.diff re.fullmatch re.match re.search re.split re.sub
xlrd.xldate.xldate_as_datetime xlrd.xldate.xldate_as_tuple datetime.time""".split())
TOTAL = set("""builtins.len builtins.str builtins.repr builtins.id builtins.type builtins.print logging.getLogger os.path.exists os.path.isdir
os.path.isfile os.path.lexists os.path.islink os.path.join os.path.basename os.path.dirname os.path.normpath builtins.object re.escape
builtins.callable builtins.bool builtins.isinstance distutils.version.LooseVersion re.fullmatch re.match re.search re.sub re.split
unittest.mock.MagicMock""".split())


def repo_callable(v):
    """May code we do not see, given this, run code of the program?"""
    return isinstance(v, FuncV) or isinstance(v, Bound) and isinstance(v.fn, (FuncV, Ext)) or isinstance(v, Partial)


def opaque_call(it, fn, args, kwargs, st, ctx, node, name=None, ty=None):
    name = name or show(fn)
    ea = tuple(args)
    short = name[9:] if name.startswith("builtins.") else name
    if name not in TOTAL and not name.startswith("logging."):
        yield from may_raise(it, st, ctx, "call " + name, (fn,) + ea, node)
    st = st.fork()
    karg = tuple((k, v) for k, v in kwargs)
    if not name.startswith("inspect.") and (any(map(repo_callable, ea)) or any(repo_callable(v) for _, v in karg)):
        st.facts[("escaped",)] = name
    if short in PURE:
        res = App("call:" + name, ea + karg, ty)
    else:
        res = App("call:" + name, ea + karg + (st.fresh(),), ty)
    st.event("call", name, args, kwargs, it.loc(ctx, node) if node is not None else "?", res, fn)
    yield st, res


# --------------------------------------------------------------------------- containers: reading
def live(items):
    D = _core().DELETED
    return [(k, v) for k, v in items if v is not D]


def canon_item(it, obj, key, st):
    """Canonical term for the value held by the opaque `obj` under `key`."""
    if isinstance(obj, App) and obj.op == "attr" and obj.args[1] == "__dict__" and isinstance(key, Const) and isinstance(key.v, str):
        return App("attr", (obj.args[0], key.v))
    return App("item", (obj, key))


def base_of(it, v, st):
    """(opaque term, over-key) for opaque or copied objects."""
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, CopyO):
            return o.base
    return v


def norm_key(it, key, st):
    key2 = it.strval(key, st)
    val = st.facts.get(("val", key2))
    return val if val is not None else key2


def find_over(it, obj, key, st):
    """Yield (state, value or None): earlier write of `key` in the opaque object."""
    D = _core().DELETED
    ents = [(k[2], v) for k, v in st.over.items() if k[0] == obj and k[1] == "item"]
    if isinstance(obj, App) and obj.op == "attr" and obj.args[1] == "__dict__" and isinstance(key, Const):
        v = st.over.get((obj.args[0], "attr", key.v))
        if v is not None:
            yield st, v
            return
    for k, v in reversed(ents):
        if k == key:
            yield st, v
            return

    def rec(es, s):
        if not es:
            yield s, None
            return
        k, v = es[0]
        if isinstance(k, SliceV) or isinstance(key, SliceV):
            yield from rec(es[1:], s)
            return
        for s2, b in it.compare_eq(k, key, s):
            if b:
                yield s2, v
            else:
                yield from rec(es[1:], s2)

    yield from rec(ents[::-1], st)


def lookup(it, d, key, st, ctx, node):
    """Mapping lookup. Yield (state, value or None when missing)."""
    D = _core().DELETED
    key = norm_key(it, key, st)
    if isinstance(d, Ref):
        o = st.heap[d.oid]
        if isinstance(o, DictO):
            for k, v in o.items:
                if k == key:
                    yield st, (None if v is D else v)
                    return

            def rec(es, s):
                if not es:
                    if o.open:
                        if o.base is not None:
                            yield from lookup(it, o.base, key, s, ctx, node)
                        else:
                            for s2, b in it._fork_fact(("in", d, key), s):
                                yield s2, (App("item", (d, key)) if b else None)
                    else:
                        yield s, None
                    return
                k, v = es[0]
                for s2, b in it.compare_eq(norm_key(it, k, s), key, s):
                    if b:
                        yield s2, (None if v is D else v)
                    else:
                        yield from rec(es[1:], s2)

            yield from rec([(k, v) for k, v in o.items], st)
            return
        if isinstance(o, InstO) and T.clsname(o.cls if not isinstance(o.cls, ClsV) else "x") == "ChainMap":
            maps = chain_maps(it, d, st)

            def recm(ms, s):
                if not ms:
                    yield s, None
                    return
                for s2, v in lookup(it, ms[0], key, s, ctx, node):
                    if v is None:
                        yield from recm(ms[1:], s2)
                    else:
                        yield s2, v

            yield from recm(maps, st)
            return
        if isinstance(o, CopyO):
            for s, v in find_over(it, d, key, st):
                if v is D:
                    yield s, None
                elif v is not None:
                    yield s, v
                else:
                    yield from lookup(it, o.base, key, s, ctx, node)
            return
        und("lookup in %s" % type(o).__name__)
    if isinstance(d, Tup):
        for p in d.items:
            if isinstance(p, Tup) and p.items[0] == key:
                yield st, p.items[1]
                return
        yield st, None
        return
    for s, v in find_over(it, d, key, st):
        if v is D:
            yield s, None
        elif v is not None:
            yield s, v
        else:
            for s2, b in opaque_in(it, d, key, s):
                yield s2, (canon_item(it, d, key, s2) if b else None)


def opaque_in(it, d, key, st):
    if isinstance(key, App) and key.op == "key" and key.args[0] == d:
        yield st, True
        return
    k = ("in", d, key)
    if k in st.facts:
        yield st, st.facts[k]
        return
    if st.facts.get(("truth", d)) is False or st.facts.get(("count", d)) == 0:
        yield st, False
        return
    for b in (True, False):
        s = st.fork()
        s.facts[k] = b
        if b and ("truth", d) not in s.facts:
            s.facts[("truth", d)] = True
        yield s, b


def chain_maps(it, d, st):
    o = st.heap[d.oid]
    m = it.dict_get(st.heap[o.dict], Const("maps"), st)
    return list(st.heap[m.oid].items)


def contains(it, x, coll, st, ctx, node):
    """Yield (state, Const bool | Raised)."""
    RR = R()
    if isinstance(coll, Const) and isinstance(coll.v, str) or is_str(it, coll, st):
        px, pc = strparts(it, x, st), strparts(it, coll, st)
        if px is not None and pc is not None:
            if len(px) == 1 and isinstance(px[0], str):
                s = px[0]
                if any(isinstance(p, str) and s in p for p in pc):
                    yield st, TRUE
                    return
                if all(isinstance(p, str) for p in pc) or s and all(ch in SPECIAL for ch in s):
                    yield st, FALSE
                    return
            elif len(pc) == 1 and isinstance(pc[0], str):
                yield st, FALSE
                return
        xx, cc = norm_key(it, x, st), norm_key(it, coll, st)
        for s, b in it._fork_fact(("in", cc, xx), st):
            yield s, boolv(b)
        return
    if isinstance(coll, Tup):
        yield from _contains_seq(it, x, coll.items, None, st)
        return
    if isinstance(coll, Const) and coll.v is None:
        yield it.raise_new(st, "TypeError", (Const("in None"),))
        return
    if isinstance(coll, Ref):
        o = st.heap[coll.oid]
        if isinstance(o, ListO):
            yield from _contains_seq(it, x, o.items, (o.base if o.base is not None else coll) if o.open else None, st)
            return
        if isinstance(o, (DictO, CopyO)) or isinstance(o, InstO) and not isinstance(o.cls, ClsV) and T.clsname(o.cls) == "ChainMap":
            for s, v in lookup(it, coll, x, st, ctx, node):
                yield s, boolv(v is not None)
            return
        if isinstance(o, IterO):
            items = [s for s in [0]]
            found = []
            if o.pos == "done":
                yield st, FALSE
                return

            def body(s, e):
                for s2, b in it.compare_eq(e, x, s):
                    yield s2, (("break",) if b else None)

            # membership consumes the iterator (up to the match)
            for s, sig in it.iterate(coll, st, ctx, body, node):
                if sig is None:
                    yield s, FALSE
                elif sig[0] == "break":
                    yield s, TRUE
                else:
                    yield s, RR(sig[1]) if sig[0] == "raise" else RR(abort=sig)
            return
        if isinstance(o, InstO) and isinstance(o.cls, ClsV) and o.cls.info.lookup("__contains__"):
            for s, r in it.call(Bound(o.cls.info.lookup("__contains__"), coll), (x,), (), st, ctx, node):
                if isinstance(r, RR):
                    yield s, r
                else:
                    for s2, b in it.truth(r, s):
                        yield s2, boolv(b)
            return
    if isinstance(coll, App) and coll.op == "view" and coll.args[1] == "keys":
        yield from contains(it, x, coll.args[0], st, ctx, node)
        return
    if isinstance(coll, BMeth):
        und("in method")
    yield from may_raise(it, st, ctx, "in", (coll, x), node, ["TypeError"])
    for s, v in lookup(it, coll, x, st, ctx, node):
        yield s, boolv(v is not None)


def _contains_seq(it, x, items, rest, st):
    if not items:
        if rest is None:
            yield st, FALSE
        else:
            for s, b in opaque_in(it, rest, norm_key(it, x, st), st):
                yield s, boolv(b)
        return
    for s, b in it.compare_eq(items[0], x, st):
        if b:
            yield s, TRUE
        else:
            yield from _contains_seq(it, x, items[1:], rest, s)


def cint(it, v, st):
    v = st.facts.get(("val", v), v)
    if isinstance(v, Const) and isinstance(v.v, (int, bool)):
        return int(v.v)
    return None


NO_ITEMS = frozenset(["int", "float", "bool", "NoneType", "complex", "function", "set", "frozenset", "generator"])


def getitem(it, obj, key, st, ctx, node):
    """Yield (state, Val|Raised)."""
    from . import npmodel
    D = _core().DELETED
    RR = R()
    if isinstance(obj, Const) and obj.v is None:
        yield it.raise_new(st, "TypeError", (Const("None[]"),))
        return
    if isinstance(obj, ClsV) and "members" in obj.info.__dict__ and isinstance(key, Const):
        for n, _, m in obj.info.members:
            if n == key.v:
                yield st, m
                return
        yield it.raise_new(st, "KeyError", (key,))
        return
    sobj = it.strval(obj, st)
    if is_str(it, sobj, st) and not isinstance(sobj, App):
        yield from str_item(it, sobj, key, st, ctx, node)
        return
    if isinstance(obj, Tup):
        if isinstance(key, SliceV):
            r = slice_of(it, obj.items, key, st)
            if r is None:
                und("tuple slice")
            yield st, Tup(r)
            return
        i = cint(it, key, st)
        if i is None:
            if not (it.types(key, st) or {"int"}) & (T.NUMS | {"object", "slice"}) and not isinstance(key, Lin):
                yield it.raise_new(st, "TypeError", (key,))
                return
            yield st, App("item", (obj, key))
            return
        if -len(obj.items) <= i < len(obj.items):
            yield st, obj.items[i]
        else:
            yield it.raise_new(st, "IndexError", (key,))
        return
    if isinstance(obj, Ref):
        o = st.heap[obj.oid]
        if isinstance(o, ListO):
            if isinstance(key, SliceV):
                r = slice_of(it, o.items, key, st)
                if r is None or o.open:
                    yield st, App("item", (o.base if o.base is not None and not o.items else obj, key), o.tname)
                    return
                s = st.fork()
                yield s, s.alloc(ListO(r, tname=o.tname))
                return
            i = cint(it, key, st)
            if i is not None and not o.open:
                if -len(o.items) <= i < len(o.items):
                    yield st, o.items[i]
                else:
                    yield it.raise_new(st, "IndexError", (key,))
                return
            if i is not None and 0 <= i < len(o.items):
                yield st, o.items[i]
                return
            ty = it.types(key, st)
            if ty is not None and not (ty & T.NUMS) and not isinstance(key, Lin):
                yield it.raise_new(st, "TypeError", (key,))
                return
            yield st, App("item", (o.base if o.base is not None and not o.items else obj, key))
            yield from may_raise(it, st, ctx, "item", (obj, key), node, ["IndexError"])
            return
        if isinstance(o, DictO):
            for s, v in lookup(it, obj, key, st, ctx, node):
                if v is None:
                    if o.tname == "defaultdict" and s.over.get((obj, "factory", None)) is None:
                        yield s, App("item", (obj, key))
                    elif o.tname == "defaultdict" and s.over[(obj, "factory", None)] != NONE:
                        for s2, x in it.call(s.over[(obj, "factory", None)], (), (), s, ctx, node):
                            if isinstance(x, RR):
                                yield s2, x
                                continue
                            for s3, err in setitem(it, obj, key, x, s2, ctx, node):
                                yield s3, (x if err is None else err)
                    elif o.tname == "Counter":
                        yield s, Const(0)
                    else:
                        yield it.raise_new(s, "KeyError", (key,))
                else:
                    yield s, v
            return
        if isinstance(o, ArrO):
            r = npmodel.arr_item(it, obj, o, key, st)
            if r is not None:
                yield r
                return
            yield st, App("item", (npmodel.term(it, obj, st), key), "ndarray")
            return
        if isinstance(o, InstO):
            if isinstance(o.cls, ClsV):
                gi = o.cls.info.lookup("__getitem__")
                if isinstance(gi, FuncV):
                    yield from it.call(Bound(gi, obj), (key,), (), st, ctx, node)
                    return
                yield it.raise_new(st, "TypeError", (Const("not subscriptable"),))
                return
            if T.clsname(o.cls) == "ChainMap":
                for s, v in lookup(it, obj, key, st, ctx, node):
                    if v is None:
                        yield it.raise_new(s, "KeyError", (key,))
                    else:
                        yield s, v
                return
            yield st, App("item", (obj, key))
            return
        if isinstance(o, IterO):
            if o.src[0] == "rng":
                yield st, App("item", (obj, key))
                return
            yield it.raise_new(st, "TypeError", (Const("not subscriptable"),))
            return
        if isinstance(o, CopyO):
            for s, v in find_over(it, obj, norm_key(it, key, st), st):
                if v is D:
                    yield it.raise_new(s, "KeyError", (key,))
                elif v is not None:
                    yield s, v
                else:
                    yield from getitem(it, o.base, key, s, ctx, node)
            return
    if isinstance(obj, (FuncV, Bound)) or isinstance(obj, Const) and isinstance(obj.v, (int, float)) or isinstance(obj, Lin):
        yield it.raise_new(st, "TypeError", (Const("not subscriptable"),))
        return
    if isinstance(obj, Const) and not isinstance(obj.v, str):
        try:
            if isinstance(key, SliceV) and isinstance(obj.v, bytes):
                bs = [cint(it, x, st) if x != NONE else None for x in (key.lo, key.hi, key.step)]
                if all(x == NONE or b is not None for x, b in zip((key.lo, key.hi, key.step), bs)):
                    yield st, Const(obj.v[slice(*bs)])
                    return
            if isinstance(key, Const):
                yield st, Const(obj.v[key.v])
                return
        except Exception as ex:
            yield it.raise_new(st, type(ex).__name__, (key,))
            return
    # opaque
    if isinstance(obj, App) and obj.op == "match":
        yield from match_method(it, obj, "group", (key,), (), st, ctx, node)
        return
    nkey = norm_key(it, key, st)
    if (it.types(obj, st) or {"?"}) <= NO_ITEMS:
        yield it.raise_new(st, "TypeError", (Const("not subscriptable"),))
        return
    for s, v in find_over(it, obj, nkey, st):
        if v is D:
            yield it.raise_new(s, "KeyError", (key,))
            continue
        if v is not None:
            yield s, v
            continue
        n = s.facts.get(("count", obj))
        i = cint(it, nkey, s)
        ty = it.types(obj, s)
        if n is not None and i is not None and (ty is None or not (ty & {"dict", "OrderedDict"})):
            if -n <= i < n:
                yield s, App("elem", (obj, i if i >= 0 else i + n))
            else:
                yield it.raise_new(s, "IndexError", (key,))
            continue
        if isinstance(nkey, SliceV):
            yield s, App("item", (obj, nkey), ty if ty and ty <= {"list", "tuple", "str", "ndarray"} else None)
            yield from may_raise(it, s, ctx, "item", (obj, nkey), node, ["TypeError"])
            continue
        known = s.facts.get(("in", obj, nkey))
        if isinstance(nkey, App) and nkey.op == "key" and nkey.args[0] == obj:
            known = True
        names = ["KeyError", "IndexError", "TypeError"]
        if ty is not None:
            names = []
            if ty & {"dict", "OrderedDict", "ChainMap", "object", "DataFrame", "Series", "defaultdict"}:
                names.append("KeyError")
            if ty & {"list", "tuple", "ndarray", "object", "str"}:
                names.append("IndexError")
            if ty - {"dict", "OrderedDict", "ChainMap", "defaultdict"}:
                tk = it.types(nkey, s)
                if not (tk is not None and tk <= T.NUMERIC and ty <= {"list", "tuple", "str"}) and not (ty <= {"ndarray"}):
                    names.append("TypeError")
        if known is True:
            names = []
        if known is not False:
            s2 = s
            if known is None and it.can_catch(ctx, ["KeyError"]):
                s2 = s.fork()
                s2.facts[("in", obj, nkey)] = True
            yield s2, canon_item(it, obj, nkey, s2)
        if known is False:
            yield it.raise_new(s, "KeyError", (key,))
            continue
        if names:
            for e in it.can_catch(ctx, names):
                if it.cfg.raise_filter is not None and not it.cfg.raise_filter("item", (obj, nkey), node):
                    continue
                s3 = s.fork()
                if e == "KeyError":
                    s3.facts[("in", obj, nkey)] = False
                    if ty is not None and len(ty) > 1 and isinstance(obj, (Sym, App)):
                        it.set_types(obj, ty & {"dict", "OrderedDict", "ChainMap", "object", "DataFrame", "Series", "defaultdict"}, s3)
                elif e == "IndexError" and ty is not None and len(ty) > 1 and isinstance(obj, (Sym, App)):
                    it.set_types(obj, ty & {"list", "tuple", "ndarray", "object", "str"}, s3)
                elif e == "TypeError" and ty is not None and isinstance(obj, (Sym, App)):
                    left = ty - {"dict", "OrderedDict", "ChainMap", "defaultdict"}
                    it.set_types(obj, left, s3)
                yield it.raise_new(s3, e, (key,))


def slice_of(it, items, sl, st):
    vals = []
    for x in (sl.lo, sl.hi, sl.step):
        if isinstance(x, Const) and x.v is None:
            vals.append(None)
            continue
        i = cint(it, x, st)
        if i is None:
            return None
        vals.append(i)
    try:
        return list(items)[slice(*vals)]
    except Exception:
        return None


def str_slice(parts, lo, hi):
    """parts[lo:hi] of a structured string, or None when it depends on the words' lengths."""
    units = []
    for p in parts:
        units += list(p) if isinstance(p, str) else [p]

    def fixed(u):
        return isinstance(u, str) or "letter" in getattr(u, "flags", ())

    def drop(us, n):
        while n and us:
            if not fixed(us[0]):
                return None
            us = us[1:]
            n -= 1
        return us

    def take(us, n):
        out = []
        for u in us:
            if not n:
                break
            if fixed(u):
                out.append(u)
                n -= 1
            elif n == 1 and isword(u):
                out.append(u)
                return out, u
            else:
                return None, None
        return out, None

    def edge(us, w, which, rev=False):
        return [Sym("%s(%s)" % (which, u.name), "str", tuple(set(u.flags) | {"letter"})) if u is w else u for u in us]

    if lo >= 0 and (hi is None or hi < 0):
        us = drop(units, lo)
        if us is None:
            return None
        if hi is not None:
            us = drop(us[::-1], -hi)
            if us is None:
                return None
            us = us[::-1]
        return us
    if lo >= 0 and hi >= 0:
        us = drop(units, lo)
        if us is None:
            return None
        us, w = take(us, max(hi - lo, 0))
        return None if us is None else edge(us, w, "first")
    if hi is None or hi < 0:
        us = units[::-1] if hi is None else drop(units[::-1], -hi)
        if us is None:
            return None
        us, w = take(us, -lo + (hi or 0))
        return None if us is None else edge(us[::-1], w, "last")
    return None


def str_item(it, v, key, st, ctx, node):
    v = it.strval(v, st)
    parts = strparts(it, v, st)
    if parts is None:
        parts = v.parts if isinstance(v, Str) else None
    if isinstance(v, Const):
        try:
            if isinstance(key, SliceV):
                r = slice_of(it, v.v, key, st)
                if r is not None:
                    yield st, Const("".join(r))
                    return
            else:
                i = cint(it, key, st)
                if i is not None:
                    yield st, Const(v.v[i])
                    return
        except IndexError:
            yield it.raise_new(st, "IndexError", (key,))
            return
    if parts is not None:
        if isinstance(key, SliceV) and (isinstance(key.step, Const) and key.step.v is None):
            lo = 0 if isinstance(key.lo, Const) and key.lo.v is None else cint(it, key.lo, st)
            hi = "end" if isinstance(key.hi, Const) and key.hi.v is None else cint(it, key.hi, st)
            if lo is not None and hi is not None:
                r = str_slice(list(parts), lo, None if hi == "end" else hi)
                if r is not None:
                    yield st, mkstr(r)
                    return
        else:
            i = cint(it, key, st)
            if i is not None:
                r = str_slice(list(parts), i, i + 1 if i != -1 else None)
                if r is not None and r:
                    yield st, mkstr(r)
                    return
    ts = it.types(key, st)
    if ts is not None and not (ts & T.NUMS) and not isinstance(key, (SliceV, Lin)):
        yield it.raise_new(st, "TypeError", (key,))
        return
    yield st, App("item", (v, key), "str")
    if not isinstance(key, SliceV):
        yield from may_raise(it, st, ctx, "item", (v, key), node, ["IndexError"])


# --------------------------------------------------------------------------- containers: writing
def setitem(it, obj, key, value, st, ctx, node):
    """Yield (state, None|Raised)."""
    from . import npmodel
    st = st.fork()
    if isinstance(obj, Const) or isinstance(obj, (Tup, Str, Lin, FuncV, Bound)) or is_str(it, obj, st):
        yield it.raise_new(st, "TypeError", (Const("item assignment"),))
        return
    key = norm_key(it, key, st)
    if isinstance(obj, Ref):
        o = st.heap[obj.oid]
        if isinstance(o, DictO):
            # resolve possible equality with existing keys
            def rec(es, s):
                if not es:
                    yield s, key
                    return
                k = es[0]
                if k == key:
                    yield s, k
                    return
                for s2, b in it.compare_eq(norm_key(it, k, s), key, s):
                    if b:
                        yield s2, k
                    else:
                        yield from rec(es[1:], s2)

            exact = [k for k, _ in o.items if k == key]
            for s, k in ([(st, key)] if exact else rec([k for k, _ in o.items], st)):
                s = s.fork()
                it.write(s, obj, "setitem", k, value, node, ctx)
                s.heap[obj.oid] = o.repl(items=it._put(o.items, k, value))
                yield s, None
            return
        if isinstance(o, ListO):
            i = cint(it, key, st)
            if isinstance(key, SliceV):
                it.write(st, obj, "setitem", key, value, node, ctx)
                cut = [cint(it, x, st) if x != NONE else None for x in (key.lo, key.hi, key.step)]
                if o.open or any(x is None and y != NONE for x, y in zip(cut, (key.lo, key.hi, key.step))):
                    st.heap[obj.oid] = o.repl(items=(), open=True)
                    yield st, None
                    return
                for s, vs in materialise(it, value, st, ctx, node, it.cfg.loop_k):
                    if isinstance(vs, R()):
                        yield s, vs
                        continue
                    s = s.fork()
                    items = list(s.heap[obj.oid].items)
                    try:
                        items[slice(*cut)] = list(vs)
                    except ValueError:
                        yield it.raise_new(s, "ValueError", (Const("extended slice"),))
                        continue
                    s.heap[obj.oid] = s.heap[obj.oid].repl(items=tuple(items))
                    yield s, None
                return
            if i is not None and not o.open:
                if -len(o.items) <= i < len(o.items):
                    it.write(st, obj, "setitem", key, value, node, ctx)
                    items = list(o.items)
                    items[i] = value
                    st.heap[obj.oid] = o.repl(items=tuple(items))
                    yield st, None
                else:
                    yield it.raise_new(st, "IndexError", (key,))
                return
            ty = it.types(key, st)
            if ty is not None and not (ty & T.NUMS) and not isinstance(key, Lin):
                yield it.raise_new(st, "TypeError", (key,))
                return
            it.write(st, obj, "setitem", key, value, node, ctx)
            st.over[(obj, "item", key)] = value
            yield st, None
            yield from may_raise(it, st, ctx, "setitem", (obj, key), node, ["IndexError"])
            return
        if isinstance(o, ArrO):
            it.write(st, obj, "setitem", key, value, node, ctx)
            r = npmodel.arr_setitem(it, obj, o, key, value, st)
            if r is None:
                und("array store")
            yield r, None
            return
        if isinstance(o, InstO):
            if isinstance(o.cls, ClsV):
                si = o.cls.info.lookup("__setitem__")
                if isinstance(si, FuncV):
                    yield from it._discard(it.call(Bound(si, obj), (key, value), (), st, ctx, node))
                    return
            elif T.clsname(o.cls) == "ChainMap":
                yield from setitem(it, chain_maps(it, obj, st)[0], key, value, st, ctx, node)
                return
            yield it.raise_new(st, "TypeError", (Const("item assignment"),))
            return
        if isinstance(o, IterO):
            yield it.raise_new(st, "TypeError", (Const("item assignment"),))
            return
    ty = it.types(obj, st)
    if (ty or {"?"}) <= NO_ITEMS:
        yield it.raise_new(st, "TypeError", (Const("item assignment"),))
        return
    it.write(st, obj, "setitem", key, value, node, ctx)
    names = ["IndexError", "TypeError", "KeyError"]
    if ty is not None:
        names = (["IndexError"] if ty & {"list", "ndarray"} else []) + (["TypeError"] if ty - {"dict", "list", "OrderedDict", "ndarray"} else [])
    for e in it.can_catch(ctx, names):
        if it.cfg.raise_filter is None or it.cfg.raise_filter("setitem", (obj, key), node):
            s = st.fork()
            s.trace = s.trace[0]
            s.event("write-failed", obj, "setitem", key, value, it.loc(ctx, node), it.where(ctx), it.origin(obj, s))
            yield it.raise_new(s, e, (key,))
    if isinstance(obj, App) and obj.op == "attr" and obj.args[1] == "__dict__" and isinstance(key, Const):
        st.over[(obj.args[0], "attr", key.v)] = value
    else:
        st.over[(obj, "item", key)] = value
    yield st, None


def delitem(it, obj, key, st, ctx, node):
    D = _core().DELETED
    st = st.fork()
    if isinstance(obj, Ref):
        o = st.heap[obj.oid]
        if isinstance(o, DictO):
            for s, v in lookup(it, obj, key, st, ctx, node):
                if v is None:
                    yield it.raise_new(s, "KeyError", (key,))
                    continue
                s = s.fork()
                it.write(s, obj, "delitem", key, None, node, ctx)
                k0 = norm_key(it, key, s)
                items = tuple(p for p in o.items if p[0] != k0)
                if len(items) == len(o.items):      # found under an equal key
                    at = next((i for i, p in enumerate(o.items) if p[1] is v), None)
                    items = tuple(p for i, p in enumerate(o.items) if i != at)
                if o.open:
                    items = items + ((k0, D),)
                s.heap[obj.oid] = o.repl(items=items)
                yield s, None
            return
        if isinstance(o, ListO):
            i = cint(it, key, st)
            if i is not None and not o.open:
                if -len(o.items) <= i < len(o.items):
                    it.write(st, obj, "delitem", key, None, node, ctx)
                    items = list(o.items)
                    del items[i]
                    st.heap[obj.oid] = o.repl(items=tuple(items))
                    yield st, None
                else:
                    yield it.raise_new(st, "IndexError", (key,))
                return
            it.write(st, obj, "delitem", key, None, node, ctx)
            cut = [cint(it, x, st) if x != NONE else None for x in (key.lo, key.hi, key.step)] if isinstance(key, SliceV) else None
            if cut is not None and all(c is not None or x == NONE for c, x in zip(cut, (key.lo, key.hi, key.step))) and (not o.open or cut == [None] * 3):
                items = list(o.items)
                del items[slice(*cut)]
                st.heap[obj.oid] = o.repl(items=tuple(items), open=False)
            else:
                st.heap[obj.oid] = o.repl(items=(), open=True)
            yield st, None
            return
    nkey = norm_key(it, key, st)
    for e in it.can_catch(ctx, ["KeyError", "IndexError", "TypeError"]):
        if st.facts.get(("in", obj, nkey)) is True:
            continue
        if it.cfg.raise_filter is None or it.cfg.raise_filter("delitem", (obj, nkey), node):
            yield it.raise_new(st, e, (key,))
    it.write(st, obj, "delitem", nkey, None, node, ctx)
    st.over[(obj, "item", nkey)] = D
    yield st, None


def inplace(it, op, a, b, st, ctx, node):
    """a op= b; yields (state, result)."""
    from . import npmodel
    if isinstance(a, Ref):
        o = st.heap[a.oid]
        if isinstance(o, ArrO):
            r = npmodel.binop(it, op, a, b, st)
            if r is None:
                und("array in-place")
            s, v = r
            s = s.fork()
            it.write(s, a, "inplace", op, b, node, ctx)
            s.heap[a.oid] = s.heap[v.oid].repl(origin=o.origin)
            yield s, a
            return
        if isinstance(o, ListO) and op == "+" and o.tname == "list":
            for s, r in call_method(it, a, "extend", (b,), (), st, ctx, node):
                yield s, (r if isinstance(r, R()) else a)
            return
        if isinstance(o, ListO) and op in SETUPD and o.tname == "set":
            for s, r in call_method(it, a, SETUPD[op], (b,), (), st, ctx, node):
                yield s, (r if isinstance(r, R()) else a)
            return
        if isinstance(o, InstO) and isinstance(o.cls, ClsV) and isinstance(o.cls.info.lookup("__i%s__" % DUNDER.get(op)), FuncV):
            yield from it.call(Bound(o.cls.info.lookup("__i%s__" % DUNDER[op]), a), (b,), (), st, ctx, node)
            return
        if isinstance(o, DictO) and op == "|":
            for s, r in call_method(it, a, "update", (b,), (), st, ctx, node):
                yield s, (r if isinstance(r, R()) else a)
            return
    if isinstance(a, (Sym, App)):
        ty = it.types(a, st)
        if ty is None or ty & {"list", "ndarray", "set", "dict"} and not ty & {"int", "str", "tuple"} or ty is not None and "object" in ty:
            if ty is not None and not (ty & {"int"}) or isinstance(a, (Sym, App)) and ty is not None:
                s = st.fork()
                it.write(s, a, "inplace", op, b, node, ctx)
                yield s, App("inplace" + op, (a, b), ty)
                return
    yield from it.binop(op, a, b, st, ctx, node)


# --------------------------------------------------------------------------- iteration
def counts(it, v, st, k):
    """Fork on the number of elements of the opaque collection `v`."""
    key = ("count", v)
    if key in st.facts:
        yield st, st.facts[key]
        return
    t = st.facts.get(("truth", v))
    if st.facts.get(("is", v, None)) is True:
        return
    lo = 0
    if t is True or "nonempty" in getattr(v, "flags", ()):
        lo = 1
    if t is False:
        k = 0
    for n in range(lo, max(k, lo) + 1):
        s = st.fork()
        s.facts[key] = n
        s.facts[("truth", v)] = n > 0
        s.facts[("notnone", v)] = True
        if n == k:
            it.loop_cuts += 1
        yield s, n


def seq_iter(items, st, body):
    if not items:
        yield st, None
        return
    for s, sig in body(st, items[0]):
        if sig is None:
            yield from seq_iter(items[1:], s, body)
        else:
            yield s, sig


def dict_pairs(it, d, st, k):
    """Yield (state, [(key, value)]) of a mapping (forks on the count of unknown ones)."""
    D = _core().DELETED
    if isinstance(d, Ref):
        o = st.heap[d.oid]
        if isinstance(o, DictO):
            if not o.open:
                yield st, live(o.items)
                return
            base = o.base
            if base is None:
                for s, n in counts(it, d, st, k):
                    yield s, live(o.items) + [(App("key", (d, i)), App("item", (d, App("key", (d, i))))) for i in range(n)]
                return
            own = dict(o.items)
            for s, ps in dict_pairs(it, base, st, k):
                out = []
                seen = set()
                for kk, vv in ps:
                    if kk in own:
                        seen.add(kk)
                        vv = own[kk]
                    if vv is not D:
                        out.append((kk, vv))
                out += [(a, b) for a, b in o.items if a not in seen and b is not D]
                yield s, out
            return
        if isinstance(o, CopyO):
            ov = {kk[2]: vv for kk, vv in st.over.items() if kk[0] == d and kk[1] == "item"}
            for s, ps in dict_pairs(it, o.base, st, k):
                out, seen = [], set()
                for kk, vv in ps:
                    if kk in ov:
                        seen.add(kk)
                        vv = ov[kk]
                    if vv is not D:
                        out.append((kk, vv))
                out += [(a, b) for a, b in ov.items() if a not in seen and b is not D]
                yield s, out
            return
        if isinstance(o, InstO) and not isinstance(o.cls, ClsV) and T.clsname(o.cls) == "ChainMap":
            out = {}
            for m in reversed(chain_maps(it, d, st)):
                rs = list(dict_pairs(it, m, st, k))
                if len(rs) != 1:
                    und("ChainMap iteration")
                out.update(rs[0][1])
            yield st, list(out.items())
            return
        und("pairs of %s" % type(o).__name__)
    ov = {kk[2]: vv for kk, vv in st.over.items() if kk[0] == d and kk[1] == "item"}
    for s, n in counts(it, d, st, k):
        out, seen = [], set()
        for i in range(n):
            K = App("key", (d, i))
            vv = ov.get(K)
            if K in ov:
                seen.add(K)
            else:
                vv = canon_item(it, d, K, s)
            if vv is not D:
                out.append((K, vv))
        for a, b in ov.items():
            if a not in seen and b is not D:
                out.append((a, b))
        yield s, out


def elements(it, v, st, ctx, node, k):
    """Yield (state, list of elements|Raised) for non-lazy collections, or None if lazy/unsupported."""
    if isinstance(v, ClsV) and "members" in v.info.__dict__:
        yield st, [x[2] for x in v.info.members]
        return
    if isinstance(v, Tup):
        yield st, list(v.items)
        return
    sv = it.strval(v, st)
    if isinstance(sv, Const):
        if isinstance(sv.v, (str, tuple, frozenset, bytes)):
            yield st, [Const(c) for c in sv.v]
        else:
            yield it.raise_new(st, "TypeError", (Const("not iterable"),))
        return
    if isinstance(v, (FuncV, Bound, Lin)):
        yield it.raise_new(st, "TypeError", (Const("not iterable"),))
        return
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, ListO):
            if not o.open:
                yield st, list(o.items)
                return
            base = o.base if o.base is not None else v
            for s, n in counts(it, base, st, k):
                yield s, list(o.items) + [App("elem", (base, i)) for i in range(n)]
            return
        if isinstance(o, DictO) or isinstance(o, InstO) and not isinstance(o.cls, ClsV) and T.clsname(o.cls) == "ChainMap":
            for s, ps in dict_pairs(it, v, st, k):
                yield s, [a for a, _ in ps]
            return
        if isinstance(o, ArrO):
            from . import npmodel
            s, rows = npmodel.rows_st(it, v, o, st)
            yield s, rows
            return
        if isinstance(o, CopyO):
            ty = it.types(v, st)
            if ty is not None and ty <= {"dict", "OrderedDict"}:
                for s, ps in dict_pairs(it, v, st, k):
                    yield s, [a for a, _ in ps]
                return
            yield from elements(it, o.base, st, ctx, node, k)
            return
        if isinstance(o, InstO):
            if o.strval is not None:
                yield from elements(it, o.strval, st, ctx, node, k)
                return
            m = isinstance(o.cls, ClsV) and o.cls.info.lookup("__iter__")
            if isinstance(m, FuncV):
                for s, r in it.call(Bound(m, v), (), (), st, ctx, node):
                    if isinstance(r, R()):
                        yield s, r
                    elif r == v:
                        und("__iter__ giving itself")
                    elif isinstance(r, Ref) and isinstance(s.heap[r.oid], IterO):
                        yield from materialise(it, r, s, ctx, node, k)
                    else:
                        yield from elements(it, r, s, ctx, node, k)
                return
            yield it.raise_new(st, "TypeError", (Const("not iterable"),))
            return
    if isinstance(v, App) and v.op == "view":
        d, kind = v.args
        for s, ps in dict_pairs(it, d, st, k):
            yield s, [a if kind == "keys" else b if kind == "values" else Tup((a, b)) for a, b in ps]
        return
    if isinstance(v, App) and v.op == "range":
        lo, hi = v.args
        n = it.lin_sub(hi, lo, st)
        nn = None
        if n is not None and not n.terms:
            nn = max(n.c, 0)
        gen = [(st, nn)] if nn is not None else counts(it, v, st, k)
        for s, m in gen:
            out = []
            for i in range(m):
                l = it.lin(lo, s)
                out.append(it.mklin(_core().Interp.lin_comb(l, Lin((), i), 1)) if l is not None else App("elem", (v, i), "int"))
            yield s, out
        return
    ty = it.types(v, st)
    if ty is not None and ty <= (T.NUMS | {"NoneType", "function"}):
        yield it.raise_new(st, "TypeError", (Const("not iterable"),))
        return
    if ty is not None and "NoneType" in ty and isinstance(v, (Sym, App)) and it.can_catch(ctx, ["TypeError"]):
        for s, b in it.compare_is(v, NONE, st):
            if b:
                yield it.raise_new(s, "TypeError", (Const("not iterable"),))
            else:
                yield from elements(it, v, s, ctx, node, k)
        return
    yield from may_raise(it, st, ctx, "iter", (v,), node, None if it.cfg.raises == "all" else ["TypeError"])
    if ty is not None and ty <= {"dict", "OrderedDict", "defaultdict", "ChainMap"}:
        for s, ps in dict_pairs(it, v, st, k):
            yield s, [a for a, _ in ps]
        return
    isdict = ty is not None and ty & {"dict"} and len(ty) == 1
    for s, n in counts(it, v, st, k):
        out = []
        for i in range(n):
            # generic keys when the opaque may be a mapping
            ov = s.over.get((v, "item", Const(i)))
            out.append(ov if ov is not None and ov is not _core().DELETED else App("elem", (v, i)) if not st.facts.get(("mapping", v)) else App("key", (v, i)))
        yield s, out


def iterate(it, v, st, ctx, body, node, k):
    RR = R()
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], IterO):
        o = st.heap[v.oid]
        if o.pos == "done":
            yield st, None
            return
        if o.pos == "cut":
            und("iterator resumed")
        for s, sig in iter_iterator(it, v, o, st, ctx, body, node, k):
            if sig is not None and sig[0] != "raise" and s.heap[v.oid].pos == "done":
                # left half-way: the wrappers go on from where the iterators they wrap stand
                s = s.fork()
                if o.src[0] == "enum":
                    s.heap[v.oid] = o.repl(src=o.src[:2] + (s.frames[s.over.pop((v, "enumcnt", None))]["i"] + o.src[2],), pos=0)
                elif o.src[0] in ("map", "filter", "chain") and all(iterated(x, s) for x in (o.src[1] if o.src[0] == "chain" else
                                                                                                 o.src[2] if o.src[0] == "map" else o.src[2:])):
                    s.heap[v.oid] = o.repl(pos=0)
                elif o.src[0] in ("gen", "genexp"):
                    s.heap[v.oid] = o.repl(pos="cut")
            yield s, sig
        return
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO) and not st.heap[v.oid].open and st.heap[v.oid].tname in ("list", "deque"):
        yield from live_list(v, st, body, 0)
        return
    d = v.args[0] if isinstance(v, App) and v.op == "view" else v
    size = live_size(d, st)
    for s, es in elements(it, v, st, ctx, node, k):
        if isinstance(es, RR):
            yield s, ("raise", es.exc) if es.abort is None else es.abort
            continue
        yield from seq_iter(es, s, body if size is None else sized(it, d, size, body))


def live_list(v, st, body, i):
    """A list is iterated by its live contents: what the body removes or adds shifts what comes next."""
    o = st.heap[v.oid]
    if not isinstance(o, ListO) or o.open:
        und("list changing while iterated")
    if i >= len(o.items):
        yield st, None
        return
    if i > 400:
        und("list growing while iterated")
    for s, sig in body(st, o.items[i]):
        if sig is None:
            yield from live_list(v, s, body, i + 1)
        else:
            yield s, sig


def live_size(d, st):
    o = st.heap[d.oid] if isinstance(d, Ref) else None
    if isinstance(o, DictO) and not o.open:
        return len(live(o.items))
    if isinstance(o, ListO) and not o.open and o.tname == "set":
        return len(o.items)
    return None


def sized(it, d, size, body):
    """Mappings and sets refuse to go on once their size has changed."""
    def f(s, x):
        for s2, sig in body(s, x):
            if sig is None and live_size(d, s2) not in (None, size):
                s2, r = it.raise_new(s2, "RuntimeError", (Const("changed size during iteration"),))
                yield s2, ("raise", r.exc)
            else:
                yield s2, sig
    return f


def iterated(x, s):
    return isinstance(x, Ref) and isinstance(s.heap[x.oid], IterO)


def live_iter(v, o, st, body, i):
    """An iterator of a list: an index into its live contents."""
    l = st.heap[o.src[1].oid]
    if not isinstance(l, ListO) or l.open or i > 400:
        und("list changing while iterated")
    s = st.fork()
    if i >= len(l.items):
        s.heap[v.oid] = o.repl(pos="done")
        yield s, None
        return
    s.heap[v.oid] = o.repl(pos=i + 1)
    for s2, sig in body(s, l.items[i]):
        if sig is not None:
            yield s2, sig
            continue
        p = s2.heap[v.oid].pos
        if p == "done":
            yield s2, None
        else:
            yield from live_iter(v, o, s2, body, p)


def endless(it, v, o, st, ctx, body, node, k):
    """count(), cycle() and iter(callable, sentinel): as far as the loop's bound."""
    kind = o.src[0]
    top = max(k, it.cfg.while_k)

    def feed(s, x, n):
        for s2, sig in body(s, x):
            if sig is None:
                yield from go(s2, n + 1)
            else:
                yield s2, sig

    def go(s, n):
        if n >= top:
            it.loop_cuts += 1
            return
        cur = s.heap[v.oid]
        s = s.fork()
        if kind == "count":
            for s2, x in it.binop("+", cur.src[1], cur.src[2], s, ctx, node):
                if isinstance(x, R()):
                    yield s2, ("raise", x.exc)
                    continue
                s2 = s2.fork()
                s2.heap[v.oid] = o.repl(src=("count", x, cur.src[2]), pos=0)
                yield from feed(s2, cur.src[1], n)
        elif kind == "cycle":
            s.heap[v.oid] = o.repl(src=("cycle", cur.src[1][1:] + cur.src[1][:1]), pos=0)
            yield from feed(s, cur.src[1][0], n)
        else:
            for s2, x in it.call(cur.src[1], (), (), s, ctx, node):
                if isinstance(x, R()):
                    yield s2, ("raise", x.exc) if x.abort is None else x.abort
                    continue
                for s3, b in it.truth(App("==", (x, cur.src[2]), "bool"), s2):
                    if b:
                        s3 = s3.fork()
                        s3.heap[v.oid] = o.repl(pos="done")
                        yield s3, None
                    else:
                        yield from feed(s3, x, n)

    yield from go(st, 0)


def iter_iterator(it, v, o, st, ctx, body, node, k):
    kind = o.src[0]
    skip = o.pos if isinstance(o.pos, int) else 0
    if kind in ("count", "cycle", "callable"):
        yield from endless(it, v, o, st, ctx, body, node, k)
        return
    if kind == "val" and isinstance(o.src[1], Ref) and isinstance(st.heap[o.src[1].oid], ListO) and not st.heap[o.src[1].oid].open and st.heap[o.src[1].oid].tname in ("list", "deque"):
        yield from live_iter(v, o, st, body, skip)
        return
    if kind in ("gen", "genexp"):
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")
        if skip and kind == "gen":          # run again from its start, past what was taken
            if len(o.src) < 3:
                und("re-entered generator")
            st.frames[o.src[1].fid] = dict(o.src[2])
            o = o.repl(src=o.src[:2])
            h0, e0 = dict(st.heap), st.trace
        if not skip:
            yield from it.run_gen(o, st, ctx, body)
            return
        cnt = st.fresh()
        st.frames[cnt] = {"i": 0}

        def body2(s, x):
            i = s.frames[cnt]["i"]
            s = s.fork()
            s.frames[cnt] = {"i": i + 1}
            if i < skip:
                yield s, None
            else:
                if i == skip and kind == "gen":
                    if any(s.heap.get(x) is not y for x, y in h0.items()):
                        und("generator with effects resumed")
                    s.trace = e0
                yield from body(s, x)

        yield from it.run_gen(o, st, ctx, body2)
        return
    if kind == "seq":
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")
        # break must leave the rest available
        items = list(o.src[1])[skip:]

        def rec(items, s, i):
            if not items:
                s = s.fork()
                s.heap[v.oid] = o.repl(pos="done")
                yield s, None
                return
            s = s.fork()
            s.heap[v.oid] = o.repl(pos=i + 1)
            for s2, sig in body(s, items[0]):
                if sig is None:
                    yield from rec(items[1:], s2, i + 1)
                else:
                    yield s2, sig

        yield from rec(items, st, skip)
        return
    if kind == "val":
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")
        if not skip:
            if isinstance(o.src[1], Ref) and isinstance(st.heap[o.src[1].oid], IterO):
                yield from iterate(it, o.src[1], st, ctx, body, node, k)
                return
            for s, es in elements(it, o.src[1], st, ctx, node, k):
                if isinstance(es, R()):
                    yield s, ("raise", es.exc)
                    continue
                s = s.fork()
                s.heap[v.oid] = o.repl(src=("seq", tuple(es)), pos=0)
                yield from iterate(it, v, s, ctx, body, node, k)
            return
        for s, es in elements(it, o.src[1], st, ctx, node, k):
            if isinstance(es, R()):
                yield s, ("raise", es.exc)
                continue
            yield from seq_iter(es[skip:], s, body)
        return
    if kind == "repeat":
        x, n = o.src[1], o.src[2]
        if n is not None:
            for s, es in elements(it, App("range", (Const(0), n)), st, ctx, node, k):
                if isinstance(es, R()):
                    yield from seq_iter(es, s, body)
                    continue
                s = s.fork()
                s.heap[v.oid] = o.repl(src=("seq", (x,) * len(es)), pos=0)
                yield from iterate(it, v, s, ctx, body, node, k)
            return

        def rep(s, i):
            if i >= max(k, it.cfg.while_k):
                it.loop_cuts += 1
                return
            for s2, sig in body(s, x):
                if sig is None:
                    yield from rep(s2, i + 1)
                else:
                    yield s2, sig

        yield from rep(st, 0)
        return
    if kind == "map":
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")
        f, srcs = o.src[1], o.src[2]
        if len(srcs) == 1:
            def mbody(s, x):
                for s2, r in it.call(f, (x,), (), s, ctx, node):
                    if isinstance(r, R()):
                        yield s2, ("raise", r.exc) if r.abort is None else r.abort
                    else:
                        yield from body(s2, r)

            yield from iterate(it, srcs[0], st, ctx, mbody, node, k)
            return
        for s, rows in zipped(it, srcs, st, ctx, node, k):
            if isinstance(rows, R()):
                yield s, ("raise", rows.exc)
                continue

            def mb(s1, x):
                for s2, r in it.call(f, x.items, (), s1, ctx, node):
                    if isinstance(r, R()):
                        yield s2, ("raise", r.exc)
                    else:
                        yield from body(s2, r)

            yield from seq_iter(rows, s, mb)
        return
    if kind == "filter":
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")
        f, src = o.src[1], o.src[2]

        def fbody(s, x):
            rs = [(s, x)] if f is None else it.call(f, (x,), (), s, ctx, node)
            for s2, r in rs:
                if isinstance(r, R()):
                    yield s2, ("raise", r.exc)
                    continue
                for s3, b in it.truth(r, s2):
                    if b:
                        yield from body(s3, x)
                    else:
                        yield s3, None

        yield from iterate(it, src, st, ctx, fbody, node, k)
        return
    if kind == "enum":
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")
        cnt = st.fresh()
        st.frames[cnt] = {"i": 0}
        st.over[(v, "enumcnt", None)] = cnt
        start = o.src[2]

        def ebody(s, x):
            i = s.frames[cnt]["i"]
            s = s.fork()
            s.frames[cnt] = {"i": i + 1}
            yield from body(s, Tup((Const(start + i), x)))

        yield from iterate(it, o.src[1], st, ctx, ebody, node, k)
        return
    if kind == "zip":
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")
        for s, rows in zipped(it, o.src[1], st, ctx, node, k):
            if isinstance(rows, R()):
                yield s, ("raise", rows.exc)
            else:
                s = s.fork()
                s.heap[v.oid] = o.repl(src=("seq", tuple(rows)), pos=0)
                yield from iter_iterator(it, v, s.heap[v.oid], s, ctx, body, node, k)
        return
    if kind == "chain":
        st = st.fork()
        st.heap[v.oid] = o.repl(pos="done")

        def rec(srcs, s):
            if not srcs:
                yield s, None
                return
            for s2, sig in iterate(it, srcs[0], s, ctx, body, node, k):
                if sig is None:
                    yield from rec(srcs[1:], s2)
                else:
                    yield s2, sig

        yield from rec(list(o.src[1]), st)
        return
    und("iterate " + kind)


def materialise(it, v, st, ctx, node, k):
    """Yield (state, list|Raised), always with explicit (possibly generic) elements."""
    st = st.fork()
    acc = st.fresh()
    st.frames[acc] = {"acc": ()}

    def body(s, x):
        s = s.fork()
        s.frames[acc] = {"acc": s.frames[acc]["acc"] + (x,)}
        yield s, None

    for s, sig in iterate(it, v, st, ctx, body, node, k):
        if sig is None:
            yield s, list(s.frames[acc]["acc"])
        elif sig[0] == "raise":
            yield s, R()(sig[1])
        else:
            yield s, R()(abort=sig)


def zipped(it, srcs, st, ctx, node, k):
    # lazily zipping with an endless iterator: materialise the bounded ones first
    order = list(srcs)

    def boundless(x, s):
        return iterated(x, s) and s.heap[x.oid].pos != "done" and (s.heap[x.oid].src[0] in ("count", "cycle") or s.heap[x.oid].src[0] == "repeat" and s.heap[x.oid].src[2] is None)

    def draw(i, n, s, col):
        if len(col) == n:
            yield s, col
            return
        for s2, x in b_next(it, (order[i],), (), s, ctx, node):
            if isinstance(x, R()):
                yield s2, x
            else:
                yield from draw(i, n, s2, col + [x])

    def fill(i, n, s, cols):
        if i == len(order):
            yield s, [Tup([c[j] for c in cols]) for j in range(n)]
        elif cols[i] is not None:
            yield from fill(i + 1, n, s, cols)
        else:
            for s2, col in draw(i, n, s, []):
                if isinstance(col, R()):
                    yield s2, col
                else:
                    yield from fill(i + 1, n, s2, cols[:i] + [col] + cols[i + 1:])

    def rec(i, s, cols):
        if i == len(order):
            n = min(len(c) for c in cols if c is not None) if any(c is not None for c in cols) else 0
            if any(c is None for c in cols) and all(c is None for c in cols):
                und("endless zip")
            yield from fill(0, n, s, cols)
            return
        if boundless(order[i], s):
            yield from rec(i + 1, s, cols + [None])
            return
        for s2, es in materialise(it, order[i], s, ctx, node, k):
            if isinstance(es, R()):
                yield s2, es
            else:
                yield from rec(i + 1, s2, cols + [es])

    # equal counts of two opaques would otherwise multiply: tolerated (zip stops at the shortest)
    yield from rec(0, st, [])


# --------------------------------------------------------------------------- list building
def mk_list(it, v, st, ctx, node, tname="list"):
    """list(v)/tuple(v)/set(v). Yield (state, Val|Raised)."""
    RR = R()
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], IterO) or isinstance(v, App) and v.op in ("view", "range") \
            or isinstance(v, Ref) and isinstance(st.heap[v.oid], (DictO, ArrO, InstO)):
        gen = materialise(it, v, st, ctx, node, it.cfg.loop_k)
    elif isinstance(v, (Sym, App)) and ("count", v) not in st.facts or isinstance(v, Ref) and isinstance(st.heap[v.oid], CopyO):
        ty = it.types(v, st)
        if ty is not None and not (ty & {"list", "tuple", "set", "dict", "str", "object", "generator", "ndarray", "frozenset", "OrderedDict"}):
            yield it.raise_new(st, "TypeError", (Const("not iterable"),))
            return
        yield from may_raise(it, st, ctx, "iter", (v,), node, ["TypeError"])
        s = st.fork()
        if tname == "tuple":
            yield s, App("tuple", (v,), "tuple")
        else:
            yield s, s.alloc(ListO((), open=True, base=v, tname=tname))
        return
    else:
        gen = it.collect(v, st, ctx, node) if not (isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO) and st.heap[v.oid].open) else None
        if gen is None:
            o = st.heap[v.oid]
            s = st.fork()
            if tname == "tuple":
                yield s, App("tuple", (v, s.fresh()), "tuple")
            else:
                yield s, s.alloc(ListO(o.items, open=True, base=o.base if o.base is not None else v, tname=tname))
            return
    for s, vs in gen:
        if isinstance(vs, RR):
            yield s, vs
            continue
        if tname == "tuple":
            if any(isinstance(x, App) and x.op == "*" for x in vs):
                yield s, App("tup+", vs, "tuple")
            else:
                yield s, Tup(vs)
        else:
            if tname == "set":
                for s2, us in dedup_eq(it, vs, s):
                    yield it.mklist(s2, us, tname)
            else:
                yield it.mklist(s, vs, tname)


def dedup_eq(it, vs, st):
    """Remove equal elements, forking on unknown equalities."""
    def rec(rest, out, s):
        if not rest:
            yield s, out
            return
        x = rest[0]

        def chk(cands, s1):
            if not cands:
                yield s1, False
                return
            for s2, b in it.compare_eq(cands[0], x, s1):
                if b:
                    yield s2, True
                else:
                    yield from chk(cands[1:], s2)

        if x in out:
            yield from rec(rest[1:], out, s)
            return
        for s2, dup in chk([y for y in out if not (isinstance(y, App) and y.op == "*")] if not (isinstance(x, App) and x.op == "*") else [], s):
            yield from rec(rest[1:], out if dup else out + [x], s2)

    yield from rec(list(vs), [], st)


def shallow_copy(it, v, st):
    """Yield one (state, copy)."""
    st = st.fork()
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, InstO):
            d = st.alloc(st.heap[o.dict].repl(origin="fresh"))
            return st, st.alloc(o.repl(dict=d.oid, origin="fresh"))
        if isinstance(o, CopyO):
            r = st.alloc(o.repl(origin="fresh"))
            for k, x in list(st.over.items()):
                if k[0] == v:
                    st.over[(r,) + k[1:]] = x
            return st, r
        return st, st.alloc(o.repl(origin="fresh"))
    if isinstance(v, (Sym, App)):
        ty = it.types(v, st)
        if ty is not None and ty <= (T.NUMS | {"str", "NoneType", "tuple", "function", "bytes"}):
            return st, v
        r = st.alloc(CopyO(v))
        for k, x in list(st.over.items()):
            if k[0] == v:
                st.over[(r,) + k[1:]] = x
        return st, r
    return st, v


def deep_copy(it, v, st, memo=None):
    """Yield one (state, copy)."""
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.oid in memo:
            return st, memo[v.oid]
        o = st.heap[v.oid]
        st = st.fork()
        r = memo[v.oid] = st.alloc(o.repl(origin="fresh"))
        if isinstance(o, InstO):
            st, d = deep_copy(it, Ref(o.dict), st, memo)
            st.heap[r.oid] = o.repl(dict=d.oid, origin="fresh")
        elif isinstance(o, DictO):
            items = []
            for k, x in o.items:
                if isinstance(x, Val):
                    st, x = deep_copy(it, x, st, memo)
                items.append((k, x))
            base = o.base
            if o.open:
                base = App("deepcopy", (base if base is not None else v, st.fresh()), it.types(base, st) if base is not None else None)
            st.heap[r.oid] = o.repl(items=tuple(items), base=base, origin="fresh")
        elif isinstance(o, ListO):
            items = []
            for x in o.items:
                st, x = deep_copy(it, x, st, memo)
                items.append(x)
            base = o.base
            if o.open:
                base = App("deepcopy", (base if base is not None else v, st.fresh()), it.types(base, st) if base is not None else None)
            st.heap[r.oid] = o.repl(items=tuple(items), base=base, origin="fresh")
        elif isinstance(o, CopyO):
            st.heap[r.oid] = o.repl(base=App("deepcopy", (o.base, st.fresh()), it.types(o.base, st)))
        return st, r
    if isinstance(v, Tup):
        items = []
        for x in v.items:
            st, x = deep_copy(it, x, st, memo)
            items.append(x)
        return st, Tup(items, v.cls)
    if isinstance(v, (Sym, App)):
        ty = it.types(v, st)
        if ty is not None and ty <= (T.NUMS | {"str", "NoneType", "bytes", "function"}):
            return st, v
        st = st.fork()
        return st, App("deepcopy", (v, st.fresh()), ty)
    return st, v


# --------------------------------------------------------------------------- builtin & library functions
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def call_ext(it, name, args, kwargs, st, ctx, node):
    f = EXT.get(name)
    if f is not None:
        yield from f(it, args, kwargs, st, ctx, node)
        return
    short = name.rsplit(".", 1)[-1]
    if name.startswith("builtins.") and name.count(".") == 2:
        # unbound method of a builtin type: str.lower(x), dict.items(d), ...
        _, base, meth = name.split(".")
        if meth == "__new__":
            cls = args[0]
            if isinstance(cls, ClsV):
                s = st.fork()
                d = s.alloc(DictO())
                sv = None
                if base == "str":
                    sv = it.tostr(args[1], s) if len(args) > 1 else Const("")
                yield s, s.alloc(InstO(cls, d.oid, strval=sv))
                return
        if meth == "__setattr__" and len(args) == 3:
            nm = it.strval(args[1], st)
            if isinstance(nm, Const):
                for s, err in it.raw_setattr(args[0], nm.v, args[2], st, ctx, node):
                    yield s, (err if err is not None else NONE)
                return
            s = st.fork()
            it.write(s, args[0], "setattr", nm, args[2], node, ctx)
            s.over[(args[0], "attrsym", nm)] = args[2]
            yield s, NONE
            return
        if meth == "__getattr__":
            yield it.raise_new(st, "AttributeError", (Const("__getattr__"),))
            return
        if meth in ("__getattribute__",) and len(args) == 2 and isinstance(it.strval(args[1], st), Const):
            und("__getattribute__")
        if meth == "__init__":
            yield st, NONE
            return
        if args:
            yield from call_method(it, args[0], meth, args[1:], kwargs, st, ctx, node)
            return
    if name.startswith("numpy."):
        from . import npmodel
        r = npmodel.call(it, name, args, kwargs, st, ctx, node)
        if r is not None:
            yield from r
            return
    cn = T.clsname(name)
    if cn in T.EXC and short not in ("error",) or short.endswith("Error") and short[0].isupper() or short.endswith("Exception") and short[0].isupper():
        s = st.fork()
        attrs = [(Const("args"), Tup(args))]
        if short in ("ValidationError", "SchemaError") and name.startswith("jsonschema."):
            kw = dict(zip(("message", "validator", "path", "cause"), args))
            kw.update(kwargs)
            attrs += [(Const(k), kw.get(k, NONE)) for k in ("message", "cause")]
        d = s.alloc(DictO(tuple(attrs)))
        yield s, s.alloc(InstO(Ext(name), d.oid))
        return
    if name.startswith("logging.getLogger."):
        s = st.fork()
        s.event("log", short, args, kwargs, it.loc(ctx, node) if node is not None else "?")
        yield s, NONE
        return
    if short == "register" and name.startswith("collections.abc.") and len(args) == 1:
        it.register(Ext(name.rsplit(".", 1)[0]), args[0])
        yield st, args[0]
        return
    yield from opaque_call(it, Ext(name), args, kwargs, st, ctx, node, name)


def kwget(kwargs, name, default=None):
    for k, v in kwargs:
        if k == name:
            return v
    return default


@ext("sys.exit", "builtins.exit", "builtins.quit")
def b_exit(it, args, kwargs, st, ctx, node):
    yield it.raise_new(st, "SystemExit", tuple(args))


@ext("builtins.isinstance")
def b_isinstance(it, args, kwargs, st, ctx, node):
    names = cls_names(args[1])
    if names is None:
        for s, b in it._fork_fact(("isa?", args[0], args[1]), st):
            yield s, boolv(b)
        return
    for s, b in it.isinstance_(args[0], names, st):
        yield s, boolv(b)


def cls_names(c):
    if isinstance(c, ClsV):
        return (c.info.name,)
    if isinstance(c, Ext):
        return (T.clsname(c),)
    if isinstance(c, Tup):
        out = ()
        for x in c.items:
            n = cls_names(x)
            if n is None:
                return None
            out += n
        return out
    if isinstance(c, App) and c.op == "call:type":
        return None
    return None


@ext("builtins.issubclass")
def b_issubclass(it, args, kwargs, st, ctx, node):
    if isinstance(args[0], ClsV):
        n = cls_names(args[1])
        if n is not None:
            yield st, boolv(any(x in args[0].info.supers() for x in n))
            return
    if isinstance(args[0], Ext) and args[0].name.startswith("builtins."):
        n, sup = cls_names(args[1]), T.supers_of(T.clsname(args[0]))
        if n is not None and (len(sup) > 2 or set(n) & set(sup)):
            yield st, boolv(any(x in sup for x in n))
            return
    for s, b in it._fork_fact(("issub", args[0], args[1]), st):
        yield s, boolv(b)


@ext("builtins.len")
def b_len(it, args, kwargs, st, ctx, node):
    v = it.strval(args[0], st)
    val = st.facts.get(("val", v))
    v = val if val is not None else v
    if isinstance(v, Const):
        try:
            yield st, Const(len(v.v))
        except TypeError:
            yield it.raise_new(st, "TypeError", (Const("len"),))
        return
    if isinstance(v, Tup):
        yield st, Const(len(v.items))
        return
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, (ListO, DictO)):
            if not o.open:
                yield st, Const(len(live(o.items)) if isinstance(o, DictO) else len(o.items))
                return
        elif isinstance(o, ArrO):
            yield st, Const(o.shape[0])
            return
        elif isinstance(o, InstO):
            if isinstance(o.cls, ClsV) and isinstance(o.cls.info.lookup("__len__"), FuncV):
                yield from it.call(Bound(o.cls.info.lookup("__len__"), v), (), (), st, ctx, node)
                return
            if isinstance(o.cls, ClsV):
                yield it.raise_new(st, "TypeError", (Const("len"),))
                return
        elif isinstance(o, IterO):
            yield it.raise_new(st, "TypeError", (Const("len"),))
            return
    if isinstance(v, (FuncV, Lin)):
        yield it.raise_new(st, "TypeError", (Const("len"),))
        return
    if isinstance(v, App) and v.op == "view":
        v = v.args[0]
        yield from b_len(it, (v,), (), st, ctx, node)
        return
    n = st.facts.get(("count", v))
    if n is not None:
        yield st, Const(n)
        return
    ty = it.types(v, st)
    if ty is not None and not (ty - T.NUMS - {"NoneType", "function"}):
        yield it.raise_new(st, "TypeError", (Const("len"),))
        return
    parts = strparts(it, v, st)
    s = st.fork()
    if parts is not None:
        l = Lin((), 0)
        for p in parts:
            if isinstance(p, str):
                l = it.lin_comb(l, Lin((), len(p)), 1)
            else:
                t = App("len", (p,), "int")
                it.constrain(Lin(((t, 1),), 0), 1, None, s)
                l = it.lin_comb(l, Lin(((t, 1),), 0), 1)
        yield s, it.mklin(l)
        return
    if isinstance(v, Str):
        l = Lin((), 0)
        for p in v.parts:
            if isinstance(p, str):
                l = it.lin_comb(l, Lin((), len(p)), 1)
            else:
                t = App("len", (p,), "int")
                it.constrain(Lin(((t, 1),), 0), 0, None, s)
                l = it.lin_comb(l, Lin(((t, 1),), 0), 1)
        yield s, it.mklin(l)
        return
    t = App("len", (v,), "int")
    tr = st.facts.get(("truth", v))
    it.constrain(Lin(((t, 1),), 0), 1 if tr else 0, 0 if tr is False else None, s)
    yield s, t
    yield from may_raise(it, st, ctx, "len", (v,), node, ["TypeError"] if ty is None or ty & {"object"} | (ty & T.NUMS) else [])


@ext("builtins.bool")
def b_bool(it, args, kwargs, st, ctx, node):
    if not args:
        yield st, FALSE
        return
    yield from may_raise(it, st, ctx, "bool", args, node, ["ValueError"]) if it.types(args[0], st) is None and it.cfg.raises == "all" else ()
    for s, b in it.truth(args[0], st):
        yield s, boolv(b)


@ext("builtins.int")
def b_int(it, args, kwargs, st, ctx, node):
    if not args:
        yield st, Const(0)
        return
    v = it.strval(args[0], st)
    val = st.facts.get(("val", v))
    v = val if val is not None else v
    base = [it.strval(args[1], st)] if len(args) > 1 else [x for k, x in kwargs if k == "base"]
    if base and not (isinstance(v, Const) and isinstance(base[0], Const)):
        yield from opaque_call(it, Ext("builtins.int"), args, kwargs, st, ctx, node, "builtins.int", "int")
        return
    if isinstance(v, Const):
        try:
            yield st, Const(int(v.v, *(b.v for b in base)))
        except (ValueError, TypeError, OverflowError) as ex:
            yield it.raise_new(st, type(ex).__name__, (Const("int"),))
        return
    if isinstance(v, Lin):
        yield st, v
        return
    if isword(v) or isinstance(v, Str) and strparts(it, v, st) is not None and any(isword(p) for p in v.parts):
        yield it.raise_new(st, "ValueError", (Const("int"),))
        return
    ty = it.types(v, st)
    if ty is not None and ty <= T.NUMERIC:
        yield st, v
        return
    if ty is not None and not (ty & (T.NUMS | {"str", "bytes", "object", "ndarray"})) or isinstance(v, (Tup, FuncV)):
        yield it.raise_new(st, "TypeError", (Const("int"),))
        return
    key = ("intable", v)
    if st.facts.get(key) is not False:
        s = st.fork()
        s.facts[key] = True
        yield s, App("int", (v,), "int")
    if st.facts.get(key) is not True:
        names = ["ValueError"]
        if ty is None or ty - T.NUMS - {"str"}:
            names.append("TypeError")
        if ty is not None and ty <= T.NUMS:
            names = ["ValueError"]
        if it.cfg.raise_filter is None or it.cfg.raise_filter("call builtins.int", (v,), node):
            for e in it.can_catch(ctx, names):
                s = st.fork()
                s.facts[key] = False
                yield it.raise_new(s, e, (Const("int"),))


@ext("builtins.float")
def b_float(it, args, kwargs, st, ctx, node):
    v = it.strval(args[0], st) if args else Const(0.0)
    if isinstance(v, Const):
        try:
            yield st, Const(float(v.v))
        except Exception as ex:
            yield it.raise_new(st, type(ex).__name__, (Const("float"),))
        return
    yield from opaque_call(it, Ext("builtins.float"), (v,), (), st, ctx, node, "builtins.float", "float")


def user_text(it, v, kind, st, ctx, node):
    """`str()`/`repr()` of an object whose class (of the analysed code) defines it; None when it doesn't."""
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], InstO) and isinstance(st.heap[v.oid].cls, ClsV):
        if kind == "str" and st.heap[v.oid].strval is not None:     # a text has one of its own already
            names = ("__str__",)
        else:
            names = ("__str__", "__repr__") if kind == "str" else ("__repr__",)
        for n in names:
            m = st.heap[v.oid].cls.info.lookup(n)
            if isinstance(m, FuncV):
                return it.call(Bound(m, v), (), (), st, ctx, node)
    return None


def user_texts(it, a, b, st, ctx, node):
    """`a % b` with the arguments having a text defined in the analysed code replaced by it; yields `(st, a, b)`
    or `(st, Raised, None)`."""
    tpl = it.strval(a, st)
    args = list(b.items) if isinstance(b, Tup) and b.cls is None else [b]
    if not isinstance(tpl, Const) or not any(isinstance(x, Ref) for x in args):
        yield st, a, b
        return
    todo, out, i, pos = [], [], 0, 0
    for m in re.finditer(r"%(?:%|([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))", tpl.v):
        out.append(tpl.v[pos:m.start()])
        pos = m.end()
        t = m.group(0)
        if m.group(2):
            if i < len(args) and m.group(2) in "sr" and not m.group(1):
                k = "str" if m.group(2) == "s" else "repr"
                if user_text(it, args[i], k, st, ctx, node) is not None:
                    todo.append((i, k))
                    t = "%s"
            i += 1
        out.append(t)
    if not todo:
        yield st, a, b
        return
    tpl = Const("".join(out) + tpl.v[pos:])

    def step(s, n, args):
        if n == len(todo):
            yield s, tpl, Tup(args)
            return
        i, k = todo[n]
        for s2, v in user_text(it, args[i], k, s, ctx, node):
            if isinstance(v, R()):
                yield s2, v, None
            else:
                yield from step(s2, n + 1, args[:i] + [v] + args[i + 1:])

    yield from step(st, 0, args)


@ext("builtins.str")
def b_str(it, args, kwargs, st, ctx, node):
    if not args:
        yield st, Const("")
        return
    t = user_text(it, args[0], "str", st, ctx, node)
    if t is not None:
        yield from t
        return
    yield st, it.tostr(args[0], st)


@ext("builtins.repr")
def b_repr(it, args, kwargs, st, ctx, node):
    v = it.strval(args[0], st)
    t = user_text(it, v, "repr", st, ctx, node)
    if t is not None:
        yield from t
    elif isinstance(v, Const):
        yield st, Const(repr(v.v))
    else:
        yield st, App("repr", (args[0],), "str")


@ext("builtins.list")
def b_list(it, args, kwargs, st, ctx, node):
    if not args:
        s = st.fork()
        yield s, s.alloc(ListO())
        return
    yield from mk_list(it, args[0], st, ctx, node)


@ext("builtins.tuple")
def b_tuple(it, args, kwargs, st, ctx, node):
    if not args:
        yield st, Tup(())
        return
    if isinstance(args[0], Tup) and args[0].cls is None:
        yield st, args[0]
        return
    yield from mk_list(it, args[0], st, ctx, node, "tuple")


@ext("builtins.set", "builtins.frozenset")
def b_set(it, args, kwargs, st, ctx, node):
    if not args:
        s = st.fork()
        yield s, s.alloc(ListO(tname="set"))
        return
    yield from mk_list(it, args[0], st, ctx, node, "set")


@ext("collections.OrderedDict")
def b_odict(it, args, kwargs, st, ctx, node):
    for s, v in b_dict(it, args, kwargs, st, ctx, node):
        if isinstance(v, Ref) and isinstance(s.heap.get(v.oid), DictO):
            s.heap[v.oid] = s.heap[v.oid].repl(tname="OrderedDict")
        yield s, v


@ext("builtins.dict")
def b_dict(it, args, kwargs, st, ctx, node):
    RR = R()
    s = st.fork()
    kw = [(Const(k), v) for k, v in kwargs if k is not None]
    star = [v for k, v in kwargs if k is None]
    if not args:
        yield s, s.alloc(DictO(kw, open=bool(star), base=star[0] if star else None))
        return
    v = args[0]
    if isinstance(v, Ref) and isinstance(s.heap[v.oid], (DictO, CopyO)) or isinstance(v, (Sym, App)) and not (isinstance(v, App) and v.op in ("view",)):
        if isinstance(v, (Sym, App)):
            yield from may_raise(it, st, ctx, "call builtins.dict", (v,), node, ["TypeError", "ValueError"])
        its, op, base = it.dict_contents(v, s)
        items = tuple(its)
        for k, x in kw:
            items = it._put(items, k, x)
        yield s, s.alloc(DictO(items, open=op, base=base))
        return
    if isinstance(v, Ref) and isinstance(s.heap[v.oid], InstO) and not isinstance(s.heap[v.oid].cls, ClsV):
        for s2, ps in dict_pairs(it, v, s, it.cfg.loop_k):
            s2 = s2.fork()
            yield s2, s2.alloc(DictO(tuple(ps) + tuple(kw)))
        return
    for s2, es in materialise(it, v, s, ctx, node, it.cfg.loop_k):
        if isinstance(es, RR):
            yield s2, es
            continue
        ok, items = "", ()
        for e in es:
            l = it.aslist(e, s2)
            if l is not None and not l[1]:
                e = Tup(l[0])
            if isinstance(e, Tup) and len(e.items) == 2:
                items = it._put(items, e.items[0], e.items[1])
            elif isinstance(e, Tup):
                ok = ok or "ValueError"
            elif isinstance(e, (Sym, App)):
                items = it._put(items, it.item_const(e, 0, s2), it.item_const(e, 1, s2))
            else:
                ok = ok or "TypeError"
        if ok:
            yield it.raise_new(s2, ok, (Const("dict"),))
            continue
        for k, x in kw:
            items = it._put(items, k, x)
        s2 = s2.fork()
        yield s2, s2.alloc(DictO(items))


@ext("collections.defaultdict")
def b_defaultdict(it, args, kwargs, st, ctx, node):
    for s, d in b_dict(it, args[1:], kwargs, st, ctx, node):
        if isinstance(d, Ref):
            s = s.fork()
            s.heap[d.oid] = s.heap[d.oid].repl(tname="defaultdict")
            s.over[(d, "factory", None)] = args[0] if args else NONE
        yield s, d


@ext("collections.ChainMap")
def b_chainmap(it, args, kwargs, st, ctx, node):
    s = st.fork()
    maps = list(args) or [s.alloc(DictO())]
    l = s.alloc(ListO(maps))
    d = s.alloc(DictO(((Const("maps"), l),)))
    yield s, s.alloc(InstO(Ext("collections.ChainMap"), d.oid))


@ext("collections.namedtuple")
def b_namedtuple(it, args, kwargs, st, ctx, node):
    name = args[0].v
    f = args[1]
    if isinstance(f, Const):
        fields = f.v.replace(",", " ").split()
    else:
        for s, vs in materialise(it, f, st, ctx, node, 1):
            fields = [x.v for x in vs]
    info = _core().ClassInfo(name, ctx.module, [])
    info.nt_fields = list(fields)
    info.nt_defaults = ()
    d = kwget(kwargs, "defaults")
    if d is not None:
        for s, vs in materialise(it, d, st, ctx, node, 1):
            info.nt_defaults = tuple(vs)
    it.prog._user = dict(it.prog._user)
    it.prog._user[name] = info
    yield st, ClsV(info)


@ext("builtins.range")
def b_range(it, args, kwargs, st, ctx, node):
    vals = [cint(it, a, st) for a in args]
    if all(v is not None for v in vals):
        r = list(range(*vals))
        if len(r) <= 64:
            s = st.fork()
            yield s, s.alloc(ListO([Const(i) for i in r], tname="range"))
            return
    if len(args) == 1:
        yield st, App("range", (Const(0), args[0]))
    elif len(args) == 2:
        yield st, App("range", (args[0], args[1]))
    else:
        if vals[2] == 1:
            yield st, App("range", (args[0], args[1]))
        else:
            yield st, App("range3", args)


@ext("builtins.enumerate")
def b_enumerate(it, args, kwargs, st, ctx, node):
    start = kwget(kwargs, "start", args[1] if len(args) > 1 else Const(0))
    n = cint(it, start, st)
    if n is None:
        und("enumerate start")
    s = st.fork()
    yield s, s.alloc(IterO(("enum", as_iter(args[0], s), n)))


@ext("builtins.zip")
def b_zip(it, args, kwargs, st, ctx, node):
    s = st.fork()
    yield s, s.alloc(IterO(("zip", tuple(as_iter(a, s) for a in args))))


@ext("builtins.map")
def b_map(it, args, kwargs, st, ctx, node):
    s = st.fork()
    yield s, s.alloc(IterO(("map", args[0], tuple(as_iter(a, s) for a in args[1:]))))


@ext("builtins.filter")
def b_filter(it, args, kwargs, st, ctx, node):
    s = st.fork()
    f = None if isinstance(args[0], Const) and args[0].v is None else args[0]
    yield s, s.alloc(IterO(("filter", f, as_iter(args[1], s))))


@ext("builtins.iter")
def b_iter(it, args, kwargs, st, ctx, node):
    v = args[0]
    if len(args) == 2:
        s = st.fork()
        yield s, s.alloc(IterO(("callable", v, args[1])))
        return
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], IterO):
        yield st, v
        return
    s = st.fork()
    yield s, s.alloc(IterO(("val", v)))


def as_iter(v, s):
    """The iterator python makes out of a list the builtin was given (others are left for when they are consumed)."""
    if isinstance(v, Tup) or isinstance(v, Ref) and isinstance(s.heap[v.oid], ListO) and not s.heap[v.oid].open:
        return s.alloc(IterO(("val", v)))
    return v


@ext("itertools.chain")
def b_chain(it, args, kwargs, st, ctx, node):
    s = st.fork()
    yield s, s.alloc(IterO(("chain", tuple(as_iter(a, s) for a in args))))


@ext("itertools.chain.from_iterable")
def b_chainfi(it, args, kwargs, st, ctx, node):
    for s, es in materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, R()):
            yield s, es
            continue
        s = s.fork()
        yield s, s.alloc(IterO(("chain", tuple(as_iter(a, s) for a in es))))


@ext("itertools.repeat")
def b_repeat(it, args, kwargs, st, ctx, node):
    s = st.fork()
    n = args[1] if len(args) > 1 else kwget(kwargs, "times")
    yield s, s.alloc(IterO(("repeat", args[0], n)))


@ext("itertools.product")
def b_product(it, args, kwargs, st, ctx, node):
    def rec(i, s, cols):
        if i == len(args):
            import itertools
            s = s.fork()
            yield s, s.alloc(IterO(("seq", tuple(Tup(p) for p in itertools.product(*cols)))))
            return
        for s2, es in materialise(it, args[i], s, ctx, node, it.cfg.comp_k):
            if isinstance(es, R()):
                yield s2, es
            else:
                yield from rec(i + 1, s2, cols + [es])

    yield from rec(0, st, [])


@ext("itertools.islice")
def b_islice(it, args, kwargs, st, ctx, node):
    n = [cint(it, a, st) for a in args[1:]]
    if iterated(args[0], st):
        if any(x is None and not (isinstance(a, Const) and a.v is None) for x, a in zip(n, args[1:])):
            und("islice")
        lo, hi, step = ([0] + n + [1] if len(n) == 1 else n + [1])[:3]
        lo, step = lo or 0, step or 1
        if hi is not None:
            def pull(i, s, out):
                if i >= hi:
                    s = s.fork()
                    yield s, s.alloc(IterO(("seq", tuple(out[lo:hi:step]))))
                    return
                end = Ext("%stop")
                for s2, x in b_next(it, (args[0], end), (), s, ctx, node):
                    if isinstance(x, R()):
                        yield s2, x
                    elif x == end:
                        s2 = s2.fork()
                        yield s2, s2.alloc(IterO(("seq", tuple(out[lo:hi:step]))))
                    else:
                        yield from pull(i + 1, s2, out + [x])
            yield from pull(0, st, [])
            return
    for s, es in materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, R()):
            yield s, es
            continue
        import itertools
        s = s.fork()
        yield s, s.alloc(IterO(("seq", tuple(itertools.islice(es, *n)))))


@ext("itertools.takewhile")
def b_takewhile(it, args, kwargs, st, ctx, node):
    st = st.fork()
    acc = st.fresh()
    st.frames[acc] = {"acc": ()}

    def body(s, x):
        for s2, r in it.call(args[0], (x,), (), s, ctx, node):
            if isinstance(r, R()):
                yield s2, ("raise", r.exc)
                continue
            for s3, b in it.truth(r, s2):
                if b:
                    s3 = s3.fork()
                    s3.frames[acc] = {"acc": s3.frames[acc]["acc"] + (x,)}
                    yield s3, None
                else:
                    yield s3, ("break",)

    for s, sig in it.iterate(args[1], st, ctx, body, node):
        if sig is None or sig[0] == "break":
            s = s.fork()
            yield s, s.alloc(IterO(("seq", s.frames[acc]["acc"])))
        else:
            yield s, R()(sig[1]) if sig[0] == "raise" else R()(abort=sig)


@ext("builtins.next")
def b_next(it, args, kwargs, st, ctx, node):
    """First remaining element."""
    RR = R()
    v = args[0]
    default = args[1] if len(args) > 1 else None

    def stop(s):
        if default is not None:
            return s, default
        return it.raise_new(s, "StopIteration", ())

    if not (isinstance(v, Ref) and isinstance(st.heap[v.oid], IterO)):
        if isinstance(v, (Sym, App)):
            # opaque iterator: number of elements consumed so far is kept in over
            n = st.over.get((v, "next", None), 0)
            s = st.fork()
            s.over[(v, "next", None)] = n + 1
            s.event("next", v, n)
            yield s, App("elem", (v, n))
            key = ("exhausted", v, n)
            if it.can_catch(ctx, ["StopIteration"]) or default is not None:
                if key not in st.facts:
                    s2 = st.fork()
                    s2.facts[key] = True
                    yield stop(s2)
            return
        yield it.raise_new(st, "TypeError", (Const("not an iterator"),))
        return
    o = st.heap[v.oid]
    if o.pos == "done":
        yield stop(st)
        return
    if o.src[0] == "gen" and isinstance(o.pos, int) and o.pos > 0:
        # replay the generator, discarding what has been seen (its effects are re-run on the same state: only for effect-free ones)
        pass
    pos = o.pos if isinstance(o.pos, int) else 0
    if o.src[0] == "val" and isinstance(o.src[1], Ref) and isinstance(st.heap[o.src[1].oid], IterO):
        yield from b_next(it, (o.src[1],) + tuple(args[1:]), kwargs, st, ctx, node)
        return
    marker = ("got", object())
    st0 = st.fork()
    cnt = st0.fresh()
    st0.frames[cnt] = {"i": 0}

    def body(s, x):
        i = s.frames[cnt]["i"]
        s = s.fork()
        s.frames[cnt] = {"i": i + 1, "x": x}
        if i < pos and o.src[0] in ("gen",):
            yield s, None
        else:
            if pos and o.src[0] == "gen":
                if any(s.heap.get(x) is not y for x, y in h0.items() if x != v.oid):
                    und("generator with effects resumed")
                s.trace = e0
            yield s, marker

    o0 = o.repl(pos=0) if o.src[0] == "gen" else o
    if o.src[0] == "gen":           # resumed by running it again from its start
        fid = o.src[1].fid
        o0 = o0.repl(src=("gen", o.src[1], o.src[2] if len(o.src) > 2 else dict(st0.frames[fid])))
        st0.frames[fid] = dict(o0.src[2])
    st0.heap[v.oid] = o0
    if o.src[0] == "gen":
        h0, e0 = dict(st0.heap), st0.trace
        runs = it.run_gen(o0, st0, ctx, body)
        st0.heap[v.oid] = o0.repl(pos="done")
    else:
        runs = iterate(it, v, st0, ctx, body, node, max(it.cfg.loop_k, pos + 2))
    for s, sig in runs:
        if sig is None:
            yield stop(s)
        elif sig is marker:
            s = s.fork()
            o2 = s.heap[v.oid]
            if o2.pos in ("done", "cut") or o2.src[0] in ("gen", "genexp"):
                if o2.src[0] == "genexp" and len(o2.src[1].generators) > 1 and pos:
                    und("nested generator expression resumed")
                o2 = o.repl(src=o2.src, pos=pos + 1)
                s.heap[v.oid] = o2
            yield s, s.frames[cnt]["x"]
        elif sig[0] == "raise":
            yield s, RR(sig[1])
        else:
            yield s, RR(abort=sig)


def _anyall(want):
    def f(it, args, kwargs, st, ctx, node):
        RR = R()

        def body(s, x):
            for s2, b in it.truth(x, s):
                yield s2, (("break",) if b == want else None)

        for s, sig in it.iterate(args[0], st, ctx, body, node):
            if sig is None:
                yield s, boolv(not want)
            elif sig[0] == "break":
                yield s, boolv(want)
            elif sig[0] == "raise":
                yield s, RR(sig[1])
            else:
                yield s, RR(abort=sig)
    return f


EXT["builtins.any"] = _anyall(True)
EXT["builtins.all"] = _anyall(False)


@ext("builtins.sorted")
def b_sorted(it, args, kwargs, st, ctx, node):
    RR = R()
    for s, es in materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, RR):
            yield s, es
            continue
        key = kwget(kwargs, "key")
        rev = kwget(kwargs, "reverse", FALSE)
        keys = None
        if isinstance(key, App) and key.op == "cmp_to_key":
            outs = [(s, [App("cmpkey", (key.args[0], e)) for e in es])]
        elif key is not None and not (isinstance(key, Const) and key.v is None):
            outs = [(s, [])]
            for e in es:
                nouts = []
                for s1, ks in outs:
                    for s2, kv in it.call(key, (e,), (), s1, ctx, node):
                        if isinstance(kv, RR):
                            yield s2, kv
                        else:
                            nouts.append((s2, ks + [kv]))
                outs = nouts
        else:
            outs = [(s, list(es))]
        for s1, ks in outs:
            r = [it.strval(k, s1) for k in ks]
            from .stdmodel import py, NotConst
            try:
                kk = [k.v if isinstance(k, Const) else py(k, s1) for k in r] if not any(has_lt(k, s1) for k in ks) else None
            except (NotConst, TypeError):
                kk = None
            if kk is None and r and all(isinstance(k, Tup) and k.items and isinstance(k.items[0], Const) for k in r) and len({k.items[0] for k in r}) == len(r):
                kk = [k.items[0].v for k in r]      # Their first elements decide.
            if kk is not None:
                try:
                    order = sorted(range(len(es)), key=lambda i: kk[i], reverse=bool(isinstance(rev, Const) and rev.v))
                except TypeError:
                    yield it.raise_new(s1, "TypeError", ())
                    continue
                s2, ref = it.mklist(s1, [es[i] for i in order])
                s2.over[(ref, "sorted", None)] = TRUE
                yield s2, ref
                continue
            if all(has_lt(k, s1) for k in ks) or len(es) <= 3 and all(it.lin(k, s1) is not None for k in r) or len(es) <= 3 and it.cfg.sort_fork:
                # insertion by forking on the comparisons
                for s2, order in fork_sort(it, ks if has_lt(ks[0], s1) else r, s1, bool(isinstance(rev, Const) and rev.v)):
                    s3, ref = it.mklist(s2, [es[i] for i in order])
                    s3.over[(ref, "sorted", None)] = TRUE
                    yield s3, ref
                continue
            s2, ref = it.mklist(s1, list(es))
            s2.over[(ref, "sorted", None)] = TRUE if not (isinstance(rev, Const) and rev.v) else Const("reversed")
            yield s2, ref


def fork_sort(it, keys, st, rev):
    def ins(order, i, s):
        # stable insertion of i into order
        def rec(pos, s1):
            if pos == 0:
                yield s1, 0
                return
            a = keys[order[pos - 1]]
            b = keys[i]
            lt = it.compare_lt(b, a, False, s1) if not rev else it.compare_lt(a, b, False, s1)
            for s2, t in lt:
                if t:
                    yield from rec(pos - 1, s2)
                else:
                    yield s2, pos
        for s2, p in rec(len(order), s):
            yield s2, order[:p] + [i] + order[p:]

    def go(i, order, s):
        if i == len(keys):
            yield s, order
            return
        for s2, o in ins(order, i, s):
            yield from go(i + 1, o, s2)

    yield from go(0, [], st)


@ext("builtins.reversed")
def b_reversed(it, args, kwargs, st, ctx, node):
    for s, es in materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, R()):
            yield s, es
            continue
        s = s.fork()
        yield s, s.alloc(IterO(("seq", tuple(reversed(es)))))


def _minmax(is_min):
    def f(it, args, kwargs, st, ctx, node):
        RR = R()
        key = kwget(kwargs, "key")
        gen = [(st, list(args))] if len(args) > 1 else materialise(it, args[0], st, ctx, node, it.cfg.loop_k)
        for s, es in gen:
            if isinstance(es, RR):
                yield s, es
                continue
            if not es:
                d = kwget(kwargs, "default")
                if d is not None:
                    yield s, d
                else:
                    yield it.raise_new(s, "ValueError", (Const("empty"),))
                continue
            outs = [(s, [])]
            for e in es:
                nouts = []
                for s1, ks in outs:
                    if key is None:
                        nouts.append((s1, ks + [e]))
                        continue
                    if isinstance(key, App) and key.op == "cmp_to_key":
                        nouts.append((s1, ks + [App("cmpkey", (key.args[0], e))]))
                        continue
                    for s2, kv in it.call(key, (e,), (), s1, ctx, node):
                        if isinstance(kv, RR):
                            yield s2, kv
                        else:
                            nouts.append((s2, ks + [kv]))
                outs = nouts
            for s1, ks in outs:
                def rec(i, best, s2):
                    if i == len(es):
                        yield s2, es[best]
                        return
                    # max keeps the first of equals; so does min
                    c = it.compare_lt(ks[i], ks[best], False, s2) if is_min else it.compare_lt(ks[best], ks[i], False, s2)
                    for s3, b in c:
                        yield from rec(i + 1, i if b else best, s3)
                if key is None and len(es) == 2 and all(it.lin(k, s1) is not None for k in ks) and not all(isinstance(k, Const) for k in ks):
                    from . import npmodel
                    yield s1, npmodel.minmax(it, "min" if is_min else "max", ks, s1)
                    continue
                yield from rec(1, 0, s1)
    return f


EXT["builtins.min"] = _minmax(True)
EXT["builtins.max"] = _minmax(False)


@ext("builtins.sum")
def b_sum(it, args, kwargs, st, ctx, node):
    for s, es in materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, R()):
            yield s, es
            continue
        outs = [(s, args[1] if len(args) > 1 else Const(0))]
        for e in es:
            outs = [(s2, r) for s1, acc in outs for s2, r in it.binop("+", acc, e, s1, ctx, node)]
        yield from outs


@ext("builtins.hasattr")
def b_hasattr(it, args, kwargs, st, ctx, node):
    nm = it.strval(args[1], st)
    if isinstance(nm, Const) and isinstance(args[0], (Ref, ClsV, Tup, ModV)):
        for s, r in it.getattr_(args[0], nm.v, st, ctx, node):
            if isinstance(r, R()):
                yield s, FALSE
            elif isinstance(r, BMeth) and isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], (DictO, ListO)):
                o = st.heap[args[0].oid]
                py = {"dict": dict, "list": list, "set": set}.get(o.tname, dict)
                yield s, boolv(hasattr(py, nm.v))
            else:
                yield s, TRUE
        return
    if isinstance(args[0], Const) and isinstance(nm, Const):
        yield st, boolv(hasattr(args[0].v, nm.v))
        return
    for s, b in opaque_hasattr(it, args[0], nm, st):
        yield s, boolv(b)


PY_TYPES = {t.__name__: t for t in (str, int, float, bool, list, tuple, dict, set, frozenset, bytes, complex, type(None))}


def opaque_hasattr(it, v, nm, st):
    """Has an unknown value the attribute? Its types tell, when all are of the language's."""
    nm = nm.v if isinstance(nm, Const) else nm
    known = st.facts.get(("hasattr", v, nm))
    ty = it.types(v, st)
    if known is None and isinstance(nm, str) and ty and all(t in PY_TYPES for t in ty):
        yes = frozenset(t for t in ty if hasattr(PY_TYPES[t], nm))
        for part, b in ((yes, True), (ty - yes, False)):
            if part:
                s = st.fork()
                if part != ty:
                    it.set_types(v, part, s)
                yield s, b
        return
    yield from it._fork_fact(("hasattr", v, nm), st)


@ext("builtins.getattr")
def b_getattr(it, args, kwargs, st, ctx, node):
    RR = R()
    nm = it.strval(args[1], st)
    val = st.facts.get(("val", nm))
    nm = val if val is not None else nm
    if isinstance(nm, Const) and isinstance(nm.v, str):
        if len(args) > 2 and isinstance(args[0], (Sym, App)):
            ov = st.over.get((args[0], "attr", nm.v))
            if ov is not None:
                yield st, ov
                return
            for s, b in opaque_hasattr(it, args[0], nm, st):
                if b:
                    yield from it.getattr_(args[0], nm.v, s, ctx, node)
                else:
                    yield s, args[2]
            return
        for s, r in it.getattr_(args[0], nm.v, st, ctx, node):
            if isinstance(r, RR) and len(args) > 2 and r.abort is None and is_exc(it, r.exc, "AttributeError", s):
                yield s, args[2]
            else:
                yield s, r
        return
    if isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], InstO):
        ci = it.find_class(args[0], st)
        ga = ci.lookup("__getattr__") if ci else None
        if ga is not None and (isword(nm) or isinstance(nm, Str)):
            # a name which is none of the class'
            o = st.heap[args[0].oid]
            x = it.dict_get(st.heap[o.dict], nm, st)
            if x is not None:
                yield st, x
                return
            yield from it.call(Bound(ga, args[0]), (nm,), (), st, ctx, node)
            return
    if isinstance(args[0], Ref):
        yield it.raise_new(st, "AttributeError", (nm,))
        return
    s = st.fork()
    if len(args) > 2:
        for s2, b in it._fork_fact(("hasattr", args[0], nm), st):
            yield s2, (App("getattr", (args[0], nm)) if b else args[2])
        return
    yield st, App("getattr", (args[0], nm))
    for e in it.can_catch(ctx, ["AttributeError", "TypeError"] if it.types(nm, st) != frozenset(["str"]) else ["AttributeError"]):
        yield it.raise_new(st, e, (nm,))


def is_exc(it, exc, name, st):
    if isinstance(exc, Ref):
        o = st.heap[exc.oid]
        nm = o.cls.info.supers() if isinstance(o.cls, ClsV) else T.exc_supers(T.clsname(o.cls))
        return name in nm
    ty = it.types(exc, st)
    return bool(ty) and all(it.exc_isa(t, name) for t in ty)


@ext("builtins.setattr")
def b_setattr(it, args, kwargs, st, ctx, node):
    nm = it.strval(args[1], st)
    if isinstance(nm, Const):
        for s, err in it.setattr_(args[0], nm.v, args[2], st, ctx, node):
            yield s, (err if err is not None else NONE)
        return
    ci = it.find_class(args[0], st)
    sa = ci.lookup("__setattr__") if ci else None
    if sa is not None:
        for s, r in it.call(Bound(sa, args[0]), (nm, args[2]), (), st, ctx, node):
            yield s, (r if isinstance(r, R()) else NONE)
        return
    s = st.fork()
    it.write(s, args[0], "setattr", nm, args[2], node, ctx)
    s.over[(args[0], "attrsym", nm)] = args[2]
    yield s, NONE


@ext("builtins.delattr")
def b_delattr(it, args, kwargs, st, ctx, node):
    nm = it.strval(args[1], st)
    if isinstance(nm, Const):
        for s, err in it.delattr_(args[0], nm.v, st, ctx, node):
            yield s, (err if err is not None else NONE)
        return
    s = st.fork()
    it.write(s, args[0], "delattr", args[1], None, node, ctx)
    yield s, NONE


INERT = set("int float bool str bytes NoneType list dict tuple set frozenset complex module".split())    # never callable


@ext("builtins.callable")
def b_callable(it, args, kwargs, st, ctx, node):
    v = args[0]
    if isinstance(v, (FuncV, Bound, BMeth, ClsV, Partial, Ext)):
        yield st, TRUE
    elif isinstance(v, (Const, Tup, Lin, Str)):
        yield st, FALSE
    elif isinstance(v, Sym) and v.ty and (v.ty in INERT if isinstance(v.ty, str) else all(t in INERT for t in v.ty)):
        yield st, FALSE
    elif isinstance(v, Ref) and isinstance(st.heap[v.oid], (ListO, DictO)):
        yield st, FALSE
    elif isinstance(v, Ref) and isinstance(st.heap[v.oid], InstO) and isinstance(st.heap[v.oid].cls, ClsV) and (
            st.heap[v.oid].cls.info.lookup("__call__") is not None or all(isinstance(c, _core().ClassInfo) for c in st.heap[v.oid].cls.info.mro()[1:])):
        yield st, boolv(st.heap[v.oid].cls.info.lookup("__call__") is not None)
    else:
        for s, b in it._fork_fact(("callable", v), st):
            yield s, boolv(b)


@ext("builtins.vars")
def b_vars(it, args, kwargs, st, ctx, node):
    yield from it.getattr_(args[0], "__dict__", st, ctx, node)


@ext("builtins.dir")
def b_dir(it, args, kwargs, st, ctx, node):
    """The names of plain objects; not those of subclasses of what isn't modelled."""
    v = args[0] if len(args) == 1 and not kwargs else None
    o = st.heap.get(v.oid) if isinstance(v, Ref) else None
    if not isinstance(o, InstO) or not isinstance(o.cls, ClsV) or o.cls.info.lookup("__dir__") or o.cls.info.lookup("__getattr__") or o.cls.info.builtin_base():
        if o is not None:
            und("dir")
        yield from opaque_call(it, Ext("builtins.dir"), args, kwargs, st, ctx, node, "builtins.dir", "list")
        return
    names = set(dir(object)) | {"__dict__", "__weakref__", "__module__"}
    for k in o.cls.info.mro():
        names |= set(getattr(k, "attrs", ()))
    for s, d in it.getattr_(v, "__dict__", st, ctx, node):
        do = s.heap.get(d.oid) if isinstance(d, Ref) else None
        if not isinstance(do, DictO) or do.open or not all(isinstance(k, Const) for k, _ in do.items):
            und("dir")
        s = s.fork()
        yield s, s.alloc(ListO([Const(n) for n in sorted(names | {k.v for k, _ in do.items})]))


@ext("builtins.type")
def b_type(it, args, kwargs, st, ctx, node):
    v = args[0]
    if len(args) == 1:
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, InstO):
                yield st, o.cls
                return
            if isinstance(o, (DictO, ListO)):
                yield st, Ext("builtins." + o.tname) if o.tname in ("dict", "list", "set") else Ext("collections." + o.tname)
                return
        if isinstance(v, Const):
            yield st, Ext("builtins." + type(v.v).__name__)
            return
        if isinstance(v, Tup):
            yield st, ClsV(v.cls) if v.cls else Ext("builtins.tuple")
            return
        ty = it.types(v, st)
        if ty is not None and len(ty) == 1:
            t = next(iter(ty))
            if t in it.prog._user:
                yield st, ClsV(it.prog._user[t])
                return
            if t in ("dict", "list", "str", "int", "float", "bool", "tuple", "set"):
                yield st, Ext("builtins." + t)
                return
        yield st, App("call:type", (v,), "type")
        return
    yield from opaque_call(it, Ext("builtins.type"), args, kwargs, st, ctx, node, "builtins.type")


@ext("builtins.print")
def b_print(it, args, kwargs, st, ctx, node):
    yield st, NONE


@ext("builtins.id")
def b_id(it, args, kwargs, st, ctx, node):
    yield st, App("id", (args[0],), "int")


@ext("builtins.abs")
def b_abs(it, args, kwargs, st, ctx, node):
    v = args[0]
    if isinstance(v, Const):
        yield st, Const(abs(v.v))
        return
    if it.lin(v, st) is not None:
        for s, b in it.compare_lt(v, Const(0), False, st):
            if b:
                yield s, it.mklin(it.lin_comb(Lin((), 0), it.lin(v, s), -1))
            else:
                yield s, v
        return
    yield st, App("abs", (v,))


def _folded(name, fn, n):
    """Builtins of plain values, folded on constants."""

    @ext("builtins." + name)
    def b(it, args, kwargs, st, ctx, node):
        if not kwargs and len(args) in n and all(isinstance(a, Const) and isinstance(a.v, (int, float, str, bytes)) for a in args):
            try:
                v = fn(*(a.v for a in args))
            except (TypeError, ValueError, OverflowError, ZeroDivisionError) as ex:
                yield it.raise_new(st, type(ex).__name__, (Const(str(ex)),))
            else:
                yield st, Tup([Const(x) for x in v]) if isinstance(v, tuple) else Const(v)
        else:
            yield from opaque_call(it, Ext("builtins." + name), args, kwargs, st, ctx, node, "builtins." + name)


for _name, _fn, _n in (("chr", chr, (1,)), ("ord", ord, (1,)), ("divmod", divmod, (2,)), ("hex", hex, (1,)), ("oct", oct, (1,)), ("bin", bin, (1,)), ("round", round, (1, 2))):
    _folded(_name, _fn, _n)


@ext("builtins.object")
def b_object(it, args, kwargs, st, ctx, node):
    s = st.fork()
    d = s.alloc(DictO())
    yield s, s.alloc(InstO(Ext("builtins.object"), d.oid, origin="fresh"))


@ext("builtins.slice")
def b_slice(it, args, kwargs, st, ctx, node):
    if any(isinstance(a, App) and a.op == "*" for a in args):
        yield st, App("slice", args, "slice")
        return
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    elif len(a) == 2:
        a = a + [NONE]
    yield st, SliceV(*a)


@ext("builtins.property")
def b_property(it, args, kwargs, st, ctx, node):
    yield st, _core().PropV(args[0] if args else None, args[1] if len(args) > 1 else None)


@ext("builtins.staticmethod")
def b_static(it, args, kwargs, st, ctx, node):
    yield st, _core().StaticV(args[0])


@ext("functools.partial")
def b_partial(it, args, kwargs, st, ctx, node):
    yield st, Partial(args[0], args[1:], kwargs)


@ext("functools.reduce")
def b_reduce(it, args, kwargs, st, ctx, node):
    RR = R()
    for s, es in materialise(it, args[1], st, ctx, node, it.cfg.loop_k):
        if isinstance(es, RR):
            yield s, es
            continue
        es = list(es)
        if len(args) > 2:
            es = [args[2]] + es
        if not es:
            yield it.raise_new(s, "TypeError", (Const("reduce of empty"),))
            continue

        def rec(acc, rest, s1):
            if not rest:
                yield s1, acc
                return
            for s2, r in it.call(args[0], (acc, rest[0]), (), s1, ctx, node):
                if isinstance(r, RR):
                    yield s2, r
                else:
                    yield from rec(r, rest[1:], s2)

        yield from rec(es[0], es[1:], s)


@ext("copy.copy")
def b_copy(it, args, kwargs, st, ctx, node):
    v = args[0]
    ci = it.find_class(v, st)
    if ci is not None and isinstance(ci.lookup("__copy__"), FuncV):
        yield from it.call(Bound(ci.lookup("__copy__"), v), (), (), st, ctx, node)
        return
    yield shallow_copy(it, v, st)


@ext("copy.deepcopy")
def b_deepcopy(it, args, kwargs, st, ctx, node):
    yield deep_copy(it, args[0], st)


@ext("operator.itemgetter")
def b_itemgetter(it, args, kwargs, st, ctx, node):
    yield st, Partial(Ext("%itemgetter"), args, ())


@ext("operator.attrgetter")
def b_attrgetter(it, args, kwargs, st, ctx, node):
    yield st, Partial(Ext("%attrgetter"), args, ())


@ext("toolz.dicttoolz.valfilter", "toolz.valfilter")
def b_valfilter(it, args, kwargs, st, ctx, node):
    yield from _dfilter(it, args, st, ctx, node, lambda p: (p[1],))


@ext("toolz.dicttoolz.keyfilter", "toolz.keyfilter")
def b_keyfilter(it, args, kwargs, st, ctx, node):
    yield from _dfilter(it, args, st, ctx, node, lambda p: (p[0],))


@ext("toolz.dicttoolz.itemfilter", "toolz.itemfilter")
def b_itemfilter(it, args, kwargs, st, ctx, node):
    yield from _dfilter(it, args, st, ctx, node, lambda p: (Tup(p),))


def _dfilter(it, args, st, ctx, node, sel):
    RR = R()
    for s, ps in dict_pairs(it, args[1], st, it.cfg.loop_k):
        def rec(rest, out, s1):
            if not rest:
                s1 = s1.fork()
                yield s1, s1.alloc(DictO(out))
                return
            for s2, r in it.call(args[0], sel(rest[0]), (), s1, ctx, node):
                if isinstance(r, RR):
                    yield s2, r
                    continue
                for s3, b in it.truth(r, s2):
                    yield from rec(rest[1:], out + [rest[0]] if b else out, s3)

        yield from rec(ps, [], s)


@ext("toolz.dicttoolz.merge", "toolz.merge")
def b_merge(it, args, kwargs, st, ctx, node):
    out = ()
    for a in args:
        its, op, base = it.dict_contents(a, st)
        if op:
            und("merge of opaque")
        for k, v in its:
            out = it._put(out, k, v)
    s = st.fork()
    yield s, s.alloc(DictO(out))


@ext("builtins.str.maketrans")
def b_maketrans(it, args, kwargs, st, ctx, node):
    yield st, App("maketrans", args)


def _url_plain(t):
    import string
    return all(ch in string.ascii_letters + string.digits + "#/._-!():+*^$&\"'=,@ {}[]?" for ch in t.partition("#")[2]) and \
        all(ch in string.ascii_letters + string.digits + "/._-:\"$%&~\\" for ch in t.partition("#")[0])


def _url_fn(short):
    @ext("urllib.parse." + short)
    def f(it, args, kwargs, st, ctx, node):
        parts = strparts(it, args[0], st) if len(args) == 1 and not kwargs else None
        if parts is None or not all(isinstance(p, str) for p in parts):
            yield from opaque_call(it, Ext("urllib.parse." + short), args, kwargs, st, ctx, node, "urllib.parse." + short, None)
            return
        import urllib.parse
        try:
            r = getattr(urllib.parse, short)("".join(parts))
        except ValueError:
            yield it.raise_new(st, "ValueError", (Const("Invalid url"),))
            return
        s = st.fork()
        v = Sym("%s(%r)" % (short, "".join(parts)), type(r).__name__, "nonempty")
        for n in r._fields + ("netloc", "hostname", "query", "fragment"):
            s.over[(v, "attr", n)] = Const(getattr(r, n))
        for i, x in enumerate(r):
            s.over[(v, "item", Const(i))] = Const(x)
            s.over[(v, "item", Const(i - len(r)))] = Const(x)
        s.facts[("count", v)] = len(r)
        yield s, v


_url_fn("urlparse")
_url_fn("urlsplit")


def _path_url(short):
    """Paths and urls on posix differ by the escapes only."""
    @ext("urllib.request." + short)
    def f(it, args, kwargs, st, ctx, node):
        v = args[0] if args else None
        if isinstance(v, Const) and isinstance(v.v, str) and not v.v.startswith("//") and len(args) == 1 and not kwargs:
            import urllib.parse
            yield st, Const(getattr(urllib.parse, "unquote" if short == "url2pathname" else "quote")(v.v))
        else:
            yield from opaque_call(it, Ext("urllib.request." + short), args, kwargs, st, ctx, node, "urllib.request." + short, "str")


_path_url("url2pathname")
_path_url("pathname2url")


@ext("urllib.parse.urldefrag")
def b_urldefrag(it, args, kwargs, st, ctx, node):
    parts = strparts(it, args[0], st) if len(args) == 1 and not kwargs else None
    if parts is not None and all(isinstance(p, str) for p in parts):
        import urllib.parse
        try:
            yield st, Tup([Const(x) for x in urllib.parse.urldefrag("".join(parts))])
        except ValueError:
            yield it.raise_new(st, "ValueError", (Const("Invalid url"),))
        return
    if parts is None or not _url_plain("".join(p for p in parts if isinstance(p, str))):
        yield from opaque_call(it, Ext("urllib.parse.urldefrag"), args, kwargs, st, ctx, node, "urllib.parse.urldefrag", None)
        return
    t = "".join(p if isinstance(p, str) else "qz" for p in parts)
    if "#" not in t:
        yield st, Tup((mkstr(parts), Const("")))
        return
    out = [[], []]
    for p in parts:
        if isinstance(p, str) and not out[1] and "#" in p:
            a, _, b = p.partition("#")
            out[0].append(a)
            out[1] += ["", b]
        else:
            out[1 if out[1] else 0].append(p)
    yield st, Tup((mkstr(out[0]), mkstr(out[1])))


def from_python(it, s, x, names=None):
    """Abstract value of a plain python one, in the (forked) state."""
    if isinstance(x, dict):
        return s.alloc(DictO([(from_python(it, s, k, names), from_python(it, s, v, names)) for k, v in x.items()]))
    if isinstance(x, list):
        return s.alloc(ListO([from_python(it, s, v, names) for v in x]))
    if isinstance(x, str) and names:
        return unsubst(x, names)
    return Const(x)


@ext("json.loads")
def b_jsonloads(it, args, kwargs, st, ctx, node):
    import json
    parts = strparts(it, args[0], st) if len(args) == 1 and not kwargs else None
    if parts is None:
        yield from opaque_call(it, Ext("json.loads"), args, kwargs, st, ctx, node, "json.loads", None)
        return
    t, _, names = subst(parts)
    try:
        x = json.loads(t)
    except ValueError:
        yield it.raise_new(st, "ValueError", (Const("JSON"),))
        return
    s = st.fork()
    yield s, from_python(it, s, x, names)


def _pathfn(name, f, accept=None):
    def g(it, args, kwargs, st, ctx, node):
        parts = strparts(it, args[0], st) if len(args) == 1 and not kwargs else None
        if parts is None or accept and not accept("".join(p for p in parts if isinstance(p, str))):
            yield from opaque_call(it, Ext(name), args, kwargs, st, ctx, node, name, None)
            return
        s = st.fork()
        res = via_text(f, parts)
        s.event("call", name, tuple(args), tuple(kwargs), it.loc(ctx, node) if node is not None else "?", res, Ext(name))
        yield s, res
    return g


for _n, _f, _a in (("splitext", None, None), ("basename", None, None), ("dirname", None, None), ("normpath", None, None), ("split", None, None),
                   ("expandvars", None, lambda t: "$" not in t), ("expanduser", None, lambda t: "~" not in t)):
    import posixpath
    EXT["os.path." + _n] = _pathfn("os.path." + _n, getattr(posixpath, _n), _a)


@ext("re.compile")
def b_recompile(it, args, kwargs, st, ctx, node):
    p = it.strval(args[0], st)
    if isinstance(p, App) and p.op == "re":
        yield st, p
        return
    fl = args[1] if len(args) > 1 else kwget(kwargs, "flags", Const(0))
    if isinstance(p, Const):
        yield st, App("re", (p, fl), "Pattern")
        return
    yield st, App("re", (p, fl), "Pattern")
    yield from may_raise(it, st, ctx, "call re.compile", (p,), node, ["error"])


@ext("re.escape")
def b_reescape(it, args, kwargs, st, ctx, node):
    parts = strparts(it, args[0], st)
    yield st, mkstr([re.escape(p) if isinstance(p, str) else p for p in parts]) if parts is not None else App("call:re.escape", tuple(args), "str")


def _rematch(kind):
    def f(it, args, kwargs, st, ctx, node):
        p = args[0]
        if not (isinstance(p, App) and p.op == "re"):
            p = App("re", (it.strval(p, st), args[2] if len(args) > 2 else kwget(kwargs, "flags", Const(0))), "Pattern")
        yield from re_match(it, kind, p, it.strval(args[1], st), st)
    return f


for _k in ("match", "search", "fullmatch"):
    EXT["re." + _k] = _rematch(_k)


def re_flags(fl):
    if isinstance(fl, Const):
        return int(fl.v)
    names = set()

    def walk(x):
        if isinstance(x, Ext):
            names.add(x.name.rsplit(".", 1)[-1])
        elif isinstance(x, App) and x.op == "|":
            for y in x.args:
                walk(y)
        elif isinstance(x, Const) and isinstance(x.v, int):
            pass
        else:
            names.add("?")
    walk(fl)
    if "?" in names:
        return None
    r = 0
    for n in names:
        r |= int(getattr(re, n))
    return r


def re_match(it, kind, p, s_, st):
    val = st.facts.get(("val", s_))
    s_ = val if val is not None else s_
    term = App("match", (Const(kind), p, s_))
    if isinstance(s_, Const) and isinstance(p.args[0], Const):
        fl = re_flags(p.args[1])
        if fl is not None and isinstance(s_.v, str):
            try:
                m = getattr(re.compile(p.args[0].v, fl), kind)(s_.v)
            except re.error:
                m = None
            if m is None:
                yield st, NONE
            else:
                st = st.fork()
                st.facts[("truth", term)] = True
                st.facts[("notnone", term)] = True
                for a in ("lastgroup", "lastindex", "string", "pos", "endpos"):
                    st.over[(term, "attr", a)] = Const(getattr(m, a))
                st.over[(term, "cmatch", None)] = App("cm", (tuple(map(Const, m.groups())), tuple(sorted((k, Const(x)) for k, x in m.groupdict().items())), Const(m.group(0))))
                yield st, term
            return
    parts = strparts(it, s_, st)
    if parts is not None and isinstance(p.args[0], Const) and isinstance(p.args[0].v, str) and re_flags(p.args[1]) is not None:
        r = re_struct(p.args[0].v, re_flags(p.args[1]), kind, parts)
        if r is False:
            yield st, NONE
            return
        if r is not None:
            st = st.fork()
            st.facts[("truth", term)] = True
            st.facts[("notnone", term)] = True
            st.over[(term, "cmatch", None)] = App("cm", r)
    yield st, term


# --------------------------------------------------------------------------- methods
MUTATORS = set("""append extend insert remove clear sort reverse update pop popitem setdefault add discard __setitem__ __delitem__ fill resize put
itemset setflags appendleft popleft rotate intersection_update difference_update symmetric_difference_update move_to_end __setattr__""".split())


def call_method(it, obj, name, args, kwargs, st, ctx, node):
    stub = it.cfg.mstubs.get(name)
    if stub:
        r = stub(it, obj, st, args, kwargs, ctx, node)
        if r is not None:
            yield from r
            return
    if isinstance(obj, (SuperV,)):
        yield from super_method(it, obj, name, args, kwargs, st, ctx, node)
        return
    if isinstance(obj, ClsV):
        yield from class_method(it, obj, name, args, kwargs, st, ctx, node)
        return
    if isinstance(obj, Tup):
        yield from tuple_method(it, obj, name, args, kwargs, st, ctx, node)
        return
    if isinstance(obj, Ref):
        o = st.heap[obj.oid]
        if isinstance(o, ListO):
            yield from list_method(it, obj, o, name, args, kwargs, st, ctx, node)
            return
        if isinstance(o, DictO):
            yield from dict_method(it, obj, name, args, kwargs, st, ctx, node)
            return
        if isinstance(o, ArrO):
            from . import npmodel
            r = npmodel.method(it, obj, o, name, args, kwargs, st, ctx, node)
            if r is not None:
                yield from r
                return
            und("array method " + name)
        if isinstance(o, CopyO):
            ty = it.types(obj, st)
            if ty is not None and ty <= {"dict", "OrderedDict"} or name in ("items", "keys", "values", "get", "update", "pop", "setdefault") and ty is None:
                yield from dict_method(it, obj, name, args, kwargs, st, ctx, node)
                return
        if isinstance(o, InstO):
            if o.strval is not None and hasattr(str, name):
                yield from str_method(it, o.strval, name, args, kwargs, st, ctx, node)
                return
            if not isinstance(o.cls, ClsV) and T.clsname(o.cls) == "ChainMap":
                if name == "new_child":
                    s = st.fork()
                    m = args[0] if args else kwget(kwargs, "m")
                    if m is None or isinstance(m, Const) and m.v is None:
                        m = s.alloc(DictO())
                    yield from b_chainmap(it, [m] + chain_maps(it, obj, s), (), s, ctx, node)
                    return
                if name in ("update", "pop", "setdefault", "clear", "popitem") and name != "setdefault":
                    yield from call_method(it, chain_maps(it, obj, st)[0], name, args, kwargs, st, ctx, node)
                    return
                if name == "copy":
                    ms = chain_maps(it, obj, st)
                    s, m0 = shallow_copy(it, ms[0], st)
                    yield from b_chainmap(it, [m0] + ms[1:], (), s, ctx, node)
                    return
                yield from dict_method(it, obj, name, args, kwargs, st, ctx, node)
                return
            if name in ("__init__", "with_traceback", "__init_subclass__"):
                yield st, obj if name == "with_traceback" else NONE
                return
    sv = it.strval(obj, st)
    if is_str(it, sv, st):
        yield from str_method(it, sv, name, args, kwargs, st, ctx, node)
        return
    if isinstance(obj, Const):
        if all(isinstance(a, Const) for a in args) and not kwargs:
            try:
                yield st, Const(getattr(obj.v, name)(*[a.v for a in args]))
                return
            except Exception as ex:
                yield it.raise_new(st, type(ex).__name__, (Const(str(ex)),))
                return
        yield st, App("m:" + name, (obj,) + tuple(args))
        return
    if isinstance(obj, Lin):
        yield st, App("m:" + name, (obj,) + tuple(args))
        return
    yield from opaque_method(it, obj, name, args, kwargs, st, ctx, node)


def is_logger(v):
    while isinstance(v, (App,)):
        if v.op == "call:logging.getLogger":
            return True
        if not v.args or not isinstance(v.args[0], Val):
            return False
        v = v.args[0]
    return isinstance(v, Ext) and v.name.startswith("logging")


def opaque_method(it, obj, name, args, kwargs, st, ctx, node):
    D = _core().DELETED
    if is_logger(obj) and name in ("debug", "info", "warning", "error", "exception", "critical", "log"):
        s = st.fork()
        s.event("log", name, args, kwargs, it.loc(ctx, node) if node is not None else "?")
        yield s, NONE
        return
    if isinstance(obj, App) and obj.op == "match":
        yield from match_method(it, obj, name, args, kwargs, st, ctx, node)
        return
    if isinstance(obj, App) and obj.op == "re":
        if name in ("match", "search", "fullmatch"):
            yield from re_match(it, name, obj, it.strval(args[0], st), st)
            return
        if name == "split" and isinstance(obj.args[0], Const) and isinstance(it.strval(args[0], st), Const):
            fl = re_flags(obj.args[1])
            if fl is not None:
                r = re.compile(obj.args[0].v, fl).split(it.strval(args[0], st).v)
                yield it.mklist(st, [Const(x) for x in r])
                return
        if name == "sub" and len(args) >= 2:
            from .stdmodel import re_sub
            r = re_sub(it, obj, args[0], args[1], args[2] if len(args) > 2 else kwget(kwargs, "count", Const(0)), st, ctx, node)
            if r is not None:
                yield from r
                return
        if name == "finditer":
            from .stdmodel import re_finditer
            r = re_finditer(it, obj, args[0], st)
            if r is not None:
                yield r
                return
        if name in ("findall", "subn", "split") and all(isinstance(it.strval(a, st), Const) for a in args) and not kwargs:
            from .stdmodel import compiled, ab
            if compiled(obj) is not None:
                s = st.fork()
                yield s, ab(s, getattr(compiled(obj), name)(*[it.strval(a, st).v for a in args]))
                return
        if name == "sub":
            yield st, App("re.sub", (obj,) + tuple(args), "str")
            return
        yield st, App("m:re." + name, (obj,) + tuple(args), "list" if name in ("split", "findall") else None)
        return
    ty = it.types(obj, st)
    ci = it.find_class(obj, st)
    if ci is not None and ci.nt() is not None and name in ("_replace", "_asdict"):
        tup = Tup([st.over.get((obj, "attr", f)) or App("attr", (obj, f)) for f in ci.nt().nt_fields], ci)
        yield from tuple_method(it, tup, name, args, kwargs, st, ctx, node)
        return
    isdict = ty is not None and ty <= {"dict", "OrderedDict", "ChainMap", "defaultdict"} or isinstance(obj, App) and obj.op == "attr" and obj.args[1] == "__dict__"
    islist = ty is not None and ty <= {"list"}
    if name in ("items", "keys", "values") and not args:
        if ty is None or not isdict:
            if ty is not None and not (ty & {"dict", "OrderedDict", "object", "DataFrame", "Series", "ChainMap"}):
                yield it.raise_new(st, "AttributeError", (Const(name),))
                return
            for e in it.can_catch(ctx, ["AttributeError"]):
                if ty is not None and ty <= {"dict", "OrderedDict", "DataFrame", "Series"}:
                    break
                if it.cfg.raise_filter is None or it.cfg.raise_filter("attr", (obj, name), node):
                    s = st.fork()
                    if ty is not None:
                        it.set_types(obj, ty - {"dict", "OrderedDict", "DataFrame", "Series"}, s)
                    elif it.prog is not None:
                        it.set_types(obj, T.UNIVERSE - {"dict", "OrderedDict", "DataFrame", "Series"}, s)
                    yield it.raise_new(s, e, (Const(name),))
            st = st.fork()
            if ty is not None and ty & {"dict", "OrderedDict", "DataFrame", "Series", "object", "ChainMap"} != ty:
                it.set_types(obj, ty & {"dict", "OrderedDict", "DataFrame", "Series", "object", "ChainMap"}, st)
        yield st, App("view", (obj, name))
        return
    if name == "get" and args and not kwargs or name == "get" and isdict:
        yield from dict_method(it, obj, name, args, kwargs, st, ctx, node)
        return
    if isdict and name in ("pop", "setdefault", "update", "copy", "clear"):
        yield from dict_method(it, obj, name, args, kwargs, st, ctx, node)
        return
    if name == "copy" and not args:
        yield shallow_copy(it, obj, st)
        return
    if name in MUTATORS:
        s = st.fork()
        it.write(s, obj, name, args[0] if args else None, args[-1] if args else None, node, ctx)
        s.event("call", "." + name, (obj,) + tuple(args), kwargs, it.loc(ctx, node) if node is not None else "?", None, BMeth(obj, name))
        if name == "append" and isinstance(obj, (Sym, App)):
            n = s.over.get((obj, "appended", None), 0)
            s.over[(obj, "appended", None)] = n + 1
            s.over[(obj, "append", n)] = args[0] if args else NONE
        if name in ("pop", "popitem", "setdefault", "popleft"):
            yield s, App("m:" + name, (obj,) + tuple(args) + (s.fresh(),))
        else:
            yield s, NONE
        yield from may_raise(it, st, ctx, "call ." + name, (obj,) + tuple(args), node)
        return
    if ty == frozenset(["ndarray"]):
        from . import npmodel
        r = npmodel.opaque_method(it, obj, name, args, kwargs, st, ctx, node)
        if r is not None:
            yield from r
            return
    yield from may_raise(it, st, ctx, "call ." + name, (obj,) + tuple(args), node)
    s = st.fork()
    if any(map(repo_callable, args)) or any(repo_callable(v) for _, v in kwargs):
        s.facts[("escaped",)] = "." + name
    pure = name in PURE_METHODS or name.startswith("is")
    res = App("m:" + name, (obj,) + tuple(args) + tuple((k, v) for k, v in kwargs) + (() if pure else (s.fresh(),)),
              METHOD_TYPES.get(name) or (ty if name in ("reshape", "squeeze", "astype") and ty else None))
    s.event("call", "." + name, (obj,) + tuple(args), kwargs, it.loc(ctx, node) if node is not None else "?", res, BMeth(obj, name))
    yield s, res


PURE_METHODS = set("""any all nonzero min max astype copy timetuple groupdict group groups expand strip lower upper split rsplit
startswith endswith replace get_sheet_ids flatten squeeze reshape tolist search match fullmatch index count find rfind partition join
format encode decode geturl _replace _asdict hexdigest as_posix strftime""".split())
METHOD_TYPES = {"any": "bool", "all": "bool", "startswith": "bool", "endswith": "bool", "lower": "str", "upper": "str", "strip": "str",
                "split": "list", "min": None, "tolist": "list", "encode": "bytes", "decode": "str"}


def match_method(it, m, name, args, kwargs, st, ctx, node):
    cm = st.over.get((m, "cmatch", None))
    if cm is not None:
        groups, gd, g0 = cm.args
        gd = dict(gd)
        if name == "groupdict":
            s = st.fork()
            yield s, s.alloc(DictO([(Const(k), v) for k, v in gd.items()]))
            return
        if name == "group" and len(args) > 1 and all(isinstance(it.strval(a, st), Const) for a in args):
            ks = [it.strval(a, st).v for a in args]
            yield st, Tup([g0 if k == 0 else groups[k - 1] if isinstance(k, int) else gd[k] for k in ks])
            return
        if name in ("group", "__getitem__"):
            k = it.strval(args[0], st) if args else Const(0)
            if isinstance(k, Const):
                try:
                    yield st, g0 if k.v == 0 else groups[k.v - 1] if isinstance(k.v, int) else gd[k.v]
                except (IndexError, KeyError):
                    yield it.raise_new(st, "IndexError", (k,))
                return
        if name == "groups":
            d = args[0] if args else kwget(kwargs, "default", NONE)
            yield st, Tup([d if g == NONE else g for g in groups])
            return
        if name in ("span", "start", "end", "expand") and all(isinstance(it.strval(a, st), Const) for a in args):
            from .stdmodel import concrete_match, ab
            c = concrete_match(m)
            if c is not None:
                yield st, ab(st, getattr(c, name)(*[it.strval(a, st).v for a in args]))
                return
    if name == "groupdict":
        p = m.args[1].args[0]
        if isinstance(p, Const):
            names = re_group_names(p.v, re_flags(m.args[1].args[1]) or 0)
            if names is not None:
                s = st.fork()
                yield s, s.alloc(DictO([(Const(n), App("group", (m, n), {"str", "NoneType"})) for n in names]))
                return
    if name == "group":
        k = it.strval(args[0], st) if args else Const(0)
        if isinstance(k, Const):
            yield st, App("group", (m, k.v), {"str", "NoneType"} if k.v != 0 else "str")
            return
    if name == "expand" and args:
        ps = strparts(it, args[0], st)
        if ps is not None and not any(isinstance(p, str) and "\\" in p for p in ps):
            yield st, it.strval(args[0], st)         # a template without references
            return
    yield st, App("m:" + name, (m,) + tuple(args), "str" if name == "expand" else None)


def re_group_names(pat, flags):
    try:
        return sorted(re.compile(pat, flags).groupindex, key=re.compile(pat, flags).groupindex.get)
    except Exception:
        return None


def super_method(it, sv, name, args, kwargs, st, ctx, node):
    ci = sv.cls
    if name == "__new__":
        cls = args[0]
        info = cls.info if isinstance(cls, ClsV) else ci
        if info.nt() is not None:
            yield from it.nt_new(info, args[1:], kwargs, st)
            return
        s = st.fork()
        d = s.alloc(DictO())
        bb = info.builtin_base()
        yield s, s.alloc(InstO(cls, d.oid, strval=it.tostr(args[1], s) if bb == "str" and len(args) > 1 else None))
        return
    if name == "__init__" and isinstance(sv.self_, Ref) and isinstance(st.heap[sv.self_.oid], InstO) and T.is_exc_class(ci) and not kwargs:
        st = st.fork()
        o = st.heap[sv.self_.oid]
        d = st.heap[o.dict]
        st.heap[o.dict] = d.repl(items=it._put(d.items, Const("args"), Tup(args)))
    if name in ("__init__", "__init_subclass__"):
        yield st, NONE
        return
    if name == "__delattr__" and args and isinstance(args[0], Const):
        for s, r in it.raw_delattr(sv.self_, args[0].v, st, ctx, node):
            yield s, (NONE if r is None else r)
        return
    if name == "__setattr__":
        yield from call_ext(it, "builtins.object.__setattr__", (sv.self_,) + tuple(args), kwargs, st, ctx, node)
        return
    if name == "__getattr__":
        yield it.raise_new(st, "AttributeError", (args[0] if args else NONE,))
        return
    if name == "__repr__":
        yield st, App("repr", (sv.self_,), "str")
        return
    if isinstance(sv.self_, Tup):
        yield from tuple_method(it, sv.self_, name, args, kwargs, st, ctx, node)
        return
    yield from opaque_method(it, sv, name, args, kwargs, st, ctx, node)


def class_method(it, cls, name, args, kwargs, st, ctx, node):
    if name == "__new__":
        info = args[0].info if args and isinstance(args[0], ClsV) else cls.info
        if info.nt() is not None:
            yield from it.nt_new(info, args[1:], kwargs, st)
            return
        s = st.fork()
        d = s.alloc(DictO())
        yield s, s.alloc(InstO(args[0], d.oid))
        return
    if name == "_make":
        for s, es in materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
            if isinstance(es, R()):
                yield s, es
            else:
                yield from it.nt_new(cls.info, es, (), s)
        return
    if name == "__init__":
        yield st, NONE
        return
    if name in ("_replace", "_asdict") and args:
        yield from call_method(it, args[0], name, args[1:], kwargs, st, ctx, node)
        return
    yield from opaque_call(it, BMeth(cls, name), args, kwargs, st, ctx, node, cls.info.name + "." + name)


def tuple_method(it, t, name, args, kwargs, st, ctx, node):
    if name == "_replace":
        fields = t.cls.nt().nt_fields
        items = list(t.items)
        for k, v in kwargs:
            if k is None:
                # opaque overrides
                for s, ps in dict_pairs(it, v, st, it.cfg.loop_k):
                    its = list(items)
                    bad = False
                    for a, b in ps:
                        if isinstance(a, Const) and a.v in fields:
                            its[fields.index(a.v)] = b
                        elif isinstance(a, Const):
                            bad = True
                        else:
                            und("_replace with unknown fields")
                    if bad:
                        yield it.raise_new(s, "ValueError", (Const("Got unexpected field names"),))
                        continue
                    yield s, Tup(its, t.cls)
                return
            if k not in fields:
                yield it.raise_new(st, "ValueError", (Const("unexpected field " + str(k)),))
                return
            items[fields.index(k)] = v
        yield st, Tup(items, t.cls)
        return
    if name == "_asdict":
        s = st.fork()
        yield s, s.alloc(DictO([(Const(f), v) for f, v in zip(t.cls.nt().nt_fields, t.items)]))
        return
    if name == "index":
        for i, x in enumerate(t.items):
            if x == args[0]:
                yield st, Const(i)
                return
        yield it.raise_new(st, "ValueError", ())
        return
    if name == "count":
        yield st, Const(sum(1 for x in t.items if x == args[0]))
        return
    if name == "__new__" and t.cls is not None:
        yield from it.nt_new(t.cls, args[1:], kwargs, st)
        return
    if name == "__repr__":
        yield st, App("repr", (t,), "str")
        return
    yield it.raise_new(st, "AttributeError", (Const(name),))


def list_method(it, l, o, name, args, kwargs, st, ctx, node):
    RR = R()
    W = lambda s: it.write(s, l, name, args[0] if args else None, args[-1] if args else None, node, ctx)
    if name in ("append", "add"):
        s = st.fork()
        if name == "add" and not o.open:
            for s2, us in dedup_eq(it, list(o.items) + [args[0]], s):
                s2 = s2.fork()
                W(s2)
                s2.heap[l.oid] = o.repl(items=tuple(us))
                yield s2, NONE
            return
        W(s)
        s.heap[l.oid] = o.repl(items=o.items + (args[0],))
        if o.open:
            n = s.over.get((l, "appended", None), 0)
            s.over[(l, "appended", None)] = n + 1
        yield s, NONE
        return
    if name in ("update", "difference_update", "intersection_update") and o.tname == "set" and len(args) != 1 and not kwargs:
        if not args:
            yield st, NONE
            return
        for s, r in call_method(it, l, name, (args[0],), (), st, ctx, node):
            if isinstance(r, RR):
                yield s, r
            else:
                yield from call_method(it, l, name, tuple(args[1:]), (), s, ctx, node)
        return
    if name in ("extend", "update"):
        s = st.fork()
        if not args:
            yield s, NONE
            return
        src = args[0]
        for a in args[1:]:
            und("multi update")
        for s2, r in mk_list(it, src, s, ctx, node):
            if isinstance(r, RR):
                yield s2, r
                continue
            o2 = s2.heap[r.oid]
            if o.tname == "set" and not o2.open and not o.open:
                for s3, us in dedup_eq(it, list(o.items) + list(o2.items), s2):
                    s3 = s3.fork()
                    W(s3)
                    s3.heap[l.oid] = o.repl(items=tuple(us))
                    yield s3, NONE
                continue
            s2 = s2.fork()
            W(s2)
            items = o.items + o2.items
            if o.tname == "set":
                items = tuple(it.dedup(items))
            base = o.base if o.open else o2.base
            if o.open and o2.open:
                base = App("cat", (o.base if o.base is not None else l, o2.base if o2.base is not None else r))
            s2.heap[l.oid] = o.repl(items=items, open=o.open or o2.open, base=base)
            yield s2, NONE
        return
    if name == "insert":
        s = st.fork()
        W(s)
        i = cint(it, args[0], st)
        items = list(o.items)
        if i is None:
            und("insert")
        items.insert(i, args[1])
        s.heap[l.oid] = o.repl(items=tuple(items))
        yield s, NONE
        return
    if o.tname == "deque" and name in ("popleft", "appendleft", "extendleft", "rotate"):
        if o.open:
            und("deque." + name)
        s = st.fork()
        if name == "popleft":
            if not o.items:
                yield it.raise_new(s, "IndexError", (Const("pop from an empty deque"),))
                return
            W(s)
            s.heap[l.oid] = o.repl(items=o.items[1:])
            yield s, o.items[0]
        elif name == "appendleft":
            W(s)
            s.heap[l.oid] = o.repl(items=(args[0],) + o.items)
            yield s, NONE
        elif name == "extendleft":
            for s2, es in materialise(it, args[0], s, ctx, node, it.cfg.loop_k):
                if isinstance(es, RR):
                    yield s2, es
                    continue
                s2 = s2.fork()
                W(s2)
                s2.heap[l.oid] = o.repl(items=tuple(es[::-1]) + o.items)
                yield s2, NONE
        else:
            n = cint(it, args[0], st) if args else 1
            if n is None:
                und("rotate")
            k = -n % len(o.items) if o.items else 0
            W(s)
            s.heap[l.oid] = o.repl(items=o.items[k:] + o.items[:k])
            yield s, NONE
        return
    if name == "pop":
        s = st.fork()
        if o.open:
            und("pop from open list")
        i = cint(it, args[0], st) if args else -1
        if not o.items or i is None or not (-len(o.items) <= i < len(o.items)):
            yield it.raise_new(s, "IndexError", ())
            return
        W(s)
        items = list(o.items)
        x = items.pop(i)
        s.heap[l.oid] = o.repl(items=tuple(items))
        yield s, x
        return
    if name in ("remove", "discard"):
        def rec(i, s):
            if i == len(o.items):
                if name == "discard":
                    s = s.fork()
                    W(s)
                    yield s, NONE
                elif o.open:
                    s = s.fork()
                    W(s)
                    yield s, NONE
                else:
                    yield it.raise_new(s, "KeyError" if o.tname == "set" else "ValueError", (args[0],) if o.tname == "set" else ())
                return
            for s2, b in it.compare_eq(o.items[i], args[0], s):
                if b:
                    s2 = s2.fork()
                    W(s2)
                    s2.heap[l.oid] = o.repl(items=o.items[:i] + o.items[i + 1:])
                    yield s2, NONE
                else:
                    yield from rec(i + 1, s2)
        yield from rec(0, st)
        return
    if name == "clear":
        s = st.fork()
        W(s)
        s.heap[l.oid] = o.repl(items=(), open=False, base=None)
        yield s, NONE
        return
    if name in ("sort", "reverse"):
        if name == "reverse" and not o.open:
            s = st.fork()
            W(s)
            s.heap[l.oid] = o.repl(items=o.items[::-1])
            yield s, NONE
            return
        for s, r in b_sorted(it, (l,), kwargs, st, ctx, node):
            if isinstance(r, RR):
                yield s, r
                continue
            s = s.fork()
            W(s)
            s.heap[l.oid] = o.repl(items=s.heap[r.oid].items)
            s.over[(l, "sorted", None)] = s.over.get((r, "sorted", None), TRUE)
            yield s, NONE
        return
    if name == "copy":
        s = st.fork()
        yield s, s.alloc(o.repl(origin="fresh"))
        return
    if name in ("index", "count"):
        if not o.open:
            if name == "count":
                outs = [(st, 0)]
                for x in o.items:
                    outs = [(s2, c + (1 if b else 0)) for s1, c in outs for s2, b in it.compare_eq(x, args[0], s1)]
                for s, c in outs:
                    yield s, Const(c)
                return

            def rec(i, s):
                if i == len(o.items):
                    yield it.raise_new(s, "ValueError", ())
                    return
                for s2, b in it.compare_eq(o.items[i], args[0], s):
                    if b:
                        yield s2, Const(i)
                    else:
                        yield from rec(i + 1, s2)
            yield from rec(0, st)
            return
        yield st, App("m:" + name, (l,) + tuple(args), "int")
        return
    if name in ("union", "intersection", "difference") and o.tname == "set" and len(args) != 1 and not kwargs:
        if not args:
            yield it.mklist(st, list(o.items), "set") if not o.open else (st, App("m:copy", (l,)))
            return
        for s, r in call_method(it, l, name, (args[0],), (), st, ctx, node):
            if isinstance(r, RR):
                yield s, r
            else:
                yield from call_method(it, r, name, tuple(args[1:]), (), s, ctx, node)
        return
    if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint") and o.tname == "set":
        for s, r in mk_list(it, args[0] if args else Tup(()), st, ctx, node, "set"):
            if isinstance(r, RR):
                yield s, r
                continue
            o2 = s.heap[r.oid]
            if o.open or o2.open:
                yield s, App("m:" + name, (l, args[0]))
                continue
            a, b = list(o.items), list(o2.items)
            if name == "union":
                for s2, us in dedup_eq(it, a + b, s):
                    yield it.mklist(s2, us, "set")
                continue
            res = {"intersection": [x for x in a if x in b], "difference": [x for x in a if x not in b],
                   "symmetric_difference": [x for x in a if x not in b] + [x for x in b if x not in a]}.get(name)
            if res is not None:
                yield it.mklist(s, res, "set")
            else:
                yield s, boolv({"issubset": all(x in b for x in a), "issuperset": all(x in a for x in b), "isdisjoint": not any(x in b for x in a)}[name])
        return
    if name in ("difference_update", "intersection_update", "symmetric_difference_update") and o.tname == "set" and not o.open:
        for s, r in mk_list(it, args[0], st, ctx, node, "set"):
            if isinstance(r, RR):
                yield s, r
                continue
            b = s.heap[r.oid].items
            s = s.fork()
            W(s)
            s.heap[l.oid] = o.repl(items=tuple(x for x in o.items if (x in b) == (name[0] == "i")) + tuple(x for x in b if name[0] == "s" and x not in o.items))
            yield s, NONE
        return
    if name == "__contains__":
        yield from contains(it, args[0], l, st, ctx, node)
        return
    if name == "__len__":
        yield from b_len(it, (l,), (), st, ctx, node)
        return
    if not hasattr({"list": list, "set": set}.get(o.tname, list), name):
        yield it.raise_new(st, "AttributeError", (Const(name),))
        return
    und("list.%s" % name)


def dict_method(it, d, name, args, kwargs, st, ctx, node):
    RR = R()
    D = _core().DELETED
    o = st.heap[d.oid] if isinstance(d, Ref) else None
    if name in ("items", "keys", "values"):
        yield st, App("view", (d, name))
        return
    if name == "get":
        default = args[1] if len(args) > 1 else kwget(kwargs, "default", NONE)
        ty = it.types(d, st)
        if o is None and ty is None:
            # may be anything with a get()
            yield from may_raise(it, st, ctx, "call .get", (d,) + tuple(args), node, ["AttributeError"])
        elif o is None and ty is not None and not (ty & {"dict", "OrderedDict", "ChainMap", "object", "Series", "DataFrame", "defaultdict"}):
            yield it.raise_new(st, "AttributeError", (Const("get"),))
            return
        for s, v in lookup(it, d, args[0], st, ctx, node):
            yield s, (default if v is None else v)
        return
    if name == "pop":
        for s, v in lookup(it, d, args[0], st, ctx, node):
            if v is None:
                if len(args) > 1:
                    yield s, args[1]
                else:
                    yield it.raise_new(s, "KeyError", (args[0],))
                continue
            for s2, err in delitem(it, d, args[0], s, ctx, node):
                yield s2, (err if err is not None else v)
        return
    if name == "setdefault":
        for s, v in lookup(it, d, args[0], st, ctx, node):
            if v is not None:
                yield s, v
                continue
            x = args[1] if len(args) > 1 else NONE
            for s2, err in setitem(it, d, args[0], x, s, ctx, node):
                yield s2, (err if err is not None else x)
        return
    if name == "update":
        srcs = list(args)
        kw = [(Const(k), v) for k, v in kwargs if k is not None]

        def put(pairs, s):
            if not pairs:
                yield s, NONE
                return
            for s2, err in setitem(it, d, pairs[0][0], pairs[0][1], s, ctx, node):
                if err is not None:
                    yield s2, err
                else:
                    yield from put(pairs[1:], s2)

        if not srcs:
            if any(k is None for k, _ in kwargs):
                und("update(**opaque)")
            yield from put(kw, st)
            return
        v = srcs[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], DictO) and not st.heap[v.oid].open:
            pairs = live(st.heap[v.oid].items)
            if not pairs and not kw:
                s = st.fork()
                it.write(s, d, "update", v, None, node, ctx)
                yield s, NONE
                return
            yield from put(pairs + kw, st)
            return
        if isinstance(v, (Sym, App)) and not (isinstance(v, App) and v.op == "view") or isinstance(v, Ref) and isinstance(st.heap[v.oid], (DictO, CopyO)):
            s = st.fork()
            it.write(s, d, "update", v, None, node, ctx)
            if isinstance(o, DictO):
                its, op, base = it.dict_contents(v, s)
                items = o.items
                if not o.open:
                    # every old key may be overridden by the opaque update
                    items = tuple((k, App("upd", (base if base is not None else v, k, x))) for k, x in items) if False else items
                    ob = base
                else:
                    ob = App("updated", (o.base if o.base is not None else d, base if base is not None else v))
                for k, x in its:
                    items = it._put(items, k, x)
                s.heap[d.oid] = o.repl(items=items, open=True, base=ob)
            else:
                s.over[(d, "updated", None)] = v
            yield s, NONE
            return
        for s, es in materialise(it, v, st, ctx, node, it.cfg.loop_k):
            if isinstance(es, RR):
                yield s, es
                continue
            pairs = []
            for e in es:
                if isinstance(e, Tup) and len(e.items) == 2:
                    pairs.append(tuple(e.items))
                else:
                    pairs.append((it.item_const(e, 0, s), it.item_const(e, 1, s)))
            yield from put(pairs + kw, s)
        return
    if name == "copy":
        yield shallow_copy(it, d, st)
        return
    if name == "clear":
        s = st.fork()
        it.write(s, d, "clear", None, None, node, ctx)
        if isinstance(o, DictO):
            s.heap[d.oid] = o.repl(items=(), open=False, base=None)
        else:
            und("clear of opaque")
        yield s, NONE
        return
    if name == "popitem":
        if isinstance(o, DictO) and not o.open and o.items:
            s = st.fork()
            it.write(s, d, "popitem", None, None, node, ctx)
            its = live(o.items)
            if not its:
                yield it.raise_new(s, "KeyError", (Const("popitem(): dictionary is empty"),))
                return
            last = args[0] if args else kwget(kwargs, "last", TRUE)
            i = 0 if isinstance(last, Const) and not last.v else -1
            s.heap[d.oid] = o.repl(items=tuple(its[:-1] if i else its[1:]))
            yield s, Tup(its[i])
            return
        if isinstance(o, DictO) and not o.open:
            yield it.raise_new(st, "KeyError", (Const("popitem(): dictionary is empty"),))
            return
        und("popitem")
    if name == "__contains__":
        yield from contains(it, args[0], d, st, ctx, node)
        return
    if name == "__getitem__":
        yield from getitem(it, d, args[0], st, ctx, node)
        return
    if name == "__setitem__":
        for s, err in setitem(it, d, args[0], args[1], st, ctx, node):
            yield s, (err if err is not None else NONE)
        return
    if name == "fromkeys":
        yield from EXT["builtins.dict.fromkeys"](it, args, kwargs, st, ctx, node)
        return
    if name == "most_common" and o is not None and o.tname == "Counter" and all(isinstance(x, Const) for _, x in live(o.items)):
        n = cint(it, args[0], st) if args else None
        s = st.fork()
        yield s, s.alloc(ListO([Tup(p) for p in sorted(live(o.items), key=lambda p: -p[1].v)[:n]]))
        return
    if name == "move_to_end":
        s = st.fork()
        it.write(s, d, name, args[0], None, node, ctx)
        if isinstance(o, DictO):
            k = norm_key(it, args[0], s)
            hit = tuple(p for p in live(o.items) if p[0] == k)
            if not hit and not o.open:
                yield it.raise_new(s, "KeyError", (args[0],))
                return
            rest = tuple(p for p in o.items if p[0] != k)
            last = args[1] if len(args) > 1 else kwget(kwargs, "last", TRUE)
            s.heap[d.oid] = o.repl(items=hit + rest if isinstance(last, Const) and not last.v else rest + hit)
        yield s, NONE
        return
    if not hasattr(dict, name):
        yield it.raise_new(st, "AttributeError", (Const(name),))
        return
    und("dict.%s" % name)


def affix(name, hay, needle):
    """(True, words that must be equal) when a structured string may start/end with another; (False, [...impossible]) or (None, _) unknown."""
    def units(ps):
        out = []
        for p in ps:
            out += list(p) if isinstance(p, str) else [p]
        return out if name == "startswith" else out[::-1]
    h, n = units(hay), units(needle)
    need = []
    for i, x in enumerate(n):
        if i >= len(h):
            return (None, None) if any(not isinstance(u, str) for u in h) or not isinstance(x, str) else (True, [(TRUE, FALSE)])
        y = h[i]
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return True, [(TRUE, FALSE)]
        elif isinstance(x, str) or isinstance(y, str):
            c = x if isinstance(x, str) else y
            if c in SPECIAL:
                return True, [(TRUE, FALSE)]
            if isinstance(x, str):      # the needle's letters may end the word, but not its next delimiter
                d = next((u for u in n[i:] if isinstance(u, str) and u in SPECIAL), None)
                hd = next((u for u in h[i + 1:] if isinstance(u, str)), None)
                if d is not None and (hd is None or hd in SPECIAL and hd != d):
                    return True, [(TRUE, FALSE)]
            return None, None
        else:
            # a word against a word: decided when both are delimited at the far side (or the needle's is)
            nxt = n[i + 1] if i + 1 < len(n) else None
            hn = h[i + 1] if i + 1 < len(h) else None
            if isinstance(nxt, str) and nxt in SPECIAL and (hn is None or isinstance(hn, str) and hn in SPECIAL):
                if x != y:
                    need.append((x, y))
            elif x == y and i == len(n) - 1:
                pass
            else:
                return None, None
    return True, need


def _eqall(it, pairs, st):
    if not pairs:
        yield st, True
        return
    a, b = pairs[0]
    for s, eq in it.compare_eq(a, b, st):
        if eq:
            yield from _eqall(it, pairs[1:], s)
        else:
            yield s, False


def str_method(it, v, name, args, kwargs, st, ctx, node):
    v = it.strval(v, st)
    val = st.facts.get(("val", v))
    v = val if val is not None else v
    sargs = []
    for a in args:
        x = it.strval(a, st)
        xv = st.facts.get(("val", x))
        sargs.append(xv if xv is not None else x)
    if isinstance(v, Const) and name == "translate" and len(args) == 1:
        from .stdmodel import py, NotConst
        try:
            yield st, Const(v.v.translate(py(args[0], st)))
            return
        except (NotConst, TypeError):
            pass
    if isinstance(v, Const) and name == "format" and any(isinstance(a, Ref) for a in sargs):
        # texts of instances come from their own method
        def texts(xs, s):
            if not xs:
                yield s, []
                return
            x = xs[0]
            own = isinstance(x, Ref) and isinstance(s.heap[x.oid], InstO) and isinstance(s.heap[x.oid].cls, ClsV) and isinstance(s.heap[x.oid].cls.info.lookup("__str__"), FuncV) and "{}" in v.v
            for s2, t in (b_str(it, (x,), (), s, ctx, node) if own else [(s, x)]):
                if isinstance(t, R()):
                    yield s2, t
                else:
                    for s3, r in texts(xs[1:], s2):
                        yield s3, (r if isinstance(r, R()) else [t] + r)
        for s, r in texts(sargs, st):
            yield s, (r if isinstance(r, R()) else str_format(it, v.v, r, kwargs, s))
        return
    if isinstance(v, Const) and name == "format":
        yield st, str_format(it, v.v, sargs, kwargs, st)
        return
    if isinstance(v, Const) and name != "join" and all(isinstance(a, Const) or isinstance(a, Tup) and all(isinstance(x, Const) for x in a.items) for a in sargs) and not kwargs:
        try:
            pa = [a.v if isinstance(a, Const) else tuple(x.v for x in a.items) for a in sargs]
            r = getattr(v.v, name)(*pa)
        except Exception as ex:
            yield it.raise_new(st, type(ex).__name__, (Const(str(ex)),))
            return
        if isinstance(r, list):
            yield it.mklist(st, [Const(x) for x in r])
        elif isinstance(r, tuple):
            yield st, Tup([Const(x) for x in r])
        else:
            yield st, Const(r)
        return
    parts = strparts(it, v, st)
    p0 = sargs[0] if sargs else None
    c0 = p0.v if isinstance(p0, Const) and isinstance(p0.v, str) else None
    if name in ("removeprefix", "removesuffix") and c0 is not None and len(sargs) == 1:
        how = "startswith" if name == "removeprefix" else "endswith"
        for s, r in call_method(it, v, how, (p0,), (), st, ctx, node):
            for s2, b in it.truth(r, s):
                if not b or not c0:
                    yield s2, v
                else:
                    none = Const(None)
                    yield from getitem(it, v, SliceV(Const(len(c0)), none, none) if how == "startswith" else SliceV(none, Const(-len(c0)), none), s2, ctx, node)
        return
    if name in ("startswith", "endswith"):
        cands = [x.v for x in p0.items] if isinstance(p0, Tup) and all(isinstance(x, Const) for x in p0.items) else [c0] if c0 is not None else None
        ps = parts if parts is not None else v.parts if isinstance(v, Str) else None
        if cands is not None and ps:
            res = []
            for c in cands:
                e = ps[0] if name == "startswith" else ps[-1]
                r_, need_ = affix(name, parts, (c,)) if c and parts is not None else (None, None)
                if not c:
                    res.append(True)
                elif r_ and all(x == TRUE and y == FALSE for x, y in need_):
                    res.append(not need_)
                elif isinstance(e, str):
                    if len(e) >= len(c):
                        res.append(getattr(e, name)(c))
                    else:
                        sub = c[:len(e)] if name == "startswith" else c[-len(e):]
                        if sub != e:
                            res.append(False)
                        else:
                            nx = (c[len(e):][0]) if name == "startswith" else c[:-len(e)][-1]
                            nb = ps[1] if len(ps) > 1 and name == "startswith" else ps[-2] if len(ps) > 1 else None
                            res.append(False if nb is None or isword(nb) and nx in SPECIAL else None)
                elif isword(e):
                    ch = c[0] if name == "startswith" else c[-1]
                    res.append(False if ch in SPECIAL else None)
                else:
                    res.append(None)
            if True in res:
                yield st, TRUE
                return
            if None not in res:
                yield st, FALSE
                return
        np_ = strparts(it, p0, st) if c0 is None and p0 is not None and not isinstance(p0, Tup) else None
        if np_ is not None and parts is not None:
            r, need = affix(name, parts, np_)
            if r is not None:
                for s, b in _eqall(it, need, st):
                    yield s, boolv(b)
                return
        for s, b in it._fork_fact((name, v, p0), st):
            yield s, boolv(b)
        return
    if name == "translate" and parts is not None and isinstance(args[0], App) and args[0].op == "maketrans" and len(args[0].args) in (2, 3) and \
            all(isinstance(a, Const) and isinstance(a.v, str) for a in args[0].args):
        tb = [a.v for a in args[0].args]
        if len(parts) == sum(isinstance(p, str) for p in parts) or not any(ch.isascii() and ch.isalpha() for ch in tb[0] + (tb[2] if len(tb) > 2 else "")):
            yield st, mkstr([p.translate(str.maketrans(*tb)) if isinstance(p, str) else p for p in parts])
            return
    if name == "split" and parts is not None:
        sep = c0
        if sep and all(ch in SPECIAL for ch in sep) and len(sargs) == 1:
            out, cur = [], []
            for p in parts:
                if isinstance(p, str):
                    bits = p.split(sep)
                    cur.append(bits[0])
                    for b in bits[1:]:
                        out.append(mkstr(cur))
                        cur = [b]
                else:
                    cur.append(p)
            out.append(mkstr(cur))
            yield it.mklist(st, out)
            return
    if name in ("partition", "rpartition") and parts is not None and c0 and all(ch in SPECIAL for ch in c0):
        idx = [i for i, p in enumerate(parts) if isinstance(p, str) and c0 in p]
        if not idx:
            yield st, Tup((v, Const(""), Const(""))) if name == "partition" else Tup((Const(""), Const(""), v))
            return
        i = idx[0] if name == "partition" else idx[-1]
        a, _, b = getattr(parts[i], name)(c0)
        yield st, Tup((mkstr(list(parts[:i]) + [a]), Const(c0), mkstr([b] + list(parts[i + 1:]))))
        return
    if name == "replace" and parts is not None and c0 is not None and len(sargs) >= 2:
        # words are letters only: a pattern holding a non-letter next to a word's border cannot straddle
        if c0 and c0[0] in SPECIAL and c0[-1] in SPECIAL and (len(c0) == 1 or any(ch in SPECIAL for ch in c0)):
            out = []
            for p in parts:
                if isinstance(p, str):
                    bits = p.split(c0)
                    for j, b in enumerate(bits):
                        if j:
                            out.append(sargs[1])
                        out.append(b)
                else:
                    out.append(p)
            yield st, mkstr(out)
            return
    if name in ("strip", "lstrip", "rstrip") and parts is not None and (not sargs or c0 is not None and all(ch in SPECIAL for ch in c0)):
        ps = list(parts)
        cs = c0
        if name != "rstrip":
            while ps and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip(cs)
                if ps[0]:
                    break
                ps.pop(0)
        if name != "lstrip":
            while ps and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip(cs)
                if ps[-1]:
                    break
                ps.pop()
        yield st, mkstr(ps)
        return
    if name in ("find", "index", "count", "rfind") and parts is not None and c0 and all(ch in SPECIAL for ch in c0):
        n = sum(p.count(c0) for p in parts if isinstance(p, str))
        if name == "count":
            yield st, Const(n)
            return
        if not n:
            if name == "index":
                yield it.raise_new(st, "ValueError", ())
            else:
                yield st, Const(-1)
            return
        yield st, App("m:" + name, (v,) + tuple(sargs), "int")
        return
    if name == "join":
        for s, es in materialise(it, args[0], st, ctx, node, it.cfg.loop_k):
            if isinstance(es, R()):
                yield s, es
                continue
            out = []
            for i, e in enumerate(es):
                if i:
                    out.append(v)
                e = it.strval(e, s)
                if isinstance(e, Const) and not isinstance(e.v, str):
                    out = None
                    break
                out.append(e)
            if out is None:
                yield it.raise_new(s, "TypeError", (Const("join"),))
            else:
                yield s, mkstr(out) if out else Const("")
        return
    if name in ("upper", "lower", "casefold") and parts is not None and not sargs and not kwargs:
        up = "upper" if name == "upper" else "lower"
        yield st, mkstr([getattr(p, up)() if isinstance(p, str) else p if up in p.flags else
                         Sym("%s(%s)" % (up, p.name.split("(")[-1].rstrip(")")), "str", tuple(sorted(set(p.flags) - {"upper", "lower"} | {up}))) for p in parts])
        return
    if name == "upper" or name == "lower":
        yield st, App("m:" + name, (v,), "str")
        return
    if name in ("isdigit", "isnumeric", "isdecimal", "isspace") and parts is not None and any(isword(p) for p in parts):
        yield st, FALSE
        return
    if name in ("encode",):
        yield st, App("m:encode", (v,) + tuple(sargs) + tuple(kwargs), "bytes")
        return
    if name == "format":
        yield st, App("m:format", (v,) + tuple(sargs), "str")
        return
    if name in ("split", "rsplit", "splitlines"):
        yield st, App("m:" + name, (v,) + tuple(sargs), "list")
        return
    if name in ("isdigit", "isnumeric", "isdecimal", "isspace", "isalpha", "isidentifier", "isupper", "islower", "isalnum"):
        for s, b in it._fork_fact(("m:" + name, v), st):
            yield s, boolv(b)
        return
    if not hasattr(str, name):
        yield it.raise_new(st, "AttributeError", (Const(name),))
        return
    if name in ("index", "rindex"):
        yield st, App("m:" + name, (v,) + tuple(sargs), "int")
        yield from may_raise(it, st, ctx, "call ." + name, (v,) + tuple(sargs), node, ["ValueError"])
        return
    if name == "__len__":
        yield from b_len(it, (v,), (), st, ctx, node)
        return
    yield st, App("m:" + name, (v,) + tuple(sargs), {"find": "int", "rfind": "int", "count": "int", "partition": "tuple"}.get(name, "str"))


def str_format(it, fmt, args, kwargs, st):
    import string
    out, auto = [], 0
    kw = dict((k, v) for k, v in kwargs if k)
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            out.append(lit)
            if field is None:
                continue
            if field == "":
                x = args[auto]
                auto += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kw:
                x = kw[field]
            else:
                return App("format", (Const(fmt),) + tuple(args), "str")
            x = it.strval(x, st)
            if (conv or spec) and "{" not in (spec or "") and isinstance(x, Const):
                out.append(("{%s%s}" % ("!" + conv if conv else "", ":" + spec if spec else "")).format(x.v))
            elif conv or spec:
                out.append(App("fmt", (x, conv or "", spec or ""), "str"))
            else:
                out.append(it.tostr(x, st))
    except (IndexError, ValueError, TypeError):
        return App("format", (Const(fmt),) + tuple(args), "str")
    return mkstr(out)


from . import stdmodel  # noqa: E402,F401  registers its models
