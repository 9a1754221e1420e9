"""The filters of lassoing (X21-X25)."""
from ..harness import *
from .lassos import ENV, XL, exc_obj, fieldsof, filters_dict, logged, texts_and_cells
from .pandel import mentions

FACTORY = Sym("factory", "Factory_", "nonempty")


def coords(c, r, k):
    return Tup((r, k), c.fn(XL, "Coords").info)


def plain(v, st, depth=0):
    """Lists and dicts of a value as nested python tuples."""
    if isinstance(v, Ref) and v.oid in st.heap and depth < 9:
        o = st.heap[v.oid]
        if isinstance(o, ListO) and not o.open:
            return ("list",) + tuple(plain(x, st, depth + 1) for x in o.items)
        if isinstance(o, DictO) and not o.open:
            return ("dict",) + tuple((k, plain(x, st, depth + 1)) for k, x in o.items)
    return v


def build(st, x):
    if isinstance(x, list):
        return st.alloc(ListO([build(st, y) for y in x]))
    if isinstance(x, dict):
        return st.alloc(DictO([(Const(k), build(st, y)) for k, y in x.items()]))
    return x


def step_filters(c, st):
    return st.alloc(DictO([(Const(n), st.alloc(DictO(((Const("func"), c.fn(ENV, "step_" + n)),)))) for n in ("a", "b")]))


def step_stub(outs=("ok",), marks=()):
    def f(it, st, args, kwargs, ctx, node):
        for k in outs:
            s = st.fork()
            s.event("stage", "step", k, args, None)
            if k == "ok":
                l = fieldsof(args[1], s)
                if l is None:
                    raise Undecided("step given no lasso")
                yield s, Tup([App("step", (args[0], l["values"])) if n == "values" else App("at", (args[0], v)) if n in marks else v for n, v in l.items()], args[1].cls)
            elif k == "same":
                yield s, args[1]
            else:
                yield it.raise_new(s, k, (Const("boom"),))
    return f


@check("X25", "Order and provenance analysis of the pipe filter over pipes of up to three arbitrary filters, given as strings, lists or objects, each succeeding or failing, lax or not",
       "All sequences of two filters' names up to length 3 in the different forms of call-specifiers; longer pipes repeat the same loop.")
def x25(c):
    c.fn(ENV, "pipe")
    forms = {"str": lambda st, n: Const(n),
             "list": lambda st, n: build(st, [Const(n), [Sym("a_" + n, "int")], {"k": Sym("k_" + n, "int")}]),
             "object": lambda st, n: build(st, {"func": Const(n), "args": [Sym("a_" + n, "int")], "kwds": {"k": Sym("k_" + n, "int")}}),
             "lax": lambda st, n: build(st, [Const(n), {"lax": TRUE}])}
    import itertools
    seqs = [()] + [s for n in (1, 2, 3) for s in itertools.product("ab", repeat=n)]
    for seq in seqs:
        for fm in (("str", "list", "object"), ("lax", "lax", "lax"), ("object", "str", "lax"), ("list", "object", "str")):
            st = c.state()
            specs = st.alloc(ListO([forms[f](st, n) for f, n in zip(fm, seq)]))
            freeze(specs, st, "pipe")
            for o in c.run(c.fn(ENV, "pipe"), (FACTORY, step_filters(c, st), NONE, specs), st=st, label="pipe", stubs={"oracle.step": step_stub(("ok", "KeyError"), ("st", "nd"))}, raises="none"):
                sub = "pipe of %s given as %s" % ("".join(seq) or "nothing", ",".join(fm[:len(seq)]))
                steps = [e for e in o.events if e[:2] == ("stage", "step")]
                vals, stop, at = Ext("oracle.values"), False, NONE
                n = 0
                for i, e in enumerate(steps):
                    if stop or i >= len(seq):
                        c.bad("each filter runs once, in order", sub, "filter %s ran after the pipe should have ended" % show(e[3][0]), path=path_of(o))
                        break
                    n += 1
                    c.oblige(e[3][0] == Const(seq[i]), "each filter runs once, in order", sub, "filter no %d was %s" % (i, show(e[3][0])), path=path_of(o))
                    l = fieldsof(e[3][1], o.st)
                    c.oblige(l is not None and l["values"] == vals and l["xl_ref"] == Ext("oracle.xlref"), "each filter receives the lasso of the previous one", sub,
                             "filter no %d received %s, expected values %s" % (i, show(e[3][1], o.st), show(vals)), path=path_of(o))
                    c.oblige(l is not None and l["st"] == at and l["nd"] == at, "each filter receives the lasso of the previous one", sub, "filter no %d received %s, expected at %s" % (i, show(e[3][1], o.st), show(at)), path=path_of(o))
                    a, k = e[3][2], plain(e[3][3], o.st)
                    wa = Tup((Sym("a_" + seq[i]),)) if fm[i] in ("list", "object") else Tup(())
                    wk = ("dict", (Const("k"), Sym("k_" + seq[i]))) if fm[i] in ("list", "object") else ("dict",)
                    c.oblige(a == wa and k == wk, "each filter receives its own arguments", sub, "filter no %d received %s %s" % (i, show(a), k), path=path_of(o))
                    if e[2] == "ok":
                        vals, at = App("step", (Const(seq[i]), vals)), App("at", (Const(seq[i]), at))
                    elif fm[i] != "lax":
                        stop = True
                if stop:
                    c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "a failing filter stops the pipe", sub, "ended with %r" % o, path=path_of(o))
                else:
                    c.oblige(n == len(seq), "each filter runs once, in order", sub, "%d filters ran" % n, path=path_of(o))
                    l = fieldsof(o.val, o.st) if not o.raised else None
                    c.oblige(l is not None and l["values"] == vals and l["st"] == at and l["nd"] == at, "the pipe returns the last lasso", sub, "ended with %r" % o, path=path_of(o))


def is_included(include, exclude, k):
    return (not include or k in include) and (not exclude or k not in exclude)


def walk(x, depth, include, exclude, decide, subs, cdepth=0, bc=(0, 0), where=()):
    """What the element-wise filters are documented to do: (result as plain, elements visited with their base-cell offsets)."""
    if cdepth == depth:
        return pl(x), []
    if isinstance(x, dict):
        out, vis = [], []
        for k, v in x.items():
            if is_included(include, exclude, k):
                r, vv = walk(v, depth, include, exclude, decide, subs, cdepth + 1, None, where + (k,))
                vis += vv
            else:
                r = pl(v)
            out.append((Const(k), r))
        return ("dict",) + tuple(out), vis
    vis = [(pl(x), bc)]
    if decide(x):
        v = App("elem_new", (x if isinstance(x, Val) else Const("container"),))
        for s in subs:
            v = App("step", (Const(s), v))
        return v, vis
    if isinstance(x, list):
        out = []
        for i, v in enumerate(x):
            nbc = bc and ((bc[0] + i, bc[1]) if cdepth == 0 else (bc[0], bc[1] + i) if cdepth == 1 else bc)
            r, vv = walk(v, depth, include, exclude, decide, subs, cdepth + 1, nbc, where + (i,))
            out.append(r)
            vis += vv
        return ("list",) + tuple(out), vis
    return pl(x), vis


def pl(x):
    if isinstance(x, list):
        return ("list",) + tuple(pl(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((Const(k), pl(y)) for k, y in x.items())
    return x


def structures():
    W = lambda n: Sym(n, "str", ("word", "nonempty"))
    p, q, u, v = W("proc1"), W("proc2"), W("un1"), W("un2")
    return [p, u, [p, u], [[p, u], [v, q]], {"x": p, "y": u}, {"x": [p, u], "y": {"x": q, "z": v}, "z": p}, [[p, [q, u]], {"x": v, "y": q}], [{"x": p}, {"y": p}], [], {}, [[], [p]], {"y": [[p, q]], "x": u},
            [[p], [q], [u]], {"x": {"x": {"x": p, "y": q}}}, {"x": p, "xy": q, "y": [q, u]}]


def offset(v, base, name):
    """n when v == Sym(name) + n, else None."""
    if v == Sym(name):
        return 0
    if isinstance(v, Lin) and v.terms == ((Sym(name), 1),):
        return v.c
    return None


@check("X21", "Enumerative dataflow: element-wise filters on nested lists and mappings with opaque elements, an element function deciding by element, and every include, exclude and depth; results and visits compared with the documented walk",
       "Fourteen nestings up to three levels, include/exclude given as lists, texts or absent, depths -1 to 3, up to two sub-filters; containers themselves processed or not.")
def x21(c):
    c.fn(ENV, "elementwise")
    incs = [None, ["x"], "x", ["x", "y"], [], ["nokey"], "xy"]
    excs = [None, "y", ["x"], ["y", "z"], "xy"]
    n = 0
    for si, x in enumerate(structures()):
        hasd = "dict" in repr(pl(x))
        for depth in (-1, 0, 1, 2) + ((3,) if c.thorough else ()):
            for inc in incs if hasd else incs[:2]:
                for exc in excs if hasd else excs[:2]:
                    for conts in ((), (0,), (1,)) if isinstance(x, list) else ((),):
                        for subs in ((), ("a",), ("a", "b")) if (inc is None and exc is None) else (("b",),):
                            n += 1
                            st = c.state()
                            val = build(st, x)
                            # which container is processed as a whole: the outermost or those right inside
                            def decide(y, x=x, conts=conts):
                                if isinstance(y, Sym):
                                    return y.name.startswith("proc")
                                return isinstance(y, list) and (0 in conts and y is x or 1 in conts and any(y is z for z in x))
                            chosen = {}
                            mark(st, val, x, decide, chosen)

                            def element(it, st, args, kwargs, ctx, node, chosen=chosen):
                                s = st.fork()
                                e = args[0]
                                yes = isinstance(e, Sym) and e.name.startswith("proc") or isinstance(e, Ref) and chosen.get(e.oid, False)
                                s.event("stage", "visit", "ok", (e, plain(e, s)) + tuple(args[1:]), None)
                                new = App("elem_new", (e if isinstance(e, Sym) else Const("container"),), "int")
                                yield s, Tup((boolv(yes), new if yes else Sym("ignored")))
                            wi = [inc] if isinstance(inc, str) else inc
                            we = [exc] if isinstance(exc, str) else exc
                            kw = [(Const("depth"), Const(depth))]
                            if inc is not None:
                                kw.append((Const("include"), build(st, [Const(i) for i in inc]) if isinstance(inc, list) else Const(inc)))
                            if exc is not None:
                                kw.append((Const("exclude"), build(st, [Const(i) for i in exc]) if isinstance(exc, list) else Const(exc)))
                            kwd = st.alloc(DictO(kw))
                            lk = st.alloc(DictO([(Const("values"), val), (Const("opts"), st.alloc(DictO())), (Const("st"), coords(c, Sym("r0", "int"), Sym("c0", "int"))), (Const("sheet"), Sym("sheet", "Sheet_", "nonempty"))]))
                            want, visits = walk(x, depth, wi, we, decide, subs)
                            sub = "values %s, depth %d, include %s, exclude %s, sub-filters %s%s" % (shp(pl(x)), depth, inc, exc, subs, ", %s containers processed" % ("outer" if 0 in conts else "inner") if conts else "")
                            outs = c.run(c.fn(ENV, "elementwise"), (FACTORY, step_filters(c, st), lk, build(st, [Const(s) for s in subs]), kwd), st=st, label="elementwise",
                                         stubs={"oracle.step": step_stub(), "oracle.element": element}, raises="none", loop_k=4, comp_k=4)
                            for o in outs:
                                if o.raised:
                                    c.bad("element-wise filters fail only when an element does", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                                    continue
                                l = fieldsof(o.val, o.st)
                                got = plain(l["values"], o.st) if l else None
                                c.oblige(got == want, "exactly the elements processed are replaced, by the results of their sub-filters", sub, "gave %s, expected %s" % (shp(got), shp(want)), path=path_of(o))
                                seen = [e[3] for e in o.events if e[:2] == ("stage", "visit")]
                                c.oblige([e[1] for e in seen] == [v for v, _ in visits], "every selected element is visited, and no other", sub,
                                         "visited %s, expected %s" % ([shp(e[1]) for e in seen], [shp(v) for v, _ in visits]), path=path_of(o))
                                c.oblige(l is not None and l["sheet"] == Sym("sheet") and isinstance(l["opts"], Ref), "the rest of the lasso is kept", sub, "gave %s" % show(o.val, o.st), path=path_of(o))
    framed(c)
    # failing elements
    for ex in ("ValueError", "KeyError", "SyntaxError"):
        st = c.state()
        val = build(st, [[Sym("proc1", "str", ("word",)), Sym("un1", "str", ("word",))]])

        def bad(it, st, args, kwargs, ctx, node):
            s = st.fork()
            if args[0] == Sym("un1"):
                yield it.raise_new(s, ex, (Const("boom"),))
            else:
                yield s, Tup((FALSE, args[0]))
        lk = st.alloc(DictO([(Const("values"), val), (Const("opts"), st.alloc(DictO()))]))
        for o in c.run(c.fn(ENV, "elementwise"), (FACTORY, step_filters(c, st), lk, build(st, []), st.alloc(DictO())), st=st, label="elementwise", stubs={"oracle.element": bad}, raises="none"):
            c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "a failing element is a value error", "element raising " + ex, "ended with %r" % o, path=path_of(o))


def framed(c):
    """Tables and series of pandas, alone and within mappings and lists."""
    W = lambda n: Sym(n, "str", ("word", "nonempty"))
    p, q, u, v = W("proc1"), W("proc2"), W("un1"), W("un2")
    tables = {"df": ("DataFrame", {"x": "s1", "y": "s2"}), "se": ("Series", {"x": p, "xy": u, "y": q}), "s1": ("Series", {"a": p, "b": u, "c": q}), "s2": ("Series", {"a": q, "b": v, "c": u})}
    syms = {n: Sym(n, ty) for n, (ty, _) in tables.items()}

    def expect(x, depth, inc, exc, cdepth, bc):
        """(elements with their base-cells, items set) as documented."""
        if cdepth == depth:
            return [], []
        ns = [n for n in syms if syms[n] == x]
        vis, sets = [], []
        if ns:
            ty, items = tables[ns[0]]
            for i, (k, y) in enumerate(items.items()):
                y = syms.get(y, y)
                if cdepth or is_included(inc, exc, k):
                    nbc = bc and ((bc[0] + i, bc[1]) if ty == "Series" else (bc[0], bc[1] + i))
                    a, b = expect(y, depth, inc, exc, cdepth + 1, nbc)
                    vis += a
                    sets += b + ([(x, Const(k), App("elem_new", (y,)))] if isinstance(y, Sym) and y.name.startswith("proc") and cdepth + 1 != depth else [])
            return vis, sets
        if isinstance(x, (dict, list)):
            for i, (k, y) in enumerate(x.items() if isinstance(x, dict) else enumerate(x)):
                if isinstance(x, list) or is_included(inc, exc, k):
                    nbc = None if isinstance(x, dict) else bc and ((bc[0] + i, bc[1]) if cdepth == 0 else (bc[0], bc[1] + i) if cdepth == 1 else bc)
                    a, b = expect(y, depth, inc, exc, cdepth + 1, nbc)
                    vis += a
                    sets += b
            return vis, sets
        return [(x, bc)], []

    def element(it, st, args, kwargs, ctx, node):
        s = st.fork()
        e = args[0]
        yes = isinstance(e, Sym) and e.name.startswith("proc")
        if not (isinstance(e, Ref) or e in syms.values()):
            s.event("stage", "visit", "ok", (e, Tup(args[1:])), None)
        yield s, Tup((boolv(yes), App("elem_new", (e,), "int") if yes else Sym("ignored")))

    def items(it, obj, st, args, kwargs, ctx, node):
        ns = [n for n in syms if syms[n] == obj]
        if not ns:
            return None
        s = st.fork()
        return iter([(s, s.alloc(ListO([Tup((Const(k), syms.get(y, y))) for k, y in tables[ns[0]][1].items()])))])

    for x in (syms["df"], syms["se"], {"x": syms["df"], "y": syms["se"]}, [syms["se"], p], [[u, syms["df"]]]):
        for depth in (-1, 0, 1, 2, 3):
            for inc, exc in ((None, None), (["x"], None), ("x", None), (None, "x"), (["x", "y"], ["y"]), (["no"], None)) if not isinstance(x, list) else ((None, None),):
                st = c.state()
                val = build(st, x)
                kw = [(Const("depth"), Const(depth))] + [(Const(n), build(st, [Const(i) for i in y]) if isinstance(y, list) else Const(y)) for n, y in (("include", inc), ("exclude", exc)) if y]
                kwd = st.alloc(DictO(kw))
                lk = st.alloc(DictO([(Const("values"), val), (Const("opts"), st.alloc(DictO())), (Const("st"), coords(c, Sym("r0", "int"), Sym("c0", "int")))]))
                wi, we = ([y] if isinstance(y, str) else y for y in (inc, exc))
                visits, sets = expect(x, depth, wi, we, 0, (0, 0))
                sub = "values with pandas' tables %s, depth %d, include %s, exclude %s" % (shp(pl(x)), depth, inc, exc)
                for o in c.run(c.fn(ENV, "elementwise"), (FACTORY, step_filters(c, st), lk, build(st, []), kwd), st=st, label="elementwise",
                               stubs={"oracle.step": step_stub(), "oracle.element": element}, mstubs={"items": items}, raises="none", loop_k=4, comp_k=4, rec_k=8):
                    if o.raised:
                        c.bad("element-wise filters fail only when an element does", sub, "raised %s" % show(o.val, o.st, 8), path=path_of(o))
                        continue
                    seen = [e[3] for e in o.events if e[:2] == ("stage", "visit")]
                    c.oblige([e[0] for e in seen] == [y for y, _ in visits], "every selected element is visited, and no other", sub, "visited %s, expected %s" % ([show(e[0]) for e in seen], [show(y) for y, _ in visits]), path=path_of(o))
                    got = [(e[1], e[3], e[4]) for e in o.writes() if e[2] == "setitem" and e[1] in syms.values() and isinstance(e[4], App) and e[4].op == "elem_new"]
                    c.oblige(got == sets, "exactly the elements processed are replaced, by the results of their sub-filters", sub, "set %s, expected %s" % ([tuple(map(show, g)) for g in got], [tuple(map(show, g)) for g in sets]), path=path_of(o))
                    for e, (y, bc) in zip(seen, visits):
                        cell = base_of(e[1], o.st)
                        if cell is None:
                            c.undecided(sub, "context given as %s" % show(e[1], o.st))
                            continue
                        ok = cell == NONE if bc is None else isinstance(cell, Tup) and (offset(cell.items[0], None, "r0"), offset(cell.items[1], None, "c0")) == bc
                        c.oblige(ok, "relative coordinates are resolved against the cell of the element", sub, "base cell of %s is %s, expected %s" % (show(y), show(cell, o.st), bc), path=path_of(o))


def base_of(args, st):
    for a in args.items:
        if isinstance(a, Tup) and a.cls is not None and "base_coords" in a.cls.nt_fields:
            return a.items[list(a.cls.nt_fields).index("base_coords")]
    return None


def mark(st, v, x, decide, chosen):
    if isinstance(x, list):
        chosen[v.oid] = decide(x)
        for a, b in zip(st.heap[v.oid].items, x):
            mark(st, a, b, decide, chosen)
    elif isinstance(x, dict):
        for (k, a), b in zip(st.heap[v.oid].items, x.values()):
            mark(st, a, b, decide, chosen)


def shp(p):
    if isinstance(p, tuple) and p and p[0] == "list":
        return "[%s]" % ", ".join(map(shp, p[1:]))
    if isinstance(p, tuple) and p and p[0] == "dict":
        return "{%s}" % ", ".join("%s: %s" % (shp(a), shp(b)) for a, b in p[1:])
    return show(p) if isinstance(p, Val) else str(p)


class Refs(object):
    """A world where each text is a reference, a mere text, or a failing reference, by its name."""

    def __init__(self, c):
        self.c = c

    def parse(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        x = args[0]
        s.event("stage", "parse", "ok", (x,), None)
        if not isinstance(x, Sym):
            raise Undecided("parsing %s" % show(x))
        if x.name.startswith("txt"):
            yield it.raise_new(s, "SyntaxError", (Const("no ref"),))
        elif x.name.startswith("bad"):
            yield it.raise_new(s, x.name.split("_")[1], (Const("boom"),))
        else:
            d = dict((k, NONE) for k in ("url_file", "sh_name", "nd_edge", "exp_moves", "opts", "call_spec"))
            d.update(st_edge=App("edge", (x,), "Edge"), xl_ref=x)
            if x.name.startswith("fetch"):
                d["url_file"] = Const(x.name)
            yield s, s.alloc(DictO([(Const(k), v) for k, v in d.items()]))

    def fetch(self, it, obj, st, args, kwargs, ctx, node):
        def gen():
            s = st.fork()
            a = tuple(args) + tuple(v for _, v in kwargs)
            s.event("stage", "fetch", "ok", a, None)
            if isinstance(a[0], Const) and isinstance(a[0].v, str):
                yield exc_obj(self.c, it, s, a[0].v.split("_")[1])
            else:
                yield s, Sym("fetched", "Sheet_", "nonempty")
        return gen()

    def capture(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        names = ["states_matrix", "up_dn_margins", "st_edge", "nd_edge", "exp_moves", "base_coords"]
        d = dict(zip(names, args))
        d.update(kwargs)
        ref = d["st_edge"].args[0]
        s.event("stage", "capture", "ok", (ref, d.get("base_coords", NONE)), None)
        if ref.name.startswith("capt"):
            yield exc_obj(self.c, it, s, ref.name.split("_")[1])
        else:
            co = self.c.prog.func(XL, "Coords").info
            yield s, Tup((Tup((App("row", (ref,), "int"), App("col", (ref,), "int")), co), NONE))

    def read(self, it, obj, st, args, kwargs, ctx, node):
        def gen():
            s = st.fork()
            a = list(args) + [v for _, v in kwargs]
            ref = a[0].items[0].args[0]
            if ref.name.startswith("read"):
                yield exc_obj(self.c, it, s, ref.name.split("_")[1])
            else:
                yield s, App("value_of", (ref,), "float")
        return gen()

    def config(self):
        some = lambda n: (lambda it, obj, st, args, kwargs, ctx, node: iter([(st, App(n, (obj,)))]))
        return dict(stubs={"parse_xlref": self.parse, "resolve_capture_rect": self.capture, "oracle.step": step_stub()},
                    mstubs={"fetch_sheet": self.fetch, "get_states_matrix": some("states"), "get_margin_coords": some("margins"), "read_rect": self.read}, raises="none", rec_k=8, loop_k=4, comp_k=4)


def spec_recurse(x, cdepth, bc, depth=-1, strict=False):
    """(result, [(ref, base-cell offsets)], fails) of recursive lassoing, as documented."""
    if cdepth == depth:
        return pl(x), [], False
    if isinstance(x, dict):
        out, refs = [], []
        for k, v in x.items():
            r, rr, f = spec_recurse(v, cdepth + 1, None, depth, strict)
            refs += rr
            if f:
                return None, refs, True
            out.append((Const(k), r))
        return ("dict",) + tuple(out), refs, False
    if isinstance(x, list):
        out, refs = [], []
        for i, v in enumerate(x):
            nbc = bc and ((bc[0] + i, bc[1]) if cdepth == 0 else (bc[0], bc[1] + i) if cdepth == 1 else bc)
            r, rr, f = spec_recurse(v, cdepth + 1, nbc, depth, strict)
            refs += rr
            if f:
                return None, refs, True
            out.append(r)
        return ("list",) + tuple(out), refs, False
    if isinstance(x, Sym) and x.ty == frozenset(["str"]):
        if x.name.startswith("txt"):
            return x, [(x, bc)], False
        if x.name.startswith("ref"):
            return App("value_of", (x,)), [(x, bc)], False
        if x.name.startswith("capt_Empty") and not strict:
            return ("list",), [(x, bc)], False
        return None, [(x, bc)], True
    return x, [], False


@check("X22", "Exception-flow and provenance analysis of the recurse filter, through the real Ranger, on nestings of references, mere texts, references failing at each stage with each exception, and values of every other type",
       "Nestings up to three levels; failures while parsing, fetching the sheet, capturing and reading, with five exceptions, empty captures being allowed or forbidden; base cells symbolic.")
def x22(c):
    c.fn(ENV, "filt")
    T = lambda n: Sym(n, "str", ("nonempty",))
    ref1, ref2, ref3, txt1, txt2 = T("ref1"), T("ref2"), T("ref3"), T("txt1"), T("txt2")
    num, flt, boo = Sym("num", "int"), Sym("flt", "float"), Sym("boo", "bool")
    by = Sym("byt", "bytes")
    xs = [ref1, txt1, num, NONE, [ref1, txt1, ref2], [[ref1, num, ref2], [txt1, ref3, NONE]], {"x": ref1, "y": txt1, "z": [ref2, flt]}, [{"x": ref1}, by, ref2],
          [[boo, flt, by], [NONE, num]], [[[ref1], [txt1]], [ref2, [txt2, ref3]]], [], [[]], {}]
    for ex in ("ValueError", "KeyError", "TypeError", "EmptyCaptureException", "AssertionError"):
        for stage in ("bad", "fetch", "capt", "read"):
            b = T("%s_%s" % (stage, ex))
            xs += [b, [ref1, b, ref2], [[txt1, b]], {"x": b, "y": ref1}]
    for s in ("fetch", "capt"):
        xs += [[T(s + "_SyntaxError")]]
    for x, strict in [(x, False) for x in xs] + [(x, True) for x in xs if "capt_Empty" in repr(x) or x in ([ref1, txt1, ref2], ref1, [[NONE]])]:
        for depth in (-1, 1, 2) if isinstance(x, (list, dict)) else (-1,):
            for subs in ((), ("a",)):
                if subs and "capt_Empty" in repr(x):
                    continue
                st = c.state()
                val = build(st, x)
                w = Refs(c)
                lk = st.alloc(DictO([(Const("values"), val), (Const("opts"), st.alloc(DictO())), (Const("st"), coords(c, Sym("r0", "int"), Sym("c0", "int"))),
                                     (Const("sheet"), Sym("sheet", "Sheet_", "nonempty")), (Const("xl_ref"), T("outer"))]))
                kw = st.alloc(DictO([(Const("depth"), Const(depth))]))
                want, refs, fails = spec_recurse(x, 0, (0, 0), depth, strict)
                sub = "recurse on %s%s%s" % (shp(pl(x)), " to depth %d" % depth if depth >= 0 else "", ", empty captures being forbidden" if strict else "")
                opts = st.alloc(DictO([(Const("no_empty"), Const(True))] if strict else []))
                args = st.alloc(ListO([build(st, [Const(s) for s in subs])])) if subs else st.alloc(ListO())
                for o in c.run(c.fn(ENV, "filt"), (FACTORY, step_filters(c, st), lk, Const("recurse"), args, kw, opts), st=st, label="recurse", **w.config()):
                    parsed = [e[3][0] for e in o.events if e[:2] == ("stage", "parse")]
                    c.oblige(parsed == [r for r, _ in refs], "texts are lassoed, and nothing but texts", sub, "lassoed %s, expected %s" % (list(map(shp, parsed)), [shp(r) for r, _ in refs]), path=path_of(o))
                    caps = {e[3][0].name: e[3][1] for e in o.events if e[:2] == ("stage", "capture")}
                    for r, bc in refs:
                        if r.name in caps:
                            b = caps[r.name]
                            if bc is None:
                                ok = b == NONE
                            else:
                                ok = isinstance(b, Tup) and (offset(b.items[0], None, "r0"), offset(b.items[1], None, "c0")) == bc
                            c.oblige(ok, "relative coordinates are resolved against the cell of the reference", sub, "base cell of %s is %s, expected %s" % (r.name, show(b), bc), path=path_of(o))
                    for e in o.events:
                        if e[:2] == ("stage", "fetch"):
                            c.oblige(Sym("sheet") in e[3], "nested references start from the sheet holding them", sub, "sheet fetched with %s" % show(Tup(e[3])), path=path_of(o))
                    if fails:
                        c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "broken references raise a value error", sub, "ended with %r" % o, path=path_of(o))
                    elif o.raised:
                        c.bad("only broken references fail", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                    else:
                        l = fieldsof(o.val, o.st)
                        got = plain(l["values"], o.st) if l else None
                        c.oblige(got == stepped(want, subs), "references are replaced by their values, and the rest is left as it was", sub, "gave %s, expected %s" % (shp(got), shp(stepped(want, subs))), path=path_of(o))


def stepped(p, subs):
    if isinstance(p, tuple) and p and p[0] in ("list", "dict"):
        return p[:1] + tuple((x[0], stepped(x[1], subs)) if p[0] == "dict" else stepped(x, subs) for x in p[1:])
    if isinstance(p, App) and p.op == "value_of":
        for s in subs:
            p = App("step", (Const(s), p))
    return p


def _plus(t, x):
    return Lin(((t, 1),), x.v) if isinstance(x, Const) else Lin(((t, 1), (x, 1)), 0)


def dims_of(x):
    if not isinstance(x, list):
        return ()
    if not x:
        return (0,)
    subs = {dims_of(y) for y in x}
    return (len(x),) + (subs.pop() if len(subs) == 1 else ())


def leaves(x):
    return [z for y in x for z in leaves(y)] if isinstance(x, list) else [x]


def shaped(items, sh):
    if not sh:
        return items[0]
    if len(sh) == 1:
        return list(items)
    n = 1
    for d in sh[1:]:
        n *= d
    return [shaped(items[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]


def redimmed(x, dim):
    """The documented reshaping of nested lists."""
    if dim is None:
        return x
    n, t = dim if isinstance(dim, (list, tuple)) else (dim, False)
    sh, items = dims_of(x), leaves(x)
    if t and len(sh) > 1:
        import itertools
        strides, k = [], 1
        for d in reversed(sh):
            strides.insert(0, k)
            k *= d
        rs = tuple(reversed(sh))
        items = [items[sum(a * b for a, b in zip(idx, reversed(strides)))] for idx in itertools.product(*map(range, rs))]
        sh = rs
    if n is not None:
        if len(sh) < n:
            sh = (1,) * (n - len(sh)) + sh
        elif len(sh) > n:
            off, ones = len(sh) - n, [i for i, d in enumerate(sh) if d == 1]
            if off > len(ones):
                sh = tuple(d for d in sh if d != 1) if off == len(ones) else (len(items),)
            else:
                sh = tuple(d for i, d in enumerate(sh) if i not in ones[:off])
    return shaped(items, sh)


@check("X23", "Enumerative dataflow of the redim filter with symbolic rectangle corners: which of the five dimensions is applied, and the reshaped values compared cell by cell with the documented reshaping",
       "Scalars, cells, rows, columns and tables of any size and position; nested lists of opaque cells up to three dimensions and six cells, numbers and texts mixed; dimensions 0 to 3, transposed or not, or none.")
def x23(c):
    c.fn(ENV, "filt")
    N = lambda n: Sym(n, "int", "unique")
    W = lambda n: Sym(n, "str", ("unique", "word"))
    a, b, d, e, f, g, s, u = N("a"), N("b"), N("d"), N("e"), N("f"), N("g"), W("s"), W("u")
    F = Sym("h", "float")
    values = [a, s, NONE, [], [a], [a, b], [a, s], [s, u], [[a]], [[a, b]], [[a], [b]], [[a, s], [u, b]], [[a, b, d], [e, f, g]], [[a, NONE], [NONE, b]], [[[a]]], [[[a, b]]], [[[a], [b]]], [[], []], [[]],
              [[[a, b], [d, e]]], [[F, s, NONE]], [[[[a]], [[b]]]]]
    r, k0 = Sym("r", "int"), Sym("c", "int")
    kinds = ["scalar", "cell", "row", "col", "table"]
    dims = [None, 0, 1, 2, 3, [2, True], [1, True], [None, True], [2, False]]
    others = [None, 2] if not c.thorough else [None, 0, 2, [3, True]]
    for ki, kind in enumerate(kinds):
        for v in values:
            for dim in dims if kind in ("row", "table") or c.thorough else dims[:1] + dims[2:7:2]:
                for other in others:
                    if other is not None and v is not values[11] and v is not values[5]:
                        continue
                    for how in ("names", "args"):
                        if how == "args" and v is not values[11]:
                            continue
                        for far in (("n",) if v is not values[9] else ("n", 1, 2)) if ki > 1 else ("n",):
                            st = c.state()
                            val = build(st, v)
                            cr, cc = (Sym("h1", "int", "nonempty"), Sym("w1", "int", "nonempty")) if far == "n" else (Const(far), Const(far))
                            rr, cl = _plus(r, cr), _plus(k0, cc)
                            nd = {"scalar": NONE, "cell": coords(c, r, k0), "row": coords(c, r, cl), "col": coords(c, rr, k0), "table": coords(c, rr, cl)}[kind]
                            lk = st.alloc(DictO([(Const("values"), val), (Const("opts"), st.alloc(DictO())), (Const("st"), coords(c, r, k0)), (Const("nd"), nd)]))
                            ds = [dim if j == ki else other for j in range(5)]
                            cd = [build(st, [Const(y) for y in x] if isinstance(x, list) else Const(x)) for x in ds]
                            if how == "names":
                                args, kw = [], [(Const(n), y) for n, y, x in zip(kinds, cd, ds) if x is not None]
                            else:
                                args, kw = cd, []
                            sub = "redim of %s %s with %s" % (kind, shp(pl(v)), {n: x for n, x in zip(kinds, ds) if x is not None})
                            want = pl(redimmed(v, dim))
                            for o in c.run(c.fn(ENV, "filt"), (FACTORY, st.alloc(DictO()), lk, Const("redim"), st.alloc(ListO(args)), st.alloc(DictO(kw))), st=st, label="redim", raises="none", loop_k=6, comp_k=6):
                                if o.raised:
                                    c.bad("values are re-dimensioned by the shape of their rectangle", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                                    continue
                                l = fieldsof(o.val, o.st)
                                got = plain(l["values"], o.st) if l else None
                                if l and got != want and (isinstance(got, (App, Sym)) and got != val or isinstance(got, Ref) and o.st.heap[got.oid].kind == "copy"):
                                    c.undecided(sub, "gave %s" % show(got, o.st))
                                    continue
                                c.oblige(got == want, "values are re-dimensioned by the shape of their rectangle", sub, "gave %s, expected %s" % (shp(got), shp(want)), path=path_of(o))
                                c.oblige(l is not None and l["nd"] == nd, "only the values change", sub, "gave %s" % show(o.val, o.st), path=path_of(o))


class Evaluator(object):
    """An expression evaluator where each expression gives a value or a lasso, or fails, by its name."""

    def __init__(self, c, oldapi=False):
        self.c, self.oldapi = c, oldapi

    def interp(self, it, st, args, kwargs, ctx, node):
        kw = dict(kwargs)
        s = st.fork()
        if self.oldapi and "usersyms" in kw:
            yield it.raise_new(s, "TypeError", (Const("unexpected keyword"),))
            return
        table = kw.get("usersyms", args[0] if args else NONE)
        s.event("stage", "symbols", "ok", (plain(table, s),), None)
        n = s.fresh()
        yield s, Sym("interp%s" % n, "Interp_", "nonempty")

    def eval(self, it, obj, st, args, kwargs, ctx, node):
        if not (isinstance(obj, Sym) and obj.name.startswith("interp")):
            return None

        def gen():
            s = st.fork()
            e = args[0]
            s.event("stage", "eval", "ok", (e,), None)
            name = e.name if isinstance(e, Sym) else ""
            s.over[(obj, "attr", "error")] = s.alloc(ListO([Sym("err%d" % i, "Err_", "nonempty") for i in range(1 if "err1" in name else 2 if "err2" in name else 0)]))
            if "err" in name:
                yield s, App("partial", (e,)) if "partial" in name else NONE
            elif "lasso" in name:
                l = self.c.fn(XL, "Lasso")
                opts = s.alloc(DictO([(Const("own"), TRUE)])) if "opts" in name else s.alloc(DictO([])) if "empty" in name else NONE
                yield from it.call(l, [], [("values", App("evaled", (e,), "int")), ("opts", opts), ("xl_ref", Sym("evalref", "str"))], s, ctx, node)
            elif "none" in name:
                yield s, NONE
            elif "zero" in name:
                yield s, Const(0)
            else:
                yield s, App("evaled", (e,), "int")
        return gen()

    def get_error(self, it, obj, st, args, kwargs, ctx, node):
        return iter([(st, Tup((Sym("errname", "str"), Sym("errmsg", "str"))))])

    def config(self):
        return dict(stubs={"asteval.Interpreter": self.interp, "oracle.step": step_stub()}, mstubs={"eval": self.eval, "get_error": self.get_error}, raises="none", loop_k=4, comp_k=4, rec_k=8)


def evaled(x):
    return NONE if "none" in x.name else Const(0) if "zero" in x.name else App("evaled", (x,))


def spec_eval(x, strict):
    """(result, expressions evaluated in order, failed ones) of evaluating the texts in x."""
    if isinstance(x, dict):
        out, ev, bad = [], [], []
        for k, v in x.items():
            r, e, b = spec_eval(v, strict)
            ev, bad = ev + e, bad + b
            if b and strict:
                return None, ev, bad
            out.append((Const(k), r))
        return ("dict",) + tuple(out), ev, bad
    if isinstance(x, list):
        out, ev, bad = ["list"], [], []
        for v in x:
            r, e, b = spec_eval(v, strict)
            ev, bad = ev + e, bad + b
            if b and strict:
                return None, ev, bad
            out.append(r)
        return tuple(out), ev, bad
    if isinstance(x, Sym) and x.ty == frozenset(["str"]):
        if "err" in x.name:
            return x, [x], [x]
        return evaled(x), [x], []
    return x, [], []


@check("X24", "Exception-flow and provenance analysis of the py and pyeval filters with an evaluator that gives values, falsy values or lassos, or reports errors on the side",
       "Nestings up to three levels of texts and other values; one or two errors per evaluation, with or without a partial result; strict or not; two evaluator interfaces.")
def x24(c):
    c.fn(ENV, "filt")
    T = lambda n: Sym(n, "str", ("nonempty",))
    opts = lambda st: st.alloc(DictO([(Const("current"), TRUE)]))
    cur = ("dict", (Const("current"), TRUE))
    names = ["val", "none", "zero", "lasso", "lasso_opts", "lasso_empty", "err1", "err2", "err1_partial"]
    ok, ok2, e1, ls = T("val"), T("val2"), T("err1"), T("lasso")
    xs = [T(n) for n in names] + [NONE, Sym("num", "int"), Sym("byt", "bytes"), [ok, e1, ok2], [[ok, Sym("num", "int")], [e1, T("err2_partial")]], {"x": e1, "y": ok, "z": [ls, NONE]}, [T("none"), T("zero"), {"x": T("lasso_opts")}], [], [[[ok]], [[e1, T("err2")]]]]
    for old in (False, True):
        for x in xs:
            for strict in (None, False, True):
                for subs in ((), ("a",), ("a", "b")):
                    st = c.state()
                    val = build(st, x)
                    lk = st.alloc(DictO([(Const("values"), val), (Const("opts"), opts(st)), (Const("xl_ref"), Sym("outer", "str")), (Const("st"), coords(c, Sym("r0", "int"), Sym("c0", "int"))), (Const("sheet"), Sym("sheet", "Sheet_", "nonempty"))]))
                    kw = st.alloc(DictO([(Const("eval_all"), boolv(strict))] if strict is not None else []))
                    args = st.alloc(ListO([build(st, [Const(s) for s in subs])])) if subs else st.alloc(ListO())
                    want, evs, bad = spec_eval(x, strict)
                    sub = "pyeval on %s, eval_all=%s, sub-filters %s" % (shp(pl(x)), strict, subs)
                    for o in c.run(c.fn(ENV, "filt"), (FACTORY, step_filters(c, st), lk, Const("pyeval"), args, kw), st=st, label="pyeval", **Evaluator(c, old).config()):
                        got = [e[3][0] for e in o.events if e[:2] == ("stage", "eval")]
                        c.oblige(got == evs, "texts are evaluated, once each, and nothing else", sub, "evaluated %s, expected %s" % (list(map(shp, got)), list(map(shp, evs))), path=path_of(o))
                        for e in o.events:
                            if e[:2] == ("stage", "symbols"):
                                t = e[3][0]
                                keys = {k.v for k, _ in t[1:]} if isinstance(t, tuple) else set()
                                c.oblige({"ranger", "lasso", "xleash"} <= keys, "expressions see the lasso and its ranger", sub, "symbols given: %s" % sorted(keys), path=path_of(o))
                        if bad and strict:
                            c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "errors are raised when strict", sub, "ended with %r" % o, path=path_of(o))
                            continue
                        if o.raised:
                            c.bad("errors of elements are skipped unless strict", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                            continue
                        l = fieldsof(o.val, o.st)
                        got = plain(l["values"], o.st) if l else None
                        w = restep(x, want, subs)
                        c.oblige(got == w, "results replace their expressions only when there was no error", sub, "gave %s, expected %s" % (shp(got), shp(w)), path=path_of(o))
                        c.oblige(len(logged(o, "info", "warning", "error", "critical", "exception", "log")) >= len(bad), "skipped errors are logged", sub, "%d errors, %d logged" % (len(bad), len(logged(o, "info", "warning", "error", "critical", "exception", "log"))), path=path_of(o))
                        steps = [e for e in o.events if e[:2] == ("stage", "step")]
                        for e in steps:
                            lo = fieldsof(e[3][1], o.st)
                            src = [y for y in evs if y not in bad]
                            i = steps.index(e) // len(subs)
                            y = src[i].name if i < len(src) else ""
                            wo = ("dict", (Const("own"), TRUE)) if y == "lasso_opts" else ("dict",) if y == "lasso_empty" else cur
                            c.oblige(lo is not None and plain(lo["opts"], o.st) == wo, "a result keeps the current options when it has none of its own", sub,
                                     "sub-filter of %s saw options %s, expected %s" % (y, lo and shp(plain(lo["opts"], o.st)), shp(wo)), path=path_of(o))
    # The bulk filter
    for old in (False, True):
        for n in names:
            st = c.state()
            lk = st.alloc(DictO([(Const("values"), Sym("before", "int")), (Const("opts"), opts(st)), (Const("xl_ref"), Sym("outer", "str"))]))
            sub = "py on expression '%s'" % n
            for o in c.run(c.fn(ENV, "filt"), (FACTORY, st.alloc(DictO()), lk, Const("py"), st.alloc(ListO([T(n)])), st.alloc(DictO())), st=st, label="py", **Evaluator(c, old).config()):
                if "err" in n:
                    c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "errors are raised", sub, "ended with %r" % o, path=path_of(o))
                    continue
                l = None if o.raised else fieldsof(o.val, o.st)
                c.oblige(l is not None and l["values"] == evaled(T(n)), "the result replaces the values", sub, "ended with %r" % o, path=path_of(o))
                if l:
                    wo = ("dict", (Const("own"), TRUE)) if n == "lasso_opts" else ("dict",) if n == "lasso_empty" else cur
                    c.oblige(plain(l["opts"], o.st) == wo, "a result keeps the current options when it has none of its own", sub, "gave options %s" % shp(plain(l["opts"], o.st)), path=path_of(o))
                    c.oblige(l["xl_ref"] == Sym("evalref" if "lasso" in n else "outer"), "a lasso result is taken whole", sub, "xl_ref is %s" % show(l["xl_ref"]), path=path_of(o))


def restep(x, p, subs):
    """Apply sub-filters on the elements of p evaluated, by walking x."""
    if isinstance(x, dict):
        return p[:1] + tuple((a[0], restep(b, a[1], subs)) for a, b in zip(p[1:], x.values()))
    if isinstance(x, list):
        return p[:1] + tuple(restep(b, a, subs) for a, b in zip(p[1:], x))
    if isinstance(x, Sym) and x.ty == frozenset(["str"]) and "err" not in x.name:
        for s in subs:
            p = App("step", (Const(s), p))
    return p


DFENV = "envm_dfs"


@check("X27", "Abstract interpretation of the pandas filters over captured tables of unknown cells and every option, with pandas' parser as an arbitrary reader",
       "Decides tables of up to three rows and columns with each cell blank or not, every option singly and header/index combinations; what pandas makes of the rows is not decided.")
def x27(c):
    c.fn(DFENV, "filt")
    frame, series = Sym("frame", "DataFrame"), Sym("series", "Series")
    empty = Sym("empty-frame", "DataFrame")

    def parser(out):
        def f(it, st, args, kwargs, ctx, node):
            s = st.fork()
            s.event("parse", args, kwargs, tuple(args and [plain(args[0], s)]))
            yield s, Sym("parser", "TextFileReader", "nonempty")
        return f

    def read(out):
        def f(it, obj, st, args, kwargs, ctx, node):
            if obj != Sym("parser", "TextFileReader", "nonempty"):
                return None

            def g():
                if out == "ok":
                    yield st, frame
                elif out == "series":
                    yield st, series
                else:
                    yield it.raise_new(st, out, (Const("boom"),))
            return g()
        return f

    def blank(it, st, v):
        return v == NONE or v == Const("")

    def fill(it, st, args, kwargs, ctx, node):
        if len(args) != 2:
            yield it.raise_new(st, "TypeError", (Const("arguments"),))
            return
        s = st.fork()
        row, ctrl = [plain(a, s)[1:] for a in args]
        s.event("fill", row, ctrl)
        out, last, ctrl = [], None, list(ctrl)
        for i, x in enumerate(row):
            if i and ctrl[i] == FALSE:
                last = x
            elif i and blank(it, s, x):
                x = last
            else:
                if i:
                    ctrl[i] = FALSE
                last = x
            out.append(x)
        yield s, Tup((s.alloc(ListO(out)), s.alloc(ListO(ctrl))))

    def pop(it, st, args, kwargs, ctx, node):
        s = st.fork()
        row = plain(args[0], s)[1:]
        i = args[1].v if isinstance(args[1], Const) else max(x.v for x in plain(args[1], s)[1:])
        s.event("pop", row, i)
        yield s, Tup((App("header-name", (row[i],)), s.alloc(ListO([Const("") if j == i else x for j, x in enumerate(row)]))))

    def integer(it, st, args, kwargs, ctx, node):
        v = args[0]
        t = it.types(v, st)
        yield st, (FALSE if t is None or "bool" in t else Const(t <= {"int"}))

    def listy(it, st, args, kwargs, ctx, node):
        t = it.types(args[0], st)
        if t is None:
            raise Undecided("list-like of unknown type")
        yield st, Const(t <= {"list", "tuple", "set"})

    def newframe(it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("newframe", args, kwargs)
        yield s, empty

    def newseries(it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("newseries", args, kwargs, plain(args[0], s) if args else None)
        yield s, series
    stubs = {"pandas.DataFrame": newframe, "pandas.Series": newseries}
    for n in ("pandas.io.excel._util.", "pandas.io.excel._base.", "pandas.io.excel."):
        for u in ("_", ""):
            stubs[n + u + "fill_mi_header"], stubs[n + u + "pop_header_name"] = fill, pop
            stubs[n + u + "range2cols"] = lambda it, st, a, k, ctx, node: iter([(st, App("columns", a))])
    for n in ("pandas.api.types.", "pandas.core.common.", "pandas.core.dtypes.common.", "pandas.core.dtypes.api."):
        stubs[n + "is_integer"], stubs[n + "is_list_like"] = integer, listy

    def setnames(it, obj, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("setnames", obj, plain(args[0], s))
        return iter([(s, App("named", (obj,)))])

    def run(name, table, args=(), kw=(), out="ok"):
        st = c.state()
        vals = build(st, table)
        d = st.alloc(DictO([(Const(k), build(st, v)) for k, v in kw]))
        stubs["pandas.io.parsers.TextParser"] = stubs["pandas.io.parsers.readers.TextParser"] = parser(out)
        return c.run(c.fn(DFENV, "filt"), (Const(name), vals, Tup(args), d), st=st, label=name, stubs=stubs, mstubs={"read": read(out), "set_names": setnames}, raises="none")

    def lasso(o, want, rule, sub):
        l = fieldsof(o.val, o.st) if not o.raised else None
        c.oblige(l is not None and l["values"] == want, rule, sub, "gives %s" % o, path=path_of(o))
        c.oblige(l is not None and l["xl_ref"] == Ext("oracle.xlref") and l["opts"] == Ext("oracle.opts"), "the rest of the lasso stays as it was", sub, "gives %s" % o, path=path_of(o))

    def given(o):
        """(rows, {option: value}) of the only reading, or None."""
        ps = [e for e in o.events if e[0] == "parse"]
        if len(ps) != 1 or len(ps[0][1]) != 1:
            return None
        return ps[0][3][0], {k: v for k, v in ps[0][2]}
    def cell(i, j):
        return Sym("cell_%d%d" % (i, j), "int")

    def table(n, m, blanks=()):
        return [[blanks[i, j] if blanks and (i, j) in blanks else cell(i, j) for j in range(m)] for i in range(n)]

    def rows(t):
        return ("list",) + tuple(("list",) + tuple(Const("") if x == NONE else x for x in r) for r in t)
    # cells
    rule = "pandas reads all captured rows, blanks as empty texts"
    import itertools
    for n, m in ((1, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
        for bl in ({}, {(0, 0): NONE}, {(n - 1, m - 1): NONE}, {(n - 1, 0): Const("")}, {(0, m - 1): Const(0)}, {(n - 1, 0): FALSE}, {(i, j): NONE for i in range(n) for j in range(m)}):
            t = table(n, m, bl)
            for o in run("df", t):
                sub = "df of %dx%d cells with %s" % (n, m, ", ".join("%s at %s" % (show(v), k) for k, v in sorted(bl.items())) or "no blanks")
                g = given(o)
                c.oblige(g is not None and g[0] == rows(t), rule, sub, "reads %s" % (g and g[0],), path=path_of(o))
                lasso(o, frame, "the filter gives the lasso with the frame read", sub)
                if g is not None:
                    c.oblige(g[1].get("header", None) == Const(0), "the first row is the header by default", sub, "header is %s" % show(g[1].get("header", NONE)), path=path_of(o))
    # options
    rule = "options reach pandas under their names"
    t = table(2, 2)
    for opt in "names dtype true_values false_values nrows na_values parse_dates thousands comment skipfooter skiprows encoding quotechar anything".split():
        val = Sym("v_" + opt, "str")
        for o in run("df", t, (), ((opt, val),)):
            g = given(o)
            c.oblige(g is not None and g[1].get(opt) == val and g[0] == rows(t), rule, "df with " + opt, "passes %s" % (g and {k: show(v, o.st) for k, v in g[1].items()}), path=path_of(o))
            lasso(o, frame, "the filter gives the lasso with the frame read", "df with " + opt)
    # all of them, and all but one
    alls = [(opt, Sym("v_" + opt, "str")) for opt in "names dtype true_values false_values nrows na_values parse_dates thousands comment skipfooter skiprows encoding".split()]
    alls += [("header", Const(1)), ("index_col", Const(1)), ("usecols", [Const(0), Const(1)])]
    defaults = {}
    for o in run("df", t):
        defaults = dict(given(o)[1]) if given(o) else {}
    for out in [None] + [k for k, v in alls]:
        kw = [(k, v) for k, v in alls if k != out]
        for o in run("df", t, (), kw):
            g = given(o)
            sub = "df with all options" + (" but " + out if out else "")
            got = g and {k: plain(v, o.st) for k, v in g[1].items()}
            for k, v in kw:
                c.oblige(g is not None and got.get(k) == (("list",) + tuple(v) if isinstance(v, list) else v), rule, sub, "passes %s=%s" % (k, g and got.get(k)), path=path_of(o))
            if out:
                c.oblige(g is not None and g[1].get(out) == defaults.get(out), "an option not given stays at its default", sub, "passes %s=%s" % (out, g and got.get(out)), path=path_of(o))
    for opt, val in (("header", Const(1)), ("header", NONE), ("index_col", Const(1)), ("index_col", Const(0)), ("usecols", NONE)):
        for o in run("df", t, (), ((opt, val),)):
            g = given(o)
            c.oblige(g is not None and g[1].get(opt, NONE) == val and g[0] == rows(t), rule, "df with %s=%s" % (opt, show(val)), "passes %s" % (g and {k: show(v, o.st) for k, v in g[1].items()}), path=path_of(o))
    for o in run("df", t, (), (("header", [Const(1)]),)):
        g = given(o)
        c.oblige(g is not None and g[1].get("header") == Const(1) and g[0] == rows(t), "a single header-row given as list is that row", "df with header=[1]", "passes %s" % (g and show(g[1].get("header", NONE), o.st)), path=path_of(o))
    rule = "columns are selected as numbers, ranges of numbers, or letters"
    for val, want in ((Const(0), ("list", Const(0))), (Const(2), ("list", Const(0), Const(1), Const(2))), ([Const(1), Const(0)], ("list", Const(1), Const(0))), (Const("A:C"), App("columns", (Const("A:C"),)))):
        for o in run("df", t, (), (("usecols", val),)):
            g = given(o)
            c.oblige(g is not None and plain(g[1].get("usecols", NONE), o.st) == want, rule, "df with usecols=%s" % (val if isinstance(val, list) else show(val)), "gives %s, reading columns %s" % (o, g and show(g[1].get("usecols", NONE), o.st)), path=path_of(o))
    # refused
    for kw in (("header", TRUE), ("header", FALSE)):
        for o in run("df", t, (), (kw,)):
            c.oblige(o.raised and o.raises("TypeError") and given(o) is None, "a boolean header is refused", "df with header=%s" % show(kw[1]), "gives %s" % o, path=path_of(o))
    for opt in "skip_footer chunksize date_parser converted".split():
        for o in run("df", t, (), ((opt, Sym("v", "int")),)):
            c.oblige(o.raised and o.raises("NotImplementedError") and given(o) is None, "options not supported are refused", "df with " + opt, "gives %s" % o, path=path_of(o))
    # nothing captured
    rule = "an empty capture gives an empty frame"
    for t0, lab in (([], "no rows"), (NONE, "nothing")):
        for o in run("df", t0):
            lasso(o, empty, rule, "df of " + lab)
            c.oblige(all(not e[1] and not e[2] for e in o.events if e[0] == "newframe"), rule, "df of " + lab, "the frame has data", path=path_of(o))
    for o in run("df", t, out="EmptyDataError"):
        lasso(o, empty, rule, "df of rows without columns")
    for exc in ("ValueError", "TypeError", "KeyError"):
        for o in run("df", t, out=exc):
            c.oblige(o.raised and o.exc_names() == frozenset([exc]), "failures of pandas are not hidden", "df failing with " + exc, "gives %s" % o, path=path_of(o))
    # more than one header
    rule = "blanks of the upper header-rows take the name to their left"
    for skip in (None, 1):
        k = skip or 0
        for bl in ({}, {(k, 1): NONE}, {(k, 1): Const(""), (k, 2): NONE}, {(k, 2): NONE, (k + 1, 1): NONE, (k + 1, 2): NONE}):
            t = table(3 + k, 3, bl)
            w = [list(r) for r in t]
            brk = {0}
            for r in (k, k + 1):
                for j in (1, 2):
                    if j not in brk and w[r][j] in (NONE, Const("")):
                        w[r][j] = w[r][j - 1]
                    else:
                        brk.add(j)
            for out in ("ok",):
                for o in run("df", t, (), (("header", [Const(0), Const(1)]),) + ((("skiprows", Const(skip)),) if skip else ())):
                    g = given(o)
                    sub = "df with two headers%s and blanks %s" % (" and a row skipped" if skip else "", sorted(bl))
                    c.oblige(g is not None and g[0] == rows(w) and plain(g[1].get("header", NONE), o.st) == ("list", Const(0), Const(1)), rule, sub, "reads %s" % (g and g[0],), path=path_of(o))
                    lasso(o, frame, "the filter gives the lasso with the frame read", sub)
    t = table(3, 3)
    for o in run("df", t, (), (("header", [Const(0), Const(1)]), ("index_col", Const(0)))):
        g = given(o)
        w = [[Const(""), cell(i, 1), cell(i, 2)] if i < 2 else t[i] for i in range(3)]
        ns = [e for e in o.events if e[0] == "setnames"]
        c.oblige(g is not None and g[0] == rows(w), "the names of the header-rows are taken from the index column", "df with two headers and an index", "reads %s" % (g and g[0],), path=path_of(o))
        c.oblige(len(ns) == 1 and ns[0][2] == ("list",) + tuple(App("header-name", (cell(i, 0),)) for i in range(2)), "the names of the header-rows are taken from the index column", "df with two headers and an index",
                 "names %s" % (ns and ns[0][2:],), path=path_of(o))
    # more than one index
    rule = "blanks of index columns take the value above"
    for hd, off in ((Const(0), 1), (Const(1), 2), (NONE, 0), ([Const(0), Const(1)], 2), ([Const(1), Const(0)], 2)):
        for bl in ({}, {(3, 0): NONE}, {(3, 1): Const("")}, {(2, 0): NONE, (3, 0): NONE, (3, 1): NONE}, {(1, 2): NONE, (3, 2): NONE}, {(1, 0): NONE, (2, 1): NONE}, {(0, 0): NONE, (0, 1): NONE}):
            if isinstance(hd, list) and any(k[0] < 2 for k in bl):
                continue
            t = table(4, 3, bl)
            w = [list(r) for r in t]
            if isinstance(hd, list):
                for i in range(2):
                    w[i][1] = Const("")
            for j in (0, 1):
                for i in range(off + 1, 4):
                    if w[i][j] in (NONE, Const("")):
                        w[i][j] = w[i - 1][j]
            for o in run("df", t, (), (("header", hd), ("index_col", [Const(0), Const(1)]))):
                g = given(o)
                c.oblige(g is not None and g[0] == rows(w) and plain(g[1].get("index_col", NONE), o.st) == ("list", Const(0), Const(1)), rule,
                         "df with two index columns, header %s, blanks %s" % ("list" if isinstance(hd, list) else show(hd), sorted(bl)), "%s, reading %s" % (o, g and g[0]), path=path_of(o))
    for o in run("df", table(1, 2), (), (("index_col", [Const(0), Const(1)]),)):
        g = given(o)
        c.oblige(g is not None and g[0] == rows(table(1, 2)), rule, "df with two index columns and no data", "gives %s" % o, path=path_of(o))
    # series
    rule = "a table of two columns becomes a series keyed by the first one"
    for n in (0, 1, 2, 3):
        t = [[Const("key%d" % i), cell(i, 1)] for i in range(n)]
        name = Sym("v_name", "str")
        for kw in ((), (("name", name),)):
            for o in run("sr", t, (), kw):
                lasso(o, series, "the filter gives the lasso with the series", "sr of %d rows" % n)
                ns = [e for e in o.events if e[0] == "newseries"]
                want = ("dict",) + tuple((Const("key%d" % i), cell(i, 1)) for i in range(n))
                c.oblige(len(ns) == 1 and (ns[0][3] == want or dict(ns[0][2]).get("data") is not None) and (not kw or dict(ns[0][2]).get("name") == name), rule, "sr of %d rows" % n, "makes it of %s" % (ns and ns[0][1:],), path=path_of(o))


@check("X30", "Enumerative dataflow of the converting filters (numpy, dict, odict, sorted), invoked directly and through the ranger's calls, with opaque elements and arguments; results, fields kept and stores compared with the documented conversion",
       "Lists of pairs, mappings, flat and nested lists up to three elements; no arguments, positional and named ones; the array library's constructor is an oracle recording its arguments.")
def x30(c):
    c.fn(ENV, "filt")
    st0 = c.state()
    names = list(c.fn(XL, "Lasso").info.nt().nt_fields)
    v1, v2, v3 = Sym("v1", None, ("shared",)), Sym("v2", None, ("shared",)), Sym("v3", None, ("shared",))
    D, N, P = Sym("dtype", "str", "nonempty"), Sym("ndmin", "int"), Sym("order", "str")
    cases = []
    for val in ([v1, v2], [[v1, v2], [v3, v1]], [], v1, [[v1], [v2]]):
        for args, kw in (([], {}), ([D], {}), ([], {"dtype": D}), ([], {"dtype": D, "ndmin": N}), ([D], {"order": P, "ndmin": N})):
            cases.append(("numpy", val, args, kw, ("np",)))
    for f, tn in (("dict", "dict"), ("odict", "OrderedDict")):
        for val, d in (([], {}), ([[Const("a"), v1]], {"a": v1}), ([[Const("b"), v1], [Const("a"), v2]], {"b": v1, "a": v2}), ([[Const("a"), v1], [Const("b"), v3], [Const("a"), v2]], {"a": v2, "b": v3}),
                       ({}, {}), ({"a": v1}, {"a": v1}), ({"b": v1, "a": v2}, {"b": v1, "a": v2})):
            for kw in ({}, {"c": v3}, {"a": v3}, {"z": v1, "a": NONE}):
                want = dict(d)
                want.update(kw)
                cases.append((f, val, [], kw, (tn, list(want.items()))))
    K = Const
    for val, wants in (([], ()), ([K(2)], (2,)), ([K(3), K(1), K(2)], (1, 2, 3)), ([K(1), K(3), K(1)], (1, 1, 3)), ([K("b"), K("B"), K("a")], ("B", "a", "b")), ([K(2.5), K(-1), K(0)], (-1, 0, 2.5))):
        for kw in ({}, {"reverse": TRUE}, {"reverse": FALSE}):
            cases.append(("sorted", val, [], kw, ("list", list(reversed(wants)) if kw.get("reverse") == TRUE else list(wants))))
    for val, w in (([K("ccc"), K("a"), K("bb")], ["a", "bb", "ccc"]), ([K("bb"), K("a"), K("cc")], ["a", "bb", "cc"])):
        cases.append(("sorted", val, [], {"key": Ext("builtins.len")}, ("list", w)))
    cases.append(("sorted", {"b": v1, "a": v2}, [], {}, ("list", ["a", "b"])))

    def array(it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("stage", "array", tuple(args), tuple(kwargs))
        yield s, App("np.made", (Tup(args), Tup([Tup((Const(k), v)) for k, v in sorted(kwargs)])), "ndarray")

    n = 0
    for f, val, args, kw, want in cases:
        for how in ("direct", "called"):
            st = st0.fork()
            x = build(st, val)
            freeze(x, st, "capture")
            fields = {k: Sym("f_" + k, None, ("shared",)) for k in names}
            fields["values"] = x
            lk = st.alloc(DictO([(Const(k), v) for k, v in fields.items()]))
            sub = "%s of %s with %s %s, %s" % (f, shp(pl(val)) if not isinstance(val, dict) else val, [show(a) for a in args], {k: show(v) for k, v in kw.items()}, how)
            fn = c.fn(ENV, "filt" if how == "direct" else "filt_call")
            for o in c.run(fn, (FACTORY, st.alloc(DictO()), lk, Const(f), st.alloc(ListO(args)), st.alloc(DictO([(Const(k), v) for k, v in kw.items()]))), st=st, label=f, raises="none", loop_k=6, comp_k=6,
                           stubs={"numpy.array": array}):
                if o.raised:
                    c.bad("values are converted", sub, "raised %s" % o.exc_names(), path=path_of(o))
                    continue
                l = fieldsof(o.val, o.st)
                if l is None:
                    c.bad("values are converted", sub, "gave %s" % show(o.val, o.st), path=path_of(o))
                    continue
                n += 1
                got = o.it.strval(l["values"], o.st) if not isinstance(l["values"], Ref) else l["values"]
                c.oblige(all(l[k] == fields[k] for k in names if k != "values"), "only the values change", sub, "gave %s" % show(o.val, o.st), path=path_of(o))
                for w in o.writes():
                    if w[7] == "capture":
                        c.bad("the captured values are only read", sub, "they are written", w[5], path_of(o))
                if f == "numpy":
                    if not isinstance(got, App) or got.op != "np.made":
                        c.undecided(sub, "made by other means: %s" % show(got, o.st))
                        continue
                    c.oblige(got.args[0] == Tup([x] + args) and got.args[1] == Tup([Tup((Const(k), v)) for k, v in sorted(kw.items())]), "the arguments of a conversion are all used", sub,
                             "the array was made by %s" % show(got, o.st), path=path_of(o))
                    continue
                ob = o.st.heap.get(got.oid) if isinstance(got, Ref) else None
                if want[0] == "list":
                    ok = isinstance(ob, ListO) and not ob.open and ob.tname == "list" and [e.v if isinstance(e, Const) else e for e in ob.items] == want[1]
                else:
                    ok = isinstance(ob, DictO) and not ob.open and ob.tname == want[0] and list(ob.items) == [(Const(k), v) for k, v in want[1]]
                known = isinstance(ob, (ListO, DictO)) and not ob.open or isinstance(got, (Const, Tup))
                c.oblige(ok if ok or known else None, "values are converted", sub, "gave %s instead of %s" % (show(got, o.st), [show(y) if isinstance(y, Val) else y for y in want[1]]), path=path_of(o))
                c.oblige(got != x, "conversions are fresh", sub, "gave the captured values themselves", path=path_of(o))
    c.oblige(True if n else None, "conversions followed", "installed filters", "none")
