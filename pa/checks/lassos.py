"""Lassoing: the Ranger and the one-call lasso (X11-X15)."""
from ..harness import *

ENV = "envm_xleash"
XL = "pandalone.xleash"


def lasso_cls(c):
    c.state()
    return c.fn(XL, "Lasso")


def fieldsof(v, st):
    """A Lasso value as a dict of its fields, or None."""
    if isinstance(v, Tup) and v.cls is not None and v.cls.name == "Lasso":
        return dict(zip(v.cls.nt().nt_fields, v.items))
    return None


def exc_obj(c, it, st, name):
    """Raise an exception: builtin, or the package's EmptyCaptureException."""
    if name == "EmptyCaptureException":
        cls = c.prog.func(XL, name)
        st = st.fork()
        d = st.alloc(DictO(((Const("args"), Tup((Const("empty"),))),)))
        e = st.alloc(InstO(cls, d.oid))
        return st, Raised(e)
    return it.raise_new(st, name, (Const("boom"),))


PARSED = ("url_file", "sh_name", "st_edge", "nd_edge", "exp_moves", "call_spec", "opts", "xl_ref")


class World(object):
    """Stand-ins of the environment of a lassoing: outcomes of each stage are enumerated."""

    def __init__(self, c, parse=("ok",), fetch=("ok",), states=("ok",), caps=("rect",), reads=("ok",), filters=("lasso",), opts=None, spec=True, fname="f"):
        self.c, self.parse, self.fetch, self.states, self.caps, self.reads, self.filters, self.opts, self.spec, self.fname = c, parse, fetch, states, caps, reads, filters, opts, spec, fname
        self.nparse = 0

    def p_parse(self, it, st, args, kwargs, ctx, node):
        for k in self.parse:
            s = st.fork()
            if k in ("ok", "part"):
                n = s.fresh()
                s.event("stage", "parse", "ok", (args[0],), None)
                d = [(Const("url_file"), Sym("p_url", "str", "nonempty")), (Const("sh_name"), Sym("p_sheet", "str", "nonempty")),
                     (Const("st_edge"), Sym("p_st", "Edge", "nonempty")), (Const("nd_edge"), Sym("p_nd", "Edge", "nonempty")),
                     (Const("exp_moves"), Sym("p_exp", "str", "nonempty")), (Const("xl_ref"), args[0]),
                     (Const("opts"), self.opts(s) if self.opts else NONE)]
                if k == "part":
                    d = [(a, NONE if a.v in ("url_file", "sh_name", "exp_moves", "nd_edge") else b) for a, b in d]
                cs = NONE
                if self.spec:
                    ccls = self.c.prog.func(XL, "CallSpec")
                    cs = Tup((Const(self.fname), s.alloc(ListO((Sym("arg0"),))), s.alloc(DictO(((Const("kw0"), Sym("kwv0")),) if self.spec is True else self.spec))), ccls.info)
                d.append((Const("call_spec"), cs))
                yield s, s.alloc(DictO(d))
            else:
                s.event("stage", "parse", k, (args[0],), None)
                yield exc_obj(self.c, it, s, k)

    def m_fetch(self, it, obj, st, args, kwargs, ctx, node):
        def gen():
            for k in self.fetch:
                s = st.fork()
                a = list(args) + [v for k_, v in kwargs]
                s.event("stage", "fetch", k, tuple(a), tuple(kwargs))
                if k == "ok":
                    yield s, Sym("sheet", "Sheet_", "nonempty")
                else:
                    yield exc_obj(self.c, it, s, k)
        return gen()

    def m_states(self, it, obj, st, args, kwargs, ctx, node):
        def gen():
            for k in self.states:
                s = st.fork()
                s.event("stage", "states", k, (obj,), None)
                if k == "ok":
                    yield s, App("states", (obj,))
                else:
                    yield exc_obj(self.c, it, s, k)
        return gen()

    def m_margins(self, it, obj, st, args, kwargs, ctx, node):
        return iter([(st, App("margins", (obj,)))])

    def p_capture(self, it, st, args, kwargs, ctx, node):
        for k in self.caps:
            s = st.fork()
            names = ["states_matrix", "up_dn_margins", "st_edge", "nd_edge", "exp_moves", "base_coords"]
            d = dict(zip(names, args))
            d.update(kwargs)
            s.event("stage", "capture", k, tuple(d.get(n, NONE) for n in names), None)
            co = self.c.prog.func(XL, "Coords").info
            st_, nd_ = (Tup((Sym("r%d" % i, "int"), Sym("c%d" % i, "int")), co) for i in (0, 1))
            if k == "rect":
                yield s, Tup((st_, nd_))
            elif k.startswith("at"):        # coordinates known
                r = [Tup((Const(int(k[i])), Const(int(k[i + 1]))), co) for i in range(2, len(k), 2)]
                yield s, Tup((r[0], r[1] if len(r) > 1 else NONE))
            elif k == "cell":
                yield s, Tup((st_, NONE))
            else:
                yield exc_obj(self.c, it, s, k)

    def m_read(self, it, obj, st, args, kwargs, ctx, node):
        def gen():
            for k in self.reads:
                s = st.fork()
                s.event("stage", "read", k, (obj,) + tuple(args) + tuple(v for _, v in kwargs), None)
                if k == "ok":
                    yield s, Sym("values", "list", "nonempty")
                else:
                    yield exc_obj(self.c, it, s, k)
        return gen()

    def p_saw(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("stage", "filter", "called", args, None)
        yield s, NONE

    def p_result(self, it, st, args, kwargs, ctx, node):
        for k in self.filters:
            s = st.fork()
            s.event("stage", "filtered", k, args, None)
            if k == "lasso":
                f = fieldsof(args[0], s)
                if f is None:
                    raise Undecided("filter given no lasso")
                yield s, Tup([Sym("filtered") if n == "values" else v for n, v in f.items()], args[0].cls)
            elif k == "value":
                yield s, Sym("notlasso", "list")
            elif k == "none":
                yield s, NONE
            else:
                yield exc_obj(self.c, it, s, k)

    def p_ranger(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("stage", "ranger", "ok", args, None)
        yield s, NONE

    def config(self):
        return dict(stubs={"parse_xlref": self.p_parse, "resolve_capture_rect": self.p_capture, "oracle.saw": self.p_saw, "oracle.result": self.p_result, "oracle.ranger": self.p_ranger},
                    mstubs={"fetch_sheet": self.m_fetch, "get_states_matrix": self.m_states, "get_margin_coords": self.m_margins, "read_rect": self.m_read},
                    raises="none", rec_k=6, max_states=200000)


def stages(o):
    return [e for e in o.events if e[0] == "stage" and e[1] not in ("ranger",)]


def filters_dict(c, st, name="f", fn="spy"):
    f = c.fn(ENV, fn)
    rec = st.alloc(DictO(((Const("func"), f),)))
    return st.alloc(DictO(((Const(name), rec),)))


def run_do(c, w, xlref=None, base_opts=None, kwds=(), filters=True, label=""):
    fn = c.fn(ENV, "do_lasso")
    st = c.state()
    fd = filters_dict(c, st) if filters else st.alloc(DictO())
    bo = base_opts(st) if base_opts else st.alloc(DictO())
    freeze(bo, st, "base_opts")
    freeze(fd, st, "filters")
    kd = st.alloc(DictO([(Const(k), v) for k, v in kwds]))
    xr = xlref if xlref is not None else Sym("xlref", "str", "nonempty")
    return c.run(fn, (Sym("factory", "Factory_", "nonempty"), bo, fd, xr, kd), st=st, label=label, **w.config())


def unpack(o):
    """(result, exception or NONE, published lasso) of the do_lasso client."""
    if o.raised or not isinstance(o.val, Tup):
        return None
    res, ex, pub = o.val.items
    if isinstance(pub, Tup) and len(pub.items) == 2:
        pub = pub.items[1]
    return res, ex, pub


def empty_list(v, st):
    return isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO) and not st.heap[v.oid].items and not st.heap[v.oid].open


@check("X14", "Order and provenance analysis over the abstract paths of Ranger.do_lasso, with every stage replaced by an arbitrary one that may fail: what each stage is given, in which order, and what is published when one fails",
       "Any xl-ref text and fields, factory and sheet; every stage succeeding or raising; context fields given or not; and one ranger used for two lassoings with different context fields, however the first ended.")
def x14(c):
    errs = ("ok", "ValueError", "KeyError")
    ctxs = [(), (("sheet", Sym("ctx_sheet", "Sheet_", "nonempty")), ("base_coords", Sym("ctx_base", "Coords", "nonempty"))),
            (("url_file", Sym("ctx_url", "str", "nonempty")), ("nd_edge", Sym("ctx_nd", "Edge", "nonempty")))]
    for kwds in ctxs:
        for pk in ("ok", "part"):
            w = World(c, parse=(pk, "SyntaxError", "ValueError"), fetch=errs, states=errs[:2] + ("EmptyCaptureException",), caps=("rect", "cell", "ValueError", "EmptyCaptureException"), reads=errs, filters=("lasso", "ValueError"))
            for o in run_do(c, w, kwds=kwds, label="do_lasso"):
                sub = "do_lasso(%s; %s)" % (",".join(k for k, _ in kwds), pk)
                u = unpack(o)
                if u is None:
                    c.bad("a client gets the result or an exception", sub, "unexpected %r" % o, path=path_of(o))
                    continue
                res, ex, pub = u
                ss = stages(o)
                names = [e[1] for e in ss]
                by = {}
                for e in ss:
                    by.setdefault(e[1], e)
                order = ["parse", "fetch", "states", "capture", "read", "filter", "filtered"]
                idx = [order.index(n) for n in names]
                c.oblige(idx == sorted(idx) and len(set(idx)) == len(idx), "stages run once, in order", sub, "stages ran as %s" % names, path=path_of(o))
                failed = ss[-1] if ss and ss[-1][2] not in ("ok", "called", "lasso", "rect", "cell") and not (ss[-1][2] == "EmptyCaptureException") else None
                c.oblige((failed is None) == (ex == NONE), "a failing stage fails the lassoing, and nothing else does", sub,
                         "stages %s ended with %s" % ([(e[1], e[2]) for e in ss], show(ex, o.st)), path=path_of(o))
                kw = dict(kwds)
                want = lambda f, p: kw.get(f, NONE) if pk == "part" and f in ("url_file", "sh_name", "exp_moves", "nd_edge") else p
                xr = Sym("xlref", "str", "nonempty")
                if "fetch" in by:
                    a = by["fetch"][3]
                    exp = (want("url_file", Sym("p_url")), want("sh_name", Sym("p_sheet")), kw.get("sheet", NONE))
                    c.oblige(a == exp, "the sheet fetched is the one referred", sub, "fetch_sheet given %s, expected %s" % (show(Tup(a)), show(Tup(exp))), path=path_of(o))
                sheet = Sym("sheet")
                if "capture" in by:
                    a = by["capture"][3]
                    exp = (App("states", (sheet,)), App("margins", (sheet,)), Sym("p_st"), want("nd_edge", Sym("p_nd")), want("exp_moves", Sym("p_exp")), kw.get("base_coords", NONE))
                    c.oblige(a == exp, "the edges parsed are captured, on the sheet fetched", sub, "captured %s, expected %s" % (show(Tup(a)), show(Tup(exp))), path=path_of(o))
                captured = "capture" in by and by["capture"][2] in ("rect", "cell")
                if names and ex == NONE:
                    c.oblige(("read" in by) == captured, "values are read exactly when something was captured", sub, "stages %s" % names, path=path_of(o))
                if "read" in by:
                    a = by["read"][3]
                    nums = [x.name if isinstance(x, Sym) else None for t in a[1:] if isinstance(t, Tup) for x in t.items]
                    exp = ["r0", "c0", "r1", "c1"] if by["capture"][2] == "rect" else ["r0", "c0"]
                    c.oblige(a[0] == sheet and nums == exp and (by["capture"][2] == "rect" or len(a) < 3 or a[2] == NONE), "the values read are at the captured coordinates", sub,
                             "read_rect on %s" % show(Tup(a)), path=path_of(o))
                vals = Sym("values") if "read" in by else None
                okv = lambda v, s: v == vals if vals is not None else empty_list(v, s)
                if "filter" in by:
                    lf = fieldsof(by["filter"][3][1], o.st)
                    good = lf is not None and okv(lf["values"], o.st) and lf["sheet"] == sheet and lf["st_edge"] == Sym("p_st") and lf["xl_ref"] == xr
                    if good and captured:
                        good = isinstance(lf["st"], Tup) and lf["st"].items[0] == Sym("r0") and (lf["nd"] == NONE) == (by["capture"][2] == "cell")
                    c.oblige(good, "filters work on the values read and know where they come from", sub, "filter given %s" % (lf and {k: show(v, o.st) for k, v in lf.items()}), path=path_of(o))
                    al = by["filter"][3]
                    args_ok = isinstance(al[2], Tup) and al[2].items == (Sym("arg0"),) and isinstance(al[3], Ref) and o.st.heap[al[3].oid].items == ((Const("kw0"), Sym("kwv0")),)
                    c.oblige(args_ok, "filters get the arguments of their call-specifier", sub, "filter given %s" % show(Tup(al), o.st), path=path_of(o))
                if ex == NONE:
                    rf = fieldsof(res, o.st)
                    c.oblige(rf is not None and "filtered" in by and rf["values"] == Sym("filtered"), "the result of the filters is returned", sub, "returned %s" % show(res, o.st), path=path_of(o))
                    continue
                # what is published
                pf = fieldsof(pub, o.st)
                if pf is None:
                    c.bad("the last completed stage is published", sub, "published %s at the failure of %s" % (show(pub, o.st), ss[-1][1:3]), path=path_of(o))
                    continue
                st_ = failed[1] if failed else None
                good = True
                if st_ == "parse":
                    good = pf["xl_ref"] == NONE and all(pf[k] == v for k, v in kwds)
                if st_ in ("fetch", "states", "capture", "read", "filtered"):
                    good = good and pf["xl_ref"] == xr and pf["st_edge"] == Sym("p_st")
                if st_ == "fetch":
                    good = good and pf["sheet"] == kw.get("sheet", NONE) and pf["st"] == NONE
                if st_ in ("states", "capture"):
                    good = good and pf["sheet"] == sheet and pf["st"] == NONE
                if st_ == "read":
                    good = good and pf["sheet"] == sheet and isinstance(pf["st"], Tup) and pf["values"] == NONE
                if st_ == "filtered":
                    good = good and okv(pf["values"], o.st)
                c.oblige(good, "the last completed stage is published", sub, "at the failure of %s the published lasso is %s" % (st_, {k: show(v, o.st) for k, v in pf.items()}), path=path_of(o))
    # a ranger re-used
    again = c.fn(ENV, "do_again")
    x1, x2 = (Sym("xlref%d" % i, "str", "nonempty") for i in (1, 2))
    for k1, k2 in ((0, 0), (0, 1), (1, 0), (1, 2), (2, 1)):
        w = World(c, parse=("part", "ValueError"), fetch=("ok", "KeyError"), states=("ok",), caps=("rect", "ValueError"), reads=("ok",), filters=("lasso", "ValueError"))
        st = c.state()
        fd, bo = filters_dict(c, st), st.alloc(DictO())
        freeze(bo, st, "base_opts")
        freeze(fd, st, "filters")
        kds = [st.alloc(DictO([(Const(k), v) for k, v in ctxs[i]])) for i in (k1, k2)]
        sub = "do_lasso(%s), then do_lasso(%s) with the same ranger" % tuple(",".join(k for k, _ in ctxs[i]) for i in (k1, k2))
        for o in c.run(again, (Sym("factory", "Factory_", "nonempty"), bo, fd, x1, kds[0], x2, kds[1]), st=st, label="do_lasso twice", **w.config()):
            u = unpack(o)
            if u is None:
                c.bad("a client gets the result or an exception", sub, "unexpected %r" % o, path=path_of(o))
                continue
            res, ex, pub = u
            at = max(i for i, e in enumerate(o.events) if e[0] == "stage" and e[1] == "ranger")
            ss = [e for e in o.events[at:] if e[0] == "stage" and e[1] != "ranger"]
            kw = dict(ctxs[k2])
            by = {e[1]: e for e in ss}
            last = ss[-1] if ss else None
            if ex == NONE:
                rf = fieldsof(res, o.st)
                c.oblige(rf is not None and [e[1] for e in ss] == ["parse", "fetch", "states", "capture", "read", "filter", "filtered"] and rf["values"] == Sym("filtered") and rf["xl_ref"] == x2,
                         "each lassoing runs all its stages", sub, "the second ran %s and returned %s" % ([e[1] for e in ss], show(res, o.st)), path=path_of(o))
                continue
            pf = fieldsof(pub, o.st)
            if pf is None or last is None:
                c.bad("the last completed stage is published", sub, "published %s" % show(pub, o.st), path=path_of(o))
                continue
            want = lambda f, p: kw.get(f, p)
            if last[1] == "parse":
                exp = {f: kw.get(f, NONE) for f in pf if f != "opts"}
            else:
                exp = {"xl_ref": x2, "st_edge": Sym("p_st"), "nd_edge": kw.get("nd_edge", NONE), "url_file": kw.get("url_file", NONE),
                       "sheet": kw.get("sheet", NONE) if last[1] == "fetch" else Sym("sheet"), "base_coords": kw.get("base_coords", NONE)}
                if last[1] in ("fetch", "states", "capture"):
                    exp["st"] = exp["nd"] = exp["values"] = NONE
            wrong = {f: show(pf[f], o.st) for f, v in exp.items() if pf[f] != v}
            c.oblige(not wrong, "the published lasso is of the last lassoing", sub, "at the failure of %s it has %s" % (last[1], wrong), path=path_of(o))


@check("X11", "Outcome analysis of Ranger.do_lasso over the abstract paths where the states-matrix or the capture fail in any way, with the option no_empty unknown, set or unset, in the base or the parsed options",
       "Any edges; both kinds of failures from reading the states and from capturing; messages checked to contain each of the xl-ref's edges.")
def x11(c):
    def bo(val):
        return lambda st: st.alloc(DictO(((Const("no_empty"), val),) if val is not None else ()))
    fails = ("EmptyCaptureException", "ValueError", "IndexError", "TypeError", "AttributeError")
    for bname, bval in (("absent", None), ("true", TRUE), ("false", FALSE)):
        for pname, pval in (("absent", None), ("true", TRUE), ("false", FALSE)):
            no_empty = pval if pval is not None else bval
            no_empty = no_empty == TRUE
            for at in ("states", "caps"):
                kw = {at: fails}
                w = World(c, opts=bo(pval) if pval is not None else None, spec=False, **kw)
                for o in run_do(c, w, base_opts=bo(bval), label="do_lasso"):
                    u = unpack(o)
                    if u is None:
                        c.bad("a client gets the result or an exception", "do_lasso", "unexpected %r" % o, path=path_of(o))
                        continue
                    res, ex, pub = u
                    k = ([e[2] for e in stages(o) if e[1] in ("states", "capture")] or [stages(o)])[-1]
                    sub = "no_empty base=%s xl-ref=%s, %s from %s" % (bname, pname, k, at)
                    t = o.it.types(ex, o.st)
                    if k == "EmptyCaptureException" and not no_empty:
                        rf = fieldsof(res, o.st)
                        c.oblige(ex == NONE and rf is not None and empty_list(rf["values"], o.st) and rf["st"] == NONE and rf["nd"] == NONE, "an empty capture gives an empty list", sub,
                                 "gave %s, %s" % (show(res, o.st), show(ex, o.st)), path=path_of(o))
                    elif k == "EmptyCaptureException":
                        c.oblige(t == frozenset(["EmptyCaptureException"]), "a forbidden empty capture propagates", sub, "gave %s, %s" % (show(res, o.st), show(ex, o.st)), path=path_of(o))
                    else:
                        c.oblige(t is not None and t == frozenset(["ValueError"]), "any other failure of capturing is a value error", sub, "gave %s, %s" % (show(res, o.st), sorted(t) if t else t), path=path_of(o))
    # what was captured, wherever it lies, is no empty capture
    for cap in ("at00", "at0000", "at01", "at10", "at12", "at0012", "at1122"):
        for bname, bval in (("absent", None), ("true", TRUE), ("false", FALSE)):
            w = World(c, caps=(cap,), spec=False)
            for o in run_do(c, w, base_opts=bo(bval), label="do_lasso"):
                u = unpack(o)
                rf = fieldsof(u[0], o.st) if u else None
                sub = "no_empty %s, captured %s" % (bname, " to ".join("R%sC%s" % (cap[i], cap[i + 1]) for i in range(2, len(cap), 2)))
                pos = [Tup((Const(int(cap[i])), Const(int(cap[i + 1])))) for i in range(2, len(cap), 2)] + [NONE]
                c.oblige(rf is not None and u[1] == NONE and rf["values"] == Sym("values") and [rf["st"].items, rf["nd"] == NONE or rf["nd"].items] == [pos[0].items, pos[1] == NONE or pos[1].items],
                         "a capture that is not empty gives its values", sub, "gave %r" % o, path=path_of(o))
    # the messages, on real references
    for ref, words in (("#R.C1", ("R.C1",)), ("#R.C1:B3", ("B3",)), ("#B3(RD):A7(L+):LURD", ("B3", "A7", "LURD")), ("#A1:..:L1U?", ("A1", "..", "L1U?")), ("#B2", ("B2",)), ("#:", ("^^", "__"))):
        w = World(c, caps=("ValueError", "KeyError"), spec=False)
        cfg = w.config()
        del cfg["stubs"]["parse_xlref"]
        fn = c.fn(ENV, "do_lasso")
        st = c.state()
        for o in c.run(fn, (Sym("factory", "Factory_", "nonempty"), st.alloc(DictO()), st.alloc(DictO()), Const(ref), st.alloc(DictO())), st=st, label="do_lasso(%s)" % ref, **cfg):
            u = unpack(o)
            sub = "do_lasso(%r) failing to capture" % ref
            t = u and o.it.types(u[1], o.st)
            c.oblige(bool(u) and t == frozenset(["ValueError"]), "any other failure of capturing is a value error", sub, "gave %r" % o, path=path_of(o))
            if t == frozenset(["ValueError"]):
                said = texts_and_cells(u[1], o.st)
                for x in words:
                    c.oblige(any(x in y for y in said), "the value error names the edges", sub, "the error says %s, without %r" % (sorted(said), x), path=path_of(o))


def texts_and_cells(v, st):
    """Constant texts an exception is made of; the cells in it by their usual text."""
    out, todo, n = set(), [v], 0
    while todo and n < 500:
        x = todo.pop()
        n += 1
        if isinstance(x, Const):
            out.add(str(x.v))
        elif isinstance(x, Str):
            out |= {p for p in x.parts if isinstance(p, str)}
            todo += [p for p in x.parts if isinstance(p, Val)]
        elif isinstance(x, App):
            todo += [a for a in x.args if isinstance(a, Val)] + [b for a in x.args if isinstance(a, tuple) for b in a if isinstance(b, Val)]
        elif isinstance(x, Tup):
            if x.cls is not None and x.cls.name == "Cell" and all(isinstance(y, Const) and isinstance(y.v, str) for y in x.items[:2]):
                r, k = (y.v for y in x.items[:2])
                out |= {k + r, "R%sC%s" % (r, k)}
            todo += list(x.items)
        elif isinstance(x, Ref) and x.oid in st.heap:
            h = st.heap[x.oid]
            if isinstance(h, InstO):
                todo.append(Ref(h.dict))
            elif isinstance(h, DictO):
                todo += [y for kv in h.items for y in kv]
            elif isinstance(h, ListO):
                todo += list(h.items)
    return out


@check("X12", "Provenance and write-effect analysis over two lassoings of one ranger (and of the one-call lasso) with a filter that changes every option it sees: where each option read comes from, and who else sees the changes",
       "Any option values, parsed or base, one of them nested; options read while filtering through the lasso given to the filter.")
def x12(c):
    c.fn(ENV, "twice")
    O = Sym("p_read_od", "int")
    parsed = {"none": None,
              "lax": lambda s: s.alloc(DictO(((Const("lax"), Sym("p_lax", "str", "nonempty")),))),
              "new": lambda s: s.alloc(DictO(((Const("new"), Sym("p_new", "str", "nonempty")),))),
              "empty": lambda s: s.alloc(DictO()), "text": None, "plain": None}
    texts = {"text": Const('#A1:{"func": "f", "opts": {"lax": "p"}}'), "plain": Const('#A1:["f"]')}

    def base(st):
        return st.alloc(DictO(((Const("lax"), Sym("b_lax", "str", "nonempty")), (Const("keep"), Sym("b_keep", "str", "nonempty")),
                               (Const("read"), st.alloc(DictO(((Const("on_demand"), Sym("b_od", "str", "nonempty")),)))))))

    def saw(it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("stage", "opts", "seen", args, None)
        yield s, NONE
    refs = (Sym("xlref1", "str", "nonempty"), Sym("xlref2", "str", "nonempty"))
    for p1 in parsed:
        for p2 in parsed:
            if (p1 in texts) != (p2 in texts):
                continue
            for client in ("twice", "twice_given", "twice_default"):
                w = World(c, spec=True)
                cfg = w.config()

                def parse(it, st, args, kwargs, ctx, node, w=w, p1=p1, p2=p2):
                    w.opts = parsed[p1 if args[0] == refs[0] else p2]
                    yield from w.p_parse(it, st, args, kwargs, ctx, node)
                cfg["stubs"].update({"parse_xlref": parse, "oracle.opts": saw})
                if p1 in texts:         # the same texts, truly parsed each time
                    del cfg["stubs"]["parse_xlref"]
                st = c.state()
                fd = filters_dict(c, st, "f", "mutator")
                bo = base(st)
                freeze(bo, st, "base options")
                fac = Sym("factory", "Factory_", "nonempty")
                rs = (texts[p1], texts[p2]) if p1 in texts else refs
                args = (fac, fd) + rs if client == "twice_default" else (fac, bo, fd) + rs
                n = 0
                for o in c.run(c.fn(ENV, client), args, st=st, label=client, **cfg):
                    n += 1
                    sub = "%s: options %s, then %s" % (client, p1, p2)
                    if o.raised:
                        c.bad("options never fail a lassoing", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 9), path=path_of(o))
                        continue
                    seen = [e[3] for e in o.events if e[:2] == ("stage", "opts")]
                    if len(seen) != 2:
                        c.bad("filters run once per lassoing", sub, "options seen %d times" % len(seen), path=path_of(o))
                        continue
                    for i, p in enumerate((p1, p2)):
                        b = {"lax": Sym("b_lax"), "keep": Sym("b_keep"), "od": Sym("b_od")}
                        if client == "twice_default":
                            b = {"lax": FALSE, "keep": NONE, "od": TRUE}
                        exp = (Sym("p_lax") if p == "lax" else Const("p") if p == "text" else b["lax"], b["keep"], b["od"], Sym("p_new") if p == "new" else NONE, NONE)
                        for nm, got, want in zip(("lax", "keep", "read.on_demand", "new", "added"), seen[i], exp):
                            rule = "parsed options take effect, the others keep their base value" if i == 0 else "no lassoing sees the options, or their changes, of an earlier one"
                            c.oblige(got == want, rule, sub + "; option " + nm, "%s-lassoing saw %s, expected %s" % (("1st", "2nd")[i], show(got, o.st), show(want, o.st)), path=path_of(o))
                    ws = [e for e in o.writes() if str(e[7]).startswith("input:base") or str(e[7]).startswith("shared:")]
                    c.oblige(not ws, "the base options and the defaults are left alone", sub, "writes to them: %s" % [(show(e[1], o.st), e[5]) for e in ws][:3], ws[0][5] if ws else None, path_of(o))
                if not n:
                    c.undecided(client, "no path")


def logged(o, *levels):
    return [e for e in o.events if e[0] == "log" and e[1] in levels]


@check("X13", "Outcome, effect and provenance analysis over the abstract paths of Ranger.make_call with a filter that returns or raises anything, the lax flag coming from keywords or options",
       "Filters with or without docstring or description, unknown filters, verbose or not; any arguments.")
def x13(c):
    c.fn(ENV, "make_call")
    from .pandel import mentions
    outs = ("lasso", "value", "none", "ValueError", "KeyError", "SyntaxError", "AssertionError")
    B = {"absent": None, "true": TRUE, "false": FALSE}
    for verbose in B:
        for ol in B:
            for kl in B:
                for fn in ("spy", "nodoc", "unknown"):
                    w = World(c, filters=outs)
                    cfg = w.config()
                    cfg["raises"] = "none"
                    st = c.state()
                    fd = filters_dict(c, st, "f", fn if fn != "unknown" else "spy")
                    lasso_opts = [(Const(k), B[v]) for k, v in (("verbose", verbose), ("lax", ol)) if B[v] is not None]
                    opts = st.alloc(DictO(lasso_opts))
                    args = st.alloc(ListO((Sym("arg0", "int"),)))
                    kwds = st.alloc(DictO((((Const("lax"), B[kl]),) if B[kl] is not None else ()) + ((Const("kw0"), Sym("kwv0", "int")),)))
                    for x, l in ((opts, "options"), (args, "call-spec args"), (kwds, "call-spec kwds")):
                        freeze(x, st, l)
                    name = "f" if fn != "unknown" else "nofilter"
                    lax = (B[kl] if B[kl] is not None else B[ol]) == TRUE
                    n = 0
                    for o in c.run(c.fn(ENV, "make_call"), (Sym("factory", "Factory_", "nonempty"), fd, opts, Const(name), args, kwds), st=st, label="make_call", **cfg):
                        n += 1
                        calls = [e for e in stages(o) if e[1] == "filter"]
                        rets = [e for e in stages(o) if e[1] == "filtered"]
                        k = rets[0][2] if rets else "unknown" if fn == "unknown" else "?"
                        sub = "%s filter giving %s; lax in options: %s, in keywords: %s; verbose: %s" % (fn, k, ol, kl, verbose)
                        if fn != "unknown":
                            c.oblige(len(calls) == 1, "the filter is called once", sub, "called %d times" % len(calls), path=path_of(o))
                            for e in calls:
                                kd = o.st.heap.get(e[3][3].oid) if isinstance(e[3][3], Ref) else None
                                if kd is None:
                                    c.undecided(sub, "keywords of the filter unknown")
                                    continue
                                c.oblige(kd.items == ((Const("kw0"), Sym("kwv0")),), "the filter gets its own keywords, without lax", sub, "keywords were %s" % show(e[3][3], o.st), path=path_of(o))
                                c.oblige(e[3][2] == Tup((Sym("arg0"),)), "the filter gets its own arguments", sub, "arguments were %s" % show(e[3][2], o.st), path=path_of(o))
                        else:
                            c.oblige(not calls, "unknown filters run nothing", sub, "called", path=path_of(o))
                        ws = [e for e in o.writes() if str(e[7]).startswith("input:call-spec") or str(e[7]) == "input:options"]
                        c.oblige(not ws, "the call-specifier and the options of the caller are left alone", sub, "written at %s" % [e[5] for e in ws], ws[0][5] if ws else None, path_of(o))
                        f = fieldsof(o.val, o.st) if not o.raised else None
                        if k == "lasso":
                            c.oblige(f is not None and f["values"] == Sym("filtered"), "the filter's lasso is returned", sub, "gave %r" % o, path=path_of(o))
                        elif lax:
                            c.oblige(f is not None and f["values"] == Ext("oracle.values") and f["xl_ref"] == Ext("oracle.xlref"), "when lax, a failure keeps the lasso from before the filter", sub, "gave %r" % o, path=path_of(o))
                            c.oblige(bool(logged(o, "warning", "warn")), "when lax, a failure is logged as a warning", sub, "nothing logged", path=path_of(o))
                        else:
                            t = o.exc_names()
                            c.oblige(o.raised and t == frozenset(["ValueError"]), "a failure is a value error unless lax", sub, "gave %r" % o, path=path_of(o))
                            if o.raised and t == frozenset(["ValueError"]):
                                c.oblige(mentions(o.val, o.st, name), "the value error names the filter", sub, "the error does not mention %r" % name, path=path_of(o))
                    if not n:
                        c.undecided("make_call", "no path")


@check("X15", "Typestate analysis of the sheet-factory over the abstract paths of the one-call lasso: who created it, and how many times it is closed on every exit",
       "Parsing, fetching, capturing, reading and closing succeeding or raising; factory given, falsy or not given.")
def x15(c):
    c.fn(ENV, "one_call")
    errs = ("ok", "ValueError", "KeyError")
    for given in ("given", "none"):
        for ret in (TRUE, FALSE):
            w = World(c, parse=("ok", "SyntaxError", "KeyError"), fetch=errs, states=("ok", "EmptyCaptureException"), caps=("rect", "ValueError"), reads=errs, spec=False)
            cfg = w.config()

            def mk(it, st, args, kwargs, ctx, node):
                s, r = it.raise_new(st, "KeyError", (Const("boom"),))
                s.event("stage", "making", "KeyError", (), None)
                yield s, r
                s = st.fork()
                v = Sym("factory%d" % s.fresh(), "Factory_", "nonempty")
                s.event("stage", "made", "ok", (v,), None)
                yield s, v

            def close(it, obj, st, args, kwargs, ctx, node):
                s = st.fork()
                s.event("stage", "closed", "ok", (obj,), None)
                return iter([(s, NONE)])

            def exit_(it, obj, st, args, kwargs, ctx, node):
                return close(it, obj, st, args, kwargs, ctx, node)

            def enter(it, obj, st, args, kwargs, ctx, node):
                return iter([(st, obj)])
            cfg["stubs"]["SheetsFactory"] = mk
            cfg["mstubs"].update({"close": close, "__exit__": exit_, "__enter__": enter})
            fac = Sym("mine", "Factory_", "nonempty") if given == "given" else NONE
            st = c.state()
            for badref in (False, True):
                ref = Sym("xlref", "str", "nonempty") if not badref else Sym("xlref", "int")
                for o in c.run(c.fn(ENV, "one_call"), (ref, fac, ret), st=st, label="lasso()", **cfg):
                    ss = stages(o)
                    made = [e[3][0] for e in ss if e[1] == "made"]
                    closed = [e[3][0] for e in ss if e[1] == "closed"]
                    sub = "lasso() with factory %s, ending after %s" % (given, [e[1] + ":" + e[2] for e in ss if e[1] not in ("closed", "made")][-1:])
                    if given == "given":
                        c.oblige(not closed, "a given factory is never closed", sub, "closed %s" % show(Tup(closed)), path=path_of(o))
                        c.oblige(not made, "no factory is made when one is given", sub, "made one", path=path_of(o))
                    elif [e for e in ss if e[1] == "making"]:
                        c.oblige(o.raised and o.exc_names() == frozenset(["KeyError"]), "a factory that cannot be made is reported", sub, "ended with %r" % o, path=path_of(o))
                    else:
                        c.oblige(len(made) == 1 and closed == made, "the factory made is closed exactly once, on every exit", sub, "made %d, closed %d times" % (len(made), len(closed)), path=path_of(o))
                        last = [e[1] for e in ss][-1:]
                        c.oblige(last == ["closed"], "the factory is closed last", sub, "stages were %s" % [e[1] for e in ss], path=path_of(o))
                    for e in ss:
                        if e[1] == "read":
                            c.ok("values are read before closing", sub)
                    if not o.raised and [e for e in ss if e[1] == "read"]:
                        f = fieldsof(o.val, o.st)
                        c.oblige((f is not None and f["values"] == Sym("values")) if ret == TRUE else o.val == Sym("values"), "the values or the lasso are returned, as asked", sub, "returned %r" % o, path=path_of(o))
