"""Pandel: building models (D01-D05)."""
from ..harness import *

PD = "pandalone.pandata"
ENV = "envm_pandel"


def cfg_pandel(outcomes, mains=None, log=True):
    """Config of a build whose validators give any of `outcomes` (each: (number of errors, exception or None))."""

    def schema(it, st, args, kwargs, ctx, node):
        v = args[0] if args else dict(kwargs)["is_prevalidation"]
        yield st, (Sym("schema_pre", "dict", "truthy") if v == TRUE else Sym("schema_main", "dict", "truthy"))

    def visitor(it, st, args, kwargs, ctx, node):
        kw = dict(kwargs)
        yield st, App("visitor", (args[0] if args else kw["schema"],) + tuple(App("kw_" + k, (v,)) for k, v in kwargs if k != "schema"), "Visitor_")

    def iter_errors(it, obj, st, args, kwargs, ctx, node):
        if not (isinstance(obj, App) and obj.op == "visitor"):
            return None

        def gen():
            pre = obj.args[0].name == "schema_pre"
            for n, ex in (outcomes if pre else mains or outcomes):
                s = st.fork()
                k = s.fresh()
                errs = tuple(App("valerr", (Const(k), Const(i)), "ValidationError") for i in range(n))
                exv = NONE
                if ex:
                    s, r = it.raise_new(s, ex, (Const("boom%d" % k),))
                    exv = r.exc
                s.event("stage", "prevalidate" if pre else "validate", args[0], Tup(errs), ex, exv)
                f = it.prog.func(ENV, "errors")
                yield from it.call(f, (Tup(errs), exv), (), s, ctx, node)
        return gen()
    return dict(stubs={"oracle.schema": schema, "PandelVisitor": visitor}, mstubs={"iter_errors": iter_errors}, raises="none", rec_k=6, loop_k=4, comp_k=4, max_states=400000)


def curator(name, excs):
    def f(it, st, args, kwargs, ctx, node):
        for ex in excs:
            s = st.fork()
            if ex:
                s, r = it.raise_new(s, ex, (Const("boom"),))
                s.event("stage", "curate", args[0], Tup(()), ex, r.exc)
                yield s, r
            else:
                s.event("stage", "curate", args[0], Tup(()), None, NONE)
                yield s, NONE
    return f


def mentions(v, st, word):
    """Does an exception value's text contain `word`: True/False, None if unknown."""
    txts = []
    todo = [v]
    seen = 0
    while todo and seen < 200:
        x = todo.pop()
        seen += 1
        if isinstance(x, Const):
            txts.append(str(x.v))
        elif isinstance(x, Str):
            txts += [p for p in x.parts if isinstance(p, str)]
            todo += [p for p in x.parts if isinstance(p, Val)]
        elif isinstance(x, App):
            todo += [a for a in x.args if isinstance(a, Val)]
        elif isinstance(x, Tup):
            todo += list(x.items)
        elif isinstance(x, Ref) and x.oid in st.heap:
            o = st.heap[x.oid]
            if isinstance(o, InstO):
                todo.append(Ref(o.dict))
            elif isinstance(o, DictO):
                todo += [y for kv in o.items for y in kv]
            elif isinstance(o, ListO):
                todo += list(o.items)
    return any(word.lower() in t.lower() for t in txts)


def exc_type(o, v):
    t = o.it.types(v, o.st)
    return t


def listed(o):
    h = o.st.heap.get(o.val.oid) if isinstance(o.val, Ref) else None
    if isinstance(h, ListO) and not h.open:
        return list(h.items)
    if isinstance(o.val, Tup):
        return list(o.val.items)
    return None


STAGES = ["prevalidate", "merge", "validate", "curate"]


@check("D01", "Typestate/order analysis over the abstract paths of Pandel.build_iter and build with an arbitrary validator and curate functions: event order, completeness and provenance of the errors yielded",
       "Zero to two submodels, validators giving 0-2 errors and/or an exception (validation or other, at once or after errors) in any stage, merges that fail, up to two curate functions.")
def d01(c):
    W = lambda n: Sym(n, "int")
    D = lambda st, items: st.alloc(DictO([(Const(k), v) for k, v in items], origin="input:submodels"))
    outs = [(0, None), (1, None), (2, None), (0, "ValidationError"), (1, "ValueError"), (0, "KeyError")]
    if c.thorough:
        outs += [(2, "ValidationError"), (0, "AttributeError"), (1, "RuntimeError")]

    def subs(st, kind):
        if kind == "none":
            return []
        if kind == "one":
            return [D(st, [("a", W("v1"))])]
        if kind == "two":
            return [D(st, [("a", W("v1"))]), D(st, [("a", W("v2"))])]
        if kind == "null":
            return [D(st, [("a", NONE), ("b", W("v1"))])]
        if kind == "nulls":
            return [D(st, [("a", NONE)]), D(st, [("a", NONE)])]
        if kind == "mixed":
            return [D(st, [("a", st.alloc(DictO([(Const("x"), W("v1"))])))]), D(st, [("a", W("v2"))])]
    n = 0
    mk, bi, b1, md, cause = (c.fn(ENV, x) for x in ("make", "build_iter", "build", "model", "cause"))
    for kind, again in (("none", 0), ("one", 0), ("two", 0), ("nulls", 0), ("mixed", 0), ("one", 1), ("null", 1)):
        for excs in (((None,),), ((None, "ValidationError"),), ((None, "ZeroDivisionError"), (None, "ValueError")))[:2 if again else 3]:
            few = [(0, None), (1, None), (0, "ValueError")]
            cfg = cfg_pandel(few if again else outs, [o for o in (few if again else outs) if kind != "two" or o[0] < 2])
            fs = []
            for i, e in enumerate(excs):
                cfg["stubs"]["oracle.cur%d" % i] = curator("cur%d" % i, e)
                fs.append(Ext("oracle.cur%d" % i))
            st = c.state()
            for o in c.run(mk, (Tup(fs), Tup(subs(st, kind))), st=st, label="Pandel()", **cfg):
                if o.raised:
                    c.bad("pandels construct", kind, "raises %s" % o.exc_names(), None, path_of(o))
                    continue
                for r in c.run(bi, (o.val,), st=o.st, label="build_iter", **cfg):
                    n += 1
                    judge_iter(c, r, kind, len(fs), cause)
                    if again and not r.raised:
                        for q in c.run(bi, (o.val,), st=r.st, label="build_iter again", **cfg):
                            n += 1
                            judge_iter(c, q, kind, len(fs), cause)
                for r in c.run(b1, (o.val,), st=o.st, label="build", **cfg):
                    n += 1
                    judge_build(c, r, o.val, md, cfg, kind)
    c.oblige(True if n else None, "builds followed", "Pandel", "none")


def expected(ev):
    """Expected errors of the stages reported by events: list of ('is', value) / ('wraps', stage), and the stage given up at."""
    want, gave = [], None
    for i, e in enumerate(ev):
        _, stage, arg, errs, ex, exv = e[:6]
        want += [("is", x) for x in errs.items]
        if ex == "ValidationError":
            want.append(("is", exv))
        elif ex:
            want.append(("wraps", stage, exv))
    return want


def holds(v, st, x, depth=4):
    """Is x among what v was made of?"""
    if v == x:
        return True
    if depth and isinstance(v, App):
        return any(holds(a, st, x, depth - 1) for a in v.args if isinstance(a, Val))
    if depth and isinstance(v, Tup):
        return any(holds(a, st, x, depth - 1) for a in v.items)
    o = st.heap.get(v.oid) if isinstance(v, Ref) else None
    if depth and isinstance(o, InstO):
        return holds(Ref(o.dict), st, x, depth - 1)
    if depth and isinstance(o, DictO):
        return any(holds(b, st, x, depth - 1) for _, b in o.items)
    return False


def judge_iter(c, r, kind, nf, cause):
    ev = [e for e in r.events if e[0] == "stage"]
    if r.raised:
        c.bad("errors are yielded", "build_iter", "%s escapes" % r.exc_names(), None, path_of(r))
        return
    got = listed(r)
    if got is None:
        c.undecided("errors of build_iter", show(r.val, r.st))
        return
    # order of the stages run
    seq = [e[1] for e in ev]
    order = [STAGES.index(s) for s in seq]
    c.oblige(order == sorted(order), "stages run in order", "build_iter", "stages run: %s" % seq, None, path_of(r))
    nsub = {"none": 0, "one": 1, "null": 1, "two": 2, "nulls": 2, "mixed": 2}[kind]
    failed = [s for s, e in zip(seq, ev) if e[3].items or e[4]]
    first = failed[0] if failed else None
    mergefail = kind in ("nulls", "mixed")
    if first is None and mergefail:
        first = "merge"
    elif first is not None and mergefail and STAGES.index(first) > 1:
        first = "merge"
    lim = STAGES.index(first) if first else 3
    late = [s for s in seq if STAGES.index(s) > lim]
    c.oblige(not late, "no stage after a failed one", "build_iter", "stage %s runs after %s failed" % (late[:1], first), None, path_of(r))
    # which stages ran completely
    for s, cnt in (("prevalidate", nsub), ("validate", 1), ("curate", nf)):
        k = seq.count(s)
        if STAGES.index(s) < lim:
            c.oblige(k == cnt, "every stage runs", s, "%s ran %d times instead of %d" % (s, k, cnt), None, path_of(r))
        elif s == first:
            aborted = any(e[4] for e in ev if e[1] == s)
            c.oblige(k <= cnt and (k == cnt or aborted), "every stage runs", s, "%s ran %d times instead of %d" % (s, k, cnt), None, path_of(r))
        elif first is None:
            c.oblige(k == cnt, "every stage runs", s, "%s ran %d times instead of %d" % (s, k, cnt), None, path_of(r))
    want = expected([e for e in ev if STAGES.index(e[1]) <= lim])
    if first == "merge":
        want.append(("is", None) if kind == "nulls" else ("wraps", "merge"))
    body, last = (got[:-1], got[-1] if got else None) if first else (got, None)
    if first:
        c.oblige(bool(got) and is_valerr(r, last) and mentions(last, r.st, "gave"), "giving up is reported", first, "the last error is %s" % (show(last, r.st) if got else "missing"), None, path_of(r))
    if len(body) != len(want):
        c.bad("every error is yielded", first or "no failure", "%s are yielded for %s" % ([show(x, r.st) for x in got], want), None, path_of(r))
        return
    for x, (k, y, *exv) in zip(body, want):
        if k == "is":
            ok = x == y if y is not None else is_valerr(r, x)
            c.oblige(ok, "every error is yielded", first, "%s is yielded instead of %s" % (show(x, r.st), show(y, r.st) if y is not None else "the merge error"), None, path_of(r))
        else:
            c.oblige(is_valerr(r, x) and mentions(x, r.st, y), "other exceptions are yielded as validation errors naming the stage", y, "%s is yielded" % show(x, r.st), None, path_of(r))
            if exv and is_valerr(r, x):
                for g in c.run(cause, (x,), st=r.st, label="cause", raises="none"):
                    c.oblige(g.val == exv[0], "other exceptions are the cause of their validation errors", y, "the cause of %s is %s" % (show(x, r.st), show(g.val, g.st)), None, path_of(r))


def is_valerr(r, x):
    t = r.it.types(x, r.st)
    return bool(t) and all(r.it.exc_isa(y, "ValidationError") for y in t)


def judge_build(c, r, m, md, cfg, kind):
    ev = [e for e in r.events if e[0] == "stage"]
    want = expected(ev)
    mergefail = kind in ("nulls", "mixed")
    fails = bool(want) or mergefail
    if not fails:
        c.oblige(not r.raised, "a build without errors succeeds", kind, "raises %s" % r.exc_names(), None, path_of(r))
        if not r.raised:
            for g in c.run(md, (m,), st=r.st, label="model", **cfg):
                c.oblige(g.val == r.val, "the model is returned", kind, "%s returned, the model is %s" % (show(r.val, r.st), show(g.val, g.st)), None, path_of(r))
        return
    c.oblige(r.raised, "a failed build raises", kind, "returns %s" % show(r.val, r.st), None, path_of(r))
    if r.raised:
        if want and want[0][0] == "is":
            c.oblige(r.val == want[0][1], "the first error is raised", kind, "%s is raised instead of %s" % (show(r.val, r.st), show(want[0][1], r.st)), None, path_of(r))
        else:
            c.oblige(r.raises("ValidationError"), "the first error is raised", kind, "%s is raised" % r.exc_names(), None, path_of(r))


# ------------------------------------------------------------------ D02, D03
class Tree(object):
    """Specification of an input value: kind + content."""

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val

    def __repr__(self):
        if self.kind == "dict":
            return "{%s}" % ", ".join("%s: %r" % kv for kv in self.val.items())
        if self.kind in ("list", "tuple"):
            return "%s%s" % ("" if self.kind == "list" else "tuple", list(self.val))
        return show(self.val)


def d_(**kw):
    return Tree("dict", kw)


def l_(*a):
    return Tree("list", a)


def t_(*a):
    return Tree("tuple", a)


def v_(name, ty="int"):
    return Tree("leaf", Sym(name, ty, "notnull"))


NULL = Tree("null", NONE)


def put(t, st, origin="input:submodels"):
    """Allocate a Tree."""
    if t.kind == "dict":
        return st.alloc(DictO([(Const(k), put(v, st, origin)) for k, v in t.val.items()], origin=origin))
    if t.kind == "list":
        return st.alloc(ListO([put(v, st, origin) for v in t.val], origin=origin))
    if t.kind == "tuple":
        return Tup([put(v, st, origin) for v in t.val])
    return t.val


def read(v, st):
    """Structure of a value: ('dict', {...}) | ('list', [...]) | leaf Val; None inside when unknown."""
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, DictO) and not o.open:
            return ("dict", {k.v if isinstance(k, Const) else k: read(x, st) for k, x in o.items})
        if isinstance(o, ListO) and not o.open:
            return ("list", [read(x, st) for x in o.items])
        return ("unknown", show(v, st))
    if isinstance(v, Tup):
        return ("list", [read(x, st) for x in v.items])
    return v


class Fails(Exception):
    pass


def plain(t):
    if t.kind == "dict":
        return ("dict", {k: plain(v) for k, v in t.val.items()})
    if t.kind in ("list", "tuple"):
        return ("list", [plain(v) for v in t.val])
    return t.val


def spec_merged(a, b):
    """Merged structure; raises Fails; a list of alternatives is not needed: mixed mapping/other may fail or replace (None)."""
    if a is None:
        return plain(b)
    if b is None:
        return plain(a)
    if a.kind == "dict" and b.kind == "dict":
        return ("dict", {k: spec_merged(a.val.get(k), b.val.get(k)) for k in list(a.val) + [k for k in b.val if k not in a.val]})
    if a.kind == "null" and b.kind == "null":
        raise Fails()
    if b.kind == "null":
        return plain(a)
    return plain(b)


def mixed(a, b):
    """Does merging meet a mapping against another non-null kind anywhere?"""
    if a is None or b is None or "null" in (a.kind, b.kind):
        return False
    if a.kind == "dict" and b.kind == "dict":
        return any(mixed(a.val.get(k), b.val.get(k)) for k in a.val)
    return "dict" in (a.kind, b.kind)


def nulls_in_lists(t):
    """Are there nulls directly in sequences? (a documented failure of merging sequences is not specified)"""
    if t is None:
        return False
    if t.kind == "dict":
        return any(nulls_in_lists(v) for v in t.val.values())
    if t.kind in ("list", "tuple"):
        return any(v.kind == "null" or nulls_in_lists(v) for v in t.val)
    return False


def cfg_plain():
    def validator(it, st, args, kwargs, ctx, node):
        yield st, App("visitor", (Sym("schema_main", "dict"),), "Visitor_")

    cfg = cfg_pandel([(0, None)])
    cfg["stubs"]["oracle.validator"] = validator
    return cfg


@check("D03", "Abstract interpretation of a build over pairs and triples of submodel trees with symbolic leaves; the unified model read back and compared with the documented merge function",
       "All pairs of value kinds (absent, null, number, text, boolean, mapping, list, tuple) at the top, under one and under two keys, and triples of the mapping/null/scalar ones.")
def d03(c):
    kinds1 = [None, NULL, v_("n1"), v_("s1", "str"), v_("b1", "bool"), d_(p=v_("n2"), q=v_("n3")), l_(v_("n4"), d_(p=v_("n5"))), t_(v_("n6")), d_(), l_()]
    kinds2 = [None, NULL, v_("m1"), v_("z1", "str"), v_("c1", "bool"), d_(p=v_("m2"), r=v_("m3")), l_(v_("m4"), v_("m7")), t_(v_("m6"), d_(r=v_("m5"))), d_(), l_()]
    cases = []
    for a in kinds1:
        for b in kinds2:
            for wrap in (1, 2):
                ta, tb = {"z": v_("w1")}, {"y": v_("w2")}
                if a is not None:
                    ta["k"] = a
                if b is not None:
                    tb["k"] = b
                A, B = Tree("dict", ta), Tree("dict", tb)
                if wrap == 2:
                    A, B = d_(deep=A, u=v_("w3")), d_(deep=B)
                cases.append([A, B])
    three = [None, NULL, v_("t1"), d_(p=v_("t2"), q=NULL), d_(q=v_("t3"))]
    for a in kinds1[1:6]:
        for b in kinds2[1:6]:
            for t in three:
                cases.append([d_(k=a), d_(k=b), d_(k=t) if t is not None else d_()])
    cases += [[d_(k=d_(k=d_(k=d_(a=v_("q1"), b=NULL)))), d_(k=d_(k=d_(k=d_(b=v_("q2"), c=v_("q3")))))], [d_(a=v_("q1"))], [], [d_(a=d_(b=l_(l_(v_("q1"))))), d_(a=d_(c=l_(l_(v_("q2")))))]]
    run_merges(c, cases, judge_merge)


def run_merges(c, cases, judge):
    mk, bi, md = (c.fn(ENV, x) for x in ("make_plain", "build_iter", "model"))
    cfg = cfg_plain()
    for case in cases:
        st = c.state()
        for o in c.run(mk, (Tup([put(t, st) for t in case]),), st=st, label="Pandel()", **cfg):
            if o.raised:
                c.bad("pandels construct", "add_submodel", "raises %s" % o.exc_names(), None, path_of(o))
                continue
            for r in c.run(bi, (o.val,), st=o.st, label="build %s" % case, **cfg):
                for g in c.run(md, (o.val,), st=r.st, label="model", **cfg):
                    judge(c, case, r, g)


def judge_merge(c, case, r, g):
    sub = "%s" % " + ".join(map(repr, case))
    errs = listed(r)
    if r.raised or errs is None:
        c.undecided(sub, "errors not known")
        return
    acc, fails, mix = None, False, False
    for t in case:
        try:
            if acc is None:
                new = t
            else:
                mix = mix or mixed(acc, t)
                spec_merged(acc, t)
                new = retree(acc, t)
            acc = new
        except Fails:
            fails = True
            break
    if fails:
        c.oblige(bool(errs) and is_valerr(r, errs[0]), "two nulls are a validation error", sub, "no error", None, path_of(r))
        return
    if case and any(nulls_in_lists(t) for t in case):
        return
    want = plain(acc) if acc is not None else NONE
    got = read(g.val, g.st)
    if mix and errs:
        c.ok("mixed kinds replace or fail", sub)
        return
    c.oblige(not errs, "mergeable submodels merge", sub, "errors %s" % [show(e, r.st) for e in errs], None, path_of(r))
    if errs:
        return
    c.oblige(got == want, "later submodels override", sub, "the model is %s" % show(g.val, g.st), None, path_of(r))


def retree(a, b):
    """The merged Tree."""
    if a is None:
        return b
    if b is None:
        return a
    if a.kind == "dict" and b.kind == "dict":
        return Tree("dict", {k: retree(a.val.get(k), b.val.get(k)) for k in list(a.val) + [k for k in b.val if k not in a.val]})
    if b.kind == "null":
        return a
    return b


@check("D02", "Ownership (write-effect and escape) analysis of a whole build by abstract interpretation: no store reaches a submodel, none is handed to a validator that fills defaults, none is reachable from the model",
       "One to three submodel trees with nested mappings, sequences and data-frames, in one or several of them, before and after each other; validation through the real PandelVisitor wiring.")
def d02(c):
    df, df2, se = Tree("leaf", Sym("df1", "DataFrame")), Tree("leaf", Sym("df2", "DataFrame")), Tree("leaf", Sym("se1", "Series"))
    x = lambda n: v_("n%d" % n)
    nest = lambda n: d_(p=d_(q=d_(r=x(n), w=l_(d_(s=x(n + 1), l=l_(x(n), d_())))), e=d_()))
    cases = [
        [nest(1)], [nest(1), d_()], [d_(), nest(1)], [nest(1), nest(11)], [nest(1), d_(p=d_(q=d_(r=x(9))))], [d_(p=d_(z=x(5))), nest(1)], [d_(a=l_(l_(d_(b=d_(c=x(1)))))), d_(z=d_())],
        [d_(a=l_(d_(b=d_(c=x(1))))), d_(a=NULL)], [d_(a=NULL), d_(a=l_(d_(b=d_(c=x(1)))))], [d_(a=t_(d_(b=x(1)), l_(x(2))))], [d_(a=d_(b=x(1))), d_(a=NULL), d_(a=d_(c=d_(d=l_(x(3)))))],
        [d_(a=x(1)), d_(a=l_(d_(b=l_(x(2)))))], [d_(a=l_(x(1))), d_(a=x(2)), d_(b=l_(l_(x(1))))],
        [d_(a=l_(x(1))), d_(a=l_(l_(d_(b=l_(x(2)))), l_(l_(x(3)))))], [d_(a=NULL), d_(a=l_(l_(d_(b=x(2))), d_(c=l_(l_(x(1))))))], [d_(a=x(1)), d_(a=t_(l_(x(2)), t_(l_(x(3)))))],
    ]
    pandas = [[d_(a=df)], [d_(a=d_(b=df)), d_(z=x(1))], [d_(a=l_(df))], [d_(a=se)], [d_(a=df), d_(a=NULL)], [d_(a=d_(b=se)), d_(a=d_(c=df))],
              [d_(a=l_(df)), d_(a=l_(df2))], [d_(a=l_(se)), d_(a=l_(se))], [d_(a=NULL), d_(a=df)], [d_(a=NULL), d_(a=se)], [d_(a=NULL), d_(a=l_(df, l_(se)))], [df], [se], [df, df2], [d_(a=df), d_(a=df2)],
              [d_(a=x(1)), d_(a=df)], [d_(a=d_(c=x(1))), d_(a=df)], [d_(a=df), d_(a=d_(c=l_(x(1))))], [d_(a=l_(l_(se))), d_(a=l_(l_(se)))]]
    for fam, kase in (("trees", cases), ("pandas", pandas)):
        for case in kase:
            d02_case(c, case, fam)


def d02_case(c, case, fam):
    handed = []

    def extend(it, st, args, kwargs, ctx, node):
        kw = dict(kwargs)
        rules = kw.get("validators", args[1] if len(args) > 1 else NONE)
        fills = None
        if isinstance(rules, Ref):
            o = st.heap[rules.oid]
            if isinstance(o, DictO) and not o.open:
                fills = any(k == Const("properties") for k, _ in o.items)
        yield st, Ext("oracle.vclass_%s" % fills)

    def make(fills):
        def f(it, st, args, kwargs, ctx, node):
            yield st, App("visitor", (Const(fills), args[0] if args else dict(kwargs)["schema"]), "Visitor_")
        return f

    def iter_errors(it, obj, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("validates", obj, args[0] if args else dict(kwargs)["instance"])
        return iter([(s, Tup(()))])

    cfg = cfg_pandel([(0, None)])
    cfg["stubs"].pop("PandelVisitor")
    cfg["stubs"]["jsonschema.validators.extend"] = extend
    for f in (True, False, None):
        cfg["stubs"]["oracle.vclass_%s" % f] = make(f)
    cfg["mstubs"]["iter_errors"] = iter_errors
    views = {}

    def pandas_type(ty):
        def f(it, st, args, kwargs, ctx, node):
            data = args[0] if args else dict(kwargs).get("data", NONE)
            copies = dict(kwargs).get("copy") == TRUE
            r = Sym("%s_%d" % (ty, st.fresh()), ty, "notnull")
            views[r] = set() if copies or not isinstance(data, Sym) else {data} | views.get(data, set())
            yield st, r
        return f

    def combine(it, obj, st, args, kwargs, ctx, node):
        if not isinstance(obj, Sym) or not obj.ty or not obj.ty <= {"DataFrame", "Series"}:
            return None
        r = Sym("%s_%d" % ("combined", st.fresh()), obj.ty, "notnull")
        views[r] = set()
        return iter([(st, r)])

    for ty in ("DataFrame", "Series"):
        cfg["stubs"]["pandas." + ty] = pandas_type(ty)
        cfg["stubs"]["pandas.core.%s.%s" % ("frame" if ty == "DataFrame" else "series", ty)] = cfg["stubs"]["pandas." + ty]
    cfg["mstubs"]["combine_first"] = cfg["mstubs"]["copy"] = combine
    cfg["rec_cut"] = True
    if fam == "pandas":
        cfg.update(rec_k=4, loop_k=2, comp_k=2, max_states=20000)

    def sharing(vals):
        """The input frames whose data these values hold."""
        return set(x for v in vals for x in {v} | views.get(v, set())) & leaves
    mk, bi, md = (c.fn(ENV, x) for x in ("make", "build_iter", "model"))
    st = c.state()
    sub = " + ".join(map(repr, case))
    inputs = [put(t, st) for t in case]
    mine = set(oid for v in inputs for oid in reachable(v, st))
    leaves = {Sym("df1"), Sym("df2"), Sym("se1")}
    for o in c.run(mk, (Tup([]), Tup(inputs)), st=st, label="Pandel()", **cfg):
        if o.raised:
            continue
        for r in c.run(bi, (o.val,), st=o.st, label="build %s" % sub, **cfg):
            n = 0
            for w in r.writes():
                if w[7] == "input:submodels" or sharing([w[1]]):
                    n += 1
                    c.bad("submodels are only read", "%s in %s" % (fam, w[6]), "a submodel of %s is written (%s)" % (sub, w[2]), w[5], path_of(r))
            if not n:
                c.ok("submodels are only read", sub)
            nv = 0
            for e in r.events:
                if e[0] != "validates":
                    continue
                nv += 1
                cl = find_term(e[1], "visitor")
                fills = cl.args[0].v if cl is not None else None
                if fills is False:
                    c.ok("validators filling defaults get no submodel", sub)
                    continue
                shared = reachable(e[2], r.st) & mine or sharing(vals_in(e[2], r.st))
                c.oblige(not shared if fills or not shared else None, "validators filling defaults get no submodel", fam, "part of a submodel of %s is validated in place" % sub, None, path_of(r))
            c.oblige(True if nv else None, "validations seen", sub, "no validation")
            for g in c.run(md, (o.val,), st=r.st, label="model", **cfg):
                shared = [show(Ref(x), g.st) for x in reachable(g.val, g.st) & mine] + [show(x) for x in sharing(vals_in(g.val, g.st))]
                c.oblige(not shared, "the model shares nothing with submodels", fam, "the model of %s shares %s" % (sub, shared), None, path_of(r))
                if fam == "pandas" and not any(mixed_pandas(a, b) for i, a in enumerate(case) for b in case[i + 1:]):
                    acc = None
                    for t in case:
                        acc = retree(acc, t)
                    for where, want, got in frames_in(acc, g.val, g.st):
                        same = None if got is None or (getattr(got, "ty", None) is None and not isinstance(got, (Ref, Const, Tup))) else getattr(got, "ty", None) == want.ty
                        c.oblige(same, "frames and series remain what they are", fam, "in the model of %s %s is %s" % (sub, where, show(got, g.st)), None, path_of(r))


def mixed_pandas(a, b):
    """Does merging meet a frame or series against anything other than null or its own type?"""
    if a is None or b is None or "null" in (a.kind, b.kind):
        return False
    if a.kind == "dict" and b.kind == "dict":
        return any(mixed_pandas(a.val.get(k), b.val.get(k)) for k in a.val)
    ty = lambda t: t.val.ty if t.kind == "leaf" and t.val.ty & {"DataFrame", "Series"} else None
    return ty(a) != ty(b)


def frames_in(t, v, st, where="model"):
    """(path, wanted leaf, what is there) for each frame and series of a tree."""
    if t is None or t.kind == "null":
        return
    if t.kind == "leaf":
        if t.val.ty & {"DataFrame", "Series"}:
            yield where, t.val, v
        return
    o = st.heap[v.oid] if isinstance(v, Ref) else None
    if t.kind == "dict":
        for k, x in t.val.items():
            yield from frames_in(x, dict(o.items).get(Const(k)) if isinstance(o, DictO) and not o.open else None, st, "%s/%s" % (where, k))
    else:
        for i, x in enumerate(t.val):
            yield from frames_in(x, o.items[i] if isinstance(o, ListO) and not o.open and i < len(o.items) else None, st, "%s/%d" % (where, i))


def find_term(v, op, depth=6):
    if isinstance(v, App) and v.op == op:
        return v
    if depth:
        for a in v.args if isinstance(v, App) else v.items if isinstance(v, Tup) else ():
            r = find_term(a, op, depth - 1) if isinstance(a, Val) else None
            if r is not None:
                return r
    return None


def vals_in(v, st):
    out = set([v])
    for x in reachable(v, st) | ({v.oid} if isinstance(v, Ref) else set()):
        o = st.heap[x]
        if isinstance(o, DictO):
            out |= set(b for _, b in o.items)
        elif isinstance(o, ListO):
            out |= set(o.items)
    return out
