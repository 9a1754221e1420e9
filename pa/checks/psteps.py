"""Path-steps (P01-P05)."""
from ..harness import *
from .mappings import MP, W, X, Y, Z, A, B, C, D, R1, R2, EMPTY, Re, text, tname, build, pure, spec_join, spec_build, spec_lookup, match_facts, completions, show

N1, N2 = W("new1"), W("new2")


def psteps(c):
    """Path-steps of every kind: (label, outcome, text, original name)."""
    cls = c.fn(MP, "Pstep")
    out = []
    forms = [("unchanged", X, None), ("renamed", X, A), ("relocated", X, mkstr([A, "/", B])), ("relocated", X, mkstr(["../", A])), ("relocated", X, mkstr(["/", A])),
             ("unchanged, with slash", mkstr([X, "/", Y]), None), ("renamed to empty", X, EMPTY), ("root", None, None), ("renamed to itself", X, X), ("renamed root", None, A),
             ("relocated root", None, mkstr([A, "/", B]))]
    for label, name, alias in forms:
        for o in c.run(cls, (NONE if name is None else name,), {"alias": NONE if alias is None else alias}, st=c.state(), label="Pstep()", **pure()):
            if not o.raised:
                orig = EMPTY if name is None else name
                out.append((label, o, orig if alias is None else alias, orig))
        if alias is not None and name is not None:
            for st, root in build(c, [([X], alias)], label):
                for o in c.run(cls, (X,), {"maps": root}, st=st, label="Pstep(maps)", **pure()):
                    if not o.raised and alias != EMPTY:
                        out.append((label + " by mapping", o, alias, X))
    # renamed by assignment
    for o in c.run(cls, (X,), st=c.state(), label="Pstep()", **pure()):
        for alias in (A, mkstr([A, "/", B]), Const("a")):
            for o1 in c.op("set", o.st, o.val, "a", (alias,), **pure()):
                for o2 in c.op("get", o1.st, o.val, "a", **pure()):
                    if not o2.raised:
                        out.append(("assigned %s" % show(alias), o2, alias, Const("a")))
    return out


def lock_of(c, o, v):
    for r in c.op("get", o.st, v, "_locked", label="_locked", **pure()):
        return None if r.raised else r.val
    return None


@check("P01", "Abstract interpretation of the lock setter and its shortcuts for symbolic step names: decision table of (name kind, level) to outcome, and the lock read back after a failure",
       "Names are symbolic; all name kinds (unchanged, renamed, relocated; by argument, mapping, assignment) times lock levels -1..4, from every earlier lock state.")
def p01(c):
    n = 0
    for label, o, txt, orig in psteps(c):
        c.oblige(o.o_eq(txt), "step text", label, "the path-step reads %s instead of %s" % (show(o.val, o.st), show(txt)), None, path_of(o))
        slash = "/" in "".join(p for p in (txt.parts if isinstance(txt, Str) else (txt.v,) if isinstance(txt, Const) else ()) if isinstance(p, str))
        for prior in (None, 3, 1, 0):
            starts = [o] if prior is None else [r for r in c.op("set", o.st, o.val, "_locked", (Const(prior),), label="_locked", **pure()) if not r.raised]
            for s0 in starts:
                before = lock_of(c, s0, o.val)
                for lvl in (-1, 0, 1, 2, 3, 4, "_fix", "_lock"):
                    if isinstance(lvl, str):
                        outs = c.op("get", s0.st, o.val, lvl, label=lvl, **pure())
                        level = 1 if lvl == "_fix" else 0
                    else:
                        outs = c.op("set", s0.st, o.val, "_locked", (Const(lvl),), label="_locked", **pure())
                        level = lvl
                    fails = txt != orig and (level < 1 or level < 3 and slash)
                    for r in outs:
                        n += 1
                        sub = "%s at level %s" % (label, lvl)
                        after = lock_of(c, r, o.val)
                        if fails:
                            c.oblige(r.raised and r.raises("ValueError"), "lock refused", sub, "locking succeeds" if not r.raised else "raises %s" % r.exc_names(), None, path_of(r))
                            c.oblige(after == before if after is not None else None, "a failing lock leaves the old one", sub, "lock is %s, was %s" % (show(after), show(before)), None, path_of(r))
                        else:
                            c.oblige(not r.raised, "lock accepted", sub, "raises %s" % r.exc_names(), None, path_of(r))
                            if not r.raised:
                                c.oblige(after == Const(level) if isinstance(after, Const) else None, "lock recorded", sub, "lock reads %s" % show(after), None, path_of(r))
                                if isinstance(lvl, str):
                                    c.oblige(r.val == o.val, "shortcuts return the step", sub, "%s gives %s" % (lvl, show(r.val, r.st)), None, path_of(r))
    c.oblige(True if n else None, "locks tried", "Pstep", "no path-step could be made")


# ------------------------------------------------------------------ P02
def own_parts(v, st):
    """Objects a path-step owns: its attributes dictionary, containers directly in it, its mapping; not its children."""
    out = set()
    o = st.heap[v.oid]
    todo = [Ref(o.dict)]
    while todo:
        x = todo.pop()
        if not isinstance(x, Ref) or x.oid in out or x == v:
            continue
        h = st.heap[x.oid]
        if isinstance(h, InstO):
            if getattr(h.cls, "name", None) == "Pstep":
                continue
            if getattr(h.cls, "name", None) == "Pmod":
                out |= reachable(x, st)
                continue
            if getattr(h.cls, "name", None) == "JSchema":
                continue
        if isinstance(h, (DictO, ListO)):
            out.add(x.oid)
            if isinstance(h, DictO):
                for k, y in h.items:
                    todo.append(y)
            else:
                todo += list(h.items)
            if getattr(h, "base", None) is not None:
                todo.append(h.base)
        elif isinstance(h, CopyO):
            out.add(x.oid)
    return out


EDITS = [("new child", "get", "newchild", ()), ("rename a child", "set", "a", ("str",)), ("rename a new child", "set", "b2", ("str",)), ("assign a step to a child", "set", "a", ("self",)),
         ("assign a step to a new child", "set", "c3", ("self",)), ("tag", "call", "_tag", (Const("t9"), Const("t8"))), ("untag", "call", "_tag_remove", (Const("t1"),)),
         ("lock", "get", "_fix", ()), ("set a private attribute", "set", "_other", ("str",)), ("list paths", "call", "_paths", ()), ("map tuples", "call", "_derrive_map_tuples", ()),
         ("grandchild", "sub", "a", ())]


def edit(c, o, v, e):
    label, kind, name, args = e
    if kind == "set":
        return c.op("set", o.st, v, name, (EMPTY if args[0] == "empty" else N1 if args[0] == "str" else v,), label=label, **pure())
    if kind == "deep":
        return [q for r in c.op("get", o.st, v, name, label=label, **pure()) if not r.raised for g in c.op("get", r.st, r.val, "deep", label=label, **pure()) if not g.raised
                for q in c.op("call", g.st, r.val, "_tag", (Const("t2"),), label=label, **pure())]
    if kind == "sub":
        out = []
        for r in c.op("get", o.st, v, name, label=label, **pure()):
            if not r.raised and r.st.heap.get(getattr(r.val, "oid", None)) is not None:
                out.append(r)
        return out
    return c.op(kind, o.st, v, name, args, label=label, **pure())


def originals(c):
    cls = c.fn(MP, "Pstep")
    preps = [(), ("tag",), ("kids",), ("tag", "kids"), ("tag", "untag"), ("rename",), ("kids", "rename"), ("tag", "kids", "rename"), ("kids", "deep", "empty"), ("tag", "deep", "emptied")]
    act = {"tag": ("tag", "call", "_tag", (Const("t1"),)), "kids": ("kid", "get", "a", ()), "rename": ("rename", "set", "b", ("str",)), "untag": ("untag", "call", "_tag_remove", (Const("t1"),)),
           "deep": ("grandchild", "deep", "a", ()), "empty": ("empty a child", "set", "a", ("empty",)), "emptied": ("empty a renamed child", "set", "a", ("empty",))}
    fams = [None, [([X], A), ([X, Const("a")], B), ([X, Re(R1)], C)]]
    for fam in fams:
        if fam is None:
            roots = [(c.state(), NONE)]
        else:
            roots = build(c, fam, tname(fam))
        for st, root in roots:
            for o in c.run(cls, (X,), {"maps": root}, st=st, label="Pstep()", **pure()):
                if o.raised:
                    continue
                for prep in preps:
                    outs = [o]
                    for p in prep:
                        outs = [Outcome(r.st, o.val, False, r.events, r.it) for q in outs for r in edit(c, q, o.val, act[p]) if not r.raised]
                    for q in outs:
                        yield "%s%s" % ("+".join(prep) or "plain", ", mapped" if fam else ""), q


@check("P02", "Ownership (write-effect with object origin) analysis by abstract interpretation: no store of an edit of one copy reaches a container owned by the other",
       "Originals with/without tags, children, renames and mappings; copies by construction, by assignment to another, the same and its own child; all edits (quick: single, thorough: pairs) of either side.")
def p02(c):
    cls = c.fn(MP, "Pstep")
    for label, o in originals(c):
        copies = []
        for r in c.run(cls, (Y,), {"maps": o.val}, st=o.st, label="Pstep(copy)", **pure()):
            if not r.raised:
                copies.append(("constructed", r, r.val))
        for p in c.run(cls, (Z,), st=o.st, label="Pstep()", **pure()):
            for pre in ((), ("q",)):
                outs = [p]
                for k in pre:
                    outs = [Outcome(r.st, p.val, False, r.events, r.it) for q in outs for r in c.op("get", q.st, p.val, k, **pure())]
                for q in outs:
                    for r in c.op("set", q.st, p.val, "q", (o.val,), label="assign", **pure()):
                        for g in c.op("get", r.st, p.val, "q", **pure()):
                            if not g.raised and isinstance(g.val, Ref):
                                copies.append(("assigned", g, g.val))
        for r in c.op("set", o.st, o.val, "selfy", (o.val,), label="assign", **pure()):
            for g in c.op("get", r.st, o.val, "selfy", **pure()):
                if not g.raised and isinstance(g.val, Ref):
                    copies.append(("assigned to itself", g, g.val))
        for how, r, cp in copies:
            c.oblige(cp != o.val, "a copy is another object", how, "the same object", None, path_of(r))
            for side, edited, other in (("copy", cp, o.val), ("original", o.val, cp)):
                st = r.st.fork()
                for oid in own_parts(other, st):
                    st.heap[oid] = st.heap[oid].repl(origin="input:other")
                hist = [Outcome(st, edited, False, (), r.it)]
                for depth in range(2 if c.thorough else 1):
                    nxt = []
                    for h in hist:
                        for e in EDITS:
                            for x in edit(c, h, edited, e):
                                n = 0
                                for w in x.writes():
                                    if w[7] == "input:other":
                                        n += 1
                                        c.bad("edits stay on their side", "%s of the %s (%s)" % (e[0], side, how), "%s of the %s writes %s of the other in %s (%s)" % (
                                            e[0], side, show(w[3], x.st) if isinstance(w[3], Val) else w[2], w[6], label), w[5], path_of(x))
                                if not n:
                                    c.ok("edits stay on their side", "%s of the %s (%s)" % (e[0], side, how))
                                if not x.raised:
                                    nxt.append(Outcome(x.st, edited, False, x.events, x.it))
                    hist = nxt


# ------------------------------------------------------------------ P03
def keys_of(c, o, v):
    """Names of a path-step's children, in order; None when not known."""
    for r in c.op("call", o.st, v, "_steps", (TRUE,), label="_steps", **pure()):
        if r.raised:
            return None
        for l in c.run(Ext("builtins.list"), (r.val,), st=r.st, label="list", **pure()):
            h = l.st.heap.get(l.val.oid) if isinstance(l.val, Ref) else None
            if isinstance(h, ListO) and not h.open:
                return tuple(h.items)
    return None


def kids_of(c, o, v):
    """Children of a path-step by name; None when not known."""
    names = keys_of(c, o, v)
    for r in c.op("call", o.st, v, "_steps", (), label="_steps", **pure()):
        if r.raised or names is None:
            return None
        for l in c.run(Ext("builtins.list"), (r.val,), st=r.st, label="list", **pure()):
            h = l.st.heap.get(l.val.oid) if isinstance(l.val, Ref) else None
            if isinstance(h, ListO) and not h.open and len(h.items) == len(names):
                return dict(zip(names, h.items))
    return None


def tags_of(c, o, v):
    """Tags of a path-step; None when not known."""
    for r in c.op("get", o.st, v, "_tags", **pure()):
        if r.raised:
            return None
        if isinstance(r.val, Tup):
            return tuple(r.val.items)
        h = r.st.heap.get(r.val.oid) if isinstance(r.val, Ref) else None
        if isinstance(h, ListO) and not h.open:
            return tuple(h.items)
    return None


PRIVATE = ["_foo", "_", "__bar", "__array__", "__array_interface__", "_ipython_display_", "__deepcopy__", "_x1", "___", "get_values", "Series"]
NAMES = ["foo", "a", "a1", "get", "values", "series", "get_value", "f_", "Ab"]


@check("P03", "Abstract interpretation of attribute access on path-steps for symbolic and sampled-kind names: outcome, object identity and write effects per (name kind, earlier accesses)",
       "The attribute name is symbolic (private or not, reserved or not, by path facts) or one of each kind; after none, one or two earlier accesses; mapped and unmapped steps.")
def p03(c):
    for label, o in originals(c):
        for name in PRIVATE:
            for r in c.op("get", o.st, o.val, name, label="." + name, **pure()):
                c.oblige(r.raised and r.raises("AttributeError"), "private and reserved names fail", "." + name, "gives %s" % r, None, path_of(r))
                c.oblige(keys_of(c, r, o.val) == keys_of(c, o, o.val), "private and reserved names create no child", "." + name, "children changed", None, path_of(r))
        for name in NAMES:
            k0 = keys_of(c, o, o.val)
            had = (kids_of(c, o, o.val) or {}).get(Const(name))
            for r in c.op("get", o.st, o.val, name, label="." + name, **pure()):
                c.oblige(had is None or r.val == had, "accessing gives the child there", "." + name, "gives %s instead of %s (%s)" % (r, had and show(had, o.st), label), None, path_of(r))
                c.oblige(not r.raised and isinstance(r.val, Ref), "accessing makes the child", "." + name, "gives %s" % r, None, path_of(r))
                if r.raised:
                    continue
                k1 = keys_of(c, r, o.val)
                if k0 is None or k1 is None:
                    c.undecided("children of a path-step", "not known")
                    continue
                c.oblige(set(k1) == set(k0) | {Const(name)} and len(k1) == len(set(k1)), "the child is added", "." + name, "children %s then %s" % (list(map(show, k0)), list(map(show, k1))), None, path_of(r))
                for mid in (None, "zz", "_tag"):
                    s1 = [r]
                    if mid == "zz":
                        s1 = c.op("get", r.st, o.val, "zz", **pure())
                    elif mid:
                        s1 = c.op("call", r.st, o.val, "_tag", (Const("t"),), **pure())
                    for m in s1:
                        k2 = keys_of(c, m, o.val)
                        for r2 in c.op("get", m.st, o.val, name, label="." + name, **pure()):
                            c.oblige(not r2.raised and r2.val == r.val, "the same child again", "." + name, "%s and then %s (%s)" % (show(r.val, r.st), r2, label), None, path_of(r2))
                            c.oblige(keys_of(c, r2, o.val) == k2, "children unchanged the second time", "." + name, "children changed (%s)" % label, None, path_of(r2))
        # any name at all
        sym = Sym("attrname", "str")
        for r in c.op("call", o.st, o.val, "__getattr__", (sym,), label="__getattr__", **pure()):
            priv = None
            for k, v in r.st.facts.items():
                if k[0] == "truth" and isinstance(k[1], App) and k[1].op == "m:startswith" and k[1].args[:2] == (sym, Const("_")):
                    priv = v
            if priv:
                c.oblige(r.raised and r.raises("AttributeError"), "private names fail", "any name", "a private name gives %s" % r, None, path_of(r))
            if r.raised:
                n = [w for w in r.writes() if w[7] is None and False]
                c.oblige(r.raises("AttributeError"), "only attribute errors", "any name", "raises %s" % r.exc_names(), None, path_of(r))


# ------------------------------------------------------------------ P04
@check("P04", "Abstract interpretation of attribute assignment on path-steps by value type: outcome table and absence of stores on the refusing paths",
       "Assigned values are symbolic values of each builtin type, None, arbitrary objects, mappings, callables, modules' classes; steps with and without children, existing and new names.")
def p04(c):
    vals = [(t, Sym("v_" + t, t)) for t in ("int", "float", "bool", "list", "dict", "tuple", "bytes", "set", "ndarray", "function")] + [("None", NONE), ("0", Const(0)), ("False", FALSE), ("()", Tup([]))]
    n = 0
    for label, o in originals(c):
        pm = [r for r in c.run(c.fn(MP, "Pmod"), (), st=o.st, label="Pmod()", **pure()) if not r.raised]
        if pm:
            o = Outcome(pm[0].st, o.val, False, (), o.it)
            vals = [v for v in vals if v[0] != "a mapping"] + [("a mapping", pm[0].val)]
        known = set(o.st.heap)
        for name in ("a", "fresh"):
            k0 = keys_of(c, o, o.val)
            had = (kids_of(c, o, o.val) or {}).get(Const(name))
            for t, v in vals:
                for r in c.op("set", o.st, o.val, name, (v,), label="%s = %s" % (name, t), **pure()):
                    n += 1
                    c.oblige(r.raised and r.raises("AssertionError"), "refused with an assertion error", "%s" % t, "assignment %s" % ("succeeds" if not r.raised else "raises %s" % r.exc_names()), None, path_of(r))
                    w = [w for w in r.writes() if isinstance(w[1], Ref) and w[1].oid in known]
                    c.oblige(not w, "nothing is changed when refused", "%s" % t, "writes %s before failing" % [x[2] for x in w], w and w[0][5], path_of(r))
            for alias in (N1, mkstr([N1, "/", N2]), EMPTY, Const("lit"), mkstr(["../", N1])):
                for r in c.op("set", o.st, o.val, name, (alias,), label="%s = text" % name, **pure()):
                    c.oblige(not r.raised, "texts are accepted", show(alias), "raises %s (%s)" % (r.exc_names(), label), None, path_of(r))
                    if r.raised:
                        continue
                    c.oblige(set(keys_of(c, r, o.val) or ()) == set(k0 or ()) | {Const(name)}, "texts rename the child", show(alias), "children are %s" % (keys_of(c, r, o.val),), None, path_of(r))
                    for g in c.op("get", r.st, o.val, name, **pure()):
                        c.oblige(not g.raised and g.o_eq(alias), "texts rename the child", show(alias), "the child reads %s (%s)" % (g, label), None, path_of(g))
                        if had is not None and not g.raised:
                            c.oblige(keys_of(c, g, g.val) == keys_of(c, o, had), "a child renamed keeps its children", show(alias), "has children %s, had %s (%s)" % (keys_of(c, g, g.val), keys_of(c, o, had), label), None, path_of(g))
                            c.oblige(tags_of(c, g, g.val) == tags_of(c, o, had), "a child renamed keeps its tags", show(alias), "has tags %s, had %s (%s)" % (tags_of(c, g, g.val), tags_of(c, o, had), label), None, path_of(g))
            # path-steps
            for p in [p for a in (N1, EMPTY) for p in c.run(c.fn(MP, "Pstep"), (Y,), {"alias": a}, st=o.st, label="Pstep()", **pure())] + c.run(c.fn(MP, "Pstep"), (), st=o.st, label="Pstep()", **pure()):
                for r in [r for q in c.op("call", p.st, p.val, "_tag", (Const("t5"),), **pure()) for q2 in c.op("get", q.st, p.val, "kid", **pure()) for r in c.run(c.fn(MP, "Pstep"), (X, p.val), st=q2.st, label="Pstep(copy)", **pure())]:
                    c.oblige(not r.raised and keys_of(c, r, r.val) == (Const("kid"),) and tags_of(c, r, r.val) == (Const("t5"),), "copies have the children and tags", "constructed", "the copy is %s" % r, None, path_of(r))
                for q in c.op("call", p.st, p.val, "_tag", (Const("t5"),), **pure()):
                    for q2 in c.op("get", q.st, p.val, "kid", **pure()):
                        for r in c.op("set", q2.st, o.val, name, (p.val,), label="%s = step" % name, **pure()):
                            c.oblige(not r.raised, "path-steps are accepted", label, "raises %s" % r.exc_names(), None, path_of(r))
                            if r.raised:
                                continue
                            for g in c.op("get", r.st, o.val, name, **pure()):
                                c.oblige(not g.raised and g.val != p.val, "path-steps are copied", label, "the very path-step is stored", None, path_of(g))
                                if not g.raised:
                                    c.oblige(keys_of(c, g, g.val) == (Const("kid"),), "copies have the children", label, "the copy has children %s" % (keys_of(c, g, g.val),), None, path_of(g))
                                    for tg in c.op("get", g.st, g.val, "_tags", **pure()):
                                        h = tg.st.heap.get(tg.val.oid) if isinstance(tg.val, Ref) else None
                                        c.oblige(None if not isinstance(h, ListO) else tuple(h.items) == (Const("t5"),), "copies have the tags", label, "the copy has tags %s" % show(tg.val, tg.st), None, path_of(tg))
    c.oblige(True if n else None, "assignments tried", "Pstep", "none")


# ------------------------------------------------------------------ P05
class T(object):
    """A tree to build: name -> (alias or None, tags, children)."""

    def __init__(self, alias=None, tags=(), **kids):
        self.alias, self.tags, self.kids = alias, tags, kids


def tree_paths(t, txt, tag, pre=()):
    pre = pre + (txt,)
    out = []
    if tag in t.tags if tag else not t.kids:
        out.append(spec_join(pre))
    for k, s in t.kids.items():
        out += tree_paths(s, Const(k) if s.alias is None else s.alias, tag, pre)
    return out


def grow(c, o, v, t):
    """Outcomes of building tree `t` under path-step `v`."""
    outs = [Outcome(o.st, v, False, (), o.it)]
    if t.tags:
        outs = [r for q in outs for r in c.op("call", q.st, v, "_tag", tuple(map(Const, t.tags)), **pure())]
    for k, s in t.kids.items():
        nxt = []
        for q in outs:
            for r in (c.op("set", q.st, v, k, (s.alias,), **pure()) if s.alias is not None else [q]):
                if r.raised:
                    continue
                for g in c.op("get", r.st, v, k, **pure()):
                    if not g.raised:
                        nxt += grow(c, g, g.val, s)
        outs = nxt
    return outs


def trees():
    a = Const("A1")
    return [T(), T(a=T()), T(a=T(), b=T()), T(b=T(), a=T()), T(a=T(b=T(c=T())), d=T()), T(tags="t", a=T(tags="t", b=T(), c=T(tags="u"))), T(a=T(tags="tu"), b=T(tags="u", c=T(tags="t", d=T(tags="t")))),
            T(a=T(alias=a), b=T(alias=a)), T(a=T(alias=a, c=T(tags="t")), b=T(alias=a, c=T(tags="t"))), T(a=T(b=T(alias=Const(".."), c=T())), c=T()), T(a=T(b=T(alias=Const("."), c=T()))),
            T(a=T(b=T(a=T(b=T(c=T(tags="t")))))), T(z=T(), y=T(x=T()), w=T(v=T(), u=T())), T(a=T(alias=Const("..")), b=T(alias=Const(".."))),
            T(a=T(alias=Const("p q"), tags="t"), c=T(tags="t", b=T(alias=Const("p q"), tags="tt"), e=T()))]


@check("P05", "Abstract interpretation of the hierarchy walk and selection over assembled step-trees, compared with the specified list",
       "Trees of every shape class (empty, chain, bushy, duplicates through renames, dotted) up to five levels, tags on inner and leaf steps; root named, empty or symbolic.")
def p05(c):
    cls = c.fn(MP, "Pstep")
    for root in (EMPTY, Const("root")):
        for i, t in enumerate(trees()):
            for o in c.run(cls, (root,), st=c.state(), label="Pstep()", **pure()):
                for g in grow(c, o, o.val, t):
                    for tag in (None, "t", "u", "none"):
                        want = tuple(Const(s) for s in sorted(set(p.v for p in tree_paths(t, root, tag))))
                        kw = {} if tag is None else {"tag": Const(tag)}
                        for r in c.op("call", g.st, o.val, "_paths", (), kw, label="_paths", **pure()):
                            h = r.st.heap.get(r.val.oid) if isinstance(r.val, Ref) else None
                            got = tuple(h.items) if isinstance(h, ListO) and not h.open else None
                            if r.raised:
                                c.bad("path listing", "tree %d, tag %s" % (i, tag), "raises %s" % r.exc_names(), None, path_of(r))
                            elif got is None:
                                c.undecided("paths of tree %d" % i, show(r.val, r.st))
                            else:
                                got = tuple(Const(r.it.strval(x, r.st).v) if isinstance(r.it.strval(x, r.st), Const) else x for x in got)
                                c.oblige(got == want, "path listing", "tree %d, tag %s" % (i, tag), "%s instead of %s" % (list(map(show, got)), list(map(show, want))), None, path_of(r))


# ------------------------------------------------------------------ P06
def unescaped(v):
    if isinstance(v, (Const, Str)):
        ps = v.parts if isinstance(v, Str) else (v.v,)
        return mkstr([p.replace("~1", "/").replace("~0", "~") if isinstance(p, str) else p for p in ps])
    return v


def named(node, name, alias, oracle):
    """(mapping below, text) of a path-step made with a name; text None where the mapping gives the empty one (either way will do)."""
    child, al = spec_lookup(node, name, oracle) if node is not None else (None, None)
    if alias is not None:
        return child, alias
    if isinstance(al, tuple):
        raise Undecided("expanded alias")
    return child, None if al == EMPTY else name if al is None else unescaped(al)


def maps_families():
    a, b, z = Const("a"), Const("b"), Const("z")
    return [[], [([X], A)], [([X], A), ([X, a], B), ([X, a, b], C)], [([X, a], B), ([X, z], C)], [([a], A), ([a, b], B)], [([X, a, b], mkstr([A, "~1", B]))], [([X], mkstr([A, "~1", B])), ([X, Re(R1)], mkstr(["~01", A]))],
            [([X, Re(R1)], A), ([X, Re(R2)], B), ([X, a, b], C)], [([X, Re(R1), b], A), ([X, a, Re(R2)], B)], [([Re(R1), a], A), ([X, b], B)], [([X], mkstr(["../", A])), ([X, a], mkstr(["/", A]))],
            [([X], EMPTY), ([X, a], A), ([X, a, b], mkstr(["~0", B]))], [([X, a], mkstr([A, "/", B])), ([X, a, b], Const("."))], [([X, a], A), ([X, a], B), ([X], C)]]


@check("P06", "Abstract interpretation of path-step construction and of chains of child accesses on them; the text read at each step compared with the alias given, else the mapping's, by path facts on regex matches",
       "Mappings of every kind of interacting rule (exact, regexes, nested, escaped, repeated), given as a mapping or as a list of tuples; with and without an alias; chains of two accesses, renames and copies in between.")
def p06(c):
    cls = c.fn(MP, "Pstep")
    n = 0
    for fam in maps_families():
        key = tname(fam) or "no rules"
        spec = spec_build(fam)
        starts = [("mapping", st, root) for st, root in build(c, fam, key)]
        st = c.state()
        for tname_, mk in (("list", lambda st, l: st.alloc(ListO(l, origin="input:tuples"))), ("tuple", lambda st, l: Tup(l))):
            s = st.fork()
            starts.append((tname_ + " of tuples", s, mk(s, [Tup([text(f), t]) for f, t in fam])))
        if not fam:
            starts.append(("nothing", c.state(), NONE))
        for how, st, maps in starts:
            for alias in (None, D, EMPTY):
                if alias is not None and how != "mapping" or alias == EMPTY and len(fam) > 1 and not c.thorough:
                    continue
                for o in c.run(cls, (X, maps) + ((alias,) if alias is not None else ()), st=st, label="Pstep(x, %s)" % how, **pure()):
                    lab = "rules %s as a %s%s" % (key, how, ", aliased" if alias is not None else "")
                    if o.raised:
                        c.bad("path-steps are made by any mapping", lab, "raises %s" % o.exc_names(), None, path_of(o))
                        continue
                    n += 1

                    def walk(chain, orc):
                        node, txt = named(spec, X, alias, orc)
                        for nm, al in chain:
                            node, txt = named(node, Const(nm), al, orc)
                        return txt
                    read(c, o, lab, lambda orc: walk((), orc))
                    if how == "mapping" or alias is None and how[:4] == "list":
                        for w in o.writes():
                            if w[7] == "input:tuples":
                                c.bad("the tuples are only read", lab, "writes into the tuples given", w[5], path_of(o))
                    below = [(o, o.val, ())]
                    if how == "mapping":
                        for r in c.run(cls, (Y, o.val), st=o.st, label="Pstep(copy)", **pure()):
                            if not r.raised:
                                c.oblige(r.o_eq(Y), "a copy takes the name given", lab, "reads %s" % show(r.val, r.st), None, path_of(r))
                                below.append((r, r.val, ("copied",)))
                    for q, v, hist in below:
                        for nm in ("a", "z"):
                            for ren in (None, N1) + ((EMPTY,) if alias is None and (len(fam) < 2 or c.thorough) else ()):
                                outs = [q] if ren is None else [r for r in c.op("set", q.st, v, nm, (ren,), **pure()) if not r.raised]
                                for r in [g for k in outs for g in c.op("get", k.st, v, nm, label="." + nm, **pure())]:
                                    if r.raised:
                                        c.bad("children are made", lab, ".%s raises %s" % (nm, r.exc_names()), None, path_of(r))
                                        continue
                                    n1 = "%s: %s%s" % (lab, "renamed " if ren is not None else "", "copy." * len(hist) + nm)
                                    read(c, r, n1, lambda orc: walk(((nm, ren),), orc))
                                    for g in c.op("get", r.st, r.val, "b", label=".b", **pure()):
                                        if not g.raised:
                                            read(c, g, n1 + ".b", lambda orc: walk(((nm, ren), ("b", None)), orc))
    c.oblige(True if n else None, "path-steps made", "Pstep", "no path-step could be made")
    for what, v in (("a number", Const(3)), ("a text", Const("maps")), ("a dictionary", None)):
        st = c.state()
        v = v or st.alloc(DictO(((Const("a"), Const("b")),)))
        for o in c.run(cls, (X, v), st=st, label="Pstep(x, %s)" % what, **pure(dict(raises="handled"))):
            c.oblige(o.raised and o.raises("ValueError"), "only mappings, tuples and path-steps make a mapping", what, "gives %s" % o, None, path_of(o))
    # tags given at once
    t1, t2 = Const("t1"), Const("t2")
    for kind in ("fresh", "mapped", "copied", "copied from tagged"):
        for tags in ((), (t1,), (t2, t1), (t1, t1)):
            st, maps, had = c.state(), NONE, set()
            if kind == "mapped":
                st, maps = build(c, maps_families()[2], "tags")[0]
            elif kind.startswith("copied"):
                o = [o for o in c.run(cls, (X,), st=st, label="Pstep()", **pure()) if not o.raised][0]
                st, maps = o.st, o.val
                if kind == "copied from tagged":
                    st = [r for r in c.op("call", st, maps, "_tag", (Const("t3"),), **pure()) if not r.raised][0].st
                    had = {Const("t3")}
            for al in ((NONE, Y) if maps == NONE else (NONE,)):
                for o in c.run(cls, (Y, maps, al) + tags, st=st, label="Pstep(.., tags)", **pure()):
                    lab = "%s, tags %s" % (kind, [t.v for t in tags])
                    if o.raised:
                        c.bad("tags can be given at once", lab, "raises %s" % o.exc_names(), None, path_of(o))
                        continue
                    got = tags_of(c, o, o.val)
                    c.oblige(None if got is None else set(got) == set(tags) | had, "a path-step has the tags given", lab, "has %s" % (got and sorted(map(show, got)),), None, path_of(o))
                    if had:
                        got = tags_of(c, o, maps)
                        c.oblige(None if got is None else set(got) == had, "the original's tags stay", lab, "has %s" % (got and sorted(map(show, got)),), None, path_of(o))


def read(c, o, lab, f):
    facts, odd = match_facts(o.st)
    if odd:
        c.undecided(lab, "regexes are not fully matched (see M04)")
        return
    want = [w for w in completions(f, facts)]
    if None in want:
        return
    c.oblige(all(o.o_eq(w) for w in want), "a path-step reads its alias, else that of the mapping, else its own name", lab,
             "reads %s instead of %s" % (show(o.val, o.st), " or ".join(sorted(set(map(show, want))))), None, path_of(o))


# ------------------------------------------------------------------ P07
def tree_pairs(t, orig, txt, pre=()):
    pre = pre + (orig,)
    out = [(spec_join(pre), txt)]
    for k, s in t.kids.items():
        out += tree_pairs(s, Const(k), Const(k) if s.alias is None else s.alias, pre)
    return out


@check("P07", "Abstract interpretation of the extraction of map-pairs over assembled step-trees, compared with the specified list",
       "Trees of every shape class up to five levels, with names by assignment, duplicates and dotted; root named, renamed or empty.")
def p07(c):
    cls = c.fn(MP, "Pstep")

    def again(g, v, k):
        """The step `k` assigned also under another name."""
        return [r for q in c.op("get", g.st, v, k, **pure()) if not q.raised for r in c.op("set", q.st, v, "zz", (q.val,), **pure()) if not r.raised]
    for root, alias in ((EMPTY, None), (Const("root"), None), (Const("root"), Const("ROOT")), (EMPTY, Const("R/S"))):
        for i, t in enumerate(trees()):
            for o in c.run(cls, (root, NONE) + (() if alias is None else (alias,)), st=c.state(), label="Pstep()", **pure()):
                grown = [(g, tree_pairs(t, root, root if alias is None else alias)) for g in grow(c, o, o.val, t)]
                if "a" in t.kids:
                    grown += [(r, w + tree_pairs(t.kids["a"], Const("a"), Const("zz"), (root,))) for g, w in grown for r in again(g, o.val, "a")]
                for g, w in grown:
                    want = sorted((a.v, b.v) for a, b in w)
                    for r in c.op("call", g.st, o.val, "_derrive_map_tuples", (), label="_derrive_map_tuples", **pure()):
                        lab = "tree %d of %s" % (i, show(root) if alias is None else show(alias))
                        if r.raised:
                            c.bad("map-pairs list every step", lab, "raises %s" % r.exc_names(), None, path_of(r))
                            continue
                        h = r.st.heap.get(r.val.oid) if isinstance(r.val, Ref) else None
                        got = []
                        for x in (h.items if isinstance(h, ListO) and not h.open else (None,)):
                            vs = [r.it.strval(y, r.st) for y in x.items] if isinstance(x, Tup) and len(x.items) == 2 else [None]
                            got.append(tuple(y.v for y in vs) if all(isinstance(y, Const) for y in vs) else None)
                        c.oblige(None if None in got else sorted(got) == want and [x[0] for x in got] == sorted(x[0] for x in got), "map-pairs list every step once, by its original path", lab, "%s instead of %s" % (got, want), None, path_of(r))
                        for w in r.writes():
                            if w[2] != "iter" and isinstance(w[1], Ref) and w[1].oid in reachable(o.val, g.st):
                                c.bad("extracting only reads", lab, "writes a path-step", w[5], path_of(r))


# ------------------------------------------------------------------ P08
FRAMES = "envm_frames"


@check("P08", "Abstract interpretation of the building of path-steps out of a modelled table: every step and attribute read back and compared with its row",
       "Tables of up to three rows with flat and nested paths in any order, symbolic names (plain, relocated, empty), zero to two attribute columns of symbolic values, under the default and another name-column.")
def p08(c):
    made = c.fn(FRAMES, "made")
    tables = [["/a"], ["/a", "/b"], ["/a", "/a/b"], ["/a/b", "/a"], ["/a/b", "/z"], ["/a/b/c", "/a/b"], ["/b", "/a", "/a/b"], ["/a/b/c", "/a/z", "/z"]]
    names = [[A, B, C], [A, NONE, C], [NONE, B, NONE], [mkstr([A, "/", B]), B, mkstr(["../", C])], [A, EMPTY, A]]
    n = 0
    for paths in tables:
        for nms in names:
            for cols, ncol in ((("names",), None), (("names", "renames"), None), (("kind", "title", "unit"), "title"), (("x1", "names", "x2"), None)):
                rows = list(zip(paths, nms))
                st = c.state()
                vals = [dict((k, Sym("v_%d_%s" % (i, k), None, ("shared",)) if k != (ncol or "names") else nm) for k in cols) for i, (p, nm) in enumerate(rows)]
                L = lambda xs: st.alloc(ListO(list(xs), origin="input:table"))
                args = (L(Const(p) for p in paths), L(map(Const, cols)), L(L(v[k] for k in cols) for v in vals), NONE if ncol is None else Const(ncol))
                lab = "%s named %s, columns %s" % (paths, ", ".join(map(show, nms[:len(paths)])), list(cols))
                spec = spec_build([([EMPTY] + [Const(x) for x in p.split("/")[1:]], None if nm == NONE else nm) for p, nm in rows])
                for o in c.run(made, args, st=st, label="pstep_from_df", **pure()):
                    if o.raised:
                        c.bad("tables make path-steps", lab, "raises %s" % o.exc_names(), None, path_of(o))
                        continue
                    n += 1
                    tree = {}
                    for p in paths:
                        t = tree
                        for part in p.split("/")[1:]:
                            t = t.setdefault(part, {})

                    def visit(q, v, t, pre):
                        node, txt = named(spec, EMPTY, None, {})
                        for x in pre:
                            node, txt = named(node, Const(x), None, {})
                        path = "".join("/" + x for x in pre)
                        if txt is not None:
                            c.oblige(q.it.strval(v, q.st) == txt, "steps are named by their rows", lab, "%s reads %s instead of %s" % (path or "the root", show(v, q.st), show(txt)), None, path_of(q))
                        kids = keys_of(c, q, v)
                        c.oblige(None if kids is None else set(kids) == set(map(Const, t)), "there are just the steps of the paths", lab, "under %r there are %s" % (path, kids and sorted(map(show, kids))), None, path_of(q))
                        for k in ("_" + x for x in cols if x != (ncol or "names")):
                            want = dict(zip(paths, vals)).get(path, {}).get(k[1:])
                            for g in c.op("get", q.st, v, k, label=k, **pure()):
                                if want is None:
                                    c.oblige(g.raised, "attributes are only on the steps of their rows", lab, "%s has %s = %s" % (path or "the root", k, g), None, path_of(g))
                                else:
                                    c.oblige(not g.raised and g.val == want, "steps have the attributes of their rows", lab, "%s has %s = %s instead of %s" % (path, k, g, show(want)), None, path_of(g))
                        for x in t:
                            for g in c.op("get", q.st, v, x, label="." + x, **pure()):
                                if not g.raised:
                                    visit(g, g.val, t[x], pre + (x,))
                    visit(o, o.val, tree, ())
                    for w in o.writes():
                        if w[7] == "input:table":
                            c.bad("the table is only read", lab, "it is written", w[5], path_of(o))
    c.oblige(True if n else None, "tables followed", "pstep_from_df", "none")



@check("P09", "Abstract interpretation of the lazy schemas of path-steps: object identity and ownership of what each access gives, and the attributes listed compared with those set",
       "Root, child, grandchild, renamed and separately created steps in all pairs; every attribute, and unknown ones, set to symbolic and falsy values once, twice, and deleted.")
def p09(c):
    from itertools import product
    cls = c.fn(MP, "Pstep")
    V, V2 = Sym("value", "str"), Sym("value2", "str")

    def steps(o):
        """Paths of attribute names leading to the steps used."""
        return ((), ("a",), ("b",), ("a", "c"))

    def goto(q, root, path):
        outs = [(q, root)]
        for k in path:
            outs = [(r, r.val) for q1, v in outs for r in c.op("get", q1.st, v, k, label="." + k, **pure()) if not r.raised]
        return outs

    def exists(q, v, want, lab):
        for m in c.op("call", q.st, v, "_schema_exists", (), label="_schema_exists", **pure()):
            if m.raised:
                c.bad("existence is told", lab, "raises %s" % m.exc_names(), None, path_of(m))
            else:
                c.oblige(m.val.v is want if isinstance(m.val, Const) else None, "a step has a schema once asked for it", lab, "existence of its schema is %s instead of %s" % (show(m.val, m.st), want), None, path_of(m))
            yield m

    def listed(q, js, want, lab, rule="exactly the attributes set are listed"):
        for m in c.op("call", q.st, js, "todict", (), label="todict", **pure()):
            if m.raised:
                c.bad(rule, lab, "raises %s" % m.exc_names(), None, path_of(m))
                continue
            o = m.st.heap.get(m.val.oid) if isinstance(m.val, Ref) else None
            got = dict(o.items) if isinstance(o, DictO) and not o.open else None
            c.oblige(None if got is None else got == {Const(k): v for k, v in want.items()}, rule, lab, "lists %s instead of %s" % (show(m.val, m.st), {k: show(v) for k, v in want.items()}), None, path_of(m))
            yield m

    n = 0
    for rname, alias in ((X, None), (None, None), (X, A)):
        for o in c.run(cls, (NONE if rname is None else rname,), {"alias": NONE if alias is None else alias}, st=c.state(), label="Pstep()", **pure()):
            if o.raised:
                continue
            for other in c.run(cls, (Y,), st=o.st, label="Pstep()", **pure()):
                starts = [("the root", (), o.val), ("a child", ("a",), o.val), ("a grandchild", ("a", "c"), o.val), ("its namesake", ("b", "c"), o.val), ("another step", (), other.val),
                          ("a child of another step", ("a",), other.val)]
                for (n1, p1, r1), (n2, p2, r2) in product(starts, starts):
                    same = n1 == n2
                    lab = "the schema of %s, then of %s" % (n1, "the same" if same else n2)
                    for q, v in goto(other, r1, p1):
                        for q2, v2 in goto(q, r2, p2):
                            for q3 in exists(q2, v, False, lab + ", before"):
                                for a in c.op("get", q3.st, v, "_schema", label="_schema", **pure()):
                                    if a.raised or not isinstance(a.val, Ref):
                                        c.bad("every step has a schema", lab, "access gives %s" % (a.exc_names() if a.raised else show(a.val, a.st)), None, path_of(a))
                                        continue
                                    n += 1
                                    for a1 in exists(a, v, True, lab + ", after the first"):
                                        if not same:
                                            for _ in exists(a1, v2, False, lab + ", the other not asked yet"):
                                                pass
                                    for b in c.op("get", a.st, v2, "_schema", label="_schema", **pure()):
                                        if b.raised or not isinstance(b.val, Ref):
                                            c.bad("every step has a schema", lab, "access gives %s" % (b.exc_names() if b.raised else show(b.val, b.st)), None, path_of(b))
                                            continue
                                        c.oblige((a.val == b.val) == same, "a step keeps one schema of its own", lab, "the second is %s object" % ("the same" if a.val == b.val else "another"), None, path_of(b))
                                        if same:
                                            continue
                                        for s in c.op("set", b.st, a.val, "title", (V,), label=".title", **pure()):
                                            if s.raised:
                                                continue
                                            for _ in listed(s, b.val, {}, lab + ", set on the first", "attributes are of one step only"):
                                                pass
            # the attributes listed
            attrs = ("type", "items", "required", "title", "description", "minimum", "exclusiveMinimum", "maximum", "exclusiveMaximum", "patternProperties", "pattern", "enum", "allOf", "oneOf", "anyOf")
            plans = [[]] + [[(k, v)] for k in attrs + ("kws",) for v in (V, NONE, FALSE, Const(0), Const(""), Tup(()))]
            plans += [[(k, V), (k, V2)] for k in attrs] + [[(k, V), (k2, V2)] for k, k2 in zip(attrs, attrs[1:] + attrs[:1])] + [[(k, V) for k in attrs], [(k, NONE) for k in attrs]]
            for a in c.op("get", o.st, o.val, "_schema", label="_schema", **pure()):
                if a.raised:
                    continue
                for plan in plans:
                    qs = [a]
                    lab = "set " + (", ".join("%s=%s" % (k, show(v)) for k, v in plan) or "nothing")
                    for k, v in plan:
                        qs = [r for q in qs for r in c.op("set", q.st, a.val, k, (v,), label="." + k, **pure())]
                        for r in qs:
                            if r.raised:
                                c.bad("attributes may be set", lab, "raises %s" % r.exc_names(), None, path_of(r))
                        qs = [r for r in qs if not r.raised]
                    for q in qs:
                        # through the step, not what was got earlier
                        for g in c.op("get", q.st, o.val, "_schema", label="_schema", **pure()):
                            for m in listed(g, g.val, dict(plan), lab):
                                # The listing is the caller's own.
                                for w in c.op("call", m.st, m.val, "clear", (), label="clear", **pure()):
                                    for _ in listed(w, a.val, dict(plan), lab + ", then its listing cleared", "a listing is the caller's own"):
                                        pass
    c.oblige(True if n else None, "schemas followed", "Pstep._schema", "none")
