"""Validation rules and types of PandelVisitor (D04-D06)."""
from ..harness import *
from .pandel import PD, ENV, listed, is_valerr, mentions
from .mappings import match_facts
from itertools import product

VCLS = Sym("vcls", "VClass_")
VAL = Sym("validator", "Validator_")


def cfg_rules(**kw):
    def validator_for(it, st, args, kwargs, ctx, node):
        s = st.fork()
        rules = s.alloc(DictO([(Const(k), Ext("oracle.std_" + k)) for k in ("properties", "propertyNames", "additionalProperties", "enum", "type", "required")]))
        s.over[(VCLS, "attr", "VALIDATORS")] = rules
        yield s, VCLS

    def extend(it, st, args, kwargs, ctx, node):
        k = dict(kwargs)
        s = st.fork()
        rules = k.get("validators", args[1] if len(args) > 1 else NONE)
        s.event("extend", args[0] if args else k.get("validator"), rules, k.get("type_checker", NONE))
        yield s, Ext("oracle.newcls")

    def newcls(it, st, args, kwargs, ctx, node):
        yield st, App("visitor", tuple(args), "Visitor_")

    def props(it, st, args, kwargs, ctx, node):
        for n in (0, 1, 2):
            s = st.fork()
            errs = Tup([App("stderr", (Const(s.fresh()), Const(i)), "ValidationError") for i in range(n)])
            s.event("std", "properties", args, errs)
            yield s, errs

    def is_type(it, obj, st, args, kwargs, ctx, node):
        if obj != VAL or args[1] != Const("object"):
            return None
        ts = it.types(args[0], st)
        if isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], InstO):
            return iter([(st, TRUE)])           # a series
        return iter([(st, Const(bool(ts) and all(t in ("dict", "DataFrame", "Series") for t in ts)))])

    def descend(it, obj, st, args, kwargs, ctx, node):
        if obj != VAL:
            return None
        k = dict(kwargs)

        def gen():
            for n in (0, 1, 2):
                s = st.fork()
                errs = Tup([App("suberr", (Const(s.fresh()), Const(i)), "ValidationError") for i in range(n)])
                s.event("descend", args[0] if args else k["instance"], args[1] if len(args) > 1 else k["schema"], errs)
                yield s, errs
        return gen()
    def unbool(it, st, args, kwargs, ctx, node):
        v = st.facts.get(("val", args[0]), args[0])
        yield st, (Sym("json_%s" % v.v, "Sentinel_", "unique") if v in (TRUE, FALSE) else args[0])
    d = dict(stubs={"jsonschema._utils.unbool": unbool, "jsonschema.validators.validator_for": validator_for, "jsonschema.validators.extend": extend, "oracle.newcls": newcls, "oracle.std_properties": props},
             mstubs={"is_type": is_type, "descend": descend}, raises="none", loop_k=4, comp_k=4, max_states=400000)
    d.update(kw)
    return d


def visitors(c, settings, cfg):
    """[(outcome, rules: {name: value}, type_checker)] of PandelVisitor."""
    out = []
    st = c.state()
    for o in c.run(c.fn(PD, "PandelVisitor"), (Sym("sch0", "dict"),), settings, st=st, label="PandelVisitor", **cfg):
        ev = [e for e in o.events if e[0] == "extend"]
        if o.raised:
            c.bad("visitors construct", "PandelVisitor", "raises %s" % o.exc_names(), None, path_of(o))
            continue
        if len(ev) != 1 or not isinstance(ev[0][2], Ref):
            c.undecided("PandelVisitor", "extends no validator by known rules")
            continue
        d = o.st.heap[ev[0][2].oid]
        if not isinstance(d, DictO) or d.open:
            c.undecided("PandelVisitor", "rules not known")
            continue
        out.append((o, {k.v: v for k, v in d.items}, ev[0][3]))
    return out


GEN = {"auto_default": Sym("g_default", ("bool", "NoneType")), "auto_default_nulls": Sym("g_nulls", ("bool", "NoneType")), "auto_remove_nulls": Sym("g_remove", ("bool", "NoneType"))}
PER = {"autoDefault": Sym("p_default", ("bool", "NoneType")), "autoDefaultNull": Sym("p_nulls", ("bool", "NoneType")), "autoRemoveNull": Sym("p_remove", ("bool", "NoneType"))}


class Ask(Exception):
    pass


def setting(st, sym):
    """None / True / False of a symbolic setting, as the path decided; asks when open."""
    v = st.facts.get(("val", sym), sym)
    if isinstance(v, Const):
        return v.v
    if st.facts.get(("is", sym, None)) or st.facts.get(("notnone", sym)) is False or st.facts.get(("ty", sym)) == frozenset(["NoneType"]):
        return None
    t = st.facts.get(("truth", sym))
    if t is None:
        raise Ask(sym)
    if t:
        return True
    if st.facts.get(("notnone", sym)) or st.facts.get(("is", sym, None)) is False or st.facts.get(("ty", sym)) == frozenset(["bool"]):
        return False
    return "falsy"


def spec_d04(get, per, has_default, nullable, state):
    """'set' | 'del' | None. `get(sym)` gives a setting's value."""
    def eff(p, g):
        if p in per:
            v = get(PER[p])
            if v is not None:
                return bool(v)
        return bool(get(GEN[g]))
    if state == "missing":
        return "set" if has_default and eff("autoDefault", "auto_default") else None
    if state == "null" and not nullable:
        if has_default and eff("autoDefaultNull", "auto_default_nulls"):
            return "set"
        return "del" if eff("autoRemoveNull", "auto_remove_nulls") else None
    return None


def all_specs(st, per, has_default, nullable, state):
    """Specified actions over all settings the path allows."""
    out = set()

    def go(known):
        asked = []

        def get(sym):
            if sym in known:
                return known[sym]
            try:
                v = setting(st, sym)
            except Ask:
                v = "open"
            if v in ("open", "falsy"):
                asked.append((sym, (None, False) if v == "falsy" else (None, False, True)))
                raise Ask()
            return v
        try:
            out.add(spec_d04(get, per, has_default, nullable, state))
        except Ask:
            sym, vs = asked[0]
            for v in vs:
                go(dict(known, **{}) | {sym: v})
    go({})
    return out


TYPES = [(None, False), (Const("null"), True), (Const("number"), False), (("null", "number"), True), (("number", "string"), False), ((), False), (("number", "null"), True), (Const("nullable"), False)]


@check("D04", "Decision-table extraction by abstract interpretation of the defaults rule as wired by PandelVisitor: the action on the object for every combination, against the specified table",
       "The three general and three per-property settings are symbolic (true, false, none or absent); default present or not, type kinds, missing/null/NaN/given values and falsy defaults are enumerated.")
def d04(c):
    cfg = cfg_rules()
    vis = visitors(c, GEN, cfg)
    c.oblige(True if vis else None, "visitors made", "PandelVisitor", "none")
    lst = c.fn(ENV, "listed")
    for o, rules, _ in vis:
        rule = rules.get("properties")
        for bits in range(8):
            per = [p for i, p in enumerate(PER) if bits >> i & 1]
            for has_default, (ty, nullable), state in product((True, False, "falsy", "null"), TYPES if bits in (0, 7) or c.thorough else TYPES[:4], ("missing", "null", "nan", "given", "zero", "empty")):
                if has_default in ("falsy", "null") and (ty is not None or bits not in (0, 7)) or state in ("zero", "empty", "nan") and bits not in (0, 7):
                    continue
                st = o.st.fork()
                dflt = Const(0) if has_default == "falsy" else NONE if has_default == "null" else Sym("dflt", "Dflt_")
                sub = [(Const(p), PER[p]) for p in per]
                if has_default:
                    sub.append((Const("default"), dflt))
                if ty is not None:
                    sub.append((Const("type"), ty if isinstance(ty, Val) else st.alloc(ListO([Const(t) for t in ty]))))
                props = st.alloc(DictO(([(Const("other1"), st.alloc(DictO([])))] if ty is None and bits in (0, 7) else []) + [(Const("k"), st.alloc(DictO(sub, origin="input:schema")))], origin="input:schema"))
                val = {"missing": None, "null": NONE, "nan": Ext("numpy.nan"), "given": Sym("given", "str"), "zero": Const(0), "empty": Const("")}[state]
                inst = [(Const("other0"), NONE), (Const("other1"), Sym("o1", "str"))] + ([(Const("k"), val)] if val is not None else [])
                obj = st.alloc(DictO(inst, origin="input:object"))
                sch = st.alloc(DictO([(Const("properties"), props)], origin="input:schema"))
                label = "default %s, type %s, value %s, settings of its own %s" % (has_default, show(ty) if isinstance(ty, Val) else ty, state, per)
                if rule is None:
                    outs = [Outcome(st, NONE, False, (), o.it)]
                else:
                    outs = c.run(lst, (rule, VAL, props, obj, sch), st=st, label=label, **cfg)
                for r in outs:
                    if r.raised:
                        c.bad("the rule succeeds", label, "raises %s" % r.exc_names(), None, path_of(r))
                        continue
                    want = all_specs(r.st, per, bool(has_default), nullable, "null" if state == "nan" else "given" if state in ("zero", "empty") else state)
                    items = r.st.heap[obj.oid].items
                    res = []
                    for w in want:
                        exp = dict(inst)
                        if w == "set":
                            exp[Const("k")] = dflt
                        elif w == "del":
                            exp.pop(Const("k"), None)
                        res.append(exp)
                    got = dict(items)
                    ok = not r.st.heap[obj.oid].open and all(got == e for e in res)
                    c.oblige(ok, "defaults and nulls as asked", label, "the object becomes %s instead of %s" % (
                        {show(k): show(v, r.st) for k, v in got.items()}, " or ".join(str({show(k): show(v, r.st) for k, v in e.items()}) for e in res)), None, path_of(r))
                    for w in r.writes():
                        if w[7] == "input:schema":
                            c.bad("the schema is only read", label, "the schema is written", w[5], path_of(r))


def std_stub(name, it_bad):
    """The original rule: any number of errors for an object (or for anything when it is not about objects)."""
    def f(it, st, args, kwargs, ctx, node):
        for n in (0, 1, 2):
            s = st.fork()
            errs = Tup([App("stderr", (Const(s.fresh()), Const(i)), "ValidationError") for i in range(n)])
            s.event("std", name, args, errs)
            yield s, errs
    return f


def json_is(a, b):
    """Equality of JSON constants: booleans are no numbers."""
    return a == b and isinstance(a, bool) == isinstance(b, bool)


@check("D05", "Abstract interpretation of every rule PandelVisitor installs, over validators with arbitrary sub-errors: call-order and completeness of the errors yielded, against the standard rules' decision tables",
       "Objects of up to 3 properties with constant names, patterns and enums of constants, sub-validators giving 0-2 errors per call; values are symbolic.")
def d05(c):
    cfg = cfg_rules()
    lst = c.fn(ENV, "listed")
    settings = [dict.fromkeys(GEN, TRUE), dict.fromkeys(GEN, FALSE), {}] + ([GEN] if c.thorough else [])
    nonobj = [("a text", Sym("txt", "str")), ("a number", Sym("num", "float")), ("none", NONE), ("a list", None)]
    for si, sett in enumerate(settings):
        for o, rules, _ in visitors(c, sett, cfg):
            std = lambda k: rules.get(k)
            # --- properties
            rule = std("properties")
            for ni, inst in enumerate(({}, {"k": NONE}, {"k": Sym("v", "int"), "z": NONE})):
                for sub in ((), ("default",)):
                    st = o.st.fork()
                    props = st.alloc(DictO([(Const("k"), st.alloc(DictO([(Const(x), Sym("dflt", "Dflt_")) for x in sub], origin="input:schema")))], origin="input:schema"))
                    obj = st.alloc(DictO([(Const(k), v) for k, v in inst.items()], origin="input:object"))
                    sch = st.alloc(DictO([(Const("properties"), props)], origin="input:schema"))
                    label = "properties of %s, default %s, settings %d" % (list(inst), bool(sub), si)
                    if not isinstance(rule, Val):
                        c.ok("the standard rule stays", label)
                        continue
                    for r in c.run(lst, (rule, VAL, props, obj, sch), st=st, label=label, **cfg):
                        if r.raised:
                            c.bad("rules never fail", label, "raises %s" % r.exc_names(), None, path_of(r))
                            continue
                        ev = [e for e in r.events if e[0] == "std"]
                        c.oblige(len(ev) == 1, "the standard rule runs exactly once", label, "it runs %d times" % len(ev), None, path_of(r))
                        if len(ev) != 1:
                            continue
                        c.oblige(ev[0][2] == (VAL, props, obj, sch), "the standard rule gets the same arguments", label, "gets %s" % [show(x, r.st) for x in ev[0][2]], None, path_of(r))
                        late = [w for w in r.events[r.events.index(ev[0]):] if w[0] == "write" and w[7] == "input:object"]
                        c.oblige(not late, "it judges the object as completed", label, "the object is written after the standard rule ran", late[0][5] if late else None, path_of(r))
                        got = r.it.prog and _items(r)
                        c.oblige(None if got is None else got == list(ev[0][3].items), "all its errors are reported", label, "reports %s instead of %s" % (r.show(), show(ev[0][3])), None, path_of(r))
            if si:
                continue
            for what, v in nonobj:
                st = o.st.fork()
                v = v if v is not None else st.alloc(ListO([Const("k")], origin="input:object"))
                empty = st.alloc(DictO([(Const("k"), st.alloc(DictO([(Const("default"), Const(1))])))], origin="input:schema"))
                sch = st.alloc(DictO([(Const("properties"), empty)], origin="input:schema"))
                for name, arg in (("properties", empty), ("additionalProperties", FALSE), ("additionalProperties", empty), ("propertyNames", empty)):
                    rule = std(name)
                    if not isinstance(rule, Val):
                        continue
                    label = "%s (%s) of %s" % (name, "false" if arg == FALSE else "object", what)
                    for r in c.run(lst, (rule, VAL, arg, v, sch), st=st.fork(), label=label, **cfg):
                        ev = [e for e in r.events if e[0] == "std"]
                        got = None if r.raised else _items(r)
                        want = list(ev[0][3].items) if len(ev) == 1 else []
                        c.oblige(not r.raised and got == want, "non-objects are not judged by rules of objects", label, "gives %r" % r, None, path_of(r))
            # --- additionalProperties
            rule = std("additionalProperties")
            pats = [None, {}, {"^b": 0}, {"z$": 0, "mid": 0}, {"x$": 0, "^ab$": 0}]
            for keys in ((), ("ab",), ("ab", "abmid"), ("ab", "amid", "bz"), ("xq", "ab")):
                for pat in pats:
                    for known, kind, ser in product((None, ("ab",), ("other",)), ("object", "false", "true"), (False, True)):
                            if not isinstance(rule, Val) or ser and pat is not None and len(pat) == 2:
                                continue
                            import re
                            extras = [k for k in keys if k not in (known or ()) and not any(re.search(p, k) for p in pat or ())]
                            st = o.st.fork()
                            st, obj = make_obj(c, st, keys, ser)
                            D = lambda ks: st.alloc(DictO([(Const(k), st.alloc(DictO([], origin="input:schema"))) for k in ks], origin="input:schema"))
                            aP = {"false": FALSE, "true": TRUE}.get(kind) or D([])
                            sch = [(Const("additionalProperties"), aP)]
                            if known is not None:
                                sch.append((Const("properties"), D(known)))
                            if pat is not None:
                                sch.append((Const("patternProperties"), D(pat)))
                            sch = st.alloc(DictO(sch, origin="input:schema"))
                            label = "additionalProperties %s of %s%s, known %s, patterns %s" % (kind, "a series of " if ser else "", list(keys), known, pat and list(pat))
                            for r in c.run(lst, (rule, VAL, aP, obj, sch), st=st, label=label, **cfg):
                                if r.raised:
                                    c.bad("rules never fail", label, "raises %s" % r.exc_names(), None, path_of(r))
                                    continue
                                got = _items(r)
                                if got is None:
                                    c.undecided(label, "unknown errors")
                                    continue
                                ev = [e for e in r.events if e[0] == "descend"]
                                if kind == "object":
                                    judged = sorted((show(e[1]), show(e[2])) for e in ev)
                                    c.oblige(judged == sorted(("v_" + k, show(aP)) for k in extras), "each extra property is judged once by the sub-schema", label, "judged are %s" % judged, None, path_of(r))
                                    want = [x for e in ev for x in e[3].items]
                                    c.oblige(got == want, "all errors of the extra properties are reported", label, "reports %s instead of %s" % (r.show(), want), None, path_of(r))
                                elif kind == "false" and extras:
                                    isv = [r.it.types(x, r.st) for x in got]
                                    c.oblige(bool(got) and all(t and all(r.it.exc_isa(y, "ValidationError") for y in t) for t in isv), "unexpected properties are reported", label, "reports %s" % r.show(), None, path_of(r))
                                    for k in extras:
                                        c.oblige(any(names(x, r.st, k) for x in got), "each unexpected property is named", label, "%r is not named in %s" % (k, r.show()), None, path_of(r))
                                else:
                                    c.oblige(not got, "nothing is reported without unexpected properties", label, "reports %s" % r.show(), None, path_of(r))
            # --- propertyNames
            rule = std("propertyNames")
            for name in ("propertyNames", "additionalProperties"):
                c.oblige(isinstance(std(name), Val), "series and frames are judged by their labels", name, "the standard rule stays, which judges the elements of a series")
            for keys, ser in product(((), ("a",), ("a", "b"), ("a", "b", "c")), (False, True)):
                if not isinstance(rule, Val):
                    continue
                st, obj = make_obj(c, o.st.fork(), keys, ser)
                sub = st.alloc(DictO([], origin="input:schema"))
                sch = st.alloc(DictO([(Const("propertyNames"), sub)], origin="input:schema"))
                label = "propertyNames of %s%s" % ("a series of " if ser else "", list(keys))
                for r in c.run(lst, (rule, VAL, sub, obj, sch), st=st, label=label, **cfg):
                    ev = [e for e in r.events if e[0] == "descend"]
                    got = None if r.raised else _items(r)
                    judged = sorted((show(e[1]), show(e[2])) for e in ev)
                    c.oblige(not r.raised and judged == sorted((show(Const(k)), show(sub)) for k in keys), "each property-name is judged once", label, "judged are %s: %r" % (judged, r), None, path_of(r))
                    c.oblige(got == [x for e in ev for x in e[3].items], "all errors of property-names are reported", label, "reports %r" % r, None, path_of(r))
            # --- enum
            rule = std("enum")
            vals = [0, 1, 2, True, False, 0.0, 1.0, "a", "", None]
            for enum in ((), (0,), (1,), (True,), (False, "a"), (0.0, None), (1, False), ("", True), (2, True), (1.0, 0)):
                for v in vals:
                    if not isinstance(rule, Val):
                        continue
                    st = o.st.fork()
                    en = st.alloc(ListO([Const(x) for x in enum], origin="input:schema"))
                    sch = st.alloc(DictO([(Const("enum"), en)], origin="input:schema"))
                    label = "enum %s of %r" % (list(enum), v)
                    for r in c.run(lst, (rule, VAL, en, Const(v), sch), st=st, label=label, **cfg):
                        got = None if r.raised else _items(r)
                        want = not any(json_is(v, x) for x in enum)
                        c.oblige(got is not None and bool(got) == want, "a value not enumerated is reported", label, "gives %r" % r, None, path_of(r))


def make_obj(c, st, keys, ser):
    """(state, object) of these properties: a dictionary or a series."""
    if not ser:
        return st, st.alloc(DictO([(Const(k), Sym("v_" + k, "int")) for k in keys], origin="input:object"))
    args = [st.alloc(ListO([x(k) for k in keys], origin="input:object")) for x in (Const, lambda k: Sym("v_" + k, "int"))]
    o, = c.run(c.fn(ENV, "series"), tuple(args), st=st, label="series")
    return o.st, o.val


def names(v, st, word):
    """Does an error's text hold the repr of `word`?"""
    return mentions(v, st, repr(word)) or mentions(v, st, word)


def _items(o):
    h = o.st.heap.get(o.val.oid) if isinstance(o.val, Ref) else None
    if isinstance(h, ListO) and not h.open:
        return list(h.items)
    return list(o.val.items) if isinstance(o.val, Tup) else None


#: kind -> (abstract value(s) by type, JSON-types it has)
KINDS = {
    "NoneType": {"null"}, "bool": {"boolean"}, "int": {"integer"}, "float": set(), "str": set(), "list": {"array"}, "tuple": {"array"}, "range": {"array"}, "dict": {"object"}, "OrderedDict": {"object"},
    "ChainMap": {"object"}, "int64": {"integer"}, "bool_": {"boolean"}, "float64": set(), "float32": set(), "ndarray": {"array"}, "Series": {"array", "object"}, "DataFrame": {"object"}, "set": set(),
    "complex": set(), "function": set(),
}
NANS = {"float": 1, "float64": 1, "float32": 1, "ndarray": 1, "Series": 1, "DataFrame": 1}
SIZED = ("ndarray", "Series", "DataFrame")
SIZES = ("ndarray", "Series", "DataFrame", "int64", "float64", "float32", "bool_")


def cfg_types():
    """Library calls about NaNs, on values flagged 'nan' (holding NaNs only), 'text' (no numbers) or neither."""
    def sub(v):
        while isinstance(v, App) and v.op in ("asarray", "isnan", "all") and v.args:
            v = v.args[0]
        return v

    def isnanv(v):
        return Const(v == Ext("numpy.nan") or isinstance(v, Const) and v.v != v.v or isinstance(v, Sym) and "nan" in v.flags)

    def asarray(it, st, args, kwargs, ctx, node):
        yield st, (App("asarray", (args[0],), "ndarray"))

    def isnan(strict):
        def f(it, st, args, kwargs, ctx, node):
            v = sub(args[0])
            ts = it.types(v, st)
            v = st.facts.get(("val", v), v)
            nan = v == Ext("numpy.nan") or isinstance(v, Const) and v.v != v.v or isinstance(v, Sym) and "nan" in v.flags
            num = isinstance(v, Ext) or isinstance(v, Const) and isinstance(v.v, (int, float, complex)) or \
                isinstance(v, Sym) and "text" not in v.flags and ts <= frozenset(["int", "bool", "float", "complex", "int64", "bool_", "float64", "float32"] + ([] if strict == "math" else list(SIZED)))
            if not num and strict:
                s, r = it.raise_new(st.fork(), "TypeError", (Const("not a number"),))
                yield s, r
            elif strict != "math" and (args[0] is not v or isinstance(v, Sym) and ts <= frozenset(SIZES)):
                yield st, App("isnan", (args[0],), it.types(args[0], st) if it.types(args[0], st) <= frozenset(SIZED) else frozenset(["bool_"]))
            else:
                yield st, Const(bool(nan) or not strict and v == NONE)
        return f

    def fold(it, obj, st, args, kwargs, ctx, node):
        if not (isinstance(obj, App) and obj.op in ("isnan", "all")):
            return None
        v = sub(obj)
        if obj.op == "isnan" and obj.ty == frozenset(["DataFrame"]):
            return iter([(st, App("all", (obj,), "Series"))])
        return iter([(st, isnanv(v))])

    def npfold(it, st, args, kwargs, ctx, node):
        v = args[0]
        if isinstance(v, App) and v.op in ("isnan", "all"):
            return iter([(st, isnanv(sub(v)))])
        return iter([(st, v)])

    return dict(stubs={"numpy.asarray": asarray, "numpy.array": asarray, "numpy.isnan": isnan("np"), "math.isnan": isnan("math"), "pandas.isnull": isnan(None), "pandas.isna": isnan(None),
                       "numpy.all": npfold, "numpy.any": npfold}, mstubs={"all": fold, "any": fold, "__bool__": fold}, raises="all", max_states=100000)


@check("D06", "Typed abstract interpretation of the JSON-type predicates given to the validator's type-checker: their verdict on every kind of python, numpy and pandas value, against the documented table",
       "Kinds: all builtin scalars and containers, numpy scalars and arrays, pandas series and frames, each with and without NaNs, of one or more elements, with or without numbers.")
def d06(c):
    cfg = cfg_rules()

    def redefine_many(it, obj, st, args, kwargs, ctx, node):
        s = st.fork()
        d = s.heap[args[0].oid]
        s.event("types", tuple(d.items))
        return iter([(s, Sym("checker", "Checker_"))])

    def redefine(it, obj, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("types", ((args[0], args[1]),))
        return iter([(s, Sym("checker", "Checker_"))])
    cfg["mstubs"] = dict(cfg["mstubs"], redefine_many=redefine_many, redefine=redefine)
    preds = None
    for o, rules, tc in visitors(c, {}, cfg):
        preds = {}
        for e in o.events:
            if e[0] == "types":
                preds.update({k.v: f for k, f in e[1]})
        c.oblige(tc == Sym("checker", "Checker_"), "the type-checker is installed", "PandelVisitor", "type_checker is %s" % show(tc))
        st0 = o.st
    if not preds:
        c.undecided("PandelVisitor", "its type-checker is not known")
        return
    tcfg = cfg_types()
    std = {"array": {"list"}, "object": {"dict"}, "integer": {"int"}, "boolean": {"bool"}, "null": {"NoneType"}}
    for jtype in ("array", "object", "integer", "boolean", "null"):
        f = preds.get(jtype)
        for ty, has in KINDS.items():
            variants = [("", ())]
            if ty in NANS:
                variants.append((" of NaNs", ("nan",)))
            if ty in SIZED:
                variants.append((" of texts", ("text",)))
            for vname, flags in variants:
                for size in ((0, 1, 2) if ty in SIZED else (1,)):
                    if ty == "NoneType":
                        v = NONE
                    elif ty == "float" and flags:
                        v = Const(float("nan"))
                    else:
                        v = Sym("val", ty, flags)
                    for v in [v] + ([Ext("numpy.nan")] if ty == "float" and flags else []):
                        label = "is a %s%s%s a %s" % (ty, " of %d" % size if ty in SIZED else "", vname, jtype)
                        want = jtype in has
                        if jtype == "null" and flags == ("nan",) and (ty not in SIZED or size == 1):
                            want = True
                        if jtype == "null" and ty in SIZED and (size == 0 or size > 1):
                            want = False
                        if f is None:
                            # the standard predicate: only python's own types
                            c.oblige(want == (ty in std[jtype]), "JSON-types are recognised", label, "the standard predicate stays", None, None)
                            continue
                        st = st0.fork()
                        if ty in SIZES:
                            st.over[(v, "attr", "size")] = Const(size)
                            st.over[(App("asarray", (v,), "ndarray"), "attr", "size")] = Const(size)
                        for r in c.run(f, (Sym("checker", "Checker_"), v), st=st, label=label, **tcfg):
                            if r.raised:
                                c.bad("testing never fails", label, "raises %s" % r.exc_names(), None, path_of(r))
                                continue
                            got = truth(r)
                            c.oblige(None if got is None else got == want, "JSON-types are recognised", label, "gives %s" % r.show(), None, path_of(r))


def truth(o):
    """The known truth of the value returned; 'fails' when asking for it fails."""
    v = o.st.facts.get(("val", o.val), o.val)
    if isinstance(v, Const):
        return bool(v.v)
    if isinstance(v, App) and v.ty and v.ty & {"Series", "DataFrame"}:
        return "fails"
    return o.st.facts.get(("truth", v))
