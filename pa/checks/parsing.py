"""Parsing xl-refs (X01-X04): the language accepted, and what comes out of it."""
import itertools
import re
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre
from ..harness import *
from .capture import MOVES, EMPTY, VALUE, CFG, Matrix, capture, cells, explore, K, label, num, read
from .filters import plain

ENV = "envm_capture"
FIELDS = ["call_spec", "exp_moves", "nd_edge", "opts", "sh_name", "st_edge", "url_file", "xl_ref"]


# ------------------------------------------------------------------------------------------ regexes of the code
def shapes(p):
    """The sets of groups taking part in some match of a parsed pattern."""
    out = {frozenset()}
    for op, av in p:
        op = str(op)
        if op == "SUBPATTERN":
            x = shapes(av[-1])
            if av[0] is not None:
                x = {y | {av[0]} for y in x}
        elif op == "BRANCH":
            x = set().union(*[shapes(b) for b in av[1]])
        elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            x = shapes(av[2]) | ({frozenset()} if av[0] == 0 else set())
        elif op in ("ASSERT",):
            x = shapes(av[1])
        elif op == "ATOMIC_GROUP":
            x = shapes(av)
        elif op == "GROUPREF_EXISTS":
            x = shapes(av[1]) | (shapes(av[2]) if av[2] else {frozenset()})
        else:
            continue
        out = {a | b for a in out for b in x}
    return out


def widths(p, out=None):
    out = {} if out is None else out
    for op, av in p:
        op = str(op)
        if op == "SUBPATTERN":
            if av[0] is not None:
                out[av[0]] = av[-1].getwidth()[0]
            widths(av[-1], out)
        elif op == "BRANCH":
            for b in av[1]:
                widths(b, out)
        elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            widths(av[2], out)
    return out


def covering(every):
    """Few of the sets of groups, among which any two groups take part or not in all the ways they can."""
    gs = sorted(set().union(*every))
    pairs = lambda x: {(i, i in x, j, j in x) for i in gs for j in gs if i < j} or {(0, bool(x))}
    out, left = [], set().union(*[pairs(x) for x in every])
    while left:
        x = max(every, key=lambda x: (len(pairs(x) & left), -len(x)))
        out.append(x)
        left -= pairs(x)
    return out


FEW, DEEP = [False], [False]


def any_match(it, st, pat, subject):
    """All the kinds of outcomes of matching an unknown text: none, or each set of groups taking part (some of them only
    when another match preceded, or asked for few)."""
    yield st, NONE
    before = sum(k[1] == "cmatch" for k in st.over)
    p = sre.parse(pat.args[0].v, models.re_flags(pat.args[1]) or 0)
    w = widths(p)
    names = {v: k for k, v in p.state.groupdict.items()}
    every = sorted(shapes(p), key=lambda x: (len(x), sorted(x)))
    if len(every) > 9:
        every = every[:1] + every[-1:] if before and (FEW[0] or not DEEP[0]) else covering(every) if before or FEW[0] else every
    for sh in every:
        s = st.fork()
        n = s.fresh()
        term = App("match", (Const("match"), pat, subject, n))
        vals = [Sym("%s%s" % (names.get(i, "group%d" % i), n), "str", ["unique"] + (["nonempty"] if w.get(i) else [])) if i in sh else NONE for i in range(1, p.state.groups)]
        s.facts[("truth", term)] = s.facts[("notnone", term)] = True
        s.over[(term, "cmatch", None)] = App("cm", (tuple(vals), tuple(sorted((k, vals[i - 1]) for i, k in names.items())), Sym("matched%s" % show(n), "str")))
        yield s, term


def unknown_text(v, it, st):
    return isinstance(v, (Sym, App)) and not isinstance(it.strval(v, st), Const)


def caps(it, obj, st, args, kwargs, ctx, node):
    """Groups matched are in capitals already."""
    return iter([(st, obj)]) if isinstance(obj, Sym) and "unique" in obj.flags else None


def match_stub(it, obj, st, args, kwargs, ctx, node):
    if isinstance(obj, App) and obj.op == "re" and isinstance(obj.args[0], Const) and args and unknown_text(args[0], it, st):
        return any_match(it, st, obj, args[0])
    return None


def re_stub(kind):
    def f(it, st, args, kwargs, ctx, node):
        pat, s_ = args[0], args[1]
        if isinstance(pat, App) and pat.op == "re":
            pass
        else:
            fl = args[2] if len(args) > 2 else dict(kwargs).get("flags", Const(0))
            pat = App("re", (it.strval(pat, st), fl), "Pattern")
        if isinstance(pat.args[0], Const) and unknown_text(s_, it, st):
            yield from any_match(it, st, pat, s_)
        else:
            yield from models.re_match(it, kind, pat, it.strval(s_, st), st)
    return f


# ------------------------------------------------------------------------------------------ running
def parse(c, text, **cfg):
    fn = c.fn(ENV, "parsed")
    return c.run(fn, (Const(text) if isinstance(text, str) else text,), label="parse_xlref", **dict(CFG, **cfg))


def fields(o):
    """The dict parsed, or None."""
    v = o.val
    if not o.raised and isinstance(v, Ref) and isinstance(o.st.heap[v.oid], DictO) and not o.st.heap[v.oid].open:
        return {k.v: x for k, x in o.st.heap[v.oid].items if isinstance(k, Const)}
    return None


def deep(v, st):
    """A value as plain python data (terms stay)."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(deep(x, st) for x in v.items)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, ListO) and not o.open:
            return [deep(x, st) for x in o.items]
        if isinstance(o, DictO) and not o.open:
            return {deep(k, st): deep(x, st) for k, x in o.items}
    return v


def captures(c, rule, text, st_edge, nd_edge, exp=None, base=None, R=3, C=3):
    """The capture of an xl-ref's text agrees with the one documented for its edges."""
    fn = c.fn(ENV, "parsed_capture")
    st = c.state()
    m = Matrix(c, st, R, C)
    up, dn = (0, 0), (R - 1, C - 1)
    sub = "the xl-ref %r" % text
    for o in c.run(fn, (Const(text), m.ref, K(*up), K(*dn), K(*base) if base else NONE), st=st, label="capturing " + text, **CFG):
        got = read(o)
        if got is None or not m.plain(o.st):
            c.undecided(sub, repr(o)[:200])
            continue
        want = explore(lambda cell: capture(cell, up, dn, st_edge, nd_edge, exp, base), m.known(o.st))
        bad = [(w, g) for w, g in want if w != got]
        c.oblige(not bad, rule, sub, "" if not bad else "gives %s, expected %s%s" % (got, bad[0][0], cells(m, o.st, bad[0][1])), path=path_of(o))


def accepted(c, text):
    """Is the text an xl-ref? None when not known."""
    r = set()
    for o in parse(c, text):
        r.add(False if o.raised and o.raises("SyntaxError") else True)
    return r.pop() if len(r) == 1 else None


def works(c, rule, text, base=(1, 1)):
    """No capture of an accepted xl-ref fails but for finding nothing, whatever the cells."""
    fn = c.fn(ENV, "parsed_capture")
    st = c.state()
    m = Matrix(c, st, 2, 2)
    for o in c.run(fn, (Const(text), m.ref, K(0, 0), K(9999, 9999), K(*base)), st=st, label="capturing " + text, **CFG):
        c.oblige(not o.raised or o.raises(EMPTY), rule, "the xl-ref %r" % text, "fails: %s" % repr(o), path=path_of(o))


SPECIAL_A1 = ("^", "_")
ALL = ("^", "_", ".")


@check("X01", "Language inclusion by enumeration of the tokens of each slot of an xl-ref through the grammar found in the source, and dataflow of those accepted through the capturing over matrices of undecided cells",
       "All texts of up to three (four when thorough) direction letters as moves, of up to three letters, digits and marks as expansions, all special symbols, signs, digits and letters as coordinates, all marks as modifiers, in both cases and both edges.")
def x01(c):
    rule = "every token accepted is understood by the capturing"
    moves = ["".join(x) for n in (1, 2, 3) + ((4,) if c.thorough else ()) for x in itertools.product("LURD", repeat=n)] + ["N", "X", "LN", "S"]
    for edge in ("#A1(%s)", "#B2:..(%s)", "#R.C.(%s)", "#^_:R.C.(%s)"):
        for mv in moves:
            ok = accepted(c, edge % mv)
            if mv in MOVES:
                c.oblige(ok, "all documented moves are accepted", "moving %s in %s" % (mv, edge), "it is not an xl-ref")
            if ok is None:
                c.undecided(edge % mv, "accepted or not?")
                continue
            for text in (edge % mv, (edge % mv).lower(), edge % (mv[:1] + mv[1:].lower())):
                if text != edge % mv:
                    c.oblige(accepted(c, text) == ok, "the grammar is the same in any letter-case", "the xl-ref %r" % text, "accepted in one case only")
                if ok:
                    works(c, rule, text)
            if ok and len(mv) == 2:
                c.oblige((mv[0] in "LR") != (mv[1] in "LR"), "two-direction moves combine a horizontal with a vertical one", "moving %s in %s" % (mv, edge), "it is accepted")
    for edge in ("#A1(DR%s)", "#B2:..(L%s)", "#A1:B2(U%s)"):
        for mod in ("", "+", "?", "-", "*", "!", "++", "+?", "1"):
            ok = accepted(c, edge % mod)
            if mod in ("", "+", "?"):
                c.oblige(ok, "all documented modifiers are accepted", "the xl-ref %r" % (edge % mod), "it is not an xl-ref")
            if ok:
                works(c, rule, edge % mod)
                c.oblige(mod in ("", "+", "?"), rule, "the xl-ref %r" % (edge % mod), "it is accepted, while targeting knows '+' and '?' only")
    toks = ("^", "_", ".", "1", "7", "20", "123", "0", "01", "-1", "-12", "-0", "+1", "A", "a", "Zz", "XFD", "$", "é", "%", "~")
    for fmt, docs in (("#%(c)s%(r)s", "A1"), ("#A1:%(c)s%(r)s", "A1"), ("#R%(r)sC%(c)s", "RC"), ("#A1:R%(r)sC%(c)s", "RC"), ("#r%(r)sc%(c)s", "RC")):
        for r, k in itertools.product(toks, toks):
            text = fmt % dict(r=r, c=k)
            ok = accepted(c, text)
            known = ("^", "_") if docs == "A1" and ":" not in fmt else ("^", "_", ".") if docs == "RC" and ":" not in fmt else ("_", ".") if docs == "A1" else ("^", "_", ".")
            if docs == "A1":
                must = (r in ("1", "7", "20", "123") or r in ("_",)) and (k in ("A", "a", "Zz", "XFD") or k in ("_",))
            else:
                must = all(x in ("1", "7", "20", "123", "-1", "-12", "_", ".") for x in (r, k))
            if must:
                c.oblige(ok, "all documented coordinates are accepted", "the xl-ref %r" % text, "it is not an xl-ref")
            if ok:
                works(c, rule, text)
    exps = ["".join(x) for n in (1, 2, 3) for x in itertools.product("LD12?", repeat=n)] + list("URudlr") + ["LURD", "lurd", "L1U1R1D1", "R12", "d?", "uR2"]
    marks = [a % m for m in "!@#$%^&*()_+-=|~`'\"<>,.;/ NX" for a in ("R%s", "R%sD", "LU%s1", "D1%s", "R%s2")] + ["R10", "D0", "R100U20"]
    for e in marks:
        text = "#A1::" + e
        if accepted(c, text):
            works(c, rule, text)
    for e in exps:
        text = "#A1::" + e
        ok = accepted(c, text)
        if e[0].isalpha() and "??" not in e:
            c.oblige(ok, "all documented expansions are accepted", "the xl-ref %r" % text, "it is not an xl-ref")
            if ok:
                works(c, rule, text)


@check("X02", "Dataflow of the texts of xl-refs in every letter-case to the captures over matrices of undecided cells, compared with the documented ones; and to the fields which must keep their case",
       "Twelve xl-refs covering both notations, edges, moves, modifiers and expansions, each in upper, lower and two mixed cases; sheet names, urls and filters keep their case.")
def x02(c):
    rule = "letter-case never matters"
    E = lambda r, k, mov=None, mod=None: (r, k, mov, mod)
    refs = [("#B2", E("2", "B"), None, None), ("#AA1", E("1", "AA"), None, None), ("#R2C1", E("2", "1"), None, None), ("#A1(DR)", E("1", "A", "DR"), None, None),
            ("#C3(UL+)", E("3", "C", "UL", "+"), None, None), ("#R-1C_(LU)", E("-1", "_", "LU"), None, None), ("#A1(R):C3(DL)", E("1", "A", "R"), E("3", "C", "DL"), None),
            ("#B2:..(RD)", E("2", "B"), E(".", ".", "RD"), None), ("#R2C2:R.C.(U?)", E("2", "2"), E(".", ".", "U", "?"), None), ("#B2::LURD", E("2", "B"), ("_", "_", None, None), "LURD"),
            ("#B1:B2:R1D", E("1", "B"), E("2", "B"), "R1D"), ("#B2:..(L):RU?", E("2", "B"), E(".", ".", "L"), "RU1"), ("#R.C.(D):A_(U)", E(".", ".", "D"), E("_", "A", "U"), None)]
    alter = lambda t, k: "".join(ch.lower() if (i + k) % 2 else ch.upper() for i, ch in enumerate(t))
    for text, st, nd, exp in refs:
        for t in (text, text.lower(), alter(text, 0), alter(text, 1)):
            captures(c, rule, t, st, nd, exp, base=(0, 1))
    for name in ("Sheet", "sHEET", "sheet", "SHEET"):
        text = 'Book.%s#%s!a1(dr):{"func": "%s", "kwds": {"%s": "%s"}, "opts": {"%s": 1}}' % (name, name, name, name, name, name)
        for o in parse(c, text):
            f = fields(o)
            if f is None:
                c.oblige(False if o.raised else None, "names keep their case", "the xl-ref %r" % text, repr(o), path=path_of(o))
                continue
            f = {k: deep(v, o.st) for k, v in f.items()}
            c.oblige(f["url_file"] == "Book." + name and f["sh_name"] == name and f["call_spec"] == (name, [], {name: name}) and f["opts"] == {name: 1}, "names keep their case", "the xl-ref %r" % text,
                     "parsed into %s" % f, path=path_of(o))


MALFORMED = ("", "#", "A1", "##", "#A", "#1", "#A0", "#A1B2", "#A1(X)", "#A1(DRL)", "#A1(R", "#A1)R(", "#A1()", "#A1(+)", "#:::", "#::::", "#A1:B2:C3", "#!A1", "#a!b!A1", "#A1:B2(L", "#A1::", "#A1::LURD:", "#A1::5", "#A1::L5L",
             "#A1:{", "#A1:}", "#A1:{}", "#A1:[]", "#A1:[1]", '#A1:""', '#A1:"f', '#A1:"f"x', '#A1:{"func"}', "#A1:{'func': 1}", '#A1:{"func": 1}', '#A1:{"func": null}', '#A1:{"func": "f", "bogus": 1}', '#A1:{"bogus": 1}',
             '#A1:{"func": "f", "args": {}}', '#A1:{"func": "f", "args": "x"}', '#A1:{"func": "f", "kwds": []}', '#A1:{"func": "f", "kwds": 3}', '#A1:{"opts": 1}', '#A1:{"opts": []}', '#A1:{"opts": "x", "func": "f"}', '#A1:{"opts": {}}', '#A1:{"opts": null}',
             '#A1:["f", 1]', '#A1:["f", "x"]', '#A1:["f", [1], [2]]', '#A1:["f", {}, {}]', '#A1:["f", [1], {}, 3]', '#A1:["f", [], {}, []]', '#A1:[null]', "#A1:[[]]", "#A1:[{}]", '#A1:[null, [], {}]', '#A1:{"func": ["f"]}', '#A1:{"args": []}', '#A1:{"self": 1, "func": "f"}',
             "#A1:{}{}", '#A1:"f" "g"', "http://[bad#A1", '"#A1', '#A1"', "/#A1$", '"A1"', '"#A1B2"', '"#A1:{"', "$#A1::$", " # A1", "#A1 (R)", "#\n", "#A1\x00", "#Ä1", "#A１", "#R1", "#R1C", "#RC", "#R0C1", "#R1C-0", "#R-1C-1(RR)", "#.A", "#A.", "#..", "#^", "#-1")


@check("X03", "Exception-flow analysis of parsing any text, the matches of the grammar's regexes being any set of groups they can have, and of a table of malformed texts; fields complete; quoted texts agree with the unquoted ones",
       "Any text whatsoever: the groups of the regexes in the source are opaque and taken from their structure, JSON filters are of any type (varying over few sets of groups covering all pairs); eighty malformed texts; five quotes with blanks around. RecursionError for filters nested hundreds of levels deep is out of scope.")
def x03(c):
    rule = "parsing fails only with a syntax or a value error"

    def outcome(o, sub, text=None):
        if o.raised:
            ok = o.raises("SyntaxError", "ValueError") or bool(o.exc_names()) and all(any(o.it.exc_isa(x, n) for n in ("SyntaxError", "ValueError")) for x in o.exc_names())
            c.oblige(ok, rule, sub, repr(o), path=path_of(o))
            return
        f = fields(o)
        if f is None:
            c.oblige(None, "the complete set of fields is returned", sub, repr(o), path=path_of(o))
            return
        c.oblige(sorted(f) == FIELDS, "the complete set of fields is returned", sub, "fields: %s" % sorted(f), path=path_of(o))
        if text is not None:
            c.oblige(f.get("xl_ref") == Const(text), "the xl-ref returned is the text given", sub, show(f.get("xl_ref", NONE)), path=path_of(o))
    for text in MALFORMED:
        for o in parse(c, text):
            outcome(o, "the text %r" % text, text)
    for text in ("A1", "#A1B2", "#A1(X)", "#A1:B2:C3", "#", "", "#A1:B1:X", "text", "#A1(DR)Z20(UL)", "A1(DR)Z20(UL)"):
        for o in parse(c, text):
            c.oblige(o.raised and o.raises("SyntaxError"), "texts not being xl-refs are syntax errors", "the text %r" % text, repr(o), path=path_of(o))
    for text in tuple('#A1:{"opts": %s%s}' % (x, y) for x in ("[]", "[1]", "0", "7", "2.5", "true", "false", '""', '"x"') for y in ("", ', "func": "f"')) + ("#A1:{", "#A1:B1:{'Bad_JSON_str'}", '#A1:{"func": 1}', '#A1:["f", [1], [2]]', '#A1:{"opts": 1}', '#A1:{"bogus": 1}', '#A1:["f", 1]', '#A1:[1]', '#A1:{"func": "f", "args": {}}', '#A1:["f", [1], {}, 3]', '"#A1:{"'):
        for o in parse(c, text):
            c.oblige(o.raised and o.raises("ValueError"), "bad filters, options and call-specifiers are value errors", "the text %r" % text, repr(o), path=path_of(o))
    for q, blank, text in itertools.product('"/$%&', ("", " ", "\n"), ("#A1", "book.xls#Sheet!B2(DR):..(D+):LU", '#A1:["f", [1]]', "#:")):
        quoted = blank + q + text + q + blank
        ref = [fields(o) for o in parse(c, text)]
        for o in parse(c, quoted):
            sub = "the text %r" % quoted
            f = fields(o)
            if f is None:
                c.oblige(False if o.raised else None, "quoted xl-refs are parsed unquoted", sub, repr(o), path=path_of(o))
                continue
            outcome(o, sub, quoted)
            same = lambda f, st: {k: deep(v, st) for k, v in f.items() if k != "xl_ref"}
            for r in parse(c, text):
                c.oblige(same(f, o.st) == same(fields(r), r.st), "quoted xl-refs are parsed unquoted", sub, "parsed into %s" % same(f, o.st), path=path_of(o))
    for a, b in (("“", "”"), ("”", "“")):
        for o in parse(c, "#A1:%sf%s" % (a, b)):
            f = fields(o)
            c.oblige(f is not None and deep(f["call_spec"], o.st) == ("f", [], {}), "excel's double quotes are quotes", "the text with quotes %s %s" % (a, b), repr(o), path=path_of(o))

    # Any text.
    def defrag(it, st, args, kwargs, ctx, node):
        yield it.raise_new(st, "ValueError", (Const("Invalid IPv6 URL"),))
        s = st.fork()
        yield s, Tup((Sym("url%d" % s.fresh(), "str"), Sym("frag%d" % s.fresh(), "str")))

    def loads(values):
        def f(it, st, args, kwargs, ctx, node):
            yield it.raise_new(st, "ValueError", (Const("not JSON"),))
            for v in values:
                s = st.fork()
                yield s, build_json(s, v)
        return f
    DEEP[0] = c.thorough
    mst = {k: match_stub for k in ("match", "fullmatch", "search")}
    mst["upper"] = caps
    for values in [(J("str"),)] + [(v,) for v in jsons()]:
        stubs = {"urllib.parse.urldefrag": defrag, "json.loads": loads(values)}
        stubs.update({"re." + k: re_stub(k) for k in ("match", "fullmatch", "search")})
        FEW[0] = not isinstance(values[0], J)       # the types of filters vary with few xl-refs
        for o in parse(c, Sym("xlref", "str"), stubs=stubs, mstubs=mst, max_states=400000):
            outcome(o, "any text")
    FEW[0] = False


class J(object):
    """An opaque JSON value of a type."""

    def __init__(self, ty):
        self.ty = ty


def jsons():
    """A json value of each type, empty and not."""
    return (None, True, 0, J("float"), "", J("str"), [], [J("str")], [J("int")], [J("str"), [J("int")], {"k": J("str")}], [J("str"), J("int")], {}, {"func": J("str")}, {"func": J("int")}, {"opts": J("str")}, {"opts": {}, "func": J("str"), "bogus": None}, {"opts": {"o": J("int")}, "func": J("str")})


def build_json(st, v):
    if isinstance(v, J):
        return Sym("json%d" % st.fresh(), v.ty, *(["nonempty"] if v.ty == "str" else []))
    if isinstance(v, list):
        return st.alloc(ListO([build_json(st, x) for x in v]))
    if isinstance(v, dict):
        return st.alloc(DictO([(Const(k), build_json(st, x)) for k, x in v.items()]))
    return Const(v)


KINDS = {"text": "f", "empty": "", "number": 3, "float": 2.5, "true": True, "null": None, "list": ["x"], "none": [], "object": {"k": "v"}, "nothing": {}}


def spec_of(js):
    """The call-specifier documented for a json value, or the error."""
    if isinstance(js, str):
        f = (js, None, None)
    elif isinstance(js, list):
        if not 1 <= len(js) <= 3:
            return VALUE
        rest = js[1:]
        args, kwds = [x for x in rest if isinstance(x, list)], [x for x in rest if isinstance(x, dict)]
        if len(args) > 1 or len(kwds) > 1 or any(not isinstance(x, (list, dict)) and x is not None for x in rest):
            return VALUE
        f = (js[0], args[0] if args else None, kwds[0] if kwds else None)
    elif isinstance(js, dict):
        if "func" not in js or set(js) - {"func", "args", "kwds"}:
            return VALUE
        f = (js["func"], js.get("args"), js.get("kwds"))
    else:
        return VALUE
    if not isinstance(f[0], str) or f[1] is not None and not isinstance(f[1], list) or f[2] is not None and not isinstance(f[2], dict):
        return VALUE
    return (f[0], [] if f[1] is None else f[1], {} if f[2] is None else f[2])


@check("X04", "Decision-table extraction by abstract interpretation: the call-specifier parsed from every combination of JSON types in the three forms, compared with the documented normal form; alias analysis of two parsings",
       "Strings, lists of up to four items and objects of any of the keys func, args, kwds, opts and another, the items being of each of ten kinds of JSON values.")
def x04(c):
    fn = c.fn(ENV, "two_specs")
    cases = list(KINDS.values())
    ks = list(KINDS)
    for n in (1, 2, 3):
        for x in itertools.product(ks, repeat=n):
            if x[0] in ("text", "number", "null", "list", "empty") and (n < 3 or x[0] == "text" or x[1:] in (("list", "object"), ("null", "object"))):
                cases.append([KINDS[k] for k in x])
    cases += [["f", [], {}, None], ["f", [], {}, []], ["f", None, None, None], ["f", {}, [], {}]]
    for x in itertools.product((None,) + tuple(ks), repeat=2):
        for func in ("text", "number", None, "null"):
            d = {}
            if func:
                d["func"] = KINDS[func]
            for k, v in zip(("args", "kwds"), x):
                if v is not None:
                    d[k] = KINDS[v]
            if func == "text" or x[0] == x[1] or None in x:
                cases.append(d)
    cases += [{"func": "f", "bogus": 1}, {"func": "f", "args": [], "kwds": {}, "more": {}}, {"Func": "f"}, {"bogus": "f"}]
    for js in cases:
        for opts in ((None, {}, {"o": 1}) if isinstance(js, dict) else (None,)):
            full = dict(js, opts=opts) if opts is not None else js
            sub = "the filters %r" % (full,)

            def loads(it, st, args, kwargs, ctx, node):
                s = st.fork()
                yield s, build_json(s, full)
            want = spec_of(js) if js or isinstance(js, (bool, int, float)) and js else None
            for o in c.run(fn, (Const('#A1:{"stub"}'),), label="parse_xlref", stubs={"json.loads": loads}, **CFG):
                if o.raised:
                    c.oblige(want == VALUE and o.raises("ValueError"), "call-specifiers are normalised or value errors", sub, "%s, expected %s" % (repr(o), want), path=path_of(o))
                    continue
                a, b = o.val.items if isinstance(o.val, Tup) and len(o.val.items) == 2 else (None, None)
                got = deep(a, o.st) if a is not None else None
                c.oblige(got == want, "call-specifiers are normalised or value errors", sub, "parsed into %s, expected %s" % (got, want), path=path_of(o))
                if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) == 3:
                    for i in (1, 2):
                        c.oblige(not (isinstance(a.items[i], Ref) and a.items[i] == b.items[i]), "defaults are never shared between calls", sub, "two parsings share their %s" % ("args", "kwds")[i - 1], path=path_of(o))
