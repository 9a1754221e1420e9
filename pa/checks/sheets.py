"""Sheets: their factories, backends, reading and plugins (X16-X20, X26)."""
import datetime
import itertools
import urllib.parse
from ..harness import *
from .lassos import logged
from ..core import Raised
from .filters import plain, shp, build

ENV = "envm_sheets"
NAMES = ("one", "two", "three")


def url_of(v):
    return Const("file:///" + v.v) if isinstance(v, Const) and isinstance(v.v, str) and not v.v.startswith("file:") else v


class Books(object):
    """Workbooks with three named sheets each; every opening gives a new sheet."""

    def __init__(self, bids=None, found=True):
        self.bids, self.found = bids or {}, found

    def opened(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        n = 100 + len([1 for e in events_of(s) if e[0] == "opened"])
        sid = args[1].v
        idx = 0 if sid is None else sid if isinstance(sid, int) else NAMES.index(sid)
        s.event("opened", args[0], args[1], n)
        yield s, Tup((Const(n), Const(NAMES[idx]), Const(idx)))

    def ev(self, name):
        def f(it, st, args, kwargs, ctx, node):
            s = st.fork()
            s.event(name, *args)
            yield s, NONE
        return f

    def p_bid(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("bid", *args)
        b = self.bids.get(args[0].v, 0)
        if callable(b):
            b = b(args[1])
        if isinstance(b, str):
            yield it.raise_new(s, b, (Const("boom"),))
        else:
            yield s, Const(b)

    def p_found(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("asked", *args)
        yield s, boolv(self.found)

    def p_url(self, it, st, args, kwargs, ctx, node):
        yield st, url_of(args[0])

    def config(self):
        d = {"oracle." + n: self.ev(n) for n in ("op", "got", "closed", "closed_all")}
        d.update({"oracle.opened": self.opened, "oracle.bid": self.p_bid, "oracle.found": self.p_found, "path2url": self.p_url})
        return dict(stubs=d, raises="none", loop_k=12, comp_k=12, rec_k=8)


def events_of(st):
    out, t = [], st.trace
    while t is not None:
        out.append(t[1])
        t = t[0]
    return out


def simulate(ops):
    """What a cache of sheets by all their names does: per operation (serial got, openings, sheets closed, books closed)."""
    cache, sheets, last, nopen = {}, {}, None, 0
    out = []

    def put(serial, wbs, ids):
        keys = {(w, i) for w in wbs if w for i in ids}
        closed = {cache[k] for k in keys if k in cache and cache[k] != serial}
        for k in [k for k, v in cache.items() if v in closed]:
            del cache[k]
        for k in keys:
            cache[k] = serial
        return closed

    for op in ops:
        got, opened, closed, books = None, [], set(), set()
        if op[0] in ("fetch", "sibling"):
            if op[0] == "sibling" and last is None:
                out.append((None, [], set(), set()))
                continue
            if op[0] == "sibling":
                book, sid = sheets[last][0], op[1]
                wb = book
            else:
                wb, sid = op[1], op[2]
                book = "file:///" + wb
            if op[0] == "sibling" and sid is None:
                got = last
            elif (wb, sid) in cache:
                got = cache[(wb, sid)]
            else:
                got = 100 + nopen
                nopen += 1
                idx = 0 if sid is None else sid if isinstance(sid, int) else NAMES.index(sid)
                sheets[got] = (book, NAMES[idx], idx)
                opened.append((book, sid))
                closed = put(got, (book, wb), (NAMES[idx], idx, sid))
            last = got
        elif op[0] == "add":
            last = op[1]
            sheets[last] = op[2:5]
            closed = put(last, (op[2],) + tup(op[5]), op[3:5] + tup(op[6]))
        elif op[0] == "readd":
            if last is not None:
                b, n, i = sheets[last]
                closed = put(last, (b,) + tup(op[1]), (n, i) + tup(op[2]))
        else:
            books = {sheets[s][0] for s in cache.values()}
            cache.clear()
        out.append((got, opened, closed, books))
    return out


def tup(x):
    return tuple(x) if isinstance(x, (list, tuple)) else (x,)


def absop(st, op):
    return Tup([build(st, [Const(y) for y in x]) if isinstance(x, list) else Const(x) for x in op])


@check("X16", "Typestate analysis of the sheets cache over histories of fetches, additions and closes of arbitrary sheets, compared step by step with a cache keyed by all names",
       "All histories of two operations out of twenty and of three out of nine (four out of six when thorough), on two workbooks of three sheets each, with aliases for workbooks and sheets.")
def x16(c):
    fn = c.fn(ENV, "history")
    ops = [("fetch", "a", "one"), ("fetch", "a", 0), ("fetch", "a", None), ("fetch", "a", "two"), ("fetch", "b", "one"), ("fetch", "a", 1), ("sibling", "two"), ("sibling", 0), ("sibling", None), ("sibling", "three"),
           ("add", 1, "file:///a", "one", 0, None, []), ("add", 2, "file:///a", "one", 0, "a", []), ("add", 3, "x", "one", 0, ["a", "y"], ["top", None]), ("add", 4, "x", "two", 1, [], ["top"]), ("add", 5, "file:///b", "one", 0, "b", None),
           ("readd", "a", "alias"), ("readd", [], ["one", "two"]), ("fetch", "b", 2), ("close",), ("with",)]
    few = [ops[0], ops[1], ops[3], ops[6], ops[8], ops[11], ops[12], ops[13], ops[15], ops[18]]
    texts = [("add", 6, "file:///a", "1", 5, "a", []), ("add", 7, "file:///a", "top", 1, "a", []), ("fetch", "a", "1"), ("fetch", "a", 1)]
    hist = [p + q for p in itertools.permutations(texts[:2]) for q in itertools.permutations(texts[2:])] + list(itertools.product(ops, ops)) + [h + (ops[0],) for h in itertools.product(few, few)] + list(itertools.product(few[:1] + few[3:], few, few[:4] + few[8:]))
    if c.thorough:
        hist += list(itertools.product(few, few, few, few[:4]))
    for h in hist:
        h = tuple((o[0], o[1] + 10 * i) + o[2:] if o[0] == "add" else o for i, o in enumerate(h)) + (("fetch", "a", "one"), ("close",))
        st = c.state()
        want = simulate(h)
        outs = c.run(fn, (st.alloc(ListO([absop(st, o) for o in h])),), st=st, label="history", **Books().config())
        sub = "history %s" % "; ".join(" ".join(map(str, o)) for o in h)
        for o in outs:
            if o.raised:
                c.bad("sheets are served", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                continue
            segs, cur = [], None
            for e in o.events:
                if e[0] == "op":
                    cur = []
                    segs.append(cur)
                elif cur is not None:
                    cur.append(e)
            for i, (op, (got, opened, closed, books), ev) in enumerate(zip(h, want, segs)):
                who = "%s at step %d (%s)" % (sub, i + 1, " ".join(map(str, op)))
                g = [e[1].v for e in ev if e[0] == "got"]
                op_ = [(e[1].v, e[2].v) for e in ev if e[0] == "opened"]
                cl = [e[1].v for e in ev if e[0] == "closed"]
                bk = {e[1].v for e in ev if e[0] == "closed_all"}
                c.oblige(op_ == opened, "a sheet is opened only when not in the cache", who, "opened %s, expected %s" % (op_, opened), path=path_of(o))
                c.oblige(g == ([got] if got is not None else []), "the cached sheet is served under each of its ids", who, "got sheet %s, expected %s" % (g, got), path=path_of(o))
                c.oblige(set(cl) == closed, "exactly the replaced sheets are closed", who, "closed %s, expected %s" % (sorted(cl), sorted(closed)), path=path_of(o))
                c.oblige(bk == books, "closing the factory closes all its sheets", who, "closed workbooks %s, expected %s" % (sorted(bk), sorted(books)), path=path_of(o))
    for simple in (True, False):
        for sid in (None, "one", "two", 0, 1, 2):
            for cached in (False,) if simple else (False, True):
                own = sid is None or cached and sid in ("one", 0)
                sub = "%s factory fetching %r by a base sheet%s" % ("simple" if simple else "caching", sid, " in the cache" if cached else "")
                for o in c.run(c.fn(ENV, "based"), (boolv(simple), Const(sid), boolv(cached)), label="based", **Books().config()):
                    ops = [(e[1].v, e[2].v) for e in o.events if e[0] == "opened"]
                    c.oblige(not o.raised and o.val == Const(1 if own else 100) and ops == ([] if own else [("file:///a", sid)]), "without a workbook the base sheet is used, or its sibling", sub,
                             "opened %s, ended with %r" % (ops, o), path=path_of(o))


    for simple in (True, False):
        for url in ("b", None):
            for based in (True, False) if url else (False,):
                for sid in (None, "one", 0, "two"):
                    sub = "%s factory fetching %r of %r%s" % ("simple" if simple else "caching", sid, url, " with a base sheet of another workbook" if based else "")
                    for o in c.run(c.fn(ENV, "based_elsewhere"), (boolv(simple), Const(url), Const(sid), boolv(based)), label="based", **Books().config()):
                        ops = [(e[1].v, e[2].v) for e in o.events if e[0] == "opened"]
                        if url is None:
                            c.oblige(None if not o.raised and ops not in ([], [(None, sid)]) else True, "a workbook named is the one opened", sub, "opened %s" % ops, path=path_of(o))
                            continue
                        c.oblige(not o.raised and o.val == Const(100) and ops == [("file:///b", sid)], "a workbook named is the one opened", sub, "opened %s, ended with %r" % (ops, o), path=path_of(o))


@check("X17", "Enumerative dataflow of the auction among up to three (four when thorough) backends with every combination of bids, opening and listing through both factories",
       "Bids none, negative, zero and positive, ties included; sheets found or not; backends given or the default ones.")
def x17(c):
    bids = [None, -1, 0, 1, 100]
    combos = [x for n in ((1, 2, 3, 4) if c.thorough else (1, 2, 3)) for x in itertools.product(bids, repeat=n)]
    url = Const("a")
    for combo in combos:
        best = [i for i, b in enumerate(combo) if b is not None and b == max(x for x in combo if x is not None)]
        for simple in (True, False):
            for found in (True, False):
                sub = "backends bidding %s%s" % (combo, "" if found else ", finding no sheet")
                w = Books(dict(enumerate(combo)), found)
                for o in c.run(c.fn(ENV, "auction"), (Const(len(combo)), boolv(simple), url, Const("two")), label="fetch_sheet", **w.config()):
                    auctioned(c, o, best, found, sub)
            if len(combo) < 4:
                w = Books(dict(enumerate(combo)))
                cfg = w.config()
                cfg["stubs"]["oracle.listed"] = lambda it, st, args, kwargs, ctx, node: iter([(st, App("names", args))])
                for o in c.run(c.fn(ENV, "listing"), (Const(len(combo)), boolv(simple), url), label="list_sheetnames", **cfg):
                    sub = "backends bidding %s, listing sheets" % (combo,)
                    if best:
                        c.oblige(not o.raised and isinstance(o.val, App) and o.val.op == "names" and o.val.args[0].v in best, "the highest bidder handles the workbook", sub, "ended with %r" % o, path=path_of(o))
                    else:
                        c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "with no bidder it is a value error", sub, "ended with %r" % o, path=path_of(o))
    def by(table):
        return lambda u: table.get(u.parts[-1] if isinstance(u, Str) else u.v.rsplit("/", 1)[-1] if isinstance(u, Const) else None)
    for simple in (True, False):
        for t0, t1 in itertools.product([{"a.xls": x, "b.xls": y} for x in (None, 1, 100) for y in (None, 1, 100)], repeat=2):
            sub = "backends bidding %s and %s" % (t0, t1)
            w = Books({0: by(t0), 1: by(t1)})
            for o in c.run(c.fn(ENV, "auctions"), (Const(2), boolv(simple), Tup((Const("a.xls"), Const("b.xls"), Const("a.xls"))), Const("two")), label="fetch_sheet twice", **w.config()):
                judge_auctions(c, o, (t0, t1), sub)
    for b in bids:
        w = Books({7: b})
        cfg = w.config()
        for o in c.run(c.fn(ENV, "default_auction"), (url, Const("two")), label="fetch_sheet", raise_filter=None, **cfg):
            asked = {e[1].v for e in o.events if e[0] == "bid"}
            c.oblige(7 in asked, "without backends given, the installed ones bid", "installed backend bidding %s" % b, "bids asked to %s" % sorted(asked), path=path_of(o))


def judge_auctions(c, o, tables, sub):
    """Each of the workbooks asked, in any order, is opened by its own highest bidder."""
    if o.raised:
        c.bad("each workbook has its own auction", sub, "ended with %r" % o, path=path_of(o))
        return
    cur, seen = None, {}
    for e in o.events:
        if e[0] == "op":
            cur = e[1].v
        elif e[0] == "asked":
            seen[cur] = e[1].v
        elif e[0] == "got":
            seen[cur] = None
    for u in ("a.xls", "b.xls"):
        bs = [t[u] for t in tables]
        best = [i for i, b in enumerate(bs) if b is not None and b == max(x for x in bs if x is not None)]
        c.oblige(seen.get(u, -1) in (best or [None]), "each workbook has its own auction", "%s; %s" % (sub, u), "opened by %s, best are %s" % (seen.get(u, -1), best), path=path_of(o))


def auctioned(c, o, best, found, sub):
    asked = {e[1].v: e[2] for e in o.events if e[0] == "bid"}
    openers = [(e[1].v, e[2], e[3]) for e in o.events if e[0] == "asked"]
    U = Const("file:///a")
    c.oblige(all(u == U for u in asked.values()), "backends bid for the url of the workbook", sub, "bids asked for %s" % sorted(map(show, asked.values())), path=path_of(o))
    if not best:
        c.oblige(not openers and o.raised and o.exc_names() == frozenset(["ValueError"]), "with no bidder it is a value error", sub, "opened by %s, ended with %r" % (openers, o), path=path_of(o))
        return
    c.oblige(len(openers) == 1 and openers[0][0] in best, "the highest bidder opens the workbook", sub, "opened by %s, best are %s" % ([x[0] for x in openers], best), path=path_of(o))
    c.oblige(all(u == U and i == Const("two") for _, u, i in openers), "the workbook and sheet asked are opened", sub, "opened %s" % [(show(u), show(i)) for _, u, i in openers], path=path_of(o))
    if found:
        c.oblige(not o.raised, "the sheet opened is returned", sub, "ended with %r" % o, path=path_of(o))
    else:
        c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "a missing sheet is a value error", sub, "ended with %r" % o, path=path_of(o))


EMPTY, TEXT, NUMBER, DATE, BOOLEAN, ERROR, BLANK = range(7)
VTYPE = {EMPTY: "str", TEXT: "str", NUMBER: "float", DATE: "float", BOOLEAN: "int", ERROR: "int", BLANK: "str", 7: "str"}


class Xlrd(object):
    """A workbook of the excel library with sheets of given cell-types; openings may fail."""

    def __init__(self, grids, datemode=0, fails=None, remote=False, nrows=None, vals=None, sheets=NAMES):
        self.sheetnames = sheets
        self.grids, self.datemode, self.fails, self.nrows, self.vals = grids, datemode, fails, nrows, vals or {}

    def value(self, i, r, k, t):
        return self.vals.get((i, r, k)) or cellval(i, r, k, t)

    def p_open(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("book", args, tuple(kwargs))
        if self.fails == "open":
            yield it.raise_new(s, "OSError", (Const("boom"),))
            return
        b = Sym("book", "Book", "nonempty")
        for a, v in (("datemode", Const(self.datemode)), ("nsheets", Const(len(self.grids))), ("filestr", Sym("filestr", "str")), ("on_demand", FALSE)):
            s.over[(b, "attr", a)] = v
        yield s, b

    def sheet(self, it, st, i):
        s = st.fork()
        sh = Sym("xls%d" % i, "Sheet", "nonempty")
        g = self.grids[i]
        rows = [s.alloc(ListO([Const(t) for t in r])) for r in g]
        n = len(g), max([len(r) for r in g] or [0])
        vals = [s.alloc(ListO([self.value(i, r, k, t) for k, t in enumerate(row)])) for r, row in enumerate(g)]
        for a, v in (("_cell_types", s.alloc(ListO(rows))), ("_cell_values", s.alloc(ListO(vals))), ("nrows", Const(n[0])), ("ncols", Const(n[1])), ("name", Const(self.sheetnames[i])), ("number", Const(i)), ("book", Sym("book", "Book", "nonempty"))):
            s.over[(sh, "attr", a)] = v
        return s, sh

    def by_index(self, it, obj, st, args, kwargs, ctx, node):
        i = args[0].v if isinstance(args[0], Const) else None
        if not isinstance(i, int):
            return None
        st = st.fork()
        st.event("byindex", args[0])
        if not -len(self.grids) <= i < len(self.grids):
            return iter([it.raise_new(st, "IndexError", (Const("list index out of range"),))])
        return iter([self.sheet(it, st, range(len(self.grids))[i])])

    def by_name(self, it, obj, st, args, kwargs, ctx, node):
        n = args[0]
        st = st.fork()
        st.event("byname", n)
        if isinstance(n, Const) and n.v in self.sheetnames[:len(self.grids)]:
            return iter([self.sheet(it, st, self.sheetnames.index(n.v))])
        return iter([it.raise_new(st, "XLRDError", (Const("no sheet named"),))])

    def cell(self, it, obj, st, args, kwargs, ctx, node):
        g = self.grid(obj)
        if g is None or not all(isinstance(a, Const) and isinstance(a.v, int) for a in args) or len(args) != 2:
            return None
        r, k = args[0].v, args[1].v
        if not (-len(g) <= r < len(g) and -len(g[r]) <= k < len(g[r])):
            return iter([it.raise_new(st, "IndexError", (Const("cell"),))])
        r, k = r % len(g), k % len(g[r])
        s = st.fork()
        c = Sym("cell%d_%d_%d" % (int(obj.name[3:]), r, k), "Cell_", "nonempty")
        s.over[(c, "attr", "ctype")] = Const(g[r][k])
        s.over[(c, "attr", "value")] = self.value(int(obj.name[3:]), r, k, g[r][k])
        return iter([(s, c)])

    def cell_value(self, it, obj, st, args, kwargs, ctx, node):
        r = self.cell(it, obj, st, args, kwargs, ctx, node)
        return r and (x if isinstance(x[1], Raised) else (x[0], x[0].over[(x[1], "attr", "value")]) for x in r)

    def cell_type(self, it, obj, st, args, kwargs, ctx, node):
        r = self.cell(it, obj, st, args, kwargs, ctx, node)
        return r and (x if isinstance(x[1], Raised) else (x[0], x[0].over[(x[1], "attr", "ctype")]) for x in r)

    def grid(self, obj):
        return self.grids[int(obj.name[3:])] if isinstance(obj, Sym) and obj.name.startswith("xls") else None

    def row(self, attr):
        def f(it, obj, st, args, kwargs, ctx, node):
            g = self.grid(obj)
            if g is None or not args or not isinstance(args[0], Const):
                return None
            i = args[0].v
            if not -len(g) <= i < len(g):
                return iter([it.raise_new(st, "IndexError", (Const("row"),))])
            s = st.fork()
            n = int(obj.name[3:])
            if attr == "len":
                return iter([(s, Const(len(g[i])))])
            return iter([(s, s.alloc(ListO([Const(t) if attr == "types" else self.value(n, i % len(g), k, t) for k, t in enumerate(g[i])])))])
        return f

    def names(self, it, obj, st, args, kwargs, ctx, node):
        if obj != Sym("book"):
            return None
        s = st.fork()
        return iter([(s, s.alloc(ListO([Const(n) for n in self.sheetnames[:len(self.grids)]])))])

    def urlopen(self, it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("connect", args)
        if self.fails == "connect":
            yield it.raise_new(s, "OSError", (Const("boom"),))
        else:
            yield s, Sym("response", "Response_", "nonempty")

    def on_response(self, what):
        def f(it, obj, st, args, kwargs, ctx, node):
            if not isinstance(obj, (Sym, App)) or not mentions_(obj, Sym("response")):
                return None
            s = st.fork()
            s.event("response", what)
            if what == "read" and self.fails == "read":
                return iter([it.raise_new(s, "OSError", (Const("boom"),))])
            return iter([(s, obj if what == "enter" else App("contents", (Sym("response"),), "bytes") if what == "read" else NONE)])
        return f

    def config(self, **kw):
        d = dict(stubs={"xlrd.open_workbook": self.p_open, "urllib.request.urlopen": self.urlopen, "path2url": Books().p_url},
                 mstubs={"sheet_by_index": self.by_index, "sheet_by_name": self.by_name, "cell": self.cell, "cell_value": self.cell_value, "cell_type": self.cell_type, "row_types": self.row("types"),
                         "row_values": self.row("values"), "row_len": self.row("len"), "sheet_names": self.names, "read": self.on_response("read"), "__enter__": self.on_response("enter"),
                         "__exit__": self.on_response("exit"), "close": self.on_response("exit")}, raises="none", loop_k=6, comp_k=6, rec_k=8)
        d.update(kw)
        return d


def cellval(i, r, k, t):
    return Sym("v%d_%d_%d" % (i, r, k), VTYPE.get(t, "str"))


FILE = Const("file:///a.xls")


def converted(c, o, v, i, r, k, t, datemode, sub, single=False):
    """Whether v is how the cell (r, k) of type t reads."""
    x = cellval(i, r, k, t)
    what = "cell (%d, %d) of type %d read as %s" % (r, k, t, show(v, o.st))
    rule = "cells are converted by their type"
    if t in (EMPTY, BLANK):
        c.oblige(v == NONE, rule, sub, what, path=path_of(o))
    elif t == TEXT:
        c.oblige(v == x, rule, sub, what, path=path_of(o))
    elif t == BOOLEAN:
        c.oblige(v in (TRUE, FALSE) or o.it.types(v, o.st) == frozenset(["bool"]) and mentions_(v, x), rule, sub, what, path=path_of(o))
        if v in (TRUE, FALSE):
            tr = o.st.facts.get(("truth", x), o.st.facts.get(("val", x)))
            c.oblige(tr is None or bool(tr) == (v == TRUE), rule, sub, what, path=path_of(o))
    elif t == ERROR:
        c.oblige(isnan_(v), rule, sub, what, path=path_of(o))
    elif t == NUMBER:
        n = App("int", (x,))
        if v == x:
            same = [b for kk, b in o.st.facts.items() if kk[0] == "==" and x in kk[1:] and n in kk[1:]] + [b for kk, b in o.st.facts.items() if kk[0] == "truth" and isinstance(kk[1], App) and kk[1].op == "m:is_integer"]
            c.oblige(True if same and not any(same) else None if not same else False, "integral numbers become integers", sub, what, path=path_of(o))
        else:
            c.oblige(v == n, rule, sub, what, path=path_of(o))
    elif t == DATE:
        calls = set()
        subterms(v, calls)
        dec = [a for a in calls if isinstance(a, App) and a.op.startswith("call:xlrd.xldate") or isinstance(a, App) and "xldate_as" in a.op]
        good = bool(dec) and all(a.args[0] == x for a in dec)
        c.oblige(good, rule, sub, what, path=path_of(o))
        for a in dec:
            m = a.args[1] if len(a.args) > 1 else None
            c.oblige(isinstance(m, Const) and bool(m.v) == bool(datemode), "dates are decoded with the epoch of their workbook", sub, "%s in a workbook with datemode %d" % (show(a), datemode), path=path_of(o))


def mentions_(v, x):
    s = set()
    subterms(v, s)
    return x in s


def subterms(v, out):
    if v in out:
        return
    out.add(v)
    if isinstance(v, App):
        for a in v.args:
            if isinstance(a, Val):
                subterms(a, out)
    elif isinstance(v, Tup):
        for a in v.items:
            subterms(a, out)
    elif isinstance(v, Lin):
        for t, _ in v.terms:
            subterms(t, out)


def isnan_(v):
    return isinstance(v, Const) and isinstance(v.v, float) and v.v != v.v or isinstance(v, Ext) and v.name.rsplit(".", 1)[-1].lower() == "nan" or isinstance(v, App) and v.op in ("float", "call:builtins.float") and v.args[0] == Const("nan")


@check("X19", "Exhaustive dataflow over the cell types of the excel library: how each is converted, by a single cell and within a rectangle, in both epochs and in sibling sheets, against how it is marked in the states matrix",
       "All types of the library and one unknown, values symbolic.")
def x19(c):
    known_cells(c)
    for dm in (0, 1):
        for t in range(8):
            g = [[t, TEXT], [NUMBER, t]]
            for fn, args, i in (("xlrd_rect", (FILE, Const("one")), 0), ("xlrd_sibling_rect", (FILE, Const(0), Const("two")), 1)):
                grids = [g, g]
                for nd in (None, (1, 1)):
                    sub = "%s of cells of type %d, datemode %d" % ("rectangle" if nd else "cell", t, dm)
                    outs = c.run(c.fn(ENV, fn), args + (Tup((Const(0), Const(0))), Tup((Const(1), Const(1))) if nd else NONE), label=fn, **Xlrd(grids, dm).config())
                    for o in outs:
                        if t == 7:
                            c.oblige(o.raised and o.exc_names() == frozenset(["ValueError"]), "unknown types are refused", sub, "ended with %r" % o, path=path_of(o))
                            continue
                        if o.raised:
                            c.bad("cells of all types are read", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                            continue
                        if nd is None:
                            converted(c, o, o.val, i, 0, 0, t, dm, sub)
                        else:
                            p = plain(o.val, o.st)
                            if not (isinstance(p, tuple) and len(p) == 3 and all(isinstance(r, tuple) and len(r) == 3 for r in p[1:])):
                                c.bad("rectangles are lists of rows", sub, "read %s" % shp(p), path=path_of(o))
                                continue
                            for r in (0, 1):
                                for k in (0, 1):
                                    converted(c, o, p[r + 1][k + 1], i, r, k, g[r][k], dm, sub)
            if t == 7:
                continue
            for o in c.run(c.fn(ENV, "xlrd_states"), (FILE, Const(0)), label="states", **Xlrd([g], dm).config()):
                sub = "states of cells of type %d" % t
                if o.raised:
                    c.bad("states of all types", sub, "raised %r" % o, path=path_of(o))
                    continue
                m = o.st.heap[o.val.items[0].oid] if isinstance(o.val.items[0], Ref) else None
                if not isinstance(m, ArrO):
                    c.undecided(sub, "states are %s" % show(o.val, o.st))
                    continue
                want = (boolv(t not in (EMPTY, BLANK)), TRUE, TRUE, boolv(t not in (EMPTY, BLANK)))
                c.oblige(m.shape == (2, 2) and tuple(m.items) == want, "exactly the types read as empty are marked empty", sub, "states %s" % show(Tup(m.items)), path=path_of(o))


NUMBERS = (0.0, 1.0, -1.0, 3.5, -0.5, 1e15, 12345678901.0, 0.1, 2.0 ** 53)
MOMENTS = ((1899, 12, 31, 7, 8, 9, 10), (1904, 1, 1, 7, 8, 9, 10), (1899, 12, 30, 0, 0, 0, 0), (1900, 1, 1, 1, 2, 3, 4), (1904, 1, 2, 0, 0, 0, 0), (1904, 2, 1, 0, 0, 0, 0), (1905, 1, 1, 5, 0, 0, 0),
           (1900, 12, 31, 1, 1, 1, 1), (1899, 11, 30, 1, 1, 1, 1), (2020, 2, 29, 23, 59, 59, 999999), (1899, 12, 31, 0, 0, 0, 0), (1904, 1, 1, 0, 0, 0, 0))


def moment(it, st, m):
    """A date-time of known fields, and whether these are read as its date or its time."""
    d = Sym("moment", "datetime", "nonempty")
    for a, v in zip(("year", "month", "day", "hour", "minute", "second", "microsecond"), m):
        st.over[(d, "attr", a)] = Const(v)
    return d


def known_cells(c):
    """Constant numbers, flags and date-times propagated through the conversion."""
    rule = "cells are converted by their type"
    for t, vals in ((NUMBER, NUMBERS), (BOOLEAN, (0, 1)), (TEXT, ("", "0", "1.0", " a ", "True"))):
        for x in vals:
            sub = "the cell %r of type %d" % (x, t)
            for nd in (None, (0, 0)):
                for o in c.run(c.fn(ENV, "xlrd_rect"), (FILE, Const(0), Tup((Const(0), Const(0))), Tup((Const(0), Const(0))) if nd else NONE), label="read", **Xlrd([[[t]]], vals={(0, 0, 0): Const(x)}).config()):
                    v = plain(o.val, o.st) if not o.raised else None
                    v = v[1][1] if nd and isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) == 2 else None if nd else v
                    want = int(x) if t == NUMBER and x == int(x) else bool(x) if t == BOOLEAN else x
                    if isinstance(v, App):
                        c.undecided(sub, "read %s" % show(v, o.st))
                        continue
                    c.oblige(isinstance(v, Const) and v.v == want and type(v.v) is type(want), rule, sub, "read as %s" % (show(v, o.st) if v is not None else repr(o)), path=path_of(o))
    for dm in (0, 1):
        epoch = (1904, 1, 1) if dm else (1899, 12, 31)
        for m in MOMENTS:
            def decoded(it, st, args, kwargs, ctx, node):
                s = st.fork()
                yield s, moment(it, s, m)

            def on(f):
                def g(it, obj, st, args, kwargs, ctx, node):
                    if obj != Sym("moment"):
                        return None
                    s = st.fork()
                    return iter([(s, f(s))])
                return g
            x = Xlrd([[[DATE]], [[DATE]]], dm).config()
            x["stubs"]["xlrd.xldate.xldate_as_datetime"] = decoded
            x["stubs"]["datetime.date"] = lambda it, st, args, kwargs, ctx, node: iter([(st, Tup((Const("date"),) + tuple(args)))]) if len(args) == 3 and not kwargs else None
            x["mstubs"].update(timetuple=on(lambda s: Tup([Const(z) for z in m[:6]] + [Const(0), Const(1), Const(-1)])), time=on(lambda s: Sym("time-of-moment")), date=on(lambda s: Tup([Const("date")] + [Const(z) for z in m[:3]])),
                               toordinal=on(lambda s: Const(datetime.date(*m[:3]).toordinal())))
            sub = "the date-time %s, datemode %d" % (m, dm)
            zero = Tup((Const(0), Const(0)))
            outs = [(o, nd) for fn, ids in (("xlrd_rect", (Const(0),)), ("xlrd_sibling_rect", (Const(0), Const(1)))) for nd in (False, True) for o in c.run(c.fn(ENV, fn), (FILE,) + ids + (zero, zero if nd else NONE), label="read", **x)]
            for o, nd in outs:
                if o.raised:
                    c.bad(rule, sub, "ended with %r" % o, path=path_of(o))
                    continue
                v = o.val
                if nd:
                    v = plain(v, o.st)
                    if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) == 2):
                        c.undecided(sub, "read %s" % show(o.val, o.st))
                        continue
                    v = v[1][1]
                    v = Tup(v[1:]) if isinstance(v, tuple) else v
                rule2 = "only dates on the epoch of their workbook are times"
                if m[:3] != epoch:
                    if v == Sym("moment"):
                        c.ok(rule2, sub)
                    elif isinstance(v, App) and v.op.rsplit(".", 1)[-1] in ("time", "date") or isinstance(v, Tup) or v in (Sym("time-of-moment"), NONE):
                        c.bad(rule2, sub, "read as %s" % show(v, o.st), path=path_of(o))
                    else:
                        c.undecided(sub, "read as %s" % show(v, o.st))
                elif v == Sym("time-of-moment"):
                    c.ok(rule2, sub)
                elif isinstance(v, App) and v.op == "call:datetime.time":
                    kw = dict((a[0], a[1]) for a in v.args if isinstance(a, tuple))
                    pos = [a for a in v.args if isinstance(a, Val)][:4]
                    f = [kw.get(n, Const(0)) if i >= len(pos) else pos[i] for i, n in enumerate(("hour", "minute", "second", "microsecond"))]
                    c.oblige(f == [Const(z) for z in m[3:]], "times keep their fields", sub, "read as %s" % show(v, o.st), path=path_of(o))
                elif v == Sym("moment") or v == NONE:
                    c.bad(rule2, sub, "a date on the epoch read as %s" % show(v, o.st), path=path_of(o))
                else:
                    c.undecided(sub, "read as %s" % show(v, o.st))


@check("X18", "Exhaustive dataflow of reading rectangles and cells of small sheets of every kind, cells symbolic, corners inside and outside the sheet; coverage of the corners and freshness of the lists",
       "Sheets up to 3x3 and all pairs of corners up to one beyond; array sheets of numbers, of texts, of both; excel sheets with empty, blank and full cells, and ragged.")
def x18(c):
    c.fn(ENV, "array_rect")
    N = lambda n: Sym(n, "int")
    W = lambda n: Sym(n, "str")
    arrays = [[[N("a"), N("b"), N("d")], [N("e"), N("f"), N("g")]], [[N("a"), W("s")], [NONE, W("u")], [Sym("h", "float"), NONE]], [[W("s")]], [[W("s"), N("a"), W("w")]]]
    grids = [[[TEXT, NUMBER, TEXT], [TEXT, EMPTY, BLANK]], [[TEXT], [BLANK], [TEXT]], [[EMPTY, TEXT], [TEXT, TEXT]], [[TEXT, TEXT], [TEXT, TEXT, BOOLEAN]][:1], [[TEXT, EMPTY], [EMPTY, EMPTY], [BLANK, EMPTY], [EMPTY, EMPTY], [TEXT, TEXT]]]
    arrays.append([[W("s"), NONE], [NONE, NONE], [NONE, NONE], [N("a"), W("w")]])
    arrays.append([[N("r%d" % i), NONE] for i in range(70)])
    grids.append([[TEXT, EMPTY]] * 70)
    if c.thorough:
        grids.append([[TEXT, NUMBER, DATE], [ERROR, EMPTY, BOOLEAN], [BLANK, TEXT, TEXT]])
    for kind, sheets in (("array", arrays), ("excel", grids)):
        for g in sheets:
            R, C = len(g), len(g[0])
            for r0, c0 in itertools.product(range(R + 1), range(C + 1)) if R * C < 20 else [(0, 0), (R - 3, 0)]:
                for nd in [None] + [(r, k) for r in range(r0, R + 1) for k in range(c0, C + 1)] if R * C < 20 else [(R - 1, 0), (R - 2, 1)]:
                    st = c.state()
                    args = (Tup((Const(r0), Const(c0))), Tup((Const(nd[0]), Const(nd[1]))) if nd else NONE)
                    if kind == "array":
                        arr = build(st, g)
                        freeze(arr, st, "array")
                        outs = c.run(c.fn(ENV, "array_rect"), (arr,) + args, st=st, label="read_rect", raises="none", loop_k=max(6, R + 2), comp_k=max(6, R + 2))
                    else:
                        outs = c.run(c.fn(ENV, "xlrd_rect"), (FILE, Const(0)) + args, st=st, label="read_rect", **Xlrd([g]).config())
                    sub = "%s sheet of %dx%d read from %s to %s" % (kind, R, C, (r0, c0), nd)
                    for o in outs:
                        if nd is None:
                            inside = r0 < R and c0 < C
                            if not inside:
                                c.oblige(o.raised, "cells beyond the sheet are refused", sub, "ended with %r" % o, path=path_of(o))
                            elif o.raised:
                                c.bad("cells inside the sheet are read", sub, "ended with %r" % o, path=path_of(o))
                            elif kind == "array":
                                c.oblige(o.val == g[r0][c0], "the cell at the coordinate is read", sub, "read %s" % show(o.val, o.st), path=path_of(o))
                            else:
                                converted(c, o, o.val, 0, r0, c0, g[r0][c0], 0, sub)
                            continue
                        if o.raised:
                            c.bad("rectangles are read", sub, "ended with %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                            continue
                        p = plain(o.val, o.st)
                        if not (isinstance(p, tuple) and p[0] == "list" and all(isinstance(r, tuple) and r[0] == "list" for r in p[1:])):
                            if isinstance(o.val, (App, Sym)) or isinstance(o.val, Ref) and o.st.heap[o.val.oid].kind == "copy":
                                c.undecided(sub, "read %s" % show(o.val, o.st))
                            else:
                                c.bad("rectangles are lists of rows", sub, "read %s" % show(o.val, o.st), path=path_of(o))
                            continue
                        oids = [o.val.oid] + [x.oid for x in o.st.heap[o.val.oid].items]
                        c.oblige(len(set(oids)) == len(oids) and all(o.st.heap[x].origin == "fresh" for x in oids), "the lists read are new", sub, "lists of %s" % [o.st.heap[x].origin for x in oids], path=path_of(o))
                        rows = [list(r[1:]) for r in p[1:]]
                        H, Wd = nd[0] - r0 + 1, nd[1] - c0 + 1
                        inH, inW = max(0, min(H, R - r0)), max(0, min(Wd, C - c0))
                        full = len(rows) == H and all(len(r) == Wd for r in rows)
                        cut = kind == "array" and len(rows) == inH and all(len(r) == inW for r in rows)
                        c.oblige(full or cut, "both corners are included", sub, "read %d rows of %s cells" % (len(rows), sorted({len(r) for r in rows})), path=path_of(o))
                        if not (full or cut):
                            continue
                        for i in range(len(rows)):
                            for j in range(len(rows[i])):
                                v = rows[i][j]
                                if r0 + i >= R or c0 + j >= C:
                                    c.oblige(v == NONE, "cells beyond the sheet are empty", sub, "cell (%d, %d) read as %s" % (r0 + i, c0 + j, show(v, o.st)), path=path_of(o))
                                elif kind == "array":
                                    c.oblige(v == g[r0 + i][c0 + j], "each cell is read at its place", sub, "cell (%d, %d) read as %s" % (r0 + i, c0 + j, show(v, o.st)), path=path_of(o))
                                else:
                                    converted(c, o, v, 0, r0 + i, c0 + j, g[r0 + i][c0 + j], 0, sub)


@check("X26", "Event-order and provenance analysis of opening workbooks: what is given to the excel library and when the connection is opened, read and closed, each step failing or not; which sheet each id opens",
       "Local and remote urls, sheets by name, index, text of an index or none, present or missing.")
def x26(c):
    g = [[[TEXT]], [[TEXT]], [[TEXT]]]
    ids = [(None, 0), (0, 0), (2, 2), ("one", 0), ("three", 2), ("1", 1), ("0", 0), ("missing", None), (7, None), ("9", None)]
    for url in ("file:///a.xls", "file:///dir/b.xlsx", "file:///d%20r/50%25_%C3%A9%23.xls", "http://host/a.xls", "https://host/dir/b%20c.xlsx?x=1", "http://host/wb.xlsx;v=1"):
        remote = not url.startswith("file")
        for sid, idx in ids:
            for fails in (None, "open") + (("connect", "read") if remote else ()):
                sub = "sheet %r of %s%s" % (sid, url, ", failing to %s" % fails if fails else "")
                for o in c.run(c.fn(ENV, "xlrd_open"), (Const(url), Const(sid)), label="open_sheet", **Xlrd(g, fails=fails).config()):
                    opened(c, o, url, remote, fails, sub)
                    if fails or idx is None:
                        c.oblige(o.raised and (sid != "missing" or fails or o.exc_names() == frozenset(["XLRDError"])), "failures are reported", sub, "ended with %r" % o, path=path_of(o))
                    else:
                        v = plain(o.val.items[1], o.st) if not o.raised and isinstance(o.val, Tup) and len(o.val.items) == 2 else None
                        c.oblige(v == ("list", Const(NAMES[idx]), Const(idx)) and o.val.items[0] == Const(url), "each id opens its sheet, knowing its workbook", sub, "ended with %s" % show(o.val, o.st), path=path_of(o))
        for sid, idx in (("2", 0), ("0", 1), ("-1", 2), ("1", 1), (0, 0), (2, 2)):
            sub = "sheet %r of %s, whose sheets are named 2, 0 and -1" % (sid, url)
            for o in c.run(c.fn(ENV, "xlrd_open"), (Const(url), Const(sid)), label="open_sheet", **Xlrd(g, sheets=("2", "0", "-1")).config()):
                v = plain(o.val.items[1], o.st) if not o.raised and isinstance(o.val, Tup) and len(o.val.items) == 2 else None
                c.oblige(v == ("list", Const(("2", "0", "-1")[idx]), Const(idx)), "names go before the text of indices", sub, "ended with %s" % show(o.val, o.st), path=path_of(o))
        for fails in (None, "open") + (("connect", "read") if remote else ()):
            sub = "names of the sheets of %s%s" % (url, ", failing to %s" % fails if fails else "")
            for o in c.run(c.fn(ENV, "xlrd_list"), (Const(url),), label="list_sheetnames", **Xlrd(g, fails=fails).config()):
                opened(c, o, url, remote, fails, sub)
                c.oblige(o.raised if fails else not o.raised and plain(o.val, o.st) == ("list",) + tuple(Const(n) for n in NAMES), "the names of the sheets are listed", sub, "ended with %r" % o, path=path_of(o))


    for sid in (0, "one", None):
        cfg = Xlrd(g).config()

        def on(what):
            def f(it, obj, st, args, kwargs, ctx, node):
                if not isinstance(obj, Sym) or obj != Sym("book"):
                    return None
                s = st.fork()
                s.event("xlrd", what, tuple(args))
                return iter([(s, NONE)])
            return f
        cfg["mstubs"].update(unload_sheet=on("unload"), release_resources=on("release"))
        cfg["stubs"].update({k: v for k, v in Books().config()["stubs"].items() if k not in cfg["stubs"]})
        for o in c.run(c.fn(ENV, "excel_closed"), (FILE, Const(sid)), label="closing", **cfg):
            sub = "replacing and closing sheet %r" % (sid,)
            if o.raised:
                c.bad("resources of workbooks are released", sub, "ended with %r" % o, path=path_of(o))
                continue
            phase, seen = None, {}
            for e in o.events:
                if e[0] == "op":
                    phase = e[1].v if isinstance(e[1], Const) else show(e[1])
                elif e[0] == "xlrd":
                    seen.setdefault(phase, []).append((e[1],) + tuple(a.v if isinstance(a, Const) else a for a in e[2]))
            c.oblige(seen.get("replace") in ([("unload", "one")], [("unload", 0)]), "resources of workbooks are released", sub, "when its sheet was replaced: %s" % seen.get("replace"), path=path_of(o))
            c.oblige(("release",) in seen.get("close", ()), "resources of workbooks are released", sub, "when its factory was closed: %s" % seen.get("close"), path=path_of(o))
    for o in c.run(c.fn(ENV, "excel_names"), (FILE, Const("two")), label="names", **Xlrd(g).config()):
        c.oblige(not o.raised and plain(o.val, o.st) == ("list",) + tuple(Const(n) for n in NAMES), "the names of the sheets are listed", "names by a sheet", "ended with %r" % o, path=path_of(o))
    for ids, name in ((NONE, "sh"), (Tup((Const("w"), Const("n"), Const(3))), "n")):
        st = c.state()
        for o in c.run(c.fn(ENV, "array_names"), (build(st, [[Sym("a", "int")]]), ids), st=st, label="names", raises="none"):
            c.oblige(not o.raised and plain(o.val, o.st) == ("list", Const(name)), "the names of the sheets are listed", "names by an array sheet", "ended with %s" % show(o.val, o.st), path=path_of(o))


def opened(c, o, url, remote, fails, sub):
    books = [e for e in o.events if e[0] == "book"]
    conns = [e for e in o.events if e[0] == "connect"]
    ended = [e[1] for e in o.events if e[0] == "response"] + ["exit" for e in o.events if e[0] == "exit" and mentions_(e[1], Sym("response"))]
    kw = dict(x for e in books for x in e[2] if x[0] is not None)
    if not remote:
        path = Const(urllib.parse.unquote(url[len("file://"):]))
        c.oblige(not conns and len(books) == 1 and (books[0][1][:1] or (kw.get("filename"),))[0] == path and kw.get("file_contents", NONE) == NONE, "local workbooks are opened by their path", sub,
                 "connected %d times, opened with %s" % (len(conns), [(show(Tup(e[1])), [(k, show(v)) for k, v in e[2]]) for e in books]), path=path_of(o))
        return
    c.oblige(len(conns) == 1 and conns[0][1][:1] == (Const(url),), "remote workbooks are fetched by their url", sub, "connected with %s" % [show(Tup(e[1])) for e in conns], path=path_of(o))
    if fails == "connect":
        c.oblige(not books, "nothing is opened when the connection fails", sub, "opened %d workbooks" % len(books), path=path_of(o))
        return
    c.oblige("exit" in ended, "the connection is closed on every exit", sub, "the response was %s" % ended, path=path_of(o))
    if fails == "read":
        return
    c.oblige(len(books) == 1 and kw.get("file_contents") == App("contents", (Sym("response"),)), "remote workbooks are opened from the contents fetched", sub,
             "opened with %s" % [(show(Tup(e[1])), [(k, show(v)) for k, v in e[2]]) for e in books], path=path_of(o))


@check("X20", "Order, effect and exception-flow analysis of initialising any three plugins, each failing to load, loading only, installing or failing to install, and of installing the excel backend repeatedly",
       "All combinations of four outcomes for up to three plugins (four when thorough) in both orders of their names; three exceptions.")
def x20(c):
    fn = c.fn(ENV, "plugins")
    outs_ = ("noload", "plain", "installs", "fails")
    combos = [x for n in ((1, 2, 3, 4) if c.thorough else (1, 2, 3)) for x in itertools.product(outs_, repeat=n)]
    for combo in combos:
        for exc in ("ImportError", "ValueError", "AttributeError") if len(combo) < 3 else ("ImportError",):
            st = c.state()
            eps = []

            def declare(it, st, args, kwargs, ctx, node):
                s = st.fork()
                eps[:] = [args[0]]
                s.event("start")
                yield s, NONE

            def iter_eps(it, st, args, kwargs, ctx, node):
                s = st.fork()
                yield s, s.alloc(ListO(list(s.heap[eps[0].oid].items)))

            def load(it, st, args, kwargs, ctx, node):
                i = args[0].v
                s = st.fork()
                s.event("load", i)
                if combo[i] == "noload":
                    yield it.raise_new(s, exc, (Const("boom"),))
                else:
                    yield s, Sym("mod%d" % i, "module") if combo[i] == "plain" else Ext("plugin.install%d" % i)

            def install(i):
                def f(it, st, args, kwargs, ctx, node):
                    s = st.fork()
                    s.event("install", i)
                    if combo[i] == "fails":
                        yield it.raise_new(s, exc, (Const("boom"),))
                    else:
                        yield s, NONE
                return f

            stubs = {"plugin.install%d" % i: install(i) for i in range(len(combo))}
            stubs.update({"oracle.declare": declare, "oracle.load": load})
            for n in ("pkg_resources.working_set.iter_entry_points", "pkg_resources.iter_entry_points", "importlib.metadata.entry_points"):
                stubs[n] = iter_eps
            sub = "plugins that %s" % ", ".join(combo)
            for o in c.run(fn, (Sym("group", "str", "nonempty"), Const(len(combo))), st=st, label="_init_plugins", stubs=stubs, raises="none", loop_k=5, comp_k=5):
                if o.raised:
                    c.bad("a failing plugin fails nothing else", sub, "raised %s" % show(Ref(o.st.heap[o.val.oid].dict), o.st, 8), path=path_of(o))
                    continue
                ev = [e for e in o.events if e[0] in ("load", "install")]
                loads = [e[1] for e in ev if e[0] == "load"]
                inst = [e[1] for e in ev if e[0] == "install"]
                c.oblige(sorted(loads) == list(range(len(combo))), "every plugin is loaded", sub, "loaded %s" % loads, path=path_of(o))
                c.oblige([e[0] for e in ev] == ["load"] * len(loads) + ["install"] * len(inst), "all plugins are loaded before any installs", sub, "order: %s" % [(e[0], e[1]) for e in ev], path=path_of(o))
                want = [i for i, x in enumerate(combo) if x in ("installs", "fails")]
                c.oblige(sorted(inst) == want, "every plugin able to is installed, once", sub, "installed %s, expected %s" % (inst, want), path=path_of(o))
                nerr = sum(x in ("noload", "fails") for x in combo)
                lg = logged(o, "warning", "error", "exception", "critical", "log")
                c.oblige(len(lg) >= nerr, "failures are logged", sub, "%d failures, %d logged" % (nerr, len(lg)), path=path_of(o))
                d = o.st.heap[o.val.oid]
                recs = {}
                for k, v in d.items:
                    for i in range(len(combo)):
                        if mentions_text(k, "Ep%d" % i) or mentions_text(k, "n%d" % i) or mentions_text(k, "dist%d" % i):
                            recs.setdefault(i, []).append(v)
                for i, x in enumerate(combo):
                    lvl = Const({"noload": 0, "plain": 1, "installs": 2, "fails": 1}[x])
                    c.oblige(None if i not in recs else recs[i] == [lvl], "the stage recorded is how far the plugin got", sub + ", the one that %s" % x, "recorded %s, expected %s" % ([show(v) for v in recs.get(i, [])], lvl.v), path=path_of(o))
    for given in (None, TRUE):
        for n in (1, 2, 3):
            st = c.state()
            for o in c.run(c.fn(ENV, "install_xlrd"), (given or NONE, Tup([NONE] * n)), st=st, label="install", raises="none", loop_k=6, comp_k=6):
                p = plain(o.val, o.st) if not o.raised else ()
                c.oblige(isinstance(p, tuple) and p.count(Const(True)) == 1 and len(p) == 2 + bool(given), "re-initialising never registers a backend twice", "installing %d times%s" % (n, " beside another backend" if given else ""),
                         "backends are %s" % (p,) if not o.raised else repr(o), path=path_of(o))


def mentions_text(v, t):
    if isinstance(v, Const):
        return isinstance(v.v, str) and t in v.v
    if isinstance(v, Str):
        return any(t in p for p in v.parts if isinstance(p, str))
    if isinstance(v, App):
        return any(mentions_text(a, t) for a in v.args if isinstance(a, Val))
    if isinstance(v, Tup):
        return any(mentions_text(a, t) for a in v.items)
    return False


def corner(v, st, it):
    """The coordinates of a known corner."""
    if isinstance(v, Tup) and len(v.items) == 2:
        xs = [it.lin(x, st) for x in v.items]
        if all(x is not None and not x.terms for x in xs):
            return tuple(x.c for x in xs)
    return None


def box(cell, R, C):
    full = [(r, k) for r in range(R) for k in range(C) if cell(r, k)]
    if not full:
        return (0, 0), (0, 0)
    return (min(r for r, _ in full), min(k for _, k in full)), (max(r for r, _ in full), max(k for _, k in full))


@check("X29", "Dataflow of the cells of every sheet kind to its margins, cells symbolic and margins given or computed, against the bounding box of the full ones",
       "Sheets up to 2x3 (3x3 when thorough) with symbolic cells; array and excel sheets with every pattern of full and empty cells up to 2x3; empty sheets of all shapes.")
def x29(c):
    from .capture import Matrix, explore
    fn = c.fn(ENV, "bounds_of")
    RULE = "margins bound exactly the full cells"
    for R, C in [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3)] + ([(3, 3)] if c.thorough else []):
        for up, dn in itertools.product((None, (0, 0), (1, 0)), (None, (9, 8), (0, 0))):
            st = c.state()
            m = Matrix(c, st, R, C)
            box_ = []

            def give(it, st, args, kwargs, ctx, node):
                box_[:] = args
                yield st, NONE
            outs = c.run(fn, tuple(Tup((Const(x[0]), Const(x[1]))) if x else NONE for x in (up, dn)), st=st, label="margins", raises="none", loop_k=12, comp_k=12,
                         stubs={"oracle.states": lambda it, st, args, kwargs, ctx, node: iter([(st, m.ref)]), "oracle.give": give,
                                "oracle.margins": lambda it, st, args, kwargs, ctx, node: iter([(st, Tup(box_))])})
            sub = "margins of a sheet of %dx%d, given %s and %s" % (R, C, up, dn)
            for o in outs:
                narrow = [e for e in o.events if e[0] == "cast"]
                c.oblige(not narrow, "coordinates of the largest sheets fit", sub, "the indices of cells become %s" % [e[1] for e in narrow], None, path_of(o))
                if o.raised:
                    c.bad(RULE, sub, "raised %r" % o, path=path_of(o))
                    continue
                got = tuple(corner(x, o.st, o.it) for x in o.val.items) if isinstance(o.val, Tup) and len(o.val.items) == 2 else None
                if got is None or None in got:
                    if got is not None and NONE in o.val.items:
                        c.bad(RULE, sub, "margins %s" % show(o.val, o.st), path=path_of(o))
                    else:
                        c.undecided(sub, "margins %s" % show(o.val, o.st))
                    continue
                for w, guess in explore(lambda cell: box(cell, R, C), m.known(o.st)):
                    w = (up or w[0], dn or w[1])
                    c.oblige(got == w, RULE if up is None and dn is None else "margins known by the backend are kept", sub, "margins %s, expected %s, with full %s" % (got, w, [k for k in m.sym if m.known(o.st)(*k) or guess.get(k)]), path=path_of(o))
    for R, C in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)):
        for pat in itertools.product((False, True), repeat=R * C):
            cell = lambda r, k: 0 <= r < R and 0 <= k < C and pat[r * C + k]
            want = box(cell, R, C)
            for kind in ("array", "excel"):
                sub = "margins of the %s sheet %s" % (kind, [[int(cell(r, k)) for k in range(C)] for r in range(R)])
                if kind == "array":
                    st = c.state()
                    arr = build(st, [[Sym("c%d%d" % (r, k), "int") if cell(r, k) else NONE for k in range(C)] for r in range(R)])
                    outs = c.run(c.fn(ENV, "bounds_of_array"), (arr,), st=st, label="margins", raises="none", loop_k=12, comp_k=12)
                    w = want
                else:
                    g = [[(TEXT, NUMBER)[k % 2] if cell(r, k) else (EMPTY, BLANK)[r % 2] for k in range(C)] for r in range(R)]
                    outs = c.run(c.fn(ENV, "bounds_of_excel"), (FILE, Const(0)), label="margins", **Xlrd([g]).config(loop_k=12, comp_k=12))
                    w = want[0], (R - 1, C - 1)
                for o in outs:
                    got = tuple(corner(x, o.st, o.it) for x in o.val.items) if not o.raised and isinstance(o.val, Tup) and len(o.val.items) == 2 else None
                    if got is None or None in got:
                        (c.bad(RULE, sub, "ended with %r" % o, path=path_of(o)) if o.raised else c.undecided(sub, "margins %s" % show(o.val, o.st)))
                        continue
                    c.oblige(got == w, RULE, sub, "margins %s, expected %s" % (got, w), path=path_of(o))
    for g in ([], [[]], [[], []]):
        for what in ("bounds_of_array", "states_of_array", "array_rect", "bounds_of_excel"):
            sub = "%s of the empty sheet %s" % (what, g)
            if what == "bounds_of_excel":
                outs = c.run(c.fn(ENV, what), (FILE, Const(0)), label=what, **Xlrd([g]).config())
            else:
                st = c.state()
                args = (build(st, g),) + ((Tup((Const(0), Const(0))), Tup((Const(0), Const(0)))) if what == "array_rect" else ())
                outs = c.run(c.fn(ENV, what), args, st=st, label=what, raises="none", loop_k=6, comp_k=6)
            for o in outs:
                c.oblige(o.raised and o.exc_names() == frozenset(["EmptyCaptureException"]), "sheets without cells are empty captures", sub, "ended with %r" % o, path=path_of(o))
