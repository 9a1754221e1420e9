"""Capturing rectangles (X05-X10): outcomes over matrices of undecided cells, compared with the documented walk."""
import itertools
import re
from ..harness import *

ENV = "envm_capture"
VEC = {"L": (0, -1), "U": (-1, 0), "R": (0, 1), "D": (1, 0)}
MOVES = ("L", "U", "R", "D", "LU", "UL", "LD", "DL", "RU", "UR", "RD", "DR")
EMPTY, VALUE = "EmptyCaptureException", "ValueError"


class Fails(Exception):
    def __init__(self, kind):
        Exception.__init__(self, kind)
        self.kind = kind


# ------------------------------------------------------------------------------------------ the documented capturing
def coord(text, up, dn, base):
    if text == "^":
        return up
    if text == "_":
        return dn
    if text == ".":
        if base is None:
            raise Fails(VALUE)
        return base
    if re.match(r"-?\d+$", text):
        n = int(text)
        if n == 0:
            raise Fails(VALUE)
        r = n - 1 if n > 0 else dn + n + 1
        if r < 0:
            raise Fails(VALUE)
        return r
    r = 0
    for ch in text.upper():
        r = r * 26 + "ABCDEFGHIJKLMNOPQRSTUVWXYZ".index(ch) + 1
    return r - 1


def landing(land, up, dn, base):
    return tuple(coord(land[i], up[i], dn[i], base and base[i]) for i in (0, 1))


N = 12      # more than any walk within the matrices


def opposite(cell, at, moves):
    """The first full cell met by scanning lines along the first move, the lines advancing along the second one."""
    r, c = at
    for _ in range(N):
        for i in range(N):
            p = r + i * VEC[moves[0]][0], c + i * VEC[moves[0]][1]
            if cell(*p):
                return p
        if len(moves) == 1:
            break
        r, c = r + VEC[moves[1]][0], c + VEC[moves[1]][1]
    raise Fails(EMPTY)


def same(cell, at, moves):
    """The last full cell of the landing's row and/or column."""
    out = list(at)
    for m in moves:
        p = at
        while cell(p[0] + VEC[m][0], p[1] + VEC[m][1]):
            p = p[0] + VEC[m][0], p[1] + VEC[m][1]
        axis = 0 if m in "UD" else 1
        out[axis] = p[axis]
    return tuple(out)


def target(cell, at, mov, mod, following):
    if mov is None:
        return at
    mov = mov.upper()
    if cell(*at):
        return same(cell, at, mov) if mod == "+" or following and mod != "?" else at
    return opposite(cell, at, mov)


def expansions(exp):
    """`[(letters, times or None)]`"""
    out, pend = [], ""
    for m in re.finditer(r"([LURD])(\d*)", exp.upper().replace("?", "1")):
        if m.group(2):
            if pend:
                out.append((pend, None))
            pend = ""
            out.append((m.group(1), int(m.group(2))))
        else:
            pend += m.group(1)
    return out + ([(pend, None)] if pend else [])


def expand(cell, st, nd, exp):
    t, b, l, r = st[0], nd[0], st[1], nd[1]
    for dirs, times in expansions(exp):
        n = 0
        while times is None or n < times:
            n += 1
            was = t, b, l, r
            for d in dirs:
                if d in "UD":
                    row = t - 1 if d == "U" else b + 1
                    if any([cell(row, c) for c in range(l, r + 1)]):
                        t, b = min(t, row), max(b, row)
                else:
                    col = l - 1 if d == "L" else r + 1
                    if any([cell(x, col) for x in range(t, b + 1)]):
                        l, r = min(l, col), max(r, col)
            if (t, b, l, r) == was:
                break
    return (t, l), (b, r)


def capture(cell, up, dn, st, nd, exp, base):
    try:
        p = target(cell, landing(st[:2], up, dn, base), st[2], st[3], False)
        q = None
        if nd is not None:
            q = target(cell, landing(nd[:2], up, dn, p), nd[2], nd[3], nd[:2] == (".", "."))
        if exp or q is not None:
            z = q or p
            p, q = (min(p[0], z[0]), min(p[1], z[1])), (max(p[0], z[0]), max(p[1], z[1]))
            if exp:
                p, q = expand(cell, p, q, exp)
        return p, q
    except Fails as ex:
        return ex.kind


def explore(fn, known):
    """Outcomes of the specification for all completions of the cells undecided: [(outcome, completion)]."""
    todo, out = [{}], []
    while todo:
        guess = todo.pop()
        asked = []

        def cell(r, c):
            v = known(r, c)
            if v is None:
                if (r, c) not in guess:
                    if not asked:
                        asked.append((r, c))
                    return False
                v = guess[(r, c)]
            return v
        res = fn(cell)
        if asked:
            for b in (False, True):
                todo.append(dict(guess, **{}) if False else {**guess, asked[0]: b})
        else:
            out.append((res, guess))
    return out


# ------------------------------------------------------------------------------------------ running
class Matrix(object):
    """A matrix of undecided cells; those given in `fixed` are constants."""

    def __init__(self, c, st, R, C, fixed=None):
        self.R, self.C, self.fixed = R, C, fixed or {}
        self.sym = {(r, k): Sym("m%d%d" % (r, k), "bool") for r in range(R) for k in range(C) if (r, k) not in self.fixed}
        self.ref = st.alloc(ArrO((R, C), [boolv(self.fixed[(r, k)]) if (r, k) in self.fixed else self.sym[(r, k)] for r in range(R) for k in range(C)]))
        freeze(self.ref, st, "states-matrix")

    def known(self, st):
        def f(r, k):
            if not (0 <= r < self.R and 0 <= k < self.C):
                return False
            if (r, k) in self.fixed:
                return self.fixed[(r, k)]
            x = self.sym[(r, k)]
            v = st.facts.get(("truth", x))
            if v is None and ("val", x) in st.facts:
                v = bool(st.facts[("val", x)].v)
            return v
        return f

    def plain(self, st):
        """Are the facts about cells only about single ones?"""
        mine = set(self.sym.values())
        for k, v in st.facts.items():
            if k[0] in ("truth", "val") and k[1] in mine:
                continue
            if any(isinstance(x, App) and any(y in mine for y in subs(x)) for x in k[1:]):
                return False
        return True


def subs(v):
    if isinstance(v, App):
        for a in v.args:
            if isinstance(a, Val):
                yield a
                yield from subs(a)
    elif isinstance(v, Tup):
        for a in v.items:
            yield a
            yield from subs(a)


def K(*xs):
    return Tup([Const(x) for x in xs])


def num(v, st):
    v = st.facts.get(("val", v), v)
    return v.v if isinstance(v, Const) else None


def read(o):
    """The outcome as `((r,c), (r,c)|None)`, an exception's name, or None when not known."""
    if o.raised:
        for k in (EMPTY, VALUE):
            if o.raises(k):
                return k
        t = o.exc_names()
        return "/".join(sorted(map(str, t))) if t else None
    if not isinstance(o.val, Tup) or len(o.val.items) != 2:
        return "not two coordinates"
    out = []
    for x in o.val.items:
        if x == NONE:
            out.append(None)
        elif isinstance(x, Tup) and len(x.items) == 2:
            p = tuple(num(y, o.st) for y in x.items)
            if None in p:
                return None
            out.append(p)
        else:
            return None
    return tuple(out)


def label(land, nd=None, exp=None, base=None):
    def e(x):
        rc = ("%s%s" % (x[1], x[0])) if x[1].isalpha() else "R%sC%s" % (x[0], x[1])
        return rc + ("(%s%s)" % (x[2], x[3] or "") if x[2] else "")
    return "#" + e(land) + (":" + e(nd) if nd else "") + (("" if nd else ":") + ":" + exp if exp else "") + (" based on %s" % (base,) if base else "")


CFG = dict(raises="none", loop_k=14, comp_k=14, while_k=14)


def run(c, st_edge, nd_edge=None, exp=None, base=None, R=3, C=3, dn=None, up=(0, 0), fixed=None, fname="capture"):
    fn = c.fn(ENV, fname)
    st = c.state()
    m = Matrix(c, st, R, C, fixed)
    dn = dn or (R - 1, C - 1)
    opt = lambda x: K(*x) if x else NONE
    outs = c.run(fn, (m.ref, K(*up), K(*dn), K(*st_edge), opt(nd_edge), Const(exp), opt(base)), st=st, label=label(st_edge, nd_edge, exp, base), **CFG)
    return m, up, dn, outs


def judge(c, rule, st_edge, nd_edge=None, exp=None, base=None, pred=None, **kw):
    m, up, dn, outs = run(c, st_edge, nd_edge, exp, base, **kw)
    sub = "capturing %s" % label(st_edge, nd_edge, exp, base)
    for o in outs:
        got = read(o)
        if got is None or not m.plain(o.st):
            c.undecided(sub, "the outcome %s is not known for the cells decided" % repr(o)[:200])
            continue
        if pred is not None:
            pred(o, got, sub)
            continue
        want = explore(lambda cell: capture(cell, up, dn, st_edge, nd_edge, exp, base), m.known(o.st))
        bad = [(w, g) for w, g in want if w != got]
        c.oblige(not bad, rule, sub, "" if not bad else "gives %s, expected %s%s" % (got, bad[0][0], cells(m, o.st, bad[0][1])), path=path_of(o))


def cells(m, st, guess):
    k = m.known(st)
    return " over the cells:\n" + "\n".join("      " + " ".join({True: "1", False: "0", None: "?"}[guess.get((r, x), k(r, x))] for x in range(m.C)) for r in range(m.R))


# ------------------------------------------------------------------------------------------ the checks
ROWS, COLS = ("1", "2", "3", "4", "5"), ("A", "B", "C", "D", "E")


def colname(n):
    """Name of the n-th column, from 1."""
    s = ""
    while n:
        n, k = divmod(n - 1, 26)
        s = chr(65 + k) + s
    return s


def trailing(R, C, dn):
    """Rows and columns beyond the last used ones are empty."""
    return {(r, k): False for r in range(R) for k in range(C) if r > dn[0] or k > dn[1]}


@check("X05", "Path-sensitive dataflow of the capturing over matrices of undecided cells: every move from every landing cell, and every expansion, compared with the documented scans for all completions of the cells undecided",
       "Matrices of 3x3, 2x4, 4x2, 1x3 and 3x1 undecided cells (4x3 too when thorough), also with unused last rows and columns; landings on all cells and up to two beyond; all twelve moves, expansions by each letter.")
def x05(c):
    shapes = [(3, 3), (2, 4), (4, 2), (1, 3), (3, 1)] + ([(4, 3), (3, 4)] if c.thorough else [])
    for R, C in shapes:
        for r, k in itertools.product(ROWS[:R + 1] + (ROWS[4:5] if R < 4 else ()), COLS[:C + 1] + (COLS[4:5] if C < 4 else ())):
            for mov in MOVES:
                judge(c, "moves scan in their direction from the landing to the border", (r, k, mov, None), R=R, C=C)
        for r, k in itertools.product(ROWS[:R], COLS[:C]):
            for mov in MOVES:
                judge(c, "moves scan in their direction from the landing to the border", (r, k, mov, "+"), R=R, C=C)
            for d in "LURD":
                for n in ("", "1"):
                    judge(c, "expansions extend the side of their direction", (r, k, None, None), exp=d + n, R=R, C=C)
    dn = (1, 1)
    for r, k in itertools.product(ROWS, COLS):
        for mov in MOVES:
            judge(c, "moves scan in their direction from the landing to the border", (r, k, mov, None), R=3, C=3, dn=dn, fixed=trailing(3, 3, dn))
    global N
    was, N = N, 280
    for at, land, movs in ((0, N, ("L", "U")), (N - 1, 1, ("R", "D")), (3, N, ("L", "U")), (N - 4, 2, ("R", "D"))):      # far away, in long lines
        for mov in movs:
            for full in (False, True):      # over empty cells to the first full one, and over full ones to the last
                line = {i: (min(at, land - 1) <= i <= max(at, land - 1)) if full else i == at for i in range(N)}
                if mov in "LR":
                    judge(c, "moves scan in their direction from the landing to the border", ("1", colname(land), mov, "+" if full else None), R=1, C=N, fixed={(0, i): line[i] for i in line})
                else:
                    judge(c, "moves scan in their direction from the landing to the border", (str(land), "A", mov, "+" if full else None), R=N, C=1, fixed={(i, 0): line[i] for i in line})
    N = was


@check("X06", "Path-sensitive dataflow of the targeting over matrices of undecided cells: every landing state, modifier and kind of edge, compared with the documented state table for all completions of the cells undecided",
       "Matrices of 3x3, 2x3 and 3x2 undecided cells; both edges, with absolute, relative and half-relative landings, with each of the moves and modifiers; bases given or not, within or beyond the matrix.")
def x06(c):
    rule = "targeting follows the state table"
    for r, k in itertools.product(ROWS[:4], COLS[:4]):
        for mov in (None, "R", "U", "DL") if not c.thorough else (None,) + MOVES:
            for mod in (None, "+", "?") if mov else (None,):
                judge(c, rule, (r, k, mov, mod))
    for R, C in ((2, 3), (3, 2)):
        for r, k in itertools.product(ROWS[:4], COLS[:4]):
            for mov in ("L", "D", "RU", "UL", "DR"):
                for mod in (None, "+", "?"):
                    judge(c, rule, (r, k, mov, mod), R=R, C=C)
    # The 2nd edge, on the target of the 1st or elsewhere.
    firsts = [(r, k, None, None) for r, k in itertools.product(ROWS[:3], COLS[:3])] + [("1", "A", "DR", None), ("2", "B", "L", "+"), ("3", "D", "U", None), ("4", "A", None, None)]
    for n, st in enumerate(firsts):
        for land in ((".", "."), (".", "C"), ("2", "."), (st[0], st[1]), ("_", "^"), ("4", "B")):
            movs = MOVES if land == (".", ".") and n in (0, 4, 8) else (None, "L", "DR") if n < 9 else (None, "D", "UL")
            for mov in movs:
                for mod in (None, "+", "?") if mov else (None,):
                    if not c.thorough and n not in (0, 4, 8) and st[2] is None and mod == "+" and land != (".", "."):
                        continue
                    judge(c, rule, st, land + (mov, mod))
    # Relative 1st edges.
    for base in (None, (1, 1), (0, 2), (4, 0)):
        for land in ((".", "."), (".", "B"), ("1", ".")):
            for mov, mod in ((None, None), ("R", None), ("UL", "+"), ("D", "?")):
                judge(c, rule, land + (mov, mod), base=base)
                judge(c, rule, land + (mov, mod), nd_edge=(".", ".", "D", None), base=base)


@check("X07", "Dataflow of the coordinates of both edges to those captured, symbolic and constant, in every order of the two: component-wise minimum and maximum of the two targets",
       "Edges at symbolic coordinates (any order), and at all pairs of cells of 3x3 matrices, with moves, expansions or a missing second edge.")
def x07(c):
    rule = "captured rectangles are ordered"

    def pred(o, got, sub):
        if isinstance(got, tuple):
            (p, q) = got
            c.oblige(q is None or p[0] <= q[0] and p[1] <= q[1], rule, sub, "captured %s" % (got,), path=path_of(o))
    pts = list(itertools.product(ROWS[:3], COLS[:3]))
    for a, b in itertools.product(pts, pts):
        judge(c, rule, a + (None, None), b + (None, None))
    for a in pts:
        judge(c, "a missing second edge without expansion captures a single cell", a + (None, None))
        for mov in ("L", "U", "R", "D", "UL", "RD"):
            judge(c, rule, a + (None, None), (".", ".", mov, "+"), pred=pred)
            judge(c, rule, a + (mov, None), ("2", "B", mov[::-1], "+"), pred=pred)
    for n, (a, b) in enumerate(itertools.product(pts, pts)):
        for mod in (None, "?", "+"):
            judge(c, rule, a + (None, None), b + (MOVES[n % len(MOVES)], mod), pred=pred)
        for b in (("1", "C"), ("3", "A"), ("2", "B")):
            judge(c, "expansion starts from the ordered rectangle", a + (None, None), b + (None, None), exp="R1U1")
    # Symbolic: the margins and the base at the two edges.
    fn = c.fn(ENV, "capture")
    for st_edge, nd_edge, ends in (((".", ".", None, None), ("_", "_", None, None), ("base", "dn")), (("_", ".", None, None), ("^", "^", None, None), (("dn", "base"), "up")),
                                   (("_", "_", None, None), ("^", "^", None, None), ("dn", "up")), ((".", "^", None, None), ("^", ".", None, None), (("base", "up"), ("up", "1st")))):
        st = c.state()
        v = {n: Tup((Sym(n + "_r", "int", "nonneg"), Sym(n + "_c", "int", "nonneg"))) for n in ("up", "dn", "base")}
        pick = lambda e, i: v["base" if False else e].items[i]
        first = [pick(ends[0] if isinstance(ends[0], str) else ends[0][i], i) for i in (0, 1)]
        second = []
        for i in (0, 1):
            e = ends[1] if isinstance(ends[1], str) else ends[1][i]
            second.append(first[i] if e == "1st" else pick(e, i))
        for o in c.run(fn, (Sym("states", "ndarray"), v["up"], v["dn"], K(*st_edge), K(*nd_edge), NONE, v["base"]), st=st, label="capture", **CFG):
            sub = "capturing %s" % label(st_edge, nd_edge)
            if o.raised:
                c.bad(rule, sub, repr(o), path=path_of(o))
                continue
            val = o.val
            for i in (0, 1):
                for which, p in (("min", 0), ("max", 1)):
                    x = val.items[p].items[i] if isinstance(val, Tup) and isinstance(val.items[p], Tup) else None
                    c.oblige(extreme(o, x, which, first[i], second[i]), rule, sub, "%s %s is %s, expected the %simum of %s and %s" % (("first", "second")[p], ("row", "column")[i], show(x), which, show(first[i]), show(second[i])), path=path_of(o))


def extreme(o, x, which, a, b):
    """Is `x` the min/max of the two (None: not known)?"""
    if x is None:
        return None
    if isinstance(x, App) and x.op in ("min", "max"):
        return x.op == which and set(x.args) == {a, b}
    if x in (a, b):
        y = b if x == a else a
        if x == y:
            return True
        d = o.it.lin_sub(x, y, o.st)
        if d is None:
            return None
        lo, hi = o.it.bounds(d, o.st)
        if which == "min":
            return True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None if hi is None and lo is not None and lo > 0 else False
        return True if lo is not None and lo >= 0 else False
    return None


EXPS = ("L", "U", "R", "D", "R1", "D2", "LU", "RD", "DR", "LURD", "RULD", "L1U1R1D1", "R1U", "D?", "DR1", "lu", "r2d1", "RD1L", "LR")


@check("X08", "Path-sensitive dataflow of expansions over matrices of undecided cells, compared with the documented growth for all completions of the cells undecided",
       "Matrices of 3x3 undecided cells (4x4 with a fixed border when thorough), starting from every cell and some rectangles, within and beyond the matrix; nineteen expansions.")
def x08(c):
    rule = "expansions grow by the lines holding full cells, and stop"
    starts = [((r, k), None) for r, k in itertools.product(ROWS[:3], COLS[:3])] + [(("1", "A"), ("2", "B")), (("3", "C"), ("2", "A")), (("1", "C"), ("3", "C")), (("4", "B"), None), (("2", "D"), None), (("5", "B"), ("4", "A"))]
    for exp in EXPS:
        for n, (a, b) in enumerate(starts):
            if len(exp) > 3 and n not in (0, 4, 8, 9, 13) and not c.thorough:
                continue
            judge(c, rule, a + (None, None), b and b + (None, None), exp=exp)
            if n in (0, 4, 9, 11, 13):
                for R, C in ((2, 4), (4, 2)):
                    judge(c, rule, a + (None, None), b and b + (None, None), exp=exp, R=R, C=C)
    for exp in ("1LURD", "5", "?"):
        for o in run(c, ("1", "A", None, None), None, exp)[3]:
            c.oblige(o.raised and o.raises("ValueError"), "invalid expansions are value errors", "expanding by %s" % exp, repr(o), path=path_of(o))


@check("X09", "Ownership (write-effect with object origin) analysis of captures over inputs owned by the caller and of two captures in a row; call-count of the readers of a sheet's cached data",
       "All kinds of moves and expansions on 3x3 matrices of undecided cells; sheets read, captured and read again.")
def x09(c):
    cases = [(("2", "B", mov, mod), nd, exp) for mov in (None, "L", "UR", "RD") for mod in ((None, "+") if mov else (None,)) for nd in (None, (".", ".", "DL", None), ("1", "C", None, None)) for exp in (None, "LURD", "R1")
             if not (nd and nd[2] and exp == "LURD")]
    for st_edge, nd, exp in cases:
        m, up, dn, outs = run(c, st_edge, nd, exp, base=(1, 1))
        for o in outs:
            bad = [e for e in o.writes() if str(e[-1]).startswith("input:") or str(e[-1]).startswith("global")]
            c.oblige(not bad, "capturing writes nothing it was given", "capturing %s" % label(st_edge, nd, exp), "writes into the %s at %s" % (bad[0][-1], bad[0][5]) if bad else "", path=path_of(o))
    for a, b in itertools.product([(("2", "B", "UL", "+"), None, None), (("1", "A", "DR", None), (".", ".", "D", None), None), (("2", "B", None, None), None, "RD"), (("1", "A", None, None), None, "R1D1"), (("1", "A", None, None), None, "R2")], repeat=2):
        fn = c.fn(ENV, "twice")
        st = c.state()
        m = Matrix(c, st, 2, 3)
        up, dn = (0, 0), (1, 2)
        opt = lambda x: K(*x) if x else NONE
        spec = lambda e: Tup((K(*e[0]), opt(e[1]), Const(e[2])))
        for o in c.run(fn, (m.ref, K(*up), K(*dn), spec(a), spec(b)), st=st, label="two captures", **CFG):
            sub = "capturing %s after %s" % (label(*b), label(*a))
            got = read(o)
            if got is None or not m.plain(o.st):
                c.undecided(sub, repr(o)[:200])
                continue
            want = explore(lambda cell: capture(cell, up, dn, b[0], b[1], b[2], (0, 0)), m.known(o.st))
            bad = [w for w, g in want if w != got]
            c.oblige(not bad, "no capture is affected by earlier ones", sub, "gives %s, expected %s" % (got, bad[0]) if bad else "", path=path_of(o))
    c.fn(ENV, "cached")
    for kind in ("computed", "given"):
        def states(it, st, args, kwargs, ctx, node):
            s = st.fork()
            s.event("read", "states")
            yield s, s.alloc(ArrO((1, 2), [Sym("a", "bool"), Sym("b", "bool")]))

        def margins(it, st, args, kwargs, ctx, node):
            s = st.fork()
            s.event("read", "margins")
            yield s, (Tup((NONE, NONE)) if kind == "computed" else Tup((Sym("mu", "Coords_", "nonempty"), Sym("md", "Coords_", "nonempty"))))
        st = c.state()
        for o in c.run(c.fn(ENV, "cached"), (), st=st, label="cached data", stubs={"oracle.states": states, "oracle.margins": margins}, **CFG):
            sub = "asking a sheet's data repeatedly, its margins %s" % kind
            if o.raised:
                c.oblige(o.raises(EMPTY) or None, "cached data are computed once", sub, repr(o), path=path_of(o))
                continue
            ev = [e[1] for e in o.events if e[0] == "read"]
            c.oblige(ev.count("states") <= 1 and ev.count("margins") <= 1, "cached data are computed once", sub, "read %s" % ev, path=path_of(o))
            c.oblige(isinstance(o.val, Tup) and o.val.items[0] == o.val.items[1] and o.val.items[2] == o.val.items[3], "cached data stay the same", sub, show(o.val), path=path_of(o))


LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


@check("X10", "Dataflow of the texts of coordinates to the coordinates captured, as linear terms over symbolic margins and bases; outcome table for zeros, numbers beyond the start and missing bases",
       "All columns of one and two letters and samples of three, in both cases; numbers and negative numbers of up to seven digits; all special symbols; margins, base and the target of the first edge symbolic.")
def x10(c):
    fn = c.fn(ENV, "capture")

    def cap(row, col, nd=None, based=True):
        st = c.state()
        up, dn, base = (Tup((Sym(n + "_r", "int", "nonneg"), Sym(n + "_c", "int", "nonneg"))) for n in ("up", "dn", "base"))
        return (up, dn, base), c.run(fn, (Sym("states", "ndarray"), up, dn, K(row, col, None, None), K(*nd) if nd else NONE, NONE, base if based else NONE), st=st, label="capture", **CFG)

    def want(text, axis, env, base):
        """(term, offset) the coordinate should equal; negative ones fail when below zero."""
        up, dn, _ = env
        if text == "^":
            return up.items[axis], 0
        if text == "_":
            return dn.items[axis], 0
        if text == ".":
            return base, 0
        if re.match(r"-\d+$", text):
            return dn.items[axis], int(text) + 1
        return None, coord(text, 0, 0, None)

    def equals(o, x, w):
        t, k = w
        d = o.it.lin_sub(x, t, o.st) if t is not None else None
        if t is None:
            v = num(x, o.st)
            return None if v is None else v == k
        if d is None:
            return None
        return d.c == k if not d.terms else (lambda lo, hi: True if lo == hi == k else False if lo is not None and lo > k or hi is not None and hi < k else None)(*o.it.bounds(d, o.st))

    def below(o, w):
        """Is the coordinate wanted negative on this path (None: not known)?"""
        t, k = w
        if t is None:
            return k < 0
        lo, hi = o.it.bounds(o.it.lin(t, o.st), o.st)
        if hi is not None and hi + k < 0:
            return True
        if lo is not None and lo + k >= 0:
            return False
        for f in o.st.facts:
            if f[0] not in ("range", "val", "ty") and any(isinstance(x, (App, Tup)) and t in subs(x) for x in f[1:]):
                return None         # some condition about it not understood
        return "either"

    def table(texts, axis):
        for text in texts:
            row, col = (text, "A") if axis == 0 else ("1", text)
            sub = "the %s %r" % (("row", "column")[axis], text)
            env, outs = cap(row, col)
            w = want(text, axis, env, env[2].items[axis]) if text not in ("0", "00") else None
            for o in outs:
                if w is None:
                    c.oblige(o.raised and o.raises(VALUE), "zero is a value error", sub, repr(o), path=path_of(o))
                    continue
                neg = below(o, w)
                if o.raised:
                    c.oblige(False if neg in (False, "either") or not o.raises(VALUE) else True if neg else None, "coordinates are 1-based, negatives from the end", sub, repr(o), path=path_of(o))
                    continue
                x = o.val.items[0].items[axis]
                ok = equals(o, x, w)
                c.oblige(False if neg else ok if neg is False else False if ok is False else None, "coordinates are 1-based, negatives from the end", sub,
                         "resolved to %s, expected %s%+d" % (show(x), show(w[0]) if w[0] is not None else "", w[1]), path=path_of(o))
                y = o.val.items[0].items[1 - axis]
                c.oblige(num(y, o.st) == 0 if num(y, o.st) is not None else None, "coordinates are 1-based, negatives from the end", sub, "the other coordinate is %s" % show(y), path=path_of(o))

    nums = ["1", "2", "3", "9", "10", "26", "27", "100", "1048576", "-1", "-2", "-3", "-10", "-27", "0", "^", "_", "."]
    table(nums, 0)
    table(nums + ["00"], 1)
    cols = list(LETTERS) + [a + b for a in LETTERS for b in LETTERS] + ["AAA", "AAZ", "ABA", "AZZ", "BAA", "XFD", "ZZZ", "DADA"]
    table(cols if c.thorough else [x for i, x in enumerate(cols) if len(x) != 2 or x[0] in "ABMZ" or x[1] in "AZ" or i % 7 == 0], 1)
    table(["a", "z", "aa", "bC", "Zz", "xfd"], 1)
    for row, col in ((".", "A"), ("1", "."), (".", ".")):
        env, outs = cap(row, col, based=False)
        for o in outs:
            c.oblige(o.raised and o.raises(VALUE), "relative coordinates without a base are value errors", "R%sC%s without base" % (row, col), repr(o), path=path_of(o))
    # The second edge's are based on the first one's target.
    for row, col in (("1", "A"), ("_", "^"), (".", "."), ("7", ".")):
        for nrow, ncol in ((".", "."), (".", "C"), ("2", "."), ("^", "_")):
            for based in (True, False):
                if "." in (row, col) and not based:
                    continue
                env, outs = cap(row, col, (nrow, ncol, None, None), based)
                sub = "R%sC%s:R%sC%s%s" % (row, col, nrow, ncol, "" if based else " without base")
                for o in outs:
                    if o.raised:
                        c.bad("relative coordinates of the second edge are based on the first", sub, repr(o), path=path_of(o))
                        continue
                    for axis, a, b in ((0, row, nrow), (1, col, ncol)):
                        wa = want(a, axis, env, env[2].items[axis])
                        wb = want(b, axis, env, None) if b != "." else wa
                        p, q = o.val.items[0].items[axis], o.val.items[1].items[axis]
                        if b == ".":
                            for x in (p, q):
                                c.oblige(equals(o, x, wa), "relative coordinates of the second edge are based on the first", sub, "the %s is %s" % (("row", "column")[axis], show(x)), path=path_of(o))
                        else:
                            terms = [o.it.mklin(o.it.lin_comb(o.it.lin(t, o.st), o.it.lin(Const(k), o.st), 1)) if t is not None else Const(k) for t, k in (wa, wb)]
                            for x, which in ((p, "min"), (q, "max")):
                                c.oblige(extreme(o, x, which, terms[0], terms[1]), "relative coordinates of the second edge are based on the first", sub, "the %s of the %ss is %s" % (which, ("row", "column")[axis], show(x)), path=path_of(o))


def col_name(k):
    s = ""
    while k >= 0:
        s, k = LETTERS[k % 26].upper() + s, k // 26 - 1
    return s


def xlrd_colname(it, st, args, kwargs, ctx, node):
    """Of the xls format, where columns stop before the 702nd."""
    k = args[0].v if len(args) == 1 and isinstance(args[0], Const) else None
    if not isinstance(k, int):
        yield from models.opaque_call(it, Ext("xlrd.colname"), args, kwargs, st, ctx, node, "xlrd.colname", "str")
    elif k >= 702:
        yield it.raise_new(st, "IndexError", (Const("string index out of range"),))
    else:
        yield st, Const(col_name(k))


@check("X28", "Constant propagation of coordinates through the naming of cells, against the numbering of spreadsheets' rows and columns",
       "All columns of one letter, and of two or three ones the boundaries and samples (all 16384 when thorough); rows at boundaries; special symbols on either side; negatives.")
def x28(c):
    fn = c.fn("pandalone.xleash._capture", "coords2Cell")
    stubs = {"xlrd.colname": xlrd_colname, "xlrd.formula.colname": xlrd_colname, "xlrd.book.colname": xlrd_colname}
    cell = c.fn("pandalone.xleash._parse", "Cell").info

    def name(r, k):
        return [r if isinstance(r, str) else str(r + 1), k if isinstance(k, str) else col_name(k)]

    cols = range(16384) if c.thorough else list(range(80)) + list(range(80, 16384, 97)) + [676, 677, 700, 701, 702, 703, 727, 728, 1377, 1378, 1379, 2053, 2054, 16382, 16383]
    cases = [(0, k) for k in cols] + [(r, k) for r in (1, 8, 9, 10, 98, 99, 65535, 65536, 1048574, 1048575) for k in (0, 1, 25, 26, 701, 702)]
    cases += [(r, k) for r in ("^", "_", ".") for k in (0, 25, 26, 702, "^", "_", ".")] + [(r, k) for r in (0, 9, 1048575) for k in ("^", "_", ".")]
    for r, k in cases:
        for a, kw in (((Const(r), Const(k)), ()), ((), (("row", Const(r)), ("col", Const(k))))) if k in (0, 26, ".") else (((Const(r), Const(k)), ()),):
            for o in c.run(fn, a, kw, label="coords2Cell", stubs=stubs, while_k=8, loop_k=8):
                v = o.val
                unk = not o.raised and isinstance(v, Tup) and not all(isinstance(x, Const) for x in v.items)
                c.oblige(None if unk else not o.raised and isinstance(v, Tup) and v.cls is cell and list(v.items) == [Const(x) for x in name(r, k)] + [NONE, NONE], "a cell is named by its number from one and its letters",
                         "coordinates %s" % ((r, k),), "gives %s, expected %s" % (o, name(r, k)), path=path_of(o))
    for r, k in ((-1, 0), (0, -1), (-3, -2), (-1, "."), ("^", -5), (-1, 702)):
        for o in c.run(fn, (Const(r), Const(k)), label="coords2Cell", stubs=stubs, while_k=8, loop_k=8):
            c.oblige(o.raised, "coordinates before the first are refused", "coordinates %s" % ((r, k),), "gives %s" % o, path=path_of(o))
