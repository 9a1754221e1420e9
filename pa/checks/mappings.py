"""Mappings: Pmod and pmods_from_tuples (M01-M08)."""
from ..harness import *

MP = "pandalone.mappings"
W = lambda n: Sym(n, "str", "word")
X, Y, Z = W("x"), W("y"), W("z")
R1, R2, R3 = W("r1"), W("r2"), W("r3")
A, B, C, D = W("A"), W("B"), W("C"), W("D")
EMPTY = Const("")


class Re(object):
    def __init__(self, sym):
        self.sym = sym

    def __eq__(self, o):
        return isinstance(o, Re) and o.sym == self.sym

    def __hash__(self):
        return hash(self.sym)


def text(parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append("/")
        if isinstance(p, Re):
            out += ["~", p.sym]
        else:
            out.append(p)
    return mkstr(out)


# ------------------------------------------------------------------ the specification
class Need(Exception):
    def __init__(self, key):
        self.key = key


class Node(object):
    def __init__(self, alias=None, steps=(), regs=()):
        self.alias, self.steps, self.regs = alias, list(steps), list(regs)

    def child(self, key):
        table = self.regs if isinstance(key, Re) else self.steps
        k = key.sym if isinstance(key, Re) else key
        for i, (q, n) in enumerate(table):
            if q == k:
                if isinstance(key, Re):
                    table.append(table.pop(i))
                return n
        n = Node()
        table.append((k, n))
        return n


def spec_build(tuples):
    root = Node()
    for frm, to in tuples:
        if frm is None or to is None or (frm == [EMPTY] and to == EMPTY):
            continue
        n = root
        for k in frm:
            n = n.child(k)
        n.alias = to
    return root


def spec_merge(a, b):
    r = Node(b.alias if b.alias is not None else a.alias)
    bs = dict(b.steps)
    for k, n in a.steps:
        r.steps.append((k, spec_merge(n, bs[k]) if k in bs else n))
    r.steps += [(k, n) for k, n in b.steps if k not in dict(a.steps)]
    bk, ak = dict(b.regs), dict(a.regs)
    r.regs = [(k, n) for k, n in a.regs if k not in bk] + [(k, spec_merge(ak[k], n) if k in ak else n) for k, n in b.regs]
    return r


def spec_lookup(node, step, oracle):
    """(child or None, alias or None)."""
    exact = dict(node.steps).get(step)
    ms = [(k, n) for k, n in node.regs if oracle(k, step)]
    alias = None
    if exact is not None and exact.alias is not None:
        alias = exact.alias
    else:
        for k, n in reversed(ms):
            if n.alias is not None:
                alias = expand(k, step, n.alias)
                break
    nodes = [n for _, n in ms] + ([exact] if exact is not None else [])
    child = None
    for n in nodes:
        child = n if child is None else spec_merge(child, n)
    return child, alias


def expand(k, step, alias):
    if isinstance(alias, Str) and any(isinstance(p, str) and "\\" in p for p in alias.parts):
        return ("expand", k, step, alias)
    return alias


def split_text(v):
    """Parts of a path text of words and separators."""
    ps = v.parts if isinstance(v, Str) else (v.v,) if isinstance(v, Const) else (v,)
    out, cur = [], []
    for p in ps:
        if isinstance(p, str):
            bits = p.split("/")
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(mkstr(cur))
                cur = [b]
        else:
            cur.append(p)
    out.append(mkstr(cur))
    return out


def is_dot(v):
    return isinstance(v, Const) and v.v.startswith(".") or isinstance(v, Str) and isinstance(v.parts[0], str) and v.parts[0].startswith(".")


def spec_join(steps):
    out = []
    for s in steps:
        if s == EMPTY:
            out = [EMPTY]
        elif s == Const("."):
            pass
        elif s == Const(".."):
            if out and out[-1] == EMPTY and len(out) == 1:
                pass
            elif out and out[-1] != Const(".."):
                out.pop()
            else:
                out.append(s)
        else:
            out.append(s)
    return text(out) if out else Const(".")


def spec_map(root, path, oracle):
    steps = split_text(path)
    if len(steps) > 1 and steps[-1] == EMPTY and path != Const("/"):
        steps = steps[:-1]
    out = split_text(root.alias) if root.alias is not None else []
    node = root
    for s in steps:
        alias = None
        if node is not None:
            node, alias = spec_lookup(node, s, oracle)
        if alias is None:
            out.append(s)
            continue
        if isinstance(alias, tuple):
            raise Undecided("expanded alias")
        if is_dot(alias):
            out.append(s)
        parts = split_text(alias)
        if len(parts) > 1 and parts[-1] == EMPTY and alias != Const("/"):
            parts = parts[:-1]
        out += parts
    return spec_join(out)


def completions(f, facts):
    """Results of f(oracle) over all completions of the facts the path decided."""
    out = []

    def go(known):
        def oracle(k, s):
            if (k, s) in known:
                return known[(k, s)]
            raise Need((k, s))
        try:
            out.append(f(oracle))
        except Need as n:
            for b in (True, False):
                d = dict(known)
                d[n.key] = b
                go(d)
    go(facts)
    return out


# ------------------------------------------------------------------ reading the analysed paths
def match_facts(st):
    """{(regex, step): matched} of a state; the odd ones (not full matches of the rule's regex) apart."""
    ok, odd = {}, []
    for k, v in st.facts.items():
        if k[0] in ("truth", "notnone", "is") and isinstance(k[1], App) and k[1].op == "match":
            if k[0] == "is":
                v = not v
            kind, re_, s = k[1].args
            pat, flags = re_.args[0], re_.args[1]
            rs = [p for p in (pat.parts if isinstance(pat, Str) else (pat,)) if isinstance(p, Sym)]
            if not rs:
                continue
            full = kind.v == "fullmatch" and pat == rs[0]
            if not full and kind.v in ("match", "fullmatch") and isinstance(pat, Str) and len(pat.parts) == 3 and pat.parts[1] == rs[0] and \
                    pat.parts[0] in ("(?:", "(", "^(?:", "\\A(?:") and pat.parts[2] in (")\\Z", ")\\Z)"):
                full = True
            if not (isinstance(flags, Const) and not int(flags.v) & ~32):
                full = False
            if full:
                ok[(rs[0], s)] = v
            else:
                odd.append((rs[0], s, k[1], v))
    return ok, odd


def pure(cfg=None):
    d = dict(raises="none", loop_k=3, comp_k=3, rec_k=5, max_states=200000)
    d.update(cfg or {})
    return d


def build(c, tuples, label):
    """[(state, root)] of pmods_from_tuples over the tuples; frozen as input 'mapping'."""
    st = c.state()
    items = []
    for frm, to in tuples:
        items.append(Tup([NONE if frm is None else text(frm), NONE if to is None else to]))
    arg = st.alloc(ListO(items, origin="input:tuples"))
    res = []
    for o in c.run(c.fn(MP, "pmods_from_tuples"), (arg,), st=st, label="pmods_from_tuples(%s)" % label, **pure()):
        if o.raised:
            c.bad("mappings can be built from tuples", label, "pmods_from_tuples raises %s" % o.exc_names(), None, path_of(o))
            continue
        for w in o.writes():
            if w[7] == "input:tuples":
                c.bad("tuples are only read", label, "the tuples given are modified", w[5], path_of(o))
        s = o.st.fork()
        freeze(o.val, s, "mapping")
        res.append((s, o.val))
    return res


def res_alias(v):
    """The alias found, comparable with the specification's."""
    if isinstance(v, Const) and v.v is None:
        return None
    if isinstance(v, App) and v.op == "m:expand":
        m = v.args[0]
        pat = m.args[1].args[0]
        if isinstance(pat, Str):            # written into a larger regex
            pat = ([p for p in pat.parts if isinstance(p, Sym)] or [pat])[0]
        return ("expand", pat, m.args[2], v.args[1])
    return v


def sh(x):
    return "none" if x is None else "expand(%s)" % show(x[3]) if isinstance(x, tuple) else show(x)


def combos_m03():
    al = [None, "noalias", A, EMPTY]
    out = []
    for e in al:
        for a1 in (None, "noalias", B, EMPTY):
            for a2 in (None, "noalias", C, mkstr([D, "\\1"])):
                t = []
                if a1 is not None:
                    t.append(([Re(R1)] + ([Y] if a1 == "noalias" else []), Z if a1 == "noalias" else a1))
                if e is not None:
                    t.append(([X] + ([Y] if e == "noalias" else []), Z if e == "noalias" else e))
                if a2 is not None:
                    t.append(([Re(R2)] + ([Y] if a2 == "noalias" else []), Z if a2 == "noalias" else a2))
                out.append(t)
    # rules holding more than an alias: nested steps, nested regexes, both; with or without an alias of their own
    kinds = [k for k in (("s",), ("r",), ("s", "r"), ("a", "s"), ("a", "r"), ("s", "a"), ("r", "a"))]

    def rule(at, kind, alias):
        return [{"a": ([at], alias), "s": ([at, Y], Z), "r": ([at, Re(R3)], Z)}[k] for k in kind]
    for k in kinds:
        for rest in (("a",), ("s",), ("r", "a")):
            out.append(rule(X, k, A) + rule(Re(R1), rest, B))
            out.append(rule(Re(R1), rest, B) + rule(X, k, A))
        out.append(rule(Re(R1), k, A) + rule(Re(R2), ("a",), B))
        out.append(rule(Re(R2), ("a",), B) + rule(Re(R1), k, A))
    # rules declared again after another one
    for k1 in (("a",), ("s",), ("r",), ("r", "s")):
        for k2 in (("a",), ("s",), ("r",)):
            out.append(rule(Re(R1), k1, A) + rule(Re(R2), ("a",), B) + rule(Re(R1), k2, C))
            out.append(rule(X, k1, A) + rule(Re(R2), ("a",), B) + rule(X, k2, C))
    return out


def tname(tuples):
    return ", ".join("%s->%s" % ("None" if f is None else show(text(f)), "None" if t is None else show(t)) for f, t in tuples)


@check("M03", "Abstract interpretation of Pmod.descend/alias, path facts on regex matches compared with the documented precedence function for every completion of undecided matches",
       "All presence/alias/empty-alias combinations of an exact rule and two regex rules in both orders of declaration; steps, regexes and aliases are symbolic.")
def m03(c):
    c.same_symbols = True
    for i, tuples in enumerate(combos_m03()):
        spec = spec_build(tuples)
        for st, root in build(c, tuples, tname(tuples)):
            results = {}
            for q in ("alias", "descend"):
                for o in c.op("call", st, root, q, (X,), label="%s(x) on %s" % (q, tname(tuples)), **pure()):
                    facts, odd = match_facts(o.st)
                    if odd:
                        c.undecided("%s with %s" % (q, tname(tuples)), "regexes are not fully matched (see M04)")
                        continue
                    if o.raised:
                        c.bad("looking up an alias succeeds", q, "raises %s with rules %s" % (o.exc_names(), tname(tuples)), None, path_of(o))
                        continue
                    if q == "alias":
                        got = res_alias(o.val)
                    elif isinstance(o.val, Tup) and len(o.val.items) == 2:
                        got = res_alias(o.val.items[1])
                    else:
                        c.undecided("result of descend", show(o.val, o.st))
                        continue
                    want = completions(lambda orc: spec_lookup(spec, X, orc)[1], facts)
                    c.oblige(all(w == got for w in want), "alias precedence", q,
                             "rules %s, matches %s: got %s instead of %s" % (tname(tuples), {"%s" % k[0]: v for k, v in facts.items()}, sh(got), " or ".join(sorted(set(map(sh, want))))), None, path_of(o))


@check("M04", "Query over the abstract paths of Pmod.descend/alias/map_path: kind, pattern, flags and subject of every regex match deciding a rule",
       "Every match decision reached from the three lookups is inspected; equivalence of other formulations than fullmatch (or an anchored group) is not attempted.")
def m04(c):
    c.same_symbols = True
    tuples = [([Re(R1)], A), ([Re(R2), Y], B), ([X, Re(R1)], C)]
    n = 0
    for st, root in build(c, tuples, tname(tuples)):
        for q, args in (("alias", (X,)), ("descend", (X,)), ("map_path", (text([X, Y]),)), ("map_path", (text([Y, Z, X]),))):
            asked = set()
            for o in c.op("call", st, root, q, args, label=q, **pure()):
                ok, odd = match_facts(o.st)
                n += len(ok)
                asked |= set(k[0] for k in ok)
                for (r, s) in ok:
                    c.oblige(s in (X, Y, Z, A, B, C), "the complete step is matched", q, "regex %s is matched against %s" % (show(r), show(s)), None, path_of(o))
                for r, s, term, v in odd:
                    c.bad("regexes match whole steps", q, "a rule is decided by %s" % show(term), None, path_of(o))
            if q != "map_path":
                c.oblige(asked >= {R1} and (q == "alias" or R2 in asked) or bool(asked - {R1, R2}) or None, "every regex rule is tried", q, "only %s are tried" % sorted(map(show, asked)))
    c.oblige(True if n else None, "match decisions seen", "lookups", "no regex match decision found")
    concrete(c)


# regexes whose whole and partial matches differ, with steps of both kinds
SPELLED = [("a|b", ("a", "b", "ab", "abc", "ba", "xb", "xa")), ("b|a.|a", ("a", "ab", "abc", "b", "bb")), ("a.", ("ab", "ab\n", "abc", "xab", "a\n", "\nab")), ("a*", ("", "aa", "aab", "b", "\n")),
           ("(a)(b)?", ("a", "ab", "abb", "a\n")), ("(?i)ab", ("AB", "ab", "abc", "AB\n")), ("^a$", ("a", "a\n", "aa")), ("a", ("A", "a", "aa", "a\nb", "b\na")), ("x(?=y)y|x", ("x", "xy", "xz")), ("", ("", "a", "\n"))]


def concrete(c):
    """Spelled-out regexes and steps: whether the rule applies is known beforehand."""
    import re
    for pat, steps in SPELLED:
        label = "rule %r" % pat
        st = c.state()
        arg = st.alloc(ListO([Tup([Const("~" + pat), Const("ALIAS")])]))
        for b in c.run(c.fn(MP, "pmods_from_tuples"), (arg,), st=st, label=label, **pure()):
            if b.raised:
                c.bad("mappings can be built from tuples", label, "pmods_from_tuples raises %s" % b.exc_names(), None, path_of(b))
                continue
            for step in steps:
                want = re.fullmatch(pat, step) is not None
                for q in ("alias", "descend", "map_path"):
                    if q == "map_path" and not step:
                        continue
                    for o in c.op("call", b.st, b.val, q, (Const(step),), label="%s(%r) with %s" % (q, step, label), **pure()):
                        what = "%s of %r by %s" % (q, step, label)
                        if o.raised:
                            c.bad("rules apply to whole steps only", what, "raises %s" % o.exc_names(), None, path_of(o))
                            continue
                        got = o.val.items[1] if q == "descend" and isinstance(o.val, Tup) and len(o.val.items) == 2 else o.val
                        no = Const(step) if q == "map_path" else NONE
                        c.oblige(True if got == (Const("ALIAS") if want else no) else False if isinstance(got, Const) else None, "rules apply to whole steps only", what,
                                 "gives %s, while the rule %s the complete step" % (show(got, o.st), "matches" if want else "does not match"), None, path_of(o))


@check("M05", "Abstract interpretation of path joining through Pmod.map_path (and the joining helper when present) against the documented normal form",
       "All sequences of up to four (thorough: five) steps out of named, '', '.', '..'; named steps are symbolic and distinct.")
def m05(c):
    c.same_symbols = True
    from itertools import product
    names = [W("n%d" % i) for i in range(6)]
    st = c.state()
    pm = c.run(c.fn(MP, "Pmod"), (), st=st, label="Pmod()", **pure())
    try:
        join = c.fn(MP, "_join_paths")
    except AnchorLost:
        join = None
    long = [("w",) * 14, ("",) + ("w",) * 13, ("..",) * 14, ("w",) * 9 + ("..",) * 3 + ("w",) * 3, ("w", ".") * 8, ("..",) * 5 + ("w",) * 10, ("w",) * 12 + ("",), ("w",) * 6 + ("..",) * 9 + ("w",)]
    for n in list(range(1, (6 if c.thorough else 5))) + [None]:
        for kinds in product(("w", "", ".", ".."), repeat=n) if n else long:
            steps = [(names[i] if n else Const("n%d" % i)) if k == "w" else Const(k) for i, k in enumerate(kinds)]
            label = "/".join("step" if k == "w" else k for k in kinds)
            path = text(steps)
            for o in pm:
                for r in c.op("call", o.st, o.val, "map_path", (path,), label="map_path", **pure()):
                    spath = split_text(path)
                    if len(spath) > 1 and spath[-1] == EMPTY and path != Const("/"):
                        spath = spath[:-1]
                    want = spec_join(spath)
                    got = "an exception" if r.raised else show(r.val, r.st)
                    c.oblige(not r.raised and r.o_eq(want), "normal form", "map_path", "%r maps to %s instead of %s" % (label, got, show(want)), None, path_of(r))
            if join is not None:
                for r in c.run(join, tuple(steps), st=c.state(), label="_join_paths", **pure()):
                    want = spec_join(steps)
                    got = "an exception" if r.raised else show(r.val, r.st)
                    c.oblige(not r.raised and r.o_eq(want), "normal form", "_join_paths", "%r joins to %s instead of %s" % (label, got, show(want)), None, path_of(r))


@check("M06", "Abstract interpretation of Pmod.map_path over every alias form in every position, compared with the documented relocation function",
       "Alias forms: none, name, '.', './name', '..', '../name', '/name', '', name/name, name/ ; positions: inner, last, both, root; exact and regex rules; symbolic names.")
def m06(c):
    c.same_symbols = True
    forms = [None, A, Const("."), mkstr(["./", A]), Const(".."), mkstr(["../", A]), mkstr(["/", A]), EMPTY, mkstr([A, "/", B]), mkstr([".", A]), mkstr([A, "/"]), mkstr([".", A, "/", B])]
    forms2 = [None if f is None else rename(f) for f in forms]
    cases = []
    for f1 in forms:
        for f2 in forms2:
            for path in ([X, Y], [EMPTY, X, Y]):
                t = []
                if f1 is not None:
                    t.append((path[:-1], f1))
                if f2 is not None:
                    t.append((path, f2))
                cases.append((t, path))
        for f2 in (forms2 if c.thorough else forms2[:6]):
            cases.append(([] + ([([Re(R1)], f1)] if f1 is not None else []) + ([([Re(R1), Re(R2)], f2)] if f2 is not None else []), [X, Y]))
    for f in forms[1:]:
        if f != EMPTY:
            cases.append(([([EMPTY], f)], [EMPTY, X]))
        cases.append(([([X], f)], [X]))
        cases.append(([([X, Y, Z], f)], [X, Y, Z]))
        cases.append(([([X, Y], f)], [X, Y, Z]))
        cases.append(([([X], f)], [X, Y, EMPTY]))
    for tuples, path in cases:
        judge_map(c, tuples, path)
    # mapping by a nested mapping, which has itself an alias
    for f in forms[1:]:
        for tuples in ([([EMPTY], f)], [([EMPTY], f), ([EMPTY, X], C)], [([EMPTY], f), ([EMPTY, X, Y], mkstr(["../", C]))]):
            spec, _ = spec_lookup(spec_build(tuples), EMPTY, lambda k, s: False)
            for st, root in build(c, tuples, tname(tuples)):
                for d in c.op("call", st, root, "descend", (EMPTY,), label="descend('')", **pure()):
                    if not d.raised and isinstance(d.val, Tup) and len(d.val.items) == 2 and isinstance(d.val.items[0], Ref):
                        for path in ([X], [X, Y]):
                            judge_path(c, tuples, spec, d.st, d.val.items[0], path, "path by a nested mapping")


def rename(v):
    m = {A: C, B: D}
    return mkstr([m.get(p, p) for p in v.parts]) if isinstance(v, Str) else m.get(v, v)


def judge_map(c, tuples, path, rule="mapped path"):
    spec = spec_build(tuples)
    for st, root in build(c, tuples, tname(tuples)):
        judge_path(c, tuples, spec, st, root, path, rule)


def judge_path(c, tuples, spec, st, root, path, rule):
    for o in c.op("call", st, root, "map_path", (text(path),), label="map_path(%s) on %s" % (show(text(path)), tname(tuples)), **pure()):
        facts, odd = match_facts(o.st)
        if odd:
            c.undecided("map_path with %s" % tname(tuples), "regexes are not fully matched (see M04)")
            continue
        want = completions(lambda orc: spec_map(spec, text(path), orc), facts)
        got = "an exception %s" % o.exc_names() if o.raised else show(o.val, o.st)
        c.oblige(not o.raised and all(o.o_eq(w) for w in want), rule, "map_path: " + form_of(tuples, path),
                 "rules %s: %s maps to %s instead of %s" % (tname(tuples), show(text(path)), got, " or ".join(sorted(set(map(show, want))))), None, path_of(o))


def form_of(tuples, path):
    return "%s of %s" % (tname(tuples), show(text(path)))


def tree_queries():
    return [[X], [Y], [EMPTY, X], [X, Y], [X, Z], [EMPTY, X, Y]]


@check("M07", "Abstract interpretation of pmods_from_tuples over interacting symbolic tuples; the lookups on the mapping built compared with the documented registration",
       "Families of up to four tuples: repeated steps, repeated regexes, nested under repeated ones, nulls and empties at either side, in all their orders.")
def m07(c):
    c.same_symbols = True
    from itertools import permutations
    fams = [
        [([X], A), ([X], B)],
        [([X], A), ([X, Y], B), ([X], C)],
        [([Re(R1)], A), ([Re(R2)], B), ([Re(R1)], C)],
        [([Re(R1), Y], A), ([Re(R2), Y], B), ([Re(R1)], C)],
        [([Re(R1), Y], A), ([Re(R2)], B), ([Re(R1), Z], D)],
        [([EMPTY, X], A), ([X], B), ([EMPTY], C)],
        [([X], A), (None, B), ([X], None), ([EMPTY], EMPTY)],
        [([X], A), ([X], EMPTY), ([EMPTY], EMPTY)],
        [([EMPTY], A), ([EMPTY], EMPTY)],
        [([X, Re(R1)], A), ([Re(R1), Re(R1)], B), ([X], EMPTY)],
        [([EMPTY, X, Y], A), ([EMPTY, Re(R1), Y], B), ([EMPTY, X], C)],
    ]
    seen = set()
    for fam in fams:
        for tuples in permutations(fam):
            key = tname(tuples)
            if key in seen:
                continue
            seen.add(key)
            spec = spec_build(tuples)
            for st, root in build(c, tuples, key):
                for path in tree_queries():
                    judge_walk(c, spec, st, root, path, key, "registered rules")


def judge_walk(c, spec, st, root, path, key, rule):
    """Walk down `path` by descend(), comparing the aliases found (also by alias()) at each step with the specification."""
    todo = [(st, root, ())]
    for i, step in enumerate(path):
        nxt = []
        for s, node, _ in todo:
            for q in ("alias", "descend"):
                for o in c.op("call", s, node, q, (step,), label="%s on %s" % (q, key), **pure()):
                    facts, odd = match_facts(o.st)
                    if odd:
                        c.undecided(key, "regexes are not fully matched (see M04)")
                        continue
                    if o.raised:
                        c.bad(rule, key, "%s(%s) raises %s" % (q, show(step), o.exc_names()), None, path_of(o))
                        continue

                    def walk(orc):
                        n = spec
                        for p in path[:i]:
                            n, _ = spec_lookup(n, p, orc)
                            if n is None:
                                return "gone"
                        ch, al = spec_lookup(n, step, orc)
                        return (None if ch is None else True, al)
                    want = completions(walk, facts)
                    if "gone" in want:
                        want = [w for w in want if w != "gone"]
                    if q == "alias":
                        got, wants = res_alias(o.val), [w[1] for w in want]
                    else:
                        if not isinstance(o.val, Tup) or len(o.val.items) != 2:
                            c.undecided(key, "result of descend: %s" % show(o.val, o.st))
                            continue
                        child = o.val.items[0]
                        got = (None if child == NONE else True, res_alias(o.val.items[1]))
                        wants = want
                        if child != NONE:
                            nxt.append((o.st, child, ()))
                    c.oblige(all(w == got for w in wants), rule, "%s: %s of %s" % (key, q, show(text(path[:i + 1]))),
                             "got %s instead of %s" % (shp(got), " or ".join(sorted(set(map(shp, wants))))), None, path_of(o))
        todo = nxt


def shp(x):
    if isinstance(x, tuple) and len(x) == 2:
        return "(%s, %s)" % ("a child" if x[0] else "no child", sh(x[1]))
    return sh(x)


@check("M08", "Abstract interpretation of Pmod.descend on overlapping rules; the merged child walked by symbolic steps and compared with the documented recursive merge",
       "Families of overlapping regex and exact rules with nested exact and regex rules up to three levels, in all orders of declaration; two levels of merging.")
def m08(c):
    c.same_symbols = True
    from itertools import permutations
    fams = [
        [([Re(R1), Y], A), ([Re(R2), Y], B), ([X, Y], C)],
        [([Re(R1), Y], A), ([Re(R2), Z], B), ([X], C)],
        [([Re(R1), Y, Z], A), ([X, Y, Z], B), ([X, Y, X], C)],
        [([Re(R1), Re(R1)], A), ([Re(R1), Re(R2)], B), ([X, Re(R1)], C)],
        [([Re(R1), Re(R1)], A), ([Re(R2), Re(R2)], B)],
        [([Re(R1), Y], A), ([Re(R1)], B), ([X, Z], C), ([X], D)],
        [([Re(R1), Y], EMPTY), ([X, Y], A), ([X, Y, Z], C)],
        [([Re(R1), Y], A), ([X, Y, Z], C), ([Re(R2), Y, Z], D)],
        [([Re(R1), Re(R1), Z], A), ([X, Re(R1), Z], B)],
        [([Re(R1), Re(R1), Z], A), ([X, Re(R1), Y], B)],
        [([Re(R1), Re(R1)], A), ([X, Re(R1), Y], B)],
        [([Re(R1), Y], A), ([X, Y], EMPTY)],
        [([Re(R1), Y], A), ([X, Y], EMPTY), ([Re(R2), Y, Z], B)],
    ]
    seen = set()
    for fam in fams:
        for tuples in permutations(fam):
            key = tname(tuples)
            if key in seen:
                continue
            seen.add(key)
            spec = spec_build(tuples)
            for st, root in build(c, tuples, key):
                for path in ([X, Y], [X, Z], [X, Y, Z], [X, Y, X]):
                    judge_walk(c, spec, st, root, path, key, "merged rules")


# ------------------------------------------------------------------ M01, M02: ownership of mappings
def mapping_families():
    return [
        [],
        [([X], A)],
        [([EMPTY, X], A), ([EMPTY, X, Y], B)],
        [([X, Y], A), ([Re(R1), Y], B), ([Re(R1), Re(R2)], C)],
        [([EMPTY, X, Y], mkstr(["../", A])), ([EMPTY, Re(R1), Y, Z], B), ([EMPTY, X, Re(R2)], C), ([EMPTY, X, Re(R1)], D)],
        [([EMPTY, Re(R1), Re(R1)], A), ([EMPTY, Re(R2), Re(R1)], B), ([EMPTY, X, Re(R1)], C), ([EMPTY, X, Re(R2)], EMPTY)],
    ]


def mapping_writes(c, rule, subject, o, label="input:mapping"):
    n = 0
    for w in o.writes():
        if w[7] == label:
            n += 1
            c.bad(rule, "%s in %s" % (subject, w[6]), "%s writes %s of the mapping" % (subject, show(w[3], o.st) if isinstance(w[3], Val) else w[2]), w[5], path_of(o))
    if not n:
        c.ok(rule, subject)
    return n


@check("M01", "Ownership (write-effect with object origin) analysis by abstract interpretation: no store on any path reaches an object of the mapping given",
       "Mappings built from families of overlapping symbolic rules; all lookups, and all sequences of up to two (thorough: three) path-step operations on steps derived from them.")
def m01(c):
    c.same_symbols = True
    for tuples in mapping_families():
        key = tname(tuples) or "empty"
        for st, root in build(c, tuples, key):
            for q, args in (("descend", (X,)), ("descend", (EMPTY,)), ("alias", (X,)), ("map_path", (text([EMPTY, X, Y, Z]),)), ("map_path", (text([X, Y]),)),
                            ("map_paths", (Tup([text([EMPTY, X, Y]), text([X])]),))):
                for o in c.op("call", st, root, q, args, label=q, **pure()):
                    mapping_writes(c, "lookups only read", q, o)
                    # the child mapping found must not be written by further descents either
                    if q == "descend" and not o.raised and isinstance(o.val, Tup) and o.val.items[0] != NONE:
                        for o2 in c.op("call", o.st, o.val.items[0], "descend", (Y,), label=q, **pure()):
                            mapping_writes(c, "lookups only read", "descend twice", o2)
                        for o2 in c.op("call", o.st, o.val.items[0], "descend", (X,), label=q, **pure()):
                            mapping_writes(c, "lookups only read", "descend twice", o2)
    fams = mapping_families()
    for tuples in (fams[2], fams[3], fams[4]) if not c.thorough else fams:
        key = tname(tuples) or "empty"
        for st, root in build(c, tuples, key):
            for first in ("step", "Pstep"):
                if first == "step":
                    starts = c.op("call", st, root, "step", (), label="step", **pure())
                else:
                    starts = c.run(c.fn(MP, "Pstep"), (Const("x"),) if False else (X,), {"maps": root}, st=st, label="Pstep()", **pure())
                for o in starts:
                    mapping_writes(c, "path-step operations only read the mapping", "creating a path-step", o)
                    if not o.raised:
                        step_ops(c, o, 2, ())


OPS = [("get", "x", ()), ("get", "y", ()), ("set", "x", ("str",)), ("set", "y", ("str",)), ("set", "x", ("self",)), ("call", "_tag", (Const("t"),)),
       ("get", "_fix", ()), ("get", "_lock", ()), ("call", "_paths", ()), ("down", "x", ()), ("down", "y", ())]


def step_ops(c, o, depth, hist):
    if depth == 0:
        return
    for kind, name, args in OPS:
        if kind == "set":
            a = (Sym("newname", "str", "word"),) if args[0] == "str" else (o.val,)
            outs = c.op("set", o.st, o.val, name, a, label="step.%s = ..." % name, **pure())
        elif kind == "down":
            outs = c.op("get", o.st, o.val, name, label="step." + name, **pure())
        elif kind == "get":
            outs = c.op("get", o.st, o.val, name, label="step." + name, **pure())
        else:
            outs = c.op("call", o.st, o.val, name, args, label="step." + name, **pure())
        opname = "step.%s = %s" % (name, args[0]) if kind == "set" else "step." + name
        for r in outs:
            mapping_writes(c, "path-step operations only read the mapping", opname, r)
            if r.raised:
                continue
            nxt = r if kind == "down" else Outcome(r.st, o.val, False, r.events, r.it)
            if isinstance(nxt.val, Ref) and not (depth == 2 and kind == "call" and name == "_paths"):
                step_ops(c, nxt, depth - 1, hist + (opname,))


@check("M02", "Escape/alias analysis by abstract interpretation: heap objects reachable from separately created mappings are disjoint and no default or argument container is ever written",
       "All ways of creating mappings (empty, from parts, from tuples) in pairs, each then filled by the other creations' insertions.")
def m02(c):
    c.same_symbols = True
    mk = [("Pmod()", []), ("pmods_from_tuples([])", []), ("tuples", [([X], A)]), ("tuples", [([EMPTY, X, Y], A), ([EMPTY, Re(R1)], B)]), ("tuples", [([EMPTY, X], A), ([EMPTY, X, Re(R1)], B), ([EMPTY, Re(R2), Y], C)]),
          ("tuples", [([EMPTY, Re(R1)], B), ([EMPTY, Re(R1), Y], A)])]

    def create(st, how, tuples):
        if how == "Pmod()":
            return c.run(c.fn(MP, "Pmod"), (), st=st, label=how, **pure())
        st = st.fork()
        items = [Tup([text(f), t]) for f, t in tuples]
        arg = st.alloc(ListO(items, origin="input:tuples"))
        return c.run(c.fn(MP, "pmods_from_tuples"), (arg,), st=st, label=how, **pure())

    for how1, t1 in mk:
        for o1 in create(c.state(), how1, t1):
            if o1.raised:
                continue
            bad_writes(c, o1, "%s %s" % (how1, tname(t1)))
            st = o1.st.fork()
            before = reachable(o1.val, st)
            mutable = set(x for x in before if is_mutable(st.heap[x]) and not str(st.heap[x].origin).startswith("shared:"))
            for x in mutable:
                st.heap[x] = st.heap[x].repl(origin="input:first")
            for how2, t2 in mk:
                for o2 in create(st, how2, t2):
                    if o2.raised:
                        continue
                    bad_writes(c, o2, "%s %s after another mapping" % (how2, tname(t2)))
                    after = reachable(o2.val, o2.st)
                    common = after & mutable
                    c.oblige(not common, "separately created mappings share no mutable part", "%s / %s" % (how1, how2),
                             "they share %s" % [show(Ref(x), o2.st) for x in common], None, path_of(o2))
                    # what a default-constructed one holds afterwards
                    for o3 in c.run(c.fn(MP, "Pmod"), (), st=o2.st, label="Pmod() later", **pure()):
                        if o3.raised:
                            continue
                        content = [x for x in reachable(o3.val, o3.st) if o3.st.heap[x].kind == "dict" and Ref(x) != Ref(o3.st.heap[o3.val.oid].dict) and o3.st.heap[x].items]
                        c.oblige(not content, "a default mapping is empty", how2, "Pmod() made later holds %s" % [show(Ref(x), o3.st) for x in content], None, path_of(o3))


def is_mutable(o):
    return o.kind in ("inst", "dict", "list")


def bad_writes(c, o, label):
    n = 0
    for w in o.writes():
        if str(w[7]).startswith(("shared:", "input:first", "input:tuples")):
            n += 1
            c.bad("only the mapping being made is written", "in %s" % w[6], "%s: a write reaches %s" % (label, w[7]), w[5], path_of(o))
    if not n:
        c.ok("only the mapping being made is written", label)
