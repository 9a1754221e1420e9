"""Json-pointers, paths and the JSON codec (D07-D10)."""
from itertools import product
from ..harness import *
from .pandel import PD, ENV, cfg_pandel
from .rules import _items

JENV = "envm_json"
FAIL = "unresolvable"
MUTATORS = frozenset("pop popitem clear update setdefault append extend insert remove sort reverse fill put drop __setitem__ __delitem__ setflags itemset".split())


def unesc(p):
    return p.replace("~1", "/").replace("~0", "~")


def doc_of(st, rootless=False):
    """A document holding every kind of node; returns (value, python description for the specification)."""
    D = lambda items: st.alloc(DictO([(Const(k), v) for k, v in items], origin="input:document"))
    L = lambda items: st.alloc(ListO(list(items), origin="input:document"))
    S = lambda n, t="int": Sym(n, t)
    return D([("a", D([("b", S("ab")), ("", S("a_empty")), ("0", S("a_zero")), ("x/y", S("axy")), ("m~n", S("amn")), ("nil", NONE)])),
              ("l", L([S("l0"), D([("k", S("l1k"))]), L([S("l20")])])),
              ("t", Tup((S("t0"), D([("k", S("t1k"))])))),
              ("s", Const("text")), ("n", NONE), ("f", S("f", "float"))] + ([] if rootless else [("", D([("", S("ee"))]))]) + [("~1", S("tilde"))])


def step(st, v, part):
    """The child of a known node, or FAIL; strings' characters are left open ('?')."""
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, DictO):
            return dict(o.items).get(Const(part), FAIL)
        if isinstance(o, ListO):
            v = Tup(o.items)
    if isinstance(v, Tup):
        try:
            i = int(part)
        except ValueError:
            return FAIL
        if i < 0:
            return "?"
        return v.items[i] if i < len(v.items) else FAIL
    if v == Const("text"):
        try:
            int(part)
            return "?"
        except ValueError:
            return FAIL
    return "?" if isinstance(v, Sym) and v == Sym("root") else FAIL


POINTERS = ["", "/a", "/a/b", "/a/", "/a/0", "/a/x~1y", "/a/m~0n", "/a/nil", "/a/nil/z", "/a/zz", "/a/b/c", "/l", "/l/0", "/l/1/k", "/l/1/z", "/l/2/0", "/l/2/1", "/l/3", "/l/-", "/l/x", "/l/0/0", "/t/0", "/t/1/k",
            "/t/2", "/t/k", "/s", "/s/q", "/s/q/r", "/n", "/n/0", "/f", "/f/1", "/f/x", "//", "/", "/~01", "/~1", "/zz/y", "/a/~1", "/l/1.0", "/l/ ", "/a/b/c/d", "/n/x/y"]


def spec_resolve(st, doc, parts):
    v = doc
    for p in parts:
        v = step(st, v, p)
        if v in ("?", FAIL):
            return v
    return v


def judge_lookup(c, r, label, want, default):
    writes = [w for w in r.writes() if w[7] == "input:document"]
    for w in writes:
        c.bad("resolving only reads", label, "the document is written", w[5], path_of(r))
    if not writes:
        c.ok("resolving only reads", label)
    if want == "?":
        c.oblige(not r.raised or r.raises("RefResolutionError"), "only the documented error", label, "raises %s" % r.exc_names(), None, path_of(r))
        return
    if want != FAIL:
        c.oblige(not r.raised and r.val == want, "finds the value pointed at", label, "gives %r instead of %s" % (r, show(want, r.st)), None, path_of(r))
    elif default is None:
        c.oblige(r.raised and r.raises("RefResolutionError"), "fails with a reference-resolution error", label, "gives %r" % r, None, path_of(r))
    else:
        c.oblige(not r.raised and r.val == default, "gives the default", label, "gives %r instead of %s" % (r, show(default)), None, path_of(r))


DEFAULTS = [None, NONE, FALSE, Const(0), Const(""), Sym("dflt", "Dflt_")]


@check("D07", "Effect and exception-escape analysis by abstract interpretation of resolve_jsonpointer, resolve_path and Pandel.get: no write reaches the document; the outcome is the node, the default, or the one documented error",
       "A document holding every kind of node with all pointers to, past and beside them, and opaque documents of unknown or array/frame types whose lookups may raise any exception their kind can; every kind of default.")
def d07(c):
    cfg = dict(raises="none", loop_k=4, comp_k=4, max_states=200000)
    rj, rp, mg = c.fn(PD, "resolve_jsonpointer"), c.fn(PD, "resolve_path"), c.fn(JENV, "model_get")
    for p in POINTERS:
        parts = [unesc(x) for x in p.split("/")[1:]]
        for d in DEFAULTS if c.thorough or p in ("/a/b", "/zz/y", "/l/x", "/n/0", "/a/nil") else DEFAULTS[:3]:
            st = c.state()
            doc = doc_of(st)
            want = spec_resolve(st, doc, parts)
            for kw in ((), (("default", d),)) if d is not None else ((),):
                label = "pointer %r, default %s" % (p, show(d) if kw else "not given")
                for r in c.run(rj, (doc, Const(p)), kw, st=st.fork(), label=label, **cfg):
                    judge_lookup(c, r, label, want, d if kw else None)
                if kw or d is None:
                    st2 = c.state()
                    sub = doc_of(st2)
                    pc = cfg_pandel([(0, None)])
                    # the model is a copy of the (only) submodel: compare by rendering
                    for r in c.run(mg, (st2.alloc(ListO([sub])), Const(p)), kw, st=st2, label="model " + label, **pc):
                        if want in ("?",):
                            continue
                        if want == FAIL:
                            c.oblige(r.raised and r.raises("RefResolutionError") if d is None or not kw else (not r.raised and r.val == d), "a model's values are looked up alike", "model " + label, "gives %r" % r, None, path_of(r))
                        else:
                            c.oblige(not r.raised and tree(r.val, r.st) == tree(want, st), "a model's values are looked up alike", "model " + label, "gives %r instead of %s" % (r, show(want, st)), None, path_of(r))
    # --- resolve_path
    paths = [(p, unesc_all(p)) for p in POINTERS] + [(x, unesc_all(x)) for x in ("a/b", "a", "l/1/k", "zz", "a/zz", "l/x", "n/x", "a//x", "f/x", "t/1/k", "~01", "a/m~0n")]
    for p, parts in paths:
        for d in DEFAULTS if p in ("/a/b", "zz", "n/x") or c.thorough else DEFAULTS[:2]:
            for root, rootless in ((None, False), ("other", False), (None, True), ("other", True), ("empty", True), ("DataFrame", True), ("list", True)):
                st = c.state()
                doc = doc_of(st, rootless)
                other = Sym("root", "DataFrame", ("shared",)) if root == "DataFrame" else st.alloc(ListO([], origin="input:document")) if root == "list" else \
                    st.alloc(DictO([(Const("a"), Sym("ra", "int"))] if root == "other" else [], origin="input:document"))
                v = doc
                for i, x in enumerate(parts):
                    n = step(st, v, x)
                    if n == FAIL and x == "":
                        n = (other if root else doc) if i == 0 else "?"
                    v = n
                    if v in ("?", FAIL):
                        break
                kw = ((("default", d),) if d is not None else ()) + ((("root", other),) if root else ())
                label = "path %r, default %s, root %s%s" % (p, show(d) if d is not None else "not given", root, ", no empty name" if rootless else "")
                for r in c.run(rp, (doc, Const(p)), kw, st=st, label=label, **cfg):
                    judge_lookup(c, r, label, v, d)
    # --- opaque documents: whatever their lookups raise
    for ty in (None, "DataFrame", "Series", "ndarray", "Thing_", "dict", "list"):
        for name, f in (("resolve_jsonpointer", rj), ("resolve_path", rp)):
            for p in ("/a", "/a/0") if ty is None else ("/a/0",):
                for d in (None, NONE, Sym("dflt", "Dflt_")):
                    st = c.state()
                    doc = Sym("doc", ty, ("shared",))
                    label = "%s of %r in any %s, default %s" % (name, p, ty or "value", show(d) if d is not None else "not given")
                    for r in c.run(f, (doc, Const(p)), (("default", d),) if d is not None else (), st=st, label=label, raises="all", loop_k=4, max_states=200000):
                        w = [x for x in r.writes() if isinstance(x[1], Val) and not isinstance(x[1], Ref)]
                        w += [e for e in r.calls() if e[1].lstrip(".") in MUTATORS and e[2] and not isinstance(e[2][0], (Ref, Const))]
                        c.oblige(not w, "resolving only reads", label, "the document is modified", w[0][5] if w else None, path_of(r))
                        if r.raised:
                            c.oblige(d is None and r.raises("RefResolutionError"), "only the documented error, and never when a default is given", label, "raises %s" % r.exc_names(), None, path_of(r))
                        else:
                            c.ok("only the documented error, and never when a default is given", label)


def unesc_all(p):
    return [unesc(x) for x in p.split("/")]


def tree(v, st):
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if isinstance(o, DictO):
            return ("dict", tuple((k, tree(x, st)) for k, x in o.items))
        if isinstance(o, ListO):
            return ("list", tuple(tree(x, st) for x in o.items))
        return ("obj", v.oid)
    if isinstance(v, Tup):
        return ("list", tuple(tree(x, st) for x in v.items))
    return v


def spec_set(st, doc, parts):
    """Where a value is to be stored: ('set', container, key, rest parts), or None: an error."""
    if not parts:
        return None
    cur, up = doc, None
    for i, p in enumerate(parts):
        o = st.heap[cur.oid] if isinstance(cur, Ref) else cur
        if isinstance(o, (ListO, Tup)):
            n = len(o.items)
            if p == "-":
                k = n
            else:
                try:
                    k = int(p)
                except ValueError:
                    return None
                if not 0 <= k <= n:
                    return None
            nxt = o.items[k] if k < n else FAIL
        elif isinstance(o, DictO):
            k = Const(p)
            nxt = dict(o.items).get(k, FAIL)
        else:           # a leaf: replaced within its parent
            return up and ("set",) + up if not isinstance(st.heap.get(up[0].oid) if isinstance(up[0], Ref) else up[0], Tup) else None
        if nxt == FAIL or i == len(parts) - 1:
            return None if isinstance(o, Tup) else ("set", cur, k, parts[i + 1:])
        up = (cur, k, parts[i + 1:])
        cur = nxt
    return None


SETS = [p for p in POINTERS] + ["a", "a/b", "/l/-/x", "/l/-/x/y", "/l/2/-", "/l/-1", "/l/4", "/new", "/new/x", "/new/x/y", "/a/new/x~1y", "/a/b/~0c", "/n/q/r", "/t/0/x", "/t/1/new", "/t/1/k/z", "/l/0/z", "/l/3/z",
                                "/new/-", "/new/0", "/-", "/a/-", "/s/0", "/s/0/x", "/s/-"]


@check("D08", "Effect-ordering and provenance analysis of set_jsonpointer by abstract interpretation: either one store of the value at the place pointed at, or the documented error with no store before it on the path",
       "A document holding every kind of node with pointers to, past and beside all of them; the value and the objects made by the factory are symbolic; opaque containers whose lookups and stores may fail.")
def d08(c):
    f = c.fn(PD, "set_jsonpointer")

    def fac(it, st, args, kwargs, ctx, node):
        s = st.fork()
        r = s.alloc(DictO([]))
        s.event("factory", r)
        yield s, r
    cfg = dict(raises="none", loop_k=5, comp_k=5, max_states=200000, stubs={"oracle.factory": fac})
    for p in SETS:
        for factory in (None, Ext("oracle.factory")):
            for val in (Sym("value", "Value_"), NONE) if factory is None or c.thorough else (Sym("value", "Value_"),):
                st = c.state()
                doc = doc_of(st)
                ok_ptr = p == "" or p[0] == "/"
                parts = [unesc(x) for x in p.split("/")[1:]]
                want = spec_set(st, doc, parts) if ok_ptr else None
                before = tree(doc, st)
                label = "set %r, factory %s, value %s" % (p, "given" if factory else "default", show(val))
                kw = (("object_factory", factory),) if factory else ()
                for r in c.run(f, (doc, Const(p), val), kw, st=st.fork(), label=label, **cfg):
                    w = [x for x in r.writes() if x[7] == "input:document"]
                    if r.raised:
                        c.oblige(r.raises("RefResolutionError"), "only the documented error", label, "raises %s" % r.exc_names(), None, path_of(r))
                        c.oblige(not w and tree(doc, r.st) == before, "a failure leaves the document as it was", label, "it was written before failing", w[0][5] if w else None, path_of(r))
                        c.oblige(want is None, "a settable place is set", label, "fails", None, path_of(r))
                        continue
                    if want is None:
                        c.bad("what cannot be set fails", label, "nothing is raised", w[0][5] if w else None, path_of(r))
                        continue
                    _, cont, key, rest = want
                    exp = val
                    made = [e[1] for e in r.events if e[0] == "factory"]
                    exp_t = tree(val, r.st)
                    for x in reversed(rest):
                        exp_t = ("dict", ((Const(x), exp_t),))
                    want_doc = subst(doc, st, cont, key, exp_t)
                    c.oblige(tree(doc, r.st) == want_doc, "exactly the place pointed at holds the value", label, "the document becomes %s" % show(doc, r.st), w[0][5] if w else None, path_of(r))
                    if factory:
                        c.oblige(len(made) == len(rest), "missing objects are made by the factory", label, "it is called %d times for %d" % (len(made), len(rest)), None, path_of(r))
    # objects which refuse some key, whatever the exception
    c.fn(JENV, "Picky")
    for p in ("/new/no", "/new/a/no", "/new/no/a", "/d/new/no", "/no/no", "/l/-/no"):
        st = c.state()
        doc = doc_of(st)
        before = tree(doc, st)
        label = "set %r with objects refusing a key" % p
        for r in c.run(f, (doc, Const(p), Sym("value", "Value_")), (("object_factory", c.fn(JENV, "Picky")),), st=st.fork(), label=label, **dict(cfg, stubs={})):
            w = [x for x in r.writes() if x[7] == "input:document"]
            c.oblige(r.raised, "what cannot be set fails", label, "nothing is raised", w[0][5] if w else None, path_of(r))
            if r.raised:
                c.oblige(not w and tree(doc, r.st) == before, "a failure leaves the document as it was", label, "it was written before failing", w[0][5] if w else None, path_of(r))
    for ty in (None, "DataFrame", "ndarray", "Thing_", "list", "dict"):
        for p in ("/a", "/a/0", "/0"):
            label = "set %r in any %s" % (p, ty or "value")
            st = c.state()
            for r in c.run(f, (Sym("doc", ty, ("shared",)), Const(p), Sym("value", "Value_")), (("object_factory", Ext("oracle.factory")),), st=st, label=label,
                           **dict(cfg, raises="all", raise_filter=lambda what, key, node: what != "len")):
                stores = [x for x in r.writes() if not isinstance(x[1], Ref)]
                if r.raised and r.raises("RefResolutionError"):
                    early = [x for x in stores if not failed(x, r)]
                    c.oblige(len(early) <= 1, "a failure leaves the document as it was", label, "several places are written", early[0][5] if early else None, path_of(r))
                elif r.raised:
                    t = r.exc_names()
                    c.oblige(True if t is None or len(t) > 1 else not (t <= LOOKUPS), "only the documented error", label, "raises %s" % t, None, path_of(r))
                else:
                    c.oblige(len(stores) == 1, "exactly one store", label, "%d places are written" % len(stores), None, path_of(r))


LOOKUPS = frozenset(["KeyError", "IndexError", "TypeError", "LookupError", "AttributeError"])


def failed(w, r):
    return True


def subst(v, st, cont, key, new):
    """The tree of `v` with `new` stored under `key` of the container `cont` (appended at its end)."""
    if v == cont:
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], DictO):
            items = [(k, tree(x, st)) for k, x in st.heap[v.oid].items]
            for i, (k, x) in enumerate(items):
                if k == key:
                    items[i] = (k, new)
                    break
            else:
                items.append((key, new))
            return ("dict", tuple(items))
        items = [tree(x, st) for x in st.heap[v.oid].items]
        if key == len(items):
            items.append(new)
        else:
            items[key] = new
        return ("list", tuple(items))
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, DictO):
            return ("dict", tuple((k, subst(x, st, cont, key, new)) for k, x in o.items))
        return ("list", tuple(subst(x, st, cont, key, new) for x in o.items))
    if isinstance(v, Tup):
        return ("list", tuple(subst(x, st, cont, key, new) for x in v.items))
    return v


# ------------------------------------------------------------------------- D09
def rewriting(v, sym):
    """A chain of constant text-replacements of `sym`: [(old, new)], or None."""
    out = []
    while v != sym:
        if not (isinstance(v, App) and v.op == "m:replace" and len(v.args) == 3 and all(isinstance(x, Const) and isinstance(x.v, str) for x in v.args[1:])):
            return None
        out.append((v.args[1].v, v.args[2].v))
        v = v.args[0]
    return out[::-1]


def rewrite(chain, w):
    for a, b in chain:
        w = w.replace(a, b)
    return w


@check("D09", "Extraction of the text-rewriting chains by abstract interpretation, decided over all short words of their alphabet; dataflow of the pieces of a split pointer to the yielded parts",
       "Chains of constant replacements with windows of at most two letters are decided over all words of up to 6 (thorough: 7) letters over '~', '/', '0', '1' and a neutral letter; parsers over all pointers of up to 3 parts out of 12.")
def d09(c):
    esc, une = c.fn(PD, "escape_jsonpointer_part"), c.fn(PD, "unescape_jsonpointer_part")
    x = Sym("part", "str")
    chains = {}
    for name, f in (("escape", esc), ("unescape", une)):
        outs = c.run(f, (x,), label=name, raises="none")
        ch = [rewriting(o.val, x) if not o.raised else None for o in outs]
        chains[name] = ch[0] if len(ch) == 1 else None
    N = 7 if c.thorough else 6
    if chains["escape"] is not None and chains["unescape"] is not None:
        c.notes.append("escape: %s; unescape: %s" % (chains["escape"], chains["unescape"]))
        for n in range(N + 1):
            bad = bad2 = None
            for t in product("~/01a", repeat=n):
                w = "".join(t)
                e = rewrite(chains["escape"], w)
                bad = bad or (rewrite(chains["unescape"], e) != w and w) or None
                bad2 = bad2 or ("/" in e and w) or None
            c.oblige(bad is None, "unescaping undoes escaping", "all words of %d letters" % n, "%r is not restored by %s after %s" % (bad, chains["unescape"], chains["escape"]))
            c.oblige(bad2 is None, "no slash is left", "all words of %d letters" % n, "%r is escaped with a slash" % bad2)
    else:
        # not a chain of replacements: constant propagation over short words
        for n in range(4):
            for t in product("~/01a", repeat=n):
                w = "".join(t)
                for o in c.run(esc, (Const(w),), label="escape %r" % w, raises="none", loop_k=9, comp_k=9):
                    e = o.st.facts.get(("val", o.val), o.val)
                    if o.raised or not isinstance(e, Const):
                        c.oblige(False if o.raised else None, "unescaping undoes escaping", repr(w), "escaping gives %r" % o, None, path_of(o))
                        continue
                    c.oblige("/" not in e.v, "no slash is left", repr(w), "escaped to %r" % e.v)
                    for o2 in c.run(une, (e,), label="unescape %r" % e.v, raises="none", loop_k=9, comp_k=9):
                        c.oblige(None if not isinstance(o2.val, Const) else o2.val.v == w, "unescaping undoes escaping", repr(w), "restored as %r" % o2, None, path_of(o2))
    pieces = ["", "a", "~0", "~1", "~01", "~10", "a~1b", "0", "-", "~0~1", "b~0", "~00"]
    strict, relaxed = c.fn(JENV, "strict"), c.fn(JENV, "relaxed")
    for n in range(4):
        for ps in product(pieces if n < 3 or c.thorough else pieces[:7], repeat=n):
            p = "".join("/" + x for x in ps)
            want = [Const(unesc(x)) for x in ps]
            for r in c.run(strict, (Const(p),), label="parts of %r" % p, raises="none", loop_k=6, comp_k=6):
                c.oblige(not r.raised and _items(r) == want, "every part is yielded once, in order and unescaped", "pointer %r" % p, "gives %r" % r, None, path_of(r))
            q = "/".join(ps)
            for path, wanted in ((p, [Const("")] + want), (q, want or [Const("")])):
                for r in c.run(relaxed, (Const(path),), label="parts of path %r" % path, raises="none", loop_k=6, comp_k=6):
                    c.oblige(not r.raised and _items(r) == wanted, "every part is yielded once, in order and unescaped", "path %r" % path, "gives %r" % r, None, path_of(r))
            if ps and ps[0]:
                for r in c.run(strict, (Const(q),), label="parts of %r" % q, raises="none", loop_k=6, comp_k=6):
                    c.oblige(r.raised and r.raises("RefResolutionError"), "a pointer not starting with a slash is refused", "pointer %r" % q, "gives %r" % r, None, path_of(r))


# ------------------------------------------------------------------------- D10
ENCODERS = {"binascii.b2a_qp": "binascii.a2b_qp", "quopri.encodestring": "quopri.decodestring", "binascii.b2a_base64": "binascii.a2b_base64", "base64.b64encode": "base64.b64decode", "binascii.hexlify": "binascii.unhexlify",
            "binascii.b2a_hex": "binascii.a2b_hex", "base64.encodebytes": "base64.decodebytes", "base64.b32encode": "base64.b32decode", "base64.b16encode": "base64.b16decode", "base64.b85encode": "base64.b85decode",
            "base64.a85encode": "base64.a85decode", "base64.urlsafe_b64encode": "base64.urlsafe_b64decode", "base64.standard_b64encode": "base64.standard_b64decode"}
SAME = {"binascii.a2b_hex": "binascii.unhexlify", "base64.decodebytes": "binascii.a2b_base64", "base64.b64decode": "binascii.a2b_base64", "base64.standard_b64decode": "binascii.a2b_base64", "quopri.decodestring": "binascii.a2b_qp"}
PAIRS = dict(ENCODERS, **{"zlib.compress": "zlib.decompress", "bz2.compress": "bz2.decompress", "lzma.compress": "lzma.decompress", "pickle.dumps": "pickle.loads", "dill.dumps": "dill.loads", "cloudpickle.dumps": "pickle.loads"})
ASCII = frozenset(["utf8", "utf-8", "ascii", "us-ascii", "latin1", "latin-1", "iso-8859-1", "cp1252", "utf_8", "latin_1"])
LATIN = frozenset(["latin1", "latin-1", "iso-8859-1", "latin_1"])


def fn_args(v):
    """(function, positional, keywords) of a call term."""
    pos, kw = [], {}
    for a in v.args:
        if isinstance(a, tuple):
            kw[a[0]] = a[1]
        else:
            pos.append(a)
    return v.op, pos, kw


def opt(pos, kw, i, name, default):
    v = pos[i] if len(pos) > i else kw.get(name, Const(default))
    return v.v if isinstance(v, Const) else None


def ascii_only(v):
    return isinstance(v, App) and v.op[5:] in ENCODERS


def lossless(v):
    """(ok, why) for one encoding step."""
    op, pos, kw = fn_args(v)
    name = op[5:]
    if name == "binascii.b2a_qp":
        if opt(pos, kw, 2, "istext", True) is not False:
            return False, "b2a_qp() of text rewrites the newlines of arbitrary bytes"
    return True, ""


def simplify(v, why):
    """Cancel conversions with their inverses."""
    if not isinstance(v, App):
        return v
    v = App(v.op, tuple(simplify(a, why) for a in v.args), v.ty)
    op, pos, kw = fn_args(v)
    if op == "m:encode" and pos and isinstance(pos[0], App) and pos[0].op == "m:decode":
        iop, ipos, ikw = fn_args(pos[0])
        e1, e2 = opt(ipos, ikw, 1, "encoding", "utf8"), opt(pos, kw, 1, "encoding", "utf8")
        src = ipos[0]
        if ascii_only(src):
            if str(e1).lower() in ASCII and str(e2).lower() in ASCII:
                return src
            if e1 == e2 and opt(pos, kw, 2, "errors", "strict") == "strict":
                return src
            why.append("decoded as %s but encoded as %s" % (e1, e2))
        elif str(e1).lower() in LATIN and str(e2).lower() in LATIN:
            return src
        else:
            why.append("arbitrary bytes decoded as %s and encoded as %s" % (e1, e2))
        return v
    if op.startswith("call:") and pos and isinstance(pos[0], App):
        name = op[5:]
        iop, ipos, ikw = fn_args(pos[0])
        inv = PAIRS.get(iop[5:])
        if inv and SAME.get(inv, inv) == SAME.get(name, name):
            ok, w = lossless(pos[0])
            if name == "binascii.a2b_qp" and bool(opt(pos, kw, 1, "header", False)) != bool(opt(ipos, ikw, 3, "header", False)):
                ok, w = False, "header-mode differs between quoting and unquoting"
            if name == "pickle.loads" and any(k in kw for k in ("encoding", "errors", "fix_imports")):
                ok, w = False, "pickle.loads() with %s" % sorted(kw)
            if ok:
                return ipos[0]
            why.append(w)
    return v


@check("D10", "Extraction of the encoder's and decoder's conversion terms by abstract interpretation and cancellation of each conversion with its inverse",
       "Arbitrary object encoded and decoded again; plain JSON of every type passed through; the library conversions' inverses and losslessness are a table in the check.")
def d10(c):
    enc, dec = c.fn(JENV, "encode"), c.fn(JENV, "decode")
    cfg = dict(raises="none", max_states=50000)
    x = Sym("o", "Obj_")
    n = 0
    for o in c.run(enc, (x,), label="encode", **cfg):
        if o.raised:
            c.bad("encoding succeeds", "encode", "raises %s" % o.exc_names(), None, path_of(o))
            continue
        calls = [e for e in o.calls() if e[1].endswith("JSONEncoder.encode")]
        if len(calls) != 1 or o.val != calls[0][5]:
            c.oblige(None, "the JSON text is that of the standard encoder", "encode", "gives %r" % o)
            continue
        c.ok("the JSON text is that of the standard encoder", "encode")
        n += 1
        payload = calls[0][2][-1]
        consts = []

        def jdecode(it, st, args, kwargs, ctx, node):
            s = st.fork()
            s.heap.update({k: v for k, v in o.st.heap.items() if k not in s.heap})
            yield s, payload
        st = o.st.fork()
        for r in c.run(dec, (o.val,), st=st, label="decode what was encoded", stubs={"json.decoder.JSONDecoder.decode": jdecode, "json.JSONDecoder.decode": jdecode}, **cfg):
            fs = [k[1] for k, v in r.st.facts.items() if k[0] == "truth" and v is False and isinstance(k[1], App) and k[1].op in ("m:decode",)]
            if fs:
                continue        # the encoded text is never empty
            why = []
            got = simplify(r.val, why) if not r.raised else None
            c.oblige(not r.raised and got == x, "decoding gives back what was encoded", "decode what was encoded", "gives %s: %s" % (r.show() if not r.raised else repr(r), "; ".join(why)), None, path_of(r))
    c.oblige(n > 0 or None, "the encoder was followed", "encode", "no path")
    for kind in ("dict", "empty dict", "list", "str", "int", "float", "bool", "NoneType", "empty list", "empty str"):
        st = c.state()
        if kind == "dict":
            v = st.alloc(DictO([(Const("a"), Sym("v1", "int")), (Const("_ver"), Const("0"))], origin="input:json"))
        elif kind == "empty dict":
            v = st.alloc(DictO([], origin="input:json"))
        elif kind == "list":
            v = st.alloc(ListO([Sym("v1", "int"), Const("$qpickle")], origin="input:json"))
        elif kind == "empty list":
            v = st.alloc(ListO([], origin="input:json"))
        elif kind == "empty str":
            v = Const("")
        elif kind == "NoneType":
            v = NONE
        else:
            v = Sym("v", kind)

        def jdecode(it, st, args, kwargs, ctx, node):
            yield st, v
        before = tree(v, st)
        for r in c.run(dec, (Sym("s", "str"),), st=st, label="decode a plain " + kind, stubs={"json.decoder.JSONDecoder.decode": jdecode, "json.JSONDecoder.decode": jdecode}, **cfg):
            c.oblige(not r.raised and r.val == v and tree(v, r.st) == before, "plain JSON passes unchanged", "decode a plain " + kind, "gives %r" % r, None, path_of(r))


# ------------------------------------------------------------------ D11
def schema_paths(t, pre=""):
    """(paths that must be listed, paths that may be)."""
    must, may = set(), set()
    forks = [s for f in ("oneOf", "anyOf", "allOf") for s in t.get(f, [])]
    props = t.get("properties")
    for s in forks:
        a, b = schema_paths(s, pre)
        must, may = must | a, may | b
    for k, s in (props or {}).items():
        a, b = schema_paths(s, pre + "/" + k.replace("~", "~0").replace("/", "~1"))
        must, may = must | a, may | b
    if not props:
        (may if forks else must).add(pre)
    return must, may


def put_schema(st, t):
    items = []
    for k, v in t.items():
        if k == "properties":
            v = st.alloc(DictO([(Const(a), put_schema(st, b)) for a, b in v.items()], origin="input:schema"))
        elif k in ("oneOf", "anyOf", "allOf"):
            v = st.alloc(ListO([put_schema(st, s) for s in v], origin="input:schema"))
        items.append((Const(k), v))
    return st.alloc(DictO(items, origin="input:schema"))


@check("D11", "Abstract interpretation of the listing of a schema's paths over schemas of every shape, with symbolic attributes; the listed set compared with the pointers of the declared leaves",
       "Schemas up to four levels deep, with properties, each kind of fork at every level, forks within forks, and property-names holding slashes, tildes, both, or nothing.")
def d11(c):
    f = c.fn(PD, "build_all_jsonpaths")
    leaf = {"type": Sym("anytype", "str")}
    P = lambda **kw: {"properties": kw}
    odd = {"properties": {"a/b": leaf, "~": P(x=leaf), "~1": leaf, "/~": {"properties": {"": leaf, "//": leaf}}, "": {"properties": {"0": leaf}}}}
    cases = [{}, leaf, {"properties": {}}, P(a=leaf), P(a=leaf, b=P(c=leaf, d=P(e=leaf, f={}))), odd, P(q=odd), P(a={"properties": {}, "type": Const("object")}, b={"required": Sym("req", "list")})]
    for k in ("oneOf", "anyOf", "allOf"):
        cases += [{k: [P(a=leaf), P(b=P(c=leaf))]}, {k: [P(a=leaf)], "properties": {"z": leaf}}, P(a={k: [P(x=leaf), P(y=leaf)]}, b=leaf), P(a={k: [P(x=leaf)], "properties": {"w": odd}}), {k: [leaf, {}]}, {k: []}, P(a={k: []}),
                  {k: [P(a=leaf), P(a=P(b=leaf))]}]
        for k2 in ("oneOf", "anyOf", "allOf"):
            cases += [{k: [{k2: [P(a=leaf)]}, P(b={k2: [odd, P(c=leaf)]})]}]
            if k != k2:
                cases += [{k: [P(a=leaf)], k2: [P(b=leaf), P(c=leaf)], "properties": {"d": leaf}}]
    for i, t in enumerate(cases):
        st = c.state()
        must, may = schema_paths(t)
        arg = put_schema(st, t)
        for r in c.run(f, (arg,), st=st, label="schema %d" % i, raises="none", rec_k=8, loop_k=8, comp_k=8):
            lab = "schema %d with %s" % (i, ", ".join(sorted(t)) or "nothing")
            if r.raised:
                c.bad("any schema's paths are listed", lab, "raises %s" % r.exc_names(), None, path_of(r))
                continue
            o = r.st.heap.get(r.val.oid) if isinstance(r.val, Ref) else None
            got = [r.it.strval(x, r.st) for x in o.items] if isinstance(o, ListO) and not o.open else None
            if got is None or not all(isinstance(x, Const) for x in got):
                c.undecided(lab, "paths not known: %s" % show(r.val, r.st))
                continue
            got = set(x.v for x in got)
            c.oblige(must <= got, "every leaf is listed", lab, "%s missing" % sorted(must - got), None, path_of(r))
            c.oblige(got <= must | may, "only leaves are listed, as valid pointers", lab, "%s listed" % sorted(got - must - may), None, path_of(r))
            for w in r.writes():
                if w[7] == "input:schema":
                    c.bad("the schema is only read", lab, "it is written", w[5], path_of(r))


# ------------------------------------------------------------------ D12
def spec_units(s):
    """What a header reads as: None, or (name, units or None)."""
    s = s.strip()
    cut = min([i for i in (s.find("["), s.find("<")) if i >= 0] or [len(s)])
    name, rest = s[:cut].strip(), s[cut:]
    if not rest:
        return name, None
    end = "]" if rest[0] == "[" else ">"
    if len(rest) < 2 or rest.find(end) != len(rest) - 1:
        return None
    return name, rest[1:-1]


@check("D12", "Constant propagation through the header parser over every word of the character classes that its grammar tells apart, up to a length, and longer ones around them",
       "All words up to 5 (thorough: 6) characters over letters, blanks, line-ends, the four brackets and parentheses, and these with a name before and blanks around.")
def d12(c):
    f = c.fn(PD, "parse_value_with_units")
    alphabet = ["a", " ", "[", "]", "<", ">", ")", "\n"]
    words, last = [""], [""]
    for n in range(6 if c.thorough else 5):
        last = [w + x for w in last for x in alphabet]
        words += last
    short = [w for w in words if len(w) <= 3 and "\n" not in w]
    words += ["name one " + w for w in short] + ["\t b" + w + "  \n" for w in short if len(w) == 3] + ["[" + w + "]" for w in short] + ["x <" + w + ">" for w in short]
    words += ["value [units]", "foo   bar  <bar/krow>", "no units", "ok but [bad units", "<only units>", "P [g/(kW*h)]", "P <g/(kW*h)>", "\u03bb [\u00b0C]", "a_b-c.d/e [m/s^2]"]
    st0 = c.state()
    for w in words:
        want = spec_units(w)
        for r in c.run(f, (Const(w),), st=st0.fork(), label="parse_value_with_units", raises="none"):
            shape = "brackets %s" % ("".join(x for x in w if x in "[]<>") or "none")
            if r.raised:
                c.bad("any text is parsed", shape, "%r raises %s" % (w, r.exc_names()), None, path_of(r))
                continue
            if want is None:
                c.oblige(None if not isinstance(r.val, (Const, Tup, Ref)) else r.val == NONE, "bad syntax gives nothing", shape, "%r gives %s" % (w, show(r.val, r.st)), None, path_of(r))
                continue
            got = []
            for a in ("name", "units"):
                for g in c.op("get", r.st, r.val, a, label=a, raises="none"):
                    got.append(None if g.raised else g.it.strval(g.val, g.st) or g.val)
            exp = [Const(want[0]), NONE if want[1] is None else Const(want[1])]
            known = len(got) == 2 and all(x is None or isinstance(x, Const) for x in got)
            c.oblige(got == exp if known else None, "name and units are told apart", shape, "%r gives %s instead of %s" % (w, [show(x, r.st) if x is not None else "an error" for x in got], want), None, path_of(r))
