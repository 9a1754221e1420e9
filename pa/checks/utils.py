"""Utilities (U01-U05) and the excel helpers (V01, V02)."""
from ..harness import *
from ..values import mkstr
import ast

MOD = "pandalone.utils"
ENV = "envm_utils"
SEP = "/"


def word(n):
    return Sym(n, "str", ("word",))


def terms(v):
    """A term and all its parts."""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(x.args if isinstance(x, App) else x.parts if hasattr(x, "parts") else x if isinstance(x, tuple) and not isinstance(x, (App, Sym, Const)) else ())
    return out


def fact_truth(o, v):
    t = o.st.facts.get(("truth", v))
    if t is not None:
        return t
    x = o.st.facts.get(("val", v))
    if x in (TRUE, FALSE):
        return x is TRUE or x == TRUE
    return None


def exists_calls(o, names=("exists", "lexists", "isfile", "isdir")):
    """(argument, known answer) of every existence test, in order; not being a file, or not a directory, tells nothing."""
    out = []
    for e in o.events:
        if e[0] == "call" and e[1].rsplit(".", 1)[-1] in names and e[2]:
            a = e[2][0]
            while isinstance(a, App) and a.op in ("call:pathlib.Path", "call:os.fspath") and a.args:
                a = a.args[0]
            t = fact_truth(o, e[5])
            if t is True or e[1].rsplit(".", 1)[-1] in ("exists", "lexists"):
                out.append((a, t))
    return out


@check("U01", "Path-sensitive abstract interpretation of make_unique_filename() with an opaque generator and an unknown file-system: existence tests of each path against its result",
       "Decides the first candidates (four of a caller's generator, five of the default); more are the same loop.")
def u01(c):
    fn = c.fn(MOD, "make_unique_filename")
    f = Sym("fname", "str")
    cands = [Sym("cand%d" % i, "str", ("unique",)) for i in range(4)]

    def gen(it, st, args, kwargs, ctx, node):
        st = st.fork()
        st.event("generator", args)
        l = st.alloc(ListO(tuple(cands)))
        for s, r in models.EXT["builtins.iter"](it, (l,), (), st, ctx, node):
            yield s, r

    def judge(outs, want, what):
        seen = set()
        for o in outs:
            tests = exists_calls(o)
            if o.raised:
                full = len(tests) >= len(want) and all(t for _, t in tests)
                c.oblige(full or None if o.raises("StopIteration", "RuntimeError") and full else False, "a result or nothing left", what,
                         "fails with %s before the candidates are exhausted" % (o.exc_names(),), path=path_of(o))
                continue
            if o.val == NONE and len(tests) >= len(want) and all(t for _, t in tests) and what == "given generator":
                continue        # a finite generator, exhausted
            if o.val not in want:
                c.bad("the result is a candidate", what, "returns %s" % show(o.val, o.st), path=path_of(o))
                continue
            i = want.index(o.val)
            seen.add(i)
            known = {}
            for a, t in tests:
                known.setdefault(a, []).append(t)
            c.oblige(bool(known.get(o.val)) and known[o.val][-1] is False, "the result was seen not to exist", "%s: candidate %d" % (what, i),
                     "the returned name was %s" % ("never tested" if o.val not in known else "seen to exist"), path=path_of(o))
            skipped = [x for x in want[:i] if known.get(x, [None])[-1] is not True]
            c.oblige(not skipped, "no earlier candidate was free", "%s: candidate %d" % (what, i), "skipped %s without seeing that it exists" % [show(x) for x in skipped], path=path_of(o))
        c.oblige(None if not outs else len(seen) == len(want) or (True if seen >= set(range(len(want) - 1)) else False), "every candidate can be the result", what,
                 "only candidates %s are ever returned" % sorted(seen))

    outs = c.run(fn, (f, Ext("oracle.gen")), stubs={"oracle.gen": gen}, while_k=6, label="given generator")
    for o in outs:
        g = [e for e in o.events if e[0] == "generator"]
        c.oblige(len(g) == 1 and tuple(g[0][1]) == (f,), "the given generator makes the candidates", "given generator",
                 "called %d times" % len(g), path=path_of(o))
    judge(outs, cands, "given generator")
    n, e = word("stem"), word("ext")
    name = mkstr(["dir/", n, ".", e])
    judge(c.run(fn, (name,), while_k=4, label="default generator"), [name] + [mkstr(["dir/", n, "%d." % i, e]) for i in range(1, 5)], "default generator")
    judge(c.run(fn, (mkstr(["some.dir/", n]),), while_k=3, label="no extension"), [mkstr(["some.dir/", n])] + [mkstr(["some.dir/", n, "%d" % i]) for i in range(1, 4)], "no extension")


@check("U02", "Typestate/outcome analysis of ensure_dir_exists() over all answers of the file-system at each call (abstract interpretation with a non-deterministic file-system)",
       "Every call may see another state, as when processes race; decides all combinations for one unknown path.")
def u02(c):
    fn = c.fn(MOD, "ensure_dir_exists")
    p = Sym("path", "str")
    strip = lambda a: a

    def test(name):
        def f(it, st, args, kwargs, ctx, node):
            for b in (True, False):
                s = st.fork()
                s.event("fs", name, args, b)
                yield s, boolv(b)
        return f

    def make(it, st, args, kwargs, ctx, node):
        kw = dict(kwargs)
        ok = kw.get("exist_ok", args[2] if len(args) > 2 else FALSE)
        s = st.fork()
        s.event("fs", "made", args, kwargs)
        yield s, NONE
        tolerant = ok == TRUE
        for en, what in (("EEXIST", "exists"), ("EACCES", "denied")):
            s = st.fork()
            s.event("fs", "refused", args, what, tolerant)
            s, r = it.raise_new(s, "FileExistsError" if en == "EEXIST" else "PermissionError", (Ext("errno." + en), Const(what)))
            s = s.fork()
            s.over[(r.exc, "attr", "errno")] = Ext("errno." + en)
            if isinstance(r.exc, Ref):
                s, _ = next(it.setattr_(r.exc, "errno", Ext("errno." + en), s, it.topctx(), None))
            yield s, r

    stubs = {"os.path.exists": test("exists"), "os.path.lexists": test("lexists"), "os.path.isdir": test("isdir"), "os.path.isfile": test("isfile"),
             "os.path.islink": test("islink"), "os.makedirs": make}
    outs = c.run(fn, (p,), stubs=stubs, label="ensure_dir_exists", raises="handled")
    for o in outs:
        fs = [e for e in o.events if e[0] == "fs"]
        seq = " ".join("%s%s" % (e[1], "" if e[1] in ("made",) else "=%s" % (e[3],)) for e in fs)
        made = any(e[1] == "made" for e in fs)
        isdir = [e[3] for e in fs if e[1] == "isdir"]
        wrong = [e for e in fs if not e[2] or e[2][0] != p]
        c.oblige(not wrong, "only the asked path is tested or made", seq, "acts on %s" % [show(e[2][0], o.st) for e in wrong if e[2]], path=path_of(o))
        if not o.raised:
            c.oblige(made or (bool(isdir) and isdir[-1]), "returns only when the path is a directory", seq or "no test",
                     "returns without having made it, or having seen it to be a directory", path=path_of(o))
        else:
            c.oblige(o.raises("OSError"), "fails with an I/O error", seq, "fails with %s" % (o.exc_names(),), path=path_of(o))
            lost = [e for e in fs if e[1] == "refused" and e[3] == "exists" and not e[4]]
            denied = any(e[1] == "refused" and e[3] == "denied" for e in fs)
            if lost and not denied:
                c.oblige(isdir and isdir[-1] is False, "losing the race against a directory is no error", seq, "fails though the path may have become a directory", path=path_of(o))
            if not any(e[1] == "refused" for e in fs):
                c.oblige(isdir and isdir[-1] is False, "an existing directory is no error", seq, "fails though the path was not seen to be anything else", path=path_of(o))
        if made:
            kw = dict([e for e in fs if e[1] == "made"][0][3])
            a = [e for e in fs if e[1] == "made"][0][2]
            c.oblige(kw.get("mode", a[1] if len(a) > 1 else None) == Const(0o755), "a new directory gets the documented permissions", seq, "made with %s" % (show(kw.get("mode", NONE)),), path=path_of(o))


@check("U03", "Abstract interpretation of str2bool()/obj2bool(): constant propagation of the documented table, and unknown texts and objects with path facts",
       "Decides the table's literals with any case and blanks around them, any other text and any other object.")
def u03(c):
    obj, txt = c.fn(ENV, "obj"), c.fn(ENV, "text")
    s2b, o2b = c.fn(MOD, "str2bool"), c.fn(MOD, "obj2bool")
    yes, no = ("yes", "true", "on"), ("no", "false", "off", "0", "")
    for fn, nm in ((s2b, "str2bool"), (o2b, "obj2bool")):
        for t in yes + no:
            for x in sorted({t, t.upper(), t.capitalize(), "  %s" % t, "\t%s \n" % t.upper(), "%s " % t.swapcase()}):
                for o in c.run(fn, (Const(x),), label="%s(%r)" % (nm, x)):
                    c.oblige(not o.raised and o.val == boolv(t in yes), "documented texts", "%s(%r)" % (nm, x), "gives %s" % o, path=path_of(o))
        t = Sym("text", "str")
        # any other text
        w = word("w")
        for x, lab in ((mkstr(["-", w]), "a text with other characters"), (mkstr([w, " ", w]), "two words"), (Const("1"), "'1'"), (Const("none"), "'none'"), (Const("00"), "'00'"), (Const("n"), "'n'")):
            for o in c.run(fn, (x,), label="%s(%s)" % (nm, lab)):
                c.oblige(not o.raised and o.val == TRUE, "any other text is true", "%s: %s" % (nm, lab), "gives %s" % o, path=path_of(o))
        # every text this code compares with, or just mentions
        seen = set(x.v for o in c.run(fn, (t,), label="%s(text)" % nm) for k, v in o.st.facts.items() if k[0] in ("val", "ne") and t in terms(k[1])
                   for x in ([v] if isinstance(v, Const) else [y if isinstance(y, Const) else Const(y) for y in v]) if isinstance(x.v, str))
        for n in ast.walk(c.prog.load(MOD).tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
                seen |= {n.value} | set(n.value.split())
        for x in sorted(y for s in seen for y in {s, s.upper(), " %s " % s}):
            for o in c.run(fn, (Const(x),), label="%s(%r)" % (nm, x)):
                k = x.strip().lower()
                c.oblige(not o.raised and o.val == boolv(k in yes or k not in no), "texts mentioned by the code follow the table", "%s(%r)" % (nm, x), "gives %s" % o, path=path_of(o))
        for o in c.run(fn, (w,), label="%s(word)" % nm):
            vals = [v.v for k, v in o.st.facts.items() if k[0] == "val" and isinstance(k[1], Sym) and k[1].name in ("w", "lower(w)", "upper(w)") and isinstance(v, Const)]
            if o.raised:
                c.bad("texts never fail", "%s(word)" % nm, "fails with %s" % (o.exc_names(),), path=path_of(o))
            elif vals:
                c.oblige(o.val == boolv(vals[0].lower() in yes) if vals[0].lower() in yes + no else o.val == TRUE, "an unknown word", "%s(%s)" % (nm, vals[0]), "gives %s" % o, path=path_of(o))
            else:
                c.oblige(True if o.val == TRUE else None if o.val in (FALSE,) else False, "any other word is true", nm, "gives %s" % o, path=path_of(o))
    for ty in ("int", "bool", "NoneType", "list", "float"):
        x = NONE if ty == "NoneType" else Sym("obj", ty)
        for o in c.run(o2b, (x,), label="obj2bool(%s)" % ty):
            if o.raised:
                c.bad("other objects follow their truth", "obj2bool(%s)" % ty, "fails with %s" % (o.exc_names(),), path=path_of(o))
                continue
            tr = False if x == NONE else fact_truth(o, x)
            if o.val in (TRUE, FALSE):
                c.oblige(None if tr is None else (o.val == TRUE) == tr, "other objects follow their truth", "obj2bool(%s)" % ty, "gives %s for one that is %s" % (o.val, tr), path=path_of(o))
            else:
                c.oblige(None, "other objects follow their truth", "obj2bool(%s)" % ty, "gives %s" % o)
        for o in c.run(s2b, (x,), label="str2bool(%s)" % ty):
            c.oblige(o.raised and o.raises("ValueError"), "a non-text given as text is a value error", "str2bool(%s)" % ty, "gives %s" % o, path=path_of(o))
    for kind, want in (("empty but true", True), ("full but false", False), ("empty", False), ("full", True), ("plain", True), ("false but named yes", False)):
        for o in c.run(obj, (Const(kind),), label="obj2bool(%s)" % kind):
            c.oblige(not o.raised and o.val == boolv(want), "other objects follow their truth", "obj2bool(an object %s)" % kind, "gives %s" % o, path=path_of(o))
        for o in c.run(txt, (Const(kind),), label="str2bool(%s)" % kind):
            c.oblige(o.raised and o.raises("ValueError"), "a non-text given as text is a value error", "str2bool(an object %s)" % kind, "gives %s" % o, path=path_of(o))


PFX = "\\\\?\\"


@check("U04", "Abstract interpretation over structured strings (words and separators) of the path conversions, with the library's own conversions as letter-blind string functions",
       "Decides shapes of posix paths made of unknown words; windows' path functions are not modelled.")
def u04(c):
    w, v = word("w"), word("v")
    shapes = [([w], "name"), ([w, "/"], "name/"), (["/", w], "/name"), (["/", w, "/"], "/name/"), ([w, "/", v], "a/b"), ([w, "/", v, "/"], "a/b/"),
              (["./", w, "/"], "./a/"), ([w, "/../", v, "/"], "a/../b/"), (["/"], "root"), ([w, "//", v, "/"], "a//b/"),
              ([w, "\\"], "name\\"), ([w, "/", v, "\\"], "a/b\\"), ([w, "\\", v], "a\\b")]
    import posixpath

    def shaped(f):
        def g(it, st, args, kwargs, ctx, node):
            ps = models.strparts(it, args[0], st)
            if ps is None:
                yield from models.opaque_call(it, Ext("lib.path"), args, kwargs, st, ctx, node, "lib.path", "str")
                return
            yield st, models.via_text(f, ps)
        return g

    import urllib.request as ur
    stubs = {"os.path.abspath": shaped(lambda t: posixpath.normpath(posixpath.join("/cwd", t))), "os.path.normpath": shaped(posixpath.normpath),
             "os.path.realpath": shaped(lambda t: posixpath.normpath(posixpath.join("/cwd", t))), "os.getcwd": lambda it, st, a, k, ctx, node: iter([(st, Const("/cwd"))]),
             "urllib.request.pathname2url": shaped(ur.pathname2url), "urllib.request.url2pathname": shaped(ur.url2pathname),
             "os.path.join": None}
    stubs.pop("os.path.join")

    def text(v, st, o):
        v = o.it.strval(v, st)
        return models.strparts(o.it, v, st)

    def lastsep(ps):
        return isinstance(ps[-1], str) and ps[-1].endswith("/")

    fns = [("normpath", posixpath.normpath, ()), ("abspath", lambda t: posixpath.normpath(posixpath.join("/cwd", t)), ()),
           ("convpath", lambda t: posixpath.normpath(posixpath.join("/cwd", t)), ()), ("convpath", posixpath.normpath, (("abs_path", FALSE),)),
           ("path2urlpath", ur.pathname2url, ()), ("urlpath2path", ur.url2pathname, ())]
    for name, ref, kw in fns:
        fn = c.fn(MOD, name)
        for parts, lab in shapes:
            x = mkstr(parts)
            ps = (x.v,) if isinstance(x, Const) else tuple(x.parts) if isinstance(x, Str) else (x,)
            base = models.via_text(ref, ps)
            b = (base.v,) if isinstance(base, Const) else tuple(base.parts) if isinstance(base, Str) else (base,)
            named = any(not isinstance(p, str) for p in ps)
            want = mkstr(list(b) + ["/"]) if named and (lastsep(ps) or isinstance(ps[-1], str) and ps[-1].endswith("\\")) and not lastsep(b) else base
            what = "%s%s of %s" % (name, "(relative)" if kw else "", lab)
            for o in c.run(fn, (x,), kw, stubs=stubs, label=what):
                if o.raised:
                    c.bad("a trailing separator is kept", what, "fails with %s" % (o.exc_names(),), path=path_of(o))
                    continue
                got = text(o.val, o.st, o)
                if name == "urlpath2path" and any(k[0] in ("<", "<=", ">", ">=", "range") and c.prog.base.facts.get(k) != v for k, v in o.st.facts.items()) and got is not None and isinstance(got[0], str) and got[0].startswith(PFX):
                    gv = mkstr([got[0][len(PFX):]] + list(got[1:]))
                else:
                    gv = mkstr(got) if got is not None else None
                c.oblige(None if gv is None and not isinstance(o.val, (Const, Tup, Ref)) else gv == want, "a trailing separator is kept", what, "gives %s, not %s" % (show(o.val, o.st), show(want)), path=path_of(o))
    # the prefix
    fn = c.fn(MOD, "path2urlpath")
    for rest, lab in ((["?", w], "?name"), (["?/", w, "/"], "?/a/"), (["\\", w], "\\name"), (["\\\\", w, "/"], "\\\\a/"), (["\\\\?", w, "/"], "\\\\?a/"), ([w, PFX, v], "a prefix within")):
        want = models.via_text(ur.pathname2url, tuple(rest))
        for pre in ([], [PFX]):
            for o in c.run(fn, (mkstr(pre + rest),), stubs=stubs, label="path2urlpath prefixed"):
                got = None if o.raised else o.it.strval(o.val, o.st)
                und = got is not None and models.strparts(o.it, got, o.st) is None
                c.oblige(None if und else got == want, "the long-path prefix is stripped completely, and only it", "path2urlpath of %s%s" % ("prefixed " if pre else "", lab),
                         "gives %s, not %s" % (o, show(want)), path=path_of(o))
    for rest, lab in (([w, "/", v], "a/b"), (["/", w, "/"], "/a/"), ([w], "name")):
        plain = {show(o.val, o.st) for o in c.run(fn, (mkstr(rest),), stubs=stubs, label="path2urlpath") if not o.raised}
        for o in c.run(fn, (mkstr([PFX] + rest),), stubs=stubs, label="path2urlpath prefixed"):
            c.oblige(not o.raised and show(o.val, o.st) in plain, "the long-path prefix is stripped completely", "path2urlpath of prefixed %s" % lab,
                     "gives %s, not %s" % (show(o.val, o.st), sorted(plain)), path=path_of(o))
    fn = c.fn(MOD, "path2url")
    for rest, lab in ((["D:\\", w, "\\", v], "D:\\a\\b"), (["D:\\", w, "\\"], "D:\\a\\")):
        plain = {show(o.val, o.st) for o in c.run(fn, (mkstr(rest),), stubs=stubs, label="path2url") if not o.raised}
        for o in c.run(fn, (mkstr([PFX] + rest),), stubs=stubs, label="path2url prefixed"):
            c.oblige(not o.raised and show(o.val, o.st) in plain, "the long-path prefix is stripped completely", "path2url of prefixed %s" % lab,
                     "gives %s, not %s" % (show(o.val, o.st), sorted(plain)), path=path_of(o))
    fn = c.fn(MOD, "urlpath2path")
    long = "x" * 210
    for t, lab in (("/%s/f" % long, "long"), ("/%s/" % long, "long/"), ("/short/f", "short")):
        ref = ur.url2pathname(t)
        want = (PFX if len(ref) > 200 else "") + ref
        for o in c.run(fn, (Const(t),), stubs=stubs, label="urlpath2path %s" % lab):
            c.oblige(not o.raised and o.val == Const(want), "the long-path prefix is added in front", "urlpath2path of a %s path" % lab, "gives %s..." % show(o.val, o.st)[:40], path=path_of(o))


@check("U05", "Abstract interpretation of ensure_file_ext() over structured file names (unknown words and directories, literal extensions)",
       "Decides names of unknown words against literal extensions with and without dot, in any case, plain or as regexes.")
def u05(c):
    fn = c.fn(MOD, "ensure_file_ext")
    # names of at least two letters
    w, d, a = word("name"), word("dir"), Sym("a", "str", ("word", "letter"))
    cases = []
    for pre in ([a, w], [d, "/", a, w], [d, ".", w, "/", a, w]):
        for e in (".xlsx", "xlsx", ".XlsX"):
            for suf in (".xlsx", ".XLSX", ".Xlsx"):
                cases.append((pre + [suf], (e,), (), None))
                cases.append((pre + [suf], (e,), (("is_regex", TRUE),), None))
            cases.append((pre, (e,), (), pre + ["." + e.lstrip(".")]))
            cases.append((pre + ["."], (e,), (), pre + ["." + e.lstrip(".")]))
            cases.append((pre + [".xls"], (e,), (), pre + [".xls." + e.lstrip(".")]))
            cases.append((pre + [".xls"], (e, ".XLS"), (), None))
            cases.append((pre + [".xls"], (e, "csv", "xls"), (), None))
            cases.append((pre + [".xls"], (e, ".csv"), (), pre + [".xls." + e.lstrip(".")]))
            cases.append((pre + [".xlt"], (e, r"\.xl\w{1,2}"), (("is_regex", TRUE),), None))
            cases.append((pre + [".XLTX"], (e, r"\.csv", r"\.xl\w{1,2}"), (("is_regex", TRUE),), None))
            cases.append((pre + [".xl"], (e, r"\.xl\w{1,2}"), (("is_regex", TRUE),), pre + [".xl." + e.lstrip(".")]))
            cases.append((pre + [".xltxx"], (e, r"\.xl\w{1,2}"), (("is_regex", TRUE),), pre + [".xltxx." + e.lstrip(".")]))
            cases.append((pre + [".axlsx"], (e,), (), pre + [".axlsx." + e.lstrip(".")]))
            cases.append((pre + ["."], (e,), (("is_regex", TRUE),), pre + ["." + e.lstrip(".")]))
        for e in (".xlsx", "xlsx"):       # letters ending the name are no extension
            for alts in (("ism",), ("xlsm", "ism"), (".xlsm", "m")):
                cases.append((pre + ["ism"], (e,) + alts, (), pre + ["ism." + e.lstrip(".")]))
                cases.append((pre + [".ism"], (e,) + alts, (), None if "ism" in alts else pre + [".ism." + e.lstrip(".")]))
        cases.append((pre + [".axb"], ("a.b",), (("is_regex", TRUE),), pre + [".axb.a.b"]))
        cases.append((pre + [".tar.gz"], (".tar.gz",), (), None))
    # extensions elsewhere than at the end of the name, and hidden files named like one
    for e in (".xlsx", "xlsx", ".XLSX"):
        for kw in ((), (("is_regex", TRUE),)):
            add = "." + e.lstrip(".")
            for pre in ([], [d, "/"], [d, ".d/"]):
                cases.append((pre + [".xlsx"], (e,), kw, pre + [".xlsx" + add]))
                cases.append((pre + [".xlsx.XLSX"], (e,), kw, None))
                cases.append((pre + ["a.xlsx"], (e,), kw, None))
                cases.append((pre + ["xlsx"], (e,), kw, pre + ["xlsx" + add]))
                cases.append((pre + ["a"], (e,), kw, pre + ["a" + add]))
                cases.append((pre + ["axlsx"], (e,), kw, pre + ["axlsx" + add]))
            cases.append(([d, ".xlsx/", a, w], (e,), kw, [d, ".xlsx/", a, w, add]))
            cases.append(([d, ".xlsx/", a, w, ".xlsx"], (e,), kw, None))
            cases.append(([a, w, ".xlsx.old"], (e,), kw, [a, w, ".xlsx.old" + add]))
    rx = (("is_regex", TRUE),)
    for pre in ([a, w], [d, "/", a, w]):        # a regex must match all of the extension
        for suf, r in ((".txt~", "t~"), (".txt~", "xt~"), (".xlsx", "x"), (".xlsx", "lsx"), (".xlsx1", r"\.xlsx"), (".xlsm", r"\.xls"), (".tar.xls", r"\.tar\.xls"), (".xls.gz", r"\.xls")):
            cases.append((pre + [suf], (".csv", r), rx, pre + [suf, ".csv"]))
        cases.append((pre + [".txt~"], (".csv", r"\.\w+~"), rx, None))
    for parts, exts, kw, want in cases:
        x = mkstr(parts)
        y = x if want is None else mkstr(want)
        what = "%s with %s%s" % (show(x), exts, " (regexes)" if kw else "")
        for o in c.run(fn, (x,) + tuple(Const(e) for e in exts), kw, label=what):
            got = None if o.raised else o.it.strval(o.val, o.st)
            und = got is not None and models.strparts(o.it, got, o.st) is None
            c.oblige(None if und else got == y, "an accepted extension is kept, else the first one is added" if want is None else "a missing extension is added with one dot", what,
                     "gives %s, not %s" % (o, show(y)), path=path_of(o))


XMOD = "pandalone.xlsutils"


def alerts(o):
    """Values written to any object's DisplayAlerts, and saves, in order."""
    out = []
    for e in o.events:
        if e[0] == "write" and e[3] == Const("DisplayAlerts") or e[0] == "write" and e[3] == "DisplayAlerts":
            out.append(("alerts", e[4]))
        elif e[0] == "call" and e[1].rsplit(".", 1)[-1] in ("SaveAs", "Save"):
            out.append((e[1].rsplit(".", 1)[-1], e[2][1:] if e[1].startswith(".") else e[2]))
        elif e[0] == "raises" and "SaveAs" in str(e[1]):
            out.append(("SaveAs", ()))
    return out


@check("V01", "Typestate analysis of the excel application's alerts (disabled/enabled) on every normal and failing path of the saving functions, with every COM call able to fail",
       "Decides all paths of saving a workbook; what excel itself does is outside.")
def v01(c):
    wb = Sym("xl_wb", None, ("unique",))
    runs = []
    pub = c.fn(XMOD, "import_vba_into_excel_workbook")
    keep = lambda what, key, node: any(x in str(what) for x in ("SaveAs", "Save", "getcwd", "path.join"))

    def files(it, st, args, kwargs, ctx, node):
        st = st.fork()
        yield st, st.alloc(ListO((Const("/d/mod.vba"),)))
    stubs = {"glob.glob": files, "easygui.textbox": lambda it, st, a, k, ctx, node: iter([(st, NONE)])}
    for new in (NONE, Sym("new_fname", "str"), Const("out.xlsm")):
        runs.append(("import into workbook, new name %s" % show(new), c.run(pub, (Sym("wildcard", "str"), Sym("wrkb", "str"), new), stubs=stubs, raises="all",
                                                                          raise_filter=keep, label="import_vba_into_excel_workbook")))
    priv = c.opt(XMOD, "_save_workbook")
    if priv:
        for p in (NONE, Sym("path", "str"), Const("out.xlsm"), Const("")):
            runs.append(("saving under %s" % show(p), c.run(priv, (wb, p), raises="all", raise_filter=keep, label="_save_workbook")))
    n = saved = failed = 0
    for lab, outs in runs:
        for o in outs:
            ev = alerts(o)
            state = None
            for k, v in ev:
                if k == "alerts":
                    state = v
                    n += 1
            for i, (k, _) in enumerate(ev):
                if k == "SaveAs":
                    before = [v for k2, v in ev[:i] if k2 == "alerts"]
                    c.oblige(bool(before) and (None if isinstance(before[-1], App) else before[-1] in (FALSE, Const(0))), "alerts are disabled while saving under a name", "%s, %s" % (lab, "failing" if o.raised else "normal"),
                             "saving with DisplayAlerts=%s" % (show(before[-1], o.st) if before else "as it was"), path=path_of(o))
            saves = [k for k, _ in ev if k == "SaveAs"]
            saved += bool(saves) and not o.raised
            failed += bool(saves) and o.raised
            way = "%s, %s" % (lab, "failing" if o.raised else "normal")
            if state is not None:
                c.oblige(None if state not in (TRUE, FALSE, Const(0), Const(1)) and not isinstance(state, App) else state in (TRUE, Const(1)) or (None if isinstance(state, App) else False),
                         "alerts are enabled again at exit", way, "left with DisplayAlerts=%s" % show(state, o.st), path=path_of(o))
            else:
                c.ok("alerts never touched", way)
    c.oblige(bool(saved and failed) or None, "saving under a new name is analysed, normal and failing", "coverage", "saved=%d failed=%d" % (saved, failed))


@check("V02", "Abstract interpretation of _remove_vba_modules() over collections of opaque components with literal types and names: the removals made on each path",
       "Decides collections of up to three components (four thorough) and up to three names.")
def v02(c):
    fn = c.fn(XMOD, "_remove_vba_modules")
    import itertools
    asked_of = ([], ["ModA"], ["modA", "modB"], ["MODB", "ModA", "modX"])
    for n in range(1, 5 if c.thorough else 4):
        for asked in asked_of:
            for kinds in itertools.product((1, 100, 2), repeat=n):
                if n >= 3 and kinds.count(1) < n - 1:
                    continue
                pool = ("moda", "MODB", "Other") if asked else ("moda",)
                names = list(itertools.permutations(pool, n) if n <= len(pool) else [tuple(pool[i % len(pool)] + (str(i) if i >= len(pool) else "") for i in range(n))])
                if asked and n <= 2:        # names beginning with, ending with, or within those asked
                    names += [x[:n] for x in (("ModAB", "moda"), ("Mod", "MODB2"), ("aModA", "odA"))]
                for named in names:
                    mods = [Sym("mod%d" % i, "VBComponent", ("unique",)) for i in range(n)]
                    st = c.state()
                    for m, k, nm in zip(mods, kinds, named):
                        st.over[(m, "attr", "Type")] = Const(k)
                        st.over[(m, "attr", "Name")] = Const(nm)
                    coll = st.alloc(ListO(tuple(mods)))

                    def remove(it, obj, s, args, kwargs, ctx, node, coll=coll):
                        if obj != coll:
                            return None
                        s = s.fork()
                        s.event("removed", args[0])
                        lo = s.heap[coll.oid]       # really removed, so removing while iterating skips
                        s.heap[coll.oid] = lo.repl(items=tuple(x for x in lo.items if x != args[0]))
                        return iter([(s, NONE)])
                    lab = "modules %s, asked %s" % (list(zip(named, kinds)), asked)
                    for o in c.run(fn, (coll,) + tuple(map(Const, asked)), st=st, mstubs={"Remove": remove}, label=lab):
                        if o.raised:
                            c.bad("removing never fails", lab, "fails with %s" % (o.exc_names(),), path=path_of(o))
                            continue
                        rem = [e[1] for e in o.events if e[0] == "removed"]
                        for m, k, nm in zip(mods, kinds, named):
                            want = k == 1 and (not asked or nm.lower() in [a.lower() for a in asked])
                            c.oblige(rem.count(m) == want, "exactly the asked standard modules go", lab, "%s removed %d times" % (nm, rem.count(m)), path=path_of(o))


# ------------------------------------------------------------------ V03, V04
WB, XLWB, VBP, APP = Sym("book", "Book_", "unique"), Sym("xl_wb", "Workbook_", "unique"), Sym("vb_project", "VBProject_", "unique"), Sym("xl_app", "Application_", "unique")
ACTIVE = Ext("xlwings.books.active")


def world(c, mods, files, full="C:/d/book.xlsm", saved="C:/d", active=True, protection=0, cwd="/w", vbname=lambda f: "Module1"):
    """(state, config): a workbook with these modules [(name, type)], and the files the wildcard matches."""
    st = c.state()
    comps = [Sym("mod%d" % i, "VBComponent", ("unique",)) for i in range(len(mods))]
    for m, (nm, k) in zip(comps, mods):
        st.over[(m, "attr", "Type")] = Const(k)
        st.over[(m, "attr", "Name")] = Const(nm)
    coll = st.alloc(ListO(tuple(comps)))
    for w in (WB, ACTIVE):
        st.over[(w, "attr", "api")] = XLWB
    for w, t in ((WB, True), (ACTIVE, active)):
        st.facts[("truth", w)] = t
        st.facts[("notnone", w)] = t
    for k, v in (("VBProject", VBP), ("FullName", Const(full)), ("Path", Const(saved)), ("Name", Const(full.split("/")[-1])), ("Application", APP)):
        st.over[(XLWB, "attr", k)] = v
    st.over[(VBP, "attr", "Protection")] = Const(protection)
    st.over[(VBP, "attr", "VBComponents")] = coll

    def name_of(s, m):
        return s.over.get((m, "attr", "Name"), Const(None))

    def item(it, obj, s, args, kwargs, ctx, node):
        if obj != coll:
            return None
        k = it.strval(args[0], s)
        for m in s.heap[coll.oid].items:
            n = name_of(s, m)
            if isinstance(k, Const) and isinstance(k.v, str) and isinstance(n, Const) and str(n.v).lower() == k.v.lower():
                return iter([(s, m)])
        return iter([it.raise_new(s, "com_error", (Const("no such module"),))])

    def remove(it, obj, s, args, kwargs, ctx, node):
        if obj != coll:
            return None
        s = s.fork()
        s.event("removed", args[0])
        lo = s.heap[coll.oid]
        s.heap[coll.oid] = lo.repl(items=tuple(x for x in lo.items if x != args[0]))
        return iter([(s, NONE)])

    def imp(it, obj, s, args, kwargs, ctx, node):
        if obj != coll:
            return None

        def gen():
            s1 = s.fork()
            lo = s1.heap[coll.oid]
            m = Sym("new%d" % s1.fresh(), "VBComponent", ("unique",))
            s1.over[(m, "attr", "Type")] = Const(1)
            s1.over[(m, "attr", "Name")] = Const(vbname(it.strval(args[0], s1)))
            s1.event("imported", m, it.strval(args[0], s1), tuple(name_of(s1, x) for x in lo.items))
            s1.heap[coll.oid] = lo.repl(items=lo.items + (m,))
            yield s1, m
            s2 = s.fork()
            s2.event("import failed", args[0])
            yield it.raise_new(s2, "com_error", (Const("cannot import"),))
        return gen()

    def save(it, obj, s, args, kwargs, ctx, node):
        if obj != XLWB:
            return None
        s = s.fork()
        s.event("saved", None, None)
        return iter([(s, NONE)])

    def saveas(it, obj, s, args, kwargs, ctx, node):
        if obj != XLWB:
            return None
        k = dict(kwargs)
        s = s.fork()
        s.event("saved", it.strval(args[0] if args else k.get("Filename", NONE), s), k.get("FileFormat", args[1] if len(args) > 1 else NONE))
        return iter([(s, NONE)])

    def glob(it, s, args, kwargs, ctx, node):
        s = s.fork()
        s.event("glob", it.strval(args[0], s))
        yield s, s.alloc(ListO(tuple(Const(f) for f in files)))

    def book(it, s, args, kwargs, ctx, node):
        s = s.fork()
        s.event("book", tuple(args))
        yield s, WB

    def path(name):
        def f(it, s, args, kwargs, ctx, node):
            import posixpath
            vs = [it.strval(a, s) for a in args]
            if all(isinstance(v, Const) and isinstance(v.v, str) for v in vs):
                r = getattr(posixpath, name)(*[v.v for v in vs])
                yield s, Tup(tuple(map(Const, r))) if isinstance(r, tuple) else Const(r)
            else:
                yield s, App("call:os.path." + name, tuple(vs), "str" if "split" not in name else None)
        return f
    const = lambda v: lambda it, s, args, kwargs, ctx, node: iter([(s, v)])
    cfg = dict(stubs={"glob.glob": glob, "xlwings.Book": book, "os.getcwd": const(Const(cwd)), "easygui.textbox": const(NONE)},
               mstubs={"Item": item, "Remove": remove, "Import": imp, "Save": save, "SaveAs": saveas}, raises="none", loop_k=5, comp_k=5)
    cfg["stubs"].update({"os.path." + n: path(n) for n in ("join", "basename", "dirname", "split", "splitext", "normpath")})
    return st, cfg, coll, comps


def stem(f):
    import posixpath
    return posixpath.splitext(posixpath.basename(f))[0]


@check("V03", "Abstract interpretation of importing VBA files into a modelled collection of modules: its final contents, and what it holds at each import, with imports able to fail",
       "Up to three files with and without modules of the same name (in any letter-case) among up to three existing ones; relative and absolute paths.")
def v03(c):
    fn = c.fn(XMOD, "import_vba_into_excel_workbook")
    for files in ((), ("a.vba",), ("d/ModA.vba", "d/modb.bas"), ("/x/one.two.vba",), ("p/c.vba", "p/b.vba", "p/a.vba"), ("noext",)):
        for mods in ((), (("ModA", 1),), (("a", 1), ("Other", 1), ("sheet", 100)), (("MODB", 1), ("moda", 1)), (("one.two", 1), ("noext", 1), ("one", 1))):
            for given, vbname in ((NONE, lambda f: "Module1"), (Const("book.xlsm"), lambda f: stem(f.v).swapcase() if isinstance(f, Const) else "M")):
                st, cfg, coll, comps = world(c, mods, files, vbname=vbname)
                lab = "files %s, modules %s" % (list(files), [m for m, _ in mods])
                for o in c.run(fn, (Const("wild*"), given), st=st, label=lab, **cfg):
                    st1 = o.st
                    ev = [e for e in o.events if e[0] in ("removed", "imported", "saved", "import failed", "book", "glob")]
                    globs = [e[1] for e in ev if e[0] == "glob"]
                    c.oblige(globs == [Const("wild*")], "the files asked are imported", lab, "looks for %s" % list(map(show, globs)), None, path_of(o))
                    failed = any(e[0] == "import failed" for e in ev)
                    if failed or o.raised:
                        c.oblige(failed and o.raised, "an import that fails is not hidden", lab, "gives %s" % o, None, path_of(o))
                        c.oblige(not any(e[0] == "saved" for e in ev), "nothing half-imported is saved", lab, "it is saved", None, path_of(o))
                        continue
                    want = WB if given != NONE else ACTIVE
                    c.oblige(o.val == want, "the workbook imported into is returned", lab, "gives %s" % show(o.val, st1), None, path_of(o))
                    c.oblige([e[1] for e in ev if e[0] == "book"] == ([(given,)] if given != NONE else []), "the workbook asked is opened", lab, "opens %s" % [list(map(show, e[1])) for e in ev if e[0] == "book"], None, path_of(o))
                    import posixpath
                    imps = [e for e in ev if e[0] == "imported"]
                    paths = sorted(e[2].v if isinstance(e[2], Const) else show(e[2]) for e in imps)
                    c.oblige(paths == sorted(posixpath.join("/w", f) for f in files), "each file is imported once, from the current folder", lab, "imports %s" % paths, None, path_of(o))
                    for e in imps:
                        nm = st1.over.get((e[1], "attr", "Name"))
                        for w in o.events:
                            if w[0] == "write" and w[1] == e[1] and w[3] in ("Name", Const("Name")):
                                nm = w[4]
                        nm = o.it.strval(nm, st1) if nm is not None else None
                        mine = stem(e[2].v) if isinstance(e[2], Const) else None
                        c.oblige(isinstance(nm, Const) and nm.v == mine, "modules are named after their files", lab, "%s is named %s" % (show(e[2]), nm and show(nm)), None, path_of(o))
                        c.oblige(mine is None or mine.lower() not in [str(x.v).lower() for x in e[3] if isinstance(x, Const)], "the older module goes before the import", lab, "%s is there at the import of %s" % (mine, show(e[2])), None, path_of(o))
                    gone = set(e[1] for e in ev if e[0] == "removed")
                    stems = [stem(f).lower() for f in files]
                    for m, (nm, k) in zip(comps, mods):
                        c.oblige((m in gone) == (nm.lower() in stems), "exactly the modules imported anew are removed", lab, "%s is %sremoved" % (nm, "" if m in gone else "not "), None, path_of(o))


@check("V04", "Abstract interpretation of importing into workbooks with every kind of name and state: the one saving made, its name and format, and the refusals",
       "Workbooks saved or never saved, macro-enabled or not (any letter-case), with and without a new name; protected ones; no active one; the command-line's arguments.")
def v04(c):
    fn = c.fn(XMOD, "import_vba_into_excel_workbook")
    for full, saved, new in ((f, s, n) for f in ("C:/d/b.xlsm", "C:/d/b.XLTM", "C:/d/b.xlsx", "C:/d/b.xls", "Book1", "C:/d.m/b") for s in ("C:/d", "") for n in (NONE, Const(""), Const("out.xlsm"), Const("bar"))):
        if saved and full == "Book1":
            continue
        st, cfg, coll, comps = world(c, (), ("a.vba",), full, saved)
        lab = "workbook %s, %s, new name %s" % (full, "saved before" if saved else "never saved", show(new))
        good = False
        for o in c.run(fn, (Const("wild*"), Const("x"), new), st=st, label=lab, **cfg):
            if o.raised:
                continue
            sv = [(i, e) for i, e in enumerate(o.events) if e[0] == "saved"]
            imps = [i for i, e in enumerate(o.events) if e[0] == "imported"]
            c.oblige(len(sv) == 1 and all(i < sv[0][0] for i in imps), "saved once, after the imports", lab, "saved %d times" % len(sv), None, path_of(o))
            if len(sv) != 1:
                continue
            good = True
            macro = full.rsplit("/")[-1].lower().rpartition(".")[2].endswith("m") and "." in full.rsplit("/")[-1]
            want = new.v if new.v else (full + ".xlsm" if not macro else None if saved else "/w/" + full.split("/")[-1])
            got = sv[0][1][1]
            c.oblige((got is None and want is None) or isinstance(got, Const) and got.v == want, "saved under the name asked, or as macro-enabled", lab, "saved as %s instead of %s" % (got and show(got), want), None, path_of(o))
            if want is not None:
                c.oblige(sv[0][1][2] == Const(52), "saved in the macro-enabled format", lab, "format is %s" % (sv[0][1][2] and show(sv[0][1][2])), None, path_of(o))
        c.oblige(good, "importing succeeds when nothing fails", lab, "it always fails", None, None)
    # nothing to import, nowhere to import
    st, cfg, coll, comps = world(c, (("a", 1),), ())
    for o in c.run(fn, (Const("wild*"), Const("x"), Const("out.xlsm")), st=st, label="no files", **cfg):
        c.oblige(not any(e[0] in ("saved", "removed", "imported") for e in o.events), "without files nothing changes", "no files", "gives %s" % o, None, path_of(o))
    for what, kw in (("no active workbook", dict(active=False)), ("protected", dict(protection=1))):
        st, cfg, coll, comps = world(c, (("a", 1),), ("a.vba",), **kw)
        for o in c.run(fn, (Const("wild*"),), st=st, label=what, **cfg):
            c.oblige(o.raised and not any(e[0] in ("saved", "removed", "imported") for e in o.events), "refused before any change", what, "gives %s" % o, None, path_of(o))
            if what.startswith("no"):
                c.oblige(o.raised and o.raises("ValueError"), "a missing workbook is a ValueError", what, "gives %s" % o, None, path_of(o))
    # the command line
    mfn = c.fn(XMOD, "main")
    import posixpath
    own = "pandalone/excel/"
    for argv in ((), ("*.vba",), ("*.vba", "in.xlsm"), ("*.vba", "in.xlsx", "out.xlsm"), ("--pandalone",), ("--pandalone", "in.xls"), ("--pandalone", "in.xls", "out"), ("--other",), ("--other", "in.xls")):
        st, cfg, coll, comps = world(c, (), ("a.vba",))
        lab = "command line %s" % (list(argv),)
        for o in c.run(mfn, tuple(Const(a) for a in ("cmd",) + argv), st=st, label=lab, **cfg):
            done = [e for e in o.events if e[0] in ("glob", "book", "saved")]
            if not argv or argv[0] == "--other":
                c.oblige(o.raised and not done, "wrong usage is refused", lab, "gives %s" % o, None, path_of(o))
                continue
            if any(e[0] == "import failed" for e in o.events):
                continue
            c.oblige(not o.raised, "right usage is accepted", lab, "gives %s" % o, None, path_of(o))
            globs = [e[1] for e in done if e[0] == "glob"]
            if argv[0] == "--pandalone":
                from .small import path_const
                g = path_const(globs[0]) if len(globs) == 1 else None
                if g is None:
                    c.undecided(lab, "files looked for not known")
                else:
                    import fnmatch
                    import glob as _glob
                    import os
                    hits = [f for f in os.listdir(os.path.join(c.root, own)) if f.endswith(".vba") and fnmatch.fnmatch(os.path.join(c.root, own, f), posixpath.normpath(g)) and posixpath.dirname(posixpath.normpath(g)) == os.path.join(c.root, "pandalone", "excel")]
                    c.oblige(bool(hits), "the packaged modules are found", lab, "looks for %s, where there are none" % g, None, path_of(o))
            else:
                c.oblige(globs == [Const(argv[0])], "the files asked are imported", lab, "looks for %s" % list(map(show, globs)), None, path_of(o))
            books = [e[1][0] for e in done if e[0] == "book"]
            c.oblige(books == list(map(Const, argv[1:2])), "into the workbook asked", lab, "opens %s" % list(map(show, books)), None, path_of(o))
            if len(argv) > 2:
                sv = [e[1] for e in done if e[0] == "saved"]
                c.oblige(sv == [Const(argv[2])], "under the name asked", lab, "saves as %s" % [x and show(x) for x in sv], None, path_of(o))


# ------------------------------------------------------------------ U06
DISK = {"/bin/tool": 1, "/bin/tool.bat": 1, "/bin/tool.com": 1, "/bin/tool.exe": 1, "/bin/toolcom": 1, "/bin/tool.txt": 1, "/lib/tool": 0, "/lib/tool.exe": 0, "/opt/x y/tool": 1, "/opt/x y/tool.EXE": 1, "/usr/tool.exe": 1,
        "/sbin/tool": None, "/usr/a.exe": 1, "/usr/a": 0, "/bin/toolbat": 1, "tool": 1, "a": 1, "a.exe": 1, "tool.exe": 1, "/bin/toolexe": 1}
PATHS = ["/bin", "/bin:/usr", "/usr:/bin", "/none:/lib:/usr", "/lib", "", "/bin::/usr:", "\"/opt/x y\":/bin", "/sbin:/bin", "/opt/x y:/bin:/usr", "/bin:/bin"]


def spec_where(prog, path, nt):
    """(files that must be found, in order, those that may be)."""
    must, may = [], []
    for d in path.split(":"):
        d = d.strip('"')
        if not d:
            continue
        for i, x in enumerate(("", ".bat", ".com", ".exe")):
            f = "%s/%s%s" % (d, prog, x)
            if not DISK.get(f) or nt and f.lower()[-4:] not in (".bat", ".com", ".exe"):
                continue
            (must if nt or not i else may).append(f)
    return must, may


@check("U06", "Constant propagation through the search for programs over a modelled disk and search-path, on either kind of system; path-sensitive on the outcomes of the system's own search command",
       "Search-paths with empty, missing, quoted and repeated folders, files with and without execute permission, directories, and look-alike names; the command missing, failing, or printing none to several lines.")
def u06(c):
    from .small import path_const
    from .. import models
    py_where, where, which = (c.fn(MOD, x) for x in ("py_where", "where", "which"))

    def probe(kind):
        def f(it, st, args, kwargs, ctx, node):
            p = path_const(args[0])
            if p is None:
                raise Undecided("a file whose path is not known")
            yield st, Const(p in DISK and DISK[p] is not None if kind == "isfile" else bool(p in DISK and DISK[p] != 0) if kind == "access" else p in DISK)
        return f

    def command(out):
        def f(it, st, args, kwargs, ctx, node):
            s = st.fork()
            s.event("ran", args[0] if args else None)
            if out[:4] == "exc:":
                yield it.raise_new(s, out[4:], (Const("where"),))
            else:
                yield s, Const(out)
        return f

    def texts(r):
        o = r.st.heap.get(r.val.oid) if isinstance(r.val, Ref) else None
        vs = list(o.items) if isinstance(o, ListO) and not o.open else list(r.val.items) if isinstance(r.val, Tup) else [] if r.val in (NONE, Const("")) else None
        ps = None if vs is None else [path_const(v) for v in vs]
        return None if ps is None or None in ps else ps

    def judge(r, lab, must, may):
        if r.raised:
            c.bad("a search never fails", lab, "raises %s" % r.exc_names(), None, path_of(r))
            return
        got = texts(r)
        if got is None:
            c.undecided(lab, "found files not known: %s" % show(r.val, r.st))
            return
        once = lambda l: [x for i, x in enumerate(l) if x not in l[:i]]
        c.oblige(once([x for x in got if x in must]) == once(must), "the executables are found in the path's order", lab, "%s found instead of %s" % (got, must), None, path_of(r))
        c.oblige(not [x for x in got if x not in must + may], "only executables of that name are found", lab, "%s found" % [x for x in got if x not in must + may], None, path_of(r))

    def join(it, st, args, kwargs, ctx, node):
        ps = [path_const(it.strval(a, st) or a) for a in args]
        if None in ps:
            raise Undecided("a file whose path is not known")
        yield st, Const("/".join([p.rstrip("/") for p in ps[:-1] if p] + ps[-1:]))

    n = 0
    stubs = {"os.path.join": join, "os.path.isfile": probe("isfile"), "os.access": probe("access"), "os.path.exists": probe("exists")}
    for nt in (False, True):
        models.EXT_CONST["os.name"] = Const("nt" if nt else "posix")
        try:
            for prog in ("tool", "tool.exe", "a", "too", "tool.EXE"):
                for path in PATHS:
                    must, may = spec_where(prog, path, nt)
                    for how in ("given", "environment"):
                        if how == "given" and not path:
                            continue
                        st = c.state()
                        st.over[(Ext("os.environ"), "item", Const("PATH"))] = Const(path if how == "environment" else "/nowhere")
                        st.facts[("has", Ext("os.environ"), Const("PATH"))] = True
                        lab = "%s in %s path %r on %s" % (prog, how, path, "nt" if nt else "posix")
                        for r in c.run(py_where, (Const(prog),) + ((Const(path),) if how == "given" else ()), st=st.fork(), label="py_where", stubs=stubs, raises="none", loop_k=16, comp_k=16):
                            n += 1
                            judge(r, lab, must, may)
                        if how == "environment":
                            for out in ("exc:FileNotFoundError", "exc:CalledProcessError", "exc:OSError", "", "\n", "/q/tool\n", "  /q/tool\n\n /r/tool \n", "/r/tool"):
                                cfg = dict(stubs=dict(stubs, **{"subprocess.check_output": command(out)}), raises="none", loop_k=16, comp_k=16)
                                lab2 = "%s, command %s" % (lab, out if out[:4] == "exc:" else "printing %r" % out)
                                lines = [] if out == "exc:CalledProcessError" else [x.strip() for x in out.split("\n") if x.strip()] if out[:4] != "exc:" else None
                                for r in c.run(where, (Const(prog),), st=st.fork(), label="where", **cfg):
                                    n += 1
                                    judge(r, lab2, must if lines is None else lines, may if lines is None else [])
                                for r in c.run(which, (Const(prog),), st=st.fork(), label="which", **cfg):
                                    n += 1
                                    if r.raised:
                                        c.bad("a search never fails", lab2, "raises %s" % r.exc_names(), None, path_of(r))
                                        continue
                                    v = None if r.val == NONE else path_const(r.val)
                                    fits = v in (must + may) if lines is None and must + may else v == (lines[0] if lines else None)
                                    if lines is None and must and not nt:
                                        fits = v == must[0] or v in may
                                    c.oblige(fits if v is not None or r.val == NONE else None, "the first one found is given", lab2, "%s is given" % show(r.val, r.st), None, path_of(r))
        finally:
            models.EXT_CONST.pop("os.name", None)
    c.oblige(True if n else None, "searches followed", "where", "none")


def pathworld(cwd="/cwd", val="val", home="/home/me"):
    """Models of the path and url functions of a posix system, with a home, a folder and two variables."""
    import posixpath, urllib.parse as up, urllib.request as ur
    from ..core import ClassInfo
    env = {"VAR": val, "DIR": "/abs"}

    def expandvars(t):
        import re
        return re.sub(r"\$(\w+|\{[^}]*\})", lambda m: env.get(m.group(1).strip("{}"), m.group(0)), t)

    def expanduser(t):
        return home + t[1:] if t == "~" or t.startswith("~/") else t

    def texts(it, st, args):
        ps = []
        for a in args:
            p = models.strparts(it, a, st)
            if p is None:
                return None
            ps += list(p) + ["\0"]
        return tuple(ps[:-1])

    def shaped(f, name):
        def g(it, st, args, kwargs, ctx, node):
            ps = texts(it, st, args)
            if ps is None or kwargs:
                yield from models.opaque_call(it, Ext(name), args, kwargs, st, ctx, node, name, "str")
                return
            yield st, models.via_text(lambda t: f(*t.split("\0")), ps)
        return g
    fs = {"os.path.abspath": lambda t: posixpath.normpath(posixpath.join(cwd, t)), "os.path.realpath": lambda t: posixpath.normpath(posixpath.join(cwd, t)),
          "os.path.normpath": posixpath.normpath, "os.path.expandvars": expandvars, "os.path.expanduser": expanduser, "os.path.isabs": posixpath.isabs,
          "os.path.join": posixpath.join, "urllib.request.pathname2url": ur.pathname2url, "urllib.request.url2pathname": ur.url2pathname,
          "urllib.parse.urljoin": up.urljoin, "urllib.parse.quote": up.quote, "urllib.parse.unquote": up.unquote}
    stubs = {k: shaped(f, k) for k, f in fs.items()}
    stubs["os.getcwd"] = lambda it, st, a, k, ctx, node: iter([(st, Const(cwd))])
    stubs["os.path.expanduser"] = shaped(expanduser, "os.path.expanduser")

    def splitter(which):
        infos = {}

        def g(it, st, args, kwargs, ctx, node):
            ps = texts(it, st, args[:1])
            if ps is None or kwargs or len(args) > 1:
                yield from models.opaque_call(it, Ext("urllib.parse." + which), args, kwargs, st, ctx, node, "urllib.parse." + which, None)
                return
            names = models.subst(ps)[2]
            r = getattr(up, which)(models.subst(ps)[0])
            info = infos.setdefault(0, ClassInfo(type(r).__name__, ctx.module, []))
            info.nt_fields = list(r._fields)
            yield st, Tup([models.unsubst(x, names) for x in r], info)
        return g

    def unsplitter(which):
        def g(it, st, args, kwargs, ctx, node):
            for s, vs in models.materialise(it, args[0], st, ctx, node, 1):
                ps = texts(it, s, vs)
                if ps is None:
                    yield from models.opaque_call(it, Ext("urllib.parse." + which), args, kwargs, s, ctx, node, "urllib.parse." + which, "str")
                else:
                    yield s, models.via_text(lambda t: getattr(up, which)(t.split("\0")), ps)
        return g
    stubs["urllib.parse.urlsplit"], stubs["urllib.parse.urlparse"] = splitter("urlsplit"), splitter("urlparse")
    stubs["urllib.parse.urlunsplit"], stubs["urllib.parse.urlunparse"] = unsplitter("urlunsplit"), unsplitter("urlunparse")

    def geturl(it, obj, st, args, kwargs, ctx, node):
        if isinstance(obj, Tup) and obj.cls is not None and obj.cls.name in ("SplitResult", "ParseResult"):
            return unsplitter("urlunsplit" if len(obj.items) == 5 else "urlunparse")(it, st, (obj,), (), ctx, node)
    return stubs, {"geturl": geturl}


@check("U07", "Abstract interpretation over structured paths (unknown words between separators, drives, variables, the home sign) of the conversions, with the library's url functions as letter-blind string functions",
       "Decides the enumerated shapes of paths with unknown words, on a posix system with a modelled folder, home and variables; windows' own path functions are not modelled.")
def u07(c):
    w, v = word("w"), word("v")
    stubs, mst = pathworld()
    url = c.fn(MOD, "path2url")

    def want(fn, args, kw, exp, rule, what):
        for o in c.run(fn, args, kw, stubs=stubs, mstubs=mst, label=what):
            if o.raised:
                c.bad(rule, what, "fails with %s" % (o.exc_names(),), path=path_of(o))
                continue
            got = o.it.strval(o.val, o.st)
            ps = models.strparts(o.it, got, o.st)
            und = ps is None and not isinstance(got, (Const, Tup, Ref))
            c.oblige(None if und else (mkstr(list(ps)) if ps is not None else got) == exp, rule, what, "gives %s, not %s" % (show(got, o.st), show(exp)), path=path_of(o))
    S = mkstr
    local = "a local path gives a file-url of the absolute path"
    for parts, exp, lab in [
            ([w], ["file:///cwd/", w], "name"), ([w, "/"], ["file:///cwd/", w, "/"], "name/"), ([w, "/", v], ["file:///cwd/", w, "/", v], "a/b"),
            ([w, "\\"], ["file:///cwd/", w, "/"], "name\\"), ([w, "\\", v, "\\"], ["file:///cwd/", w, "/", v, "/"], "a\\b\\"),
            (["./", w], ["file:///cwd/", w], "./name"), (["..\\", w], ["file:///", w], "..\\name"),
            ([w, "/../", v, "/"], ["file:///cwd/", v, "/"], "a/../b/"), ([w, "/./", v], ["file:///cwd/", w, "/", v], "a/./b"),
            (["/"], ["file:///"], "root"), (["/", w], ["file:///", w], "/name"), (["/", w, "/"], ["file:///", w, "/"], "/name/"), (["\\", w, "\\", v], ["file:///", w, "/", v], "\\a\\b"),
            (["/", w, "/../", v], ["file:///", v], "/a/../b"),
            ([w, "//", v, "/"], ["file:///cwd/", w, "/", v, "/"], "a//b/"), (["/", w, "///", v], ["file:///", w, "/", v], "/a///b"), (["/", w, "/.//", v, "\\"], ["file:///", w, "/", v, "/"], "/a/.//b\\"), ([w, ".", v], ["file:///cwd/", w, ".", v], "a.b"), ([w, " ", v], ["file:///cwd/", w, " ", v], "a b"),
            (["file:///", w, "/"], ["file:///", w, "/"], "file:///name/"), (["file:///", w, "/../", v], ["file:///", v], "file:///a/../b"), (["file:", w], ["file:///cwd/", w], "file:name"),
            (["file://", w, "/", v], ["file://", w, "/", v], "file://host/a"), (["\\\\", w, "\\", v, "\\"], ["file://", w, "/", v, "/"], "\\\\server\\share\\"),
            (["//", w, "/", v], ["file://", w, "/", v], "//server/share")]:
        want(url, (S(parts),), (), S(exp), local, "path2url of %s" % lab)
    rule = "a path on a drive gives the file-url of that drive"
    for d in "Dcz":
        for parts, exp, lab in [(["\\", w, "\\", v], ["/", w, "/", v], "\\a\\b"), (["/", w, "/"], ["/", w, "/"], "/name/"), ([w], ["/", w], "name (relative to the drive)"),
                                ([w, "\\", v, "\\"], ["/", w, "/", v, "/"], "a\\b\\ (relative to the drive)"), (["\\"], ["/"], "\\"), ([], ["/"], "nothing"), (["/", w, "/../", v], ["/", v], "/a/../b")]:
            for pre in ((), (PFX,)):
                want(url, (S(list(pre) + [d + ":"] + parts),), (), S(["file:///%s:" % d] + exp), rule, "path2url of %s: and %s%s" % (d, lab, " (long-path prefix)" if pre else ""))
    rule = "a remote url passes through"
    for scheme in ("http", "https", "ftp"):
        for parts, exp, lab in [(["/", w], None, "/name"), (["/", w, "/"], None, "/name/"), (["/", w, "/", v], None, "/a/b"), (["/D:\\", w], ["/D:/", w], "/D:\\name"), (["/"], None, "/"), ([], None, "nothing"),
                                (["/", w, "?", v, "=1"], None, "/name?query"), (["/", w, "#", v], None, "/name#fragment"), (["?", v, "=1"], None, "?query"),
                                (["/~/", w], None, "/~/name"), (["/$", w], None, "/$name"), (["/$VAR/", w], None, "/$VAR/name")]:
            pre = ["%s://" % scheme, "host.org"]
            for kw in ((), (("expanduser", TRUE),)):
                want(url, (S(pre + parts),), kw, S(pre + (exp or parts)), rule, "path2url of %s://host and %s%s" % (scheme, lab, " (user expanded)" if kw else ""))
    for val, lab in ((Const(""), "the empty path"), (NONE, "none")):
        want(url, (val,), (), val, "nothing stays nothing", "path2url of %s" % lab)
    # the folder, the variables and the home may change between conversions
    stubs2, mst2 = pathworld("/there/in", "other", "/home/you")
    for fn in (url, c.fn(MOD, "convpath")):
        for parts, kw, exp, lab in [([w], (), ["/there/in/", w], "name"), ([w, "/", v, "/"], (), ["/there/in/", w, "/", v, "/"], "a/b/"), (["../", w], (), ["/there/", w], "../name"),
                                    (["$VAR/", w], (("expandvars" if fn is url else "exp_vars", TRUE),), ["/there/in/other/", w], "$VAR/name"), (["~/", w], (("expanduser" if fn is url else "exp_user", TRUE),), ["/home/you/", w], "~/name")]:
            for o in c.run(fn, (S(parts),), kw, stubs=stubs, mstubs=mst, label=lab):
                for o2 in c.run(fn, (S(parts),), kw, st=o.st, stubs=stubs2, mstubs=mst2, label=lab) if not o.raised else ():
                    got = None if o2.raised else o2.it.strval(o2.val, o2.st)
                    e = S((["file://"] if fn is url else []) + exp)
                    ps = got and models.strparts(o2.it, got, o2.st)
                    c.oblige((mkstr(list(ps)) if ps is not None else got) == e, "paths are converted against the folder, variables and home of the time", "%s of %s, again elsewhere" % (show(fn), lab),
                             "gives %s, not %s" % (got and show(got, o2.st), show(e)), path=path_of(o2))
    # expansions
    rule = "variables and the home are expanded exactly when asked"
    EV, EU = ("expandvars", TRUE), ("expanduser", TRUE)
    no = (("expandvars", FALSE), ("expanduser", FALSE))
    plain = [(["$VAR/", w], ["file:///cwd/$VAR/", w], "$VAR/name"), (["${VAR}/", w], ["file:///cwd/${VAR}/", w], "${VAR}/name"), (["~/", w], ["file:///cwd/~/", w], "~/name")]
    for parts, exp, lab in plain:
        want(url, (S(parts),), (), S(exp), rule, "path2url of %s" % lab)
        want(url, (S(parts),), no, S(exp), rule, "path2url of %s (unasked)" % lab)
    for kw in ((EV,), (EV, EU)):
        for parts, exp, lab in [(["$VAR/", w], ["file:///cwd/val/", w], "$VAR/name"), (["${VAR}/", w, "/"], ["file:///cwd/val/", w, "/"], "${VAR}/name/"), (["$DIR/", w], ["file:///abs/", w], "$DIR/name"), (["$DIR"], ["file:///abs"], "$DIR"),
                                (["http://host/$VAR/", w], ["http://host/val/", w], "http://host/$VAR/name"), (["$NONE/", w], ["file:///cwd/$NONE/", w], "$NONE/name (unset)")]:
            want(url, (S(parts),), kw, S(exp), rule, "path2url of %s (variables)" % lab)
    for kw in ((EU,), (EV, EU)):
        for parts, exp, lab in [(["~/", w], ["file:///home/me/", w], "~/name"), (["~/", w, "/"], ["file:///home/me/", w, "/"], "~/name/"), (["~"], ["file:///home/me"], "~"), ([w, "/~/", v], ["file:///cwd/", w, "/~/", v], "a/~/b")]:
            want(url, (S(parts),), kw, S(exp), rule, "path2url of %s (user)" % lab)
    want(url, (S(["~/", w]),), (EV,), S(["file:///cwd/~/", w]), rule, "path2url of ~/name (variables only)")
    want(url, (S(["$VAR/", w]),), (EU,), S(["file:///cwd/$VAR/", w]), rule, "path2url of $VAR/name (user only)")
    conv = c.fn(MOD, "convpath")
    for ab in (True, False):
        for eu in (True, False):
            for ev in (True, False):
                kw = (("abs_path", Const(ab)), ("exp_user", Const(eu)), ("exp_vars", Const(ev)))
                for tail in ([], ["/"]):
                    cwd = ["/cwd/"] if ab else []
                    for parts, exp, lab in [
                            (["~/", w], ["/home/me/", w] if eu else cwd + ["~/", w], "~/name"), (["$VAR/", w], cwd + (["val/", w] if ev else ["$VAR/", w]), "$VAR/name"),
                            (["$DIR/", w], ["/abs/", w] if ev else cwd + ["$DIR/", w], "$DIR/name"), (["~/$VAR/", w], (["/home/me/"] if eu else cwd + ["~/"]) + (["val/", w] if ev else ["$VAR/", w]), "~/$VAR/name"),
                            ([w, "/../", v], cwd + [v], "a/../b"), (["/", w, "//", v], ["/", w, "/", v], "/a//b"), (["\\\\", w, "\\", v, "$\\VAR"], cwd + ["\\\\", w, "\\", v, "$\\VAR"], "\\\\server\\share$\\VAR")]:
                        want(conv, (S(parts + tail),), kw, S(exp + tail), rule if eu or ev else "paths are made absolute exactly when asked",
                             "convpath of %s%s (%s)" % (lab, "".join(tail), ", ".join(n for n, f in (("absolute", ab), ("user", eu), ("variables", ev)) if f) or "no flags"))
    want(conv, (S(["~/$VAR/", w, "/"]),), (), S(["/home/me/val/", w, "/"]), rule, "convpath of ~/$VAR/name/ (defaults)")
    want(conv, (S([w]),), (), S(["/cwd/", w]), "paths are made absolute exactly when asked", "convpath of name (defaults)")


@check("U08", "Abstract interpretation over structured strings (words and line-endings) of the log-writer with a recording logger: the records kept compared with the texts written",
       "Texts of up to two unknown words with each line-ending, blanks around and endings within, single and in all pairs.")
def u08(c):
    fn = c.fn(ENV, "log_writes")
    w, v = word("w"), word("v")
    texts = [([w], [w]), ([w, "\n"], [w]), ([w, "\r\n"], [w]), ([w, "\n\r"], [w]), ([], None), (["\n"], None), (["\r\n"], None), (["\n\r"], None),
             ([" ", w, "  "], [" ", w, "  "]), (["\t", w, " \n"], ["\t", w, " "]), ([w, "\n", v], [w, "\n", v]), ([w, "\n", v, "\n"], [w, "\n", v]), (["\n", w], ["\n", w]), (["\n", w, "\n"], ["\n", w]),
             ([w, "%s ", v], [w, "%s ", v]), ([w, "%", "\n"], [w, "%"]), ([" "], [" "])]
    level = Sym("level", "int", "nonempty")
    plans = [[t] for t in texts] + [[a, b] for a in texts for b in texts] + [[]]
    for plan in plans:
        st = c.state()
        msgs = st.alloc(ListO([mkstr(t) if t else Const("") for t, _ in plan]))
        lab = " then ".join(repr("".join(p if isinstance(p, str) else p.name for p in t)) for t, _ in plan) or "nothing"
        want = [mkstr(x) for _, x in plan if x is not None]
        for o in c.run(fn, (level, msgs), st=st, label="LoggerWriter.write", loop_k=4):
            if o.raised:
                c.bad("writing never fails", lab, "raises %s" % (o.exc_names(),), path=path_of(o))
                continue
            ob = o.st.heap.get(o.val.oid) if isinstance(o.val, Ref) else None
            got = [tuple(x.items) if isinstance(x, Tup) else (None, None) for x in ob.items] if isinstance(ob, ListO) and not ob.open else None
            texts_ = None
            if got is not None:
                ps = [models.strparts(o.it, o.it.strval(m, o.st), o.st) for _, m in got]
                texts_ = [mkstr(p) if p is not None else None for p in ps]
            guess = any(k[0] == "truth" and isinstance(k[1], App) and k[1].op.startswith("m:") for k in o.st.facts if k not in c.prog.base.facts)
            ok = None if got is None or guess or None in texts_ and len(texts_) == len(want) else texts_ == want and all(l == level for l, _ in got)
            c.oblige(ok, "each text is logged once, without its line-ending", lab, "logs %s instead of %s" % (show(o.val, o.st), [show(x) for x in want]), path=path_of(o))


@check("U09", "Abstract interpretation of as_list() by kind of value: elements and identity of the list given back",
       "Every kind of builtin sequence, texts, mappings, sets, numbers and none; up to three opaque elements.")
def u09(c):
    fn = c.fn(ENV, "listed")
    x, y, w = Sym("x", None, ("shared",)), Sym("y", None, ("shared",)), word("w")
    kinds = [("list", lambda st, es: st.alloc(ListO(es))), ("tuple", lambda st, es: Tup(es))]
    cases = []
    for es in ([], [x], [x, y], [y, x, y], [NONE], [w, x]):
        for k, mk in kinds:
            cases.append(("a %s of %d" % (k, len(es)), lambda st, mk=mk, es=es: mk(st, es), list(es)))
    for lab, v in (("a text", w), ("an empty text", Const("")), ("none", NONE), ("a number", Const(5)), ("zero", Const(0)), ("false", FALSE), ("a single letter", Const("a"))):
        cases.append((lab, lambda st, v=v: v, [v]))
    cases.append(("a mapping", lambda st: st.alloc(DictO([(Const("k"), x)])), "self"))
    cases.append(("an empty mapping", lambda st: st.alloc(DictO()), "self"))
    cases.append(("a set", lambda st: st.alloc(ListO([Const(1), Const(2)], tname="set")), "self"))
    cases += [("a range", "range", [Const(0), Const(1), Const(2)]), ("an empty range", "norange", []), ("bytes", "bytes", [Const(97), Const(98)]), ("no bytes", "nobytes", []),
              ("a sequence of one's own", "own", [Const("x"), Const("y")])]
    for lab, mk, want in cases:
        if isinstance(mk, str):
            f = c.fn(ENV, "listed_" + mk)
            st, v = c.state(), NONE
        else:
            st, f = c.state(), fn
            v = mk(st)
            freeze(v, st, "given")
        for o in c.run(f, () if isinstance(mk, str) else (v,), st=st, label="as_list"):
            if o.raised:
                c.bad("everything makes a list", lab, "raises %s" % (o.exc_names(),), path=path_of(o))
                continue
            ob = o.st.heap.get(o.val.oid) if isinstance(o.val, Ref) else None
            wl = [v] if want == "self" else want
            if not isinstance(ob, ListO):
                c.oblige(None if isinstance(ob, CopyO) or isinstance(o.val, (App, Sym)) and o.val != v else False, "everything makes a list", lab, "gives %s" % show(o.val, o.st), path=path_of(o))
                continue
            c.oblige(None if ob.open else ob.tname == "list" and [o.it.strval(e, o.st) if not isinstance(e, Ref) else e for e in ob.items] == wl, "sequences are listed, all else is the only element", lab,
                     "gives %s instead of %s" % (show(o.val, o.st), [show(e, o.st) for e in wl]), path=path_of(o))
            c.oblige(o.val != v, "the list is a fresh one", lab, "gives the very list given", path=path_of(o))
            for e in o.writes():
                if e[7] == "given":
                    c.bad("what is given is only read", lab, "it is written", e[5], path_of(o))
