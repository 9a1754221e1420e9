"""bumpver (B01, B02) and components (K01, K02)."""
from ..harness import *

WRITE_EXT = ("subprocess.", "os.system", "os.popen", "os.exec", "os.spawn", "os.remove", "os.unlink", "os.rename", "os.replace",
             "os.mkdir", "os.makedirs", "os.rmdir", "os.truncate", "os.write", "os.chmod", "shutil.", "os.symlink", "os.link", "os.posix_spawn")
WRITE_METH = {".write", ".writelines", ".write_text", ".write_bytes", ".unlink", ".rename", ".touch", ".truncate", ".mkdir", ".rmdir"}


def open_mode(e):
    """Mode argument of an open() call event (pathlib's: no path argument)."""
    args = e[2][1:] if e[1] in ("builtins.open", "io.open", "codecs.open", "os.open", ".open") else e[2]
    kw = {k: v for k, v in e[3]}
    if "mode" in kw:
        return kw["mode"]
    return args[0] if args else Const("r")


def effect(e):
    """Does the event change files or run a command: 'file' | 'exec' | None."""
    if e[0] != "call":
        return None
    n = e[1]
    if n in ("builtins.open", "io.open", "codecs.open", ".open"):
        m = open_mode(e)
        if isinstance(m, Const) and isinstance(m.v, str) and not set(m.v) & set("wax+"):
            return None
        return "file"
    if n in WRITE_METH:
        return "file"
    if n.startswith(WRITE_EXT):
        return "exec" if n.startswith(("subprocess.", "os.system", "os.popen", "os.exec", "os.spawn", "os.posix_spawn")) else "file"
    return None


SKIP = {"subprocess.list2cmdline", "shutil.which"}


def effects(o):
    return [(effect(e), e) for e in o.events if effect(e) and e[1] not in SKIP]


def known_false(o, v):
    return o.st.facts.get(("truth", v)) is False or o.st.facts.get(("val", v)) in (FALSE, NONE)


def runs_bumpver(c):
    fn = c.fn("bin.bumpver", "bumpver")
    nv, dry, force = Sym("new_ver"), Sym("dry_run"), Sym("force")
    outs = c.run(fn, (nv, dry, force, Sym("tag_after_commit")), drain=True, label="bumpver", raises="handled")
    for o in outs:
        yield "bumpver", o, nv, dry, force
    mfn = c.fn("bin.bumpver", "main")
    opts = Sym("opts", "dict")

    def docopt(it, st, args, kwargs, ctx, node):
        yield st, opts

    def opt(n):
        return App("item", (opts, Const(n)))
    for o in c.run(mfn, (Sym("argv"),), label="main", stubs={"docopt.docopt": docopt}):
        yield "main", o, opt("<new-ver>"), opt("--dry-run"), opt("--force")


def text_of(v, st):
    """Leading constant text of a string value."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    if isinstance(v, Str) and isinstance(v.parts[0], str):
        return v.parts[0]
    return ""


@check("B01", "Path-sensitive effect analysis (abstract interpretation) of bin/bumpver.py: file-write and command effects against the dry-run facts of their path",
       "Decides every path of bumpver() and main(), for arbitrary options; that the tools run by the tests themselves write nothing is outside.")
def b01(c):
    c.history = False
    n = 0
    for entry, o, nv, dry, force in runs_bumpver(c):
        effs = effects(o)
        for kind, e in effs:
            n += 1
            c.oblige(known_false(o, dry), "effects only without dry-run", "%s: %s" % (entry, e[1]),
                     "a %s effect (%s) is reachable on a path where dry-run may be on" % (kind, e[1]), e[4], path_of(o))
        ex = [e for k, e in effs if k == "exec"]
        if entry == "bumpver" and not o.raised:
            said = [x for x in o.val if text_of(x, o.st).startswith("EXEC")]
            dryd = [x for x in o.val if text_of(x, o.st).startswith("DRYRUN")]
            c.oblige(len(said) == len(ex), "commands announced as executed are executed", entry,
                     "%d commands announced, %d executed" % (len(said), len(ex)), ex[-1][4] if ex else None, path_of(o))
            if said:
                c.oblige(known_false(o, dry), "'EXEC' announced only without dry-run", entry, "announced as executed in a dry-run", None, path_of(o))
        # a command after a failed one
        for i, e in enumerate(ex[:-1]):
            failed = failing(e, o.st)
            c.oblige(failed is False, "a failing command aborts the rest", "%s: %s" % (entry, e[1]),
                     "another command runs although the previous one failed or its outcome was not checked", e[4], path_of(o))
    c.oblige(n > 0, "effects seen", "bumpver has write and command effects at all", "no effect found without dry-run: nothing is announced as executed")


def failing(e, st):
    """Whether a command executed on this path failed: False, True, or None when its outcome (an exit-code, or the signal that killed it, negative) is not looked at."""
    if e[1] in ("subprocess.check_call", "subprocess.check_output") or dict((k, v) for k, v in e[3]).get("check") == TRUE:
        return False
    def within(v):
        return v == e[5] or isinstance(v, App) and v.op.split(":")[-1] == "enter" and any(within(x) for x in v.args)

    rcs = [e[5]]
    for v in {x for k in st.facts for x in k[1:] if isinstance(x, App)}:
        f = v.op.split(":")[-1]
        if v.args and within(v.args[0]) and (f in ("wait", "poll", "__enter__") or f == "attr" and v.args[1] == "returncode"):
            rcs.append(v)
    for rc in rcs:
        t = st.facts.get(("truth", rc))
        if t is None:
            v = strict(st, rc)
            t = bool(v.v) if isinstance(v, Const) else None
        sides = set()
        for k, b in st.facts.items():
            if len(k) == 3 and rc in k[1:] and (Const(0) in k[1:] or FALSE in k[1:]):
                if k[0] == "==":
                    t = not b if t is None else t
                elif k[0] in ("<", "<="):
                    below = k[1] == rc
                    if b == (k[0] == "<="):         # at most, or at least, zero
                        sides.add(below == b)
                    elif b or k[0] == "<=":         # strictly off zero
                        t = True
        if t is None and (len(sides) == 2 or st.facts.get(("range", ((rc, 1),))) == (0, 0)):
            t = False
        if t is not None:
            return t
    return None


def replace_chain(v):
    """(base, [(old, new)...]) of nested str.replace terms, or None."""
    pairs = []
    while isinstance(v, App):
        if v.op == "m:join" and len(v.args) == 2 and isinstance(v.args[1], App) and v.args[1].op == "m:split" and len(v.args[1].args) == 2:
            # Joining with another text what has been split at some text.
            pairs.append((v.args[1].args[1], v.args[0]))
            v = v.args[1].args[0]
            continue
        if v.op != "m:replace":
            break
        if len(v.args) != 3:
            return None
        pairs.append((v.args[1], v.args[2]))
        v = v.args[0]
    return v, pairs


@check("B02", "Path-sensitive effect analysis and value-flow of bin/bumpver.py: version facts dominating each effect, and the terms written to each file",
       "Decides every path of bumpver() for arbitrary options and file contents.")
def b02(c):
    c.history = False
    from itertools import chain
    for entry, o, nv, dry, force in runs_bumpver(c):
        effs = effects(o)
        st = o.st
        refused = False
        for k, v in st.facts.items():
            if k[0] == "==" and nv in k and v is True:
                refused = True
        if effs:
            kind, e = effs[0]
            c.oblige(st.facts.get(("truth", nv)) is True, "without a version nothing changes", "%s: %s" % (entry, e[1]),
                     "effect on a path where the new version may be empty", e[4], path_of(o))
            differs = any(k[0] == "==" and nv in k and v is False for k, v in st.facts.items())
            forced = st.facts.get(("truth", force)) is True
            c.oblige(differs or forced, "same version refused before any change unless forced", "%s: %s" % (entry, e[1]),
                     "effect on a path where the version may equal the current one and --force was not given", e[4], path_of(o))
        if refused and not st.facts.get(("truth", force)):
            if entry == "bumpver":
                c.oblige(o.raised and not effs, "same version refused", entry, "bumping to the current version is not refused", None, path_of(o))
        # texts written
        opens = {}
        for e in o.events:
            if e[0] == "call" and e[1] == "builtins.open":
                opens[e[5]] = e
        written, unknown = [], False
        for e in o.events:
            if e[0] != "call" or e[1] != ".write":
                continue
            f = e[2][0]
            src = f.args[0] if isinstance(f, App) and f.op == "enter" else f
            oe = opens.get(src)
            r = replace_chain(e[2][1])
            if oe is None or r is None:
                c.undecided("text written at %s" % e[4], "not a chain of replacements of a file's text")
                unknown = True
                continue
            base, pairs = r
            fin = base
            if isinstance(fin, App) and fin.op == "m:read":
                fin = fin.args[0]
                fin = fin.args[0] if isinstance(fin, App) and fin.op == "enter" else fin
            roe = opens.get(fin)
            if roe is None:
                c.undecided("text written at %s" % e[4], "source of the text unknown")
                unknown = True
                continue
            same = roe[2][0] == oe[2][0]
            c.oblige(same, "each file is written with its own text", "%s: .write" % entry, "text read from %s is written to %s" %
                     (show(roe[2][0]), show(oe[2][0])), e[4], path_of(o))
            olds = [p[0] for p in pairs]
            vers = [p for p in pairs if p[1] == nv]
            groups = [x for x in olds if isinstance(x, App) and x.op in ("group", "m:group")]
            c.oblige(len(vers) == 1 and len(pairs) == 2 and len(set(olds)) == 2 and len(groups) == 2, "version and date both replaced everywhere", "%s: .write" % entry,
                     "the text written has replacements %s" % [(show(a), show(b)) for a, b in pairs], e[4], path_of(o))
            written.append(oe[2][0])
        if not unknown and (written or entry == "bumpver" and not o.raised and known_false(o, dry) and st.facts.get(("truth", nv)) is True):
            c.oblige(len(set(written)) == len(written) == 2, "both files written once", entry, "files written: %s" % [show(w) for w in written], None, path_of(o)) \
                if entry == "bumpver" and not o.raised else None


def bare(v):
    """A path without conversions of its form."""
    while True:
        if isinstance(v, App) and v.op in ("m:as_posix", "str", "fspath", "call:pathlib.Path", "call:pathlib.PurePath", "m:__str__", "call:os.fspath", "call:os.path.normpath") and v.args:
            v = v.args[0]
        elif isinstance(v, App) and v.op.startswith("call") and v.args and isinstance(v.args[0], App) and not v.op[5:].startswith("os.path.join"):
            v = v.args[0]
        elif isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Val):
            v = v.parts[0]
        else:
            return v


def command(e, st):
    """Words of an executed command, None when unknown."""
    a = e[2][0] if e[2] else dict((k, v) for k, v in e[3]).get("args")
    if isinstance(a, Tup):
        return list(a.items)
    h = st.heap.get(a.oid) if isinstance(a, Ref) else None
    return list(h.items) if isinstance(h, ListO) and not h.open else None


def strict(st, v):
    return st.facts.get(("val", v), v)


@check("B03", "Typestate/order analysis over the abstract paths of the version-bump's main(): the order of file-writes, doc-tests and commands, their arguments, and the facts of earlier outcomes dominating them",
       "All combinations of the commit, tag, force and dry-run options, with every test outcome and every command succeeding or failing.")
def b03(c):
    c.history = False
    from itertools import product
    mfn = c.fn("bin.bumpver", "main")
    nv, msg = Sym("new_ver", "str"), Sym("message", "str")
    seen = 0
    for tag, commit, dry, force in product((NONE, msg), (FALSE, TRUE), (FALSE, TRUE), (FALSE, TRUE)):
        def docopt(it, st, args, kwargs, ctx, node):
            s = st.fork()
            s.facts[("truth", msg)] = s.facts[("truth", nv)] = True
            yield s, s.alloc(DictO([(Const("<new-ver>"), nv), (Const("--dry-run"), dry), (Const("--force"), force), (Const("--commit"), commit), (Const("--tag"), tag)]))
        lab = "main, tag %s, commit %s, dry-run %s, force %s" % (show(tag), commit.v, dry.v, force.v)
        good = False
        want = (["add", "commit"] if tag != NONE or commit == TRUE else []) + (["tag"] if tag != NONE else []) if dry == FALSE else []
        for o in c.run(mfn, (Sym("argv"),), label="main", stubs={"docopt.docopt": docopt}, max_states=250000):
            st = o.st
            evs = o.events
            ix = {id(e): i for i, e in enumerate(evs)}
            writes = [e for e in evs if e[0] == "call" and e[1] in (".write", ".write_text")]
            tests = [e for e in evs if e[0] == "call" and e[1] == ".run" and "unittest" in show(e[2][0], st)]
            ex = [e for k, e in effects(o) if k == "exec"]
            seen += len(ex)
            ok = []
            for t in tests:
                for e in evs:
                    if e[0] == "call" and e[1] == ".wasSuccessful" and e[2][0] == t[5]:
                        ok.append((ix[id(e)], st.facts.get(("truth", e[5]))))
            for e in writes:
                c.oblige(not any(ix[id(t)] < ix[id(e)] for t in tests), "files are bumped before the doc-tests run", lab, "a file is written after the tests", e[4], path_of(o))
            for e in ex:
                c.oblige(bool(tests) and all(ix[id(t)] < ix[id(e)] for t in tests), "the doc-tests run before any command", lab, "%s executes before the tests" % e[1], e[4], path_of(o))
                c.oblige(None if tests and not ok else any(i < ix[id(e)] and v is True for i, v in ok) and not any(v is False for _, v in ok), "commands only run after successful doc-tests", lab,
                         "%s executes though the tests may have failed" % e[1], e[4], path_of(o))
            failed = [e for e in ex if strict(st, e[5]) not in (FALSE, Const(0)) and st.facts.get(("truth", e[5])) is True]
            for e in ex if not o.raised else ex[:-1]:
                c.oblige(failing(e, st) is False, "a bump goes on only after a command succeeded", lab, "%s may have failed, or been killed, and the bump goes on" % e[1], e[4], path_of(o))
            if failed or any(v is False for _, v in ok):
                c.oblige(o.raised, "a failed bump does not end as if it succeeded", lab, "it ends normally although %s failed" % ("a command" if failed else "the tests"), None, path_of(o))
            # the commands
            cmds = []
            for e in ex:
                w = command(e, st)
                words = [x.v if isinstance(x, Const) else None for x in w or ()]
                if words and words[0] is not None:
                    c.oblige(words[0].split("/")[-1] == "git", "only git is executed", lab, "executes %s" % words[0], e[4], path_of(o))
                if w is None or words[:1] == [None] or len(words) < 2 or words[1] is None:
                    cmds = None
                    c.undecided(lab, "the command executed is not known")
                    break
                cmds.append(words[1])
                rest = w[2:]
                if words[1] == "add":
                    files = set(bare(e2[2][0]) for e2 in evs if e2[0] == "call" and effect(e2) == "file" and e2[1] == "builtins.open")
                    added = set(bare(x) for x in rest if not (isinstance(x, Const) and str(x.v).startswith("-")))
                    c.oblige(added == files, "exactly the bumped files are committed", lab, "adds %s while %s were written" % (sorted(map(show, added)), sorted(map(show, files))), e[4], path_of(o))
                if words[1] == "tag":
                    names = [x for x in rest if not (isinstance(x, Const) and str(x.v).startswith("-")) and x != msg]
                    c.oblige(len(names) == 1 and isinstance(names[0], Str) and names[0].parts == ("v", nv), "the tag is that of the new version", lab, "tags as %s" % [show(x, st) for x in names], e[4], path_of(o))
                    c.oblige(any(words[i] in ("-m", "--message") and w[i + 1] == msg for i in range(len(w) - 1)) or any(x == Str(("--message=", msg)) for x in rest), "the tag has the message given", lab,
                             "tags with %s" % [show(x, st) for x in rest], e[4], path_of(o))
                    c.oblige("-s" in words or "--sign" in words, "tags are signed", lab, "tags with %s" % [show(x, st) for x in rest], e[4], path_of(o))
                if words[1] == "commit":
                    c.oblige(any(words[i] in ("-m", "--message", "-am") for i in range(len(w) - 1)) or any(str(x).startswith("--message=") for x in words) or any(isinstance(x, Str) and str(x.parts[0]).startswith("--message=") for x in rest),
                             "commits have a message", lab, "commits with %s" % [show(x, st) for x in rest], e[4], path_of(o))
            if cmds is not None:
                good = good or not o.raised
                c.oblige(cmds == want or bool(o.raised) and cmds == want[:len(cmds)], "exactly what was asked is executed, in order", lab, "executes %s instead of %s" % (cmds, want), ex[-1][4] if ex else None, path_of(o))
        c.oblige(good, "a bump where nothing fails succeeds", lab, "it always fails", None, None)
    c.oblige(True if seen else None, "commands seen", "main", "no command is executed")


def path_const(v):
    """The text of a path made of constants, None otherwise."""
    import posixpath
    if isinstance(v, Const):
        return v.v if isinstance(v.v, str) else None
    if isinstance(v, Str):
        ps = [x if isinstance(x, str) else path_const(x) for x in v.parts]
        return None if None in ps else "".join(ps)
    if isinstance(v, App):
        f = v.op.split(":")[-1].split(".")[-1]
        args = [path_const(x) for x in v.args if isinstance(x, Val)]
        if None in args or not args:
            return None
        if f == "joinpath" or f == "/" or f == "div" or f == "truediv":
            f = "join"
        if f in ("normpath", "join", "dirname", "abspath", "realpath"):
            return getattr(posixpath, f.replace("realpath", "abspath"))(*args)
        if f in ("Path", "PurePath", "resolve", "as_posix", "str", "fspath", "absolute"):
            return posixpath.normpath(posixpath.join(*args))
        if f == "parent":
            return posixpath.dirname(args[0])
    return None


V, D = "1.2.3", "2019-01-02 03:04:05"
NOW = "2030-06-07 08:09:10"
VTXT = '#! python\n"""v1.2.3"""\n__version__ = "1.2.3"\n__updated__ = "2019-01-02 03:04:05"\n'
READMES = ("pandalone\n", "v1.2.3, of 2019-01-02 03:04:05\n1.2.3 and 1.2.3-1.2.3; not 1x2y3, 1.2 nor 2019-01-02\n", "", "1.2.31 at 2019-01-02 03:04:05.\n\r\n\ttrailing 1.2.3", "1.2.3 at 2019-01-02 03:04:05\n" * 130)


def files_of(root, vtxt, readme):
    import posixpath
    return {posixpath.normpath(root + "/pandalone/_version.py"): vtxt, posixpath.normpath(root + "/README.rst"): readme}


def cfg_files(files, opts):
    """Files with known contents: reading gives them (as written so far), writing is recorded."""
    def content(st, path):
        for e in reversed(st.events()):
            if e[0] == "wrote" and e[1] == path:
                return e[2]
        return files.get(path)

    def opened(it, st, path, mode, enc):
        s = st.fork()
        p = path_const(path)
        m = mode.v if isinstance(mode, Const) else None
        if p is None or m is None:
            raise Undecided("a file whose path or mode is not known")
        import posixpath
        p = posixpath.normpath(p)
        if "w" in m or "x" in m:
            s.event("wrote", p, "")
        elif p not in files:
            return it.raise_new(s, "FileNotFoundError", (Const(p),))
        s.event("opened", p, m, enc)
        return s, App("file", (Const(p), Const(m), Const(s.fresh())), "File_")

    def open_(it, st, args, kwargs, ctx, node):
        k = dict(kwargs)
        yield opened(it, st, args[0], args[1] if len(args) > 1 else k.get("mode", Const("r")), k.get("encoding", args[3] if len(args) > 3 else NONE))

    def handle(obj):
        while isinstance(obj, App) and obj.op == "enter":
            obj = obj.args[0]
        return obj if isinstance(obj, App) and obj.op == "file" else None

    def read(it, obj, st, args, kwargs, ctx, node):
        h = handle(obj)
        return iter([(st, Const(content(st, h.args[0].v)))]) if h is not None else None

    def write(it, obj, st, args, kwargs, ctx, node):
        h = handle(obj)
        if h is None:
            return None
        s = st.fork()
        v = it.strval(args[0], s)
        p = h.args[0].v
        old = content(s, p)
        s.event("wrote", p, old + v.v if isinstance(v, Const) and isinstance(old, str) else Unknown)
        return iter([(s, NONE)])

    def read_text(it, obj, st, args, kwargs, ctx, node):
        s, h = opened(it, st, obj, Const("r"), dict(kwargs).get("encoding", args[0] if args else NONE))
        return iter([(s, h if isinstance(h, Raised) else Const(content(s, h.args[0].v)))])

    def write_text(it, obj, st, args, kwargs, ctx, node):
        s, h = opened(it, st, obj, Const("w"), dict(kwargs).get("encoding", args[1] if len(args) > 1 else NONE))
        return iter([(s, h)]) if isinstance(h, Raised) else write(it, h, s, args, kwargs, ctx, node)

    def docopt(it, st, args, kwargs, ctx, node):
        s = st.fork()
        yield s, s.alloc(DictO([(Const(k), v) for k, v in opts.items()]))

    def strftime(it, obj, st, args, kwargs, ctx, node):
        return iter([(st, Const(NOW))])

    def print_(it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("printed", tuple(it.strval(a, s) for a in args))
        yield s, NONE
    return dict(stubs={"docopt.docopt": docopt, "builtins.open": open_, "io.open": open_, "codecs.open": open_, "builtins.print": print_},
                mstubs={"read": read, "write": write, "read_text": read_text, "write_text": write_text, "strftime": strftime, "isoformat": strftime}, raises="none", loop_k=6, comp_k=6)


Unknown = object()


@check("B04", "Constant-propagating abstract interpretation of the version-bump's main() over a modelled file-system: the texts written against the specified replacement, for families of versions, files and options",
       "Version files with and without version or date; readmes with any number of occurrences and look-alikes; new versions containing the old one, or the same; every outcome of the doc-tests.")
def b04(c):
    c.history = False
    from itertools import product
    mfn = c.fn("bin.bumpver", "main")
    root = c.root
    n = 0
    base = {"<new-ver>": NONE, "--dry-run": FALSE, "--force": FALSE, "--commit": FALSE, "--tag": NONE}
    for vtxt, readme, new, force, dry in product((VTXT, VTXT.replace("__version__", "version"), VTXT.replace("__updated__", "updated"), VTXT.replace('"1.2.3"\n', "'1.2.3'\n")), READMES,
                                                 (None, "1.2.4", "1.2.3", "1.2.3.1", "11.2.3", "2\\g<0>"), (FALSE, TRUE), (FALSE, TRUE)):
        complete = vtxt == VTXT
        if not complete and (readme is not READMES[0] or new not in (None, "1.2.4")):
            continue
        files = files_of(root, vtxt, readme)
        opts = dict(base)
        opts.update({"<new-ver>": NONE if new is None else Const(new), "--force": force, "--dry-run": dry})
        lab = "bump to %s%s%s, readme %r%s" % (new, " forced" * force.v, " dry" * dry.v, readme, "" if complete else ", without version or date")
        good = False
        for o in c.run(mfn, (), label=lab, **cfg_files(files, opts)):
            n += 1
            got = dict(files)
            for e in o.events:
                if e[0] == "wrote":
                    got[e[1]] = e[2]
            if Unknown in got.values():
                c.undecided(lab, "a text written is not known")
                continue
            out = [e[1] for e in o.events if e[0] == "printed"]
            wrote = any(e[0] == "wrote" for e in o.events)
            for e in o.events:
                if e[0] == "opened":
                    enc = e[3].v if isinstance(e[3], Const) else None
                    c.oblige(isinstance(enc, str) and enc.lower().replace("-", "").replace("_", "") == "utf8", "files are read and written as utf-8", lab, "%s is opened in encoding %s" % (e[1], enc), None, path_of(o))
            if not complete:
                c.oblige(o.raised and not wrote, "a missing version or date is refused before any change", lab, "gives %s" % o, None, path_of(o))
                continue
            if new is None:
                txt = [x.v for t in out for x in t if isinstance(x, Const)]
                c.oblige(not o.raised and not wrote and txt == [V, D], "without a version the current ones are printed", lab, "prints %s" % txt, None, path_of(o))
                good = True
                continue
            if new == V and force == FALSE:
                c.oblige(o.raised and not wrote, "the same version is refused before any change", lab, "gives %s" % o, None, path_of(o))
                good = True
                continue
            want = files if dry == TRUE else {p: t.replace(V, new).replace(D, NOW) for p, t in files.items()}
            c.oblige(got == want, "the old version and date are replaced everywhere, and nothing else", lab, "; ".join("%s becomes %r instead of %r" % (p, got[p], want.get(p)) for p in got if got[p] != want.get(p)), None, path_of(o))
            if not o.raised:
                good = True
        if complete:
            c.oblige(good, "a bump succeeds", lab, "it always fails", None, None)
    c.oblige(True if n else None, "paths seen", "main", "no path")
    # the function itself, without options
    for new in ("1.2.4", V):
        files = files_of(root, VTXT, READMES[1])
        for o in c.run(c.fn("bin.bumpver", "bumpver"), (Const(new),), drain=True, label="bumpver(%s)" % new, **cfg_files(files, base)):
            got = dict(files)
            for e in o.events:
                if e[0] == "wrote":
                    got[e[1]] = e[2]
            if Unknown in got.values():
                continue
            if new == V:
                c.oblige(o.raised and got == files, "the same version is refused before any change", "bumpver(%s)" % new, "gives %s" % o, None, path_of(o))
            else:
                c.oblige(got == {p: t.replace(V, new).replace(D, NOW) for p, t in files.items()}, "the old version and date are replaced everywhere, and nothing else", "bumpver(%s)" % new, "files become %s" % got, None, path_of(o))


COMP = "pandalone.components"


@check("K01", "Typestate over two successive abstract builds of one function-component (arbitrary function behaviour, incl. failing): freshness and provenance of its path lists",
       "The component's function is an arbitrary callee which may use either path-step or none, and may fail in the first build.")
def k01(c):
    cls = c.fn(COMP, "FuncComponent")
    pm = (Sym("pmod1", "Pmod_"), Sym("pmod2", "Pmod_"))

    def pstep(it, st, args, kwargs, ctx, node):
        st = st.fork()
        v = App("pstep", (st.fresh(),), "Pstep_")
        kw = dict((k, x) for k, x in kwargs if k)
        maps = kw.get("maps", args[1] if len(args) > 1 else NONE)
        st.event("pstep", v, maps)
        for truth in (True, False):            # path-steps are texts: that of an empty name is false
            s = st.fork()
            s.facts[("truth", v)] = truth
            yield s, v

    def cfunc(it, st, args, kwargs, ctx, node):
        comp = args[0]
        st = st.fork()
        st.event("cfunc", comp)
        for uses in ((), ("pinp",), ("pout",), ("pinp", "pout"), ("pinp", "pinp"), ("pout", "pinp", "pout")):
            states = [(st, ())]
            for u in uses:
                nxt = []
                for s, vs in states:
                    for s1, m in it.getattr_(comp, u, s, ctx, node):
                        for s2, r in it.call(m, (), (), s1, ctx, node):
                            s2 = s2.fork()
                            s2.event("used", u, r)
                            nxt.append((s2, vs + (r,)))
                states = nxt
            for s, _ in states:
                yield s, NONE
                if uses and it.may_fail:
                    yield it.raise_new(s, "ValueError")

    def paths(it, obj, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("paths", obj)
        return iter([(s, s.alloc(ListO(paths_of(obj))))])

    Interp.may_fail = True
    cfg = dict(stubs={"Pstep": pstep, "input.cfunc": cfunc}, mstubs={"_paths": paths}, raises="none")
    outs = c.run(cls, (Ext("input.cfunc"),), {"name": Sym("name", "str")}, label="FuncComponent()", **cfg)
    for o in outs:
        if o.raised:
            continue
        comp = o.val
        firsts = build(c, comp, pm[0], o.st, cfg)
        judge_k01(c, comp, pm[0], firsts, "first build")
        for f in firsts:
            for pmod in (pm[1], NONE):
                seconds = build(c, comp, pmod, f.st, cfg)
                judge_k01(c, comp, pmod, seconds, "re-build" + (" after a failed one" if f.raised else "") + (" without a mapping" if pmod == NONE else ""))


def paths_of(pstep):
    return tuple(App("path%d" % i, (pstep,), "str") for i in range(2))


def build(c, comp, pmod, st, cfg):
    it = Interp(c.prog, Config(**cfg))
    out = []
    for s, m in it.getattr_(comp, "_build", st, it.topctx(), None):
        out += c.run(m, (pmod,), st=s, label="_build", **cfg)
    return out


def judge_k01(c, comp, pmod, outs, what):
    for o in outs:
        ran = [e for e in o.events if e[0] == "cfunc"]
        c.oblige(len(ran) == 1, "the function is called once per build", what, "called %d times" % len(ran), None, path_of(o))
        psteps = [e for e in o.events if e[0] == "pstep"]
        for e in psteps:
            c.oblige(e[2] == pmod, "path-steps use the mapping of this build", what, "path-step made with mapping %s in the build given %s" % (show(e[2], o.st), show(pmod)), None, path_of(o))
        used = {}
        mine = set(e[1] for e in psteps)
        for e in o.events:
            if e[0] == "used":
                c.oblige(e[2] in mine, "path-steps are made anew in each build", "%s: %s" % (what, e[1]), "%s() gave %s, not made in this build" % (e[1], show(e[2], o.st)), None, path_of(o))
                c.oblige(used.setdefault(e[1], e[2]) == e[2], "one path-step per build", "%s: %s" % (what, e[1]), "two calls gave different path-steps", None, path_of(o))
        if len(used) == 2:
            c.oblige(used["pinp"] != used["pout"], "inputs and outputs do not mix", what, "input and output path-steps are the same", None, path_of(o))
        if o.raised:
            continue
        for attr, u in (("_inp", "pinp"), ("_out", "pout")):
            want = paths_of(used[u]) if u in used else ()
            got = list_parts(comp, attr, o)
            if got is None:
                c.undecided("%s of a component" % attr, "not a list of known parts")
                continue
            c.oblige(tuple(got) == want, "inputs/outputs are exactly the paths of their step-tree", "%s: %s" % (what, attr),
                     "%s holds %s instead of %s" % (attr, [show(x, o.st) for x in got], [show(x) for x in want]), None, path_of(o))


def list_parts(obj, attr, o):
    """Parts (opaque sources / elements) making up the list in obj.attr."""
    it = o.it
    for s, v in it.getattr_(obj, attr, o.st, it.topctx(), None):
        return parts_of(v, o.st)
    return None


def parts_of(v, st):
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, ListO):
            out = []
            for x in o.items:
                if isinstance(x, App) and x.op == "*":
                    out.append(x.args[0])
                elif isinstance(x, App) and x.op == "elem":
                    if not out or out[-1] != x.args[0]:
                        out.append(x.args[0])
                else:
                    out.append(x)
            if o.open and o.base is not None and o.base not in out:
                out.append(o.base)
            return out
        if isinstance(o, CopyO):
            return [o.base]
    if isinstance(v, Tup):
        return list(v.items)
    return None


@check("K02", "Abstract interpretation of an assembly's build over components with overlapping symbolic path lists: call order, mapping flow, set and order facts of the result",
       "Components are arbitrary objects whose lists only exist after their own build; up to three of them.")
def k02(c):
    cls = c.fn(COMP, "Assembly")
    w = [Sym("w%d" % i, "str", "word") for i in range(6)]
    table = {0: ([], []), 1: ([w[0], w[1]], [w[2]]), 2: ([w[1], w[3]], [w[2], w[4]]), 3: ([], [w[0], w[4]])}
    combos = [(), (1,), (1, 2), (2, 1), (1, 2, 3), (3, 1, 2), (0, 3)]
    pmod = Sym("pmod", "Pmod_")
    pmod2 = Sym("pmod2", "Pmod_")
    for combo in combos:
        comps = [Sym("comp%d" % k, "Component_", "distinct") for k in combo]

        def lists(i, m):
            return table[i] if m != pmod2 else table[(i + 1) % 4]

        def bld(it, obj, st, args, kwargs, ctx, node):
            if obj not in comps:
                return None
            s = st.fork()
            m = args[0] if args else dict(kwargs).get("pmod", NONE)
            s.event("built", obj, m)
            inp, out = lists(combo[comps.index(obj)], m)
            for a, l in (("_inp", inp), ("_out", out)):
                s.over[(obj, "attr", a)] = s.alloc(ListO(l, origin="input:" + obj.name))
            return iter([(s, NONE)])
        cfg = dict(mstubs={"_build": bld}, raises="none")
        for given in ("a list", "an iterator"):
            st = c.state()
            arg = st.alloc(ListO(comps))
            if given == "an iterator":
                st, arg = next(models.EXT["builtins.iter"](Interp(c.prog, Config(**cfg)), (arg,), (), st, Interp(c.prog, Config(**cfg)).topctx(), None))
            for o in c.run(cls, (arg,), st=st, label="Assembly()", **cfg):
                if o.raised:
                    c.bad("assembly constructs", "Assembly(%d components)" % len(combo), "construction raises")
                    continue
                todo = [(o.st, "")]
                for m, nth in ((pmod, ""), (pmod2, ", built again")):
                    nxt = []
                    for s, _ in todo:
                        nxt += assembled(c, cfg, s, o.val, m, comps, [lists(i, m) for i in combo], "%d components of %s%s" % (len(combo), given, nth))
                    todo = nxt


def assembled(c, cfg, st, asm, pmod, comps, wants, label):
    out = []
    it = Interp(c.prog, Config(**cfg))
    for s, m in it.getattr_(asm, "_build", st, it.topctx(), None):
        for r in c.run(m.fn if isinstance(m, Bound) else m, (asm, pmod) if isinstance(m, Bound) else (pmod,), st=s, label="Assembly._build", **cfg):
            built = [e for e in r.events if e[0] == "built"]
            c.oblige(not r.raised, "building succeeds", label, "raises", None, path_of(r))
            if r.raised:
                continue
            c.oblige([e[1] for e in built] == comps or sorted(map(repr, [e[1] for e in built])) == sorted(map(repr, comps)), "every component is built once", label,
                     "built %s" % [show(e[1]) for e in built], None, path_of(r))
            c.oblige(all(e[2] == pmod for e in built), "components get the mapping given", label, "built with %s" % [show(e[2]) for e in built], None, path_of(r))
            for e in r.writes():
                if str(e[7]).startswith("input:comp"):
                    c.bad("components' lists are only read", label, "writes into a component's own list", e[5], path_of(r))
            for k, attr in ((0, "_inp"), (1, "_out")):
                want = set(x for l in wants for x in l[k])
                for s2, v in it.getattr_(asm, attr, r.st, it.topctx(), None):
                    ob = s2.heap.get(v.oid) if isinstance(v, Ref) else None
                    if not isinstance(ob, ListO) or ob.open:
                        c.undecided("%s of the assembly" % attr, "not a list of known elements: %s" % show(v, s2))
                        continue
                    c.oblige(len(ob.items) == len(set(ob.items)) and set(ob.items) == want, "the union, without duplicates", "%s, %s" % (label, attr),
                             "%s instead of the elements %s" % (show(v, s2), sorted(map(repr, want))), None, path_of(r))
                    if len(want) > 1:
                        c.oblige(s2.over.get((v, "sorted", None)) == TRUE, "sorted", "%s, %s" % (label, attr), "not sorted", None, path_of(r))
            out.append((r.st, ""))
    return out


@check("K03", "Abstract interpretation of construction, path-steps and calls of function-components with an arbitrary function and symbolic names and arguments",
       "Function names with the prefix once, twice, in the middle, alone, or not at all; with names given, empty or not; calls with zero to two arguments by position and name, the function returning or failing.")
def k03(c):
    cls = c.fn(COMP, "FuncComponent")
    given = Sym("given", "str", ("word",))
    a1, a2, k1 = (Sym(x, None, ("shared",)) for x in ("arg1", "arg2", "kw1"))
    n = 0

    def cfunc(it, st, args, kwargs, ctx, node):
        s = st.fork()
        s.event("cfunc", tuple(args), tuple(sorted((k, v) for k, v in kwargs)))
        yield s, Sym("result")
        yield it.raise_new(s, "ValueError", (Const("boom"),))

    def pstep(it, st, args, kwargs, ctx, node):
        s = st.fork()
        kw = dict((k, x) for k, x in kwargs if k)
        v = App("pstep", (st.fresh(),), "Pstep_")
        s.facts[("truth", v)] = True
        s.event("pstep", v, kw.get("pname", args[0] if args else NONE), kw.get("maps", args[1] if len(args) > 1 else NONE))
        yield s, v

    pmod = Sym("pmod", "Pmod_")
    cfg = dict(stubs={"Pstep": pstep}, raises="none")
    for fname, name in [(x, None) for x in ("cfunc_foo", "foo", "cfunc_cfunc_a", "a_cfunc_b", "cfuncs_x", "cfunc", "Cfunc_x", "x_cfunc_", "cfunc__y", "func_cfu")] + [("cfunc_foo", given), ("foo", Const("cfunc_bar")), ("cfunc_foo", Const("foo"))]:
        st = c.state()
        f = Ext("input." + fname)
        cfg["stubs"]["input." + fname] = cfunc
        for o in c.run(cls, (f,) + ((name,) if name is not None else ()), st=st, label="FuncComponent(%s)" % fname, **cfg):
            lab = "function %s, name %s" % (fname, "not given" if name is None else show(name))
            if o.raised:
                c.bad("components are made of any function", lab, "raises %s" % o.exc_names(), None, path_of(o))
                continue
            want = name if name is not None else Const(fname[6:] if fname.startswith("cfunc_") else fname)
            for g in c.op("get", o.st, o.val, "_name", **cfg):
                n += 1
                c.oblige(not g.raised and g.o_eq(want), "named as given, else by the function", lab, "its name is %s" % (g if g.raised else show(g.val, g.st)), None, path_of(g))
            for args, kwargs in (((), ()), ((a1,), ()), ((a1, a2), ()), ((a1,), (("key", k1),)), ((), (("key", k1), ("other", a2)))):
                for r in c.op("call", o.st, o.val, "__call__", args, label="call", **cfg) if not kwargs else c.run(o.val, args, kwargs, st=o.st, label="call", **cfg):
                    ran = [e for e in r.events if e[0] == "cfunc"]
                    c.oblige(len(ran) == 1 and ran[0][1] == (o.val,) + args and ran[0][2] == tuple(sorted(kwargs)), "a call calls the function once, with the component and the arguments", lab,
                             "calls %s" % [(list(map(show, e[1])), [(k, show(v)) for k, v in e[2]]) for e in ran], None, path_of(r))
                    if r.raised:
                        c.oblige(r.raises("ValueError") if ran else False, "the function's failures reach the caller", lab, "raises %s" % r.exc_names(), None, path_of(r))
            for b in c.op("call", o.st, o.val, "_build", (pmod,), label="_build", **cfg):
                if b.raised:
                    continue
                for acc in ("pinp", "pout"):
                    for path in (None, Sym("path", "str", ("word",)), Const("a/b")):
                        for r in c.op("call", b.st, o.val, acc, () if path is None else (path,), label=acc, **cfg):
                            made = [e for e in r.events if e[0] == "pstep"]
                            ok = not r.raised and len(made) == 1 and r.val == made[0][1] and made[0][3] == pmod
                            c.oblige(ok, "path-steps are made with the mapping", "%s, %s" % (lab, acc), "gives %s" % r, None, path_of(r))
                            if ok:
                                w = path if path is not None else want
                                c.oblige((r.it.strval(made[0][2], r.st) or made[0][2]) == w, "path-steps start at the path asked for, else at the name", "%s, %s" % (lab, acc), "starts at %s" % show(made[0][2], r.st), None, path_of(r))
    c.oblige(True if n else None, "components made", "FuncComponent", "none")
